// Properties of the interpreter, decided on the decoding step of each
// instruction joined with the code its bytecode selects (see regions.hpp).
#include "regions.hpp"
#include "par.hpp"
#include "sym.hpp"
#include "llvm/Analysis/CFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
namespace lva {
void setupMemProver(Prover &P);

static const char *BEGIN = "loongarch::DecodedExecuteSegment::m_exec_begin", *END = "loongarch::DecodedExecuteSegment::m_exec_end";

// the call through the table of instruction handlers, if F has one
CallBase *handlerCall(Function &F) {
	for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!calleeOf(CB) && !CB->isInlineAsm() && CB->getType()->isVoidTy() && CB->arg_size() == 2 && CB->getArgOperand(1)->getType()->isIntegerTy(32))
		if (auto *L = dyn_cast<LoadInst>(CB->getCalledOperand())) { auto *b = L->getPointerOperand(); while (auto *G = dyn_cast<GEPOperator>(b)) b = G->getPointerOperand();
			if (auto *T = dyn_cast<LoadInst>(b)) b = T->getPointerOperand();
			if (!isa<GlobalVariable>(b->stripInBoundsConstantOffsets())) continue;
			std::set<Value*> seen; std::vector<Value*> wl{L->getPointerOperand()}; // selected by the decoder entry's handler index
			while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue; if (auto *Q = dyn_cast<LoadInst>(v)) if (fieldKey(Q->getPointerOperand(), F.getParent()->getDataLayout()) == "loongarch::DecoderData::handler_idx") return CB; if (auto *I2 = dyn_cast<Instruction>(v)) for (auto &o : I2->operands()) wl.push_back(o); } }
	return nullptr;
}
std::vector<Composed> composeAll(Ctx &C, CpuModel &M, Dispatch &D, int64_t id) {
	auto cs = compose(C, M, D, id); bool open = false;
	for (auto &c : cs) if (!c.F && c.bytecode == -1) open = true;
	if (open) {
		llvm::erase_if(cs, [](Composed &c) { return !c.F && c.bytecode == -1; });
		std::set<int> have; for (auto &c : cs) have.insert(c.bytecode);
		// the generic bytecodes: those whose code calls through the handler table
		for (auto &r : D.regions) {
			if (r.X.F == nullptr || !handlerCall(*r.X.F)) continue;
			for (auto &c : compose(C, M, D, id, (int)r.bytecode)) { if (c.bytecode >= 0 && have.insert(c.bytecode).second) cs.push_back(c); else if (c.F) c.F->eraseFromParent(); }
		}
	}
	return cs;
}

// is every way back from I to the start of F through a store to the field (nothing unknown in between)?
static bool storedBefore(Instruction *I, const std::string &key, const DataLayout &DL, std::vector<StoreInst*> &out) {
	std::set<BasicBlock*> seen; bool ok = true;
	std::function<void(BasicBlock*, Instruction*)> back = [&](BasicBlock *B, Instruction *from) {
		for (auto *J = from ? from->getPrevNode() : B->getTerminator(); J; J = J->getPrevNode()) {
			if (auto *S = dyn_cast<StoreInst>(J)) if (fieldKey(S->getPointerOperand(), DL) == key) { out.push_back(S); return; }
			if (auto *CB = dyn_cast<CallBase>(J)) if (!isa<IntrinsicInst>(CB) && !CB->onlyReadsMemory() && !CB->onlyAccessesInaccessibleMemory() && !(CB->getCalledFunction() && CB->getCalledFunction()->getName().starts_with("lva."))) { ok = false; return; }
		}
		if (pred_empty(B)) { ok = false; return; }
		for (auto *P : predecessors(B)) if (seen.insert(P).second) back(P, nullptr);
	};
	back(I->getParent(), I);
	return ok;
}
static const char *PC = "loongarch::Registers::pc", *CTR = "loongarch::Machine::m_counter", *MAXI = "loongarch::Machine::m_max_instructions";


struct Flow {
	Ctx &C; CpuModel &M; Dispatch &D; Function &F; std::string what; std::string want; bool seq = false, leaves = false, generic = false;
	Report &R; std::unique_ptr<Prover> P; std::unique_ptr<Sym> S;
	Flow(Ctx &C, CpuModel &M, Dispatch &D, Function &F, const std::string &what, const std::string &want) : C(C), M(M), D(D), F(F), what(what), want(want), R(C.R) {
		P = std::make_unique<Prover>(F, C); setupMemProver(*P); P->stable.insert(BEGIN); P->stable.insert(END);
		S = std::make_unique<Sym>(*C.DL);
	}
	bool on(const char *k) { return want.find(k) != std::string::npos; }
	void done(bool ok, const char *rule, const Instruction *I, const std::string &site, const std::string &msg, const std::string &detail = "") {
		auto L = projLocOf(I); R.count("obligations"); R.count(std::string("obligations_") + rule);
		if (ok) { R.count("discharged"); R.sample(what + ": " + site + " at " + L.file + ":" + std::to_string(L.line) + (detail.empty() ? "" : " (" + detail + ")"), 30); }
		else R.violation(rule, site, what, L.file, L.line, what + " [" + D.name + "]: " + msg + (detail.empty() ? "" : " (" + detail + ")"));
	}
	Value *input(const char *n, Instruction *at) { std::string k = std::string("lva.in.") + n; for (auto &I : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (auto *c = CI->getCalledFunction()) if (c->getName().starts_with(k) && P->DT->dominates(CI, at)) return CI; return nullptr; }
	// the block length of the entry p, as a term of v
	bool blockTerm(const SVal &v, const SVal &p, int &atom) {
		for (auto &q : v.c) { if (q.second != 1) continue; int l = S->leafOfAtom(q.first); if (l < 0 || S->leaves[l].w != 16) continue; auto *L = dyn_cast_or_null<LoadInst>(S->leaves[l].rep); if (L && S->eval(L->getPointerOperand()) == S->add(p, S->cst(64, M.offBlock))) { atom = q.first; return true; } }
		return false;
	}
	SVal countOf(int atom) { auto b = S->atoms[atom]; std::vector<SBit> n(b.begin() + 2, b.end()); n.resize(64, SBit{-1, 0}); return S->add(S->fromBits(n), S->cst(64, 1)); }
	void nexts(Function *mark);
	std::vector<std::pair<CallInst*, CallInst*>> tails, returns, taken; SVal takenTo;
	void stops();
};
static std::string num(uint64_t v) { return std::to_string((int64_t)v); }

void Flow::nexts(Function *mark) {
	Value *entry = F.getArg(F.arg_size() - 1);
	SVal E = S->eval(entry);
	std::vector<CallInst*> at;
	for (auto &I : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->getCalledFunction() && CI->getCalledFunction()->getName() == "lva.at") at.push_back(CI);
	for (auto &I : instructions(F)) {
		auto *CI = dyn_cast<CallInst>(&I); if (!CI || !CI->getCalledFunction()) continue;
		bool nx = CI->getCalledFunction() == M.fnNext, tl = CI->getCalledFunction() == M.fnTail;
		if (!nx && !tl) continue;
		R.count(nx ? "continuations" : "tail_continuations");
		CallInst *A = nullptr; for (auto *a : at) if (P->DT->dominates(a, CI)) A = a;
		if (!A) { done(false, "control-flow", CI, "continuation", "no single decoding step leads here"); continue; }
		SVal pc0 = S->eval(A->getArgOperand(0)), bb = S->eval(A->getArgOperand(1));
		bool bbZero = bb.isConst() && bb.k == 0;
		Value *cin = input("counter", CI);
		if (tl) {
			leaves = true;
			if (on("block")) done(bbZero, "block-end", CI, "leaving the block", "an instruction that leaves its block is not marked as the end of the block");
			auto *t = dyn_cast<ConstantInt>(CI->getArgOperand(0)); bool ret = false;
			if (t) for (auto &T : D.tailRegions) if (T.id == t->getZExtValue()) ret = T.pc == nullptr;
			if (ret) returns.push_back({CI, A});
			else {
				tails.push_back({CI, A});
				if (on("count") && D.counter) done(cin ? S->eval(CI->getArgOperand(2)) == S->eval(cin) : S->eval(CI->getArgOperand(2)) == S->cst(64, 0), "counting", CI, "leaving the block", "the instruction counter changes when a block is left");
			}
			continue;
		}
		SVal dec = S->eval(CI->getArgOperand(0)), pcn = S->eval(CI->getArgOperand(1)), o = S->add(dec, E, ~0ull);
		SVal ct = S->eval(CI->getArgOperand(2)); SVal c0 = cin ? S->eval(cin) : S->cst(64, 0);
		bool counted = D.counter != nullptr;
		// within the block
		if (o.isConst() && o.k == M.size && pcn == S->add(pc0, S->zext(bb, 64)) && !bbZero) {
			seq = true;
			if (on("flow")) done(true, "control-flow", CI, "next instruction of the block", "");
			if (on("block")) done(!bbZero, "block-end", CI, "staying in the block", "");
			if (on("count") && counted) done(!cin ? ct == S->cst(64, 0) : ct == c0, "counting", CI, "next instruction of the block", "the instruction counter changes inside a block", S->show(S->add(ct, c0, ~0ull)));
			continue;
		}
		int atom = -1; bool has = blockTerm(pcn, dec, atom);
		SVal T = S->add(pcn, pc0, ~0ull);
		if (has) { SVal b; b.w = 64; b.c[atom] = 1; T = S->add(T, b, ~0ull); }
		bool fall = T.isConst() && T.k == 4;
		bool match = has && S->scale(T, M.size / 4) == o;
		leaves = true;
		if (on("flow")) {
			done(match, "control-flow", CI, fall ? "fall-through" : "branch target", has ? "decoder entry and program counter of the continuation do not correspond" : "the program counter of the continuation does not include the length of the block it enters", "entry offset " + S->show(o) + ", pc offset " + S->show(T));
			if (match && !fall) { // stays inside the segment
				taken.push_back({CI, A}); takenTo = S->add(pc0, T);
				const Value *tv = nullptr; SVal tp = S->add(pc0, T);
				for (auto &J : instructions(F)) if (J.getType()->isIntegerTy(64) && !isa<PHINode>(J) && P->DT->dominates(&J, CI) && S->eval(&J) == tp) { tv = &J; break; }
				bool lo = false, hi = false;
				if (tv) { lo = P->proveLE(P->symField(BEGIN), P->val(tv), CI); hi = P->proveLE(P->val(tv).plus(Lin::cst(4)), P->symField(END), CI); }
				done(tv && lo && hi, "branch-range", CI, "branch target inside the segment", "a direct branch is not confined to the segment it was decoded for", tv ? "" : "target not identified");
			}
		}
		if (on("block")) done(bbZero, "block-end", CI, fall ? "fall-through" : "branch", "an instruction that leaves its block is not marked as the end of the block");
		if (on("count") && counted && match) done(cin && ct == S->add(c0, countOf(atom)), "counting", CI, fall ? "fall-through" : "branch", "entering a block does not count exactly its instructions", S->show(S->add(ct, c0, ~0ull)));
		if (on("budget") && counted && !fall) {
			Value *limit = CI->getArgOperand(3);
			bool ok = cin && limit && P->proveLE(P->val(cin).plus(Lin::cst(1)), P->val(limit), CI);
			done(ok, "budget", CI, "taken branch", "a branch is taken without comparing the instruction counter with the limit");
		}
	}
	// the way out of a taken branch goes to the same place
	if (on("flow") && !taken.empty()) for (auto &t : tails) done(S->eval(t.first->getArgOperand(1)) == takenTo, "control-flow", t.first, "taken branch at the limit", "a branch that reaches the limit continues somewhere else");
	if (on("budget") || on("stop")) for (auto &t : returns) {
		std::vector<StoreInst*> ps, cs; bool p = storedBefore(t.first, PC, *C.DL, ps); for (auto *s : ps) if (!(S->eval(s->getValueOperand()) == S->add(S->eval(t.second->getArgOperand(0)), S->cst(64, 4)))) p = false;
		R.count("loop_exits");
		done(p, "resume-point", t.first, "leaving the loop", "the loop is left without the program counter of the next instruction");
		if (D.counter) { auto *cin = input("counter", t.first); bool c = storedBefore(t.first, CTR, *C.DL, cs); for (auto *s : cs) if (!cin || !(S->eval(s->getValueOperand()) == S->eval(cin))) c = false;
			done(c, "resume-point", t.first, "leaving the loop with the counter", "the loop is left without writing back the instruction counter"); }
	}
	if (on("stop")) stops();
	(void)mark;
}
// after a call that can stop the machine or move its program counter, the loop looks again
void Flow::stops() {
	auto after = [&](const Instruction *a, const Instruction *b) { return isPotentiallyReachable(a, b, nullptr, P->DT.get(), P->LI.get()); };
	for (auto &I : instructions(F)) {
		auto *CB = dyn_cast<CallBase>(&I); if (!CB || calleeOf(CB) || CB->isInlineAsm() || !CB->getType()->isVoidTy() || CB->arg_size() < 1 || CB->arg_size() > 2 || (generic && CB->arg_size() == 2) || !CB->getArgOperand(0)->getType()->isPointerTy() || S->eval(CB->getArgOperand(0)).c != S->eval(F.getArg(F.arg_size() - 2)).c) continue;
		R.count("machine_calls");
		std::vector<CallInst*> ends; for (auto &J : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&J)) if (CI->getCalledFunction() == M.fnNext || CI->getCalledFunction() == M.fnTail) ends.push_back(CI);
		for (auto *CI : ends) {
			if (!after(CB, CI)) continue;
			auto *lim = CI->getArgOperand(3); auto *L = dyn_cast<LoadInst>(lim);
			bool re = L && fieldKey(L->getPointerOperand(), *C.DL) == MAXI && !after(L, CB);
			done(re, "stop", CI, "limit after a system call", "the limit is not read again after a call that may stop the machine");
			if (CI->getCalledFunction() == M.fnNext) {
				done(P->proveNE(lim, APInt(64, 0), CI), "stop", CI, "continuing after a system call", "execution continues although the call may have stopped the machine");
				std::vector<StoreInst*> ps; bool moved = false;
				for (auto &J : instructions(F)) if (auto *Q = dyn_cast<LoadInst>(&J)) if (fieldKey(Q->getPointerOperand(), *C.DL) == PC && P->DT->dominates(Q, CI) && !after(Q, CB)) {
					if (storedBefore(CB, PC, *C.DL, ps)) { bool eq = !ps.empty(); for (auto *s : ps) if (!P->proveLE(P->val(Q), P->val(s->getValueOperand()), CI) || !P->proveLE(P->val(s->getValueOperand()), P->val(Q), CI)) eq = false; moved = moved || eq; }
				}
				done(moved, "stop", CI, "program counter after a system call", "execution continues at the next instruction although the call may have moved the program counter");
			}
		}
	}
}

// ---- the zero register ----
struct ZeroReg {
	Ctx &C; Function &F; std::string what; Report &R; std::unique_ptr<Prover> P; uint64_t offRegs = 0;
	ZeroReg(Ctx &C, Function &F, const std::string &what) : C(C), F(F), what(what), R(C.R) { P = std::make_unique<Prover>(F, C); setupMemProver(*P); }
	static bool inRegs(const Value *p, const DataLayout &DL) { return fieldKey(p, DL) == "loongarch::Registers::m_regs"; }
	// index of the register p points to: constant, or the value of the last variable index
	bool index(const Value *p, int64_t &k, const Value *&v) {
		auto *m = FM->memberByName("loongarch::Registers", "m_regs"); if (!m) return false;
		// exact: constant offset from the register file or the machine
		v = nullptr; k = -1; int64_t acc = 0; bool konst = true;
		while (auto *G = dyn_cast<GEPOperator>(p)) {
			APInt o(64, 0); if (G->accumulateConstantOffset(*C.DL, o)) acc += o.getSExtValue(); else { konst = false;
				if (!v) v = G->getOperand(G->getNumOperands() - 1); if (isa<ConstantInt>(v)) v = nullptr; }
			std::string n = irStructName(G->getSourceElementType()); 
			if (konst && n == "loongarch::Registers") { k = (acc - (int64_t)m->off) / 8; return true; }
			p = G->getPointerOperand();
		}
		if (konst) { k = acc >= (int64_t)m->off && acc < (int64_t)m->off + 256 ? (acc - (int64_t)m->off) / 8 : -1; return k >= 0; }
		return v != nullptr;
	}
	bool isZeroing(const Instruction &I) {
		auto *S = dyn_cast<StoreInst>(&I); if (!S) return false; auto *c = dyn_cast<Constant>(S->getValueOperand()); if (!c || !c->isNullValue() || !inRegs(S->getPointerOperand(), *C.DL)) return false;
		int64_t k; const Value *v; return index(S->getPointerOperand(), k, v) && !v && k == 0;
	}
	// does every way on from I pass a zeroing before the loop goes on, the function returns or an exception leaves it?
	bool zeroedAfter(const Instruction *I, const Instruction *&bad) {
		std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*, const Instruction*>> wl{{I->getParent(), I->getNextNode()}};
		if (auto *Iv = dyn_cast<InvokeInst>(I)) wl = {{Iv->getNormalDest(), &Iv->getNormalDest()->front()}};
		while (!wl.empty()) {
			auto [B, J] = wl.back(); wl.pop_back(); bool stop = false;
			for (; J && !stop; J = J->getNextNode()) {
				if (isZeroing(*J)) { stop = true; break; }
				if (auto *CB = dyn_cast<CallBase>(J)) {
					auto *c = calleeOf(CB);
					if (c && (c->getName() == "lva.next" || c->getName() == "lva.tail" || c->getName() == "lva.ret")) { bad = J; return false; }
					if (isa<IntrinsicInst>(CB) || (c && c->getName().starts_with("lva."))) continue;
					if (!CB->doesNotThrow()) { bad = J; return false; }
				}
				if (isa<ReturnInst>(J) || isa<ResumeInst>(J)) { bad = J; return false; }
				if (J->isTerminator()) for (auto *s : successors(B)) if (seen.insert(s).second) wl.push_back({s, &s->front()});
			}
		}
		return true;
	}
	// atEnd: what is written may still be there when the function returns (the caller clears it)
	void run(bool atEnd) {
		auto fin = [&](bool ok, const Instruction *I, const std::string &site, const std::string &msg) {
			auto L = projLocOf(I); R.count("obligations"); R.count("register_writes");
			if (ok) { R.count("discharged"); R.sample(what + ": " + site + " at " + L.file + ":" + std::to_string(L.line), 30); } else R.violation("zero-register", site, what, L.file, L.line, what + ": " + msg);
		};
		for (auto &B : F) for (auto &I : B) {
			if (auto *CB = dyn_cast<CallBase>(&I)) {
				const LoadInst *L = calleeOf(CB) ? nullptr : dyn_cast<LoadInst>(CB->getCalledOperand());
				if (L && CB->arg_size() == 2 && CB->getArgOperand(1)->getType()->isIntegerTy(32) && (fieldKey(L->getPointerOperand(), *C.DL) == "loongarch::Instruction::handler" || handlerish)) {
					const Instruction *bad = nullptr; fin(zeroedAfter(CB, bad), CB, "instruction handler call", "an instruction handler may leave a value in the zero register and execution goes on without clearing it");
				}
				continue;
			}
			auto *S = dyn_cast<StoreInst>(&I); if (!S || !inRegs(S->getPointerOperand(), *C.DL)) continue;
			if (auto *c = dyn_cast<Constant>(S->getValueOperand()); c && c->isNullValue()) continue;
			int64_t k; const Value *v;
			if (!index(S->getPointerOperand(), k, v)) { fin(false, S, "register write", "register number not recognised"); continue; }
			if (!v) { if (k == 0) { const Instruction *bad; fin(zeroedAfter(S, bad), S, "write of register 0", "the zero register is written"); } else R.count("fixed_register_writes"); continue; }
			bool ok = P->proveNE(v, APInt(v->getType()->getIntegerBitWidth(), 0), S); const Instruction *bad = nullptr;
			if (!ok) ok = zeroedAfter(S, bad);
			if (!ok && atEnd && bad && isa<ReturnInst>(bad)) { // only a return is allowed to come first
				ok = onlyReturns(S);
			}
			fin(ok, S, "register write", "the destination may be the zero register, which then keeps the value");
		}
	}
	bool handlerish = false;
	bool onlyReturns(const Instruction *I) {
		std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*, const Instruction*>> wl{{I->getParent(), I->getNextNode()}};
		while (!wl.empty()) {
			auto [B, J] = wl.back(); wl.pop_back();
			for (; J; J = J->getNextNode()) {
				if (isZeroing(*J)) break;
				if (auto *CB = dyn_cast<CallBase>(J)) if (!isa<IntrinsicInst>(CB) && !CB->doesNotThrow()) return false;
				if (isa<ResumeInst>(J)) return false;
				if (J->isTerminator()) for (auto *s : successors(B)) if (seen.insert(s).second) wl.push_back({s, &s->front()});
			}
		}
		return true;
	}
};

// what happens between leaving a block and entering the next one
struct TailCheck {
	Ctx &C; CpuModel &M; Dispatch &D; Dispatch::Tail &T; Report &R; std::string want, what; bool entry;
	Function &F; std::unique_ptr<Flow> W;
	uint64_t offB, offE, offC;
	std::vector<CallInst*> named(const char *n) { std::vector<CallInst*> r; for (auto &I : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->getCalledFunction() && CI->getCalledFunction()->getName() == n) r.push_back(CI); return r; }
	TailCheck(Ctx &C, CpuModel &M, Dispatch &D, Dispatch::Tail &T, const std::string &want) : C(C), M(M), D(D), T(T), R(C.R), want(want), what(T.id == 9999 ? "loop entry" : "block transition"), entry(T.id == 9999), F(*T.X.F) {}
	bool range(Value *b, Value *e, const Value *X, const Instruction *at) {
		return W->P->proveLE(W->P->val(b), W->P->val(X), at) && W->P->proveLE(W->P->val(X).plus(Lin::cst(1)), W->P->val(e), at);
	}
	const LoadInst *loadOf(const Value *v) { auto s = W->S->eval(v); if (s.c.size() != 1 || s.k || s.c.begin()->second != 1) return dyn_cast<LoadInst>(v); int l = W->S->leafOfAtom(s.c.begin()->first); return l < 0 ? nullptr : dyn_cast_or_null<LoadInst>(W->S->leaves[l].rep); }
	bool isEmptyObject(const Value *E) {
		auto *L = dyn_cast<LoadInst>(E); auto *G = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()->stripInBoundsConstantOffsets()) : nullptr; if (!G) return false;
		unsigned n = 0;
		for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getPointerOperand() == L->getPointerOperand() && !isa<ConstantPointerNull>(S->getValueOperand())) {
			auto o = W->S->eval(S->getValueOperand()); bool b = false, e = false; n++;
			for (auto &J : instructions(F)) if (auto *Z = dyn_cast<StoreInst>(&J)) if (auto *k = dyn_cast<ConstantInt>(Z->getValueOperand()); k && k->isZero()) { auto p = W->S->eval(Z->getPointerOperand()); if (p == W->S->add(o, W->S->cst(64, offB))) b = true; if (p == W->S->add(o, W->S->cst(64, offE))) e = true; }
			if (!b || !e) return false;
		}
		return n > 0;
	}
	// every object E may be either covers X or is the empty one
	bool covers(const Value *E, const Value *X, const Instruction *at, bool nonEmpty, std::set<const Value*> &seen, std::string &why) {
		if (auto *Ph = dyn_cast<PHINode>(E)) {
			if (!seen.insert(Ph).second) return true;
			for (unsigned k = 0; k < Ph->getNumIncomingValues(); k++) { auto *v = Ph->getIncomingValue(k); if (isa<UndefValue>(v)) { if (W->P->proveLE(Lin::cst(1), Lin::cst(0), Ph->getIncomingBlock(k)->getTerminator())) continue; why = "may be uninitialised"; return false; } if (!covers(v, X, Ph->getIncomingBlock(k)->getTerminator(), nonEmpty, seen, why)) return false; }
			return true;
		}
		if (isEmptyObject(E)) { if (!nonEmpty) why = "the empty segment is entered"; return nonEmpty; }
		auto o = W->S->eval(E);
		std::vector<LoadInst*> bs, es;
		for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isIntegerTy(64) || !W->P->DT->dominates(L, at)) continue; auto p = W->S->eval(L->getPointerOperand()); if (p == W->S->add(o, W->S->cst(64, offB))) bs.push_back(L); if (p == W->S->add(o, W->S->cst(64, offE))) es.push_back(L); }
		for (auto *b : bs) for (auto *e : es) if (range(b, e, X, at)) return true;
		why = "no dominating test that the segment contains the program counter";
		return false;
	}
	void run() {
		auto off = [&](const char *n) { auto *m = FM->memberByName("loongarch::DecodedExecuteSegment", n); return m ? m->off : 0; };
		offB = off("m_exec_begin"); offE = off("m_exec_end"); offC = off("m_decoder_cache");
		optimizeRegion(F); threadJumps(F); optimizeRegion(F);
		splitCalls(F, [&] { return named("lva.seg"); }, {0, 1, 2}, 60); optimizeRegion(F);
		W = std::make_unique<Flow>(C, M, D, F, what, want); W->P->stable.erase(BEGIN); W->P->stable.erase(END);
		auto &S = *W->S; auto &P = *W->P;
		bool on_range = W->on("flow"), on_count = W->on("count") && D.counter, on_budget = W->on("budget"), on_stop = W->on("stop");
		for (auto *CI : named("lva.next")) {
			R.count("transitions");
			CallInst *SG = nullptr; for (auto *J = CI->getPrevNode(); J; J = J->getPrevNode()) if (auto *c = dyn_cast<CallInst>(J)) if (c->getCalledFunction() == M.fnSeg) { SG = c; break; }
			SVal dec = S.eval(CI->getArgOperand(0)), pcn = S.eval(CI->getArgOperand(1));
			int atom = -1; bool has = W->blockTerm(pcn, dec, atom);
			const Value *X = nullptr;
			if (has) { SVal b; b.w = 64; b.c[atom] = 1; SVal x = S.add(pcn, b, ~0ull);
				for (auto &A : F.args()) if (A.getType()->isIntegerTy(64) && S.eval(&A) == x) X = &A;
				if (!X) for (auto &J : instructions(F)) if (J.getType()->isIntegerTy(64) && P.DT->dominates(&J, CI) && S.eval(&J) == x) { X = &J; break; } }
			if (!SG || !X) { W->done(false, "control-flow", CI, "next block", !X ? "the program counter of the next block does not include the length of the block entered" : "segment state not recognised"); continue; }
			Value *b = SG->getArgOperand(0), *e = SG->getArgOperand(1), *ba = SG->getArgOperand(2);
			bool same = T.seg.count("begin") && T.seg.count("end") && T.seg.count("base") && S.eval(b) == S.eval(T.seg["begin"]) && S.eval(e) == S.eval(T.seg["end"]) && S.eval(ba) == S.eval(T.seg["base"]);
			if (on_range) {
				auto sx = S.bits(X); std::vector<SBit> ix(sx.begin() + 2, sx.end()); ix.resize(64, SBit{-1, 0});
				W->done(dec == S.add(S.eval(ba), S.scale(S.fromBits(ix), M.size)), "control-flow", CI, "entry of the next block", "the decoder entry does not belong to the program counter");
				if (same) W->done(range(b, e, X, CI), "segment-range", CI, "same segment", "execution continues in the current segment although the program counter may lie outside it");
				else {
					auto *Lb = loadOf(b), *Le = loadOf(e); const LoadInst *Lc = nullptr;
					auto sb = S.bits(b); std::vector<SBit> ib(sb.begin() + 2, sb.end()); ib.resize(64, SBit{-1, 0});
					SVal cache = S.add(S.eval(ba), S.scale(S.fromBits(ib), M.size));
					if (cache.c.size() == 1 && !cache.k && cache.c.begin()->second == 1) { int l = S.leafOfAtom(cache.c.begin()->first); if (l >= 0) Lc = dyn_cast_or_null<LoadInst>(S.leaves[l].rep); }
					bool fam = Lb && Le && Lc;
					SVal o; if (fam) { o = S.add(S.eval(Lb->getPointerOperand()), S.cst(64, -offB)); fam = o == S.add(S.eval(Le->getPointerOperand()), S.cst(64, -offE)) && o == S.add(S.eval(Lc->getPointerOperand()), S.cst(64, -offC)); }
					W->done(fam, "segment-state", CI, "new segment", "limits and decoder entries of the next block are not taken from one segment");
					if (fam) {
						APInt z(64, 0); auto *E = Lb->getPointerOperand()->stripAndAccumulateConstantOffsets(*C.DL, z, true);
						bool direct = range(b, e, X, CI); std::string why; std::set<const Value*> seen;
						bool ne = false; { std::vector<LoadInst*> bs, es; // the segment's own limits do not change, whenever they are read
							for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isIntegerTy(64) || !P.DT->dominates(L, CI)) continue; auto p = S.eval(L->getPointerOperand()); if (p == S.add(o, S.cst(64, offB))) bs.push_back(L); if (p == S.add(o, S.cst(64, offE))) es.push_back(L); }
							for (auto *x : bs) for (auto *y : es) if (!ne) ne = P.proveLE(P.val(x).plus(Lin::cst(1)), P.val(y), CI); }
						bool ok = direct || covers(E, X, CI, ne, seen, why);
						W->done(ok, "segment-range", CI, "new segment", "execution continues in a segment that may not contain the program counter", why);
					}
				}
			}
			SVal ct = S.eval(CI->getArgOperand(2)), mx = S.eval(CI->getArgOperand(3));
			if (on_count) W->done(T.counter && ct == S.add(S.eval(T.counter), W->countOf(atom)), "counting", CI, "next block", "entering a block does not count exactly its instructions", T.counter ? S.show(S.add(ct, S.eval(T.counter), ~0ull)) : "");
			if (on_budget && D.counter && !entry) W->done(T.counter && T.max && P.proveLE(P.val(T.counter).plus(Lin::cst(1)), P.val(T.max), CI), "budget", CI, "next block", "a block is entered without comparing the instruction counter with the limit");
			if (on_budget && T.max && D.counter) W->done(mx == S.eval(T.max), "budget", CI, "limit of the next block", "the limit changes between blocks");
			if (on_stop && !entry) W->done(T.max && P.proveNE(T.max, APInt(64, 0), CI), "stop", CI, "next block", "the next block is entered although the machine was stopped");
		}
		for (auto *CI : named("lva.ret")) {
			if (!(W->on("budget") || on_stop)) continue;
			std::vector<StoreInst*> ps, cs;
			bool bare = isa<CallInst>(&*F.getEntryBlock().begin()) && F.size() == 1 && T.pc == nullptr; // plain return: the code that jumps here is checked instead
			if (bare) continue;
			R.count("loop_exits");
			bool p = storedBefore(CI, PC, *C.DL, ps); for (auto *s : ps) if (!T.pc || !(S.eval(s->getValueOperand()) == S.eval(T.pc))) p = false;
			W->done(p, "resume-point", CI, "leaving the loop", "the program counter is not written back when the loop is left");
			if (D.counter) { bool c = storedBefore(CI, CTR, *C.DL, cs); for (auto *s : cs) if (!T.counter || !(S.eval(s->getValueOperand()) == S.eval(T.counter))) c = false;
				W->done(c, "resume-point", CI, "leaving the loop with the counter", "the instruction counter is not written back when the loop is left"); }
		}
	}
};

// Which code an instruction is given: its own handler, through an index that fits the entry
static void table(Ctx &C, CpuModel &M, Roots &R, int64_t id, const std::string &name, bool first) {
	auto &Rp = C.R;
	auto ob = [&](bool ok, const char *rule, const std::string &site, const Instruction *I, const std::string &msg) {
		Loc L = I ? projLocOf(I) : locOf(M.builder); Rp.count("obligations"); if (ok) { Rp.count("discharged"); Rp.sample(name + ": " + site, 30); } else Rp.violation(rule, site, name, L.file, L.line, name + ": " + msg); };
	auto *desc = M.descOf[id]; auto *own = dyn_cast_or_null<Function>(desc->getInitializer()->getAggregateElement(0u)->stripPointerCasts());
	ob(own && is_contained(R.handlers, own), "own-handler", "descriptor", nullptr, "the instruction descriptor has no handler");
	auto *F = stepFor(C, M, id);
	if (F && exitsOf(*F, M).empty()) { F->eraseFromParent(); F = nullptr; } // only on ways that exclude each other
	if (!F) { if (name == "INVALID") { Rp.count("never_decoded_on_purpose"); return; } ob(false, "reachable", "decoder", nullptr, "no instruction word is decoded to this instruction"); return; }
	ob(true, "reachable", "decoder", nullptr, "");
	// every handler and descriptor mentioned while decoding is the instruction's own
	bool mine = true; const Instruction *bad = nullptr; unsigned n = 0;
	for (auto &I : instructions(*F)) { if (isa<DbgInfoIntrinsic>(&I)) continue; for (auto &o : I.operands()) {
		if (auto *H = dyn_cast<Function>(o->stripPointerCasts()); H && is_contained(R.handlers, H)) { n++; if (H != own) { mine = false; bad = &I; } }
		if (auto *G = dyn_cast<GlobalVariable>(o->stripInBoundsConstantOffsets())) for (auto &p : M.descOf) if (p.second == G) { n++; if (G != desc) { mine = false; bad = &I; } } } }
	ob(mine && n, "own-handler", "handler of the entry", bad, n ? "the decoded instruction is given another instruction's handler" : "the decoder entry does not depend on the instruction's handler");
	Sym S(*C.DL);
	for (auto *e : exitsOf(*F, M)) {
		auto index = [&](const Value *from) -> const Value* { const Value *ix = nullptr; std::set<const Value*> seen; std::vector<const Value*> wl{from};
			while (!wl.empty() && !ix) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue; auto *I = dyn_cast<Instruction>(v); if (!I) continue; if (!isa<CastInst>(I) && I->getOpcode() != Instruction::And) { if (v->getType()->isIntegerTy(16) || v->getType()->isIntegerTy(32) || v->getType()->isIntegerTy(64)) ix = v; break; } wl.push_back(I->getOperand(0)); } return ix; };
		// generic code j of a loop calls the handler at place 256 j + index of the entry
		auto looksUp = [&](const CallBase *cb, int j) { Sym T(*C.DL); auto *L = dyn_cast<LoadInst>(cb->getCalledOperand()); if (!L) return false; auto p = T.eval(L->getPointerOperand()); bool hit = false;
			for (auto &J : instructions(*cb->getFunction())) if (auto *Q = dyn_cast<LoadInst>(&J)) if (Q->getType()->isIntegerTy(8) && fieldKey(Q->getPointerOperand(), *C.DL) == "loongarch::DecoderData::handler_idx") {
				auto off = T.add(T.scale(T.zext(T.eval(Q), 64), 8), T.cst(64, 2048ull * j));
				auto base = T.add(p, off, ~0ull); if (base.c.size() == 1 && base.k == 0 && base.c.begin()->second == 1) { int l = T.leafOfAtom(base.c.begin()->first); if (l >= 0 && T.leaves[l].rep && isa<GlobalVariable>(T.leaves[l].rep)) hit = true; if (l >= 0) if (auto *B = dyn_cast_or_null<LoadInst>(T.leaves[l].rep)) if (isa<GlobalVariable>(B->getPointerOperand()->stripInBoundsConstantOffsets())) hit = true; } }
			return hit; };
		if (auto *code = dyn_cast<ConstantInt>(e->getArgOperand(0))) { Rp.count("fixed_bytecodes"); int c = (int)code->getZExtValue();
			for (auto &D : M.disp) { if (c >= (int)D->regions.size() || !D->regions[c].X.F) continue; auto *cb = handlerCall(*D->regions[c].X.F); if (!cb) continue; Rp.count("fixed_generic_bytecodes");
				int j = -1; for (int k = 0; k < 4; k++) if (looksUp(cb, k)) j = k;
				bool ok = j >= 0; auto *hv = e->getArgOperand(3); if (auto *L = dyn_cast<LoadInst>(hv)) { ok = ok && fieldKey(L->getPointerOperand(), *C.DL) == "loongarch::DecoderData::handler_idx"; const Value *st = nullptr; for (auto &I : instructions(*F)) if (auto *St = dyn_cast<StoreInst>(&I)) if (!isa<Constant>(St->getValueOperand()) && fieldKey(St->getPointerOperand(), *C.DL) == "loongarch::DecoderData::handler_idx") st = St->getValueOperand(); hv = const_cast<Value*>(st); }
				auto *ix = hv ? index(hv) : nullptr; ok = ok && ix;
				if (ok) { Prover P(*F, C); ok = S.eval(hv) == S.trunc(S.eval(ix), 8) && P.proveLE(P.val(ix), Lin::cst(256 * j + 255), e) && (!j || P.proveLE(Lin::cst(256 * j), P.val(ix), e)); }
				ob(ok, "handler-index", D->name + " fixed generic code", e, "generic code " + std::to_string(c) + " is chosen for handler numbers it does not look up"); }
			continue; }
		// bytecode = first generic one + index / 256, entry keeps index % 256
		Rp.count("indexed_bytecodes");
		std::vector<StoreInst*> hs, bs;
		for (auto &I : instructions(*F)) if (auto *St = dyn_cast<StoreInst>(&I)) { if (isa<Constant>(St->getValueOperand())) continue; auto k = fieldKey(St->getPointerOperand(), *C.DL); if (k == "loongarch::DecoderData::handler_idx") hs.push_back(St); if (k == "loongarch::DecoderData::bytecode") bs.push_back(St); }
		bool ok = !hs.empty() && !bs.empty(); int first = -1;
		for (auto *h : hs) for (auto *q : bs) {
			const Value *ix = index(h->getValueOperand());
			if (!ix) { ok = false; break; }
			bool m = S.eval(h->getValueOperand()) == S.trunc(S.eval(ix), 8);
			auto b = S.bits(ix); std::vector<SBit> hi(b.begin() + 8, b.begin() + 16); SVal hv = S.fromBits(hi);
			SVal d = S.add(S.eval(q->getValueOperand()), hv, ~0ull);
			m = m && d.isConst(); if (m) { if (first >= 0 && first != (int)d.k) m = false; first = (int)d.k; }
			ok = ok && m;
		}
		// nothing but these and fixed codes is stored, and entry fields are read back unchanged
		for (unsigned a : {0u, 3u}) if (auto *L = dyn_cast<LoadInst>(e->getArgOperand(a))) { auto k = fieldKey(L->getPointerOperand(), *C.DL); if (k != (a ? "loongarch::DecoderData::handler_idx" : "loongarch::DecoderData::bytecode")) ok = false; } else if (!(a == 0 ? is_contained(map_range(bs, [](StoreInst *s) { return s->getValueOperand(); }), e->getArgOperand(a)) : is_contained(map_range(hs, [](StoreInst *s) { return s->getValueOperand(); }), e->getArgOperand(a)))) ok = false;
		ob(ok, "handler-index", "index kept in the entry", e, "bytecode and handler index of the entry do not together hold the handler's number");
		if (!ok) continue;
		// and the loops look it up at exactly that place
		for (auto &D : M.disp) for (int j = 0; first + j < (int)D->regions.size() && j < 256; j++) {
			auto *cb = D->regions[first + j].X.F ? handlerCall(*D->regions[first + j].X.F) : nullptr;
			if (!cb) { if (j < (int)((R.handlers.size() + 255) / 256)) ob(false, "handler-index", "generic code " + std::to_string(j), nullptr, "there are more handlers than the generic bytecodes can hold"); break; }
			ob(looksUp(cb, j), "handler-index", D->name + " generic code " + std::to_string(j), cb, "the generic code does not look up the handler the entry was given");
		}
	}
	F->eraseFromParent(); (void)first;
}

void runCpu(Ctx &C) {
	auto R = findRoots(C); simplifyModuleLight(*C.M);
	if (R.dispatch.size() < 2) { C.R.error("dispatch loops not recognised"); return; }
	CpuModel M;
	if (!buildCpuModel(C, R, M)) return;
	std::string want = C.opts.count("check") ? C.opts["check"] : "flow,block,count,budget,stop,r0";
	struct Item { Dispatch *D; int64_t id; std::string name; };
	std::vector<Item> items;
	for (auto &D : M.disp) for (auto &p : M.ids) { if (C.opts.count("id") && C.opts["id"] != p.second) continue; items.push_back({D.get(), p.first, p.second}); }
	C.R.info["instructions"] = (int64_t)M.ids.size(); C.R.info["dispatch_loops"] = (int64_t)M.disp.size();
	if (!C.opts.count("id") && want != "table") for (auto &D : M.disp) for (auto &T : D->tailRegions) { TailCheck t(C, M, *D, T, want); t.run(); if (C.opts.count("dumptails")) T.X.F->print(errs()); }
	if (want.find("r0") != want.npos && !C.opts.count("id")) {
		InlinePolicy IP; IP.want = defaultInlineWant;
		auto one = [&](Function *F, const std::string &n, bool atEnd) { ValueToValueMapTy VM; auto *G = CloneFunction(F, VM); G->setSubprogram(F->getSubprogram()); resetDbgTypes(G); flatten(*G, IP); simplifyFunction(*G); ZeroReg z(C, *G, n); z.run(atEnd); G->eraseFromParent(); };
		std::vector<std::pair<Function*, std::string>> fs;
		for (auto *F : R.handlers) { fs.push_back({F, R.handlerName.count(F) ? R.handlerName[F] : qualName(F)}); C.R.count("handlers"); }
		size_t nh = fs.size();
		for (auto *F : R.syscalls) { fs.push_back({F, qualName(F)}); C.R.count("syscalls"); }
		// everything else that runs a handler
		std::set<Function*> drop(R.handlers.begin(), R.handlers.end()); for (auto *F : R.dispatch) drop.insert(F);
		unsigned runners = 0;
		for (auto &F : *C.M) { if (F.isDeclaration() || drop.count(&F) || F.getName().starts_with("lva.")) continue; bool calls = false;
			for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!calleeOf(CB)) if (auto *L = dyn_cast<LoadInst>(CB->getCalledOperand())) if (fieldKey(L->getPointerOperand(), *C.DL) == "loongarch::Instruction::handler") calls = true;
			if (calls) { fs.push_back({&F, qualName(&F)}); runners++; } }
		if (!runners) C.R.error("no function that executes a decoded instruction found");
		C.R.info["handler_runners"] = (int64_t)runners;
		parallelFor(C, fs.size(), [&](unsigned i) { one(fs[i].first, fs[i].second, i < nh); });
	}
	parallelFor(C, items.size(), [&](unsigned i) {
		auto &it = items[i];
		if (want == "table" && it.D == M.disp[0].get()) table(C, M, R, it.id, it.name, i == 0);
		auto cs = composeAll(C, M, *it.D, it.id);
		if (cs.empty()) { C.R.count("never_decoded"); return; }
		for (auto &c : cs) {
			if (!c.F) { C.R.violation("bytecode-table", "bytecode " + std::to_string(c.bytecode), it.name, "", 0, "instruction " + it.name + " is given a bytecode without code"); continue; }
			C.R.count("compositions");
			if (want == "table") { c.F->eraseFromParent(); C.R.count("obligations"); C.R.count("discharged"); continue; }
			Flow fl(C, M, *it.D, *c.F, it.name + " as bytecode " + std::to_string(c.bytecode), want);
			fl.generic = handlerCall(*it.D->regions[c.bytecode].X.F) != nullptr;
			fl.nexts(nullptr);
			if (want.find("r0") != want.npos) { ZeroReg z(C, *c.F, it.name + " as bytecode " + std::to_string(c.bytecode)); z.handlerish = fl.generic; z.run(false); }
			if (C.opts.count("dump")) c.F->print(errs());
			c.F->eraseFromParent();
		}
	});
}
}
