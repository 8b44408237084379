// Agreement of the specialised code of an instruction with its generic handler.
//
// Both are joined with the decoding step of the instruction (regions.hpp),
// unrolled, and value-numbered along every way through their acyclic control
// flow graph (a scoped value table over the tail-duplicated graph, canonical
// forms from sym.hpp, byte-granular store-to-load forwarding).  What each way
// leaves behind - registers, guest memory, calls, the next program counter -
// must have the same canonical form whenever the conditions of the two ways
// do not exclude each other.
#include "walk.hpp"
#include "par.hpp"
#include "sym.hpp"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/IndVarSimplify.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Scalar/SROA.h"
namespace lva {
CallBase *handlerCall(Function &F);

void unrollLoops(Function &F) {
	for (auto &B : F) if (auto *T = B.getTerminator()) T->setMetadata(LLVMContext::MD_loop, nullptr);
	for (int k = 0; k < 3; k++) {
		{ DominatorTree DT(F); LoopInfo LI(DT); if (LI.empty()) return; }
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		FunctionPassManager FPM;
		FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
		FPM.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass()));
		LoopPassManager LPM; LPM.addPass(IndVarSimplifyPass()); LPM.addPass(LoopFullUnrollPass(3, false, true));
		FPM.addPass(createFunctionToLoopPassAdaptor(std::move(LPM)));
		FPM.run(F, FAM);
		optimizeRegion(F);
	}
}

int64_t enumVal(const std::string &n) { for (auto &e : FM->enums) { auto i = e.second.find(n); if (i != e.second.end()) return i->second; } return -1; }
// what a way leaves behind, in a form that can be compared
Outcome outcome(Sym &S, const Layout &L, const Way &w) {
	Outcome o; std::vector<std::pair<std::string, std::vector<std::pair<int64_t, const Eff*>>>> seg;
	std::map<std::string, std::map<int64_t, SVal>> bytes; std::map<std::string, std::map<std::pair<int64_t, unsigned>, SVal>> whole; std::vector<std::string> order;
	std::string cpu = S.key(S.leaf("cpu", 64));
	auto flush = [&]() {
		for (auto &b : order) {
			// whole stores where nothing overlaps, else bytes
			auto &by = bytes[b]; auto &wh = whole[b]; std::set<int64_t> done;
			for (auto &p : wh) { bool cover = true; auto bb = S.bits(p.second); bb.resize(p.first.second * 8, SBit{-1, 0});
				for (unsigned i = 0; i < p.first.second; i++) { auto it = by.find(p.first.first + i); if (it == by.end() || !(S.bits(it->second) == std::vector<SBit>(bb.begin() + i * 8, bb.begin() + i * 8 + 8))) cover = false; }
				if (!cover) continue;
				// unchanged memory is no effect
				bool same = true; for (unsigned i = 0; i < p.first.second && same; i++) { auto init = S.bits(S.leaf("m|" + b + "+" + std::to_string(p.first.first + i), 8)); if (!(std::vector<SBit>(bb.begin() + i * 8, bb.begin() + i * 8 + 8) == init)) same = false; }
				if (same && o.items.empty()) { for (unsigned i = 0; i < p.first.second; i++) done.insert(p.first.first + i); continue; }
			}
			for (auto &p : by) { if (done.count(p.first)) continue; o.items.push_back({b + "+" + std::to_string(p.first), S.key(p.second)}); }
		}
		bytes.clear(); whole.clear(); order.clear();
	};
	for (auto &e : w.eff) {
		if (e.call) { if (e.wide) flush(); std::string s = e.name + "("; for (auto &a : e.args) s += S.key(a) + ";"; o.items.push_back({"call", s + ")"}); continue; }
		if (e.cls == "E" || StringRef(e.cls).starts_with("alloca")) continue;
		if (e.cls == "M" && e.base == cpu && e.off >= (int64_t)L.pc && e.off < (int64_t)L.pc + 8) continue;
		std::string b = e.cls + "|" + e.base;
		if (!bytes.count(b)) order.push_back(b);
		auto bb = S.bits(e.v); bb.resize(e.n * 8, SBit{-1, 0});
		for (unsigned i = 0; i < e.n; i++) bytes[b][e.off + i] = S.fromBits(std::vector<SBit>(bb.begin() + i * 8, bb.begin() + i * 8 + 8));
		whole[b][{e.off, e.n}] = e.v;
	}
	flush();
	// local variables have no identity beyond the order they are first used in
	std::map<int, std::string> locals;
	for (auto &it : o.items) { std::string &s = it.second, r;
		for (size_t i = 0; i < s.size();) { if (s[i] != 'L' || i + 1 >= s.size() || !isdigit(s[i + 1])) { r += s[i++]; continue; }
			size_t j = i + 1; int id = 0; while (j < s.size() && isdigit(s[j])) id = id * 10 + (s[j++] - '0');
			if (id < (int)S.leaves.size() && StringRef(S.leaves[id].key).starts_with("alloca")) { auto &n = locals[id]; if (n.empty()) n = "V" + std::to_string(locals.size()); r += n; } else r += s.substr(i, j - i);
			i = j; }
		s = r; }
	return o;
}

void runAgree(Ctx &C) {
	auto R = findRoots(C); simplifyModuleLight(*C.M);
	if (R.dispatch.size() < 2) { C.R.error("dispatch loops not recognised"); return; }
	CpuModel M; Layout L; if (!L.ok) { C.R.error("register file layout not recognised"); return; }
	if (!buildCpuModel(C, R, M)) return;
	auto &opts = cl::getRegisteredOptions(); if (opts.count("unroll-threshold")) static_cast<cl::opt<unsigned>*>(opts["unroll-threshold"])->setValue(1000000);
	// the number of the instruction's handler is looked up, not computed
	M.stepHook = [](Function &F) {
		for (auto &I : instructions(F)) if (auto *P = dyn_cast<ICmpInst>(&I)) if (P->isEquality() && isa<ConstantPointerNull>(P->getOperand(1))) if (auto *CB = dyn_cast<CallBase>(P->getOperand(0))) if (auto *c = calleeOf(CB)) if (!inProject(c) || c->isDeclaration()) P->replaceAllUsesWith(ConstantInt::getBool(F.getContext(), P->getPredicate() == CmpInst::ICMP_NE)); };
	struct Item { Dispatch *D; int64_t id; std::string name; };
	std::vector<Item> items;
	for (auto &D : M.disp) for (auto &p : M.ids) { if (C.opts.count("id") && C.opts["id"] != p.second) continue; items.push_back({D.get(), p.first, p.second}); }
	C.R.info["instructions"] = (int64_t)M.ids.size(); C.R.info["dispatch_loops"] = (int64_t)M.disp.size();
	bool dump = C.opts.count("dump");
	parallelFor(C, items.size(), [&](unsigned i) {
		auto &it = items[i];
		auto *own = dyn_cast_or_null<Function>(M.descOf[it.id]->getInitializer()->getAggregateElement(0u)->stripPointerCasts());
		if (!own || own->isDeclaration()) return;
		int force = -1; auto cs = compose(C, M, *it.D, it.id);
		// where the word does not determine the bytecode, a generic one is chosen by the place of the handler
		if (cs.size() == 1 && !cs[0].F && cs[0].bytecode == -1) { for (auto &r : it.D->regions) if (r.X.F && handlerCall(*r.X.F)) { force = (int)r.bytecode; break; } cs = compose(C, M, *it.D, it.id, force); }
		for (auto &c : cs) {
			if (!c.F) continue;
			if (c.bytecode == 0) { C.R.count("not_executable"); c.F->eraseFromParent(); continue; } // decoded to the invalid instruction
			// system calls are decided by P22; the stop marker has no generic form
			if (it.name == "SYSCALL" || (enumVal("LA64_BC_STOP") >= 0 && c.bytecode == enumVal("LA64_BC_STOP"))) { C.R.count("exempt"); c.F->eraseFromParent(); continue; }
			if (handlerCall(*it.D->regions[c.bytecode].X.F)) { C.R.count("generic"); c.F->eraseFromParent(); continue; }
			Function *H = nullptr; for (auto &h : compose(C, M, *it.D, it.id, force, own)) { if (h.F && h.bytecode == c.bytecode) H = h.F; else if (h.F) h.F->eraseFromParent(); }
			if (!H) { c.F->eraseFromParent(); continue; }
			unrollLoops(*c.F); unrollLoops(*H);
			if (dump) { errs() << "==== " << it.D->name << " specialised\n"; c.F->print(errs()); errs() << "==== handler\n"; H->print(errs()); }
			Sym S(*C.DL);
			Walker A(C, &M, it.D, *c.F, S, L, false), B(C, &M, it.D, *H, S, L, true);
			A.run({}); B.run({});
			auto wa = A.ways, wb = B.ways; std::string what = it.name + " as bytecode " + std::to_string(c.bytecode);
			C.R.count("specialised"); C.R.count("ways_specialised", wa.size()); C.R.count("ways_handler", wb.size());
			if (A.tooMany || B.tooMany || A.loops || B.loops) { C.R.count("not_compared"); C.R.sample(what + ": too many ways", 200); c.F->eraseFromParent(); H->eraseFromParent(); continue; }
			unsigned pairs = 0; std::string bad, detail; const Instruction *badAt = nullptr;
			auto join = [&](const std::map<SBit, bool> &x, const std::map<SBit, bool> &y, std::map<SBit, bool> &o) { o = x; for (auto &p : y) { auto f = o.find(p.first); if (f != o.end() && f->second != p.second) return false; o[p.first] = p.second; } return true; };
			for (auto &a : wa) { for (auto &b : wb) {
				std::map<SBit, bool> U, U2; if (!join(a.known, b.known, U)) continue;
				A.follow = &a; A.run(U); if (A.ways.empty()) { A.follow = nullptr; continue; } Way a2 = A.ways[0]; A.follow = nullptr;
				B.follow = &b; B.run(U); if (B.ways.empty()) { B.follow = nullptr; continue; } Way b2 = B.ways[0]; B.follow = nullptr;
				if (!join(a2.known, b2.known, U2)) continue;
				S.known = U;
				pairs++; C.R.count("pairs");
				auto oa = outcome(S, L, a2), ob = outcome(S, L, b2);
				std::string d;
				if (a2.end != b2.end) d = "one " + a2.end + "s, the other " + b2.end + "s";
				else if (a2.hasTarget && b2.hasTarget && S.key(a2.target) != S.key(b2.target)) d = "next program counter: " + S.show(S.add(a2.target, A.ways.empty() ? S.cst(64, 0) : S.cst(64, 0))) + " / " + S.show(b2.target);
				else if (oa.items != ob.items) {
					d = "effects differ";
					for (size_t q = 0; q < std::max(oa.items.size(), ob.items.size()); q++) { auto *x = q < oa.items.size() ? &oa.items[q] : nullptr, *y = q < ob.items.size() ? &ob.items[q] : nullptr; if (x && y && *x == *y) continue;
						auto ex = [&](const std::pair<std::string, std::string> *p) { if (!p) return std::string("nothing"); std::string s = p->first + " = " + p->second; for (int n = 0; n < 4; n++) { std::string o; for (size_t i = 0; i < s.size();) { if (s[i] == 'L' && i + 1 < s.size() && isdigit(s[i + 1])) { size_t j = i + 1; int id = 0; while (j < s.size() && isdigit(s[j])) id = id * 10 + (s[j++] - '0'); o += id < (int)S.leaves.size() ? "<" + S.leaves[id].key + ">" : "L?"; i = j; } else o += s[i++]; } s = o; if (s.size() > 900) break; } return s.substr(0, 900); };
						d += ": " + ex(x) + "  /  " + ex(y); break; }
				}
				if (!d.empty() && bad.empty()) { bad = d; badAt = a2.at; }
				if (!d.empty()) C.R.count("pairs_different");
			} }
			C.R.count("obligations");
			if (!pairs) { C.R.violation("agreement", it.D->name, what, "", 0, what + ": no way through the specialised code corresponds to one through the handler"); }
			else if (bad.empty()) { C.R.count("discharged"); C.R.sample(what + " [" + it.D->name + "]: " + std::to_string(pairs) + " pairs of ways", 30); }
			else { auto Lc = projLocOf(badAt); C.R.violation("agreement", it.D->name, what, Lc.file, Lc.line, what + " [" + it.D->name + "]: specialised code and handler disagree: " + bad); }
			c.F->eraseFromParent(); H->eraseFromParent();
		}
	});
}
}
