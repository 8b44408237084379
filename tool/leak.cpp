// What reaches the guest (its memory and its registers) is never memory of the host: no byte that was
// not written before, no address of a host object, nothing from outside the object that is copied.
#include "prover.hpp"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
namespace lva {
void setupMemProver(Prover &P);
void closure(Module &M, std::vector<Function*> roots, std::map<Function*, std::pair<Function*, const Instruction*>> &from);

static const char *ARENA_F = "loongarch::Memory::m_arena";
static bool isArena(const Value *b, const DataLayout &DL) { auto *L = dyn_cast<LoadInst>(b); return L && fieldKey(L->getPointerOperand(), DL) == ARENA_F; }

// scalar leaves of a type and the bytes between them
static void leavesOf(Type *T, uint64_t off, const DataLayout &DL, std::vector<std::pair<uint64_t, Type*>> &out) {
	if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements() && out.size() < 400; i++) leavesOf(S->getElementType(i), off + L->getElementOffset(i).getFixedValue(), DL, out); return; }
	if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t n = DL.getTypeAllocSize(A->getElementType()).getFixedValue(); for (uint64_t i = 0; i < A->getNumElements() && out.size() < 400; i++) leavesOf(A->getElementType(), off + i * n, DL, out); return; }
	out.push_back({off, T});
}
static CallInst *uninit(IRBuilder<> &B, Type *T, Module &M) {
	std::string n = "lva.uninit."; { raw_string_ostream os(n); T->print(os); }
	auto *f = cast<Function>(M.getOrInsertFunction(n, FunctionType::get(T, false)).getCallee());
	f->setMemoryEffects(MemoryEffects::inaccessibleMemOnly(ModRefInfo::Ref)); f->setDoesNotThrow(); f->setWillReturn();
	return B.CreateCall(f);
}
static bool isUninit(const Value *v) { auto *c = dyn_cast<CallInst>(v); return c && c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("lva.uninit."); }

// every local object of the project begins with unknown bytes; without this the compiler's passes choose convenient values for them
static unsigned plantUninit(Module &M) {
	auto &DL = M.getDataLayout(); unsigned n = 0;
	for (auto &F : M) {
		if (F.isDeclaration() || !inProject(&F)) continue;
		std::vector<AllocaInst*> as; for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) as.push_back(A);
		for (auto *A : as) {
			if (!A->getAllocatedType()->isSized() || isa<ScalableVectorType>(A->getAllocatedType())) continue;
			std::vector<Instruction*> at;
			for (auto *U : A->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(II->getNextNode());
			if (at.empty()) { Instruction *I = A->getNextNode(); while (isa<AllocaInst>(I)) I = I->getNextNode(); at.push_back(I); }
			std::vector<std::pair<uint64_t, Type*>> ls; leavesOf(A->getAllocatedType(), 0, DL, ls);
			uint64_t size = DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
			n++;
			for (auto *I : at) {
				IRBuilder<> B(I); B.SetCurrentDebugLocation(DebugLoc());
				if (auto L = I->getDebugLoc()) B.SetCurrentDebugLocation(L);
				if (A->isArrayAllocation() || ls.size() > 64 || size > 1024) {
					auto *f = cast<Function>(M.getOrInsertFunction("lva.uninitmem", FunctionType::get(B.getVoidTy(), {B.getPtrTy()}, false)).getCallee());
					f->setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Mod)); f->setDoesNotThrow(); f->setWillReturn(); f->addParamAttr(0, Attribute::NoCapture); f->addParamAttr(0, Attribute::WriteOnly);
					B.CreateCall(f, {A}); continue;
				}
				uint64_t pos = 0;
				auto put = [&](uint64_t o, Type *T) { B.CreateStore(uninit(B, T, M), o ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), A, o) : A); };
				for (auto &l : ls) { for (; pos < l.first; pos++) put(pos, B.getInt8Ty()); put(l.first, l.second); pos = l.first + DL.getTypeStoreSize(l.second).getFixedValue(); }
				for (; pos < size; pos++) put(pos, B.getInt8Ty());
			}
		}
	}
	return n;
}

// library functions that fill an object they are given: argument, and whether only on success (result 0)
struct Fills { int arg; uint64_t size; bool onZero; };
static const std::map<std::string, Fills> FILLS = {{"clock_gettime", {1, 16, true}}, {"clock_getres", {1, 16, true}}, {"gettimeofday", {0, 16, false}}, {"time", {0, 8, false}}, {"timespec_get", {0, 16, false}},
	{"fstat", {1, 0, true}}, {"stat", {1, 0, true}}, {"lstat", {1, 0, true}}, {"fstatat", {2, 0, true}}, {"uname", {0, 0, true}}, {"getrlimit", {1, 0, true}}, {"getrusage", {1, 0, true}}, {"sysinfo", {0, 0, true}}, {"statvfs", {1, 0, true}}, {"fstatvfs", {1, 0, true}}, {"pipe", {0, 8, true}}, {"pipe2", {0, 8, true}}, {"sigaltstack", {1, 0, true}}}; // size 0: all of it
// functions whose result is the number of bytes they put at the front of a buffer
static const std::map<std::string, unsigned> PUTS = {{"read", 1}, {"pread", 1}, {"pread64", 1}, {"recv", 1}, {"recvfrom", 1}, {"readlink", 1}, {"readlinkat", 2}, {"getrandom", 0}, {"fread", 0}};

class Leak {
public:
	Ctx &C; Function &F; Prover P; const DataLayout &DL; std::string root; bool api;
	Leak(Ctx &C, Function &F, const std::string &root, bool api) : C(C), F(F), P(F, C), DL(*C.DL), root(root), api(api) { setupMemProver(P); }

	// --- which bytes of a local object are written on every way to a place ---
	struct Local { const AllocaInst *A; uint64_t size; std::map<const BasicBlock*, APInt> in; std::map<const Instruction*, std::pair<APInt, APInt>> eff; /* written, forgotten */ std::map<const Instruction*, APInt> onZero; std::map<const Loop*, APInt> filled; bool done = false, busy = false; unsigned N = 1; };
	std::map<const AllocaInst*, Local> locals; std::map<const AllocaInst*, std::map<const BasicBlock*, APInt>> before; // as found in the round before
	std::map<const Value*, std::string> memo;

	bool offsetIn(const Value *p, const AllocaInst *A, int64_t &off) { APInt o(64, 0); auto *b = p->stripAndAccumulateConstantOffsets(DL, o, true); off = o.getSExtValue(); return b == A; }
	// a loop that stores to the next element each time round
	void inLoop(Local &L, const AllocaInst *A, const StoreInst *S) {
		auto *lp = P.LI->getLoopFor(S->getParent()); if (!lp) return;
		auto *ex = lp->getExitingBlock(); auto *la = lp->getLoopLatch(); if (!ex || !la) return;
		auto *ar = dyn_cast<SCEVAddRecExpr>(P.SE->getSCEV(const_cast<Value*>(S->getPointerOperand()))); if (!ar || ar->getLoop() != lp || !ar->isAffine()) return;
		auto *st = dyn_cast<SCEVConstant>(ar->getStepRecurrence(*P.SE)); auto *bt = dyn_cast<SCEVConstant>(P.SE->getBackedgeTakenCount(lp)); if (!st || !bt) return;
		auto *off = dyn_cast<SCEVConstant>(P.SE->getMinusSCEV(ar->getStart(), P.SE->getSCEV(const_cast<AllocaInst*>(A)))); if (!off) return;
		uint64_t n = bt->getAPInt().getLimitedValue(65536); bool each = P.DT->dominates(S->getParent(), la); if (!each) return;
		if (P.DT->dominates(S->getParent(), ex)) n++;
		if (!clean(S->getValueOperand(), S).empty()) return;
		int64_t o = off->getAPInt().getSExtValue(), step = st->getAPInt().getSExtValue(); uint64_t sz = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
		APInt b(L.N, 0); for (uint64_t i = 0; i < n && i <= 65536; i++) { int64_t q = o + (int64_t)i * step; if (q < 0 || (uint64_t)q + sz > L.N) continue; b.setBits(q, q + sz); }
		auto it = L.filled.find(lp); if (it == L.filled.end()) L.filled.emplace(lp, b); else it->second |= b;
	}
	Local &local(const AllocaInst *A) {
		auto &L = locals[A]; if (L.done) return L;
		L.done = L.busy = true; L.A = A; auto sz = A->getAllocationSize(DL); L.size = sz && !sz->isScalable() ? sz->getFixedValue() : 0;
		unsigned N = std::max<uint64_t>(L.size, 1); if (N > 65536) N = 65536;
		L.N = N; { auto b = before.find(A); if (b != before.end()) L.in = b->second; else for (auto &B : F) L.in.emplace(&B, APInt::getAllOnes(N)); }
		auto mark = [&](const Instruction *I, int64_t o, uint64_t n, bool init) {
			auto it = L.eff.emplace(I, std::make_pair(APInt(N, 0), APInt(N, 0))).first;
			if (o < 0 || (uint64_t)o >= N || !n) return; uint64_t e = std::min<uint64_t>(N, o + n);
			(init ? it->second.first : it->second.second).setBits(o, e);
		};
		// everything that writes it
		std::set<const Value*> seen; std::vector<const Value*> wl{A};
		while (!wl.empty()) {
			auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
			for (auto *U : v->users()) {
				auto *I = dyn_cast<Instruction>(U); if (!I) continue;
				if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { wl.push_back(I); continue; }
				int64_t o;
				if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == v && !offsetIn(v, A, o)) inLoop(L, A, S); if (S->getPointerOperand() == v && offsetIn(v, A, o)) mark(I, o, DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(), clean(S->getValueOperand(), I).empty()); continue; }
				if (auto *MI = dyn_cast<MemIntrinsic>(I)) {
					if (MI->getRawDest() != v || !offsetIn(v, A, o)) continue;
					auto *n = dyn_cast<ConstantInt>(MI->getLength()); if (!n) continue;
					bool ok = isa<MemSetInst>(MI) ? clean(cast<MemSetInst>(MI)->getValue(), I).empty() : source(cast<MemTransferInst>(MI)->getRawSource(), Lin::cst((i128)n->getZExtValue()), n->getZExtValue(), I).empty();
					mark(I, o, n->getZExtValue(), ok); continue;
				}
				if (auto *CB = dyn_cast<CallBase>(I)) {
					for (unsigned a = 0; a < CB->arg_size(); a++) if (CB->paramHasAttr(a, Attribute::StructRet) && CB->getArgOperand(a) == v && offsetIn(v, A, o)) mark(I, o, N, true); // its result
					auto *f = calleeOf(CB); if (!f) continue; std::string nm = f->getName().str();
					if (nm == "lva.uninitmem") { mark(I, 0, N, false); continue; }
					auto it = FILLS.find(nm); if (it == FILLS.end() || it->second.arg >= (int)CB->arg_size() || CB->getArgOperand(it->second.arg) != v || !offsetIn(v, A, o)) continue;
					uint64_t fs = it->second.size ? it->second.size : N;
					if (!it->second.onZero) mark(I, o, fs, true);
					else { APInt b(N, 0); if (o >= 0 && (uint64_t)o < N) b.setBits(o, std::min<uint64_t>(N, o + fs)); L.onZero.emplace(I, b); }
				}
			}
		}
		// forward, meeting over the ways in
		for (auto &B : F) L.in[&B] = APInt::getAllOnes(N);
		L.in[&F.getEntryBlock()] = APInt(N, 0);
		bool ch = true;
		while (ch) { ch = false;
			for (auto &B : F) {
				if (&B == &F.getEntryBlock()) continue;
				APInt s = APInt::getAllOnes(N);
				for (auto *p : predecessors(&B)) s &= out(L, p, &B);
				if (s != L.in[&B]) { L.in[&B] = s; ch = true; }
			} }
		L.busy = false;
		return L;
	}
	APInt through(Local &L, const BasicBlock *B, const Instruction *upto) {
		APInt s = L.in[B];
		for (auto &I : *B) { if (&I == upto) break; auto it = L.eff.find(&I); if (it != L.eff.end()) { s |= it->second.first; s &= ~it->second.second; } }
		return s;
	}
	APInt out(Local &L, const BasicBlock *B, const BasicBlock *S) {
		APInt s = through(L, B, nullptr);
		for (auto &f : L.filled) if (f.first->contains(B) && !f.first->contains(S)) s |= f.second;
		auto *Br = dyn_cast<BranchInst>(B->getTerminator());
		if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) if (auto *Ic = dyn_cast<ICmpInst>(Br->getCondition())) {
			const Value *x = Ic->getOperand(0); while (isa<CastInst>(x)) x = cast<CastInst>(x)->getOperand(0);
			auto *k = dyn_cast<ConstantInt>(Ic->getOperand(1));
			if (auto *c = dyn_cast<Instruction>(x)) { auto it = L.onZero.find(c); if (it != L.onZero.end() && k) {
				bool yes = Br->getSuccessor(0) == S; auto p = yes ? Ic->getPredicate() : Ic->getInversePredicate();
				// result is 0 or -1
				bool zero = ICmpInst::compare(APInt(k->getBitWidth(), 0), k->getValue(), p), minus = ICmpInst::compare(APInt::getAllOnes(k->getBitWidth()), k->getValue(), p);
				if (zero && !minus && P.DT->dominates(c, B->getTerminator())) s |= it->second;
			} }
		}
		return s;
	}
	bool written(const AllocaInst *A, int64_t off, uint64_t n, const Instruction *at) {
		auto &L = local(A); if (off < 0 || off + n > L.size || L.size > 65536) return false;
		if (!n) return true;
		return through(L, at->getParent(), at).extractBits(n, off).isAllOnes();
	}

	// --- "" when the value says nothing about host memory; otherwise why not ---
	std::set<const Value*> open;
	std::string clean(const Value *v, const Instruction *at) {
		if (isa<Constant>(v)) {
			if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return "a value that was never set";
			if (isa<ConstantData>(v) || isa<ConstantAggregate>(v)) return "";
			if (auto *CE = dyn_cast<ConstantExpr>(v)) if (CE->getOpcode() == Instruction::PtrToInt) return "the address of a host object";
			return v->getType()->isPointerTy() ? "the address of a host object" : "";
		}
		if (isa<Argument>(v)) return v->getType()->isPointerTy() && !api ? "the address of a host object" : "";
		if (isUninit(v)) return "a value that was never set";
		auto *I = dyn_cast<Instruction>(v); if (!I) return "";
		auto it = memo.find(v); if (it != memo.end()) return it->second;
		if (!open.insert(v).second) return ""; // round a loop: decided by what comes in
		std::string r = clean1(I);
		open.erase(v);
		if (open.empty() || !r.empty()) memo[v] = r;
		return r;
	}
	std::string clean1(const Instruction *I) {
		if (isa<CmpInst>(I)) { for (auto &o : I->operands()) if (!o->getType()->isPointerTy()) { auto r = clean(o, I); if (!r.empty() && r.find("never set") != r.npos) return r; } return ""; }
		if (isa<PtrToIntInst>(I)) return hostPointer(I->getOperand(0)) ? "the address of a host object" : "";
		if (auto *L = dyn_cast<LoadInst>(I)) {
			if (L->getType()->isPointerTy()) return "the address of a host object";
			return source(L->getPointerOperand(), Lin::cst((i128)DL.getTypeStoreSize(L->getType()).getFixedValue()), DL.getTypeStoreSize(L->getType()).getFixedValue(), L);
		}
		if (auto *B = dyn_cast<BinaryOperator>(I); B && B->getOpcode() == Instruction::Sub) { // distance of two places
			const Value *x = B->getOperand(0), *y = B->getOperand(1);
			if (pointerLike(x) && pointerLike(y)) return "";
		}
		if (auto *Ph = dyn_cast<PHINode>(I)) { for (auto &u : Ph->incoming_values()) { auto r = clean(u, Ph); if (!r.empty()) return r; } return ""; }
		if (auto *S = dyn_cast<SelectInst>(I)) { for (auto *u : {S->getTrueValue(), S->getFalseValue()}) { auto r = clean(u, S); if (!r.empty()) return r; } return ""; }
		if (auto *CB = dyn_cast<CallBase>(I)) {
			if (CB->getType()->isPointerTy()) return "the address of a host object";
			if (isa<IntrinsicInst>(CB)) for (auto &o : CB->args()) { if (o->getType()->isMetadataTy() || o->getType()->isPointerTy()) continue; auto r = clean(o, CB); if (!r.empty()) return r; }
			return "";
		}
		if (I->getType()->isPointerTy()) return "the address of a host object";
		if (isa<LandingPadInst>(I)) return "the address of a host object";
		for (auto &o : I->operands()) { auto r = clean(o, I); if (!r.empty()) return r; }
		return "";
	}
	bool pointerLike(const Value *v) { while (isa<CastInst>(v) && !isa<PtrToIntInst>(v)) v = cast<CastInst>(v)->getOperand(0); return isa<PtrToIntInst>(v) || (isa<ConstantExpr>(v) && cast<ConstantExpr>(v)->getOpcode() == Instruction::PtrToInt); }
	bool hostPointer(const Value *p) { // anything but null based
		auto *b = p->stripInBoundsOffsets(); while (auto *G = dyn_cast<GEPOperator>(b)) b = G->getPointerOperand()->stripInBoundsOffsets();
		if (isa<ConstantPointerNull>(b)) return false;
		if (auto *ip = dyn_cast<IntToPtrInst>(b)) return !clean(ip->getOperand(0), ip).empty();
		return true;
	}
	// n bytes read at p
	std::string source(const Value *p, const Lin &n, std::optional<uint64_t> cn, const Instruction *at) {
		auto pi = decompose(p, P);
		const Value *b = pi.base;
		if (isa<PHINode>(b) || isa<SelectInst>(b)) { // each of the places it can be
			if (!open.insert(b).second) return "";
			std::vector<const Value*> vs; if (auto *Ph = dyn_cast<PHINode>(b)) for (auto &u : Ph->incoming_values()) vs.push_back(u); else { vs.push_back(cast<SelectInst>(b)->getTrueValue()); vs.push_back(cast<SelectInst>(b)->getFalseValue()); }
			bool object = cn && wholeObject(p, *cn);
			std::string r; for (auto *v : vs) { if (!r.empty()) break; if (isa<ConstantPointerNull>(v)) continue; auto q = decompose(v, P); q.off.add(pi.off); if (object && !isa<AllocaInst>(q.base) && !isa<GlobalVariable>(q.base)) continue; r = sourceAt(v, q, n, cn, at); }
			open.erase(b); return r;
		}
		return sourceAt(p, pi, n, cn, at);
	}
	std::string sourceAt(const Value *p, PtrInfo pi, const Lin &n, std::optional<uint64_t> cn, const Instruction *at) {
		const Value *b = pi.base;
		if (isa<PHINode>(b) || isa<SelectInst>(b)) return source(b, n, cn, at);
		if (isArena(b, DL)) return ""; // guest memory (in bounds: P05)
		auto within = [&](uint64_t size) { return pi.ok && n.ok && P.proveLE(pi.off.plus(n), Lin::cst((i128)size), at); };
		if (auto *A = dyn_cast<AllocaInst>(b)) {
			auto &L = local(A);
			if (pi.ok && pi.off.c.empty() && cn) return written(A, (int64_t)pi.off.k, *cn, at) ? "" : ((int64_t)pi.off.k < 0 || (uint64_t)pi.off.k + *cn > L.size ? "bytes from outside a local object" : "bytes of a local object that were never written");
			if (!within(L.size)) return "bytes from outside a local object";
			if (filledBy(A, pi, n, at)) return "";
			if (pi.off.c.empty() && pi.off.k >= 0 && L.size <= 512) for (uint64_t e = 0; e <= L.size; e++) if ((i128)e >= pi.off.k && P.proveLE(pi.off.plus(n), Lin::cst((i128)e), at)) { if (written(A, (int64_t)pi.off.k, e - (uint64_t)pi.off.k, at)) return ""; break; }
			return written(A, 0, L.size, at) ? "" : "bytes of a local object that were never written";
		}
		if (auto *G = dyn_cast<GlobalVariable>(b)) return within(DL.getTypeAllocSize(G->getValueType()).getFixedValue()) ? "" : "bytes from outside a global object";
		if (isa<ConstantPointerNull>(b)) return "";
		if (auto *CB = dyn_cast<CallBase>(b)) if (auto *f = calleeOf(CB)) { // a buffer of its own, filled in place
			StringRef nm = f->getName(); bool zero = nm == "calloc";
			if ((nm == "_Znwm" || nm == "_Znam" || nm == "malloc") && pi.ok && n.ok && (P.proveLE(pi.off.plus(n), P.val(CB->getArgOperand(0)), at) || (pi.off.c.empty() && pi.off.k == 0 && upToEnd(at, b)))) return filledInPlace(CB, zero) ? "" : "bytes of a buffer that were never written";
		}
		if (isa<LoadInst>(at)) return ""; // a scalar of an object: its type's business (indices: P13)
		// the characters of a string or the elements of a vector: no more than it holds
		if (auto *L = dyn_cast<LoadInst>(b)) if (heldBy(L, pi, n, at)) return "";
		// a member of an object
		if (cn && wholeObject(p, *cn)) return "";
		if (api && isa<Argument>(b)) return ""; // what the embedder asks to be copied
		return "bytes of a host object whose extent is not known here";
	}
	// does an object of the model lie there, with a member (or all of it) of that many bytes and no host pointer in it?
	static bool plain(const DIType *T, unsigned d = 0) {
		while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) { if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type || D->getTag() == dwarf::DW_TAG_rvalue_reference_type || D->getTag() == dwarf::DW_TAG_ptr_to_member_type) return false; T = D->getBaseType(); }
		auto *Cm = dyn_cast_or_null<DICompositeType>(T); if (!Cm) return true; if (d > 8) return false;
		if (Cm->getTag() == dwarf::DW_TAG_array_type || Cm->getTag() == dwarf::DW_TAG_enumeration_type) return Cm->getTag() != dwarf::DW_TAG_array_type || plain(Cm->getBaseType(), d + 1);
		auto n = scopeName(Cm); if (auto it = FM->types.find(n); it != FM->types.end()) Cm = it->second;
		if (Cm->isForwardDecl()) return false;
		for (auto *e : Cm->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) { if ((m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) || m->getTag() == dwarf::DW_TAG_inheritance) if (!plain(m->getBaseType(), d + 1)) return false; }
		return true;
	}
	bool wholeObject(const Value *p, uint64_t n) {
		std::vector<std::pair<std::string, uint64_t>> at; const Value *q = p; uint64_t acc = 0;
		for (unsigned k = 0; k < 16; k++) {
			for (auto &t : declaredPointees(q)) at.push_back({t, acc});
			auto *G = dyn_cast<GEPOperator>(q); if (!G) break;
			APInt o(64, 0); if (!G->accumulateConstantOffset(DL, o) || o.isNegative()) break;
			acc += o.getZExtValue();
			auto sn = irStructName(G->getSourceElementType()); if (!sn.empty()) at.push_back({sn, acc});
			q = G->getPointerOperand();
		}
		if (C.opts.count("dbg")) { errs() << "OBJ " << *p << " n=" << n << " base " << *q << "\n"; for (auto &c : at) errs() << "   " << c.first << " +" << c.second << "\n"; }
		for (auto &c : at) {
			std::string sn = c.first; uint64_t o = c.second;
			auto it = FM->types.find(sn); if (it == FM->types.end()) continue;
			if (o == 0 && n <= it->second->getSizeInBits() / 8 && plain(it->second)) return true;
			for (unsigned d = 0; d < 8; d++) {
				auto *m = FM->member(sn, o); if (!m) break;
				if (m->off == o && n <= m->size && plain(m->ty)) return true;
				auto *ct = dyn_cast_or_null<DICompositeType>(m->ty); if (!ct) break;
				o -= m->off; sn = scopeName(ct);
			}
		}
		return false;
	}
	// as many bytes as lie between its begin and a place in it (std::vector's size)
	bool upToEnd(const Instruction *at, const Value *b) {
		auto *MT = dyn_cast<MemTransferInst>(at); auto *B = MT ? dyn_cast<BinaryOperator>(MT->getLength()) : nullptr; if (!B || B->getOpcode() != Instruction::Sub) return false;
		auto *x = dyn_cast<PtrToIntInst>(B->getOperand(0)); auto *y = dyn_cast<PtrToIntInst>(B->getOperand(1)); if (!x || !y) return false;
		auto rooted = [&](const Value *p) { std::set<const Value*> seen; std::vector<const Value*> wl{p};
			while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); while (auto *G = dyn_cast<GEPOperator>(v)) { if (!G->isInBounds()) return false; v = G->getPointerOperand(); }
				if (!seen.insert(v).second || v == b || isa<ConstantPointerNull>(v)) continue;
				if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &u : Ph->incoming_values()) wl.push_back(u); else return false; }
			return true; };
		return rooted(x->getOperand(0)) && rooted(y->getOperand(0));
	}
	bool filledInPlace(const CallBase *N, bool zero) {
		if (zero) return true; std::set<const Value*> seen; std::vector<const Value*> wl{N};
		while (!wl.empty()) {
			auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second || seen.size() > 300) continue;
			for (auto *U : v->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) continue;
				if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { wl.push_back(I); continue; }
				if (auto *MI = dyn_cast<MemIntrinsic>(I)) { if (MI->getRawDest() != v) continue; if (auto *MS = dyn_cast<MemSetInst>(MI)) { if (clean(MS->getValue(), MS).empty()) return true; } else return true; continue; }
				if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == v && P.LI->getLoopFor(S->getParent()) && P.LI->getLoopFor(S->getParent()) != P.LI->getLoopFor(N->getParent()) && clean(S->getValueOperand(), S).empty()) return true; }
			}
		}
		return false;
	}
	// no more than a call says it put there
	bool filledBy(const AllocaInst *A, const PtrInfo &pi, const Lin &n, const Instruction *at) {
		for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(CB); if (!f || !P.DT->dominates(CB, at)) continue; auto it = PUTS.find(f->getName().str()); if (it == PUTS.end() || it->second >= CB->arg_size()) continue;
			auto q = decompose(CB->getArgOperand(it->second), P); if (q.base != A || !q.ok || !q.off.c.empty() || q.off.k != 0) continue;
			if (P.proveLE(pi.off.plus(n), P.val(CB), at)) return true; }
		return false;
	}
	// data pointer and length read from the same string
	bool heldBy(const LoadInst *L, const PtrInfo &pi, const Lin &n, const Instruction *at) {
		APInt o(64, 0); auto *obj = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
		for (auto &I : instructions(F)) if (auto *S = dyn_cast<LoadInst>(&I)) if (S->getType()->isIntegerTy(64) && P.DT->dominates(S, at)) {
			APInt q(64, 0); auto *ob = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, q, true);
			if (ob == obj && q == o + 8 && pi.ok && n.ok && P.proveLE(pi.off.plus(n), P.val(S), at)) return true;
		}
		auto part = [&](const Value *v, uint64_t off) { while (isa<PtrToIntInst>(v)) v = cast<CastInst>(v)->getOperand(0); auto *l = dyn_cast<LoadInst>(v); if (!l) return false; APInt q(64, 0); return l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, q, true) == obj && q == o + off; };
		for (auto &I : instructions(F)) if (auto *B = dyn_cast<BinaryOperator>(&I); B && B->getOpcode() == Instruction::Sub && P.DT->dominates(B, at)) if (part(B->getOperand(0), 8) && part(B->getOperand(1), 0) && pi.ok && n.ok && P.proveLE(pi.off.plus(n), P.val(B), at)) return true;
		return false;
	}

	void run() { // what is known of an object may depend on itself: from everything written, down
		Report keep = C.R;
		for (unsigned round = 0; round < 12; round++) {
			C.R = keep; memo.clear(); locals.clear(); open.clear();
			once();
			bool same = true;
			for (auto &l : locals) { auto &b = before[l.first]; if (b != l.second.in) same = false; b = l.second.in; }
			if (same) return;
		}
		C.R.error("no stable answer for " + root);
	}
	void once() {
		auto sink = [&](const Instruction *I, const char *where, const std::string &why) {
			C.R.count("obligations"); auto L = projLocOf(I);
			if (why.empty()) { C.R.count("discharged"); C.R.sample(root + ": what is put into " + where + " at " + L.file + ":" + std::to_string(L.line)); }
			else C.R.violation("host-memory", std::string(where) + " in " + L.func, root, L.file, L.line, std::string(where) + " can receive " + why + "; path " + inlineChain(I));
		};
		for (auto &I : instructions(F)) {
			if (auto *S = dyn_cast<StoreInst>(&I)) { if (auto *w = guest(S->getPointerOperand())) sink(&I, w, clean(S->getValueOperand(), &I)); }
			else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) { if (auto *w = guest(A->getPointerOperand())) sink(&I, w, clean(A->getValOperand(), &I)); }
			else if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) { if (auto *w = guest(A->getPointerOperand())) sink(&I, w, clean(A->getNewValOperand(), &I)); }
			else if (auto *MS = dyn_cast<MemSetInst>(&I)) { if (auto *w = guest(MS->getRawDest())) sink(&I, w, clean(MS->getValue(), &I)); }
			else if (auto *MT = dyn_cast<MemTransferInst>(&I)) { if (auto *w = guest(MT->getRawDest())) { auto *n = dyn_cast<ConstantInt>(MT->getLength()); sink(&I, w, source(MT->getRawSource(), P.val(MT->getLength()), n ? std::optional<uint64_t>(n->getZExtValue()) : std::nullopt, &I)); } }
		}
	}
	// is p guest memory or a guest register?
	std::map<const Value*, int> gm;
	const char *guest(const Value *p) {
		std::set<const Value*> seen; std::vector<const Value*> wl{p}; const char *r = nullptr;
		while (!wl.empty()) {
			auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second || seen.size() > 400) continue;
			auto k = fieldKey(v, DL);
			if (StringRef(k).starts_with("loongarch::Registers::")) { r = "a guest register"; continue; }
			auto *b = v->stripInBoundsOffsets(); while (auto *G = dyn_cast<GEPOperator>(b)) b = G->getPointerOperand()->stripInBoundsOffsets();
			if (isArena(b, DL)) return "guest memory";
			if (auto *Ph = dyn_cast<PHINode>(b)) for (auto &u : Ph->incoming_values()) wl.push_back(u);
			if (auto *S = dyn_cast<SelectInst>(b)) { wl.push_back(S->getTrueValue()); wl.push_back(S->getFalseValue()); }
		}
		return r;
	}
};

void runLeak(Ctx &C) {
	auto R = findRoots(C);
	if (!FM->memberByName("loongarch::Memory", "m_arena")) C.R.error("guest arena field not found");
	C.R.info["local_objects"] = (int64_t)plantUninit(*C.M);
	simplifyModuleLight(*C.M);
	std::string sel = C.opts.count("roots") ? C.opts["roots"] : "sys";
	std::vector<std::pair<Function*, std::string>> roots;
	if (sel.find("sys") != sel.npos) { for (auto *f : R.syscalls) roots.push_back({f, "syscall"}); if (R.syscalls.size() < 30) C.R.error("system call handlers not recognised"); }
	if (sel.find("cpu") != sel.npos) for (auto *f : R.handlers) roots.push_back({f, "handler"});
	if (sel.find("api") != sel.npos) { std::set<Function*> have(R.dispatch.begin(), R.dispatch.end()); have.insert(R.handlers.begin(), R.handlers.end()); have.insert(R.syscalls.begin(), R.syscalls.end()); for (auto &F : *C.M) if (!F.isDeclaration() && isPublicApi(&F) && !have.count(&F)) for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy() && fieldKey(L->getPointerOperand(), *C.DL) == ARENA_F) { roots.push_back({&F, "api"}); break; } }
	InlinePolicy IP; IP.want = defaultInlineWant;
	for (auto &r : roots) {
		if (C.opts.count("only") && qualName(r.first).find(C.opts["only"]) == std::string::npos) continue;
		flatten(*r.first, IP); simplifyFunction(*r.first);
		if (C.opts.count("dump")) r.first->print(errs());
		C.R.count("roots_" + r.second);
		Leak L(C, *r.first, r.second == "handler" ? R.handlerName[r.first] : qualName(r.first), r.second == "api"); L.run();
	}
}
}
