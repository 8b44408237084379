// Arena bounds / write protection obligations.
#include "prover.hpp"
namespace lva {

static const char *ARENA = "loongarch::Memory::m_arena";
static const int SLACK = 64; // bytes behind the arena that a single access may touch; covered by the allocation (analysis "bounds")
static const std::set<std::string> STABLE = {
	"loongarch::Memory::m_arena_size", "loongarch::Memory::m_rodata_start", "loongarch::Memory::m_data_start",
	"loongarch::Memory::m_arena_end_sub_rodata", "loongarch::Memory::m_arena_end_sub_data"};

void setupMemProver(Prover &P) {
	P.stable = STABLE;
	auto S = P.symField("loongarch::Memory::m_arena_size"), R = P.symField("loongarch::Memory::m_rodata_start"), D = P.symField("loongarch::Memory::m_data_start");
	auto rd = P.symField("loongarch::Memory::m_arena_end_sub_rodata"), dd = P.symField("loongarch::Memory::m_arena_end_sub_data");
	auto le = [&](const Lin &a, const Lin &b) { P.globalFacts.push_back(a.plus(b, -1)); };
	auto eq = [&](const Lin &a, const Lin &b) { le(a, b); le(b, a); };
	// established by every function that moves the bounds (analysis "bounds", property P03)
	eq(R.plus(rd), S); eq(D.plus(dd), S); le(R, D); le(D, S); le(S, Lin::cst((i128)1 << 56));
	if (P.C.masked) le(Lin::cst((i128)1 << P.C.maskedBits), S);
}

static bool isArenaBase(const Value *b, const DataLayout &DL) {
	auto *L = dyn_cast<LoadInst>(b);
	return L && fieldKey(L->getPointerOperand(), DL) == ARENA;
}

struct Access { const Instruction *I; const Value *ptr; Lin size; bool sizeKnown; bool write; std::string what; };

// how an external callee uses (ptr,len) arguments: arg index -> len arg index (-1: unbounded)
struct ExtUse { int ptr, len; bool write; int scale = 1; };
static const std::map<std::string, std::vector<ExtUse>> EXT = {
	{"memcmp", {{0, 2, false}, {1, 2, false}}}, {"bcmp", {{0, 2, false}, {1, 2, false}}},
	{"strnlen", {{0, 1, false}}}, {"memchr", {{0, 2, false}}},
	{"write", {{1, 2, false}}}, {"snprintf", {{0, 1, true}}}, {"vsnprintf", {{0, 1, true}}}, {"read", {{1, 2, true}}}, {"fwrite", {{0, 2, false}}},
	{"madvise", {{0, 1, true}}}, {"munmap", {{0, 1, true}}},
	{"memcpy", {{0, 2, true}, {1, 2, false}}}, {"memmove", {{0, 2, true}, {1, 2, false}}}, {"memset", {{0, 2, true}}},
};

void collectAccesses(Function &F, Prover &P, std::vector<Access> &out, std::function<bool(const Value*)> isBase, std::vector<std::pair<const Instruction*, std::string>> &escapes) {
	const DataLayout &DL = P.DL;
	std::function<bool(const Value*, unsigned)> derived = [&](const Value *v, unsigned d) -> bool {
		if (!v->getType()->isPointerTy() || d == 0) return false;
		v = v->stripInBoundsOffsets();
		while (auto *G = dyn_cast<GEPOperator>(v)) v = G->getPointerOperand()->stripInBoundsOffsets();
		if (isBase(v)) return true;
		return false;
	};
	std::set<const Value*> phiDerived;
	bool ch = true;
	auto root = [&](const Value *v) { v = v->stripPointerCasts(); while (auto *G = dyn_cast<GEPOperator>(v)) v = G->getPointerOperand()->stripPointerCasts(); return v; };
	auto der = [&](const Value *v) { if (!v->getType()->isPointerTy()) return false; auto *r = root(v); return isBase(r) || phiDerived.count(r) != 0; };
	while (ch) {
		ch = false;
		for (auto &I : instructions(F)) if (isa<PHINode>(I) || isa<SelectInst>(I)) {
			if (!I.getType()->isPointerTy() || phiDerived.count(&I)) continue;
			bool d = false;
			if (auto *Ph = dyn_cast<PHINode>(&I)) { for (auto &v : Ph->incoming_values()) d |= der(v); }
			else { auto *S = cast<SelectInst>(&I); d = der(S->getTrueValue()) || der(S->getFalseValue()); }
			if (d) { phiDerived.insert(&I); ch = true; }
		}
	}
	for (auto &I : instructions(F)) {
		if (auto *L = dyn_cast<LoadInst>(&I)) { if (der(L->getPointerOperand())) out.push_back({&I, L->getPointerOperand(), Lin::cst((i128)DL.getTypeStoreSize(L->getType()).getFixedValue()), true, false, "load"}); }
		else if (auto *S = dyn_cast<StoreInst>(&I)) {
			if (der(S->getPointerOperand())) out.push_back({&I, S->getPointerOperand(), Lin::cst((i128)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()), true, true, "store"});
			if (der(S->getValueOperand())) escapes.push_back({&I, "pointer stored to memory"});
		}
		else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) { if (der(A->getPointerOperand())) out.push_back({&I, A->getPointerOperand(), Lin::cst((i128)DL.getTypeStoreSize(A->getValOperand()->getType()).getFixedValue()), true, true, "atomicrmw"}); }
		else if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) { if (der(A->getPointerOperand())) out.push_back({&I, A->getPointerOperand(), Lin::cst((i128)DL.getTypeStoreSize(A->getNewValOperand()->getType()).getFixedValue()), true, true, "cmpxchg"}); }
		else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) {
			Lin n = P.val(MI->getLength());
			if (der(MI->getRawDest())) out.push_back({&I, MI->getRawDest(), n, n.ok, true, "memintrinsic dest"});
			if (auto *MT = dyn_cast<MemTransferInst>(MI)) if (der(MT->getRawSource())) out.push_back({&I, MT->getRawSource(), n, n.ok, false, "memintrinsic source"});
		}
		else if (auto *CB = dyn_cast<CallBase>(&I)) {
			if (isa<IntrinsicInst>(CB)) continue;
			Function *cal = calleeOf(CB);
			std::string nm = cal ? cal->getName().str() : "<indirect>";
			for (unsigned a = 0; a < CB->arg_size(); a++) {
				if (!der(CB->getArgOperand(a))) continue;
				auto it = EXT.find(nm);
				bool done = false;
				if (it != EXT.end()) for (auto &u : it->second) if (u.ptr == (int)a) {
					Lin n = P.val(CB->getArgOperand(u.len));
					out.push_back({&I, CB->getArgOperand(a), n, n.ok, u.write, nm}); done = true;
				}
				// comparison against a literal reads no further than the literal's terminator
				if (!done && nm == "strcmp") {
					StringRef lit;
					if (getConstantStringInfo(CB->getArgOperand(1 - a), lit)) { out.push_back({&I, CB->getArgOperand(a), Lin::cst(lit.size() + 1), true, false, nm}); done = true; }
				}
				if (!done) escapes.push_back({&I, "passed to " + (cal ? qualName(cal) : nm)});
			}
		}
		else if (auto *Rt = dyn_cast<ReturnInst>(&I)) { if (Rt->getReturnValue() && Rt->getReturnValue()->getType()->isPointerTy() && der(Rt->getReturnValue())) escapes.push_back({&I, "returned"}); }
	}
}


static bool loadsArena(Function &F, const DataLayout &DL) {
	for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy() && fieldKey(L->getPointerOperand(), DL) == ARENA) return true;
	return false;
}

// Obligations on every access made through the guest arena pointer.
//   mode=bounds: [off, off+size) inside [0, arena_size + slack)
//   mode=write : off >= data_start for every write
// roots: cpu (dispatch loops and instruction handlers), sys (system calls), api (public host API)
void runArena(Ctx &C) {
	auto R = findRoots(C);
	simplifyModuleLight(*C.M);
	std::string mode = C.opts.count("mode") ? C.opts["mode"] : "bounds";
	std::string sel = C.opts.count("roots") ? C.opts["roots"] : "cpu,sys,api";
	std::vector<std::pair<Function*, std::string>> roots;
	if (sel.find("cpu") != std::string::npos) {
		for (auto *f : R.dispatch) roots.push_back({f, "dispatch"});
		for (auto *f : R.handlers) roots.push_back({f, "handler"});
		if (R.dispatch.size() < 2) C.R.error("expected two dispatch loops, found " + std::to_string(R.dispatch.size()));
		if (R.handlers.size() < 200) C.R.error("instruction handler table not recognised");
	}
	if (sel.find("sys") != std::string::npos) {
		for (auto *f : R.syscalls) roots.push_back({f, "syscall"});
		if (R.syscalls.size() < 30) C.R.error("system call handlers not recognised");
	}
	if (sel.find("api") != std::string::npos) {
		std::set<Function*> have(R.dispatch.begin(), R.dispatch.end());
		have.insert(R.handlers.begin(), R.handlers.end()); have.insert(R.syscalls.begin(), R.syscalls.end());
		unsigned n = 0;
		for (auto &F : *C.M) if (isPublicApi(&F) && !have.count(&F) && loadsArena(F, *C.DL)) { roots.push_back({&F, "api"}); n++; }
		if (n < 5) C.R.error("public memory API not recognised");
	}
	if (!FM->memberByName("loongarch::Memory", "m_arena")) C.R.error("guest arena field not found");
	InlinePolicy IP; IP.want = defaultInlineWant;
	unsigned total = 0;
	for (auto &rp : roots) {
		Function &F = *rp.first;
		flatten(F, IP);
		simplifyFunction(F);
	}
	for (auto &rp : roots) {
		Function &F = *rp.first;
		Prover P(F, C);
		setupMemProver(P);
		std::vector<Access> acc; std::vector<std::pair<const Instruction*, std::string>> esc;
		collectAccesses(F, P, acc, [&](const Value *v) { return isArenaBase(v, *C.DL); }, esc);
		std::string rootName = rp.second == "handler" ? R.handlerName[&F] : qualName(&F);
		C.R.count("roots_" + rp.second);
		for (auto &a : acc) {
			if (mode == "write" && !a.write) continue;
			if (mode == "write" && C.masked) continue;
			total++;
			C.R.count("obligations"); C.R.count("obligations_" + rp.second);
			PtrInfo pi = decompose(a.ptr, P);
			Lin S = P.symField("loongarch::Memory::m_arena_size");
			auto base = [&](const Value *v) { return isArenaBase(v, *C.DL); };
			Lin lo = P.symField("loongarch::Memory::m_data_start");
			bool ok;
			if (mode == "bounds") ok = a.sizeKnown && proveInObject(a.ptr, a.size, S.plus(Lin::cst(SLACK)), base, a.I, P);
			else ok = proveInObject(a.ptr, Lin::cst(0), Lin::cst((i128)1 << 80), base, a.I, P, &lo);
			auto L = projLocOf(a.I);
			std::string desc = a.what + (a.write ? " (write)" : " (read)");
			if (ok) {
				C.R.count("discharged");
				C.R.sample(rp.second + " " + rootName + ": " + desc + " at " + L.file + ":" + std::to_string(L.line) + " in " + L.func + ", size " + P.show(a.size));
			} else C.R.violation(mode == "bounds" ? "arena-bounds" : "arena-write-protection", desc + " in " + L.func, rootName, L.file, L.line,
				(mode == "bounds" ? "guest-controlled " + desc + " is not proved to stay inside the guest arena" : desc + " is not proved to stay above the start of writable data") +
				"; offset " + P.show(pi.off) + ", size " + P.show(a.size) + "; path " + inlineChain(a.I));
		}
		if (mode == "bounds") for (auto &e : esc) {
			if (rp.second == "api" && e.second == "returned") continue; // handing out checked views is the purpose of the host API
			auto L = projLocOf(e.first);
			C.R.violation("arena-escape", e.second + " in " + L.func, rootName, L.file, L.line, "arena pointer " + e.second + " without an analysable length; path " + inlineChain(e.first));
		}
		// the bounds themselves must not move while guest code runs
		if (rp.second != "api") for (auto &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I)) {
			std::string k = fieldKey(St->getPointerOperand(), *C.DL);
			if (STABLE.count(k) || k == ARENA) { auto L = projLocOf(&I); C.R.violation("arena-bounds-mutated", k, rootName, L.file, L.line, "store to " + k + " while guest code runs"); }
		}
	}
	if (!total) C.R.error("no arena access found");
}

// Every read of the ELF image (m_binary) stays inside it, for any header contents.
static const char *BIN_SIZE = "loongarch::Memory::m_binary", *BIN_PTR = "loongarch::Memory::m_binary+8";
void runElf(Ctx &C) {
	if (!FM->memberByName("loongarch::Memory", "m_binary")) C.R.error("ELF image field not found");
	simplifyModuleLight(*C.M);
	auto isBin = [&](const Value *v) {
		auto *L = dyn_cast<LoadInst>(v);
		return L && L->getType()->isPointerTy() && fieldKey(L->getPointerOperand(), *C.DL) == BIN_PTR;
	};
	std::vector<Function*> roots;
	for (auto &F : *C.M) if (inProject(&F) && !F.isDeclaration()) {
		bool u = false;
		for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (isBin(L)) u = true;
		if (u) roots.push_back(&F);
	}
	if (roots.empty()) C.R.error("no function reads the ELF image");
	// the image is immutable: loads through its record types may be merged
	for (auto &F : *C.M) if (inProject(&F)) for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) {
		std::string k = fieldKey(L->getPointerOperand(), *C.DL);
		if (StringRef(k).starts_with("loongarch::Elf::") || k == BIN_SIZE || k == BIN_PTR) L->setMetadata(LLVMContext::MD_invariant_load, MDNode::get(C.llctx, {}));
	}
	InlinePolicy IP; IP.want = defaultInlineWant;
	for (auto *F : roots) {
		flatten(*F, IP);
		for (auto &I : instructions(*F)) if (auto *L = dyn_cast<LoadInst>(&I)) {
			std::string k = fieldKey(L->getPointerOperand(), *C.DL);
			if (k == BIN_SIZE || k == BIN_PTR) L->setMetadata(LLVMContext::MD_invariant_load, MDNode::get(C.llctx, {}));
		}
		simplifyFunction(*F);
		Prover P(*F, C);
		setupMemProver(P);
		P.stable.insert(BIN_SIZE);
		Lin S = P.symField(BIN_SIZE);
		P.globalFacts.push_back(S.plus(Lin::cst(-((i128)1 << 62))));
		std::vector<Access> acc; std::vector<std::pair<const Instruction*, std::string>> esc;
		collectAccesses(*F, P, acc, isBin, esc);
		C.R.count("functions");
		for (auto &a : acc) {
			C.R.count("obligations");
			PtrInfo pi = decompose(a.ptr, P);
			bool ok = a.sizeKnown && proveInObject(a.ptr, a.size, S, isBin, a.I, P);
			auto L = projLocOf(a.I);
			if (ok) { C.R.count("discharged"); C.R.sample(qualName(F) + ": " + a.what + " at " + L.file + ":" + std::to_string(L.line) + ", offset " + P.show(pi.off) + ", size " + P.show(a.size)); }
			else C.R.violation("elf-bounds", a.what + " in " + L.func, qualName(F), L.file, L.line, a.what + " of the ELF image is not proved in bounds; offset " + P.show(pi.off) + ", size " + P.show(a.size) + "; path " + inlineChain(a.I));
		}
		for (auto &e : esc) { auto L = projLocOf(e.first); C.R.violation("elf-escape", e.second + " in " + L.func, qualName(F), L.file, L.line, "pointer into the ELF image " + e.second + "; path " + inlineChain(e.first)); }
	}
}

// Whoever moves the arena bounds re-establishes the relation between them before
// returning: rodata + sub_rodata == data + sub_data == size, rodata <= data <= size.
void runBounds(Ctx &C) {
	static const char *FLD[5] = {"loongarch::Memory::m_rodata_start", "loongarch::Memory::m_data_start", "loongarch::Memory::m_arena_size",
		"loongarch::Memory::m_arena_end_sub_rodata", "loongarch::Memory::m_arena_end_sub_data"};
	for (auto *k : FLD) if (!FM->memberByName("loongarch::Memory", StringRef(k).rsplit("::").second.str())) C.R.error(std::string("field not found: ") + k);
	simplifyModuleLight(*C.M);
	auto idx = [&](const Value *p) { std::string k = fieldKey(p, *C.DL); for (int i = 0; i < 5; i++) if (k == FLD[i]) return i; return -1; };
	InlinePolicy IP; IP.want = defaultInlineWant;
	std::vector<Function*> cand, roots;
	std::set<Function*> writers;
	for (auto &F : *C.M) if (inProject(&F) && !F.isDeclaration())
		for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (idx(S->getPointerOperand()) >= 0) writers.insert(&F);
	if (writers.empty()) { C.R.error("no function stores the arena bounds"); return; }
	for (auto *w : writers) C.R.sample("writer: " + qualName(w));
	// callers of writers, transitively, that a host can call
	std::set<Function*> up = writers; bool ch = true;
	while (ch) {
		ch = false;
		for (auto &F : *C.M) if (inProject(&F) && !up.count(&F)) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *cal = calleeOf(CB)) if (up.count(cal)) { up.insert(&F); ch = true; break; }
	}
	for (auto *F : up) {
		std::string q = qualName(F);
		if (q.find("::~") != std::string::npos) continue; // the object is gone afterwards
		if (isPublicApi(F) && (StringRef(q).starts_with("loongarch::Memory::"))) roots.push_back(F);
	}
	llvm::sort(roots, [](Function *a, Function *b) { return a->getName() < b->getName(); });
	Type *I64 = Type::getInt64Ty(C.llctx);
	std::vector<FunctionCallee> init;
	// 0..4: the bounds; 5: bytes the arena pointer really addresses; 6: arena pointer is null
	for (int i = 0; i < 7; i++) init.push_back(C.M->getOrInsertFunction("lva.init." + std::to_string(i), I64));
	auto exitFn = C.M->getOrInsertFunction("lva.exit", Type::getVoidTy(C.llctx), I64, I64, I64, I64, I64, I64, I64);
	for (auto *F : roots) {
		flatten(*F, IP);
		bool ctor = false;
		std::string q = qualName(F); { StringRef s(q); auto p = s.rsplit("::"); ctor = p.second == p.first.rsplit("::").second; }
		IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
		AllocaInst *A[7];
		for (int i = 0; i < 7; i++) A[i] = B.CreateAlloca(I64);
		CallInst *init0[7];
		for (int i = 0; i < 7; i++) { init0[i] = B.CreateCall(init[i]); B.CreateStore(init0[i], A[i]); }
		std::vector<Instruction*> work; unsigned stores = 0;
		for (auto &I : instructions(*F)) work.push_back(&I);
		for (auto *I : work) {
			if (auto *L = dyn_cast<LoadInst>(I)) { int k = idx(L->getPointerOperand()); if (k >= 0 && L->getType() == I64) L->setOperand(0, A[k]); }
			else if (auto *S = dyn_cast<StoreInst>(I)) {
				int k = idx(S->getPointerOperand());
				if (k >= 0 && S->getValueOperand()->getType() == I64) { S->setOperand(1, A[k]); stores++; }
				else if (S->getValueOperand()->getType()->isPointerTy() && fieldKey(S->getPointerOperand(), *C.DL) == ARENA) {
					Value *v = S->getValueOperand()->stripPointerCasts();
					IRBuilder<> X(S->getNextNode());
					Value *len = nullptr; bool null = isa<ConstantPointerNull>(v);
					if (null) len = X.getInt64(SLACK);
					else if (auto *CB = dyn_cast<CallBase>(v)) {
						Function *cal = calleeOf(CB);
						if (cal && cal->getName() == "mmap") len = CB->getArgOperand(1);
						else if (cal && (cal->getName() == "_Znam" || cal->getName() == "malloc")) len = CB->getArgOperand(0);
						else if (cal && cal->getName() == "calloc") len = nullptr;
					} else if (auto *L = dyn_cast<LoadInst>(v)) {
						// a donated arena: the host vouches for its size
						std::string fk = fieldKey(L->getPointerOperand(), *C.DL);
						if (fk == "loongarch::MachineOptions::custom_arena_pointer") {
							auto *m = FM->memberByName("loongarch::MachineOptions", "custom_arena_size"), *q = FM->memberByName("loongarch::MachineOptions", "custom_arena_pointer");
							if (m && q) { IRBuilder<> Y(L); len = Y.CreateLoad(I64, Y.CreateConstGEP1_64(Y.getInt8Ty(), L->getPointerOperand(), (int64_t)m->off - (int64_t)q->off)); }
						}
					}
					if (!len) { auto Lc = projLocOf(S); C.R.violation("arena-allocation-unknown", "arena pointer store in " + Lc.func, qualName(F), Lc.file, Lc.line, "the arena pointer is set from something whose size is not known"); continue; }
					X.CreateStore(len, A[5]); X.CreateStore(X.getInt64(null), A[6]);
				}
			}
			else if (auto *CB = dyn_cast<CallBase>(I)) {
				Function *cal = calleeOf(CB);
				if (cal && writers.count(cal)) C.R.violation("bounds-opaque-writer", qualName(cal), qualName(F), locOf(I).file, locOf(I).line, "bounds are changed by a call that cannot be analysed in context");
			}
		}
		if (!stores) continue;
		C.R.count("functions");
		for (auto *I : work) if (auto *Rt = dyn_cast<ReturnInst>(I)) {
			IRBuilder<> X(Rt); Value *v[7];
			for (int i = 0; i < 7; i++) v[i] = X.CreateLoad(I64, A[i]);
			auto *CI = X.CreateCall(exitFn, {v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
			CI->setDebugLoc(Rt->getDebugLoc());
		}
		simplifyFunction(*F);
		threadJumps(*F);
		if (C.opts.count("dump")) F->print(errs());
		Prover P(*F, C);
		P.inferRelational = true;
		P.relFields = {"loongarch::MachineOptions::memory_max"};
		P.stable.insert("loongarch::MachineOptions::memory_max"); P.stable.insert("loongarch::MachineOptions::custom_arena_size");
		P.stable.insert("loongarch::MachineOptions::stack_size"); P.stable.insert("loongarch::MachineOptions::brk_size");
		for (const char *k : {"memory_max", "custom_arena_size", "stack_size", "brk_size"}) P.globalFacts.push_back(P.symField(std::string("loongarch::MachineOptions::") + k).plus(Lin::cst(-((i128)1 << 56))));
		if (!ctor) { // holds on entry
			Lin v[7]; bool have = true;
			std::map<std::string, CallInst*> cs;
			for (auto &I : instructions(*F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (auto *cal = calleeOf(CI)) if (cal->getName().starts_with("lva.init.")) cs[cal->getName().str()] = CI;
			for (int i = 0; i < 7; i++) { auto it = cs.find("lva.init." + std::to_string(i)); if (it == cs.end()) { v[i] = P.freshNonNeg(); } else v[i] = P.val(it->second); }
			(void)have;
			auto le = [&](const Lin &a, const Lin &b) { P.globalFacts.push_back(a.plus(b, -1)); };
			auto eq = [&](const Lin &a, const Lin &b) { le(a, b); le(b, a); };
			eq(v[0].plus(v[3]), v[2]); eq(v[1].plus(v[4]), v[2]); le(v[0], v[1]); le(v[1], v[2]); le(v[2], Lin::cst((i128)1 << 56)); le(v[2].plus(Lin::cst(SLACK)), v[5]); le(v[6], Lin::cst(1));
			if (C.masked) { Lin x = v[2]; x.add(v[6], (i128)1 << C.maskedBits); le(Lin::cst((i128)1 << C.maskedBits), x); }
		}
		unsigned exits = 0;
		for (auto &I : instructions(*F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (calleeOf(CI) && calleeOf(CI)->getName() == "lva.exit") {
			exits++;
			Lin v[7]; for (int i = 0; i < 7; i++) v[i] = P.val(CI->getArgOperand(i));
			struct O { const char *what; Lin a, b; };
			std::vector<O> ob = {
				{"cached readable extent equals arena size minus read-only start", v[0].plus(v[3]), v[2]}, {"cached readable extent equals arena size minus read-only start", v[2], v[0].plus(v[3])},
				{"cached writable extent equals arena size minus writable start", v[1].plus(v[4]), v[2]}, {"cached writable extent equals arena size minus writable start", v[2], v[1].plus(v[4])},
				{"read-only start does not exceed writable start", v[0], v[1]}, {"writable start does not exceed arena size", v[1], v[2]},
				{"the arena allocation covers the arena and the access slack behind it", v[2].plus(Lin::cst(SLACK)), v[5]}};
			if (C.masked) { Lin x = v[2]; x.add(v[6], (i128)1 << C.maskedBits); ob.push_back({"the arena covers the whole masked address space", Lin::cst((i128)1 << C.maskedBits), x}); }
			for (auto &o : ob) {
				C.R.count("obligations");
				auto L = locOf(F);
				if (P.proveLE(o.a, o.b, CI)) { C.R.count("discharged"); C.R.sample(qualName(F) + ": " + o.what); }
				else C.R.violation("bounds-relation", o.what, qualName(F), L.file, L.line, std::string("on return: not proved that ") + o.what + " (" + P.show(o.a) + " <= " + P.show(o.b) + ")");
			}
		}
	}
}
}
