// Properties of the guest / host-operating-system boundary.
#include "prover.hpp"
#include "llvm/IR/InlineAsm.h"
namespace lva {

// every function that code of F can reach: calls, function references, tables (vtables included)
void closure(Module &M, std::vector<Function*> roots, std::map<Function*, std::pair<Function*, const Instruction*>> &from) {
	std::vector<Function*> wl;
	auto push = [&](Function *f, Function *by, const Instruction *I) { if (from.emplace(f, std::make_pair(by, I)).second) wl.push_back(f); };
	for (auto *f : roots) push(f, nullptr, nullptr);
	std::set<const Constant*> seen;
	std::function<void(const Constant*, Function*, const Instruction*)> consts = [&](const Constant *c, Function *by, const Instruction *I) {
		if (auto *f = dyn_cast<Function>(c)) { push(const_cast<Function*>(f), by, I); return; }
		if (isa<ConstantData>(c)) return;
		if (!seen.insert(c).second) return;
		if (auto *g = dyn_cast<GlobalVariable>(c)) { if (g->hasInitializer()) consts(g->getInitializer(), by, I); return; }
		for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o)) consts(oc, by, I);
	};
	while (!wl.empty()) {
		Function *f = wl.back(); wl.pop_back();
		for (auto &I : instructions(*f)) for (auto &o : I.operands()) if (auto *c = dyn_cast<Constant>(o)) consts(c, f, &I);
		// indirect calls: every project function of that type whose address is taken
		for (auto &I : instructions(*f)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!calleeOf(CB) && !CB->isInlineAsm())
			for (auto &G : M) if (!G.isDeclaration() && inProject(&G) && G.getFunctionType() == CB->getFunctionType() && G.hasAddressTaken(nullptr, true)) push(&G, f, &I);
	}
}

// ---- host operating system effects ----
static const std::set<std::string> PURE = {
	"memcpy","memmove","memset","memcmp","bcmp","memchr","memrchr","memmem","rawmemchr","mempcpy","strlen","strnlen","strcmp","strncmp","strcasecmp","strncasecmp","strchr","strrchr","strstr","strcpy","strncpy","strcat","strncat","strdup","strndup","strspn","strcspn","strpbrk","strtok_r","stpcpy","strerror","strerror_r","__assert_fail",
	"malloc","calloc","realloc","free","aligned_alloc","posix_memalign","atoi","atol","atoll","strtol","strtoul","strtoll","strtoull","strtod","strtof","qsort","bsearch","abs","labs","llabs","div","ldiv",
	"snprintf","vsnprintf","sprintf","vsprintf","sscanf","vsscanf","isalpha","isdigit","isspace","isalnum","isprint","isxdigit","isupper","islower","toupper","tolower",
	"__errno_location","__stack_chk_fail","__clang_call_terminate","_Unwind_Resume","__gxx_personality_v0","__dso_handle","atexit","__cxa_atexit","__cxa_pure_virtual",
	"pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","pthread_rwlock_rdlock","pthread_rwlock_wrlock","pthread_rwlock_unlock","pthread_rwlock_tryrdlock","pthread_rwlock_trywrlock","pthread_once","__pthread_key_create","pthread_self","pthread_equal","sched_yield",
	"munmap","madvise","__tls_get_addr","__once_proxy","sysconf","getpagesize","rand","srand","random","explicit_bzero","bzero"};
static const std::set<std::string> CLOCK = {"clock_gettime","clock_getres","gettimeofday","time","clock","times"};
static const std::set<std::string> MATHB = {"sqrt","fma","floor","ceil","trunc","rint","nearbyint","round","lrint","llrint","lround","llround","fmod","remainder","ldexp","scalbn","scalbln","ilogb","logb","frexp","modf","copysign","fabs","fmin","fmax","fdim","nan","log","log2","log10","log1p","exp","exp2","expm1","pow","cbrt","hypot","sin","cos","tan","asin","acos","atan","atan2","fegetround","fesetround","feclearexcept","fetestexcept","feraiseexcept","feholdexcept","feupdateenv","fegetenv","fesetenv","roundeven"};

// nullptr: harmless; otherwise why not
static std::string effectOf(const Function *F) {
	std::string n = F->getName().str();
	if (F->isIntrinsic() || PURE.count(n) || CLOCK.count(n) || StringRef(n).starts_with("lva.")) return "";
	std::string b = n; if (b.size() > 1 && (b.back() == 'f' || b.back() == 'l')) { if (MATHB.count(b.substr(0, b.size() - 1))) return ""; }
	if (MATHB.count(n)) return "";
	if (StringRef(n).starts_with("__cxa_") || StringRef(n).starts_with("__atomic_") || StringRef(n).starts_with("__isoc") || StringRef(n).starts_with("__ctype")) return "";
	if (StringRef(n).starts_with("_Zn") || StringRef(n).starts_with("_Zd")) { StringRef r(n); if (r.starts_with("_Znw") || r.starts_with("_Zna") || r.starts_with("_Zdl") || r.starts_with("_Zda")) return ""; }
	std::string q = qualName(F);
	if (StringRef(q).starts_with("std::") || StringRef(q).starts_with("__gnu_cxx::") || StringRef(q).starts_with("vtable for") || StringRef(q).starts_with("__cxxabiv1::") || StringRef(q).starts_with("typeinfo") || StringRef(q).starts_with("operator ")) {
		for (const char *bad : {"filesystem", "filebuf", "fstream", "std::thread", "std::jthread", "random_device", "std::cin", "basic_istream", "std::this_thread::__sleep", "locale::global"})
			if (q.find(bad) != std::string::npos) return "uses host facility " + q;
		return "";
	}
	return "calls host function " + q;
}

// every value that v can be: through merges and through the call sites of the function it is a parameter of
static void sources(const Value *v, std::set<const Value*> &out, std::set<const Value*> &seen) {
	v = v->stripPointerCasts();
	if (!seen.insert(v).second) return;
	if (auto *P = dyn_cast<PHINode>(v)) { for (auto &o : P->incoming_values()) sources(o, out, seen); return; }
	if (auto *S = dyn_cast<SelectInst>(v)) { sources(S->getTrueValue(), out, seen); sources(S->getFalseValue(), out, seen); return; }
	if (auto *Cc = dyn_cast<CastInst>(v)) { if (isa<SExtInst>(Cc) || isa<ZExtInst>(Cc) || isa<TruncInst>(Cc)) { sources(Cc->getOperand(0), out, seen); return; } }
	if (auto *A = dyn_cast<Argument>(v)) {
		const Function *F = A->getParent();
		bool all = !F->hasAddressTaken(nullptr, true), any = false;
		for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand()->stripPointerCasts() == F && A->getArgNo() < CB->arg_size()) { any = true; sources(CB->getArgOperand(A->getArgNo()), out, seen); }
		if (!all || !any) out.insert(v);
		return;
	}
	out.insert(v);
}
static std::set<const Value*> sources(const Value *v) { std::set<const Value*> o, s; sources(v, o, s); return o; }
static bool isStdFd(const Value *v) {
	auto s = sources(v);
	for (auto *x : s) { auto *c = dyn_cast<ConstantInt>(x); if (!c || (c->getSExtValue() != 1 && c->getSExtValue() != 2)) return false; }
	return !s.empty();
}
static bool isStdStream1(const Value *v);
static bool isStdStream(const Value *v) {
	auto s = sources(v);
	for (auto *x : s) if (!isStdStream1(x)) return false;
	return !s.empty();
}
static bool isStdStream1(const Value *v) {
	if (auto *L = dyn_cast<LoadInst>(v)) { auto *g = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts()); return g && (g->getName() == "stdout" || g->getName() == "stderr"); }
	return false;
}

void runEffects(Ctx &C) {
	auto R = findRoots(C);
	if (R.dispatch.size() < 2 || R.handlers.size() < 200 || R.syscalls.size() < 30) C.R.error("guest entry points not recognised");
	simplifyModuleLight(*C.M);
	std::vector<Function*> roots = R.dispatch;
	roots.insert(roots.end(), R.handlers.begin(), R.handlers.end());
	roots.insert(roots.end(), R.syscalls.begin(), R.syscalls.end());
	std::map<Function*, std::pair<Function*, const Instruction*>> from;
	closure(*C.M, roots, from);
	C.R.info["roots"] = (int64_t)roots.size();
	C.R.info["reachable_functions"] = (int64_t)from.size();
	auto chain = [&](Function *f) { std::string s = qualName(f); for (unsigned n = 0; n < 12; n++) { f = from[f].first; if (!f) break; s += " <- " + qualName(f); } return s; };
	auto bad = [&](const Instruction *I, Function *in, const std::string &site, const std::string &why) {
		auto L = I ? projLocOf(I) : locOf(in);
		C.R.violation("host-effect", site, qualName(in), L.file, L.line, "guest code can reach a host effect: " + why + "; call path " + chain(in));
	};
	std::vector<std::pair<Function*, std::pair<Function*, const Instruction*>>> all(from.begin(), from.end());
	llvm::sort(all, [](auto &a, auto &b) { return a.first->getName() < b.first->getName(); });
	for (auto &p : all) {
		Function *f = p.first;
		if (!f->isDeclaration()) {
			for (auto &I : instructions(*f)) if (auto *CB = dyn_cast<CallBase>(&I)) {
				if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) {
					StringRef s(IA->getAsmString());
					C.R.count("obligations");
					if (s.contains("syscall") || s.contains("int ") || s.contains("sysenter") || s.contains("svc")) bad(&I, f, "inline assembly", "inline assembly " + s.str());
					else C.R.count("discharged");
					continue;
				}
				auto *cal = calleeOf(CB);
				if (!cal || !cal->isDeclaration() || cal->isIntrinsic()) continue;
				std::string n = cal->getName().str();
				std::string why;
				if (n == "write" || n == "dprintf") {
					if (!isStdFd(CB->getArgOperand(0))) why = n + " to a descriptor other than stdout or stderr";
				} else if (n == "fwrite" || n == "fwrite_unlocked") { if (!isStdStream(CB->getArgOperand(3))) why = n + " to a stream other than stdout or stderr"; }
				else if (n == "fputs" || n == "fputc" || n == "putc") { if (!isStdStream(CB->getArgOperand(1))) why = n + " to a stream other than stdout or stderr"; }
				else if (n == "fprintf" || n == "fflush" || n == "vfprintf") { if (!isStdStream(CB->getArgOperand(0))) why = n + " on a stream other than stdout or stderr"; }
				else if (n == "printf" || n == "puts" || n == "putchar" || n == "vprintf") {}
				else if (n == "mmap" || n == "mmap64") {
					auto *fl = dyn_cast<ConstantInt>(CB->getArgOperand(3)); auto *pr = dyn_cast<ConstantInt>(CB->getArgOperand(2));
					if (!fl || !(fl->getZExtValue() & 0x20)) why = "mmap of something other than anonymous memory";
					else if (!pr || (pr->getZExtValue() & 4)) why = "mapping of executable host memory";
				} else if (n == "mprotect") { auto *pr = dyn_cast<ConstantInt>(CB->getArgOperand(2)); if (!pr || (pr->getZExtValue() & 4)) why = "mprotect to executable"; }
				else why = effectOf(cal);
				C.R.count("obligations");
				C.R.count("call_sites");
				if (why.empty()) { C.R.count("discharged"); if (!StringRef(qualName(cal)).starts_with("std::") && !PURE.count(n) && !StringRef(n).starts_with("__cxa_") && !StringRef(qualName(cal)).starts_with("operator")) { auto L = projLocOf(&I); C.R.sample(qualName(cal) + " from " + qualName(f) + " at " + L.file + ":" + std::to_string(L.line)); } }
				else bad(&I, f, n, why);
			}
			continue;
		}
		// referenced as a value (stored or passed), not called directly
		if (f->isIntrinsic()) continue;
		bool direct = false;
		for (auto *U : f->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand() == f) direct = true;
		if (direct) continue;
		C.R.count("obligations");
		std::string why = effectOf(f);
		if (why.empty()) C.R.count("discharged"); else bad(p.second.second, p.second.first ? p.second.first : f, f->getName().str(), why);
	}
}
}
namespace lva {
// ---- every system call handler delivers a result ----
static const DICompositeType *derefComposite(const DIType *T) {
	while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) T = D->getBaseType();
	return dyn_cast_or_null<DICompositeType>(T);
}
// v is the address of the machine that runs the guest
static bool isMachinePtr(const Value *v, const DataLayout &DL) {
	v = v->stripPointerCasts();
	if (auto *L = dyn_cast<LoadInst>(v)) {
		std::string k = fieldKey(L->getPointerOperand(), DL);
		auto p = k.rfind("::"); if (p == std::string::npos) return false;
		auto *m = FM->memberByName(k.substr(0, p), k.substr(p + 2));
		auto *c = m ? derefComposite(m->ty) : nullptr;
		return c && scopeName(c) == "loongarch::Machine";
	}
	for (auto &s : declaredPointees(v)) if (s == "loongarch::Machine" || s == "loongarch::CPU") return true;
	if (auto *A = dyn_cast<Argument>(v)) { auto *SP = A->getParent()->getSubprogram(); return SP && A->getArgNo() == 0 && isa<PointerType>(A->getType()); }
	return false;
}
struct RegFile { uint64_t cpu = 0, regs = 0, a0 = 0, fa0 = 0, pc = 0, size = 0; bool ok = false; };
static RegFile regFile() {
	RegFile r;
	auto *c = FM->memberByName("loongarch::Machine", "cpu"), *g = FM->memberByName("loongarch::CPU", "m_regs"), *x = FM->memberByName("loongarch::Registers", "m_regs"), *p = FM->memberByName("loongarch::Registers", "pc"), *v = FM->memberByName("loongarch::Registers", "m_vr");
	auto e = FM->enums.find("loongarch::LARegister");
	if (!c || !g || !x || !p || !v || e == FM->enums.end() || !e->second.count("REG_A0")) return r;
	r.cpu = c->off; r.regs = c->off + g->off; r.size = g->size; r.a0 = r.regs + x->off + 8 * e->second.at("REG_A0"); r.pc = r.regs + p->off; r.fa0 = r.regs + v->off; r.ok = true;
	return r;
}
// markers keep stores visible that write back the value already there
static void markStores(Module &M) {
	LLVMContext &X = M.getContext();
	auto fn = M.getOrInsertFunction("lva.w", FunctionType::get(Type::getVoidTy(X), {PointerType::get(X, 0)}, false));
	auto *F = cast<Function>(fn.getCallee());
	F->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F->setDoesNotThrow(); F->setWillReturn(); F->addParamAttr(0, Attribute::NoCapture); F->addParamAttr(0, Attribute::ReadNone);
	for (auto &G : M) if (!G.isDeclaration() && inProject(&G)) {
		std::vector<StoreInst*> ss;
		for (auto &I : instructions(G)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isIntegerTy(64) && !isa<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) ss.push_back(S);
		for (auto *S : ss) { auto *CI = CallInst::Create(fn, {S->getPointerOperand()}, "", S->getNextNode()); CI->setDebugLoc(S->getDebugLoc()); }
	}
}
// every thread belongs to the one thread manager of its machine
void unifyThreadManager(Function &F) {
	Module &M = *F.getParent();
	auto fn = M.getOrInsertFunction("lva.mt", FunctionType::get(PointerType::get(M.getContext(), 0), false));
	auto *G = cast<Function>(fn.getCallee()); G->setDoesNotAccessMemory(); G->setDoesNotThrow(); G->setWillReturn();
	std::vector<LoadInst*> ls;
	for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy()) {
		std::string k = fieldKey(L->getPointerOperand(), M.getDataLayout());
		if (k == "loongarch::Thread::threading" || k == "loongarch::Machine::m_mt") ls.push_back(L);
	}
	for (auto *L : ls) { auto *CI = CallInst::Create(fn, {}, "mt", L); CI->setDebugLoc(L->getDebugLoc()); L->replaceAllUsesWith(CI); }
}
static const Value *baseOff(const Value *P, const DataLayout &DL, int64_t &off) {
	APInt o(64, 0);
	const Value *b = P->stripAndAccumulateConstantOffsets(DL, o, true);
	off = o.getSExtValue();
	return b;
}
// the store gives the guest program an outcome: result register, program counter, register file, or a stop
static const char *delivers(const Instruction &I, const RegFile &RF, const DataLayout &DL) {
	int64_t off;
	if (auto *S = dyn_cast<StoreInst>(&I)) {
		if (fieldKey(S->getPointerOperand(), DL) == "loongarch::Machine::m_max_instructions") { auto *c = dyn_cast<ConstantInt>(S->getValueOperand()); return c && c->isZero() ? "stop" : nullptr; }
		auto *b = baseOff(S->getPointerOperand(), DL, off);
		if (!isMachinePtr(b, DL)) return nullptr;
		if ((uint64_t)off == RF.a0 && DL.getTypeStoreSize(S->getValueOperand()->getType()) == 8) return "result register";
		if ((uint64_t)off == RF.fa0) return "floating-point result register";
		if ((uint64_t)off == RF.pc) return "program counter";
		return nullptr;
	}
	if (auto *CB = dyn_cast<CallBase>(&I)) {
		auto *cal = calleeOf(CB);
		if (cal && cal->getName() == "lva.w") { auto *b = baseOff(CB->getArgOperand(0), DL, off); return isMachinePtr(b, DL) && (uint64_t)off == RF.a0 ? "result register" : nullptr; }
		// handed on to a callback of the host
		if (!cal && !CB->isInlineAsm() && CB->arg_size() && isMachinePtr(CB->getArgOperand(0), DL)) return "host callback";
	}
	if (auto *MT = dyn_cast<MemTransferInst>(&I)) {
		auto *b = baseOff(MT->getRawDest(), DL, off);
		auto *n = dyn_cast<ConstantInt>(MT->getLength());
		if (n && isMachinePtr(b, DL) && (uint64_t)off <= RF.a0 && off + n->getZExtValue() >= RF.a0 + 8) return "register file";
	}
	return nullptr;
}
void runResults(Ctx &C) {
	auto R = findRoots(C);
	auto RF = regFile();
	if (!RF.ok) { C.R.error("register file layout not recognised"); return; }
	if (R.syscalls.size() < 30) C.R.error("system call handlers not recognised");
	markStores(*C.M);
	simplifyModuleLight(*C.M);
	InlinePolicy IP; IP.want = defaultInlineWant;
	for (auto *F : R.syscalls) {
		// a C function without a result
		bool voidFn = false;
		flatten(*F, IP);
		unifyThreadManager(*F);
		simplifyFunction(*F); threadJumps(*F);
		if (C.opts.count("dump") && C.opts["dump"] == qualName(F)) F->print(errs());
		for (auto &I : instructions(*F)) if (inlineChain(&I).find("loongarch::Arena::free:") != std::string::npos) voidFn = true;
		if (voidFn) { C.R.count("void_functions"); C.R.sample(qualName(F) + ": accelerated function without a result"); continue; }
		C.R.count("handlers");
		std::map<const BasicBlock*, bool> in;
		auto gen = [&](const BasicBlock *B) { for (auto &I : *B) if (delivers(I, RF, *C.DL)) return true; return false; };
		for (auto &B : *F) in[&B] = true;
		in[&F->getEntryBlock()] = false;
		bool ch = true;
		while (ch) {
			ch = false;
			for (auto &B : *F) {
				if (&B == &F->getEntryBlock()) continue;
				bool v = true;
				for (auto *P : predecessors(&B)) v &= in[P] || gen(P);
				if (v != in[&B]) { in[&B] = v; ch = true; }
			}
		}
		std::set<std::string> how;
		for (auto &I : instructions(*F)) if (auto *h = delivers(I, RF, *C.DL)) how.insert(h);
		for (auto &B : *F) if (isa<ReturnInst>(B.getTerminator())) {
			// one obligation per way into the return
			std::vector<std::pair<const Instruction*, bool>> ways;
			if (gen(&B) || pred_empty(&B)) ways.push_back({B.getTerminator(), gen(&B) || in[&B]});
			else for (auto *P : predecessors(&B)) ways.push_back({P->getTerminator(), in[P] || gen(P)});
			for (auto &w : ways) {
				C.R.count("obligations");
				if (w.second) C.R.count("discharged");
				else { auto L = projLocOf(w.first); C.R.violation("syscall-no-result", "handler", qualName(F), L.file, L.line, "a path through the system call handler returns to the guest without storing a result, stopping, or switching threads; path " + inlineChain(w.first)); }
			}
		}
		std::string s; for (auto &h : how) s += (s.empty() ? "" : ", ") + h;
		C.R.sample(qualName(F) + ": " + s, 80);
	}
}
}
