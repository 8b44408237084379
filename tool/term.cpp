// The host process is never ended by what a guest does: every failure is a C++ exception that can be caught.
#include "prover.hpp"
#include "regions.hpp"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IR/Dominators.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
namespace lva {
void closure(Module &M, std::vector<Function*> roots, std::map<Function*, std::pair<Function*, const Instruction*>> &from);

static const std::set<std::string> ENDS = {"abort", "exit", "_exit", "_Exit", "quick_exit", "raise", "kill", "tgkill", "pthread_kill", "pthread_exit", "__assert_fail", "__assert", "__assert_rtn", "_ZSt9terminatev", "_ZSt10unexpectedv", "longjmp", "siglongjmp", "__longjmp_chk",
	"llvm.trap", "llvm.debugtrap", "llvm.ubsantrap", "__stack_chk_fail", "__cxa_pure_virtual", "__cxa_deleted_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__chk_fail", "alarm", "setitimer", "err", "errx", "error", "perror_exit", "reboot"};
struct Throwing {
	std::map<const Function*, bool> memo; bool memory = true; // memory exhaustion counts
	bool decl(const Function *F) const {
		StringRef n = F->getName(); if (F->isIntrinsic() || F->doesNotThrow()) return false;
		if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length") return true;
		if (!memory && (n.starts_with("_Znw") || n.starts_with("_Zna") || n.starts_with("_ZSt17__throw_bad_alloc") || n.starts_with("_ZSt28__throw_bad_array_new_length") || n == "__cxa_throw_bad_array_new_length" || n.starts_with("_ZSt20__throw_length_error"))) return false;
		if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n.starts_with("__cxa_")) return false;
		return n.starts_with("_Z");
	}
	bool fn(const Function *F) const { if (F->isDeclaration()) return decl(F); auto f = memo.find(F); return f != memo.end() && f->second; }
	bool site(const CallBase *CB) const {
		if (CB->doesNotThrow() || CB->isInlineAsm()) return false; auto *F = calleeOf(CB); if (!F) return true; // a callback may throw
		return fn(F);
	}
	// where an exception goes from a landing pad: out of the function, or into termination
	static void pads(const InvokeInst *II, bool &out, const Instruction *&end) {
		out = false; end = nullptr; std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl{II->getUnwindDest()};
		while (!wl.empty()) { auto *B = wl.back(); wl.pop_back(); if (!seen.insert(B).second) continue;
			bool stop = false; for (auto &I : *B) { if (isa<ResumeInst>(I)) out = true; if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *F = calleeOf(CB)) { StringRef n = F->getName(); if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") { if (!end) end = &I; stop = true; break; } if (n == "__cxa_rethrow") out = true; if (n == "__cxa_end_catch") { stop = true; break; } } }
			if (stop) continue; auto *T = B->getTerminator(); if (auto *X = dyn_cast<InvokeInst>(T)) { wl.push_back(X->getNormalDest()); auto *F = calleeOf(X); if (F && (F->getName() == "__cxa_rethrow")) wl.push_back(X->getUnwindDest()); } else for (unsigned i = 0; i < T->getNumSuccessors(); i++) wl.push_back(T->getSuccessor(i)); }
	}
	void solve(Module &M) {
		for (bool ch = true; ch;) { ch = false; for (auto &F : M) { if (F.isDeclaration() || F.doesNotThrow() || memo[&F]) continue; bool t = false;
			for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB || !site(CB)) continue; if (auto *II = dyn_cast<InvokeInst>(CB)) { bool out; const Instruction *e; pads(II, out, e); if (out) t = true; } else t = true; if (t) break; }
			if (t) { memo[&F] = true; ch = true; } } }
	}
};
// is the thrown type derived from std::exception (by its type information)
static bool fromException(const Constant *TI, unsigned d = 0) {
	if (d > 12) return false; auto *G = dyn_cast<GlobalVariable>(TI->stripPointerCasts()); if (!G) return false;
	StringRef n = G->getName(); if (n == "_ZTISt9exception") return true;
	if (!G->hasInitializer()) return n.starts_with("_ZTISt") || n.starts_with("_ZTINSt"); // every exception type of the standard library is
	bool any = false; for (auto &o : G->getInitializer()->operands()) if (auto *c = dyn_cast<Constant>(o)) if (auto *B = dyn_cast<GlobalVariable>(c->stripPointerCasts())) if (B->getName().starts_with("_ZTI") && fromException(B, d + 1)) any = true;
	return any;
}
void runTerminate(Ctx &C) {
	auto R = findRoots(C);
	if (R.dispatch.size() < 2 || R.handlers.size() < 200 || R.syscalls.size() < 30) C.R.error("guest entry points not recognised");
	simplifyModuleLight(*C.M);
	std::vector<Function*> roots = R.dispatch; roots.insert(roots.end(), R.handlers.begin(), R.handlers.end()); roots.insert(roots.end(), R.printers.begin(), R.printers.end()); roots.insert(roots.end(), R.syscalls.begin(), R.syscalls.end());
	unsigned api = 0; for (auto &F : *C.M) if (isPublicApi(&F)) { roots.push_back(&F); api++; }
	std::map<Function*, std::pair<Function*, const Instruction*>> from; closure(*C.M, roots, from);
	C.R.info["roots"] = (int64_t)roots.size(); C.R.info["public_functions"] = (int64_t)api; C.R.info["reachable_functions"] = (int64_t)from.size();
	Throwing T, T2; T.solve(*C.M); T2.memory = false; T2.solve(*C.M);
	// code run once, under the guard of a local static
	auto once = [&](const Instruction *I) { auto *F = const_cast<Function*>(I->getFunction()); DominatorTree DT(*F); for (auto &J : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&J)) if (auto *f = calleeOf(CB)) if (f->getName() == "__cxa_guard_acquire" && DT.dominates(&J, I)) return true; return false; };
	// does a call that ends the process vanish once its function is part of each of its callers
	std::set<const Function*> guest(R.dispatch.begin(), R.dispatch.end()); for (auto *v : {&R.handlers, &R.syscalls}) guest.insert(v->begin(), v->end());
	std::function<bool(Function*, Function*, const std::string&, unsigned)> impossible = [&](Function *F, Function *site, const std::string &end, unsigned depth) -> bool {
		if (depth > 3 || guest.count(F)) return false; std::set<Function*> callers; for (auto *U : F->users()) { auto *CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F) return false; callers.insert(CB->getFunction()); }
		if (callers.empty()) return false;
		for (auto *G : callers) { ValueToValueMapTy VM; auto *K = CloneFunction(G, VM); InlinePolicy IP; IP.want = [&](const Function *X) { return X == F || X == site || defaultInlineWant(X); }; flatten(*K, IP); simplifyFunction(*K); optimizeRegion(*K, true); bool still = false;
			for (auto &I : instructions(*K)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(CB); if (f && (f->getName() == end || f == F || f == site)) still = true; }
			K->eraseFromParent(); if (still && !impossible(G, site, end, depth + 1)) return false; }
		return true; };
	if (C.opts.count("dump")) for (auto &p : from) if (T2.fn(p.first) && qualName(p.first).find("DecodedExecuteSegment") != std::string::npos) errs() << "throws: " << qualName(p.first) << "\n";
	auto chain = [&](Function *f) { std::string s = qualName(f); for (unsigned n = 0; n < 8; n++) { f = from[f].first; if (!f) break; s += " <- " + qualName(f); } return s; };
	auto bad = [&](const char *rule, const std::string &site, const Instruction *I, Function *in, const std::string &why) { auto L = I ? projLocOf(I) : locOf(in); C.R.violation(rule, site, qualName(in), L.file, L.line, why + "; reached through " + chain(in)); };
	std::vector<Function*> all; for (auto &p : from) all.push_back(p.first); llvm::sort(all, [](auto *a, auto *b) { return a->getName() < b->getName(); });
	unsigned ends = 0, throws = 0, pads = 0;
	for (auto *F : all) { if (F->isDeclaration()) continue;
		for (auto &I : instructions(*F)) {
			auto *CB = dyn_cast<CallBase>(&I);
			if (isa<AllocaInst>(I) && inProject(F)) { auto *A = cast<AllocaInst>(&I); C.R.count("obligations"); C.R.count("stack_objects"); if (A->isStaticAlloca()) C.R.count("discharged"); else bad("stack", "dynamic", &I, F, "the size of a stack object depends on run-time values"); }
			if (!CB) continue; auto *cal = calleeOf(CB);
			if (cal && ENDS.count(cal->getName().str())) {
				if (cal->getName() == "_ZSt9terminatev" && F->getName() == "__clang_call_terminate") continue;
				ends++; C.R.count("obligations"); if (StringRef(qualName(F)).starts_with("std::") && cal->isIntrinsic()) { C.R.count("discharged"); continue; } // a pure virtual destructor
				if (impossible(F, F, cal->getName().str(), 0)) { C.R.count("discharged"); C.R.count("impossible"); C.R.sample("cannot be reached: " + qualName(cal) + " in " + qualName(F), 30); continue; }
				bad("ends-process", cal->getName().str(), &I, F, "calls " + qualName(cal)); continue; }
			if (cal && cal->getName() == "__cxa_throw") { throws++; C.R.count("obligations"); C.R.count("throw_sites");
				auto *TI = dyn_cast<Constant>(CB->getArgOperand(1)); if (TI && fromException(TI)) C.R.count("discharged"); else bad("thrown-type", TI ? TI->getName().str() : "", &I, F, "throws a type that is not derived from std::exception"); }
			if (auto *II = dyn_cast<InvokeInst>(CB)) { bool out; const Instruction *end; Throwing::pads(II, out, end); if (!end) continue; pads++;
				C.R.count("obligations"); C.R.count("calls_that_must_not_throw"); if (!T.site(II)) { C.R.count("discharged"); continue; }
				if (!cal && StringRef(qualName(F)).starts_with("std::") && qualName(F).find("::~") != std::string::npos) { C.R.count("discharged"); continue; } // the deleter or manager of a standard object
				if (!T2.site(II) && once(II)) { C.R.count("discharged"); C.R.sample("only memory exhaustion, only at first use: " + qualName(F), 30); continue; }
				bad("noexcept", cal ? qualName(cal) : "indirect", II, F, "an exception thrown by " + (cal ? qualName(cal) : std::string("an indirect call")) + " would end the process: it cannot leave " + qualName(F)); }
		}
	}
	// unbounded recursion
	CallGraph CG(*C.M); std::set<const Function*> reach; for (auto &p : from) reach.insert(p.first);
	for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
		std::vector<const Function*> fs; for (auto *N : *it) if (auto *F = N->getFunction()) if (reach.count(F) && inProject(F)) fs.push_back(F);
		if (fs.empty()) continue; C.R.count("call_graph_components"); C.R.count("obligations"); if (!it.hasCycle()) { C.R.count("discharged"); continue; }
		std::string names; for (auto *F : fs) names += (names.empty() ? "" : ", ") + qualName(F); bad("recursion", names.substr(0, 200), nullptr, const_cast<Function*>(fs[0]), "recursive: the depth of the host stack is not bounded by the code (" + names + ")");
		if (C.opts.count("dump")) { errs() << "SCC"; for (auto *F : fs) errs() << " " << qualName(F); errs() << "\n"; }
	}
	{ // what guest code calls does not run guest code again on the same host stack
		std::vector<Function*> g = R.handlers; g.insert(g.end(), R.syscalls.begin(), R.syscalls.end()); std::map<Function*, std::pair<Function*, const Instruction*>> via; closure(*C.M, g, via);
		for (auto *D : R.dispatch) { C.R.count("obligations"); if (!via.count(D)) { C.R.count("discharged"); continue; } std::string s = qualName(D); Function *f = D; for (unsigned n = 0; n < 8; n++) { f = via[f].first; if (!f) break; s += " <- " + qualName(f); } bad("recursion", "dispatch", nullptr, D, "guest code re-enters the execution loop on the host stack: " + s); }
	}
	C.R.info["throw_sites"] = (int64_t)throws; C.R.info["guarded_calls"] = (int64_t)pads;
	if (throws < 20 || pads < 5) C.R.error("no exceptions found");
}
}
