// State shared between machines that run in different threads.
#include "prover.hpp"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Dominators.h"
namespace lva {
void closure(Module &M, std::vector<Function*> roots, std::map<Function*, std::pair<Function*, const Instruction*>> &from);

// ---- locks held at every instruction ----
typedef std::set<std::pair<const Value*, std::string>> Held; // {guard object or mutex, lock}
struct Locks {
	Ctx &C; const DataLayout &DL; std::map<const Function*, std::set<std::string>> entry; std::set<const Function*> entryTop; // not yet known: everything
	std::map<const Function*, std::map<const BasicBlock*, Held>> in; std::map<const Function*, Held> exitHeld;
	std::set<std::string> kinds; unsigned sites = 0;
	Locks(Ctx &C) : C(C), DL(*C.DL) {}
	std::string name(const Value *m) const {
		m = m->stripInBoundsConstantOffsets(); if (auto *G = dyn_cast<GlobalVariable>(m)) return "@" + G->getName().str();
		return "";
	}
	std::string lockName(const Value *m) const { std::string n = name(m); if (!n.empty()) return n; n = fieldKey(m, DL); return n.empty() ? "?" : n; }
	struct Ev { int kind = 0; const Value *obj = nullptr; std::vector<const Value*> mutexes; }; // 1 acquire, 2 release of what obj holds
	Ev event(const Instruction &I) const {
		Ev e; auto *CB = dyn_cast<CallBase>(&I); if (!CB) return e; auto *F = calleeOf(CB); if (!F) return e; std::string q = qualName(F); StringRef n = F->getName();
		auto arg = [&](unsigned i) { return CB->getArgOperand(i)->stripPointerCasts(); };
		if (n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock" || n == "pthread_rwlock_rdlock") { e.kind = 1; e.obj = arg(0); e.mutexes = {arg(0)}; return e; }
		if (n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock") { e.kind = 2; e.obj = arg(0); return e; }
		for (const char *g : {"std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<"}) if (StringRef(q).starts_with(g)) {
			StringRef last = StringRef(q).rsplit("::").second; std::string cls = StringRef(g).drop_front(5).drop_back(1).str();
			if (last.starts_with("~")) { e.kind = 2; e.obj = arg(0); return e; }
			if (last == cls || q.find(cls + "<", 5) != std::string::npos && last.starts_with(cls)) {
				if (CB->arg_size() < 2) return e; if (demangle(n).find("defer_lock") != std::string::npos) return e;
				if (demangle(n).find("&&") != std::string::npos) return e; // moved: the lock stays held
				e.kind = 1; e.obj = arg(0); for (unsigned i = 1; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy()) e.mutexes.push_back(arg(i)); return e; }
			if (last == "lock") { e.kind = 1; e.obj = arg(0); return e; } if (last == "unlock") { e.kind = 2; e.obj = arg(0); return e; } return e;
		}
		for (const char *m : {"std::mutex::", "std::recursive_mutex::", "std::shared_mutex::", "std::timed_mutex::"}) if (StringRef(q).starts_with(m)) { StringRef last = StringRef(q).rsplit("::").second;
			if (last == "lock" || last == "lock_shared") { e.kind = 1; e.obj = arg(0); e.mutexes = {arg(0)}; } else if (last == "unlock" || last == "unlock_shared") { e.kind = 2; e.obj = arg(0); } return e; }
		return e;
	}
	void step(const Instruction &I, Held &h) {
		Ev e = event(I); if (e.kind == 1) for (auto *m : e.mutexes) h.insert({e.obj, lockName(m)});
		else if (e.kind == 2) { for (auto it = h.begin(); it != h.end();) if (it->first == e.obj) it = h.erase(it); else ++it; }
		else if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *F = calleeOf(CB)) { auto f = exitHeld.find(F); if (f != exitHeld.end()) for (auto &p : f->second) if (auto *A = dyn_cast<Argument>(p.first)) h.insert({CB->getArgOperand(A->getArgNo())->stripPointerCasts(), p.second}); }
	}
	void run(const Function &F) {
		auto &m = in[&F]; m.clear(); std::vector<const BasicBlock*> wl{&F.getEntryBlock()}; m[&F.getEntryBlock()] = {};
		std::map<const Value*, std::string> def; // guard -> its mutex, for lock() on a deferred guard
		bool first = true; Held ex;
		while (!wl.empty()) { auto *B = wl.back(); wl.pop_back(); Held h = m[B]; for (auto &I : *B) { if (isa<ReturnInst>(I)) { if (first) ex = h; else { Held k; std::set_intersection(ex.begin(), ex.end(), h.begin(), h.end(), std::inserter(k, k.begin())); ex = k; } first = false; } step(I, h); }
			for (auto *S : successors(B)) { auto it = m.find(S); if (it == m.end()) { m[S] = h; wl.push_back(S); continue; } Held k; std::set_intersection(it->second.begin(), it->second.end(), h.begin(), h.end(), std::inserter(k, k.begin())); if (k != it->second) { it->second = k; wl.push_back(S); } } }
		Held out; for (auto &p : ex) if (isa<Argument>(p.first)) out.insert(p); if (!out.empty()) exitHeld[&F] = out; else exitHeld.erase(&F);
	}
	std::set<std::string> at(const Instruction *I, bool local = false) {
		std::set<std::string> r; auto *F = I->getFunction(); auto &m = in[F]; auto it = m.find(I->getParent()); if (it == m.end()) return r; Held h = it->second; for (auto &J : *I->getParent()) { if (&J == I) break; step(J, h); }
		for (auto &p : h) r.insert(p.second); if (!local) for (auto &s : entry[F]) r.insert(s); return r;
	}
	void solve(const std::vector<Function*> &fs, const std::set<const Function*> &roots) {
		for (int n = 0; n < 2; n++) for (auto *F : fs) run(*F);
		for (auto *F : fs) for (auto &I : instructions(*F)) { Ev e = event(I); if (e.kind == 1 && inProject(F)) { sites++; for (auto *m : e.mutexes) kinds.insert(lockName(m)); } }
		std::map<const Function*, std::vector<const CallBase*>> calls; std::set<const Function*> open = roots;
		for (auto *F : fs) { for (auto *U : F->users()) { auto *CB = dyn_cast<CallBase>(U); if (CB && CB->getCalledOperand()->stripPointerCasts() == F) calls[F].push_back(CB); else open.insert(F); } if (calls[F].empty()) open.insert(F); }
		for (auto *F : fs) if (!open.count(F)) entryTop.insert(F);
		for (bool ch = true; ch;) { ch = false; for (auto *F : fs) { if (open.count(F)) continue; bool top = true; std::set<std::string> r;
			for (auto *CB : calls[F]) { auto *G = CB->getFunction(); auto loc = at(CB, true); if (entryTop.count(G)) { if (!loc.empty() || true) continue; } for (auto &s : entry[G]) loc.insert(s); if (top) { r = loc; top = false; } else { std::set<std::string> k; std::set_intersection(r.begin(), r.end(), loc.begin(), loc.end(), std::inserter(k, k.begin())); r = k; } }
			if (top) continue; if (entryTop.erase(F) || entry[F] != r) { entry[F] = r; ch = true; } } }
		entryTop.clear();
	}
};
// ---- what code does with an address ----
struct Use { const Instruction *I; bool write; const Instruction *top; }; // top: the instruction of the function that named the object
struct Uses {
	const DataLayout &DL; std::vector<Use> out; std::set<std::pair<const Value*, const Instruction*>> seen;
	void of(const Value *v, const Instruction *top, unsigned d, bool *returned, const Function *in = nullptr) {
		if (d > 12 || !seen.insert({v, d ? top : nullptr}).second) return;
		for (auto *U : v->users()) {
			if (auto *CE = dyn_cast<ConstantExpr>(U)) { of(CE, top, d, returned, in); continue; }
			auto *I = dyn_cast<Instruction>(U); if (!I) continue; if (in && I->getFunction() != in) continue; auto *T = top ? top : I;
			if (isa<LoadInst>(I)) out.push_back({I, false, T});
			else if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == v) out.push_back({I, true, T}); else if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) { for (auto *AU : A->users()) if (auto *L = dyn_cast<LoadInst>(AU)) of(L, T, d + 1, returned, in); } }
			else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) continue;
			else if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { if (I->getType()->isPointerTy()) of(I, top, top ? d : d, returned, in); }
			else if (isa<ReturnInst>(I)) { if (returned) *returned = true; }
			else if (auto *CB = dyn_cast<CallBase>(I)) {
				if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd()) continue;
				if (auto *MT = dyn_cast<MemTransferInst>(CB)) { out.push_back({I, MT->getRawDest() == v, T}); continue; } if (isa<MemSetInst>(CB)) { out.push_back({I, true, T}); continue; }
				auto *F = calleeOf(CB); unsigned a = 0; for (; a < CB->arg_size(); a++) if (CB->getArgOperand(a) == v) break; if (a == CB->arg_size()) continue;
				if (!F || F->isDeclaration() || a >= F->arg_size()) { bool ro = CB->onlyReadsMemory(a) || (F && F->getName().starts_with("_ZNK") && a == 0); out.push_back({I, !ro, T}); continue; }
				bool ret = false; of(F->getArg(a), T, d + 1, &ret, F); if (ret && CB->getType()->isPointerTy()) of(CB, top, d, returned, in);
			}
		}
	}
	Uses(const DataLayout &DL) : DL(DL) {}
};
static bool isSyncType(const std::string &t) { for (const char *s : {"mutex", "once_flag", "condition_variable", "atomic"}) if (t.find(s) != std::string::npos) return true; return false; }
static std::string typeName(const DIType *T) { while (T) { if (auto *Cm = dyn_cast<DICompositeType>(T)) return scopeName(Cm); auto *D = dyn_cast<DIDerivedType>(T); if (!D) return T->getName().str(); if (D->getTag() == llvm::dwarf::DW_TAG_typedef && D->getName().contains("mutex")) return D->getName().str(); T = D->getBaseType(); } return ""; }

void runShared(Ctx &C) {
	auto R = findRoots(C);
	if (R.dispatch.size() < 2 || R.handlers.size() < 200 || R.syscalls.size() < 30) C.R.error("guest entry points not recognised");
	simplifyModuleLight(*C.M);
	std::vector<Function*> fs; for (auto &F : *C.M) if (!F.isDeclaration() && !F.isIntrinsic()) fs.push_back(&F);
	std::set<const Function*> roots; for (auto *v : {&R.dispatch, &R.handlers, &R.syscalls, &R.printers}) roots.insert(v->begin(), v->end());
	Locks K(C); K.solve(fs, roots);
	C.R.info["functions"] = (int64_t)fs.size(); C.R.info["lock_sites"] = (int64_t)K.sites; C.R.info["locks"] = (int64_t)K.kinds.size(); for (auto &k : K.kinds) C.R.sample("lock " + k, 30);
	// what running and constructing machines can reach; the rest is configuration by the host
	std::vector<Function*> run = R.dispatch; for (auto *v : {&R.handlers, &R.syscalls, &R.printers}) run.insert(run.end(), v->begin(), v->end());
	// every public operation on an object (a machine, its processor, its memory ...), except those that install process-wide handlers
	std::set<const Function*> installs; for (auto *F : fs) { const DISubprogram *SP = F->getSubprogram(); if (!SP || !inProject(F)) continue; if (auto *D = SP->getDeclaration()) SP = D; bool st = SP->getFlags() & DINode::FlagStaticMember; if (st && StringRef(qualName(F)).starts_with("loongarch::Machine::")) installs.insert(F); }
	unsigned operations = 0, config = 0;
	for (auto *F : fs) { if (!isPublicApi(F) || installs.count(F)) continue; bool inst = false; for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(CB)) if (installs.count(f) && StringRef(f->getName()).contains("install_syscall_handler")) inst = true;
		if (inst) { config++; C.R.sample("host configuration: " + qualName(F), 60); continue; } operations++; run.push_back(F); }
	C.R.info["machine_operations"] = (int64_t)operations; C.R.info["configuration_functions"] = (int64_t)config;
	std::map<Function*, std::pair<Function*, const Instruction*>> live; closure(*C.M, run, live);
	auto path = [&](Function *f) { std::string s = qualName(f); for (unsigned n = 0; n < 6; n++) { f = live[f].first; if (!f) break; s += " <- " + qualName(f); } return s; };
	auto viol = [&](const std::string &rule, const std::string &site, const Instruction *I, const std::string &msg) { auto L = projLocOf(I); C.R.violation(rule, site, qualName(I->getFunction()), L.file, L.line, msg); };
	// code that runs once, before anything else can see what it writes
	std::map<const Function*, std::unique_ptr<DominatorTree>> dts; auto dt = [&](const Function *F) -> DominatorTree& { auto &d = dts[F]; if (!d) d = std::make_unique<DominatorTree>(*const_cast<Function*>(F)); return *d; };
	auto underGuard = [&](const Instruction *I) { auto *F = I->getFunction(); bool acq = false; for (auto &J : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&J)) if (auto *f = calleeOf(CB)) if (f->getName() == "__cxa_guard_acquire" && dt(F).dominates(&J, I)) acq = true;
		if (!acq) return false; for (auto &J : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&J)) if (auto *f = calleeOf(CB)) if (f->getName() == "__cxa_guard_release" && dt(F).dominates(&J, I)) return false; return true; };
	std::set<const Function*> onceFns; // only ever run by call_once or before main
	for (auto *F : fs) { std::string q = qualName(F); if (F->getName().starts_with("__cxx_global_var_init") || F->getName().starts_with("_GLOBAL__sub_I")) onceFns.insert(F); }
	// functions handed to call_once: everything that calls them is part of its implementation
	for (auto *F : fs) { if (!inProject(F) || F->use_empty()) continue; bool once = false, other = false; std::set<const Function*> up; std::vector<const Function*> wl{F};
		while (!wl.empty() && !other) { auto *g = wl.back(); wl.pop_back(); if (!up.insert(g).second) continue; if (demangle(g->getName()).find("std::call_once<") != std::string::npos) { once = true; continue; } if (g != F && inProject(g)) { other = true; break; }
			for (auto *U : g->users()) if (auto *CB = dyn_cast<CallBase>(U)) wl.push_back(CB->getFunction()); else other = true; }
		if (once && !other) { onceFns.insert(F); C.R.sample("run once: " + qualName(F), 60); } }
	for (bool ch = true; ch;) { ch = false; for (auto *F : fs) { if (onceFns.count(F) || F->use_empty()) continue; bool all = true; for (auto *U : F->users()) { auto *CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F || !onceFns.count(CB->getFunction())) all = false; } if (all && onceFns.insert(F).second) ch = true; } }
	// A. globals
	unsigned globals = 0;
	for (auto &G : C.M->globals()) {
		if (G.isConstant() || G.isThreadLocal() || G.isDeclaration() || G.getName().starts_with("llvm.") || G.getName().starts_with("_ZGV") || G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTI")) continue;
		SmallVector<DIGlobalVariableExpression*, 2> gv; G.getDebugInfo(gv); std::string tn; bool proj = false; for (auto *e : gv) { tn = typeName(e->getVariable()->getType()); StringRef f = e->getVariable()->getFilename(); proj = f.contains("libloong/"); }
		if (!gv.empty() && !proj) continue; if (isSyncType(tn)) { C.R.count("synchronisation_objects"); continue; }
		Uses U(*C.DL); U.of(&G, nullptr, 0, nullptr); globals++; std::string gname = demangle(G.getName());
		std::vector<Use> w; for (auto &u : U.out) if (u.write && !onceFns.count(u.top->getFunction()) && !underGuard(u.top)) w.push_back(u);
		C.R.count("obligations"); C.R.count("shared_variables");
		// process-wide configuration: written by the host only, outside anything a machine does
		bool cfg = true; for (auto &u : w) if (live.count(const_cast<Function*>(u.top->getFunction()))) cfg = false;
		if (w.empty()) { C.R.count("discharged"); C.R.count("never_written"); C.R.sample(gname + ": not written after initialisation", 60); continue; }
		if (cfg && (G.getValueType()->isPointerTy() || tn.find("array") != std::string::npos)) { C.R.count("discharged"); C.R.count("configuration"); C.R.sample(gname + ": written only by host configuration", 60); continue; }
		// every write under one lock, each slot only once: then reads of published slots need none
		std::set<std::string> common; bool first = true, once = true; const Use *bare = nullptr;
		for (auto &u : w) { auto L = K.at(u.top); if (L.empty()) bare = &u; if (first) common = L; else { std::set<std::string> k; std::set_intersection(common.begin(), common.end(), L.begin(), L.end(), std::inserter(k, k.begin())); common = k; } first = false;
			// dominated by 'the slot is empty'
			bool empty = false; auto *S = dyn_cast<StoreInst>(u.I); auto *F = u.I->getFunction(); if (S) for (auto *N = dt(F).getNode(const_cast<BasicBlock*>(S->getParent())); N && N->getIDom(); N = N->getIDom()) { auto *P = N->getIDom()->getBlock(); auto *Br = dyn_cast<BranchInst>(P->getTerminator()); if (!Br || !Br->isConditional()) continue; auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); if (!Cm || !Cm->isEquality() || !isa<ConstantPointerNull>(Cm->getOperand(1)) || !isa<LoadInst>(Cm->getOperand(0))) continue; auto *T = Br->getSuccessor(Cm->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1); if (!dt(F).dominates(BasicBlockEdge(P, T), S->getParent())) continue;
				auto same = [&](const Value *a, const Value *b) { std::function<bool(const Value*, const Value*, unsigned)> eq = [&](const Value *x, const Value *y, unsigned d) -> bool { x = x->stripPointerCasts(); y = y->stripPointerCasts(); if (x == y) return true; auto *p = dyn_cast<Instruction>(x), *q = dyn_cast<Instruction>(y); if (!p || !q || d > 6 || p->getOpcode() != q->getOpcode() || p->getNumOperands() != q->getNumOperands() || isa<PHINode>(p)) return false; for (unsigned i = 0; i < p->getNumOperands(); i++) if (!eq(p->getOperand(i), q->getOperand(i), d + 1)) return false; return true; }; return eq(a, b, 0); };
				if (same(cast<LoadInst>(Cm->getOperand(0))->getPointerOperand(), S->getPointerOperand())) empty = true; }
			if (!empty) once = false; }
		if (!common.empty() && once) { C.R.count("discharged"); C.R.count("write_once_slots"); C.R.sample(gname + ": slots written once, under " + *common.begin(), 60); continue; }
		const Use *nl = nullptr; std::set<std::string> all = common; for (auto &u : U.out) { if (onceFns.count(u.top->getFunction()) || underGuard(u.top)) continue; auto L = K.at(u.top); std::set<std::string> k; std::set_intersection(all.begin(), all.end(), L.begin(), L.end(), std::inserter(k, k.begin())); if (k.empty()) { if (!nl) nl = &u; } else all = k; }
		if (!common.empty() && !nl) { C.R.count("discharged"); C.R.count("locked"); C.R.sample(gname + ": always under " + *all.begin(), 60); continue; }
		auto *I = bare ? bare->top : nl ? nl->top : w[0].top; viol("shared-variable", gname, I, gname + " is one object for all machines; it is written while machines run (" + path(const_cast<Function*>(w[0].top->getFunction())) + ") and accessed here without the lock that would order it");
	}
	if (globals < 5) C.R.error("no mutable globals found");
	// B. classes that carry a mutex: their other members are accessed with it held
	unsigned monitors = 0, guarded = 0; std::map<std::string, std::string> monitor; std::map<std::string, std::set<std::string>> skip;
	for (auto &p : FM->members) { if (!StringRef(p.first).starts_with("loongarch::")) continue; std::string m; for (auto &f : p.second) { std::string t = typeName(f.ty); if (isSyncType(t)) { skip[p.first].insert(f.name); if (t.find("mutex") != std::string::npos) m = p.first + "::" + f.name; } } if (!m.empty()) { monitor[p.first] = m; monitors++; C.R.sample("guarded class " + p.first + " by " + m, 60); } }
	C.R.info["guarded_classes"] = (int64_t)monitors; if (!monitors) C.R.error("no class with a mutex found");
	for (auto *F : fs) { if (!inProject(F)) continue; std::string q = qualName(F);
		for (auto &I : instructions(*F)) {
			auto chk = [&](const Value *p, const char *what) { std::string k = fieldKey(p, *C.DL); auto c = k.rfind("::"); if (c == std::string::npos) return; std::string cls = k.substr(0, c), fld = k.substr(c + 2); auto m = monitor.find(cls); if (m == monitor.end() || skip[cls].count(fld)) return;
				std::string last = StringRef(cls).rsplit("::").second.str(); if (q == cls + "::" + last || q == cls + "::~" + last) return; if (isa<AllocaInst>(p->stripInBoundsConstantOffsets())) return;
				C.R.count("obligations"); C.R.count("guarded_accesses"); guarded++; if (K.at(&I).count(m->second)) { C.R.count("discharged"); return; } viol("guarded-member", k, &I, k + " is " + what + " without holding " + m->second); };
			if (auto *L = dyn_cast<LoadInst>(&I)) chk(L->getPointerOperand(), "read"); else if (auto *S = dyn_cast<StoreInst>(&I)) chk(S->getPointerOperand(), "written");
			else if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(CB)) continue; auto e = K.event(I); if (e.kind) continue; auto *f = calleeOf(CB);
				for (unsigned i = 0; i < CB->arg_size(); i++) { auto *a = CB->getArgOperand(i); if (!a->getType()->isPointerTy() || isa<Constant>(a)) continue;
					if (isa<Argument>(a)) { // the object's own address: its first member, unless the callee takes the object
						if (!f || i >= f->arg_size() || isa<IntrinsicInst>(CB)) continue; auto mine = declaredPointees(a), theirs = declaredPointees(f->getArg(i)); std::string fq = StringRef(qualName(f)).rsplit("::").first.str();
						for (auto &cls : mine) { auto m = monitor.find(cls); if (m == monitor.end() || is_contained(theirs, cls) || fq == cls || (theirs.empty() && i)) continue; auto mb = FM->members.find(cls); if (mb == FM->members.end()) continue;
							for (auto &f0 : mb->second) if (f0.off == 0 && f0.size && !skip[cls].count(f0.name)) { std::string last = StringRef(cls).rsplit("::").second.str(); if (q == cls + "::" + last || q == cls + "::~" + last) continue;
								C.R.count("obligations"); C.R.count("guarded_accesses"); guarded++; if (K.at(&I).count(m->second)) C.R.count("discharged"); else viol("guarded-member", cls + "::" + f0.name, &I, cls + "::" + f0.name + " is used without holding " + m->second); } }
						continue; }
					bool whole = false; if (f && i < f->arg_size()) { if (i == 0 && monitor.count(StringRef(qualName(f)).rsplit("::").first.str())) whole = true; for (auto &t : declaredPointees(f->getArg(i))) if (monitor.count(t)) whole = true; } // the object itself, not its first member
					if (!whole) chk(a, "used"); } }
		} }
	if (!guarded) C.R.error("no access to a guarded member found");
	// what identifies a shared segment takes part in the comparison, member by member
	unsigned keys = 0; for (auto *F : fs) { std::string q = qualName(F); if (!inProject(F)) continue; auto [cls, op] = StringRef(q).rsplit("::"); bool ord = op == "operator<"; if (op != "operator==" && !ord) continue; auto it = FM->members.find(cls.str()); if (it == FM->members.end() || F->arg_size() != 2) continue;
		bool used = false; for (auto *U : F->users()) if (isa<CallBase>(U)) used = true; if (!used && !ord) continue; keys++;
		auto at = [&](const Value *p, unsigned a, const FieldModel::Mem &m) { APInt o(64, 0); return p->getType()->isPointerTy() && p->stripAndAccumulateConstantOffsets(*C.DL, o, true) == F->getArg(a) && o.getZExtValue() >= m.off && o.getZExtValue() < m.off + std::max<uint64_t>(m.size, 1); };
		for (auto &f : it->second) for (unsigned a = 0; a < 2; a++) { bool read = false; for (auto &I : instructions(*F)) { if (auto *L = dyn_cast<LoadInst>(&I)) read |= at(L->getPointerOperand(), a, f); else if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<DbgInfoIntrinsic>(CB)) for (auto &x : CB->args()) read |= at(x, a, f); }
			C.R.count("obligations"); C.R.count("key_members"); if (read) C.R.count("discharged"); else if (!a) { auto L = F->getSubprogram(); C.R.violation("key-ignores", cls.str() + "::" + f.name, q, L ? L->getFilename().str() : "", L ? L->getLine() : 0, q + " does not look at " + f.name + ": entries that differ only in it are taken for the same"); } } }
	if (!keys) C.R.error("no key comparison found");
	// C. a decoded segment is not changed once it is published
	auto pubBy = [&](Function *F, const Value *val, std::string &why) { // every way to F passes through a function that makes the segment
		std::set<Function*> seen; std::vector<std::pair<Function*, std::string>> wl{{F, qualName(F)}}; auto makes = [&](Function *X) { for (auto &I : instructions(*X)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(CB)) { std::string q = qualName(f); if (q == "loongarch::DecodedExecuteSegment::DecodedExecuteSegment" || StringRef(q).starts_with("std::make_shared<loongarch::DecodedExecuteSegment")) return true; } return false; };
		while (!wl.empty()) { auto [f, s] = wl.back(); wl.pop_back(); if (!seen.insert(f).second) continue; if (makes(f)) continue; bool any = false; if (roots.count(f) || f->hasAddressTaken(nullptr, true)) { why = s; return false; } for (auto *U : f->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand()->stripPointerCasts() == f) { any = true; if (f == F && val && isa<Argument>(val) && llvm::is_contained(R.dispatch, CB->getFunction())) if (auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(cast<Argument>(val)->getArgNo()))) if (c->isZero()) continue; wl.push_back({CB->getFunction(), s + " <- " + qualName(CB->getFunction())}); } if (!any) { why = s; return false; } }
		return true; };
	unsigned entries = 0; std::set<const Function*> segWriters;
	for (auto *F : fs) { if (!inProject(F)) continue; std::string q = qualName(F); if (q == "loongarch::DecodedExecuteSegment::DecodedExecuteSegment" || q == "loongarch::DecodedExecuteSegment::~DecodedExecuteSegment" || q == "loongarch::DecoderData::DecoderData" || q == "loongarch::DecoderCache::DecoderCache") continue;
		for (auto &I : instructions(*F)) { const Value *p = nullptr; const Value *val = nullptr; if (auto *S = dyn_cast<StoreInst>(&I)) { p = S->getPointerOperand(); val = S->getValueOperand(); } else if (auto *MT = dyn_cast<MemIntrinsic>(&I)) p = MT->getRawDest(); if (!p) continue;
			std::string k = fieldKey(p, *C.DL); if (k.empty() && isa<MemIntrinsic>(I)) { for (auto &t : declaredPointees(p)) if (t == "loongarch::DecoderData") k = t + "::(entry)"; if (auto *CB = dyn_cast<CallBase>(p)) (void)CB; }
			if (!StringRef(k).starts_with("loongarch::DecodedExecuteSegment::") && !StringRef(k).starts_with("loongarch::DecoderData::") && !StringRef(k).starts_with("loongarch::DecoderCache::")) continue;
			const Value *b = p; while (auto *G = dyn_cast<GEPOperator>(b)) b = G->getPointerOperand(); if (isa<AllocaInst>(b)) continue; // a local copy
			entries++; segWriters.insert(F); C.R.count("obligations"); C.R.count("segment_stores");
			if (llvm::is_contained(R.dispatch, F)) if (auto *c = dyn_cast_or_null<ConstantInt>(val)) if (c->isZero()) { C.R.count("discharged"); C.R.count("invalidations"); continue; }
			std::string why; if (pubBy(F, val, why)) { C.R.count("discharged"); continue; } viol("segment-changed", k, &I, k + " of a segment that other machines may be executing is written: " + why); }
	}
	if (!entries) C.R.error("no stores to decoder entries found");
	// a segment is complete before it is put where other machines find it
	std::set<const Function*> fills = segWriters; for (bool ch = true; ch;) { ch = false; for (auto *F : fs) if (!fills.count(F)) for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(CB)) if (fills.count(f)) { fills.insert(F); ch = true; break; } }
	unsigned published = 0;
	for (auto *F : fs) { if (!inProject(F)) continue; for (auto &I : instructions(*F)) {
		const Value *p = nullptr; bool null = false; if (auto *CB = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(CB); if (!f || !CB->arg_size()) continue; std::string q = qualName(f); StringRef l = StringRef(q).rsplit("::").second; if (!StringRef(q).contains("shared_ptr<") || !(l.starts_with("operator=") || l == "swap" || l == "reset")) continue; p = CB->getArgOperand(0); if (CB->arg_size() < 2) null = true; }
		else if (auto *S = dyn_cast<StoreInst>(&I)) { p = S->getPointerOperand(); null = isa<Constant>(S->getValueOperand()); }
		if (!p || null) continue; std::string k = fieldKey(p, *C.DL); auto c = k.rfind("::"); if (c == std::string::npos || !monitor.count(k.substr(0, c)) || skip[k.substr(0, c)].count(k.substr(c + 2))) continue;
		published++; C.R.count("obligations"); C.R.count("publications"); std::set<const BasicBlock*> seen; const Instruction *bad = nullptr;
		auto check = [&](const Instruction *J) { if (auto *CB = dyn_cast<CallBase>(J)) if (auto *f = calleeOf(CB)) if (fills.count(f) && !bad) bad = J; };
		std::vector<const BasicBlock*> bl; for (auto *J = I.getNextNode(); J; J = J->getNextNode()) check(J); for (auto *S : successors(I.getParent())) bl.push_back(S);
		while (!bl.empty()) { auto *B = bl.back(); bl.pop_back(); if (!seen.insert(B).second) continue; for (auto &J : *B) { if (&J == &I) break; check(&J); } for (auto *S : successors(B)) bl.push_back(S); }
		if (!bad) C.R.count("discharged"); else viol("published-early", k, &I, k + " makes the segment visible to other machines before it is complete: " + qualName(calleeOf(cast<CallBase>(bad))) + " still writes it afterwards (and may throw)"); } }
	if (!published) C.R.error("no publication of a shared segment found");
	// D. order of locks
	std::map<const Function*, std::set<std::string>> takes; for (auto *F : fs) if (inProject(F)) for (auto &I : instructions(*F)) { auto e = K.event(I); if (e.kind == 1) for (auto *m : e.mutexes) takes[F].insert(K.lockName(m)); }
	for (bool ch = true; ch;) { ch = false; for (auto *F : fs) for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(CB)) { auto t = takes.find(f); if (t != takes.end()) for (auto &s : std::set<std::string>(t->second)) if (takes[F].insert(s).second) ch = true; } }
	std::map<std::string, std::map<std::string, const Instruction*>> order;
	for (auto *F : fs) for (auto &I : instructions(*F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; std::set<std::string> t; auto e = K.event(I); if (e.kind == 1) { for (auto *m : e.mutexes) t.insert(K.lockName(m)); } else if (!e.kind) if (auto *f = calleeOf(CB)) { auto q = takes.find(f); if (q != takes.end()) t = q->second; }
		if (t.empty()) continue; for (auto &h : K.at(&I)) for (auto &s : t) order[h].emplace(s, &I); }
	for (auto &p : order) for (auto &s : p.second) { C.R.count("obligations"); C.R.count("nested_locks"); // is p.first reachable from s
		std::set<std::string> seen; std::vector<std::string> wl{s.first}; bool cyc = false; while (!wl.empty()) { auto x = wl.back(); wl.pop_back(); if (x == p.first) { cyc = true; break; } if (!seen.insert(x).second) continue; for (auto &n : order[x]) wl.push_back(n.first); }
		if (!cyc) { C.R.count("discharged"); C.R.sample("order: " + p.first + " before " + s.first, 60); } else viol("lock-order", p.first + " then " + s.first, s.second, s.first + " is taken while " + p.first + " is held, and elsewhere the other way round (or it is the same lock): deadlock"); }
}
}
