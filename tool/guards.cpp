// Guards: what must hold before an operation is done.
//   arrays  every access to a local object or table, and every step into a fixed array, stays inside (P13)
//   div     divisors are not zero, and MIN / -1 does not happen (P11)
//   shift   shift amounts are below the width of the shifted value (P12)
// Operations are marked in the source program before anything simplifies it, so
// that what the compiler may conclude from them cannot hide them.
#include "regions.hpp"
#include "par.hpp"
#include "llvm/Transforms/Utils/Cloning.h"
namespace lva {
void setupMemProver(Prover &P);
void checkArrays(Ctx &C, Function &F, const std::string &kind, const std::string &name);
std::vector<Composed> composeAll(Ctx &C, CpuModel &M, Dispatch &D, int64_t id);
CallBase *handlerCall(Function &F);

static Function *marker(Module &M, const char *n, ArrayRef<Type*> a) {
	auto *F = cast<Function>(M.getOrInsertFunction(n, FunctionType::get(Type::getVoidTy(M.getContext()), a, false)).getCallee());
	F->setDoesNotThrow(); F->setOnlyAccessesInaccessibleMemory(); return F;
}
static bool projHere(const Instruction &I) { // written in the project, not in a library header
	auto *F = I.getFunction(); return inProject(F);
}
static void mark(Ctx &C, const std::string &what) {
	auto &M = *C.M; auto &X = M.getContext(); Type *I64 = Type::getInt64Ty(X), *I1 = Type::getInt1Ty(X);
	for (auto &F : M) {
		if (F.isDeclaration() || !inProject(&F)) continue;
		std::vector<Instruction*> is; for (auto &I : instructions(F)) is.push_back(&I);
		for (auto *I : is) {
			auto *B = dyn_cast<BinaryOperator>(I); if (!B || !projHere(*I)) continue;
			unsigned o = B->getOpcode(); auto *T = dyn_cast<IntegerType>(B->getType());
			bool div = o == Instruction::UDiv || o == Instruction::SDiv || o == Instruction::URem || o == Instruction::SRem, sh = o == Instruction::Shl || o == Instruction::LShr || o == Instruction::AShr;
			if (!T) { if (div || sh) C.R.count("vector_operations"); continue; }
			if (T->getBitWidth() > 64 && !sh) { if (div) C.R.count("wide_divisions"); }
			IRBuilder<> Bd(B); Value *d = B->getOperand(1);
			if (sh && what == "shift") {
				if (auto *K = dyn_cast<ConstantInt>(d)) if (K->getValue().ult(T->getBitWidth())) { C.R.count("constant_amounts"); continue; }
				Value *a = T->getBitWidth() <= 64 ? Bd.CreateZExt(d, I64) : Bd.CreateSelect(Bd.CreateICmpULT(d, ConstantInt::get(T, T->getBitWidth())), Bd.CreateTrunc(d, I64), ConstantInt::get(I64, ~0ull));
				auto *c = Bd.CreateCall(marker(M, "lva.g.shift", {I64, I64}), {a, ConstantInt::get(I64, T->getBitWidth())}); c->setDebugLoc(B->getDebugLoc()); C.R.count("marked");
			}
			if (div && what == "div") {
				bool sg = o == Instruction::SDiv || o == Instruction::SRem;
				if (auto *K = dyn_cast<ConstantInt>(d)) if (!K->isZero() && !(sg && K->isMinusOne())) { C.R.count("constant_divisors"); continue; }
				Value *z = Bd.CreateICmpEQ(d, ConstantInt::get(T, 0));
				Value *ov = sg ? Bd.CreateAnd(Bd.CreateICmpEQ(d, ConstantInt::get(T, -1, true)), Bd.CreateICmpEQ(B->getOperand(0), ConstantInt::get(T, APInt::getSignedMinValue(T->getBitWidth())))) : ConstantInt::getFalse(X);
				auto *c = Bd.CreateCall(marker(M, "lva.g.div", {I1, I1}), {z, ov}); c->setDebugLoc(B->getDebugLoc()); C.R.count("marked");
			}
		}
	}
}
static void checkMarks(Ctx &C, Function &F, const std::string &kind, const std::string &name) {
	std::unique_ptr<Prover> P;
	std::vector<CallInst*> ms; for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (auto *f = c->getCalledFunction()) if (f->getName().starts_with("lva.g.")) ms.push_back(c);
	if (ms.empty()) return;
	P = std::make_unique<Prover>(F, C); setupMemProver(*P);
	for (auto *c : ms) {
		auto L = projLocOf(c); std::string at = L.file + ":" + std::to_string(L.line);
		auto done = [&](bool ok, const std::string &rule, const std::string &what, const std::string &msg) {
			C.R.count("obligations"); C.R.count("obligations_" + kind);
			if (ok) { C.R.count("discharged"); C.R.sample(kind + " " + name + ": " + what + " at " + at); }
			else C.R.violation(rule, what + " in " + L.func, name, L.file, L.line, msg + "; path " + inlineChain(c)); };
		if (c->getCalledFunction()->getName() == "lva.g.shift") {
			unsigned w = cast<ConstantInt>(c->getArgOperand(1))->getZExtValue(); auto v = P->val(c->getArgOperand(0));
			done(v.ok && P->proveLE(v, Lin::cst(w - 1), c), "shift-amount", "shift of a " + std::to_string(w) + "-bit value", "the shift amount is not proved to be below " + std::to_string(w) + " (" + P->show(v) + ")");
		} else {
			auto no = [&](Value *v) { if (auto *K = dyn_cast<ConstantInt>(v)) { if (K->isZero()) return true; return P->proveLE(Lin::cst(1), Lin::cst(0), c); } return P->proveCond(v, false, c); };
			done(no(c->getArgOperand(0)), "zero-divisor", "division", "the divisor is not proved to be nonzero");
			if (auto *K = dyn_cast<ConstantInt>(c->getArgOperand(1))) if (K->isZero()) continue;
			done(no(c->getArgOperand(1)), "division-overflow", "signed division", "smallest value divided by -1 is not proved impossible");
		}
	}
}

void runGuards(Ctx &C) {
	std::string what = C.opts.count("check") ? C.opts["check"] : "arrays";
	std::string sel = C.opts.count("roots") ? C.opts["roots"] : "cpu,print,sys";
	auto want = [&](const char *k) { return sel.find(k) != std::string::npos; };
	auto R = findRoots(C);
	if (what != "arrays") mark(C, what);
	simplifyModuleLight(*C.M);
	auto check = [&](Function &F, const std::string &kind, const std::string &name) { if (what == "arrays") checkArrays(C, F, kind, name); else checkMarks(C, F, kind, name); };
	std::set<Function*> have; struct Rt { Function *F; std::string kind, name; }; std::vector<Rt> roots;
	auto add = [&](Function *f, const char *k, const std::string &n, bool w) { if (have.insert(f).second && w) roots.push_back({f, k, n}); };
	for (auto *f : R.dispatch) have.insert(f);
	for (auto *f : R.handlers) add(f, "handler", R.handlerName.count(f) ? R.handlerName[f] : qualName(f), want("cpu"));
	for (auto *f : R.printers) add(f, "printer", qualName(f), want("print"));
	for (auto *f : R.syscalls) add(f, "syscall", qualName(f), want("sys"));
	if (want("cpu") && (R.dispatch.size() < 2 || R.handlers.size() < 200)) C.R.error("dispatch loops or instruction handlers not recognised");
	if (want("sys") && R.syscalls.size() < 30) C.R.error("system call handlers not recognised");
	if (want("print") && R.printers.size() < 100) C.R.error("instruction printers not recognised");
	if (want("api")) for (auto &F : *C.M) if (isPublicApi(&F)) add(&F, "api", qualName(&F), true);
	if (want("rest")) for (auto &F : *C.M) if (!F.isDeclaration() && inProject(&F)) add(&F, "function", qualName(&F), true);
	std::string only = C.opts.count("only") ? C.opts["only"] : "";
	InlinePolicy IP; IP.want = defaultInlineWant;
	CpuModel M; M.wordFacts = what == "arrays"; bool model = (want("cpu") || want("print")) && buildCpuModel(C, R, M);
	if ((want("cpu") || want("print")) && !model) return;
	// Called only with words that decode to the instruction the function belongs
	// to: once more after the decoding step of each such instruction.
	auto decoded = [&](Function *f, const std::string &kind, const std::string &name) {
		unsigned n = 0;
		for (auto &p : M.descOf) {
			auto *in = p.second->getInitializer(); bool mine = false;
			for (unsigned k = 0; k < in->getNumOperands(); k++) if (in->getAggregateElement(k) && in->getAggregateElement(k)->stripPointerCasts() == f) mine = true;
			if (!mine) continue;
			auto *S = stepFor(C, M, p.first); if (!S) continue; // never decoded
			std::vector<Type*> ts; for (auto &a : S->args()) ts.push_back(a.getType());
			unsigned n0 = ts.size(); int wi = -1; for (auto &a : f->args()) { ts.push_back(a.getType()); if (a.getType()->isIntegerTy(32)) wi = wi < 0 ? (int)a.getArgNo() : 99; }
			if (wi < 0 || wi == 99) { S->eraseFromParent(); return false; }
			auto *G = Function::Create(FunctionType::get(Type::getVoidTy(C.llctx), ts, false), Function::InternalLinkage, "lva.guarded", C.M.get());
			ValueToValueMapTy VM; for (unsigned k = 0; k < n0; k++) VM[S->getArg(k)] = G->getArg(k);
			SmallVector<ReturnInst*, 8> rets; CloneFunctionInto(G, S, VM, CloneFunctionChangeType::LocalChangesOnly, rets); G->setSubprogram(S->getSubprogram()); S->eraseFromParent();
			std::vector<std::pair<CallInst*, CallInst*>> facts;
			for (auto *x : exitsOf(*G, M)) { std::vector<Value*> as; for (unsigned k = n0; k < ts.size(); k++) as.push_back((int)(k - n0) == wi ? x->getArgOperand(5) : G->getArg(k)); auto *c = CallInst::Create(f->getFunctionType(), f, as, "", x); c->setDebugLoc(DILocation::get(C.llctx, 0, 0, G->getSubprogram()));
				for (auto &I : instructions(*G)) if (auto *w = dyn_cast<CallInst>(&I)) if (w->getCalledFunction() && w->getCalledFunction()->getName() == "lva.word" && DominatorTree(*G).dominates(w, x)) facts.push_back({w, c}); }
			std::set<CallInst*> ws;
			for (auto &[w, x] : facts) { IRBuilder<> Bd(x); Bd.CreateAssumption(Bd.CreateICmpEQ(Bd.CreateLShr(w->getArgOperand(0), w->getArgOperand(1)), w->getArgOperand(2))); ws.insert(w); }
			for (auto *w : ws) w->eraseFromParent();
			flatten(*G, IP); simplifyFunction(*G); resetDbgTypes(G); simplifyFunction(*G); n++; C.R.count("decoded_words_assumed"); check(*G, kind, name); if (C.opts.count("dump")) G->print(errs()); G->eraseFromParent();
		}
		return n > 0;
	};
	parallelFor(C, roots.size(), [&](unsigned i) {
		auto &r = roots[i]; if (!only.empty() && r.name.find(only) == std::string::npos) return;
		auto run = [&] { ValueToValueMapTy VM; auto *G = CloneFunction(r.F, VM); G->setSubprogram(r.F->getSubprogram()); resetDbgTypes(G);
			flatten(*G, IP); simplifyFunction(*G); check(*G, r.kind, r.name); if (C.opts.count("dump")) G->print(errs()); G->eraseFromParent(); };
		auto before = C.R; C.R.count("roots_" + r.kind); run();
		if (model && (r.kind == "handler" || r.kind == "printer") && C.R.findings.size() > before.findings.size()) {
			auto plain = C.R; C.R = before; C.R.count("roots_" + r.kind); if (!decoded(r.F, r.kind, r.name)) C.R = plain; }
	});
	if (want("cpu")) {
		struct Item { Dispatch *D; int64_t id; std::string name; }; std::vector<Item> items;
		for (auto &D : M.disp) for (auto &p : M.ids) if (only.empty() || p.second == only) items.push_back({D.get(), p.first, p.second});
		C.R.info["instructions"] = (int64_t)M.ids.size(); C.R.info["dispatch_loops"] = (int64_t)M.disp.size();
		parallelFor(C, items.size(), [&](unsigned i) {
			auto &it = items[i];
			for (auto &c : composeAll(C, M, *it.D, it.id)) {
				if (!c.F) continue;
				if (handlerCall(*it.D->regions[c.bytecode].X.F)) { C.R.count("generic"); c.F->eraseFromParent(); continue; }
				C.R.count("compositions"); check(*c.F, "specialised", it.name + " as bytecode " + std::to_string(c.bytecode)); if (C.opts.count("dump")) c.F->print(errs()); c.F->eraseFromParent();
			}
		});
	}
	if (what != "arrays" && !C.R.info.getInteger("marked").value_or(0)) C.R.error("no operation of this kind found in the program");
}
}
