// Interpreter regions: see regions.hpp
#include "regions.hpp"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/CorrelatedValuePropagation.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/SSAUpdater.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
namespace lva {

struct PMR {
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
	PMR() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); }
};
// decides comparisons whose operand is fixed bit by bit by the conditions that dominate them
static bool foldByBits(Function &F) {
	bool ch = false; DominatorTree DT(F);
	std::map<const Value*, std::vector<std::tuple<const Instruction*, BasicBlock*, BasicBlock*, uint64_t, uint64_t>>> facts;
	auto fact = [&](Value *c, bool truth, const Instruction *at, BasicBlock *a, BasicBlock *b, auto &&self) -> void {
		auto *I = dyn_cast<Instruction>(c); if (!I) return;
		Value *x, *y;
		if (truth && PatternMatch::match(I, PatternMatch::m_LogicalAnd(PatternMatch::m_Value(x), PatternMatch::m_Value(y)))) { self(x, true, at, a, b, self); self(y, true, at, a, b, self); return; }
		if (!truth && PatternMatch::match(I, PatternMatch::m_LogicalOr(PatternMatch::m_Value(x), PatternMatch::m_Value(y)))) { self(x, false, at, a, b, self); self(y, false, at, a, b, self); return; }
		auto *C = dyn_cast<ICmpInst>(I); if (!C || !C->getOperand(0)->getType()->isIntegerTy() || C->getOperand(0)->getType()->getIntegerBitWidth() > 64) return;
		auto *k = dyn_cast<ConstantInt>(C->getOperand(1)); if (!k) return;
		auto p = truth ? C->getPredicate() : C->getInversePredicate(); unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth(); uint64_t all = w == 64 ? ~0ull : (1ull << w) - 1, kv = k->getZExtValue();
		Value *v = C->getOperand(0); uint64_t m = all;
		if (auto *A = dyn_cast<BinaryOperator>(v); A && A->getOpcode() == Instruction::And) if (auto *mk = dyn_cast<ConstantInt>(A->getOperand(1))) { m = mk->getZExtValue(); v = A->getOperand(0); }
		if (p == CmpInst::ICMP_EQ) facts[v].push_back({at, a, b, m, kv});
		else if (p == CmpInst::ICMP_NE && isPowerOf2_64(m) && kv == 0) facts[v].push_back({at, a, b, m, m});
		else if (m == all && ((p == CmpInst::ICMP_ULT && isPowerOf2_64(kv)) || (p == CmpInst::ICMP_ULE && isPowerOf2_64(kv + 1)))) facts[v].push_back({at, a, b, all & ~((p == CmpInst::ICMP_ULT ? kv : kv + 1) - 1), 0});
	};
	for (auto &B : F) {
		for (auto &I : B) if (auto *A = dyn_cast<IntrinsicInst>(&I); A && A->getIntrinsicID() == Intrinsic::assume) fact(A->getArgOperand(0), true, A, nullptr, nullptr, fact);
		if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) { fact(Br->getCondition(), true, nullptr, &B, Br->getSuccessor(0), fact); fact(Br->getCondition(), false, nullptr, &B, Br->getSuccessor(1), fact); }
	}
	std::vector<ICmpInst*> cs; for (auto &I : instructions(F)) if (auto *C = dyn_cast<ICmpInst>(&I)) if (C->isEquality() && isa<ConstantInt>(C->getOperand(1)) && C->getOperand(0)->getType()->isIntegerTy() && C->getOperand(0)->getType()->getIntegerBitWidth() <= 64) cs.push_back(C);
	for (auto *C : cs) {
		Value *v = C->getOperand(0); unsigned w = v->getType()->getIntegerBitWidth(); uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, kv = cast<ConstantInt>(C->getOperand(1))->getZExtValue();
		if (auto *A = dyn_cast<BinaryOperator>(v); A && A->getOpcode() == Instruction::And) if (auto *mk = dyn_cast<ConstantInt>(A->getOperand(1))) { m = mk->getZExtValue(); v = A->getOperand(0); }
		auto it = facts.find(v); if (it == facts.end()) continue;
		uint64_t km = 0, kb = 0;
		for (auto &[at, a, b, fm, fv] : it->second) { bool dom = at ? at != C && DT.dominates(at, C) : DT.isReachableFromEntry(C->getParent()) && DT.dominates(BasicBlockEdge(a, b), C->getParent()); if (!dom) continue; km |= fm; kb |= fv & fm; }
		int res = -1; if ((kb ^ kv) & km & m) res = 0; else if ((km & m) == m && (kb & m) == kv) res = 1;
		if (res < 0) continue;
		C->replaceAllUsesWith(ConstantInt::getBool(F.getContext(), (res == 1) == (C->getPredicate() == CmpInst::ICMP_EQ))); ch = true;
	}
	return ch;
}
void optimizeRegion(Function &F, bool ic) {
	PMR P; FunctionPassManager FPM;
	SimplifyCFGOptions O; O.convertSwitchRangeToICmp(false).convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false).needCanonicalLoops(true).setSimplifyCondBranch(true).bonusInstThreshold(0);
	for (int k = 0; k < 2; k++) {
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(SCCPPass()); FPM.addPass(SimplifyCFGPass(O));
		if (ic) FPM.addPass(InstCombinePass(InstCombineOptions().setMaxIterations(4).setVerifyFixpoint(false)));
		FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false).setMemDep(true)));
	}
	if (ic) FPM.addPass(InstCombinePass(InstCombineOptions().setMaxIterations(4).setVerifyFixpoint(false)));
	FPM.addPass(CorrelatedValuePropagationPass());
	FPM.addPass(SimplifyCFGPass(O)); FPM.addPass(DCEPass());
	FPM.run(F, P.FAM);
	if (ic && foldByBits(F)) { P.FAM.clear(); FPM.run(F, P.FAM); }
	resetDbgTypes(&F);
}
static std::vector<BasicBlock*> breadthFirst(Function &F) { SetVector<BasicBlock*> s; s.insert(&F.getEntryBlock()); for (size_t i = 0; i < s.size(); i++) for (auto *n : successors(s[i])) s.insert(n); return std::vector<BasicBlock*>(s.begin(), s.end()); }
static void sroaOnly(Function &F) { PMR P; FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.run(F, P.FAM); resetDbgTypes(&F); }

Extract extractRegion(Function &S, BasicBlock *entry, const std::string &name,
	std::function<bool(BasicBlock*, BasicBlock*)> cut0,
	std::function<void(IRBuilder<>&, BasicBlock*, BasicBlock*, std::function<Value*(Value*)>)> emitCut) {
	Extract X;
	auto cut = [&](BasicBlock *a, BasicBlock *b) { return !b->isEHPad() && cut0(a, b); };
	SetVector<BasicBlock*> set; set.insert(entry);
	for (size_t i = 0; i < set.size(); i++) for (auto *s : successors(set[i])) if (!cut(set[i], s)) { if (s == entry) return X; set.insert(s); }
	auto inside = [&](const Value *v) { auto *I = dyn_cast<Instruction>(v); return I && set.count(const_cast<BasicBlock*>(I->getParent())) && !(isa<PHINode>(I) && I->getParent() == entry); };
	// classify outside values
	SetVector<Value*> leaves, allocas; std::set<Value*> seen; std::vector<Instruction*> pure; // pure in dependency order
	std::function<void(Value*)> need = [&](Value *v) {
		if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v) || inside(v) || !seen.insert(v).second) return;
		if (auto *A = dyn_cast<AllocaInst>(v)) {
			bool local = isa<ConstantInt>(A->getArraySize());
			for (auto *U : A->users()) { auto *I = dyn_cast<Instruction>(U); if (!I || !set.count(I->getParent())) { if (I && (isa<DbgInfoIntrinsic>(I) || I->isLifetimeStartOrEnd())) continue; local = false; } }
			if (local) { allocas.insert(A); return; }
		}
		if (auto *I = dyn_cast<Instruction>(v)) if (isa<GetElementPtrInst>(I) || isa<CastInst>(I)) { for (auto &o : I->operands()) need(o); pure.push_back(I); return; }
		leaves.insert(v);
	};
	for (auto *B : set) for (auto &I : *B) {
		if (isa<DbgInfoIntrinsic>(&I) || (isa<PHINode>(&I) && B == entry)) continue;
		if (auto *Ph = dyn_cast<PHINode>(&I)) { for (unsigned k = 0; k < Ph->getNumIncomingValues(); k++) if (set.count(Ph->getIncomingBlock(k))) need(Ph->getIncomingValue(k)); continue; }
		if (isa<ReturnInst>(&I)) continue;
		for (auto &o : I.operands()) need(o);
	}
	for (auto *B : set) for (auto *s : successors(B)) if (cut(B, s)) { // values a cut may want: phis of the target
		for (auto &Ph : s->phis()) need(Ph.getIncomingValueForBlock(B));
	}
	for (auto &Ph : entry->phis()) need(&Ph);
	LLVMContext &X0 = S.getContext();
	std::vector<Type*> ts; for (auto *l : leaves) ts.push_back(l->getType());
	auto *NF = Function::Create(FunctionType::get(Type::getVoidTy(X0), ts, false), GlobalValue::InternalLinkage, name, S.getParent());
	if (S.hasPersonalityFn()) NF->setPersonalityFn(S.getPersonalityFn());
	NF->setSubprogram(S.getSubprogram());
	X.F = NF; X.VM = new ValueToValueMapTy; auto &VM = *X.VM;
	auto *E = BasicBlock::Create(X0, "entry", NF);
	IRBuilder<> B0(E);
	auto initF = S.getParent()->getOrInsertFunction("lva.init", FunctionType::get(Type::getVoidTy(X0), {PointerType::get(X0, 0)}, false));
	{ auto *IFn = cast<Function>(initF.getCallee()); IFn->setOnlyAccessesArgMemory(); IFn->setDoesNotThrow(); IFn->setWillReturn(); IFn->addParamAttr(0, Attribute::NoCapture); }
	unsigned k = 0;
	for (auto *l : leaves) { Argument *A = NF->getArg(k++); A->setName(l->getName()); VM[l] = A; X.in.push_back({l, A}); if (isa<AllocaInst>(l)) A->addAttr(Attribute::NoAlias); }
	for (auto *A : allocas) { auto *c = cast<AllocaInst>(A)->clone(); c->setName(A->getName()); B0.Insert(c); VM[A] = c; }
	for (auto *A : allocas) B0.CreateCall(initF, {VM[A]});
	for (auto *I : pure) { auto *c = I->clone(); B0.Insert(c); RemapInstruction(c, VM, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges); VM[I] = c; }
	for (auto &p : std::vector<std::pair<Value*, Value*>>()) (void)p;
	auto dbg = [&](Value *v) {
		SmallVector<DbgValueInst*, 4> dv; findDbgValues(dv, v);
		for (auto *d : dv) { if (d->hasArgList()) continue; auto *c = cast<DbgValueInst>(d->clone()); B0.Insert(c); c->replaceVariableLocationOp(v, VM[v]); }
	};
	for (auto *l : leaves) dbg(l);
	for (auto *I : pure) dbg(I);
	for (auto *B : set) { auto *nb = CloneBasicBlock(B, VM, "", NF); VM[B] = nb; }
	// entry phis are arguments
	std::vector<Instruction*> dead;
	for (auto &Ph : entry->phis()) { auto *A = X.argFor(&Ph); auto *cp = cast<Instruction>(&*VM[&Ph]); (void)cp; dead.push_back(cp); VM[&Ph] = A; }
	for (auto *d : dead) d->eraseFromParent();
	B0.CreateBr(cast<BasicBlock>(VM[entry]));
	for (auto *B : set) {
		auto *nb = cast<BasicBlock>(VM[B]);
		if (B != entry) for (auto &Ph : B->phis()) {
			auto *np = cast<PHINode>(&*VM[&Ph]);
			for (int q = (int)np->getNumIncomingValues() - 1; q >= 0; q--) { auto *ib = np->getIncomingBlock(q); if (!set.count(ib) || cut(ib, B)) np->removeIncomingValue(q, false); }
		}
		(void)nb;
	}
	auto map = [&](Value *v) -> Value* { if (isa<Constant>(v)) return v; auto it = VM.find(v); return it == VM.end() ? nullptr : (Value*)it->second; };
	auto retF = S.getParent()->getOrInsertFunction("lva.ret", FunctionType::get(Type::getVoidTy(X0), false));
	for (auto *B : set) {
		auto *nb = cast<BasicBlock>(VM[B]);
		for (auto &I : *nb) RemapInstruction(&I, VM, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges);
	}
	for (auto *B : set) {
		auto *nb = cast<BasicBlock>(VM[B]);
		auto *T = nb->getTerminator();
		if (isa<ReturnInst>(T)) { IRBuilder<> b(T); auto *c = b.CreateCall(retF); c->setDebugLoc(T->getDebugLoc()); b.CreateRetVoid(); T->eraseFromParent(); continue; }
		auto *T0 = B->getTerminator();
		for (unsigned s = 0; s < T0->getNumSuccessors(); s++) {
			auto *sb = T0->getSuccessor(s);
			if (!cut(B, sb)) continue;
			auto *cb = BasicBlock::Create(X0, "cut", NF);
			IRBuilder<> b(cb); b.SetCurrentDebugLocation(T0->getDebugLoc());
			emitCut(b, B, sb, map);
			b.CreateRetVoid();
			T->setSuccessor(s, cb);
		}
	}
	{ // a value computed inside but used before it is computed has an earlier version from outside
		DominatorTree DT(*NF);
		std::map<Value*, Value*> back; for (auto *B : set) for (auto &I : *B) { auto it = VM.find(&I); if (it != VM.end() && it->second) back[it->second] = &I; }
		std::vector<Instruction*> is; for (auto &I : instructions(*NF)) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) is.push_back(&I);
		for (auto *I : is) {
			std::vector<Use*> us; for (auto &U : I->uses()) { auto *UI = cast<Instruction>(U.getUser()); if (isa<DbgInfoIntrinsic>(UI)) continue; auto *ub = isa<PHINode>(UI) ? cast<PHINode>(UI)->getIncomingBlock(U) : UI->getParent(); if (DT.isReachableFromEntry(ub) && !DT.dominates(I, U)) us.push_back(&U); }
			if (us.empty()) continue;
			auto fn = S.getParent()->getOrInsertFunction("lva.carried." + std::to_string(I->getType()->getTypeID()) + "." + std::to_string(I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 0), FunctionType::get(I->getType(), false));
			if (auto *G = dyn_cast<Function>(fn.getCallee())) { G->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); G->setDoesNotThrow(); G->setWillReturn(); }
			auto *cv = CallInst::Create(fn, "carried", E->getTerminator());
			SSAUpdater SU; SU.Initialize(I->getType(), I->getName()); SU.AddAvailableValue(E, cv); SU.AddAvailableValue(I->getParent(), I);
			for (auto *U : us) SU.RewriteUse(*U);
			X.carried.push_back({back.count(I) ? back[I] : nullptr, cv});
		}
	}
	// lifetime markers of blocks that were arguments are meaningless
	std::vector<Instruction*> lt;
	for (auto &I : instructions(*NF)) if (I.isLifetimeStartOrEnd()) { auto *p = I.getOperand(1)->stripPointerCasts(); if (!isa<AllocaInst>(p)) lt.push_back(&I); }
	for (auto *I : lt) I->eraseFromParent();
	return X;
}

static const DICompositeType *derefComp(const DIType *T) { while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) T = D->getBaseType(); return dyn_cast_or_null<DICompositeType>(T); }
bool isDecode(const Function *F) {
	auto *SP = F->getSubprogram(); if (!SP || !SP->getType()) return false;
	auto ta = SP->getType()->getTypeArray();
	if (!ta.size() || !ta[0]) return false;
	auto *D = dyn_cast<DIDerivedType>(ta[0]);
	if (!D || (D->getTag() != dwarf::DW_TAG_reference_type && D->getTag() != dwarf::DW_TAG_pointer_type)) return false;
	auto *c = derefComp(D); return c && scopeName(c) == "loongarch::Instruction";
}
static bool isKey(const Value *p, const char *k, const DataLayout &DL) { return fieldKey(p, DL) == std::string("loongarch::") + k; }

static bool buildDispatch(Ctx &C, CpuModel &M, Function *F, Dispatch &D) {
	auto bad = [&](const std::string &m) { C.R.error("dispatch loop " + qualName(F) + ": " + m); return false; };
	D.F = F; D.name = qualName(F);
	for (auto &B : *F) if (auto *I = dyn_cast<IndirectBrInst>(B.getTerminator())) { if (D.IB) return bad("several indirect jumps"); D.IB = I; }
	if (!D.IB) return bad("no indirect jump");
	for (auto &G : C.M->globals()) {
		if (!G.hasInitializer() || !isa<ArrayType>(G.getValueType())) continue;
		auto *a = G.getInitializer(); auto *e = a->getAggregateElement(0u);
		auto *ba = e ? dyn_cast<BlockAddress>(e->stripPointerCasts()) : nullptr;
		if (ba && ba->getFunction() == F) { if (D.table) return bad("several jump tables"); D.table = &G; }
	}
	if (!D.table) return bad("no jump table");
	for (unsigned i = 0; i < cast<ArrayType>(D.table->getValueType())->getNumElements(); i++) {
		auto *ba = dyn_cast<BlockAddress>(D.table->getInitializer()->getAggregateElement(i)->stripPointerCasts());
		if (!ba) return bad("jump table element is not a label");
		D.labels.push_back(ba->getBasicBlock());
	}
	BasicBlock *IBB = D.IB->getParent();
	// decoder pointer: where the bytecode of the next step is read
	std::map<BasicBlock*, const Value*> decOf;
	for (auto *P : predecessors(IBB)) {
		const Value *d = D.IB->getAddress();
		if (auto *Ph = dyn_cast<PHINode>(d); Ph && Ph->getParent() == IBB) d = Ph->getIncomingValueForBlock(P);
		auto *L = dyn_cast<LoadInst>(d); if (!L) return bad("jump target is not read from the table");
		auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()); if (!G || G->getPointerOperand() != D.table) return bad("jump target is not read from the table");
		const Value *ix = G->getOperand(G->getNumOperands() - 1);
		while (auto *Ca = dyn_cast<CastInst>(ix)) ix = Ca->getOperand(0);
		auto *BL = dyn_cast<LoadInst>(ix);
		if (!BL || !isKey(BL->getPointerOperand(), "DecoderData::bytecode", *C.DL)) return bad("table index is not the bytecode of a decoder entry");
		APInt o(64, 0); decOf[P] = BL->getPointerOperand()->stripAndAccumulateConstantOffsets(*C.DL, o, true);
	}
	auto strip = [&](const Value *v) { APInt o(64, 0); return v->stripAndAccumulateConstantOffsets(*C.DL, o, true); };
	for (auto &Ph : IBB->phis()) if (Ph.getType()->isPointerTy()) {
		bool ok = true;
		for (auto &q : decOf) { auto *in = Ph.getIncomingValueForBlock(q.first); if (in != q.second && strip(in) != q.second && strip(in) != strip(q.second)) ok = false; }
		if (ok) D.decoder = &Ph;
	}
	if (!D.decoder) return bad("decoder pointer not found");
	// webs of phis around the arguments: pc, counter, limit
	std::map<const Value*, const Value*> uf;
	std::function<const Value*(const Value*)> find = [&](const Value *v) { while (uf.count(v) && uf[v] != v) v = uf[v]; return v; };
	for (auto &I : instructions(*F)) if (auto *Ph = dyn_cast<PHINode>(&I)) for (auto &v : Ph->incoming_values()) if (isa<PHINode>(v) || isa<Argument>(v)) { auto *a = find(Ph), *b = find(v); if (a != b) uf[a] = b; }
	for (auto &I : instructions(*F)) if (auto *BO = dyn_cast<BinaryOperator>(&I)) if (BO->getOpcode() == Instruction::Add || BO->getOpcode() == Instruction::Sub) {
		auto var = [&](const Value *v) { return isa<PHINode>(v) || isa<Argument>(v) || (isa<BinaryOperator>(v) && uf.count(v)); };
		auto *a = BO->getOperand(0), *b = BO->getOperand(1);
		auto *w = var(a) ? a : BO->getOpcode() == Instruction::Add && var(b) ? b : nullptr;
		if (w) { auto *x = find(BO), *y = find(w); if (x != y) uf[x] = y; }
	}
	for (auto &I : instructions(*F)) if (auto *Ph = dyn_cast<PHINode>(&I)) for (auto &v : Ph->incoming_values()) if (isa<PHINode>(v) || isa<Argument>(v) || (isa<BinaryOperator>(v) && uf.count(v))) { auto *a = find(Ph), *b = find(v); if (a != b) uf[a] = b; }
	const char *role[] = {"", "pc", "counter", "max"}; auto &role0 = role;
	for (unsigned a = 1; a < F->arg_size() && a < 4; a++) {
		auto *r = find(F->getArg(a));
		for (unsigned b = 1; b < a; b++) if (find(F->getArg(b)) == r) return bad("pc, counter and limit are not separate variables");
		for (auto &I : instructions(*F)) if (auto *Ph = dyn_cast<PHINode>(&I)) if (find(Ph) == r) D.web[Ph] = role[a];
	}
	for (auto &Ph : IBB->phis()) { auto it = D.web.find(&Ph); if (it == D.web.end()) continue; auto &slot = it->second == "pc" ? D.pc : it->second == "counter" ? D.counter : D.max; if (slot) return bad("two candidates for " + it->second); slot = &Ph; }
	if (!D.pc) return bad("program counter not found");
	auto segRole = [&](PHINode *Ph) -> std::string {
		std::set<const Value*> seen; std::vector<const Value*> wl{Ph}; std::string role;
		while (!wl.empty()) {
			auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
			if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) wl.push_back(x); continue; }
			if (isa<UndefValue>(v)) continue;
			auto *b = v; while (auto *G = dyn_cast<GEPOperator>(b)) b = G->getPointerOperand();
			std::string k; if (auto *L = dyn_cast<LoadInst>(b)) k = fieldKey(L->getPointerOperand(), *C.DL);
			std::string r = b == v && k == "loongarch::DecodedExecuteSegment::m_exec_begin" ? "begin" : b == v && k == "loongarch::DecodedExecuteSegment::m_exec_end" ? "end" : k == "loongarch::DecoderCache::cache" ? "base" : "";
			if (r.empty() || (!role.empty() && role != r)) return "";
			role = r;
		}
		return role;
	};
	for (auto &I : instructions(*F)) if (auto *Ph = dyn_cast<PHINode>(&I)) { if (Ph == D.decoder || D.web.count(Ph)) continue; auto r = segRole(Ph); if (!r.empty()) D.seg[Ph] = r; }
	for (auto &p : D.seg) { auto *&slot = D.segAt[p.second]; if (!slot || p.first->getParent() == IBB) slot = p.first; else if (slot->getParent() != IBB) return bad("segment state is kept twice"); }
	if (!D.max) { // the limit may live in the machine only
		for (auto &I : instructions(*F)) if (auto *Ph = dyn_cast<PHINode>(&I)) {
			if (D.web.count(Ph) || !Ph->getType()->isIntegerTy(64)) continue;
			std::set<const Value*> seen; std::vector<const Value*> wl{Ph}; bool ok = true, any = false;
			while (!wl.empty() && ok) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue; if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) wl.push_back(x); continue; }
				if (isa<ConstantInt>(v)) continue; auto *L = dyn_cast<LoadInst>(v); if (L && fieldKey(L->getPointerOperand(), *C.DL) == "loongarch::Machine::m_max_instructions") any = true; else ok = false; }
			if (ok && any) { D.web[Ph] = "max"; if (Ph->getParent() == IBB) { if (D.max) return bad("two candidates for the limit"); D.max = Ph; } }
		}
	}
	// shared tails
	std::set<BasicBlock*> labels(D.labels.begin(), D.labels.end());
	std::map<BasicBlock*, unsigned> reach;
	for (auto *L : labels) {
		SetVector<BasicBlock*> s; s.insert(L);
		for (size_t i = 0; i < s.size(); i++) for (auto *n : successors(s[i])) if (n != IBB) s.insert(n);
		for (auto *b : s) reach[b]++;
	}
	unsigned nt = 0;
	for (auto &B : *F) { if (&B != IBB && !labels.count(&B) && reach[&B] >= 3) { D.tails[&B] = nt++; } }
	LLVMContext &X = C.llctx;
	auto *P0 = PointerType::get(X, 0); auto *I64 = Type::getInt64Ty(X);
	M.fnNext = cast<Function>(C.M->getOrInsertFunction("lva.next", FunctionType::get(Type::getVoidTy(X), {P0, I64, I64, I64}, false)).getCallee());
	M.fnTail = cast<Function>(C.M->getOrInsertFunction("lva.tail", FunctionType::get(Type::getVoidTy(X), {I64, I64, I64, I64}, false)).getCallee());
	M.fnSeg = cast<Function>(C.M->getOrInsertFunction("lva.seg", FunctionType::get(Type::getVoidTy(X), {I64, I64, P0}, false)).getCallee());
	M.fnSeg->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); M.fnSeg->setDoesNotThrow(); M.fnSeg->setWillReturn();
	auto segCall = [&](IRBuilder<> &B, BasicBlock *from, std::function<Value*(Value*)> map, bool always) {
		bool changed = always; Value *a[3] = {B.getInt64(0), B.getInt64(0), ConstantPointerNull::get(P0)}; int k = 0;
		for (auto *r : {"begin", "end", "base"}) { if (auto it = D.segAt.find(r); it != D.segAt.end()) { Value *in = it->second; if (it->second->getParent() == IBB) in = it->second->getIncomingValueForBlock(from); if (in != it->second) changed = true; if (auto *v = map(in)) a[k] = v; } k++; }
		if (changed) B.CreateCall(M.fnSeg, {a[0], a[1], a[2]});
	};
	std::map<BasicBlock*, Region> byLabel;
	for (unsigned b = 0; b < D.labels.size(); b++) {
		auto *L = D.labels[b];
		if (!byLabel.count(L)) {
			Region r; r.label = L;
			auto isCut = [&](BasicBlock *a, BasicBlock *s) { return s == IBB || D.tails.count(s) || s == L || (labels.count(s) && s != a); };
			auto emit = [&](IRBuilder<> &B, BasicBlock *from, BasicBlock *to, std::function<Value*(Value*)> map) {
				auto pick = [&](PHINode *Ph) -> Value* { if (!Ph) return B.getInt64(0); auto *v = map(Ph->getIncomingValueForBlock(from)); return v ? v : B.getInt64(0); };
				if (to == IBB) {
					auto *d = map(D.decoder->getIncomingValueForBlock(from));
					if (!d) d = ConstantPointerNull::get(P0);
					segCall(B, from, map, false);
					B.CreateCall(M.fnNext, {d, pick(D.pc), pick(D.counter), pick(D.max)});
				} else {
					PHINode *pc = nullptr, *ct = nullptr, *mx = nullptr;
					for (auto &Ph : to->phis()) { auto it = D.web.find(&Ph); if (it == D.web.end()) continue; (it->second == "pc" ? pc : it->second == "counter" ? ct : mx) = &Ph; }
					auto pick2 = [&](PHINode *Ph, PHINode *cur) -> Value* { if (Ph) return pick(Ph); if (cur) { if (auto *v = map(cur)) return v; } return B.getInt64(0); };
					if (D.tails.count(to)) D.tailTargets.insert(to);
					B.CreateCall(M.fnTail, {B.getInt64(D.tails.count(to) ? D.tails[to] : 1000), pick2(pc, D.pc), pick2(ct, D.counter), pick2(mx, D.max)});
				}
			};
			r.X = extractRegion(*F, L, "lva.region." + std::to_string(b), isCut, emit);
			if (!r.X.F) return bad("label " + L->getName().str() + " loops back to itself");
			for (auto &l : r.X.in) {
				if (l.orig == D.decoder) r.decoder = l.arg; else if (l.orig == D.pc) r.pc = l.arg; else if (D.counter && l.orig == D.counter) r.counter = l.arg;
				else if (D.max && l.orig == D.max) r.max = l.arg; else if (l.orig == F->getArg(0)) r.self = l.arg;
			}
			byLabel[L] = r;
		}
		Region r = byLabel[L]; r.bytecode = b; D.regions.push_back(r);
	}
	// shared tails and the way in, down to the next dispatch
	std::vector<std::pair<unsigned, BasicBlock*>> te{{9999, &F->getEntryBlock()}};
	for (auto &B : *F) if (D.tailTargets.count(&B)) te.push_back({D.tails[&B], &B});
	for (auto &t : te) {
		auto isCut = [&](BasicBlock *, BasicBlock *s) { return s == IBB || labels.count(s); };
		auto emit = [&](IRBuilder<> &B, BasicBlock *from, BasicBlock *to, std::function<Value*(Value*)> map) {
			auto pick = [&](PHINode *Ph) -> Value* { if (!Ph) return B.getInt64(0); auto *v = map(Ph->getIncomingValueForBlock(from)); return v ? v : B.getInt64(0); };
			if (to == IBB) { auto *d = map(D.decoder->getIncomingValueForBlock(from)); if (!d) d = ConstantPointerNull::get(P0); segCall(B, from, map, true); B.CreateCall(M.fnNext, {d, pick(D.pc), pick(D.counter), pick(D.max)}); }
			else B.CreateCall(M.fnTail, {B.getInt64(1000), B.getInt64(0), B.getInt64(0), B.getInt64(0)});
		};
		auto X = extractRegion(*F, t.second, "lva.tailregion." + std::to_string(t.first), isCut, emit);
		if (!X.F) return bad("a shared tail loops back to itself");
		Dispatch::Tail T{t.first, t.second, X, nullptr, nullptr, nullptr, nullptr};
		std::vector<std::pair<Value*, Value*>> ins; for (auto &l : X.in) ins.push_back({l.orig, l.arg}); for (auto &l : X.carried) ins.push_back({l.first, l.second});
		for (auto &l0 : ins) {
			struct { Value *orig, *arg; } l{l0.first, l0.second}; if (!l.orig) continue;
			if (auto *Q = dyn_cast<PHINode>(l.orig); Q && D.seg.count(Q)) { auto &slot = T.seg[D.seg[Q]]; if (!slot || Q->getParent() == t.second || D.segAt[D.seg[Q]] == Q) slot = l.arg; }
			std::string role; auto *Ph = dyn_cast<PHINode>(l.orig); if (Ph && D.web.count(Ph)) role = D.web[Ph]; else if (auto *A = dyn_cast<Argument>(l.orig)) { if (A->getArgNo() < 4 && A->getArgNo() > 0) role = role0[A->getArgNo()]; else if (A->getArgNo() == 0) T.self = l.arg; }
			auto &slot = role == "pc" ? T.pc : role == "counter" ? T.counter : T.max;
			if (!role.empty() && (!slot || (Ph && Ph->getParent() == t.second))) slot = l.arg;
		}
		D.tailRegions.push_back(T);
	}
	return true;
}

// is there, among the functions that would be inlined into F, one that satisfies p?
static bool closureHas(Function *F, std::function<bool(Function*)> p, std::set<Function*> &seen) {
	if (!seen.insert(F).second) return false;
	if (p(F)) return true;
	for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = calleeOf(CB)) if (!c->isDeclaration() && inProject(c) && !isDecode(c) && closureHas(c, p, seen)) return true;
	return false;
}

bool buildCpuModel(Ctx &C, Roots &R, CpuModel &M) {
	LLVMContext &X = C.llctx;
	for (auto *n : {"bytecode", "handler_idx", "block_bytes", "instr"}) {
		auto *m = FM->memberByName("loongarch::DecoderData", n);
		if (!m) { C.R.error(std::string("decoder entry has no member ") + n); return false; }
		(n[0] == 'b' && n[1] == 'y' ? M.offBytecode : n[0] == 'h' ? M.offHandler : n[0] == 'b' ? M.offBlock : M.offInstr) = m->off;
	}
	M.size = FM->types.at("loongarch::DecoderData")->getSizeInBits() / 8;
	InlinePolicy IP; IP.want = defaultInlineWant;
	for (auto *F : R.dispatch) {
		flatten(*F, IP); sroaOnly(*F);
		auto D = std::make_unique<Dispatch>();
		if (!buildDispatch(C, M, F, *D)) return false;
		M.disp.push_back(std::move(D));
	}
	// instruction ids and descriptors
	auto e = FM->enums.find("loongarch::InstrId");
	for (auto &G : C.M->globals()) {
		if (!G.hasInitializer()) continue;
		SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv); if (gv.empty()) continue;
		auto *ty = derefComp(gv[0]->getVariable()->getType()); if (!ty || scopeName(ty) != "loongarch::Instruction") continue;
		auto *id = dyn_cast_or_null<ConstantInt>(G.getInitializer()->getAggregateElement(2u)); if (!id) continue;
		M.descOf[id->getSExtValue()] = &G;
		std::string nm = demangle(G.getName()); auto q = nm.rfind("instr64_"); if (q != std::string::npos) nm = nm.substr(q + 8);
		M.ids[id->getSExtValue()] = nm;
	}
	if (M.ids.size() < 100) { C.R.error("instruction descriptors not recognised"); return false; }
	(void)e;
	// decoder-cache builder
	auto loadsId = [&](Function *F) { for (auto &I : instructions(*F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (isKey(L->getPointerOperand(), "Instruction::id", *C.DL)) return true; return false; };
	auto storesInstr = [&](Function *F) { for (auto &I : instructions(*F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (isKey(S->getPointerOperand(), "DecoderData::instr", *C.DL) && !isa<Constant>(S->getValueOperand())) return true; return false; };
	std::vector<Function*> cand;
	for (auto &F : *C.M) if (!F.isDeclaration() && inProject(&F) && !F.getName().starts_with("lva.")) {
		std::set<Function*> s1, s2;
		if (closureHas(&F, loadsId, s1) && closureHas(&F, storesInstr, s2)) cand.push_back(&F);
	}
	// innermost: calls no other candidate
	std::vector<Function*> inner;
	for (auto *F : cand) { bool calls = false; for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = calleeOf(CB)) if (c != F && is_contained(cand, c)) calls = true; if (!calls) inner.push_back(F); }
	if (inner.size() != 1) { C.R.error("decoder-cache builder not recognised (" + std::to_string(inner.size()) + " candidates)"); return false; }
	Function *P = M.builder = inner[0];
	InlinePolicy IB; IB.want = [](const Function *F) { return defaultInlineWant(F) && !isDecode(F) && (inProject(F) || F->getInstructionCount() <= 24); };
	flatten(*P, IB); sroaOnly(*P);
	M.DT = std::make_unique<DominatorTree>(*P); M.LI = std::make_unique<LoopInfo>(*M.DT);
	for (auto &I : instructions(*P)) if (auto *S = dyn_cast<StoreInst>(&I)) if (isKey(S->getPointerOperand(), "DecoderData::instr", *C.DL) && !isa<Constant>(S->getValueOperand())) if (auto *L = M.LI->getLoopFor(S->getParent())) { M.stepLoop = L; M.stepHeader = L->getHeader(); }
	if (!M.stepLoop) { C.R.error("loop of the decoder-cache builder not found"); return false; }
	auto *I8 = Type::getInt8Ty(X), *I16 = Type::getInt16Ty(X), *I32 = Type::getInt32Ty(X), *I64 = Type::getInt64Ty(X);
	M.fnExit = cast<Function>(C.M->getOrInsertFunction("lva.exit", FunctionType::get(Type::getVoidTy(X), {I8, I32, I16, I8, I64, I32}, false)).getCallee());
	// the entry being filled, the word being decoded, the address of the word
	StoreInst *S0 = nullptr; CallBase *dec = nullptr;
	for (auto *B : M.stepLoop->blocks()) for (auto &I : *B) {
		if (auto *S = dyn_cast<StoreInst>(&I)) if (isKey(S->getPointerOperand(), "DecoderData::instr", *C.DL)) S0 = S;
		if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = calleeOf(CB)) if (isDecode(c)) dec = CB;
	}
	if (!dec) { C.R.error("decoder-cache builder does not decode instruction words"); return false; }
	for (auto &a : dec->args()) if (a->getType()->isIntegerTy(32)) M.wordOrig = a;
	if (!M.wordOrig) { C.R.error("instruction word passed to the decoder not recognised"); return false; }
	APInt o(64, 0); auto *ent = const_cast<Value*>(S0->getPointerOperand()->stripAndAccumulateConstantOffsets(*C.DL, o, true));
	int64_t entOff = (int64_t)M.offInstr - o.getSExtValue();
	{
		AssumptionCache AC(*P); TargetLibraryInfoImpl TI; TargetLibraryInfo TL(TI); ScalarEvolution SE(*P, TL, AC, *M.DT, *M.LI);
		auto *es = SE.getSCEV(ent); auto *base = SE.getPointerBase(es); auto *off = SE.getMinusSCEV(es, base);
		off = SE.getAddExpr(off, SE.getConstant(I64, entOff - (int64_t)M.offInstr + 0, true));
		off = SE.getMinusSCEV(es, base); // byte offset of the decomposed pointer; entOff is a constant
		for (auto *B : M.stepLoop->blocks()) for (auto &I : *B) {
			if (!I.getType()->isIntegerTy(64) || isa<PHINode>(&I)) continue;
			for (auto &A : P->args()) if (A.getType()->isIntegerTy(64)) {
				auto *d = SE.getMinusSCEV(SE.getSCEV(&I), SE.getSCEV(&A));
				if (!SE.isLoopInvariant(d, M.stepLoop) && SE.getMulExpr(SE.getConstant(I64, M.size / 4), d) == off && !M.pcOrig) { M.pcOrig = &I; M.segBeginArg = &A; }
			}
		}
	}
	if (!M.pcOrig) { C.R.error("address of the instruction being decoded not recognised"); return false; }
	auto isCut = [&](BasicBlock *a, BasicBlock *b) { return b == M.stepHeader || !M.stepLoop->contains(b); };
	bool ok = true;
	auto emit = [&](IRBuilder<> &B, BasicBlock *from, BasicBlock *to, std::function<Value*(Value*)> map) {
		if (to != M.stepHeader) return;
		auto *e = map(ent), *pc = map(M.pcOrig), *w = map(M.wordOrig);
		if (!e || !pc || !w || (isa<Instruction>(ent) && !M.DT->dominates(cast<Instruction>(ent), from->getTerminator())) || !M.DT->dominates(cast<Instruction>(M.pcOrig), from->getTerminator())) { ok = false; return; }
		auto fld = [&](uint64_t off, Type *T) { return B.CreateLoad(T, B.CreateConstGEP1_64(Type::getInt8Ty(X), e, (int64_t)off + entOff)); };
		B.CreateCall(M.fnExit, {fld(M.offBytecode, I8), fld(M.offInstr, I32), fld(M.offBlock, I16), fld(M.offHandler, I8), pc, w});
	};
	// header runs the loop test; keep everything in the loop
	M.step = extractRegion(*P, M.stepHeader, "lva.step", isCut, emit);
	if (!M.step.F || !ok) { C.R.error("decoding step not recognised"); return false; }
	// the decoder itself, with its answer marked
	auto *P0 = PointerType::get(X, 0);
	auto *mk = cast<Function>(C.M->getOrInsertFunction("lva.desc", FunctionType::get(Type::getVoidTy(X), {P0}, false)).getCallee());
	mk->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); mk->setDoesNotThrow(); mk->setWillReturn(); mk->addParamAttr(0, Attribute::NoCapture); mk->addParamAttr(0, Attribute::ReadNone);
	for (bool again = true; again;) {
		again = false;
		for (auto &I : instructions(*M.step.F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = calleeOf(CB)) if (isDecode(c) && !c->isDeclaration()) {
			bool marked = false; for (auto *U : CB->users()) if (auto *u = dyn_cast<CallInst>(U)) if (u->getCalledFunction() == mk) marked = true;
			if (!marked) { Instruction *at = CB->getNextNode(); if (auto *Iv = dyn_cast<InvokeInst>(CB)) at = &*Iv->getNormalDest()->getFirstInsertionPt(); CallInst::Create(mk, {CB}, "", at); }
			InlineFunctionInfo IFI; if (InlineFunction(*CB, IFI, false, nullptr, true).isSuccess()) { again = true; break; }
		}
	}
	flatten(*M.step.F, IB); sroaOnly(*M.step.F);
	unsigned nm = 0; for (auto &I : instructions(*M.step.F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->getCalledFunction() == mk) nm++;
	if (nm != 1) { C.R.error("result of the instruction decoder not recognised"); return false; }
	return true;
}

std::vector<CallInst*> exitsOf(Function &F, CpuModel &M) {
	std::vector<CallInst*> r;
	for (auto &I : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->getCalledFunction() == M.fnExit) r.push_back(CI);
	return r;
}
// give every path on which the bytecode differs its own copy of what follows
static void splitExits(Function &F, CpuModel &M) { splitCalls(F, [&] { return exitsOf(F, M); }, {0}); }
void splitCalls(Function &F, std::function<std::vector<CallInst*>()> calls, std::vector<unsigned> args, unsigned cap) {
	for (unsigned round = 0; round < 400; round++) {
		bool ch = false;
		for (auto *CI : calls()) {
			PHINode *phi = nullptr; SelectInst *sel = nullptr;
			std::set<Value*> seen; std::vector<Value*> wl; for (auto a : args) wl.push_back(CI->getArgOperand(a));
			while (!wl.empty() && !phi && !sel) {
				auto *x = wl.back(); wl.pop_back(); if (!seen.insert(x).second || seen.size() > 60) continue;
				if (auto *Ph = dyn_cast<PHINode>(x)) { phi = Ph; break; }
				if (auto *Se = dyn_cast<SelectInst>(x)) { sel = Se; break; }
				if (auto *I = dyn_cast<Instruction>(x)) if (!isa<LoadInst>(I) && !isa<CallBase>(I)) for (auto &o : I->operands()) wl.push_back(o);
			}
			if (phi) {
				auto *J = phi->getParent();
				SetVector<BasicBlock*> T; T.insert(J);
				for (size_t i = 0; i < T.size(); i++) for (auto *n : successors(T[i])) T.insert(n);
				std::set<BasicBlock*> up(pred_begin(J), pred_end(J));
				bool simple = T.size() < cap && up.size() >= 2;
				for (auto *p : up) if (T.count(p) || isa<IndirectBrInst>(p->getTerminator())) simple = false;
				for (auto *t : T) if (t->isEHPad() ) simple = simple && t != J;
				if (!simple) continue;
				auto it = up.begin(); ++it;
				for (; it != up.end(); ++it) {
					ValueToValueMapTy VM; std::vector<BasicBlock*> nbs;
					for (auto *t : T) { auto *nb = CloneBasicBlock(t, VM, "", &F); VM[t] = nb; nbs.push_back(nb); }
					for (unsigned k = 0; k < T.size(); k++) {
						std::vector<PHINode*> ps; for (auto &Ph : nbs[k]->phis()) ps.push_back(&Ph);
						for (auto *Ph : ps) for (int q = (int)Ph->getNumIncomingValues() - 1; q >= 0; q--) {
							auto *ib = Ph->getIncomingBlock(q);
							if (T[k] == J ? ib != *it : !T.count(ib)) Ph->removeIncomingValue(q, false);
						}
					}
					for (auto *nb : nbs) for (auto &I : *nb) RemapInstruction(&I, VM, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges);
					(*it)->getTerminator()->replaceSuccessorWith(J, nbs[0]);
					for (auto &Ph : J->phis()) while (Ph.getBasicBlockIndex(*it) >= 0) Ph.removeIncomingValue(Ph.getBasicBlockIndex(*it), false);
				}
				for (auto &B : F) { std::vector<PHINode*> ps; for (auto &Ph : B.phis()) ps.push_back(&Ph); for (auto *Ph : ps) if (Ph->getNumIncomingValues() == 1 && Ph->getIncomingValue(0) != Ph) { Ph->replaceAllUsesWith(Ph->getIncomingValue(0)); Ph->eraseFromParent(); } }
				ch = true; break;
			}
			if (sel) { // two arms meeting in a phi
				Instruction *T = nullptr, *E = nullptr; SplitBlockAndInsertIfThenElse(sel->getCondition(), sel, &T, &E);
				auto *Ph = PHINode::Create(sel->getType(), 2, "arm", &*sel->getParent()->begin());
				Ph->addIncoming(sel->getTrueValue(), T->getParent()); Ph->addIncoming(sel->getFalseValue(), E->getParent());
				sel->replaceAllUsesWith(Ph); sel->eraseFromParent();
				ch = true; break;
			}
		}
		if (!ch) break;
	}
}
// keep only the ways on which v is k; everything else cannot happen
static bool pruneTo(Function &F, Value *v, const Value *k, BasicBlock *dead, unsigned depth = 0) {
	v = v->stripPointerCasts();
	if (v == k) return true;
	if (isa<Constant>(v)) return false;
	if (auto *Ph = dyn_cast<PHINode>(v); Ph && depth < 40) {
		auto *J = Ph->getParent(); bool any = false;
		std::vector<std::pair<BasicBlock*, Value*>> in; std::set<BasicBlock*> seen;
		for (unsigned q = 0; q < Ph->getNumIncomingValues(); q++) if (seen.insert(Ph->getIncomingBlock(q)).second) in.push_back({Ph->getIncomingBlock(q), Ph->getIncomingValue(q)});
		std::vector<BasicBlock*> drop;
		for (auto &p : in) { if (pruneTo(F, p.second, k, dead, depth + 1)) any = true; else drop.push_back(p.first); }
		if (any) for (auto *p : drop) { p->getTerminator()->replaceSuccessorWith(J, dead); for (auto &q : J->phis()) while (q.getBasicBlockIndex(p) >= 0) q.removeIncomingValue(q.getBasicBlockIndex(p), false); }
		return any;
	}
	if (auto *S = dyn_cast<SelectInst>(v); S && depth < 40) { // nothing to cut, but perhaps nothing to keep either
		auto can = [&](Value *x, auto &&self, unsigned d) -> bool { x = x->stripPointerCasts(); if (x == k) return true; if (isa<Constant>(x)) return false;
			if (auto *T = dyn_cast<SelectInst>(x); T && d < 20) return self(T->getTrueValue(), self, d + 1) || self(T->getFalseValue(), self, d + 1); return true; };
		return can(S, can, 0);
	}
	return true; // not resolved: keep
}
// what the surviving decode path says about the instruction word must outlive
// the removal of the other paths: state it as assumptions
static void keepDecodeFacts(Ctx &C, Function &F, BasicBlock *mark, bool word) {
	std::set<BasicBlock*> live{mark}; std::vector<BasicBlock*> wl{mark};
	while (!wl.empty()) { auto *b = wl.back(); wl.pop_back(); for (auto *p : predecessors(b)) if (live.insert(p).second) wl.push_back(p); }
	std::vector<BasicBlock*> bs; for (auto &B : F) if (live.count(&B) && &B != mark) bs.push_back(&B);
	for (auto *B : bs) {
		auto *T = B->getTerminator();
		Value *fact = nullptr;
		IRBuilder<> Bd(T);
		if (auto *Br = dyn_cast<BranchInst>(T); Br && Br->isConditional()) {
			bool l0 = live.count(Br->getSuccessor(0)), l1 = live.count(Br->getSuccessor(1));
			if (l0 == l1) continue;
			fact = l0 ? Br->getCondition() : Bd.CreateNot(Br->getCondition());
		} else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
			bool allLive = true, defLive = live.count(Sw->getDefaultDest());
			for (auto &c : Sw->cases()) if (!live.count(c.getCaseSuccessor())) allLive = false;
			if (allLive && defLive) continue;
			if (defLive) { for (auto &c : Sw->cases()) if (!live.count(c.getCaseSuccessor())) { auto *n = Bd.CreateICmpNE(Sw->getCondition(), c.getCaseValue()); fact = fact ? Bd.CreateAnd(fact, n) : n; } }
			else {
				unsigned n = 0; for (auto &c : Sw->cases()) if (live.count(c.getCaseSuccessor())) n++;
				if (n > 8) continue;
				for (auto &c : Sw->cases()) if (live.count(c.getCaseSuccessor())) { auto *q = Bd.CreateICmpEQ(Sw->getCondition(), c.getCaseValue()); fact = fact ? Bd.CreateOr(fact, q) : q; }
			}
		}
		if (!fact || isa<Constant>(fact)) continue;
		Bd.CreateAssumption(fact);
		// simplification uses an assumption up when it has replaced what it is about
		Value *x; ConstantInt *k; const APInt *s; ICmpInst::Predicate p;
		if (word && PatternMatch::match(fact, PatternMatch::m_ICmp(p, PatternMatch::m_LShr(PatternMatch::m_Value(x), PatternMatch::m_APInt(s)), PatternMatch::m_ConstantInt(k))) && p == CmpInst::ICMP_EQ && x->getType()->isIntegerTy(32)) {
			auto *I32 = Type::getInt32Ty(C.llctx);
			Bd.CreateCall(C.M->getOrInsertFunction("lva.word", FunctionType::get(Type::getVoidTy(C.llctx), {I32, I32, I32}, false)), {x, ConstantInt::get(I32, s->getZExtValue()), k});
		}
	}
}
// the value of the entry's bytecode that is no constant, when the word does not determine it (it depends on the place of the handler)
static Value *openBytecode(Ctx &C, Function &F) {
	for (auto *B : breadthFirst(F)) for (auto &I : *B) if (auto *S = dyn_cast<StoreInst>(&I)) if (isKey(S->getPointerOperand(), "DecoderData::bytecode", *C.DL) && !isa<Constant>(S->getValueOperand())) {
		std::set<Value*> seen, leaves; std::vector<Value*> wl{S->getValueOperand()};
		while (!wl.empty()) {
			auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second || isa<Constant>(v)) continue;
			if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &u : Ph->incoming_values()) wl.push_back(u); continue; }
			if (auto *Se = dyn_cast<SelectInst>(v)) { wl.push_back(Se->getTrueValue()); wl.push_back(Se->getFalseValue()); continue; }
			leaves.insert(v);
		}
		if (leaves.size() == 1) return *leaves.begin();
		if (!leaves.empty()) return S->getValueOperand();
	}
	return nullptr;
}
CallBase *handlerCall(Function &F);
Function *stepFor(Ctx &C, CpuModel &M, int64_t id, int force, bool *open) {
	ValueToValueMapTy VM; auto *F = CloneFunction(M.step.F, VM);
	F->setName("lva.step." + std::to_string(id));
	F->setSubprogram(M.step.F->getSubprogram());
	CallInst *mk = nullptr;
	for (auto &I : instructions(*F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->getCalledFunction() && CI->getCalledFunction()->getName() == "lva.desc") mk = CI;
	auto *dead = BasicBlock::Create(C.llctx, "dead", F); new UnreachableInst(C.llctx, dead);
	auto *G = M.descOf[id]; Value *dv = mk->getArgOperand(0);
	bool reach = pruneTo(*F, dv, G, dead);
	if (!reach) { F->eraseFromParent(); return nullptr; } // never decoded
	keepDecodeFacts(C, *F, mk->getParent(), M.wordFacts);
	if (auto *Ph = dyn_cast<PHINode>(dv)) Ph->replaceAllUsesWith(G);
	mk->eraseFromParent();
	resetDbgTypes(F);
	optimizeRegion(*F, force < 0);
	if (auto *v = openBytecode(C, *F)) {
		if (force >= 0) { v->replaceAllUsesWith(ConstantInt::get(v->getType(), force)); optimizeRegion(*F); }
		else if (open) { *open = true; return F; }
		else { // one of the codes that look the handler up (which is what the caller then checks)
			std::set<uint64_t> generic; for (auto &D : M.disp) for (auto &r : D->regions) if (r.X.F && handlerCall(*r.X.F)) generic.insert(r.bytecode);
			for (auto *u : std::vector<User*>(v->user_begin(), v->user_end())) {
				if (auto *Sw = dyn_cast<SwitchInst>(u)) { for (auto it = Sw->case_begin(); it != Sw->case_end();) if (generic.count(it->getCaseValue()->getZExtValue())) ++it; else { for (auto &Ph : it->getCaseSuccessor()->phis()) Ph.removeIncomingValue(Sw->getParent(), false); it = Sw->removeCase(it); } }
				else if (auto *Ic = dyn_cast<ICmpInst>(u)) if (auto *k = dyn_cast<ConstantInt>(Ic->getOperand(1)); k && Ic->isEquality() && !generic.count(k->getZExtValue())) { Ic->replaceAllUsesWith(ConstantInt::getBool(Ic->getType(), Ic->getPredicate() == CmpInst::ICMP_NE)); Ic->eraseFromParent(); }
			}
			optimizeRegion(*F);
		}
	}
	splitExits(*F, M); optimizeRegion(*F); splitExits(*F, M);
	if (M.stepHook) { M.stepHook(*F); optimizeRegion(*F); }
	return F;
}
std::vector<Composed> compose(Ctx &C, CpuModel &M, Dispatch &D, int64_t id, int force, Function *own) {
	std::vector<Composed> out;
	bool undetermined = false;
	auto *F0 = stepFor(C, M, id, force, &undetermined);
	if (!F0) return out;
	if (undetermined) { F0->eraseFromParent(); out.push_back({nullptr, -1, id, &D}); return out; }
	LLVMContext &X = C.llctx;
	std::set<int> codes; bool open = false;
	for (auto *e : exitsOf(*F0, M)) { auto *c = dyn_cast<ConstantInt>(e->getArgOperand(0)); if (c) codes.insert((int)c->getZExtValue()); else open = true; }
	for (int bc : codes) {
		// new function: the step's arguments plus the machine state
		std::vector<Type*> ts; for (auto &a : F0->args()) ts.push_back(a.getType());
		auto *P0 = PointerType::get(X, 0); unsigned n0 = ts.size();
		ts.push_back(P0); ts.push_back(P0);
		auto *F = Function::Create(FunctionType::get(Type::getVoidTy(X), ts, false), GlobalValue::InternalLinkage, "lva.comp." + std::to_string(id) + "." + std::to_string(bc), C.M.get());
		ValueToValueMapTy VM; for (unsigned k = 0; k < n0; k++) { F->getArg(k)->setName(F0->getArg(k)->getName()); VM[F0->getArg(k)] = F->getArg(k); }
		SmallVector<ReturnInst*, 8> rets; CloneFunctionInto(F, F0, VM, CloneFunctionChangeType::LocalChangesOnly, rets);
		F->setSubprogram(F0->getSubprogram());
		auto *cpu = F->getArg(n0), *ent = F->getArg(n0 + 1); cpu->setName("cpu"); ent->setName("entry"); ent->addAttr(Attribute::NoAlias);
		std::vector<CallBase*> calls;
		if (own) { // the instruction's handler instead, with the address of the instruction in the program counter
			std::set<const Function*> stays; for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) stays.insert(calleeOf(CB));
			uint64_t pcOff = FM->memberByName("loongarch::CPU", "m_regs")->off + FM->memberByName("loongarch::Registers", "pc")->off;
			auto *done = cast<Function>(C.M->getOrInsertFunction("lva.done", FunctionType::get(Type::getVoidTy(X), {Type::getInt64Ty(X)}, false)).getCallee());
			for (auto *e : exitsOf(*F, M)) {
				auto *c = dyn_cast<ConstantInt>(e->getArgOperand(0)); if (!c || (int)c->getZExtValue() != bc) continue;
				IRBuilder<> B(e);
				auto *mf = cast<Function>(C.M->getOrInsertFunction("lva.at", FunctionType::get(Type::getVoidTy(X), {Type::getInt64Ty(X), Type::getInt16Ty(X), Type::getInt32Ty(X), Type::getInt32Ty(X)}, false)).getCallee());
				mf->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); mf->setDoesNotThrow(); mf->setWillReturn();
				B.CreateCall(mf, {e->getArgOperand(4), e->getArgOperand(2), e->getArgOperand(5), e->getArgOperand(1)});
				B.CreateStore(e->getArgOperand(4), B.CreateConstGEP1_64(Type::getInt8Ty(X), cpu, pcOff));
				auto *ci = B.CreateCall(own, {cpu, e->getArgOperand(5)}); ci->setDebugLoc(e->getDebugLoc()); calls.push_back(ci);
				B.CreateCall(done, {e->getArgOperand(4)});
			}
			std::vector<CallInst*> ex = exitsOf(*F, M); for (auto *e : ex) e->eraseFromParent();
			InlinePolicy IP; IP.want = [&](const Function *f) { return defaultInlineWant(f) && !stays.count(f); };
			for (auto &I : llvm::make_early_inc_range(instructions(*F))) if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeOf(CB) == own) { InlineFunctionInfo Q; InlineFunction(*CB, Q, false, nullptr, true); break; }
			flatten(*F, IP); simplifyFunction(*F); optimizeRegion(*F);
			out.push_back({F, bc, id, &D}); continue;
		}
		if (bc >= (int)D.regions.size()) { F->eraseFromParent(); out.push_back({nullptr, bc, id, &D}); continue; }
		Region &r = D.regions[bc];
		for (auto *e : exitsOf(*F, M)) {
			auto *c = dyn_cast<ConstantInt>(e->getArgOperand(0));
			if (!c || (int)c->getZExtValue() != bc) { // another path: not part of this composition
				continue;
			}
			IRBuilder<> B(e);
			{ auto *mf = cast<Function>(C.M->getOrInsertFunction("lva.at", FunctionType::get(Type::getVoidTy(X), {Type::getInt64Ty(X), Type::getInt16Ty(X), Type::getInt32Ty(X), Type::getInt32Ty(X)}, false)).getCallee());
			  mf->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); mf->setDoesNotThrow(); mf->setWillReturn();
			  B.CreateCall(mf, {e->getArgOperand(4), e->getArgOperand(2), e->getArgOperand(5), e->getArgOperand(1)}); }
			auto st = [&](uint64_t off, Value *v) { B.CreateStore(v, B.CreateConstGEP1_64(Type::getInt8Ty(X), ent, off)); };
			st(M.offBytecode, e->getArgOperand(0)); st(M.offHandler, e->getArgOperand(3)); st(M.offBlock, e->getArgOperand(2)); st(M.offInstr, e->getArgOperand(1));
			std::vector<Value*> as;
			for (auto &l : r.X.in) {
				if (l.arg == r.self) as.push_back(cpu); else if (l.arg == r.decoder) as.push_back(ent);
				else if (l.arg == r.pc) as.push_back(B.CreateAdd(e->getArgOperand(4), B.CreateZExt(e->getArgOperand(2), Type::getInt64Ty(X)), "pc.blockend"));
				else {
					std::string nm = "lva.in." + std::string(l.arg == r.counter ? "counter" : l.arg == r.max ? "max" : l.arg->getName().str());
					auto fn = C.M->getOrInsertFunction(nm + "." + std::to_string(l.arg->getType()->getTypeID()) + "." + std::to_string(l.arg->getType()->isIntegerTy() ? l.arg->getType()->getIntegerBitWidth() : 0), FunctionType::get(l.arg->getType(), false));
					if (auto *G = dyn_cast<Function>(fn.getCallee())) { G->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); G->setDoesNotThrow(); G->setWillReturn(); }
					as.push_back(B.CreateCall(fn));
				}
			}
			auto *ci = B.CreateCall(r.X.F, as); ci->setDebugLoc(e->getDebugLoc());
			calls.push_back(ci);
		}
		std::vector<CallInst*> ex = exitsOf(*F, M); for (auto *e : ex) e->eraseFromParent();
		for (auto *cb : calls) { InlineFunctionInfo I; InlineFunction(*cb, I, false, nullptr, true); }
		optimizeRegion(*F);
		out.push_back({F, bc, id, &D});
	}
	if (open) out.push_back({nullptr, -1, id, &D});
	F0->eraseFromParent();
	return out;
}

// debugging aid
void runRegionsDump(Ctx &C) {
	auto R = findRoots(C); simplifyModuleLight(*C.M);
	CpuModel M;
	if (!buildCpuModel(C, R, M)) return;
	errs() << "dispatch " << M.disp.size() << " regions " << M.disp[0]->regions.size() << " tails " << M.disp[0]->tails.size() << " ids " << M.ids.size() << "\n";
	std::string want = C.opts["id"];
	if (C.opts.count("reg")) { for (auto &r : M.disp[0]->regions) if (std::to_string(r.bytecode) == C.opts["reg"]) r.X.F->print(errs()); return; }
	if (C.opts.count("tails")) { for (auto &t : M.disp[C.opts.count("d") ? 1 : 0]->tailRegions) { errs() << "TAIL " << t.id << "\n"; optimizeRegion(*t.X.F); t.X.F->print(errs()); } return; }
	for (auto &p : M.ids) {
		if (!want.empty() && p.second != want) continue;
		auto *F = stepFor(C, M, p.first, C.opts.count("force") ? std::stoi(C.opts["force"]) : -1);
		errs() << p.second << ":"; if (!F) { errs() << " never decoded\n"; continue; }
		for (auto *e : exitsOf(*F, M)) { errs() << " "; e->getArgOperand(0)->printAsOperand(errs(), false); }
		errs() << "\n";
		if (!want.empty()) { F->print(errs()); for (auto &c : compose(C, M, *M.disp[C.opts.count("d") ? 1 : 0], p.first)) if (c.F) c.F->print(errs()); }
		F->eraseFromParent();
	}
}
}
