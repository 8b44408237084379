// The decoder cache of an execute segment: what is built for which address.
//   entries  - the table of a segment covers it, word by word, and ends in an invalid entry
//   blocks   - each entry records the bytes left to the end of its straight-line block
//   segment  - the segment's limits are those of the words it was built from
//   load     - those words are the ones the loader placed at that guest address
#include "regions.hpp"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/DomConditionCache.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
namespace lva {
void setupMemProver(Prover &P);
static std::string F_(const char *k) { return std::string("loongarch::") + k; }
// is there a path from a to b that does not cross an avoided instruction
static bool pathAvoiding(const Instruction *a, const Instruction *b, const std::function<bool(const Instruction*)> &avoid) {
	std::set<const BasicBlock*> seen; std::vector<const Instruction*> wl{a};
	while (!wl.empty()) { auto *I = wl.back(); wl.pop_back(); bool cut = false;
		for (; I; I = I->getNextNode()) { if (I == b) return true; if (avoid(I)) { cut = true; break; } if (I->isTerminator()) { for (unsigned k = 0; k < I->getNumSuccessors(); k++) if (seen.insert(I->getSuccessor(k)).second) wl.push_back(&I->getSuccessor(k)->front()); } }
		(void)cut; }
	return false;
}
static const Value *noCast(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) { if (!c->getType()->isIntegerTy()) break; v = c->getOperand(0); } return v; }
struct Ob { Ctx &C; const Function *F; std::string part;
	void operator()(bool ok, const char *rule, const std::string &site, const Instruction *I, const std::string &what) {
		C.R.count("obligations"); C.R.count("obligations_" + part); auto L = projLocOf(I);
		if (ok) { C.R.count("discharged"); C.R.sample(part + ": " + what + " at " + L.file + ":" + std::to_string(L.line), 60); }
		else C.R.violation(rule, site, qualName(F), L.file, L.line, "not established: " + what + "; path " + inlineChain(I)); } };

static void builderPart(Ctx &C, CpuModel &M, bool entries, bool blocks) {
	Function *B = M.builder; auto &DL = *C.DL; auto *I64 = Type::getInt64Ty(C.llctx);
	Prover P(*B, C); auto &SE = *P.SE; auto &LI = *P.LI; auto &DT = *P.DT; Ob ob{C, B, "entries"};
	auto key = [&](const Value *p) { return fieldKey(p, DL); };
	// what is published in the segment
	std::vector<StoreInst*> pubPtr, pubLen; std::vector<Instruction*> rets;
	for (auto &I : instructions(*B)) { if (isa<ReturnInst>(I)) rets.push_back(&I); if (auto *S = dyn_cast<StoreInst>(&I)) { if (key(S->getPointerOperand()) == F_("DecoderCache::cache")) pubPtr.push_back(S); else if (key(S->getPointerOperand()) == F_("DecoderCache::size")) pubLen.push_back(S); } }
	if (pubPtr.empty() || pubPtr.size() != pubLen.size()) { C.R.error("the builder does not publish one table with one size"); return; }
	// the words
	auto *WL = dyn_cast<LoadInst>(const_cast<Value*>(noCast(M.wordOrig))); if (!WL) { C.R.error("the instruction word is not loaded from memory"); return; }
	auto *L = LI.getLoopFor(WL->getParent()); if (!L) { C.R.error("no loop reads the instruction words"); return; }
	auto *ws = SE.getSCEV(WL->getPointerOperand()); auto *code = dyn_cast<SCEVUnknown>(SE.getPointerBase(ws)); auto *codeArg = code ? dyn_cast<Argument>(code->getValue()) : nullptr;
	if (!codeArg) { C.R.error("the instruction words are not read from the builder's argument"); return; }
	auto *wo = SE.getMinusSCEV(ws, SE.getSCEV(codeArg));
	auto cst = [&](int64_t k) { return SE.getConstant(I64, (uint64_t)k, true); };
	auto same = [&](const SCEV *a, const SCEV *b) { return !isa<SCEVCouldNotCompute>(a) && !isa<SCEVCouldNotCompute>(b) && SE.getMinusSCEV(a, b)->isZero(); };
	int64_t inval = 0; { auto e = FM->enums.find("loongarch::ThreadedBytecodes"); if (e != FM->enums.end()) for (auto &x : e->second) if (StringRef(x.first).ends_with("BC_INVALID")) inval = x.second; }
	unsigned tables = 0;
	for (size_t k = 0; k < pubPtr.size(); k++) {
		auto *Sp = pubPtr[k], *Sl = pubLen[k]; if (Sp->getParent() != Sl->getParent()) { C.R.error("table and size are published at different places"); return; }
		auto *last = Sp->comesBefore(Sl) ? Sl : Sp; auto *nv = Sl->getValueOperand(); Lin N = P.val(nv);
		// the length the table covers: an argument of the builder
		bool cov = false; std::string lenName; Argument *lenArg = nullptr; for (auto &A : B->args()) if (A.getType()->isIntegerTy(64) && &A != M.segBeginArg) { Lin n4; n4.add(N, 4); Lin len = P.val(&A); if (P.proveLE(n4, len, last) && P.proveLE(len, n4.plus(Lin::cst(3)), last)) { cov = true; lenArg = &A; } }
		(void)lenArg;
		if (entries) ob(cov, "segment-entries", "number of entries", last, "the published table has one entry for every whole word of the segment");
		auto *tv = Sp->getValueOperand()->stripPointerCasts();
		if (isa<ConstantPointerNull>(tv)) { if (entries) ob(P.proveLE(N, Lin::cst(0), last), "segment-entries", "no table", last, "a segment without a table has no entries"); continue; }
		auto *AC = dyn_cast<CallBase>(tv); auto *af = AC ? calleeOf(AC) : nullptr;
		if (!af || !(af->getName().starts_with("_Znam") || af->getName().starts_with("_Znwm"))) { C.R.error("the published table is not one allocation"); return; }
		tables++;
		Lin need; need.add(N, (i128)M.size); need.k += (i128)M.size; Lin bytes = P.val(AC->getArgOperand(0)); P.globalFacts.push_back(bytes.plus(Lin::cst(-(((i128)1 << 63) - 1)))); // a larger request throws
		if (entries) ob(P.proveLE(need, bytes, last), "segment-entries", "allocation", AC, "the table has room for every entry and the final one");
		// every use of the table inside it; the stores into its entries
		struct Put { Instruction *I; const SCEV *off; uint64_t size; const Value *val; }; std::vector<Put> puts;
		std::set<Value*> seen; std::vector<Value*> wl{AC};
		while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
			for (auto *U : v->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) continue; bool acc = false; Lin sz; const Value *ptr = nullptr;
				if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == v) { acc = true; ptr = v; uint64_t n = DL.getTypeStoreSize(S->getValueOperand()->getType()); sz = Lin::cst(n); puts.push_back({S, SE.getMinusSCEV(SE.getSCEV(v), SE.getSCEV(AC)), n, S->getValueOperand()}); } }
				else if (auto *Ld = dyn_cast<LoadInst>(I)) { acc = true; ptr = v; sz = Lin::cst(DL.getTypeStoreSize(Ld->getType())); }
				else if (auto *MS = dyn_cast<MemSetInst>(I)) { acc = true; ptr = v; sz = P.val(MS->getLength()); }
				else if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<BitCastInst>(I)) wl.push_back(I);
				if (acc && entries) ob(proveInObject(ptr, sz, bytes, [&](const Value *b) { return b == AC; }, I, P), "segment-entries", "access to the table", I, "the builder accesses the table inside its allocation"); } }
		auto fieldOff = [&](const SCEV *d) -> int64_t { auto *c = dyn_cast<SCEVConstant>(d); return c ? c->getAPInt().getSExtValue() : -1; };
		std::vector<std::pair<uint64_t, const char*>> flds{{M.offBytecode, "bytecode"}, {M.offInstr, "instr"}, {M.offHandler, "handler_idx"}, {M.offBlock, "block_bytes"}};
		// the loop over the words
		auto *ind = dyn_cast<SCEVAddRecExpr>(wo); BasicBlock *latch = L->getLoopLatch();
		if (entries) {
			bool all = false; const SCEV *done = nullptr; BasicBlock *ex = nullptr;
			if (ind && ind->getLoop() == L && ind->isAffine() && latch) for (auto *E : SmallVector<BasicBlock*, 4>([&] { SmallVector<BasicBlock*, 4> v; L->getExitingBlocks(v); return v; }())) {
				auto *cnt = SE.getExitCount(L, E); if (isa<SCEVCouldNotCompute>(cnt) || !DT.dominates(E, latch)) continue; // iterations completed before this exit is taken
				cnt = SE.getTruncateOrZeroExtend(cnt, I64);
				// words read: one more when the exit test follows the read
				if (DT.dominates(WL->getParent(), E) && (WL->getParent() != E || true)) { if (WL->getParent() == E || DT.dominates(WL, E->getTerminator())) cnt = SE.getAddExpr(cnt, cst(1)); }
				auto *n = SE.getSCEV(nv), *n4 = SE.getMulExpr(n, cst(4)); auto *st = ind->getStart(), *step = ind->getStepRecurrence(SE); int64_t sk = fieldOff(step);
				if (same(cnt, n) && ((sk == 4 && st->isZero()) || (sk == -4 && same(st, SE.getMinusSCEV(n4, cst(4)))))) { all = true; done = cnt; ex = E; }
			}
			(void)done;
			ob(all, "segment-entries", "loop", WL, "the loop visits every word of the segment exactly once");
			if (all) { // other ways out of the loop do not lead to a published table that is incomplete
				bool leak = false; auto *et = ex->getTerminator(); bool sn = pathAvoiding(&B->getEntryBlock().front(), last, [&](const Instruction *I) { return I == et; });
				for (auto *r : rets) { bool rn = pathAvoiding(last, r, [&](const Instruction *I) { return I == et; }); if (sn && rn) leak = true; }
				ob(!leak, "segment-entries", "complete", last, "a table is published only together with the loop that fills it");
			}
			ob(same(SE.getMinusSCEV(SE.getSCEV(M.pcOrig), SE.getSCEV(M.segBeginArg)), wo), "segment-entries", "address", WL, "the address given to the decoding of a word is the segment's begin plus the word's offset");
			for (auto &f : flds) {
				std::set<const Instruction*> here; bool wrong = false; const Instruction *w = nullptr;
				for (auto &p : puts) if (L->contains(p.I)) { int64_t d = fieldOff(SE.getMinusSCEV(p.off, SE.getMulExpr(wo, cst((int64_t)M.size / 4)))); if (d == (int64_t)f.first) here.insert(p.I); }
				bool miss = here.empty() || !latch || pathAvoiding(&L->getHeader()->front(), latch->getTerminator(), [&](const Instruction *I) { return here.count(I) || (I->isTerminator() && !L->contains(I)); });
				(void)wrong; ob(!miss, "segment-entries", std::string("field ") + f.second, here.empty() ? WL : *here.begin(), std::string("every word's iteration stores ") + f.second + " of the entry at the word's index");
				(void)w;
			}
			for (auto &p : puts) if (L->contains(p.I)) { int64_t d = fieldOff(SE.getMinusSCEV(p.off, SE.getMulExpr(wo, cst((int64_t)M.size / 4)))); ob(d >= 0 && d + p.size <= M.size, "segment-entries", "entry stored", p.I, "an iteration stores only into the entry of its word"); }
			// the final entry
			auto *n = SE.getSCEV(nv), *fin = SE.getMulExpr(n, cst((int64_t)M.size));
			for (auto &f : {flds[0], flds[3], flds[1]}) {
				std::set<const Instruction*> here; int64_t want = f.first == M.offBytecode ? inval : 0;
				for (auto &p : puts) if (!L->contains(p.I)) { int64_t d = fieldOff(SE.getMinusSCEV(p.off, fin)); auto *cv = dyn_cast<ConstantInt>(p.val); if (d >= 0 && cv && d <= (int64_t)f.first && f.first < d + p.size) { unsigned sh = (f.first - d) * 8, w = f.first == M.offBytecode ? 8 : f.first == M.offBlock ? 16 : 32; if (cv->getValue().zextOrTrunc(64).lshr(sh).trunc(w).getZExtValue() == (uint64_t)want) here.insert(p.I); } }
				if (want == 0) for (auto &I : instructions(*B)) if (auto *MS = dyn_cast<MemSetInst>(&I)) if (auto *z = dyn_cast<ConstantInt>(MS->getValue()); z && z->isZero()) { auto *o = SE.getMinusSCEV(SE.getSCEV(MS->getDest()), SE.getSCEV(AC)); if (!isa<SCEVCouldNotCompute>(o) && o->isZero() && P.proveLE(need, P.val(MS->getLength()), MS)) here.insert(MS); }
				bool miss = here.empty(); auto av = [&](const Instruction *I) { return here.count(I) > 0; };
				if (!miss && pathAvoiding(&B->getEntryBlock().front(), last, av)) for (auto *r : rets) if (pathAvoiding(last, r, av)) miss = true;
				ob(!miss, "segment-entries", std::string("final entry ") + f.second, here.empty() ? (const Instruction*)last : *here.begin(), std::string("the table ends in an invalid entry: ") + f.second);
			}
			for (auto &p : puts) if (!L->contains(p.I)) { int64_t d = fieldOff(SE.getMinusSCEV(p.off, fin)); auto *cv = dyn_cast<ConstantInt>(p.val); bool z = cv && cv->isZero(); if (inval == 0 || d != (int64_t)M.offBytecode) ob(d >= 0 && d + p.size <= M.size && z, "segment-entries", "final entry stored", p.I, "outside the loop only the final, invalid entry is stored"); }
		}
		if (blocks) {
			ob.part = "blocks";
			// a value carried around the loop, or the neighbour's entry, plus four - or zero
			std::vector<Put> bs; for (auto &p : puts) { auto *BL = LI.getLoopFor(p.I->getParent()); if (!BL) continue; bool blk = key(cast<StoreInst>(p.I)->getPointerOperand()) == F_("DecoderData::block_bytes"); if (blk) bs.push_back(p); }
			if (bs.empty()) { C.R.error("no loop stores block lengths"); return; }
			bool down = ind && fieldOff(ind->getStepRecurrence(SE)) == -4; auto *any = bs[0].I; auto *BL = LI.getLoopFor(any->getParent()); BasicBlock *lt = BL->getLoopLatch(), *pre = BL->getLoopPredecessor();
			ob(down && lt && pre && BL == L, "block-length", "order", any, "block lengths are computed from the end of the segment towards its begin");
			if (!lt || !pre) continue;
			// the accumulator: a header phi whose every value stored or carried is 0 or itself plus four
			for (auto &ph : BL->getHeader()->phis()) {
				if (!ph.getType()->isIntegerTy()) continue; bool used = false;
				std::function<bool(const Value*, unsigned)> from = [&](const Value *v, unsigned d) -> bool { v = noCast(v); if (v == &ph) return true; if (d > 6) return false; if (auto *bo = dyn_cast<BinaryOperator>(v)) return from(bo->getOperand(0), d + 1) || from(bo->getOperand(1), d + 1); if (auto *q = dyn_cast<PHINode>(v)) { if (q->getParent() == BL->getHeader()) return false; for (auto &x : q->incoming_values()) if (from(x, d + 1)) return true; } if (auto *s = dyn_cast<SelectInst>(v)) return from(s->getTrueValue(), d + 1) || from(s->getFalseValue(), d + 1); return false; };
				for (auto &b : bs) if (from(b.val, 0)) used = true;
				if (!used) continue;
				auto *z = dyn_cast<ConstantInt>(ph.getIncomingValueForBlock(pre)); ob(z && z->isZero(), "block-length", "start", any, "the run behind the last word is empty");
				auto *X = ph.getIncomingValueForBlock(lt);
				// every way to the latch: (block, value carried on)
				struct Way { const BasicBlock *at, *from; const Value *v; }; std::vector<Way> ways; std::set<const Value*> sv;
				std::function<void(const Value*, const BasicBlock*, const BasicBlock*)> walk = [&](const Value *v, const BasicBlock *at, const BasicBlock *fr) { auto *c = noCast(v); if (auto *q = dyn_cast<PHINode>(c); q && q != &ph && BL->contains(q) && sv.insert(q).second) { for (unsigned i = 0; i < q->getNumIncomingValues(); i++) walk(q->getIncomingValue(i), q->getParent(), q->getIncomingBlock(i)); return; } if (auto *s = dyn_cast<SelectInst>(c)) { walk(s->getTrueValue(), at, fr); walk(s->getFalseValue(), at, fr); return; } ways.push_back({at, fr, c}); };
				walk(X, nullptr, lt);
				auto good = [&](const Value *v) { if (auto *c = dyn_cast<ConstantInt>(v)) return c->isZero(); auto *bo = dyn_cast<BinaryOperator>(v); if (!bo || bo->getOpcode() != Instruction::Add) return false; auto *c = dyn_cast<ConstantInt>(bo->getOperand(1)); return c && c->getValue() == 4 && noCast(bo->getOperand(0)) == &ph; };
				for (auto &w : ways) { auto *wi = dyn_cast<Instruction>(w.v); ob(good(w.v), "block-length", "carried", wi ? wi : any, "the run carried to the word before is empty or four bytes longer"); }
				// what is stored is what is carried on
				auto sameVal = [&](const Value *a, const Value *b) { a = noCast(a); b = noCast(b); if (a == b) return true; auto *ca = dyn_cast<ConstantInt>(a), *cb = dyn_cast<ConstantInt>(b); if (ca && cb) return ca->getZExtValue() == cb->getZExtValue(); auto *ba = dyn_cast<BinaryOperator>(a), *bb = dyn_cast<BinaryOperator>(b); if (ba && bb && ba->getOpcode() == bb->getOpcode() && ba->getOpcode() == Instruction::Add) return noCast(ba->getOperand(0)) == noCast(bb->getOperand(0)) && noCast(ba->getOperand(1)) == noCast(bb->getOperand(1)); return false; };
				for (auto &b : bs) {
					if (sameVal(b.val, X)) { ob(true, "block-length", "stored", b.I, "an entry records the run that is carried on"); continue; }
					// a merged value whose ways agree with the accumulator's, or a store on one way only
					bool ok = true; auto *q = dyn_cast<PHINode>(noCast(b.val)), *xq = dyn_cast<PHINode>(noCast(X)); auto *bsel = dyn_cast<SelectInst>(noCast(b.val)), *xsel = dyn_cast<SelectInst>(noCast(X));
					if (q && xq && q != &ph && q->getParent() == xq->getParent()) { for (unsigned i = 0; i < q->getNumIncomingValues(); i++) if (!sameVal(q->getIncomingValue(i), xq->getIncomingValueForBlock(q->getIncomingBlock(i)))) ok = false; }
					else if (bsel && xsel && bsel->getCondition() == xsel->getCondition()) ok = sameVal(bsel->getTrueValue(), xsel->getTrueValue()) && sameVal(bsel->getFalseValue(), xsel->getFalseValue());
					else { std::set<const Instruction*> others; for (auto &o : bs) if (o.I != b.I) others.insert(o.I);
						bool reached = false; for (auto &w : ways) { // does the stored value survive to this way
							auto *t = w.from->getTerminator(); auto outOf = [&](const Instruction *I) { return others.count(I) || (I->isTerminator() && (!BL->contains(I->getParent()) || I == lt->getTerminator())); };
							bool r = b.I->getParent() == w.from || pathAvoiding(b.I->getNextNode(), t, [&](const Instruction *I) { return I != t && outOf(I); });
							if (r) { reached = true; if (!sameVal(b.val, w.v)) ok = false; } }
						ok = ok && reached; }
					ob(ok, "block-length", "stored", b.I, "an entry records the run that is carried on"); }
				// in the width of the entry's field
				std::set<const Value*> adds; std::function<void(const Value*, unsigned)> col = [&](const Value *v, unsigned d) { v = noCast(v); if (d > 6) return; if (isa<BinaryOperator>(v)) adds.insert(v); else if (auto *q = dyn_cast<PHINode>(v)) { if (q != &ph) for (auto &x : q->incoming_values()) col(x, d + 1); } else if (auto *s = dyn_cast<SelectInst>(v)) { col(s->getTrueValue(), d + 1); col(s->getFalseValue(), d + 1); } };
				for (auto &b : bs) { adds.clear(); col(b.val, 0); for (auto *a : adds) { uint64_t mx = (1ull << 8 * b.size) - 1; bool fits = P.proveLE(P.val(a), Lin::cst(mx), b.I); C.R.count("obligations"); C.R.count("obligations_blocks"); auto Lc = projLocOf(b.I); if (fits) C.R.count("discharged"); else C.R.violation("block-length", "width", "decoder entries", Lc.file, Lc.line, "not established: the run fits the entry's field; path " + inlineChain(b.I)); } }
			}
			ob.part = "entries";
		}
	}
	if (!tables) C.R.error("the builder publishes no table");
}

static bool aligned4(const Value *v, const Instruction *at, DominatorTree &DT, AssumptionCache &AC, const DataLayout &DL) {
	DomConditionCache DC; for (auto &B : *const_cast<Function*>(at->getFunction())) if (auto *BI = dyn_cast<BranchInst>(B.getTerminator())) if (BI->isConditional()) DC.registerBranch(BI);
	SimplifyQuery Q(DL, nullptr, &DT, &AC, at); Q.DC = &DC;
	return computeKnownBits(v, 0, Q).countMinTrailingZeros() >= 2;
}

void runBuilder(Ctx &C) {
	std::string what = C.opts.count("check") ? C.opts["check"] : "all"; auto want = [&](const char *k) { return what == "all" || what == k; };
	auto R = findRoots(C);
	if (R.dispatch.size() < 2 || R.handlers.size() < 200) { C.R.error("guest entry points not recognised"); return; }
	simplifyModuleLight(*C.M);
	CpuModel M; if (!buildCpuModel(C, R, M)) return;
	if (C.opts.count("dump")) M.builder->print(errs());
	builderPart(C, M, want("entries"), want("blocks"));
	if (!want("segment") && !want("load")) return;
	auto &DL = *C.DL;
	// name the stores into a segment's members where the type is still known
	const char *SEG = "loongarch::DecodedExecuteSegment";
	for (auto &F : *C.M) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) {
		std::string k = fieldKey(S->getPointerOperand(), DL);
		if (!StringRef(k).starts_with("loongarch::DecodedExecuteSegment::")) { APInt o(64, 0); auto *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true); k = ""; for (auto &t : declaredPointees(b)) if (t == SEG) if (auto *m = FM->member(SEG, o.getZExtValue())) if (m->off == o.getZExtValue()) k = std::string(SEG) + "::" + m->name; }
		if (!k.empty()) S->setMetadata("lva.field", MDNode::get(C.llctx, {MDString::get(C.llctx, k)})); }
	// arguments of the builder
	unsigned iBegin = M.segBeginArg->getArgNo(), iCode = ~0u; { auto *W = cast<LoadInst>(noCast(M.wordOrig)); const Value *b = W->getPointerOperand(); while (auto *G = dyn_cast<GetElementPtrInst>(b)) b = G->getPointerOperand(); if (auto *A = dyn_cast<Argument>(b)) iCode = A->getArgNo(); else if (auto *P = dyn_cast<PHINode>(b)) for (auto &x : P->incoming_values()) if (auto *A = dyn_cast<Argument>(x)) iCode = A->getArgNo(); }
	unsigned iLen = ~0u; for (auto &A : M.builder->args()) if (A.getType()->isIntegerTy(64) && A.getArgNo() != iBegin) iLen = A.getArgNo();
	if (iCode == ~0u || iLen == ~0u) { C.R.error("the words and their length are not arguments of the builder"); return; }
	auto callersOf = [&](Function *T) { std::set<Function*> s; for (auto &F : *C.M) if (!F.getName().starts_with("lva.")) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeOf(CB) == T) s.insert(&F); return s; };
	auto loops = [&](const Function *F) { DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT); return !LI.empty(); };
	// who makes segments: climb until the words, their address and their length are plain arguments
	std::vector<Function*> makers; for (auto *F : callersOf(M.builder)) makers.push_back(F);
	if (makers.empty()) { C.R.error("nothing calls the builder"); return; }
	struct Maker { Function *F; unsigned data, addr, len; }; std::vector<Maker> ms;
	std::set<Function*> tried(makers.begin(), makers.end());
	std::function<void(Function*, unsigned)> judge = [&](Function *F, unsigned depth) {
		Report before = C.R; size_t made = ms.size();
		auto maker = [&] {
		ValueToValueMapTy VM; auto *K = CloneFunction(F, VM); K->setName("lva.maker");
		InlinePolicy IP; IP.want = [&](const Function *X) { return X != M.builder && defaultInlineWant(X) && !(inProject(X) && loops(X)); };
		flatten(*K, IP);
		auto tag = [&](StoreInst *S) -> std::string { if (auto *N = S->getMetadata("lva.field")) return cast<MDString>(N->getOperand(0))->getString().str(); return ""; };
		optimizeRegion(*K, true);
		if (C.opts.count("dump2")) K->print(errs());
		Prover P(*K, C); auto &SE = *P.SE; Ob ob{C, F, "segment"};
		std::vector<StoreInst*> sb, se; std::vector<CallBase*> calls;
		for (auto &I : instructions(*K)) { if (auto *S = dyn_cast<StoreInst>(&I)) { std::string k = tag(S); if (k == F_("DecodedExecuteSegment::m_exec_begin")) sb.push_back(S); if (k == F_("DecodedExecuteSegment::m_exec_end")) se.push_back(S); } if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeOf(CB) == M.builder) calls.push_back(CB); }
		if (calls.empty() || sb.empty() || se.empty()) { C.R.error("segment construction not recognised in " + qualName(F)); K->eraseFromParent(); return; }
		auto same = [&](const Value *a, const Value *b) { return a == b || SE.getMinusSCEV(SE.getSCEV(const_cast<Value*>(a)), SE.getSCEV(const_cast<Value*>(b)))->isZero(); };
		Maker mk{F, ~0u, ~0u, ~0u};
		for (auto *CB : calls) {
			auto *d = CB->getArgOperand(iCode), *a = CB->getArgOperand(iBegin), *n = CB->getArgOperand(iLen);
			for (auto *S : sb) ob(same(S->getValueOperand(), a), "segment-limits", "begin", S, "the segment begins at the address its words are decoded for");
			for (auto *S : se) ob(SE.getMinusSCEV(SE.getSCEV(S->getValueOperand()), SE.getAddExpr(SE.getSCEV(a), SE.getSCEV(n)))->isZero(), "segment-limits", "end", S, "the segment ends where its words end");
			ob(aligned4(a, CB, *P.DT, *P.AC, DL), "segment-limits", "alignment", CB, "the segment begins at a multiple of four");
			// whoever else looks at the words looks at all of them
			for (auto &I : instructions(*K)) if (auto *X = dyn_cast<CallBase>(&I)) if (X != CB && !isa<IntrinsicInst>(X)) { bool takes = false, full = false; for (auto &o : X->args()) { if (o->getType()->isPointerTy() && same(SE.getPointerBase(SE.getSCEV(o)) == SE.getSCEV(d) ? d : o.get(), d)) takes = true; if (o->getType()->isIntegerTy(64) && same(o, n)) full = true; }
				if (takes) { bool exact = false; for (auto &o : X->args()) if (o->getType()->isPointerTy() && same(o, d)) exact = true; ob(exact && full, "segment-limits", "identity", X, "the words a segment is identified by are all the words it is built from"); } }
			auto arg = [&](Value *v) { auto *A = dyn_cast<Argument>(v); return A ? A->getArgNo() : ~0u; };
			mk.data = arg(d); mk.addr = arg(a); mk.len = arg(n);
		}
		if (mk.data == ~0u || mk.addr == ~0u || mk.len == ~0u) C.R.error("the words, address and length of a segment are not arguments of " + qualName(F)); else ms.push_back(mk);
		K->eraseFromParent();
		};
		maker();
		// part of a larger construction: judge that
		auto bad = [&](const Report &r, const Report &o) { return r.findings.size() > o.findings.size() || r.errors.size() > o.errors.size(); };
		if (!bad(C.R, before) || isPublicApi(F) || F->hasAddressTaken() || depth >= 4) return;
		auto up = callersOf(F); if (up.empty()) return; for (auto *U : up) if (tried.count(U)) return;
		Report own = C.R; auto mine = ms; C.R = before; ms.resize(made);
		for (auto *U : up) { tried.insert(U); judge(U, depth + 1); }
		if (bad(C.R, before)) { C.R = own; ms = mine; }
	};
	for (auto *F : makers) judge(F, 0);
	if (!want("load")) return;
	// image loads are constant
	static const char *BIN_SIZE = "loongarch::Memory::m_binary", *BIN_PTR = "loongarch::Memory::m_binary+8", *ARENA = "loongarch::Memory::m_arena";
	auto mark = [&](Function &F) { for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) { std::string k = fieldKey(L->getPointerOperand(), DL); if (StringRef(k).starts_with("loongarch::Elf::") || k == BIN_SIZE || k == BIN_PTR) L->setMetadata(LLVMContext::MD_invariant_load, MDNode::get(C.llctx, {})); } };
	for (auto &F : *C.M) if (inProject(&F)) mark(F);
	unsigned images = 0;
	for (auto &m : ms) for (auto *F : callersOf(m.F)) {
		ValueToValueMapTy VM; auto *K = CloneFunction(F, VM); K->setName("lva.loader");
		InlinePolicy IP; IP.want = [&](const Function *X) { return X != m.F && defaultInlineWant(X); };
		flatten(*K, IP); mark(*K); simplifyFunction(*K);
		if (C.opts.count("dump3")) K->print(errs());
		Prover P(*K, C); setupMemProver(P); P.stable.insert(BIN_SIZE); Lin S = P.symField(BIN_SIZE); P.globalFacts.push_back(S.plus(Lin::cst(-((i128)1 << 62)))); Ob ob{C, F, "load"};
		auto isLoad = [&](const Value *v, const char *k) { auto *L = dyn_cast_or_null<LoadInst>(v); return L && fieldKey(L->getPointerOperand(), DL) == k; };
		struct Copy { Instruction *I; Lin to, from, n; }; std::vector<Copy> cps;
		for (auto &I : instructions(*K)) if (auto *MC = dyn_cast<MemTransferInst>(&I)) { auto d = decompose(MC->getDest(), P), s = decompose(MC->getSource(), P); if (d.ok && s.ok && isLoad(d.base, ARENA) && isLoad(s.base, BIN_PTR)) {
			cps.push_back({MC, d.off, s.off, P.val(MC->getLength())}); Lin end = d.off.plus(cps.back().n);
			ob(P.proveLE(end, P.symField("loongarch::Memory::m_arena_size"), MC), "loaded-words", "placed", MC, "the bytes of a segment are placed inside the arena"); } }
		for (auto &I : instructions(*K)) if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeOf(CB) == m.F) {
			auto *d = CB->getArgOperand(m.data), *a = CB->getArgOperand(m.addr), *n = CB->getArgOperand(m.len);
			if (isa<Argument>(d) && isa<Argument>(a) && isa<Argument>(n)) { ob(true, "loaded-words", "passed on", CB, "the host's words, address and length are passed on"); continue; }
			auto w = decompose(d, P); bool ok = false, in = false;
			if (w.ok && isLoad(w.base, BIN_PTR)) { images++; for (auto &c : cps) if (P.DT->dominates(c.I, CB)) {
				Lin l = w.off.plus(c.to), r = c.from.plus(P.val(a)); // offset - from == address - to
				bool e = P.proveLE(l, r, CB) && P.proveLE(r, l, CB);
				bool i = P.proveLE(c.from, w.off, CB) && P.proveLE(w.off.plus(P.val(n)), c.from.plus(c.n), CB);
				if (e) ok = true; if (e && i) in = true; } }
			ob(ok, "loaded-words", "decoded", CB, "the words decoded for an address are the ones the loader placed there");
			ob(in, "loaded-words", "range", CB, "only words the loader placed in memory are decoded");
		}
		K->eraseFromParent();
	}
	if (!images) C.R.error("no segment is made from the image");
}
} // namespace lva
