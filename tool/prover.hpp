// Linear-inequality abstract domain over SSA values.
// Every value is an integer variable in [0,2^w); modular arithmetic is modelled
// by case-splitting on the wrap; dominating branch conditions give facts.
// A goal is discharged when facts && !goal is infeasible over the rationals in
// every case (Fourier-Motzkin elimination).  Anything not understood is simply
// not used, so a discharge never depends on it.
#pragma once
#include "core.hpp"

namespace lva {

typedef __int128 i128;

struct Lin {
	std::map<int, i128> c; // atom -> coef
	i128 k = 0;
	bool ok = true;
	static Lin cst(i128 v) { Lin l; l.k = v; return l; }
	static Lin atom(int a) { Lin l; l.c[a] = 1; return l; }
	Lin &add(const Lin &o, i128 f = 1);
	Lin plus(const Lin &o, i128 f = 1) const { Lin l = *this; l.add(o, f); return l; }
};
// l <= 0

class Prover {
public:
	Prover(Function &F, Ctx &C);
	~Prover();
	Function &F; Ctx &C; const DataLayout &DL;
	std::unique_ptr<DominatorTree> DT;
	std::unique_ptr<LoopInfo> LI;
	std::unique_ptr<AssumptionCache> AC;
	std::unique_ptr<TargetLibraryInfoImpl> TLII;
	std::unique_ptr<TargetLibraryInfo> TLI;
	std::unique_ptr<ScalarEvolution> SE;

	// stable fields: loads of these struct members denote one symbol each
	std::set<std::string> stable;
	// invariants between stable fields (conjunction of l <= 0, built by name)
	std::vector<Lin> globalFacts;

	// --- queries, at instruction ctx ---
	bool proveLE(const Lin &a, const Lin &b, const Instruction *ctx);  // a <= b
	bool proveNonZero(const Value *v, const Instruction *ctx);
	bool proveNE(const Value *v, const APInt &k, const Instruction *ctx);
	bool proveCond(const Value *cond, bool truth, const Instruction *ctx);

	Lin val(const Value *v);           // unsigned integer value
	Lin symField(const std::string &key); // symbol of a stable field
	Lin freshNonNeg();
	// signed value of v as integer (adds case split lazily)
	Lin sval(const Value *v);

	std::vector<std::string> relFields;   // additional candidates p <= field
	bool inferRelational = false;         // Houdini over p <= q between header phis
	bool constStep(const PHINode *P, APInt &step);
	Lin iteration(const Loop *L);
	std::string show(const Lin &l) const;
	unsigned queries = 0;
private:
	struct AtomInfo { const Value *v = nullptr; std::string name; i128 lo = 0, hi = 0; bool expanded = false; };
	std::vector<AtomInfo> atoms;
	std::map<const Value*, int> atomOf;
	std::map<std::string, int> fieldAtom;
	typedef std::vector<Lin> Conj;           // conjunction of l <= 0
	typedef std::vector<Conj> Disj;          // alternatives
	struct Facts { Conj cons; std::vector<Disj> splits; };
	struct Query { Facts f; std::set<int> active; std::set<const BasicBlock*> phiBlocks; std::vector<int> todo; const Instruction *ctx = nullptr; };
	Query *Q = nullptr;
	const Value *extraCond = nullptr; bool extraTruth = false;

	int newAtom(const Value *v, const std::string &name, i128 lo, i128 hi);
	int atomFor(const Value *v);
	void need(const Lin &l);
	void expandAtom(int a);
	void condFacts(const Value *cond, bool truth, Facts &out, unsigned depth);
	void edgeFacts(const BasicBlock *from, const BasicBlock *to, Facts &out, unsigned depth);
	void domConds(const BasicBlock *BB, const BasicBlock *stop, std::vector<std::pair<const Value*, bool>> &out, Facts &direct);
	void signedMonotone(const llvm::PHINode *P, Facts &f);
	void cmpFacts(CmpInst::Predicate p, const Value *a, const Value *b, Facts &out);
	bool solve(const Conj &base, const std::vector<Disj> &sp, size_t idx);
	bool prove(const std::vector<Disj> &negGoal, const std::vector<const Value*> &seeds, const Conj &seedLins, const Instruction *ctx);
	void leaves(const Value *v, std::set<const Value*> &s, std::set<std::string> &fs, unsigned depth);
	std::vector<Conj> alts(const Facts &f, unsigned cap);
	Conj flatAlt(const Facts &f); // conjunction part only
	unsigned budget = 0, depthGuard = 0;
	std::map<const Loop*, int> loopIter;
	std::map<const Loop*, std::vector<std::pair<const PHINode*, const PHINode*>>> loopRel;
	std::map<const Loop*, std::vector<std::pair<const PHINode*, std::string>>> loopRelF;
	void relational(const Loop *L);
	std::map<const PHINode*, int> phiMono; // 1 >= start, 2 <= start, 0 none
	int phiMonotone(const PHINode *P, const Value *&start);
	bool isStableLoad(const Value *v, std::string &key);
	std::map<const Value*, std::string> stableCache;
};

bool fmInfeasible(std::vector<Lin> cs);

// pointer decomposition: base object + byte offset
struct PtrInfo { const Value *base = nullptr; Lin off; bool ok = false; };
PtrInfo decompose(const Value *P, Prover &Pr, unsigned depth = 0);
bool proveInObject(const Value *P, const Lin &size, const Lin &limit, const std::function<bool(const Value*)> &isBase, const Instruction *ctx, Prover &Pr, const Lin *lower = nullptr, bool others = false);

} // namespace lva
