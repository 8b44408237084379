// Canonical values: every integer or pointer value is a linear form (mod 2^w)
// over atoms; an atom is a vector of named bits (shifted, masked, extended or
// concatenated fields of some source value) or the result of an operation on
// canonical operands.  Two values with equal keys are equal for all inputs.
#pragma once
#include <ctime>
#include "core.hpp"
namespace lva {
struct SBit { int leaf = -1; int ix = 0; bool operator==(const SBit &o) const { return leaf == o.leaf && ix == o.ix; } bool operator<(const SBit &o) const { return leaf != o.leaf ? leaf < o.leaf : ix < o.ix; } }; // leaf -1: constant bit ix
struct SVal { unsigned w = 64; std::map<int, uint64_t> c; uint64_t k = 0; bool ok = true;
	bool isConst() const { return ok && c.empty(); }
	bool operator==(const SVal &o) const { return w == o.w && c == o.c && k == o.k && ok == o.ok; } };
class Sym {
public:
	explicit Sym(const DataLayout &DL) : DL(DL) {}
	const DataLayout &DL;
	std::map<const Value*, SVal> bind;                       // values with a meaning given from outside
	std::function<bool(const Value*, SVal&)> hook;           // consulted before anything else
	std::function<const BasicBlock*(const PHINode*)> phiFrom; // predecessor chosen for a merge
	SVal eval(const Value *v);
	SVal evalFresh(const Value *v) { return eval0(v); }
	bool noMemo = false;                                      // values are taken from bind only
	std::map<SBit, bool> known;                               // bits fixed by the conditions in force
	struct OpRec { std::string name; std::vector<SVal> args; };
	std::map<int, SVal> linOf;                                // leaf -> linear form it stands for
	std::map<int, OpRec> opOf;                                // leaf -> operation it stands for
	std::vector<SBit> bits(const Value *v) { return bits(eval(v)); }
	std::vector<SBit> bits(const SVal &v);
	SVal fromBits(std::vector<SBit> b);
	SVal fromB(const std::vector<SBit> &b);
	SVal cst(unsigned w, uint64_t k) { SVal r; r.w = w; r.k = k & mask(w); return r; }
	SVal leaf(const std::string &key, unsigned w, const Value *rep = nullptr);
	SVal add(const SVal &a, const SVal &b, uint64_t f = 1);
	SVal scale(const SVal &a, uint64_t f);
	SVal zext(const SVal &a, unsigned w); SVal sext(const SVal &a, unsigned w); SVal trunc(const SVal &a, unsigned w);
	SVal amount(const SVal &b);
	SVal bin(unsigned op, const SVal &a, const SVal &b);
	SVal op(const std::string &name, std::vector<SVal> as, unsigned w, bool comm = false);
	SVal cmp(unsigned pred, const SVal &a, const SVal &b);
	SVal select(const SVal &c, const SVal &a, const SVal &b);
	SVal notb(const SVal &c);
	bool fpBits = false; // comparisons of numbers as functions of their bits
	std::clock_t deadline = 0; void limit(int s) { deadline = std::clock() + (std::clock_t)s * CLOCKS_PER_SEC; } bool late() const { return deadline && std::clock() > deadline; }
	bool bitwise = false; // boolean functions of bits are kept as ordered decision diagrams
	SVal ite(const SVal &f, const SVal &g, const SVal &h);
	bool splitShift(unsigned o, const SVal &a, const SVal &n, SVal &r);
	bool close(std::map<SBit, bool> &k);
	bool plainBits(const SVal &v), plainSum(const SVal &v);
	SVal flip(const SVal &a); SVal fbin(unsigned op, SVal a, SVal b); SVal fcmpv(unsigned pred, const SVal &a, const SVal &b);
	SVal frel(unsigned m, SVal a, SVal b); SVal frel0(unsigned m, const SVal &a, const SVal &b, const std::string &pr);
	std::map<std::string, std::map<int, unsigned>> relOf; std::map<int, std::pair<std::string, unsigned>> relLeaf; // comparisons of one pair of values
	bool relAnd(const SVal &a, const SVal &b, SVal &r);
	std::string key(const SVal &v);
	std::string show(const SVal &v);
	static uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
	struct Leaf { std::string key; unsigned w; const Value *rep; };
	std::vector<Leaf> leaves;
	std::vector<std::vector<SBit>> atoms;
	// the leaf of an atom that is exactly one zero-extended leaf, or -1
	int leafOfAtom(int a) const;
	void clear() { memo.clear(); }
private:
	std::map<std::string, int> leafId; std::map<std::vector<SBit>, int> atomId;
	std::map<const Value*, SVal> memo; unsigned depth = 0;

	std::map<std::string, SVal> iteMemo; unsigned iteDepth = 0, iteSteps = 0; bool iteOver = false, iteHold = false;
	void norm(SVal &v);
	bool single(int a, unsigned w, SBit &b, uint64_t &P);
	SVal eval0(const Value *v);
};
} // namespace lva
