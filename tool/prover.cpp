#include "prover.hpp"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"

namespace lva {

Lin &Lin::add(const Lin &o, i128 f) {
	if (!o.ok) ok = false;
	k += f * o.k;
	for (auto &p : o.c) { i128 &x = c[p.first]; x += f * p.second; if (x == 0) c.erase(p.first); }
	return *this;
}

// ---------- Fourier-Motzkin ----------
static i128 iabs(i128 a) { return a < 0 ? -a : a; }
static i128 gcd128(i128 a, i128 b) { a = iabs(a); b = iabs(b); while (b) { i128 t = a % b; a = b; b = t; } return a; }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }

struct Row { std::vector<std::pair<int, i128>> c; i128 k; };

static bool norm(Lin &l) { // integer tightening; returns false if trivially true
	if (l.c.empty()) return l.k > 0;
	i128 g = 0;
	for (auto &p : l.c) g = gcd128(g, p.second);
	if (g > 1) { for (auto &p : l.c) p.second /= g; l.k = -floordiv(-l.k, g); }
	return true;
}

static bool mulOK(i128 a, i128 b, i128 &r) { return !__builtin_mul_overflow(a, b, &r); }
static const i128 LIM = ((i128)1) << 120;

bool fmInfeasible(std::vector<Lin> cs) {
	// 1. eliminate equalities appearing as pairs l<=0 and -l<=0 via substitution
	for (unsigned iter = 0; iter < 200; iter++) {
		std::map<std::map<int, i128>, i128> best;
		for (auto &l : cs) {
			if (!norm(l)) continue;
			if (l.c.empty()) return true;
			auto it = best.find(l.c);
			if (it == best.end() || it->second < l.k) best[l.c] = l.k;
		}
		cs.clear();
		bool subst = false;
		for (auto &p : best) { Lin l; l.c = p.first; l.k = p.second; cs.push_back(l); }
		for (auto &p : best) {
			std::map<int, i128> n; for (auto &q : p.first) n[q.first] = -q.second;
			auto it = best.find(n);
			if (it == best.end()) continue;
			if (it->second + p.second > 0) return true; // contradiction
			if (it->second != -p.second) continue;
			// equality; find unit coefficient
			int var = -1; i128 cf = 0;
			for (auto &q : p.first) if (q.second == 1 || q.second == -1) { var = q.first; cf = q.second; break; }
			if (var < 0) continue;
			// sum c_i x_i + k == 0  ->  x = -(rest)/cf
			Lin e; e.c = p.first; e.k = p.second; e.c.erase(var);
			Lin x; x.add(e, cf == 1 ? -1 : 1);
			std::vector<Lin> out;
			for (auto &l : cs) {
				auto f = l.c.find(var);
				if (f == l.c.end()) { out.push_back(l); continue; }
				i128 co = f->second; Lin m = l; m.c.erase(var);
				bool okm = iabs(co) < (i128(1) << 60);
				if (!okm) continue;
				m.add(x, co);
				bool big = iabs(m.k) > LIM;
				for (auto &q : m.c) if (iabs(q.second) > LIM) big = true;
				if (!big) out.push_back(m);
			}
			cs.swap(out);
			subst = true;
			break;
		}
		if (!subst) break;
	}
	// 2. FM
	for (unsigned iter = 0; iter < 64; iter++) {
		std::map<std::map<int, i128>, i128> best;
		for (auto &l : cs) {
			if (!norm(l)) continue;
			if (l.c.empty()) return true;
			auto it = best.find(l.c);
			if (it == best.end() || it->second < l.k) best[l.c] = l.k;
		}
		cs.clear();
		std::map<int, std::pair<int,int>> cnt;
		for (auto &p : best) { Lin l; l.c = p.first; l.k = p.second; cs.push_back(l); for (auto &q : l.c) (q.second > 0 ? cnt[q.first].first : cnt[q.first].second)++; }
		if (cs.empty() || cnt.empty()) return false;
		int bv = -1; long bc = LONG_MAX;
		for (auto &p : cnt) { long c = (long)p.second.first * p.second.second - p.second.first - p.second.second; if (c < bc) { bc = c; bv = p.first; } }
		std::vector<Lin> pos, neg, rest;
		for (auto &l : cs) { auto f = l.c.find(bv); if (f == l.c.end()) rest.push_back(l); else (f->second > 0 ? pos : neg).push_back(l); }
		if (pos.size() * neg.size() > 4000) return false;
		for (auto &a : pos) for (auto &b : neg) {
			i128 ca = a.c[bv], cb = -b.c[bv];
			i128 g = gcd128(ca, cb); i128 fa = cb / g, fb = ca / g;
			if (iabs(fa) > (i128(1) << 50) || iabs(fb) > (i128(1) << 50)) {
				// large coefficients: keep only when products fit
				i128 t; bool good = mulOK(fa, a.k, t) && mulOK(fb, b.k, t);
				for (auto &q : a.c) good = good && mulOK(fa, q.second, t) && iabs(t) < LIM;
				for (auto &q : b.c) good = good && mulOK(fb, q.second, t) && iabs(t) < LIM;
				if (!good) continue;
			}
			i128 t1, t2;
			if (!mulOK(fa, a.k, t1) || !mulOK(fb, b.k, t2) || iabs(t1) > LIM || iabs(t2) > LIM) continue;
			Lin n; n.add(a, fa); n.add(b, fb); n.c.erase(bv);
			rest.push_back(n);
		}
		cs.swap(rest);
		if (cs.size() > 3000) return false;
	}
	return false;
}

// ---------- Prover ----------
static const i128 ONE = 1;
static i128 P2(unsigned n) { return ONE << n; }

Prover::Prover(Function &F, Ctx &C) : F(F), C(C), DL(F.getParent()->getDataLayout()) {
	DT = std::make_unique<DominatorTree>(F);
	LI = std::make_unique<LoopInfo>(*DT);
	AC = std::make_unique<AssumptionCache>(F);
	TLII = std::make_unique<TargetLibraryInfoImpl>(Triple(F.getParent()->getTargetTriple()));
	TLI = std::make_unique<TargetLibraryInfo>(*TLII, &F);
	SE = std::make_unique<ScalarEvolution>(F, *TLI, *AC, *DT, *LI);
}
Prover::~Prover() {}

int Prover::newAtom(const Value *v, const std::string &name, i128 lo, i128 hi) {
	AtomInfo a; a.v = v; a.name = name; a.lo = lo; a.hi = hi;
	atoms.push_back(a);
	return atoms.size() - 1;
}
Lin Prover::symField(const std::string &key) {
	auto it = fieldAtom.find(key);
	if (it == fieldAtom.end()) it = fieldAtom.emplace(key, newAtom(nullptr, key, 0, P2(64) - 1)).first;
	return Lin::atom(it->second);
}
Lin Prover::freshNonNeg() { return Lin::atom(newAtom(nullptr, "fresh", 0, P2(64) - 1)); }

bool Prover::isStableLoad(const Value *v, std::string &key) {
	auto *L = dyn_cast<LoadInst>(v);
	if (!L) return false;
	auto it = stableCache.find(v);
	if (it == stableCache.end()) it = stableCache.emplace(v, fieldKey(L->getPointerOperand(), DL)).first;
	key = it->second;
	return stable.count(key) != 0;
}

int Prover::atomFor(const Value *v) {
	auto it = atomOf.find(v);
	if (it != atomOf.end()) return it->second;
	std::string key;
	if (isStableLoad(v, key)) {
		Lin l = symField(key);
		return atomOf[v] = l.c.begin()->first;
	}
	unsigned w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64;
	i128 lo = 0, hi = P2(w > 64 ? 64 : w) - 1;
	if (w <= 64 && v->getType()->isIntegerTy()) {
		KnownBits KB = computeKnownBits(v, DL, 0, AC.get(), nullptr, DT.get());
		if (!KB.hasConflict()) { lo = KB.getMinValue().getZExtValue(); hi = KB.getMaxValue().getZExtValue(); }
		if (SE->isSCEVable(v->getType()) && !isa<LoadInst>(v)) {
			ConstantRange CR = SE->getUnsignedRange(SE->getSCEV(const_cast<Value*>(v)));
			if (!CR.isEmptySet()) {
				i128 l2 = CR.getUnsignedMin().getZExtValue(), h2 = CR.getUnsignedMax().getZExtValue();
				if (l2 > lo) lo = l2;
				if (h2 < hi) hi = h2;
			}
		}
		if (auto *LD = dyn_cast<LoadInst>(v)) if (auto *md = LD->getMetadata(LLVMContext::MD_range)) {
			ConstantRange CR = getConstantRangeFromMetadata(*md);
			i128 h2 = CR.getUnsignedMax().getZExtValue(); if (h2 < hi) hi = h2;
		}
	}
	std::string nm; raw_string_ostream os(nm); v->printAsOperand(os, false);
	int a = newAtom(v, os.str(), lo, hi);
	return atomOf[v] = a;
}

Lin Prover::val(const Value *v) {
	if (auto *CI = dyn_cast<ConstantInt>(v)) { if (CI->getBitWidth() > 64) { Lin l; l.ok = false; return l; } return Lin::cst((i128)CI->getZExtValue()); }
	if (auto *Z = dyn_cast<ZExtInst>(v)) { if (Z->getOperand(0)->getType()->isIntegerTy()) return val(Z->getOperand(0)); }
	if (isa<UndefValue>(v)) { return freshNonNeg(); }
	if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) {
		if (!v->getType()->isPointerTy()) { Lin l; l.ok = false; return l; }
	}
	return Lin::atom(atomFor(v));
}

void Prover::need(const Lin &l) {
	for (auto &p : l.c) if (Q->active.insert(p.first).second) Q->todo.push_back(p.first);
}

static void le(std::vector<Lin> &o, const Lin &a, const Lin &b) { Lin l = a.plus(b, -1); if (l.ok) o.push_back(l); }
static void eq(std::vector<Lin> &o, const Lin &a, const Lin &b) { le(o, a, b); le(o, b, a); }

Prover::Conj Prover::flatAlt(const Facts &f) { return f.cons; }

// disjunctive normal form of a fact set, bounded: splits beyond the cap are dropped (weaker, still sound)
std::vector<Prover::Conj> Prover::alts(const Facts &f, unsigned cap) {
	std::vector<Conj> r{f.cons};
	for (auto &D : f.splits) {
		if (D.empty() || r.size() * D.size() > cap) continue;
		std::vector<Conj> n;
		for (auto &c : r) for (auto &d : D) { Conj k = c; k.insert(k.end(), d.begin(), d.end()); n.push_back(std::move(k)); }
		r.swap(n);
	}
	return r;
}
static void joinAlts(std::vector<std::vector<Lin>> a, const std::vector<std::vector<Lin>> &b, std::vector<std::vector<std::vector<Lin>>> &out) {
	a.insert(a.end(), b.begin(), b.end());
	out.push_back(std::move(a));
}

int Prover::phiMonotone(const PHINode *P, const Value *&start) {
	start = nullptr;
	const Loop *L = LI->getLoopFor(P->getParent());
	if (!L || L->getHeader() != P->getParent()) return 0;
	const Value *st = nullptr; std::vector<std::pair<const Value*, const BasicBlock*>> lat;
	for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
		if (L->contains(P->getIncomingBlock(i))) lat.push_back({P->getIncomingValue(i), P->getIncomingBlock(i)});
		else { if (st && st != P->getIncomingValue(i)) return 0; st = P->getIncomingValue(i); }
	}
	if (!st || lat.empty()) return 0;
	start = st;
	auto it = phiMono.find(P);
	if (it != phiMono.end()) return it->second;
	phiMono[P] = 0;
	if (depthGuard > 3) { phiMono.erase(P); return 0; }
	int dir = 0;
	for (auto &lv : lat) {
		const Value *v = lv.first;
		if (v == P) continue;
		auto *BO = dyn_cast<BinaryOperator>(v);
		if (!BO || (BO->getOpcode() != Instruction::Add && BO->getOpcode() != Instruction::Sub)) return 0;
		if (BO->getOperand(0) != P && !(BO->getOpcode() == Instruction::Add && BO->getOperand(1) == P)) return 0;
		const Value *stp = BO->getOperand(0) == P ? BO->getOperand(1) : BO->getOperand(0);
		int d; 
		unsigned w = P->getType()->getIntegerBitWidth();
		if (auto *CI = dyn_cast<ConstantInt>(stp)) {
			APInt s = CI->getValue(); if (BO->getOpcode() == Instruction::Sub) s = -s;
			if (s.isZero()) continue;
			d = s.isNegative() ? 2 : 1;
			if (dir && dir != d) return 0;
			dir = d;
			Lin pv = val(P);
			// the step has to be exact whenever the back edge is taken
			const Instruction *at = lv.second->getTerminator();
			if (d == 1) { if (!proveLE(pv.plus(Lin::cst((i128)s.getZExtValue())), Lin::cst(P2(w) - 1), at)) return 0; }
			else { if (!proveLE(Lin::cst((i128)(-s).getZExtValue()), pv, at)) return 0; }
		} else {
			d = BO->getOpcode() == Instruction::Add ? 1 : 2;
			if (dir && dir != d) return 0;
			dir = d;
			if (d == 1) { if (!proveLE(val(P).plus(val(stp)), Lin::cst(P2(w) - 1), lv.second->getTerminator())) return 0; }
			else if (!proveLE(val(stp), val(P), lv.second->getTerminator())) return 0;
		}
	}
	return phiMono[P] = dir;
}

// the phi is stepped by the same constant on every back edge, exactly once per iteration
bool Prover::constStep(const PHINode *P, APInt &step) {
	const Loop *L = LI->getLoopFor(P->getParent());
	if (!L || L->getHeader() != P->getParent()) return false;
	bool have = false;
	for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
		if (!L->contains(P->getIncomingBlock(i))) continue;
		const Value *v = P->getIncomingValue(i);
		APInt s(64, 0);
		if (P->getType()->isPointerTy()) {
			APInt o(64, 0);
			while (auto *G = dyn_cast<GEPOperator>(v)) { if (!G->isInBounds() || !G->accumulateConstantOffset(DL, o)) return false; v = G->getPointerOperand(); }
			if (v != P) return false;
			s = o;
		} else {
			auto *BO = dyn_cast<BinaryOperator>(v);
			if (!BO) return false;
			auto *CI = dyn_cast<ConstantInt>(BO->getOperand(1));
			if (!CI || BO->getOperand(0) != P) return false;
			if (BO->getOpcode() == Instruction::Add) s = CI->getValue();
			else if (BO->getOpcode() == Instruction::Sub) s = -CI->getValue();
			else return false;
			s = s.sext(64);
		}
		if (have && s != step) return false;
		step = s; have = true;
	}
	return have;
}

void Prover::relational(const Loop *L) {
	std::vector<const PHINode*> ph;
	for (auto &p : L->getHeader()->phis()) if (p.getType()->isIntegerTy(64)) ph.push_back(&p);
	std::vector<std::pair<const PHINode*, const PHINode*>> cand;
	loopRel[L] = {};
	if (ph.size() > 8) return;
	// p <= field
	{
		std::vector<std::pair<const PHINode*, std::string>> c;
		auto holds = [&](const PHINode *p, const std::string &k, bool latch) {
			for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
				auto *B = p->getIncomingBlock(i);
				if (L->contains(B) == latch && !proveLE(val(p->getIncomingValue(i)), symField(k), B->getTerminator())) return false;
			}
			return true;
		};
		for (auto *p : ph) for (auto &k : relFields) if (holds(p, k, false)) c.push_back({p, k});
		bool ch = true;
		while (ch && !c.empty()) {
			ch = false; loopRelF[L] = c;
			for (size_t k = 0; k < c.size(); k++) if (!holds(c[k].first, c[k].second, true)) { c.erase(c.begin() + k); ch = true; break; }
		}
		loopRelF[L] = c;
	}
	// base case on the entering edges
	for (auto *p : ph) for (auto *q : ph) if (p != q) {
		bool ok = true;
		for (unsigned i = 0; i < p->getNumIncomingValues() && ok; i++) {
			auto *B = p->getIncomingBlock(i);
			if (L->contains(B)) continue;
			ok = proveLE(val(p->getIncomingValue(i)), val(q->getIncomingValueForBlock(B)), B->getTerminator());
		}
		if (ok) cand.push_back({p, q});
	}
	bool ch = true;
	while (ch && !cand.empty()) {
		ch = false;
		loopRel[L] = cand;
		for (size_t k = 0; k < cand.size(); k++) {
			auto *p = cand[k].first, *q = cand[k].second; bool ok = true;
			for (unsigned i = 0; i < p->getNumIncomingValues() && ok; i++) {
				auto *B = p->getIncomingBlock(i);
				if (!L->contains(B)) continue;
				ok = proveLE(val(p->getIncomingValue(i)), val(q->getIncomingValueForBlock(B)), B->getTerminator());
			}
			if (!ok) { cand.erase(cand.begin() + k); ch = true; break; }
		}
	}
	loopRel[L] = cand;
}

Lin Prover::iteration(const Loop *L) {
	auto it = loopIter.find(L);
	if (it == loopIter.end()) it = loopIter.emplace(L, newAtom(nullptr, "iter", 0, P2(62))).first;
	return Lin::atom(it->second);
}

// most characters a constant format can produce; -1 if not known
static i128 formatBound(const CallBase *CB, unsigned fmtArg) {
	StringRef f; if (!getConstantStringInfo(CB->getArgOperand(fmtArg), f)) return -1;
	i128 n = 0; unsigned arg = fmtArg + 1;
	for (size_t i = 0; i < f.size(); i++) {
		if (f[i] != '%') { n++; continue; }
		i++; if (i < f.size() && f[i] == '%') { n++; continue; }
		unsigned w = 0, p = 0; bool hasP = false;
		while (i < f.size() && StringRef("-+ #0").contains(f[i])) i++;
		while (i < f.size() && isdigit(f[i])) w = w * 10 + (f[i++] - '0');
		if (i < f.size() && f[i] == '.') { hasP = true; i++; while (i < f.size() && isdigit(f[i])) p = p * 10 + (f[i++] - '0'); }
		while (i < f.size() && StringRef("hlzjt").contains(f[i])) i++;
		if (i >= f.size() || arg >= CB->arg_size() || w > 100000 || p > 100000) return -1;
		const Value *a = CB->getArgOperand(arg++); i128 m;
		switch (f[i]) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': m = std::max(24u, p + 3); break;
		case 'c': m = 1; break;
		case 's': { uint64_t len = GetStringLength(a); if (len) m = len - 1; else if (hasP) m = p; else return -1; if (hasP && m > p) m = p; break; }
		default: return -1;
		}
		n += std::max<i128>(m, w);
	}
	return n;
}
void Prover::expandAtom(int ai) {
	const Value *v = atoms[ai].v;
	Lin self = Lin::atom(ai);
	Facts &f = Q->f;
	f.cons.push_back(Lin::cst(atoms[ai].lo).plus(self, -1));
	f.cons.push_back(self.plus(Lin::cst(atoms[ai].hi), -1));
	if (!v || !v->getType()->isIntegerTy()) return;
	unsigned w = v->getType()->getIntegerBitWidth();
	if (w > 64) return;
	auto *I = dyn_cast<Instruction>(v);
	if (!I) return;
	bool dom = !Q->ctx || DT->dominates(I, Q->ctx) || I == Q->ctx;
	auto use = [&](const Value *o) { Lin l = val(o); need(l); return l; };
	if (auto *CB = dyn_cast<CallBase>(I)) if (auto *cf = calleeOf(CB)) if (cf->getName() == "snprintf" && CB->arg_size() >= 3 && w == 32) {
		i128 m = formatBound(CB, 2); Conj c0, c1;
		if (m >= 0 && m < P2(31)) { le(c0, self, Lin::cst(m)); le(c1, Lin::cst(P2(31)), self); f.splits.push_back({c0, c1}); }
	}
	if (auto *BO = dyn_cast<BinaryOperator>(I)) {
		const Value *A = BO->getOperand(0), *B = BO->getOperand(1);
		auto *CB = dyn_cast<ConstantInt>(B);
		switch (BO->getOpcode()) {
		case Instruction::Add: {
			Lin a = use(A), b = use(B);
			bool nuw = dom && BO->hasNoUnsignedWrap();
			// range based no-wrap
			if (CB && !nuw) {
				// a + C: alternatively a - (2^w - C)
			}
			Conj c0, c1;
			eq(c0, self, a.plus(b)); le(c0, a.plus(b), Lin::cst(P2(w) - 1));
			if (nuw) { for (auto &l : c0) f.cons.push_back(l); return; }
			eq(c1, self.plus(Lin::cst(P2(w))), a.plus(b)); le(c1, Lin::cst(P2(w)), a.plus(b));
			f.splits.push_back({c0, c1});
			return; }
		case Instruction::Sub: {
			Lin a, b; bool ptrs = false;
			// difference of two pointers into one object
			if (auto *pa = dyn_cast<PtrToIntOperator>(A)) if (auto *pb = dyn_cast<PtrToIntOperator>(B)) {
				PtrInfo x = decompose(pa->getPointerOperand(), *this), y = decompose(pb->getPointerOperand(), *this);
				if (x.ok && y.ok && x.base == y.base) { a = x.off; b = y.off; need(a); need(b); ptrs = true; }
			}
			if (!ptrs) { a = use(A); b = use(B); }
			Conj c0, c1;
			eq(c0, self, a.plus(b, -1)); le(c0, b, a);
			if (dom && BO->hasNoUnsignedWrap()) { for (auto &l : c0) f.cons.push_back(l); return; }
			eq(c1, self, a.plus(b, -1).plus(Lin::cst(P2(w)))); le(c1, a.plus(Lin::cst(1)), b);
			f.splits.push_back({c0, c1});
			return; }
		case Instruction::Mul:
			if (CB && CB->getValue().ult(1 << 20)) {
				Lin a = use(A); i128 m = CB->getZExtValue();
				Conj c0, c1;
				Lin p; p.add(a, m);
				eq(c0, self, p); le(c0, p, Lin::cst(P2(w) - 1));
				if (dom && BO->hasNoUnsignedWrap()) { for (auto &l : c0) f.cons.push_back(l); return; }
				le(c1, Lin::cst(P2(w)), p);
				f.splits.push_back({c0, c1});
			}
			return;
		case Instruction::Shl:
			if (CB && CB->getValue().ult(w)) {
				Lin a = use(A); i128 m = P2(CB->getZExtValue());
				Conj c0, c1; Lin p; p.add(a, m);
				eq(c0, self, p); le(c0, p, Lin::cst(P2(w) - 1));
				le(c1, Lin::cst(P2(w)), p);
				f.splits.push_back({c0, c1});
			}
			return;
		case Instruction::LShr: {
			Lin a = use(A); le(f.cons, self, a);
			if (CB && CB->getValue().ult(w)) {
				i128 m = P2(CB->getZExtValue()); Lin p; p.add(self, m);
				bool ex = (dom && BO->isExact()) || computeKnownBits(A, DL).countMinTrailingZeros() >= CB->getZExtValue();
				le(f.cons, p, a); le(f.cons, a, ex ? p : p.plus(Lin::cst(m - 1)));
			}
			return; }
		case Instruction::UDiv: {
			Lin a = use(A); le(f.cons, self, a);
			if (CB && !CB->isZero()) { i128 m = CB->getZExtValue(); Lin p; p.add(self, m); bool ex = CB->getValue().isPowerOf2() && computeKnownBits(A, DL).countMinTrailingZeros() >= CB->getValue().logBase2(); le(f.cons, p, a); le(f.cons, a, ex ? p : p.plus(Lin::cst(m - 1))); }
			return; }
		case Instruction::URem: {
			Lin a = use(A); le(f.cons, self, a);
			if (CB && !CB->isZero()) le(f.cons, self, Lin::cst((i128)CB->getZExtValue() - 1));
			else if (dom) { Lin b = use(B); le(f.cons, self.plus(Lin::cst(1)), b); }
			return; }
		case Instruction::SDiv: case Instruction::SRem: {
			if (!CB || !CB->getValue().isStrictlyPositive()) return;
			Lin a = use(A); Conj c0, c1; i128 m = CB->getZExtValue();
			le(c0, a, Lin::cst(P2(w - 1) - 1)); le(c0, self, a); le(c1, Lin::cst(P2(w - 1)), a);
			if (BO->getOpcode() == Instruction::SRem) le(c0, self, Lin::cst(m - 1));
			else { Lin p; p.add(self, m); le(c0, p, a); le(c0, a, p.plus(Lin::cst(m - 1))); }
			f.splits.push_back({c0, c1});
			return; }
		case Instruction::And: {
			Lin a = use(A); le(f.cons, self, a);
			if (CB) {
				le(f.cons, self, Lin::cst((i128)CB->getZExtValue()));
				APInt inv = ~CB->getValue();
				if (inv.isMask()) le(f.cons, a, self.plus(Lin::cst((i128)inv.getZExtValue())));
			} else { Lin b = use(B); le(f.cons, self, b); }
			return; }
		case Instruction::Or: {
			Lin a = use(A), b = use(B);
			le(f.cons, a, self); le(f.cons, b, self); le(f.cons, self, a.plus(b));
			return; }
		case Instruction::Xor: {
			if (CB && CB->isMinusOne()) { Lin a = use(A); eq(f.cons, self, Lin::cst(P2(w) - 1).plus(a, -1)); return; }
			Lin a = use(A), b = use(B); le(f.cons, self, a.plus(b));
			return; }
		default: return;
		}
	}
	if (auto *T = dyn_cast<TruncInst>(I)) {
		if (!T->getOperand(0)->getType()->isIntegerTy() || T->getOperand(0)->getType()->getIntegerBitWidth() > 64) return;
		Lin a = use(T->getOperand(0));
		le(f.cons, self, a);
		Conj c0, c1; eq(c0, self, a); le(c0, a, Lin::cst(P2(w) - 1)); le(c1, Lin::cst(P2(w)), a);
		f.splits.push_back({c0, c1});
		return;
	}
	if (auto *S = dyn_cast<SExtInst>(I)) {
		if (!S->getOperand(0)->getType()->isIntegerTy()) return;
		unsigned sw = S->getOperand(0)->getType()->getIntegerBitWidth();
		Lin a = use(S->getOperand(0));
		Conj c0, c1;
		eq(c0, self, a); le(c0, a, Lin::cst(P2(sw - 1) - 1));
		eq(c1, self, a.plus(Lin::cst(P2(w) - P2(sw)))); le(c1, Lin::cst(P2(sw - 1)), a);
		f.splits.push_back({c0, c1});
		return;
	}
	if (auto *Sel = dyn_cast<SelectInst>(I)) {
		Lin a = use(Sel->getTrueValue()), b = use(Sel->getFalseValue());
		Facts ft, ff; condFacts(Sel->getCondition(), true, ft, 3); condFacts(Sel->getCondition(), false, ff, 3);
		Conj c0 = ft.cons, c1 = ff.cons;
		eq(c0, self, a); eq(c1, self, b);
		f.splits.push_back({c0, c1});
		return;
	}
	if (auto *II = dyn_cast<IntrinsicInst>(I)) {
		switch (II->getIntrinsicID()) {
		case Intrinsic::umin: case Intrinsic::umax: {
			Lin a = use(II->getArgOperand(0)), b = use(II->getArgOperand(1));
			bool mn = II->getIntrinsicID() == Intrinsic::umin;
			Conj c0, c1; eq(c0, self, a); le(c0, mn ? a : b, mn ? b : a); eq(c1, self, b); le(c1, mn ? b : a, mn ? a : b);
			f.splits.push_back({c0, c1});
			return; }
		case Intrinsic::uadd_sat: { Lin a = use(II->getArgOperand(0)), b = use(II->getArgOperand(1)); le(f.cons, self, a.plus(b)); return; }
		case Intrinsic::usub_sat: { Lin a = use(II->getArgOperand(0)); le(f.cons, self, a); return; }
		case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: le(f.cons, self, Lin::cst(w)); return;
		default: return;
		}
	}
	if (auto *CB = dyn_cast<CallBase>(I)) {
		// library contracts: the result never exceeds the length argument
		Function *cal = calleeOf(CB);
		if (cal && cal->getName() == "strnlen" && CB->arg_size() == 2) { Lin a = use(CB->getArgOperand(1)); le(f.cons, self, a); }
		return;
	}
	if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
		if (auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand())) {
			if (EV->getIndices()[0] == 0) {
				Lin a = use(WO->getLHS()), b = use(WO->getRHS());
				Conj c0, c1;
				if (WO->getIntrinsicID() == Intrinsic::uadd_with_overflow) {
					eq(c0, self, a.plus(b)); le(c0, a.plus(b), Lin::cst(P2(w) - 1));
					eq(c1, self.plus(Lin::cst(P2(w))), a.plus(b)); le(c1, Lin::cst(P2(w)), a.plus(b));
					f.splits.push_back({c0, c1});
				} else if (WO->getIntrinsicID() == Intrinsic::usub_with_overflow) {
					eq(c0, self, a.plus(b, -1)); le(c0, b, a);
					eq(c1, self, a.plus(b, -1).plus(Lin::cst(P2(w)))); le(c1, a.plus(Lin::cst(1)), b);
					f.splits.push_back({c0, c1});
				} else if (WO->getIntrinsicID() == Intrinsic::umul_with_overflow) {
					auto *c = dyn_cast<ConstantInt>(WO->getRHS());
					if (c && c->getValue().ult(1 << 20)) { Lin p; p.add(a, (i128)c->getZExtValue()); eq(c0, self, p); le(c0, p, Lin::cst(P2(w) - 1)); le(c1, Lin::cst(P2(w)), p); f.splits.push_back({c0, c1}); }
				}
			}
		}
		return;
	}
	if (auto *P = dyn_cast<PHINode>(I)) {
		bool back = false;
		for (auto *B : P->blocks()) if (DT->dominates(P->getParent(), B)) back = true;
		if (back && inferRelational) {
			const Loop *L = LI->getLoopFor(P->getParent());
			if (L && L->getHeader() == P->getParent()) {
				if (!loopRel.count(L)) { Query *save = Q; Q = nullptr; relational(L); Q = save; }
				for (auto &r : loopRelF[L]) if (r.first == P) { Lin b = symField(r.second); need(b); le(f.cons, self, b); }
				for (auto &r : loopRel[L]) if (r.first == P || r.second == P) { Lin a = use(r.first), b = use(r.second); le(f.cons, a, b); }
			}
		}
		if (back) {
			const Value *st = nullptr;
			depthGuard++;
			Query *save = Q; Q = nullptr;
			int d = phiMonotone(P, st);
			Q = save;
			depthGuard--;
			if (d && st) {
				Lin s = use(st);
				if (d == 1) le(f.cons, s, self); else le(f.cons, self, s);
				// exact steps: value = start + step * iteration
				APInt step;
				if (constStep(P, step)) {
					Lin it = iteration(LI->getLoopFor(P->getParent())); need(it);
					Lin e = s; e.add(it, (i128)step.getSExtValue());
					eq(f.cons, self, e);
				}
			} else if (w > 1) signedMonotone(P, f);
			return;
		}
		// all integer phis of the block are decided together by the incoming edge
		std::vector<std::pair<const PHINode*, int>> grp;
		for (auto &ph : P->getParent()->phis()) if (ph.getType()->isIntegerTy() && ph.getType()->getIntegerBitWidth() <= 64 && grp.size() < 8) {
			Lin l = val(&ph);
			if (l.c.size() == 1 && l.k == 0 && l.c.begin()->second == 1 && atoms[l.c.begin()->first].v == &ph) grp.push_back({&ph, l.c.begin()->first});
		}
		if (!Q->phiBlocks.insert(P->getParent()).second) return;
		bool inGrp = false; for (auto &g : grp) inGrp |= g.first == P;
		if (!inGrp) grp.push_back({P, ai});
		for (auto &g : grp) need(Lin::atom(g.second));
		// edges that bring the same values form one alternative
		MapVector<const BasicBlock*, unsigned> cls; std::vector<std::vector<const BasicBlock*>> members;
		std::map<std::vector<const Value*>, unsigned> key;
		for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
			auto *B = P->getIncomingBlock(i);
			if (!DT->isReachableFromEntry(B) || cls.count(B)) continue;
			std::vector<const Value*> k; for (auto &g : grp) k.push_back(g.first->getIncomingValueForBlock(B));
			auto it = key.emplace(k, members.size()); if (it.second) members.emplace_back();
			cls[B] = it.first->second; members[it.first->second].push_back(B);
		}
		if (members.size() > 8) return;
		Disj D;
		for (auto &mb : members) {
			Facts pf;
			if (mb.size() == 1) edgeFacts(mb[0], P->getParent(), pf, 3);
			else {
				const BasicBlock *N = mb[0]; for (auto *b : mb) N = DT->findNearestCommonDominator(N, b);
				std::vector<std::pair<const Value*, bool>> cs;
				auto *PN = DT->getNode(P->getParent());
				const BasicBlock *stop = PN && PN->getIDom() ? PN->getIDom()->getBlock() : nullptr;
				if (N != stop) domConds(N, stop, cs, pf);
				for (auto &c : cs) condFacts(c.first, c.second, pf, 3);
			}
			for (auto c : alts(pf, mb.size() == 1 ? 4 : 2)) {
				for (auto &g : grp) eq(c, Lin::atom(g.second), use(g.first->getIncomingValueForBlock(mb[0])));
				D.push_back(c);
			}
		}
		f.splits.push_back(D);
		return;
	}
}

// a counter that only counts down (up) in the signed order, by arithmetic that
// cannot overflow: its start bounds every value of the right sign
void Prover::signedMonotone(const PHINode *P, Facts &f) {
	unsigned w = P->getType()->getIntegerBitWidth();
	const Value *st = nullptr; int dir = 0;
	for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
		auto *B = P->getIncomingBlock(i); auto *v = P->getIncomingValue(i);
		if (!DT->isReachableFromEntry(B) || v == P) continue;
		if (!DT->dominates(P->getParent(), B)) { if (st && st != v) return; st = v; continue; }
		auto *BO = dyn_cast<OverflowingBinaryOperator>(v); const ConstantInt *c = nullptr;
		if (!BO || (BO->getOpcode() != Instruction::Add && BO->getOpcode() != Instruction::Sub) || BO->getOperand(0) != P || !(c = dyn_cast<ConstantInt>(BO->getOperand(1))) || c->isZero()) return;
		APInt k = c->getValue(); if (BO->getOpcode() == Instruction::Sub) k.negate();
		int d = k.isNegative() ? -1 : 1; if (dir && d != dir) return; dir = d;
		// no overflow: the compiler says so, or the value is known to be of the sign the step reduces
		if (BO->hasNoSignedWrap()) continue;
		return;
	}
	if (!st || !dir) return;
	Lin self = val(P), s = val(st); if (!self.ok || !s.ok) return; need(self); need(s);
	Lin half = Lin::cst(P2(w - 1)), top = Lin::cst(P2(w - 1) - 1);
	Conj neg, pos; le(neg, half, self); le(pos, self, top);
	if (dir < 0) { le(pos, self, s); le(pos, s, top); } else { le(neg, s, self); le(neg, half, s); }
	f.splits.push_back({pos, neg});
}

void Prover::cmpFacts(CmpInst::Predicate p, const Value *A, const Value *B, Facts &out) {
	if (A->getType()->isPointerTy()) { // null tests
		if (isa<ConstantPointerNull>(A)) { std::swap(A, B); p = CmpInst::getSwappedPredicate(p); }
		if (!isa<ConstantPointerNull>(B)) return;
		Lin a = Lin::atom(atomFor(A)); need(a);
		if (p == CmpInst::ICMP_EQ) eq(out.cons, a, Lin::cst(0));
		else if (p == CmpInst::ICMP_NE) le(out.cons, Lin::cst(1), a);
		return;
	}
	if (!A->getType()->isIntegerTy()) {
		return;
	}
	unsigned w = A->getType()->getIntegerBitWidth();
	if (w > 64) return;
	if (w == 1) return;
	Lin a = val(A), b = val(B);
	if (!a.ok || !b.ok) return;
	need(a); need(b);
	auto lt = [&](const Lin &x, const Lin &y, Conj &o) { le(o, x.plus(Lin::cst(1)), y); };
	// a multiple of 2^z below a constant is at most the largest multiple below it
	if (auto *cb = dyn_cast<ConstantInt>(B); cb && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) && !(p == CmpInst::ICMP_ULT && cb->isZero())) if (unsigned z = computeKnownBits(A, DL).countMinTrailingZeros(); z && z < 32) {
		i128 top = (i128)cb->getZExtValue() - (p == CmpInst::ICMP_ULT ? 1 : 0); le(out.cons, a, Lin::cst(top - top % P2(z))); }
	switch (p) {
	case CmpInst::ICMP_EQ: eq(out.cons, a, b); return;
	case CmpInst::ICMP_NE: { Conj c0, c1; lt(a, b, c0); lt(b, a, c1); out.splits.push_back({c0, c1}); return; }
	case CmpInst::ICMP_ULT: lt(a, b, out.cons); return;
	case CmpInst::ICMP_ULE: le(out.cons, a, b); return;
	case CmpInst::ICMP_UGT: lt(b, a, out.cons); return;
	case CmpInst::ICMP_UGE: le(out.cons, b, a); return;
	default: break;
	}
	// signed: split on the sign of both operands
	i128 H = P2(w - 1), Wd = P2(w);
	Disj D;
	for (int sa = 0; sa < 2; sa++) for (int sb = 0; sb < 2; sb++) {
		Conj c;
		if (sa) le(c, Lin::cst(H), a); else le(c, a, Lin::cst(H - 1));
		if (sb) le(c, Lin::cst(H), b); else le(c, b, Lin::cst(H - 1));
		Lin x = a.plus(Lin::cst(sa ? -Wd : 0)), y = b.plus(Lin::cst(sb ? -Wd : 0));
		switch (p) {
		case CmpInst::ICMP_SLT: lt(x, y, c); break;
		case CmpInst::ICMP_SLE: le(c, x, y); break;
		case CmpInst::ICMP_SGT: lt(y, x, c); break;
		case CmpInst::ICMP_SGE: le(c, y, x); break;
		default: return;
		}
		// drop trivially infeasible alternatives
		Conj t = c;
		for (auto &q : {a, b}) for (auto &pr : q.c) { t.push_back(Lin::cst(atoms[pr.first].lo).plus(Lin::atom(pr.first), -1)); t.push_back(Lin::atom(pr.first).plus(Lin::cst(atoms[pr.first].hi), -1)); }
		if (fmInfeasible(t)) continue;
		D.push_back(c);
	}
	if (D.size() == 1) { for (auto &l : D[0]) out.cons.push_back(l); return; }
	out.splits.push_back(D);
}

void Prover::condFacts(const Value *cond, bool truth, Facts &out, unsigned depth) {
	if (!depth) return;
	if (auto *CI = dyn_cast<ConstantInt>(cond)) {
		if (CI->isOne() != truth) out.cons.push_back(Lin::cst(1)); // contradiction: infeasible
		return;
	}
	if (auto *FI = dyn_cast<FreezeInst>(cond)) return condFacts(FI->getOperand(0), truth, out, depth);
	if (auto *T = dyn_cast<TruncInst>(cond)) {
		if (auto *Z = dyn_cast<ZExtInst>(T->getOperand(0))) if (Z->getOperand(0)->getType()->isIntegerTy(1)) return condFacts(Z->getOperand(0), truth, out, depth);
		return;
	}
	if (auto *IC = dyn_cast<ICmpInst>(cond)) {
		auto p = truth ? IC->getPredicate() : IC->getInversePredicate();
		const Value *A = IC->getOperand(0), *B = IC->getOperand(1);
		// (zext i1 x) ==/!= 0
		if (auto *CB = dyn_cast<ConstantInt>(B)) {
			const Value *Z = nullptr;
			if (auto *ze = dyn_cast<ZExtInst>(A)) Z = ze->getOperand(0);
			if (Z && Z->getType()->isIntegerTy(1)) {
				if (p == CmpInst::ICMP_NE && CB->isZero()) return condFacts(Z, true, out, depth);
				if (p == CmpInst::ICMP_EQ && CB->isZero()) return condFacts(Z, false, out, depth);
				if (p == CmpInst::ICMP_EQ && CB->isOne()) return condFacts(Z, true, out, depth);
			}
			if (A->getType()->isIntegerTy(1) && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return condFacts(A, (p == CmpInst::ICMP_EQ) == CB->isOne(), out, depth);
		}
		cmpFacts(p, A, B, out);
		return;
	}
	if (auto *BO = dyn_cast<BinaryOperator>(cond)) {
		if (BO->getOpcode() == Instruction::Xor) {
			if (auto *c = dyn_cast<ConstantInt>(BO->getOperand(1))) if (c->isOne()) return condFacts(BO->getOperand(0), !truth, out, depth);
			return;
		}
		bool isAnd = BO->getOpcode() == Instruction::And, isOr = BO->getOpcode() == Instruction::Or;
		if ((isAnd && truth) || (isOr && !truth)) { condFacts(BO->getOperand(0), truth, out, depth - 1); condFacts(BO->getOperand(1), truth, out, depth - 1); return; }
		if (isAnd || isOr) {
			Facts a, b; condFacts(BO->getOperand(0), truth, a, depth - 1); condFacts(BO->getOperand(1), truth, b, depth - 1);
			joinAlts(alts(a, 3), alts(b, 3), out.splits);
		}
		return;
	}
	if (auto *S = dyn_cast<SelectInst>(cond)) {
		auto *tv = dyn_cast<ConstantInt>(S->getTrueValue()), *fv = dyn_cast<ConstantInt>(S->getFalseValue());
		if (fv && fv->isZero()) { // a && b
			if (truth) { condFacts(S->getCondition(), true, out, depth - 1); condFacts(S->getTrueValue(), true, out, depth - 1); }
			else { Facts a, b; condFacts(S->getCondition(), false, a, depth - 1); condFacts(S->getTrueValue(), false, b, depth - 1); joinAlts(alts(a, 3), alts(b, 3), out.splits); }
			return;
		}
		if (tv && tv->isOne()) { // a || b
			if (!truth) { condFacts(S->getCondition(), false, out, depth - 1); condFacts(S->getFalseValue(), false, out, depth - 1); }
			else { Facts a, b; condFacts(S->getCondition(), true, a, depth - 1); condFacts(S->getFalseValue(), true, b, depth - 1); joinAlts(alts(a, 3), alts(b, 3), out.splits); }
			return;
		}
		Facts a, b;
		condFacts(S->getCondition(), true, a, depth - 1); condFacts(S->getTrueValue(), truth, a, depth - 1);
		condFacts(S->getCondition(), false, b, depth - 1); condFacts(S->getFalseValue(), truth, b, depth - 1);
		joinAlts(alts(a, 3), alts(b, 3), out.splits);
		return;
	}
	if (auto *P = dyn_cast<PHINode>(cond)) {
		bool back = false;
		for (auto *B : P->blocks()) if (DT->dominates(P->getParent(), B)) back = true;
		if (back || P->getNumIncomingValues() > 8) return;
		std::vector<Facts> alts;
		for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
			auto *iv = P->getIncomingValue(i);
			if (auto *c = dyn_cast<ConstantInt>(iv)) if (c->isOne() != truth) continue;
			if (!DT->isReachableFromEntry(P->getIncomingBlock(i))) continue;
			Facts a;
			condFacts(iv, truth, a, depth - 1);
			edgeFacts(P->getIncomingBlock(i), P->getParent(), a, depth - 1);
			alts.push_back(a);
		}
		if (alts.size() == 1) { for (auto &l : alts[0].cons) out.cons.push_back(l); for (auto &s : alts[0].splits) out.splits.push_back(s); return; }
		Disj D; for (auto &a : alts) D.push_back(a.cons);
		out.splits.push_back(D);
		return;
	}
	if (auto *EV = dyn_cast<ExtractValueInst>(cond)) {
		if (auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand())) if (EV->getIndices()[0] == 1) {
			unsigned w = WO->getLHS()->getType()->getIntegerBitWidth();
			if (w > 64) return;
			Lin a = val(WO->getLHS()), b = val(WO->getRHS()); need(a); need(b);
			if (WO->getIntrinsicID() == Intrinsic::uadd_with_overflow) {
				if (truth) le(out.cons, Lin::cst(P2(w)), a.plus(b)); else le(out.cons, a.plus(b), Lin::cst(P2(w) - 1));
			} else if (WO->getIntrinsicID() == Intrinsic::usub_with_overflow) {
				if (truth) le(out.cons, a.plus(Lin::cst(1)), b); else le(out.cons, b, a);
			} else if (WO->getIntrinsicID() == Intrinsic::umul_with_overflow) {
				auto *c = dyn_cast<ConstantInt>(WO->getRHS());
				if (c && c->getValue().ult(1 << 20)) { Lin p; p.add(a, (i128)c->getZExtValue()); if (!truth) le(out.cons, p, Lin::cst(P2(w) - 1)); }
			}
		}
		return;
	}
}

// facts known when control goes from -> to, gathered from `from` up to the
// immediate dominator of `to`
void Prover::edgeFacts(const BasicBlock *from, const BasicBlock *to, Facts &out, unsigned depth) {
	std::vector<std::pair<const Value*, bool>> cs;
	auto edge = [&](const BasicBlock *a, const BasicBlock *b) {
		auto *T = a->getTerminator();
		if (auto *BI = dyn_cast<BranchInst>(T)) { if (BI->isConditional() && BI->getSuccessor(0) != BI->getSuccessor(1)) cs.push_back({BI->getCondition(), BI->getSuccessor(0) == b}); }
		else if (auto *SI = dyn_cast<SwitchInst>(T)) {
			const ConstantInt *only = nullptr; unsigned n = 0;
			for (auto &c : SI->cases()) if (c.getCaseSuccessor() == b) { only = c.getCaseValue(); n++; }
			if (n == 1 && SI->getDefaultDest() != b && SI->getCondition()->getType()->getIntegerBitWidth() <= 64) { Lin v = val(SI->getCondition()); need(v); eq(out.cons, v, Lin::cst((i128)only->getZExtValue())); }
		}
	};
	edge(from, to);
	auto *N = DT->getNode(to);
	const BasicBlock *stop = N && N->getIDom() ? N->getIDom()->getBlock() : nullptr;
	domConds(from, stop, cs, out);
	for (auto &c : cs) condFacts(c.first, c.second, out, depth);
}

void Prover::domConds(const BasicBlock *BB, const BasicBlock *stop, std::vector<std::pair<const Value*, bool>> &out, Facts &direct) {
	auto *N = DT->getNode(BB);
	for (unsigned n = 0; N && N->getBlock() != stop && N->getIDom() && n < 4000; n++) {
		const BasicBlock *B = N->getBlock(), *D = N->getIDom()->getBlock();
		auto *T = D->getTerminator();
		if (auto *BI = dyn_cast<BranchInst>(T)) {
			if (BI->isConditional() && BI->getSuccessor(0) != BI->getSuccessor(1)) {
				for (int s = 0; s < 2; s++) {
					BasicBlockEdge E(D, BI->getSuccessor(s));
					if (DT->dominates(E, B)) out.push_back({BI->getCondition(), s == 0});
				}
			}
		} else if (auto *SI = dyn_cast<SwitchInst>(T)) {
			if (B->getSinglePredecessor() == D && SI->getCondition()->getType()->getIntegerBitWidth() <= 64) {
				std::vector<const ConstantInt*> cv;
				for (auto &c : SI->cases()) if (c.getCaseSuccessor() == B) cv.push_back(c.getCaseValue());
				if (SI->getDefaultDest() != B && Q) {
					if (cv.size() == 1) { Lin v = val(SI->getCondition()); need(v); eq(direct.cons, v, Lin::cst((i128)cv[0]->getZExtValue())); }
					else if (cv.size() <= 8) { Lin v = val(SI->getCondition()); need(v); Disj d; for (auto *c : cv) { Conj k; eq(k, v, Lin::cst((i128)c->getZExtValue())); d.push_back(k); } direct.splits.push_back(d); }
				} else if (SI->getDefaultDest() == B && cv.empty() && Q && SI->getNumCases() <= 3) {
					for (auto &c : SI->cases()) { Lin v = val(SI->getCondition()); need(v); Conj c0, c1; Lin k = Lin::cst((i128)c.getCaseValue()->getZExtValue()); le(c0, v.plus(Lin::cst(1)), k); le(c1, k.plus(Lin::cst(1)), v); direct.splits.push_back({c0, c1}); }
				}
			}
		}
		N = N->getIDom();
	}
}

void Prover::leaves(const Value *v, std::set<const Value*> &s, std::set<std::string> &fs, unsigned depth) {
	if (isa<Constant>(v)) return;
	std::string key;
	if (isStableLoad(v, key)) { fs.insert(key); return; }
	if (!s.insert(v).second) return;
	if (!depth) return;
	auto *I = dyn_cast<Instruction>(v);
	if (!I) return;
	if (isa<LoadInst>(I) || isa<AllocaInst>(I) || isa<CallBase>(I)) {
		if (auto *II = dyn_cast<IntrinsicInst>(I)) for (auto &o : II->args()) leaves(o, s, fs, depth - 1);
		return;
	}
	if (auto *P = dyn_cast<PHINode>(I)) {
		if (P->getNumIncomingValues() > 8) return;
		for (auto &o : P->incoming_values()) leaves(o, s, fs, depth - 1);
		return;
	}
	for (auto &o : I->operands()) if (o->getType()->isIntegerTy() || isa<ExtractValueInst>(I) || isa<ICmpInst>(I)) leaves(o, s, fs, depth - 1);
}

bool Prover::solve(const Conj &base, const std::vector<Disj> &sp, size_t idx) {
	if (budget == 0) return false;
	budget--;
	if (fmInfeasible(base)) return true;
	if (idx >= sp.size()) return false;
	// skip splits that do not touch anything relevant: try in order
	for (auto &alt : sp[idx]) {
		Conj b = base;
		for (auto &l : alt) b.push_back(l);
		if (!solve(b, sp, idx + 1)) return false;
	}
	return true;
}

bool Prover::prove(const std::vector<Disj> &negGoal, const std::vector<const Value*> &seeds, const Conj &seedLins, const Instruction *ctx) {
	queries++;
	Query q; q.ctx = ctx;
	Query *save = Q; Q = &q;
	for (auto &l : seedLins) need(l);
	for (auto &d : negGoal) for (auto &c : d) for (auto &l : c) need(l);
	std::set<const Value*> ls; std::set<std::string> fs;
	for (auto *s : seeds) leaves(s, ls, fs, 8);
	for (int a : q.active) if (atoms[a].v) leaves(atoms[a].v, ls, fs, 8);
	std::vector<std::pair<const Value*, bool>> conds;
	domConds(ctx->getParent(), nullptr, conds, q.f);
	// assume() facts in dominating position
	if (extraCond) condFacts(extraCond, extraTruth, q.f, 6);
	std::vector<bool> used(conds.size());
	for (unsigned round = 0; round < 5; round++) {
		bool ch = false;
		for (size_t i = 0; i < conds.size(); i++) {
			if (used[i]) continue;
			std::set<const Value*> cl; std::set<std::string> cf;
			leaves(conds[i].first, cl, cf, 8);
			bool hit = false; unsigned nonCond = 0;
			for (auto *v : cl) { if (isa<ICmpInst>(v)) continue; nonCond++; if (ls.count(v)) { hit = true; } }
			if (!nonCond) hit = true;
			if (!hit) continue;
			used[i] = true; ch = true;
			condFacts(conds[i].first, conds[i].second, q.f, 6);
			if (cl.size() < 40) for (auto *v : cl) if (!isa<ICmpInst>(v)) ls.insert(v);
		}
		if (!ch) break;
	}
	for (auto &l : globalFacts) { q.f.cons.push_back(l); need(l); }
	for (unsigned n = 0; !q.todo.empty() && n < 120; n++) { int a = q.todo.back(); q.todo.pop_back(); expandAtom(a); }
	for (int a : q.todo) { q.f.cons.push_back(Lin::cst(atoms[a].lo).plus(Lin::atom(a), -1)); q.f.cons.push_back(Lin::atom(a).plus(Lin::cst(atoms[a].hi), -1)); }
	Q = save;
	std::vector<Disj> sp = negGoal;
	// cheap unit propagation on splits: drop infeasible alternatives against base
	Conj base = q.f.cons;
	if (sp.size() == 1 && sp[0].size() == 1) { for (auto &l : sp[0][0]) base.push_back(l); sp.clear(); }
	if (fmInfeasible(base)) return true;
	std::vector<Disj> rest = q.f.splits;
	bool changed = true;
	for (unsigned r = 0; changed && r < 6; r++) {
		changed = false;
		std::vector<Disj> nr;
		for (auto &d : rest) {
			Disj keep;
			for (auto &alt : d) { Conj b = base; for (auto &l : alt) b.push_back(l); if (!fmInfeasible(b)) keep.push_back(alt); }
			if (keep.empty()) return true;
			if (keep.size() == 1) { for (auto &l : keep[0]) base.push_back(l); changed = true; }
			else nr.push_back(keep);
		}
		rest.swap(nr);
	}
	for (auto &d : rest) sp.push_back(d);
	if (sp.size() > 24) sp.resize(24);
	budget = 3000;
	return solve(base, sp, 0);
}

bool Prover::proveLE(const Lin &a, const Lin &b, const Instruction *ctx) {
	if (!a.ok || !b.ok) return false;
	Lin ng = b.plus(Lin::cst(1)).plus(a, -1); // b + 1 <= a
	return prove({{{ng}}}, {}, {a, b}, ctx);
}
bool Prover::proveNE(const Value *v, const APInt &k, const Instruction *ctx) {
	Lin l = val(v);
	if (!l.ok) return false;
	Lin kk = Lin::cst((i128)k.getZExtValue());
	return prove({{{l.plus(kk, -1), kk.plus(l, -1)}}}, {v}, {l}, ctx);
}
bool Prover::proveCond(const Value *cond, bool truth, const Instruction *ctx) {
	if (auto *K = dyn_cast<ConstantInt>(cond)) if (K->isOne() == truth) return true;
	extraCond = cond; extraTruth = !truth;
	bool r = prove({}, {cond}, {}, ctx);
	extraCond = nullptr; return r;
}
bool Prover::proveNonZero(const Value *v, const Instruction *ctx) {
	return proveNE(v, APInt(v->getType()->getIntegerBitWidth(), 0), ctx);
}

std::string Prover::show(const Lin &l) const {
	std::string s;
	for (auto &p : l.c) { s += (s.empty() ? "" : " + ") + std::to_string((long long)p.second) + "*" + atoms[p.first].name; }
	s += " + " + std::to_string((long long)l.k);
	return s;
}

PtrInfo decompose(const Value *P, Prover &Pr, unsigned depth) {
	PtrInfo R; R.off = Lin::cst(0); R.ok = true;
	for (unsigned n = 0; n < 32; n++) {
		if (auto *G = dyn_cast<GEPOperator>(P)) {
			for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
				const Value *idx = GTI.getOperand();
				if (StructType *ST = GTI.getStructTypeOrNull()) {
					R.off.k += Pr.DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue();
					continue;
				}
				i128 sz = Pr.DL.getTypeAllocSize(GTI.getIndexedType()).getFixedValue();
				if (auto *CI = dyn_cast<ConstantInt>(idx)) { R.off.k += sz * (i128)CI->getSExtValue(); continue; }
				if (!idx->getType()->isIntegerTy()) { R.ok = false; return R; }
				const Value *neg = nullptr;
				if (auto *BO = dyn_cast<BinaryOperator>(idx)) if (BO->getOpcode() == Instruction::Sub) if (auto *z = dyn_cast<ConstantInt>(BO->getOperand(0))) if (z->isZero()) neg = BO->getOperand(1);
				if (neg) R.off.add(Pr.val(neg), -sz);
				else R.off.add(Pr.val(idx), sz);
			}
			P = G->getPointerOperand();
			continue;
		}
		break;
	}
	if (auto *Ph = dyn_cast<PHINode>(P)) {
		APInt step;
		const Value *start = nullptr;
		if (Pr.constStep(Ph, step) && depth < 8) {
			const Loop *L = Pr.LI->getLoopFor(Ph->getParent());
			bool one = true;
			for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) if (!L->contains(Ph->getIncomingBlock(i))) {
				if (start && start != Ph->getIncomingValue(i)) one = false;
				start = Ph->getIncomingValue(i);
			}
			if (one && start) {
				PtrInfo S = decompose(start, Pr, depth + 1);
				R.off.add(S.off); R.off.add(Pr.iteration(L), (i128)step.getSExtValue());
				R.base = S.base; R.ok = R.ok && S.ok && R.off.ok;
				return R;
			}
		} else if (depth < 8) {
			// all incoming pointers equal (loop exit copies)
			const Value *u = nullptr; bool same = true;
			for (auto &v : Ph->incoming_values()) { if (v == Ph) continue; if (u && u != v) same = false; u = v; }
			if (same && u) { PtrInfo S = decompose(u, Pr, depth + 1); R.off.add(S.off); R.base = S.base; R.ok = R.ok && S.ok && R.off.ok; return R; }
		}
	}
	R.base = P;
	if (!R.off.ok) R.ok = false;
	return R;
}

// Is [P, P+size) inside an object of the given kind and length?  Falls back to
// checking every pointer that can flow into a phi/select web, where it was made.
bool proveInObject(const Value *P, const Lin &size, const Lin &limit, const std::function<bool(const Value*)> &isBase, const Instruction *ctx, Prover &Pr, const Lin *lower, bool others) {
	PtrInfo pi = decompose(P, Pr);
	if (!pi.ok) return false;
	auto within = [&](const PtrInfo &q, const Instruction *at) {
		return (!lower || Pr.proveLE(*lower, q.off, at)) && Pr.proveLE(q.off.plus(size), limit, at);
	};
	if (isBase(pi.base)) return within(pi, ctx);
	if (!isa<PHINode>(pi.base) && !isa<SelectInst>(pi.base)) return false;
	// a choice between objects: either is right (every value is of the same moment)
	if (auto *S = dyn_cast<SelectInst>(pi.base)) if (!pi.off.c.empty() || !size.c.empty()) {
		for (auto *v : {S->getTrueValue(), S->getFalseValue()}) { PtrInfo q = decompose(v, Pr); if (!q.ok) return false; q.off.add(pi.off);
			if (isBase(q.base)) { if (!within(q, ctx)) return false; } else if (!others || !(isa<AllocaInst>(q.base) || isa<GlobalVariable>(q.base))) return false; }
		return true;
	}
	if (!pi.off.c.empty() || !size.c.empty()) return false; // only a constant displacement
	std::vector<std::pair<const Value*, const Instruction*>> wl{{pi.base, ctx}};
	std::set<const Value*> seen;
	bool any = false;
	while (!wl.empty()) {
		auto [v, at] = wl.back(); wl.pop_back();
		if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) continue;
		PtrInfo q = decompose(v, Pr);
		if (!q.ok) return false;
		if (isBase(q.base)) { q.off.add(pi.off); if (!within(q, at)) return false; any = true; continue; }
		if (!q.off.c.empty() || q.off.k != 0) return false;
		if (!seen.insert(q.base).second) continue;
		if (auto *Ph = dyn_cast<PHINode>(q.base)) { for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) wl.push_back({Ph->getIncomingValue(i), Ph->getIncomingBlock(i)->getTerminator()}); }
		else if (auto *S = dyn_cast<SelectInst>(q.base)) { wl.push_back({S->getTrueValue(), S}); wl.push_back({S->getFalseValue(), S}); }
		else if (others && (isa<AllocaInst>(q.base) || isa<GlobalVariable>(q.base))) any = true; // judged with that object
		else return false;
	}
	return any;
}

} // namespace lva
