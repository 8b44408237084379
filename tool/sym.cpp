// Canonical values: see sym.hpp
#include "sym.hpp"
namespace lva {
typedef std::vector<SBit> Bits;
static SBit c0() { return SBit{-1, 0}; }
// bitwise mode: a bit of a vector may be the negation of a named bit; only vectors carry the mark, atoms of up to 64 bits never do
static const int NEG = 1 << 20;
static SBit negB(SBit q) { if (q.leaf < 0) q.ix = !q.ix; else q.ix ^= NEG; return q; }
static bool isNeg(const SBit &q) { return q.leaf >= 0 && (q.ix & NEG); }
SVal Sym::leaf(const std::string &key, unsigned w, const Value *rep) {
	auto it = leafId.find(key); int id;
	if (it == leafId.end()) { id = (int)leaves.size(); leaves.push_back({key, w, rep}); leafId[key] = id; } else id = it->second;
	Bits b; for (unsigned i = 0; i < w; i++) b.push_back({id, (int)i});
	return fromBits(b);
}
int Sym::leafOfAtom(int a) const {
	auto &b = atoms[a]; if (b.empty() || b[0].leaf < 0) return -1;
	int l = b[0].leaf; unsigned w = leaves[l].w;
	for (unsigned i = 0; i < b.size(); i++) { if (i < w ? !(b[i] == SBit{l, (int)i}) : !(b[i] == SBit{-1, 0})) return -1; }
	return b.size() >= w ? l : -1;
}
SVal Sym::fromBits(Bits b) {
	SVal r; r.w = b.size();
	if (!known.empty()) for (auto &q : b) if (q.leaf >= 0) { bool n = isNeg(q); auto it = known.find(n ? negB(q) : q); if (it != known.end()) q = SBit{-1, it->second != n}; }
	if (bitwise && r.w <= 64 && llvm::any_of(b, isNeg)) { // negated bits: 2^i - 2^i x
		if (r.w > 1 && isNeg(b.back()) && !isNeg(b[b.size() - 2])) { b.back() = negB(b.back()); return add(fromBits(b), cst(r.w, 1ull << (r.w - 1))); }
		{ SBit one; bool same = true; uint64_t z0 = 0, z1 = 0; for (unsigned i = 0; i < b.size(); i++) { SBit q = b[i]; bool n = isNeg(q); if (n) q = negB(q); if (q.leaf < 0) { if (q.ix) { z0 |= 1ull << i; z1 |= 1ull << i; } continue; } if (one.leaf >= 0 && !(one == q)) { same = false; break; } one = q; (n ? z0 : z1) |= 1ull << i; }
			if (same) { Bits u(b.size(), c0()); u[0] = one; SVal r1 = fromBits(u); uint64_t f = z1 - z0; SVal o = cst(r.w, z0); for (auto &p : r1.c) o.c[p.first] = (p.second * f) & mask(r.w); return o; } }
		Bits n(b.size(), c0()); uint64_t m = 0; for (unsigned i = 0; i < b.size(); i++) if (isNeg(b[i])) { n[i] = negB(b[i]); b[i] = c0(); m |= 1ull << i; }
		return add(add(fromBits(b), cst(r.w, m)), fromBits(n), ~0ull);
	}
	if (r.w > 64) { r.ok = true; }
	uint64_t k = 0; bool any = false;
	if (r.w <= 64) for (unsigned i = 0; i < r.w; i++) { if (b[i].leaf == -1) { if (b[i].ix) { k |= 1ull << i; b[i].ix = 0; } } else any = true; }
	else any = true;
	r.k = k;
	if (!any) return r;
	unsigned s = 0;
	if (r.w <= 64) {
		while (b[s].leaf == -1) s++;
		if (s) { Bits n(b.begin() + s, b.end()); SBit top = n.back(); while (n.size() < r.w) n.push_back(top); b = n; }
		// a set constant bit above must not be lost by the fill: constants were taken out
	}
	auto it = atomId.find(b); int id;
	if (it == atomId.end()) { id = (int)atoms.size(); atoms.push_back(b); atomId[b] = id; } else id = it->second;
	r.c[id] = 1ull << (s & 63);
	return r;
}
// all variable bits of an atom are one bit: its value is P times that bit
bool Sym::single(int a, unsigned w, SBit &b, uint64_t &P) {
	b = SBit(); P = 0; auto &q = atoms[a]; for (unsigned i = 0; i < q.size() && i < w; i++) { if (q[i] == c0()) continue; if (q[i].leaf < 0 || (b.leaf >= 0 && !(b == q[i]))) return false; b = q[i]; P |= 1ull << i; }
	return b.leaf >= 0;
}
void Sym::norm(SVal &v) {
	uint64_t m = mask(v.w);
	v.k &= m;
	for (auto it = v.c.begin(); it != v.c.end();) { it->second &= m; if (!it->second) it = v.c.erase(it); else ++it; }
	// bits of an atom that the factor shifts out do not matter: give them one spelling
	if (v.w <= 64) {
		std::map<int, uint64_t> n; uint64_t k = v.k;
		for (auto &p : v.c) {
			unsigned s = llvm::countr_zero(p.second); Bits b = atoms[p.first]; b.resize(v.w, c0());
			bool ch = false;
			if (s) for (unsigned i = v.w - s; i < v.w; i++) if (!(b[i] == b[v.w - s - 1])) { b[i] = b[v.w - s - 1]; ch = true; }
			if (!ch) { n[p.first] += p.second; continue; }
			SVal f = fromBits(b); k += f.k * p.second; for (auto &q : f.c) n[q.first] += q.second * p.second;
		}
		v.c = n; v.k = k & m;
		for (auto it = v.c.begin(); it != v.c.end();) { it->second &= m; if (!it->second) it = v.c.erase(it); else ++it; }
	}
	if (bitwise && v.w > 1 && v.w <= 64 && v.c.size() == 1) { // a multiple of one bit: bit by bit unless some are negated
		SBit b; uint64_t P; if (single(v.c.begin()->first, v.w, b, P)) {
			uint64_t F = (v.c.begin()->second * P) & m, df = (v.k ^ (v.k + F)) & m; Bits u(v.w, c0());
			if (v.k & df) { u[0] = b; SVal x = fromBits(u); v.c.clear(); for (auto &p : x.c) v.c[p.first] = (p.second * F) & m; v.k = (v.k + x.k * F) & m; }
			else { for (unsigned i = 0; i < v.w; i++) if (df >> i & 1) u[i] = b; SVal x = fromBits(u); v.c = x.c; v.k = (v.k + x.k) & m; }
			return; } }
	else if (bitwise && v.w > 1 && v.w <= 64) { // in a sum: by its factor
		std::map<int, uint64_t> n; uint64_t k = v.k; bool ch = false; for (auto &p : v.c) { SBit b; uint64_t P; if (!single(p.first, v.w, b, P) || P == 1) { n[p.first] += p.second; continue; } ch = true; Bits u(v.w, c0()); u[0] = b; SVal x = fromBits(u); k += x.k * p.second * P; for (auto &q : x.c) n[q.first] += q.second * p.second * P; }
		if (ch) { v.c = n; v.k = k; norm(v); return; } }
	if (bitwise && v.w > 1 && v.w <= 64 && v.c.size() == 1 && llvm::popcount(v.c.begin()->second) > 1 && llvm::popcount(v.c.begin()->second) <= 8) { // copies of a field that do not meet
		uint64_t f = v.c.begin()->second; auto &b = atoms[v.c.begin()->first]; Bits q(v.w, c0()); bool fit = true;
		for (unsigned s = 0; s < v.w && fit; s++) if (f >> s & 1) for (unsigned i = 0; i + s < v.w && i < b.size(); i++) if (!(b[i] == c0())) { if (!(q[i + s] == c0())) { fit = false; break; } q[i + s] = b[i]; }
		if (fit) { SVal x = fromBits(q); uint64_t k = v.k; v.c = x.c; v.k = (x.k + k) & m; return; }
	}
	// merge fields that do not overlap
	if (v.w > 64 || v.c.size() < 2) return;
	for (bool ch = true; ch;) {
		ch = false;
		for (auto a = v.c.begin(); a != v.c.end() && !ch; ++a) for (auto b = std::next(a); b != v.c.end() && !ch; ++b) {
			if (!isPowerOf2_64(a->second) || !isPowerOf2_64(b->second)) continue;
			auto place = [&](int at, uint64_t f) { Bits r(v.w, c0()); unsigned s = Log2_64(f); auto &q = atoms[at]; for (unsigned i = 0; i + s < v.w; i++) r[i + s] = q[i]; return r; };
			Bits x = place(a->first, a->second), y = place(b->first, b->second); bool dis = true;
			for (unsigned i = 0; i < v.w && dis; i++) { if (!(x[i] == c0()) && !(y[i] == c0())) dis = false; else if (x[i] == c0()) x[i] = y[i]; }
			if (!dis) continue;
			int ka = a->first, kb = b->first; v.c.erase(ka); v.c.erase(kb);
			SVal n = fromBits(x); v.k += n.k; for (auto &q : n.c) v.c[q.first] += q.second;
			ch = true; goto again;
		}
		again:;
	}
	for (auto it = v.c.begin(); it != v.c.end();) { it->second &= m; if (!it->second) it = v.c.erase(it); else ++it; }
}
SVal Sym::add(const SVal &a, const SVal &b, uint64_t f) { SVal r = a; r.ok = a.ok && b.ok; if (a.w > 64) return op("add" + std::to_string(f), {a, b}, a.w); r.k += f * b.k; for (auto &p : b.c) r.c[p.first] += f * p.second; norm(r); return r; }
SVal Sym::scale(const SVal &a, uint64_t f) { SVal r = a; r.k *= f; for (auto &p : r.c) p.second *= f; norm(r); return r; }
Bits Sym::bits(const SVal &v) {
	Bits r(v.w, c0());
	if (v.w > 64) { if (v.c.size() == 1) return atoms[v.c.begin()->first]; }
	if (v.c.empty()) { for (unsigned i = 0; i < v.w && i < 64; i++) r[i].ix = v.k >> i & 1; return r; }
	if (v.c.size() == 1 && v.w <= 64 && isPowerOf2_64(v.c.begin()->second)) {
		unsigned s = Log2_64(v.c.begin()->second); auto &q = atoms[v.c.begin()->first]; bool dis = true;
		for (unsigned i = 0; i + s < v.w; i++) r[i + s] = q[i];
		for (unsigned i = 0; i < v.w; i++) if (v.k >> i & 1) { if (r[i] == c0()) r[i].ix = 1; else dis = false; }
		if (dis) return r;
	}
	if (v.w <= 64 && v.w > 1 && v.k == 1ull << (v.w - 1)) { // only the sign differs
		SVal x = v; x.k = 0; r = bits(x); r.back() = bitwise ? negB(r.back()) : bits(notb(fromB({r.back()})))[0]; return r;
	}
	if (bitwise && v.w <= 64 && v.c.size() <= 2) { // fields, some of them negated
		auto P = v.c.end(), N = v.c.end(); for (auto i = v.c.begin(); i != v.c.end(); ++i) { if (v.w > 1 && isPowerOf2_64(i->second) && P == v.c.end()) P = i; else if (isPowerOf2_64((0 - i->second) & mask(v.w)) && N == v.c.end()) N = i; else { P = N = v.c.end(); break; } }
		if (N != v.c.end() && (v.c.size() == 1 || P != v.c.end())) {
			auto at = [&](int a, uint64_t f) { Bits q(v.w, c0()); unsigned s = Log2_64(f); for (unsigned i = 0; i + s < v.w; i++) q[i + s] = atoms[a][i]; return q; };
			Bits n = at(N->first, (0 - N->second) & mask(v.w)), p(v.w, c0()); if (P != v.c.end()) p = at(P->first, P->second); bool fit = true; r = p;
			for (unsigned i = 0; i < v.w; i++) { bool k = v.k >> i & 1; if (!(n[i] == c0())) { if (!k || !(p[i] == c0())) { fit = false; break; } r[i] = negB(n[i]); } else if (k) { if (!(p[i] == c0())) { fit = false; break; } r[i].ix = 1; } }
			if (fit) return r; r.assign(v.w, c0());
		}
		if (v.c.size() == 1) { // a multiple of one bit
			SBit q; uint64_t P; if (single(v.c.begin()->first, v.w, q, P)) { uint64_t k1 = v.k + v.c.begin()->second * P; for (unsigned i = 0; i < v.w; i++) { bool x = v.k >> i & 1, y = k1 >> i & 1; r[i] = x == y ? SBit{-1, x} : y ? q : negB(q); } return r; }
		}
	}
	if (bitwise && v.w <= 64) { // copies of fields that do not meet
		Bits q(v.w, c0()); bool fit = true; for (unsigned i = 0; i < v.w; i++) if (v.k >> i & 1) q[i].ix = 1;
		for (auto &p : v.c) { if (llvm::popcount(p.second) > 8) { fit = false; break; } for (unsigned s = 0; s < v.w && fit; s++) if (p.second >> s & 1) { auto &b = atoms[p.first]; for (unsigned i = 0; i + s < v.w && i < b.size(); i++) if (!(b[i] == c0())) { if (!(q[i + s] == c0())) { fit = false; break; } q[i + s] = b[i]; } } }
		if (fit) return q;
	}
	if (bitwise && v.w <= 64 && v.c.size() > 1) for (auto &p : v.c) { // a multiple of one bit in a sum: the sum without it and with it
		SBit q; uint64_t P; if (!single(p.first, v.w, q, P)) continue; SVal a = v, b = v; a.c.erase(p.first); b.c.erase(p.first); b.k = (b.k + p.second * P) & mask(v.w);
		if (!plainSum(a) || !plainSum(b)) continue; Bits x = bits(a), y = bits(b); bool fit = true; for (unsigned i = 0; i < v.w && fit; i++) { if (x[i] == y[i]) r[i] = x[i]; else if (x[i].leaf < 0 && y[i].leaf < 0) r[i] = y[i].ix ? q : negB(q); else fit = false; }
		if (fit) return r; r.assign(v.w, c0());
	}
	if (bitwise && v.w <= 64 && v.c.size() > 1) { // the lowest field does not meet the others: no carry out of its low bits
		auto low = [&](const std::pair<const int, uint64_t> &p) { unsigned z = llvm::countr_zero(p.second); auto &b = atoms[p.first]; for (unsigned i = 0; i < b.size() && b[i] == c0(); i++) z++; return z; };
		unsigned t = v.k ? llvm::countr_zero(v.k) : 64, l0 = 64; int at = -1; for (auto &p : v.c) { unsigned z = low(p); if (z < l0) { if (at >= 0) t = std::min(t, l0); l0 = z; at = p.first; } else t = std::min(t, z); }
		uint64_t f = v.c.find(at)->second; if (t > l0 && t < v.w && isPowerOf2_64(f)) { unsigned s = Log2_64(f); Bits b = atoms[at]; SVal n = cst(v.w - t, v.k >> t);
			for (auto &p : v.c) { Bits q(v.w - t, c0()); if (p.first == at) { for (unsigned i = t; i < v.w; i++) if (i >= s && i - s < b.size()) q[i - t] = b[i - s]; n = add(n, fromBits(q)); continue; }
				unsigned z = llvm::countr_zero(p.second), d = z >= t ? 0 : t - z; Bits c = atoms[p.first]; for (unsigned i = 0; i < v.w - t && i + d < c.size(); i++) q[i] = c[i + d]; n = add(n, scale(fromBits(q), d ? p.second >> z : p.second >> t)); }
			Bits hi = bits(n); for (unsigned i = 0; i < t; i++) r[i] = i >= s && i - s < b.size() ? b[i - s] : c0(); for (unsigned i = t; i < v.w; i++) r[i] = hi[i - t]; return r; }
	}
	// a common factor 2^s shifts the rest up
	if (v.w <= 64) {
		unsigned s = v.k ? llvm::countr_zero(v.k) : 64; for (auto &p : v.c) s = std::min<unsigned>(s, llvm::countr_zero(p.second));
		if (s && s < v.w) {
			SVal n = cst(v.w - s, v.k >> s); for (auto &p : v.c) { Bits q = atoms[p.first]; q.resize(v.w - s, c0()); n = add(n, scale(fromB(q), p.second >> s)); }
			Bits lo = bits(n); for (unsigned i = s; i < v.w; i++) r[i] = lo[i - s];
			return r;
		}
	}
	// v mod 2^t only depends on the atoms mod 2^t: low bits are those of the shorter form
	std::string k = "lin" + std::to_string(v.w) + ":" + key(v);
	auto it = leafId.find(k); int id;
	if (it == leafId.end()) { id = (int)leaves.size(); leaves.push_back({k, v.w, nullptr}); leafId[k] = id; linOf[id] = v; } else id = it->second;
	unsigned h = v.w > 32 ? 32 : v.w > 16 ? 16 : v.w > 8 ? 8 : 0;
	if (v.w > 64) h = 0;
	if (h) { Bits lo = bits(trunc(v, h)); for (unsigned i = 0; i < h; i++) r[i] = lo[i]; }
	for (unsigned i = h; i < v.w; i++) r[i] = {id, (int)i};
	return r;
}
SVal Sym::zext(const SVal &a, unsigned w) {
	if (a.w <= 64 && w <= 64 && !a.c.empty() && (a.k || a.c.size() > 1 || !isPowerOf2_64(a.c.begin()->second))) { // no wrap: the form itself, wider
		unsigned __int128 mx = a.k;
		for (auto &p : a.c) { auto &q = atoms[p.first]; int hi = -1; for (int i = 0; i < (int)q.size(); i++) if (!(q[i] == c0())) hi = i; mx += (unsigned __int128)p.second * (hi < 0 ? 0 : hi >= 63 ? ~0ull : (2ull << hi) - 1); }
		if (mx <= mask(a.w)) { SVal r = cst(w, a.k); for (auto &p : a.c) { Bits q = atoms[p.first]; q.resize(w, c0()); r = add(r, scale(fromB(q), p.second)); } return r; }
	}
	if (a.w <= 64 && w <= 64 && !a.c.empty() && (a.k || a.c.size() > 1 || !isPowerOf2_64(a.c.begin()->second))) { // no wrap with signed factors
		auto sgn = [&](uint64_t v) { return a.w >= 64 ? (int64_t)v : (int64_t)(v << (64 - a.w)) >> (64 - a.w); };
		__int128 lo = a.k, hi = a.k; bool ok = true;
		for (auto &p : a.c) { auto &q = atoms[p.first]; int h = -1; for (int i = 0; i < (int)q.size(); i++) if (!(q[i] == c0())) h = i; if (h > 61) { ok = false; break; } __int128 mx = ((__int128)2 << h) - 1; __int128 f = sgn(p.second); if (f >= 0) hi += f * mx; else lo += f * mx; }
		if (ok && lo >= 0 && hi <= (__int128)mask(a.w)) { SVal r = cst(w, a.k); for (auto &p : a.c) { Bits q = atoms[p.first]; q.resize(w, c0()); r = add(r, scale(fromB(q), (uint64_t)sgn(p.second))); } return r; }
	}
	Bits b = bits(a); b.resize(w, c0()); return fromB(b); }
SVal Sym::sext(const SVal &a, unsigned w) {
	if (a.w <= 64 && w <= 64 && a.w > 1 && !a.c.empty() && (a.k || a.c.size() > 1 || !isPowerOf2_64(a.c.begin()->second))) { // no signed wrap: the form itself, wider
		auto sgn = [&](uint64_t v) { return a.w >= 64 ? (int64_t)v : (int64_t)(v << (64 - a.w)) >> (64 - a.w); };
		__int128 lo = sgn(a.k), hi = lo;
		for (auto &p : a.c) { auto &q = atoms[p.first]; unsigned n = std::min<unsigned>(q.size(), a.w); if (q.size() < a.w) n = q.size();
			unsigned t = n; while (t > 1 && q[t - 1] == q[t - 2]) t--; // value fits t bits, signed
			if (q.size() < a.w && !(q.back() == c0())) { t = a.w; }
			__int128 mn, mx; if (q[n - 1] == c0()) { mn = 0; mx = t >= 64 ? ((__int128)1 << 63) - 1 : ((__int128)1 << (t - 1)) - 1; } else { mn = -((__int128)1 << (t - 1)); mx = ((__int128)1 << (t - 1)) - 1; }
			__int128 f = sgn(p.second); if (f >= 0) { lo += f * mn; hi += f * mx; } else { lo += f * mx; hi += f * mn; } }
		__int128 L = -((__int128)1 << (a.w - 1)), H = ((__int128)1 << (a.w - 1)) - 1;
		if (lo >= L && hi <= H) { SVal r = cst(w, (uint64_t)sgn(a.k)); for (auto &p : a.c) { Bits q = atoms[p.first]; q.resize(a.w, c0()); SBit t = q.back(); q.resize(w, t); r = add(r, scale(fromB(q), (uint64_t)sgn(p.second))); } return r; }
	}
	Bits b = bits(a); SBit t = b.back(); b.resize(w, t); return fromB(b); }
// low bits of a linear form: reduce the form itself
SVal Sym::trunc(const SVal &a, unsigned w) {
	if (a.w <= 64 && !(a.c.size() == 1 && isPowerOf2_64(a.c.begin()->second) && a.k == 0) && !a.c.empty()) {
		SVal r = cst(w, a.k);
		for (auto &p : a.c) { Bits q = atoms[p.first]; q.resize(w); r = add(r, scale(fromB(q), p.second)); }
		return r;
	}
	Bits b = bits(a); b.resize(w); return fromB(b);
}
// bits that spell out a whole linear form are that form
SVal Sym::fromB(const Bits &b) {
	if (b.size() > 1 && b.size() <= 64 && b.back().leaf >= 0 && b.back().ix == 0) { // a negated sign
		auto it = linOf.find(b.back().leaf);
		if (it != linOf.end() && it->second.w == 1 && it->second.k == 1 && it->second.c.size() == 1) { SVal x = it->second; Bits q = b; q.back() = bits(notb(x))[0]; return add(fromB(q), cst(b.size(), 1ull << (b.size() - 1))); }
	}
	if (!b.empty() && b.back().leaf >= 0) {
		auto it = linOf.find(b.back().leaf);
		if (it != linOf.end() && it->second.w >= b.size()) {
			SVal v = it->second; Bits q = bits(v); q.resize(b.size());
			if (q == b) return b.size() == v.w ? v : trunc(v, b.size());
		}
	}
	return fromBits(b);
}
SVal Sym::op(const std::string &name, std::vector<SVal> as, unsigned w, bool comm) {
	std::vector<std::string> ks; bool ok = true; for (auto &a : as) { ks.push_back(key(a)); ok = ok && a.ok; }
	if (comm) llvm::sort(ks);
	std::string s = name + std::to_string(w) + "("; for (auto &k : ks) s += k + ";"; s += ")";
	SVal r = leaf(s, w); r.ok = ok;
	auto it = leafId.find(s); if (it != leafId.end() && !opOf.count(it->second)) opOf[it->second] = {name, as};
	return r;
}
std::string Sym::key(const SVal &v) {
	if (!v.ok) return "?";
	std::string s = "w" + std::to_string(v.w) + "[";
	std::map<std::string, uint64_t> t;
	for (auto &p : v.c) {
		std::string a; auto &b = atoms[p.first];
		for (size_t i = 0; i < b.size();) { // runs
			size_t j = i + 1;
			if (b[i].leaf < 0) { while (j < b.size() && b[j] == b[i]) j++; a += std::string(b[i].ix ? "1" : "0") + "x" + std::to_string(j - i) + ","; }
			else if (j < b.size() && b[j] == b[i]) { while (j < b.size() && b[j] == b[i]) j++; a += "L" + std::to_string(b[i].leaf) + "." + std::to_string(b[i].ix) + "*" + std::to_string(j - i) + ","; }
			else { while (j < b.size() && b[j] == SBit{b[i].leaf, b[i].ix + (int)(j - i)}) j++; a += "L" + std::to_string(b[i].leaf) + "." + std::to_string(b[i].ix) + "+" + std::to_string(j - i) + ","; }
			i = j;
		}
		t[a] = p.second;
	}
	for (auto &p : t) s += std::to_string((int64_t)p.second) + "*{" + p.first + "}+";
	return s + std::to_string((int64_t)v.k) + "]";
}
std::string Sym::show(const SVal &v) {
	std::string s = key(v);
	for (int n = 0; n < 3; n++) { std::string o; for (size_t i = 0; i < s.size();) { if (s[i] == 'L' && i + 1 < s.size() && isdigit(s[i + 1])) { size_t j = i + 1; int id = 0; while (j < s.size() && isdigit(s[j])) id = id * 10 + (s[j++] - '0'); o += id < (int)leaves.size() ? "<" + leaves[id].key + ">" : "L?"; i = j; } else o += s[i++]; } s = o; if (s.size() > 600) break; }
	return s.substr(0, 900);
}
SVal Sym::notb(const SVal &c) { // 1-bit negation
	SVal r = cst(1, 1); return add(r, c, ~0ull);
}
SVal Sym::cmp(unsigned pred, const SVal &a0, const SVal &b0) {
	SVal a = a0, b = b0; auto p = (CmpInst::Predicate)pred;
	if (a.isConst() && b.isConst() && a.w <= 64) { APInt x(a.w, a.k), y(b.w, b.k); return cst(1, ICmpInst::compare(x, y, p)); }
	if (p == CmpInst::ICMP_NE) return notb(cmp(CmpInst::ICMP_EQ, a, b));
	if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
	if (p == CmpInst::ICMP_ULE) return notb(cmp(CmpInst::ICMP_ULT, b, a));
	if (p == CmpInst::ICMP_SLE) return notb(cmp(CmpInst::ICMP_SLT, b, a));
	if (bitwise && p == CmpInst::ICMP_EQ && a.w <= 64) for (unsigned n : {8u, 16u, 32u}) { // both extended from fewer bits
		if (n >= a.w || (a.isConst() && b.isConst())) break; SVal x = trunc(a, n), y = trunc(b, n); std::string ka = key(a), kb = key(b);
		if ((key(zext(x, a.w)) == ka && key(zext(y, a.w)) == kb) || (key(sext(x, a.w)) == ka && key(sext(y, a.w)) == kb)) return cmp(pred, x, y);
	}
	if (p == CmpInst::ICMP_EQ && a.w <= 64) {
		SVal d = add(a, b, ~0ull), n = scale(d, ~0ull);
		if (d.isConst()) return cst(1, d.k == 0);
		if (bitwise) for (int t = 0; t < 2; t++) { SVal e = t ? n : d; if (e.c.size() != 1 || !isPowerOf2_64(e.c.begin()->second)) continue; // the bits of one field
			unsigned sh = Log2_64(e.c.begin()->second); uint64_t want = (0 - e.k) & mask(e.w); if (want & ((1ull << sh) - 1)) return cst(1, 0);
			auto q = atoms[e.c.begin()->first]; SVal r = cst(1, 1);
			{ Bits X, Y; for (unsigned i = 0; i < e.w - sh; i++) { if (q[i].leaf < 0) continue; auto o2 = opOf.find(q[i].leaf); if (o2 == opOf.end() || o2->second.name != "ite" || !(want >> (i + sh) & 1) || o2->second.args[1].isConst()) { X.clear(); break; } auto rec = o2->second; if (!(notb(rec.args[1]) == rec.args[2])) { X.clear(); break; } X.push_back(bits(rec.args[0])[0]); Y.push_back(bits(rec.args[1])[0]); }
			if (X.size() > 1) { bool cok = true; for (unsigned i = 0; i < e.w - sh; i++) if (q[i].leaf < 0 && (want >> (i + sh) & 1)) cok = false; if (cok) return cmp(CmpInst::ICMP_EQ, fromB(X), fromB(Y)); } } for (unsigned i = e.w - sh; i-- > 0;) { SVal x = fromBits({q[i]}); if (!(want >> (i + sh) & 1)) x = notb(x); r = ite(x, r, cst(1, 0)); } return r; }
		if (key(n) < key(d)) d = n;
		return op("eqz", {d}, 1);
	}
	if (key(a) == key(b)) return cst(1, 0);
	if (bitwise && p == CmpInst::ICMP_ULT && a.w <= 64 && b.isConst() && isPowerOf2_64(b.k) && b.k > 1) return cmp(CmpInst::ICMP_EQ, bin(Instruction::LShr, a, cst(a.w, Log2_64(b.k))), cst(a.w, 0));
	if (bitwise && p == CmpInst::ICMP_ULT && a.w <= 64 && a.isConst() && a.k && isMask_64(a.k) && a.k != mask(a.w)) return notb(cmp(CmpInst::ICMP_EQ, bin(Instruction::LShr, b, cst(a.w, llvm::countr_one(a.k))), cst(a.w, 0)));
	if (bitwise && p == CmpInst::ICMP_ULT && a.w <= 64 && (a.isConst() || b.isConst())) { // a short field against a constant
		auto &x = a.isConst() ? b : a; if (plainBits(x)) { Bits q = bits(x); unsigned nv = 0; for (auto &t : q) nv += t.leaf >= 0; if (nv && nv <= 8) { uint64_t k = a.isConst() ? a.k : b.k; SVal lt = cst(1, 0), eq = cst(1, 1); // x < k or x > k, from the top
			for (unsigned i = x.w; i-- > 0;) { SVal t = fromBits({q[i]}); bool kb = k >> i & 1; bool under = !a.isConst(); if (under ? kb : !kb) lt = ite(eq, ite(t, under ? lt : cst(1, 1), under ? cst(1, 1) : lt), lt); eq = ite(eq, kb ? t : notb(t), cst(1, 0)); }
			return lt; } } }
	if (p == CmpInst::ICMP_ULT && b.isConst() && b.k == 1) return cmp(CmpInst::ICMP_EQ, a, cst(a.w, 0));
	if (p == CmpInst::ICMP_ULT && a.isConst() && a.k == 0) return notb(cmp(CmpInst::ICMP_EQ, b, cst(b.w, 0)));
	if (p == CmpInst::ICMP_ULT && b.isConst() && b.k == 0) return cst(1, 0);
	if (p == CmpInst::ICMP_SLT && b.isConst() && b.k == 0 && a.w <= 64) { Bits q = bits(a); return fromB({q.back()}); }
	if (p == CmpInst::ICMP_SLT && a.isConst() && a.k == mask(a.w) && b.w <= 64) { Bits q = bits(b); return notb(fromB({q.back()})); }
	return op(p == CmpInst::ICMP_ULT ? "ult" : p == CmpInst::ICMP_SLT ? "slt" : "cmp" + std::to_string(p), {a, b}, 1);
}
SVal Sym::select(const SVal &c, const SVal &a, const SVal &b) {
	if (c.isConst()) return c.k ? a : b;
	if (key(a) == key(b)) return a;
	if (bitwise && a.w == 1) return ite(c, a, b);
	if (bitwise && a.w <= 64) { Bits x = bits(a), y = bits(b), r(a.w, c0()); for (unsigned i = 0; i < a.w; i++) r[i] = x[i] == y[i] ? x[i] : bits(ite(c, fromBits({x[i]}), fromBits({y[i]})))[0]; return fromB(r); }
	SVal n = notb(c);
	if (a.w == 1 && a.isConst() && !a.k) return bin(Instruction::And, n, b);
	if (a.w == 1 && b.isConst() && !b.k) return bin(Instruction::And, c, a);
	if (a.w == 1 && a.isConst() && a.k && !b.isConst()) return notb(bin(Instruction::And, n, notb(b)));
	if (a.w == 1 && b.isConst() && b.k && !a.isConst()) return notb(bin(Instruction::And, c, notb(a)));
	if (a.w == 1 && a.isConst() && b.isConst()) return a.k ? c : n;
	if (key(n) < key(c)) return op("select", {n, b, a}, a.w);
	return op("select", {c, a, b}, a.w);
}
// an amount at or above the width has no meaning (P12): only its low bits can matter
SVal Sym::amount(const SVal &b) { if (b.w > 64 || !isPowerOf2_64(b.w)) return b; return zext(trunc(b, Log2_64(b.w)), b.w); }
// an amount of at most three variable bits: each shift it may be
bool Sym::splitShift(unsigned o, const SVal &a, const SVal &n, SVal &r) {
	if (!bitwise || a.w > 64) return false; Bits q = bits(n); std::vector<unsigned> v; for (unsigned i = 0; i < q.size(); i++) if (q[i].leaf >= 0) v.push_back(i); if (v.size() > 3) return false;
	Bits x = q; unsigned i = v.back(); SVal c = fromBits({q[i]}); x[i] = SBit{-1, 1}; SVal hi = bin(o, a, fromBits(x)); x[i] = SBit{-1, 0}; SVal lo = bin(o, a, fromBits(x)); r = select(c, hi, lo); return true;
}
SVal Sym::bin(unsigned o, const SVal &a, const SVal &b) {
	unsigned w = a.w;
	if (a.isConst() && b.isConst() && w <= 64) {
		APInt x(w, a.k), y(w, b.k);
		switch (o) {
		case Instruction::And: return cst(w, a.k & b.k); case Instruction::Or: return cst(w, a.k | b.k); case Instruction::Xor: return cst(w, a.k ^ b.k);
		case Instruction::UDiv: if (b.k) return cst(w, x.udiv(y).getZExtValue()); break; case Instruction::URem: if (b.k) return cst(w, x.urem(y).getZExtValue()); break;
		default: break;
		}
	}
	switch (o) {
	case Instruction::Add: return add(a, b);
	case Instruction::Sub: return add(a, b, ~0ull);
	case Instruction::Mul: if (w <= 64) { if (b.isConst()) return scale(a, b.k); if (a.isConst()) return scale(b, a.k); } return op("mul", {a, b}, w, true);
	case Instruction::Shl:
		if (b.isConst() && b.k < w) { if (w <= 64) return scale(a, 1ull << b.k); Bits q = bits(a), r(w, c0()); for (unsigned i = b.k; i < w; i++) r[i] = q[i - b.k]; return fromB(r); }
		{ SVal n = amount(b), sp; if (n.isConst() && !b.isConst()) return bin(o, a, n); if (splitShift(o, a, n, sp)) return sp; return op("shl", {a, n}, w); }
	case Instruction::LShr: case Instruction::AShr:
		if (b.isConst() && b.k < w) { Bits q = bits(a), r(w, c0()); SBit t = o == Instruction::AShr ? q.back() : c0(); for (unsigned i = 0; i < w; i++) r[i] = i + b.k < w ? q[i + b.k] : t; return fromB(r); }
		{ SVal n = amount(b), sp; if (n.isConst() && !b.isConst()) return bin(o, a, n); if (splitShift(o, a, n, sp)) return sp; return op(o == Instruction::LShr ? "lshr" : "ashr", {a, n}, w); }
	case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		if (bitwise && w == 1) return o == Instruction::And ? ite(a, b, cst(1, 0)) : o == Instruction::Or ? ite(a, cst(1, 1), b) : ite(a, notb(b), b);
		if (w == 1 && o == Instruction::Or) return notb(bin(Instruction::And, notb(a), notb(b)));
		if (o == Instruction::Xor && w <= 64) { if (b.isConst() && b.k == mask(w)) return add(cst(w, mask(w)), a, ~0ull); if (a.isConst() && a.k == mask(w)) return add(cst(w, mask(w)), b, ~0ull); if (key(a) == key(b)) return cst(w, 0); }
		if (o == Instruction::Xor && w <= 64 && w > 1) { if (b.isConst() && b.k == 1ull << (w - 1)) return add(a, b); if (a.isConst() && a.k == 1ull << (w - 1)) return add(a, b); }
		if (w == 1 && o == Instruction::And) { SVal r; if (relAnd(a, b, r)) return r; }
		if (o == Instruction::And && w <= 64) for (auto *p : {&b, &a}) if (p->isConst() && p->k && isPowerOf2_64((~p->k & mask(w)) + 1)) { // low bits cleared: terms that have none keep out
			auto &x = p == &b ? a : b; if (x.c.size() < 2) break; unsigned n = Log2_64((~p->k & mask(w)) + 1); int at = -1; bool one = !(x.k & ~p->k);
			for (auto &q : x.c) { unsigned z = llvm::countr_zero(q.second); auto &bb = atoms[q.first]; for (unsigned i = 0; i < bb.size() && bb[i] == c0(); i++) z++; if (z >= n) continue; if (at >= 0 || q.second != 1) one = false; at = q.first; }
			if (!one || at < 0) break; Bits bb = atoms[at]; bb.resize(w, c0()); SVal t = fromBits(bb); return add(add(x, t, ~0ull), bin(o, t, *p)); }
		if (o == Instruction::Xor && w <= 64) for (auto *p : {&b, &a}) if (p->isConst() && isMask_64(p->k)) { // all ones over a field: the difference
			auto &x = p == &b ? a : b; unsigned n = llvm::countr_one(p->k); Bits q = bits(x); bool in = true; for (unsigned i = n; i < w; i++) if (!(q[i] == c0())) in = false;
			if (in) return add(*p, x, ~0ull); }
		if (o != Instruction::Xor && key(a) == key(b)) return a;
		Bits x = bits(a), y = bits(b), r(w, c0()); bool ok = true;
		for (unsigned i = 0; i < w && ok; i++) {
			bool cx = x[i].leaf == -1, cy = y[i].leaf == -1;
			if (bitwise && !cx && !cy && x[i] == negB(y[i])) { r[i] = SBit{-1, o != Instruction::And}; continue; }
			if (bitwise && o == Instruction::Xor && cx != cy && (cx ? x[i].ix : y[i].ix)) { r[i] = negB(cx ? y[i] : x[i]); continue; }
			if (o == Instruction::And) { if ((cx && !x[i].ix) || (cy && !y[i].ix)) r[i] = c0(); else if (cx) r[i] = y[i]; else if (cy || x[i] == y[i]) r[i] = x[i]; else ok = false; }
			else if (o == Instruction::Or) { if ((cx && x[i].ix) || (cy && y[i].ix)) r[i] = SBit{-1, 1}; else if (cx) r[i] = y[i]; else if (cy || x[i] == y[i]) r[i] = x[i]; else ok = false; }
			else { if (cx && cy) r[i] = SBit{-1, x[i].ix ^ y[i].ix}; else if (cx && !x[i].ix) r[i] = y[i]; else if (cy && !y[i].ix) r[i] = x[i]; else if (x[i] == y[i]) r[i] = c0(); else ok = false; }
		}
		if (ok) return fromB(r);
		if (o == Instruction::And && w <= 64) { // and with a low mask is a truncation of the linear form
			for (auto *p : {&b, &a}) if (p->isConst() && isMask_64(p->k)) { unsigned n = llvm::countr_one(p->k); return zext(trunc(p == &b ? a : b, n), w); }
		}
		if (bitwise && w <= 256) { for (unsigned i = 0; i < w; i++) r[i] = bits(bin(o, fromBits({x[i]}), fromBits({y[i]})))[0]; return fromB(r); }
		return op(o == Instruction::And ? "and" : o == Instruction::Or ? "or" : "xor", {a, b}, w, true);
	}
	case Instruction::SDiv: case Instruction::SRem: if (b.isConst() && w <= 64 && b.k == mask(w)) return o == Instruction::SDiv ? scale(a, ~0ull) : cst(w, 0); return op(o == Instruction::SDiv ? "sdiv" : "srem", {a, b}, w);
	case Instruction::UDiv: return op("udiv", {a, b}, w);
	case Instruction::URem: return op("urem", {a, b}, w);
	default: return op("bin" + std::to_string(o), {a, b}, w, Instruction::isCommutative(o));
	}
}
// ---- floating point: sign flips are exact, order of factors and summands does not matter ----
SVal Sym::flip(const SVal &a) { return a.w <= 64 ? add(a, cst(a.w, 1ull << (a.w - 1))) : op("fneg", {a}, a.w); }
SVal Sym::fbin(unsigned o, SVal a, SVal b) {
	unsigned w = a.w; if (w > 64) return op("fbin" + std::to_string(o), {a, b}, w);
	if (o == Instruction::FSub) { b = flip(b); o = Instruction::FAdd; }
	bool neg = false;
	if (o == Instruction::FMul || o == Instruction::FDiv) for (auto *x : {&a, &b}) { SVal f = flip(*x); if (key(f) < key(*x)) { *x = f; neg = !neg; } }
	SVal r = op("fbin" + std::to_string(o), {a, b}, w, o == Instruction::FAdd || o == Instruction::FMul);
	return neg ? flip(r) : r;
}
// one of a bit-level function's variables decides; nodes are ite(var, hi, lo) with hi never negated
// a sum of fields that do not meet
bool Sym::plainSum(const SVal &v) {
	if (v.w > 64) return false; Bits q(v.w, c0()); for (unsigned i = 0; i < v.w; i++) if (v.k >> i & 1) q[i].ix = 1;
	for (auto &p : v.c) { if (llvm::popcount(p.second) > 8) return false; for (unsigned s = 0; s < v.w; s++) if (p.second >> s & 1) { auto &b = atoms[p.first]; for (unsigned i = 0; i + s < v.w && i < b.size(); i++) if (!(b[i] == c0())) { if (!(q[i + s] == c0())) return false; q[i + s] = b[i]; } } }
	return true;
}
bool Sym::plainBits(const SVal &v) { return v.w <= 64 && v.c.size() <= 1 && (v.c.empty() || isPowerOf2_64(v.c.begin()->second)); }
SVal Sym::ite(const SVal &f0, const SVal &g0, const SVal &h0) {
	auto before = [&](const SBit &x, const SBit &y) { if (x.leaf == y.leaf) return x.ix < y.ix; bool wx = leaves[x.leaf].key == "word", wy = leaves[y.leaf].key == "word"; return wx != wy ? wx : x.leaf > y.leaf; }; // the word decides first, then what was met last
	auto var = [&](const SVal &x, SBit &q, bool &node) { if (x.isConst()) return false; SBit b = atoms[x.c.begin()->first][0]; auto o = opOf.find(b.leaf); node = o != opOf.end() && o->second.name == "ite"; q = node ? atoms[o->second.args[0].c.begin()->first][0] : b; return true; };
	auto cof = [&](const SVal &x, const SBit &v, bool t) { SBit q; bool node; if (!var(x, q, node) || !(q == v)) return x; SVal r; if (node) { auto rec = opOf[atoms[x.c.begin()->first][0].leaf]; r = rec.args[t ? 1 : 2]; } else r = cst(1, t); return x.k & 1 ? notb(r) : r; };
	SVal f = f0, g = g0, h = h0;
	for (auto *x : {&f, &g, &h}) for (;;) { SBit q; bool node; if (!var(*x, q, node)) break; SBit own = atoms[x->c.begin()->first][0]; auto k0 = known.find(own); if (k0 != known.end()) { *x = cst(1, k0->second != (bool)(x->k & 1)); break; } auto k = known.find(q); if (k == known.end()) break; *x = cof(*x, q, k->second); }
	if (f.isConst()) return f.k ? g : h;
	if (g == h) return g;
	if (g.isConst() && h.isConst()) return g.k ? f : notb(f);
	std::string mk = key(f) + key(g) + key(h); auto mi = iteMemo.find(mk); if (mi != iteMemo.end()) return mi->second;
	if (!iteDepth && !iteHold) iteSteps = 0; if (++iteSteps > 4000) { iteOver = true; return op("iteraw", {f, g, h}, 1); } // too large for a diagram: its own name
	iteDepth++;
	SBit top; bool have = false, nd; SBit q; for (auto *x : {&f, &g, &h}) if (var(*x, q, nd) && (!have || before(q, top))) { top = q; have = true; }
	SVal hi = ite(cof(f, top, true), cof(g, top, true), cof(h, top, true)), lo = ite(cof(f, top, false), cof(g, top, false), cof(h, top, false)), r;
	SVal tv; tv.w = 1; { std::vector<SBit> one{top}; auto it = atomId.find(one); int id; if (it == atomId.end()) { id = (int)atoms.size(); atoms.push_back(one); atomId[one] = id; } else id = it->second; tv.c[id] = 1; }
	if (hi == lo) r = hi;
	else if (hi.isConst() && lo.isConst()) r = hi.k ? tv : notb(tv);
	else { bool neg = hi.k & 1; if (neg) { hi = notb(hi); lo = notb(lo); } r = op("ite", {tv, hi, lo}, 1); if (neg) r = notb(r); }
	if (--iteDepth == 0) iteMemo.clear(); else iteMemo[mk] = r;
	return r;
}
// what a set of conditions implies: false when they cannot all hold
bool Sym::close(std::map<SBit, bool> &k) {
	if (!bitwise) return true;
	bool any = false; for (auto &p : k) { auto o = opOf.find(p.first.leaf); if (o != opOf.end() && o->second.name == "ite") any = true; } if (!any) return true;
	if (late()) return true; auto keep = known; known.clear(); SVal r = cst(1, 1); iteOver = false; iteHold = true; iteSteps = 0;
	for (auto &p : k) { SVal x = fromBits({p.first}); if (!p.second) x = notb(x); SVal t = ite(x, r, cst(1, 0)); if (iteOver) break; r = t; if (r.isConst() && !r.k) break; }
	iteHold = false;
	std::map<std::string, std::map<SBit, bool>> memo; unsigned n = 0;
	std::function<std::map<SBit, bool>(const SVal&)> imp = [&](const SVal &x) -> std::map<SBit, bool> {
		std::map<SBit, bool> m; if (x.isConst() || n > 2000) return m; std::string kk = key(x); auto f = memo.find(kk); if (f != memo.end()) return f->second; n++;
		SBit own = atoms[x.c.begin()->first][0]; auto o = opOf.find(own.leaf); bool neg = x.k & 1;
		if (o == opOf.end() || o->second.name != "ite") m[own] = !neg;
		else { auto rec = o->second; SBit v = atoms[rec.args[0].c.begin()->first][0]; SVal hi = neg ? notb(rec.args[1]) : rec.args[1], lo = neg ? notb(rec.args[2]) : rec.args[2];
			if (hi.isConst() && !hi.k) { m = imp(lo); m[v] = false; } else if (lo.isConst() && !lo.k) { m = imp(hi); m[v] = true; }
			else { auto a = imp(hi), b = imp(lo); for (auto &q : a) { auto g = b.find(q.first); if (g != b.end() && g->second == q.second) m[q.first] = q.second; } } }
		return memo[kk] = m; };
	bool ok = !(r.isConst() && !r.k); if (ok) { auto m = imp(r); for (auto &q : m) { auto f = k.find(q.first); if (f != k.end() && f->second != q.second) ok = false; k[q.first] = q.second; } }
	known = keep; return ok;
}
// a comparison: a subset (mask) of {unordered 8, less 4, greater 2, equal 1}
SVal Sym::frel(unsigned m, SVal a, SVal b) {
	if (bitwise) {
		// of the bits of a number: exponent all ones, exponent zero, fraction zero
		auto parts = [&](const SVal &v, SVal *emax, SVal *ezero, SVal *mzero) { unsigned f = v.w == 32 ? 23 : 52; Bits b = bits(v); SVal e = fromB(Bits(b.begin() + f, b.end() - 1)), m = fromB(Bits(b.begin(), b.begin() + f));
			if (emax) *emax = cmp(CmpInst::ICMP_EQ, e, cst(e.w, mask(e.w))); if (ezero) *ezero = cmp(CmpInst::ICMP_EQ, e, cst(e.w, 0)); if (mzero) *mzero = cmp(CmpInst::ICMP_EQ, m, cst(m.w, 0)); };
		auto nan = [&](const SVal &v) { if (v.isConst() && v.w <= 64) { uint64_t e = v.w == 32 ? 0x7F800000ull : 0x7FF0000000000000ull; return cst(1, (v.k & (e | (e - 1)) & mask(v.w) & ~(1ull << (v.w - 1))) > e); } if (!fpBits) return op("nan", {v}, 1); SVal em, mz; parts(v, &em, nullptr, &mz); return ite(em, notb(mz), cst(1, 0)); };
		SVal na = nan(a), nb = nan(b), un = ite(na, cst(1, 1), nb), eq, lt, z = cst(1, 0), one = cst(1, 1);
		if (key(a) == key(b)) { eq = one; lt = z; } else if (auto cc = [&](const SVal &v) { unsigned f = v.w == 32 ? 23 : 52; uint64_t t = v.k >> f; return v.isConst() && !(v.k & ((1ull << f) - 1)) && (t == 0 || t == 1 || t == mask(v.w - f - 1)); }; fpBits && (cc(a) || cc(b))) { // against zero, the least normal number or infinity
			bool sw = cc(a); SVal x = sw ? b : a, c = sw ? a : b, em, ez, mz; unsigned f = x.w == 32 ? 23 : 52; uint64_t t = c.k >> f; parts(x, &em, &ez, &mz); SVal sg = fromB({bits(x).back()}), e1 = cmp(CmpInst::ICMP_EQ, fromB([&] { Bits q = bits(x); return Bits(q.begin() + f, q.end() - 1); }()), cst(x.w - f - 1, 1));
			eq = t == 0 ? ite(ez, mz, z) : ite(notb(sg), ite(t == 1 ? e1 : em, mz, z), z); // -0 equals 0
			SVal less = t == 0 ? ite(sg, notb(eq), z) : ite(sg, one, t == 1 ? ez : notb(em)); lt = sw ? ite(eq, z, notb(less)) : less; }
			else { bool sw = key(b) < key(a); auto &x = sw ? b : a; auto &y = sw ? a : b; eq = op("feq", {x, y}, 1); lt = op("flt", {x, y}, 1); if (sw) lt = notb(lt); }
		return ite(un, cst(1, m >> 3 & 1), ite(eq, cst(1, m & 1), ite(lt, cst(1, m >> 2 & 1), cst(1, m >> 1 & 1))));
	}
	if (key(b) < key(a)) { std::swap(a, b); m = (m & 9) | (m & 4) >> 1 | (m & 2) << 1; }
	bool same = key(a) == key(b); unsigned all = same ? 9 : 15; std::string pr = key(a) + "~" + key(b);
	for (auto &l : relOf[pr]) { auto k = known.find(SBit{l.first, 0}); if (k != known.end()) all &= k->second ? l.second : ~l.second; }
	m &= all; if (!m) return cst(1, 0); if (m == all) return cst(1, 1);
	if (all == (same ? 9u : 15u) && (m & 8)) return notb(frel(all & ~m, a, b));
	if (all != 15 && !same) { /* several masks mean the same here */ if (m & 8) { unsigned n = all & ~m; return notb(frel0(n, a, b, pr)); } }
	return frel0(m, a, b, pr);
}
SVal Sym::frel0(unsigned m, const SVal &a, const SVal &b, const std::string &pr) {
	SVal r = op("frel" + std::to_string(m), {a, b}, 1); int l = bits(r)[0].leaf; if (l >= 0) { relOf[pr][l] = m; relLeaf[l] = {pr, m}; } return r;
}
SVal Sym::fcmpv(unsigned p, const SVal &a, const SVal &b) {
	unsigned m = 0; // predicate bits of the IR: 8 unordered, 4 less, 2 greater, 1 equal
	m = p & 15; return frel(m, a, b);
}
// both of two comparisons of one pair of values
bool Sym::relAnd(const SVal &a, const SVal &b, SVal &r) {
	auto look = [&](const SVal &v, int &l, bool &neg) { if (v.c.size() != 1 || v.w != 1) return false; auto &q = atoms[v.c.begin()->first]; if (q.size() != 1 || q[0].leaf < 0 || !relLeaf.count(q[0].leaf)) return false; l = q[0].leaf; neg = v.k & 1; return true; };
	int x, y; bool nx, ny; if (!look(a, x, nx) || !look(b, y, ny)) return false;
	auto rx = relLeaf[x], ry = relLeaf[y]; if (rx.first != ry.first) return false;
	auto o = opOf.find(x); if (o == opOf.end()) return false; auto args = o->second.args;
	r = frel((nx ? ~rx.second : rx.second) & (ny ? ~ry.second : ry.second) & 15, args[0], args[1]); return true;
}
SVal Sym::eval(const Value *v) {
	if (!noMemo) { auto it = memo.find(v); if (it != memo.end()) return it->second; }
	if (depth > 400) { SVal r; r.ok = false; return r; }
	depth++; SVal r = eval0(v); depth--;
	if (!noMemo) memo[v] = r; return r;
}
SVal Sym::eval0(const Value *v) {
	SVal h;
	auto b = bind.find(v); if (b != bind.end()) return b->second;
	if (hook && hook(v, h)) return h;
	unsigned w = v->getType()->isPointerTy() ? 64 : v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : (unsigned)DL.getTypeSizeInBits(v->getType()->isSized() ? v->getType() : Type::getInt64Ty(v->getContext())).getFixedValue();
	if (!w) w = 64;
	auto opaque = [&]() { char buf[40]; snprintf(buf, sizeof buf, "v%p", (const void*)v); std::string n = v->hasName() ? v->getName().str() : ""; return leaf(buf + n, w, v); };
	if (auto *CI = dyn_cast<ConstantInt>(v)) { if (w <= 64) return cst(w, CI->getZExtValue()); Bits q(w, c0()); for (unsigned i = 0; i < w; i++) q[i].ix = CI->getValue()[i]; return fromBits(q); }
	if (isa<ConstantPointerNull>(v)) return cst(64, 0);
	if (isa<UndefValue>(v)) return leaf("undef" + std::to_string(w), w, v);
	if (auto *G = dyn_cast<GEPOperator>(v)) {
		if (!G->getType()->isPointerTy()) return opaque();
		MapVector<Value*, APInt> vo; APInt co(64, 0);
		if (!G->collectOffset(DL, 64, vo, co)) return opaque();
		SVal r = add(eval(G->getPointerOperand()), cst(64, co.getZExtValue()));
		for (auto &p : vo) { SVal x = eval(p.first); if (x.w < 64) x = sext(x, 64); else if (x.w > 64) x = trunc(x, 64); r = add(r, x, p.second.getZExtValue()); }
		return r;
	}
	if (isa<Constant>(v)) {
		if (auto *CE = dyn_cast<ConstantExpr>(v)) { if (CE->isCast() && CE->getOperand(0)->getType()->isSized()) { if (CE->getOpcode() == Instruction::PtrToInt || CE->getOpcode() == Instruction::IntToPtr || CE->getOpcode() == Instruction::BitCast) return eval(CE->getOperand(0)); } }
		if (auto *CF = dyn_cast<ConstantFP>(v)) if (w <= 64) return cst(w, CF->getValueAPF().bitcastToAPInt().getZExtValue());
		if (auto *GV = dyn_cast<GlobalVariable>(v)) if (GV->isConstant() && GV->hasPrivateLinkage() && GV->hasInitializer()) if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer())) if (CD->isCString()) return leaf("const:@str:" + CD->getAsCString().str(), w, v);
		std::string s; raw_string_ostream os(s); v->printAsOperand(os, true); return leaf("const:" + os.str(), w, v);
	}
	auto *I = dyn_cast<Instruction>(v);
	if (!I) return opaque();
	if (auto *Ph = dyn_cast<PHINode>(I)) { if (phiFrom) if (auto *p = phiFrom(Ph)) return eval(Ph->getIncomingValueForBlock(p)); return opaque(); }
	bool sc = v->getType()->isIntegerTy() || v->getType()->isPointerTy();
	if (!sc) {
		if (auto *BO = dyn_cast<BinaryOperator>(I)) return fbin(BO->getOpcode(), eval(BO->getOperand(0)), eval(BO->getOperand(1)));
		if (auto *U = dyn_cast<UnaryOperator>(I)) if (U->getOpcode() == Instruction::FNeg) return flip(eval(U->getOperand(0)));
		if (auto *II = dyn_cast<IntrinsicInst>(I)) if (w <= 64) {
			if (II->getIntrinsicID() == Intrinsic::fabs) { Bits q = bits(II->getArgOperand(0)); q.back() = c0(); return fromB(q); }
			if (II->getIntrinsicID() == Intrinsic::fmuladd) return fbin(Instruction::FAdd, fbin(Instruction::FMul, eval(II->getArgOperand(0)), eval(II->getArgOperand(1))), eval(II->getArgOperand(2))); }
		if (auto *Ca = dyn_cast<CastInst>(I)) { if (isa<BitCastInst>(Ca)) return eval(Ca->getOperand(0)); return op("cast" + std::to_string(Ca->getOpcode()), {eval(Ca->getOperand(0))}, w); }
		if (auto *Se = dyn_cast<SelectInst>(I)) if (Se->getCondition()->getType()->isIntegerTy(1)) return select(eval(Se->getCondition()), eval(Se->getTrueValue()), eval(Se->getFalseValue()));
		return opaque();
	}
	if (auto *BO = dyn_cast<BinaryOperator>(I)) return bin(BO->getOpcode(), eval(BO->getOperand(0)), eval(BO->getOperand(1)));
	if (auto *Ca = dyn_cast<CastInst>(I)) {
		Value *o = Ca->getOperand(0);
		switch (Ca->getOpcode()) {
		case Instruction::ZExt: return zext(eval(o), w);
		case Instruction::SExt: return sext(eval(o), w);
		case Instruction::Trunc: return trunc(eval(o), w);
		case Instruction::PtrToInt: case Instruction::IntToPtr: { SVal x = eval(o); return x.w == w ? x : x.w > w ? trunc(x, w) : zext(x, w); }
		case Instruction::BitCast: return eval(o);
		case Instruction::FPToSI: case Instruction::FPToUI: { // rounding towards zero first changes nothing
			SVal x = eval(o); int l = x.c.size() == 1 && !x.k ? leafOfAtom(x.c.begin()->first) : -1; auto r = l >= 0 ? opOf.find(l) : opOf.end();
			if (r != opOf.end() && (r->second.name == "f.trunc" || r->second.name == "f.truncf" || r->second.name == "i." + std::to_string((int)Intrinsic::trunc))) { SVal y = r->second.args[0]; x = y; }
			return op("cast" + std::to_string(Ca->getOpcode()), {x}, w); }
		default: return op("cast" + std::to_string(Ca->getOpcode()), {eval(o)}, w);
		}
	}
	if (auto *Cm = dyn_cast<ICmpInst>(I)) { if (!Cm->getOperand(0)->getType()->isVectorTy()) return cmp(Cm->getPredicate(), eval(Cm->getOperand(0)), eval(Cm->getOperand(1))); return opaque(); }
	if (auto *Cm = dyn_cast<FCmpInst>(I)) { if (w == 1 && !Cm->getOperand(0)->getType()->isVectorTy()) return fcmpv(Cm->getPredicate(), eval(Cm->getOperand(0)), eval(Cm->getOperand(1))); return op("fcmp" + std::to_string(Cm->getPredicate()), {eval(Cm->getOperand(0)), eval(Cm->getOperand(1))}, w); }
	if (auto *Se = dyn_cast<SelectInst>(I)) if (bitwise && v->getType()->isPointerTy()) { SVal c = eval(Se->getCondition()), a = eval(Se->getTrueValue()), b2 = eval(Se->getFalseValue()); if (c.isConst()) return c.k ? a : b2; return op("pselect", {c, a, b2}, 64); }
	if (auto *Se = dyn_cast<SelectInst>(I)) return select(eval(Se->getCondition()), eval(Se->getTrueValue()), eval(Se->getFalseValue()));
	if (auto *Fr = dyn_cast<FreezeInst>(I)) return eval(Fr->getOperand(0));
	if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
		if (auto *II = dyn_cast<IntrinsicInst>(EV->getAggregateOperand())) if (EV->getNumIndices() == 1) {
			auto id = II->getIntrinsicID(); unsigned ix = *EV->idx_begin();
			unsigned o = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? Instruction::Sub : id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? Instruction::Mul : 0;
			if (o) { SVal a = eval(II->getArgOperand(0)), b2 = eval(II->getArgOperand(1)); SVal s = bin(o, a, b2); if (ix == 0) return s; if (id == Intrinsic::uadd_with_overflow) return cmp(CmpInst::ICMP_ULT, s, a); return op("ovf" + std::to_string(id), {a, b2}, 1); }
		}
		return opaque();
	}
	if (auto *II = dyn_cast<IntrinsicInst>(I)) {
		auto id = II->getIntrinsicID();
		switch (id) {
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::bswap: case Intrinsic::bitreverse: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
			std::vector<SVal> as; for (auto &a : II->args()) as.push_back(eval(a));
			if (id == Intrinsic::bswap || id == Intrinsic::bitreverse) { Bits q = bits(as[0]), r(w, c0()); for (unsigned i = 0; i < w; i++) r[i] = id == Intrinsic::bswap ? q[w - 8 - (i & ~7u) + (i & 7)] : q[w - 1 - i]; return fromB(r); }
			if ((id == Intrinsic::fshl || id == Intrinsic::fshr) && as[2].isConst()) { unsigned n = as[2].k % w; if (id == Intrinsic::fshr) n = (w - n) % w; if (id == Intrinsic::fshr && !n) return as[1]; if (!n) return as[0];
				Bits x = bits(as[0]), y = bits(as[1]), r(w, c0()); for (unsigned i = 0; i < w; i++) r[i] = i >= n ? x[i - n] : y[w - n + i]; return fromB(r); }
			if ((id == Intrinsic::fshl || id == Intrinsic::fshr) && w <= 64 && isPowerOf2_64(w) && key(as[0]) == key(as[1])) { bool r = id == Intrinsic::fshr; SVal n = as[2], m = scale(n, ~0ull); return bin(Instruction::Or, bin(Instruction::LShr, as[0], r ? n : m), bin(Instruction::Shl, as[0], r ? m : n)); }
			return op("i." + std::to_string(id), as, w);
		}
		default: break;
		}
	}
	return opaque();
}
} // namespace lva
