// Decoding against the architecture.
//
// The decoder is a function from a 32-bit word to an instruction descriptor.
// Its flattened control flow is interpreted over sets of words (a cube of fixed
// bits minus excluded cubes), which partitions the word space by the descriptor
// returned.  isa_table.inc lists the architecture's encodings (which bits of the
// word are fixed, and how) as the LoongArch disassembler of LLVM knows them.
#include "core.hpp"
#include "isa.hpp"
#include "sym.hpp"
#include "llvm/Demangle/Demangle.h"
namespace lva {
void optimizeRegion(Function &F, bool instcombine);
struct Cube { uint32_t m = 0, v = 0; };
static bool meet(const Cube &a, const Cube &b, Cube &o) { if ((a.v ^ b.v) & a.m & b.m) return false; o.m = a.m | b.m; o.v = a.v | b.v; return true; }
// a word in k and in none of n
static bool member(const Cube &k, const std::vector<Cube> &n, size_t from, uint32_t &w) {
	Cube x;
	for (size_t i = from; i < n.size(); i++) {
		if (!meet(k, n[i], x)) continue;
		uint32_t open = n[i].m & ~k.m; if (!open) return false;
		for (Cube c = k; open; open &= open - 1) { // k without n[i], piece by piece
			uint32_t b = open & -open; Cube p = c; p.m |= b; p.v |= ~n[i].v & b;
			if (member(p, n, i + 1, w)) return true;
			c.m |= b; c.v |= n[i].v & b;
		}
		return false;
	}
	w = k.v; return true;
}
struct Words { Cube k; std::vector<Cube> n; };
static const IsaEntry isaTable[] = {
#include "isa_table.inc"
};

struct DecodeWalk {
	Ctx &C; Function &F; Sym S; unsigned wordLeaf = 0; bool failed = false; std::string why; unsigned paths = 0;
	std::map<const GlobalVariable*, std::vector<Words>> out; unsigned steps = 0;
	DecodeWalk(Ctx &C, Function &F) : C(C), F(F), S(*C.DL) { S.noMemo = true; }
	typedef std::map<const Value*, SVal> Env;
	void fail(const std::string &s) { if (!failed) why = s; failed = true; }
	// the word bits a value depends on, and its value for one word
	bool deps(const SVal &v, uint32_t &m, unsigned d = 0) {
		if (!v.ok || d > 30) return false;
		for (auto &p : v.c) for (auto &q : S.atoms[p.first]) { if (q.leaf < 0) continue; if (q.leaf == (int)wordLeaf) { m |= 1u << q.ix; continue; }
			auto l = S.linOf.find(q.leaf); if (l != S.linOf.end()) { SVal x = l->second; if (!deps(x, m, d + 1)) return false; continue; }
			auto o = S.opOf.find(q.leaf); if (o == S.opOf.end()) return false; auto rec = o->second;
			static const std::set<std::string> ok = {"eqz", "ult", "slt", "and", "or", "xor", "select", "shl", "lshr", "ashr", "udiv", "urem"}; if (!ok.count(rec.name)) return false;
			for (auto &a : rec.args) if (a.w > 64 || !deps(a, m, d + 1)) return false; }
		return true;
	}
	uint64_t at(const SVal &v, uint32_t word) {
		uint64_t r = v.k; std::map<int, uint64_t> leafVal;
		for (auto &p : v.c) { uint64_t a = 0; auto &bs = S.atoms[p.first];
			for (unsigned i = 0; i < bs.size() && i < 64; i++) { auto &q = bs[i]; uint64_t b = 0;
				if (q.leaf < 0) b = q.ix; else if (q.leaf == (int)wordLeaf) b = word >> q.ix & 1;
				else { auto f = leafVal.find(q.leaf); if (f == leafVal.end()) { uint64_t x; auto l = S.linOf.find(q.leaf); if (l != S.linOf.end()) x = at(SVal(l->second), word); else { auto rec = S.opOf[q.leaf]; std::vector<uint64_t> g; for (auto &y : rec.args) g.push_back(at(y, word)); unsigned w = rec.args[0].w; auto &n = rec.name; auto sg = [&](uint64_t z) { return (int64_t)(z << (64 - w)) >> (64 - w); };
					x = n == "eqz" ? g[0] == 0 : n == "ult" ? g[0] < g[1] : n == "slt" ? sg(g[0]) < sg(g[1]) : n == "and" ? g[0] & g[1] : n == "or" ? g[0] | g[1] : n == "xor" ? g[0] ^ g[1] : n == "select" ? (g[0] ? g[1] : g[2]) : n == "shl" ? (g[1] < w ? g[0] << g[1] : 0) & Sym::mask(w) : n == "lshr" ? (g[1] < w ? g[0] >> g[1] : 0) : n == "ashr" ? (uint64_t)(sg(g[0]) >> std::min<uint64_t>(g[1], 63)) & Sym::mask(w) : n == "udiv" ? (g[1] ? g[0] / g[1] : 0) : (g[1] ? g[0] % g[1] : 0); }
					f = leafVal.insert({q.leaf, x}).first; } b = f->second >> q.ix & 1; }
				a |= b << i; }
			r += a * p.second; }
		return r & Sym::mask(v.w);
	}
	// splits by the truth of a condition; returns the sets where it has the given truth
	std::vector<Words> cut(const std::vector<Words> &in, const SVal &c, bool t) {
		std::vector<Words> r; uint32_t w;
		if (c.isConst()) return (c.k & 1) == t ? in : r;
		auto b = S.bits(c); SBit q = b[0]; if (c.w == 1 && (c.k & 1)) { q = S.bits(S.notb(c))[0]; t = !t; }
		if (q.leaf == (int)wordLeaf) { for (auto x : in) { Cube o; if (meet(x.k, {1u << q.ix, t ? 1u << q.ix : 0}, o)) { x.k = o; if (member(x.k, x.n, 0, w)) r.push_back(x); } } return r; }
		auto o = S.opOf.find(q.leaf); if (o == S.opOf.end()) { fail("condition not over the instruction word: " + S.show(c)); return r; }
		auto rec = o->second;
		if (rec.name == "and" && rec.args[0].w == 1) {
			if (t) return cut(cut(in, rec.args[0], true), rec.args[1], true);
			r = cut(in, rec.args[0], false); auto r2 = cut(cut(in, rec.args[0], true), rec.args[1], false); r.insert(r.end(), r2.begin(), r2.end()); return r;
		}
		if (rec.name == "xor" && rec.args[0].w == 1) { for (int k = 0; k < 2; k++) { auto x = cut(cut(in, rec.args[0], k), rec.args[1], (bool)k != t); r.insert(r.end(), x.begin(), x.end()); } return r; }
		if (rec.name == "select" && rec.args[1].w == 1) { for (int k = 0; k < 2; k++) { auto x = cut(cut(in, rec.args[0], k), rec.args[2 - k], t); r.insert(r.end(), x.begin(), x.end()); } return r; }
		Cube e;
		auto field = [&](const SVal &v, uint64_t want, Cube &e, bool &no) { // v == want as fixed bits
			e = Cube(); no = false; auto bb = S.bits(v);
			for (unsigned i = 0; i < bb.size(); i++) { bool x = i < 64 && (want >> i & 1); if (bb[i].leaf < 0) { if ((bool)bb[i].ix != x) no = true; continue; }
				if (bb[i].leaf != (int)wordLeaf) return false; Cube o; if (!meet(e, {1u << bb[i].ix, x ? 1u << bb[i].ix : 0}, o)) no = true; else e = o; }
			return true; };
		auto split = [&](const Cube &e, bool t) { for (auto x : in) { Cube o; if (t) { if (meet(x.k, e, o)) { x.k = o; if (member(x.k, x.n, 0, w)) r.push_back(x); } } else { if (meet(x.k, e, o)) x.n.push_back(e); if (member(x.k, x.n, 0, w)) r.push_back(x); } } };
		if (rec.name == "eqz" && rec.args[0].w <= 64) {
			for (int neg = 0; neg < 2; neg++) { SVal d = neg ? S.scale(rec.args[0], ~0ull) : rec.args[0];
				if (d.c.size() != 1 || !isPowerOf2_64(d.c.begin()->second)) continue;
				SVal base = d; base.k = 0; bool no; int sl = S.leafOfAtom(d.c.begin()->first);
				if (sl >= 0 && d.c.begin()->second == 1) { auto so = S.opOf.find(sl); if (so != S.opOf.end() && so->second.name == "select" && so->second.args[1].w == d.w) { auto sr = so->second; for (int k = 0; k < 2; k++) { auto x = cut(cut(in, sr.args[0], k), S.cmp(CmpInst::ICMP_EQ, sr.args[2 - k], S.cst(d.w, 0 - d.k)), t); r.insert(r.end(), x.begin(), x.end()); } return r; } } if (!field(base, (0 - d.k) & Sym::mask(d.w), e, no)) continue;
				if (no) { if (!t) r = in; return r; }
				split(e, t); return r; }
		}
		if (rec.name == "ult" || rec.name == "slt") { // x < constant: one cube for every set bit of the constant
			bool flip = rec.args[0].isConst(); SVal x = flip ? rec.args[1] : rec.args[0], kc = flip ? rec.args[0] : rec.args[1];
			if (kc.isConst() && x.w <= 64 && (rec.name == "ult" || (S.bits(x).back().leaf == -1 && !S.bits(x).back().ix && !(kc.k >> (x.w - 1) & 1)))) {
				uint64_t k = kc.k; if (flip) { k++; t = !t; } // k < x is not x < k+1
				auto bb = S.bits(x); std::vector<Cube> lt; bool okAll = true;
				// also through a subtracted constant: x - a < k is a <= x < a + k
				uint64_t lo = 0; if (x.k && x.c.size() == 1) { SVal y = x; y.k = 0; lo = (0 - x.k) & Sym::mask(x.w); bb = S.bits(y); }
				for (auto &q : bb) if (q.leaf >= 0 && q.leaf != (int)wordLeaf) okAll = false;
				if (okAll) {
					auto below = [&](uint64_t lim) { std::vector<Cube> v; for (int i = (int)bb.size() - 1; i >= 0; i--) if (lim >> i & 1) { Cube c; bool no = false; for (int j = (int)bb.size() - 1; j >= i; j--) { bool want = j > i ? (lim >> j & 1) : false; if (bb[j].leaf < 0) { if ((bool)bb[j].ix != want) no = true; } else { Cube o; if (!meet(c, {1u << bb[j].ix, want ? 1u << bb[j].ix : 0}, o)) no = true; else c = o; } } if (!no) v.push_back(c); } return v; };
					if (lo && lo + k > Sym::mask(x.w)) { fail("range test wraps"); return r; }
					auto hi = below(lo + k); auto base = in;
					auto inside = [&](const std::vector<Words> &src, const std::vector<Cube> &u) { std::vector<Words> v; for (auto &c : u) for (auto x : src) { Cube o; if (meet(x.k, c, o)) { x.k = o; if (member(x.k, x.n, 0, w)) v.push_back(x); } } return v; };
					auto outside = [&](const std::vector<Words> &src, const std::vector<Cube> &u) { std::vector<Words> v; for (auto x : src) { for (auto &c : u) { Cube o; if (meet(x.k, c, o)) x.n.push_back(c); } if (member(x.k, x.n, 0, w)) v.push_back(x); } return v; };
					auto lc = lo ? below(lo) : std::vector<Cube>();
					if (t) return lo ? outside(inside(base, hi), lc) : inside(base, hi);
					r = outside(base, hi); if (lo) { auto q = inside(base, lc); r.insert(r.end(), q.begin(), q.end()); }
					return r;
				}
			}
		}
		uint32_t dep = 0; SVal cq = S.fromBits({q});
		if (deps(cq, dep) && llvm::popcount(dep) <= 18) { // any other function of few bits: its table, as cubes
			std::vector<unsigned> bit; for (unsigned i = 0; i < 32; i++) if (dep >> i & 1) bit.push_back(i);
			std::vector<bool> tab(1u << bit.size()); for (uint32_t x = 0; x < tab.size(); x++) { uint32_t wd = 0; for (unsigned i = 0; i < bit.size(); i++) if (x >> i & 1) wd |= 1u << bit[i]; tab[x] = at(cq, wd) & 1; }
			std::function<void(unsigned, uint32_t, Cube)> rec2 = [&](unsigned i, uint32_t hi, Cube cu) { // bits above i are decided by hi
				bool a = false, b = false; for (uint32_t x = 0; x < (1u << i); x++) (tab[hi | x] ? a : b) = true;
				if (a && b) { i--; Cube c0 = cu, c1 = cu; c0.m |= 1u << bit[i]; c1.m |= 1u << bit[i]; c1.v |= 1u << bit[i]; rec2(i, hi, c0); rec2(i, hi | 1u << i, c1); return; }
				if (a == t) for (auto x : in) { Cube o; if (meet(x.k, cu, o)) { x.k = o; if (member(x.k, x.n, 0, w)) r.push_back(x); } } };
			rec2(bit.size(), 0, Cube()); return r;
		}
		fail("condition not understood: " + S.show(c)); return r;
	}
	void leave(const Value *v, const std::vector<Words> &st, const BasicBlock *from) {
		(void)from;
		if (auto *Se = dyn_cast<SelectInst>(v)) { auto c = S.eval(Se->getCondition()); auto a = cut(st, c, true), b = cut(st, c, false); if (!a.empty()) leave(Se->getTrueValue(), a, from); if (!b.empty()) leave(Se->getFalseValue(), b, from); return; }
		if (auto *P = dyn_cast<PHINode>(v)) { auto it = pick.find(P); if (it != pick.end()) { leave(it->second, st, from); return; } }
		auto *G = dyn_cast<GlobalVariable>(v->stripPointerCasts());
		if (!G) { fail("decoder returns something other than a descriptor"); return; }
		paths++; auto &o = out[G]; o.insert(o.end(), st.begin(), st.end());
	}
	std::map<const PHINode*, const Value*> pick;
	void walk(const BasicBlock *B, const BasicBlock *from, std::vector<Words> st, Env env) {
		if (failed || st.empty()) return;
		if (++steps > 200000) { fail("decoder too large"); return; }
		S.bind = env; std::vector<std::pair<const PHINode*, const Value*>> nv;
		for (auto &P : B->phis()) { const Value *v = P.getIncomingValueForBlock(from); while (auto *q = dyn_cast<PHINode>(v)) { auto it = pick.find(q); if (it == pick.end() || it->second == v) break; v = it->second; } nv.push_back({&P, v}); }
		std::vector<std::pair<const PHINode*, SVal>> pv; for (auto &p : nv) if (p.first->getType()->isIntegerTy()) pv.push_back({p.first, S.eval(p.second)});
		auto save = pick; for (auto &p : nv) pick[p.first] = p.second; for (auto &p : pv) S.bind[p.first] = p.second;
		for (auto &I : *B) { if (isa<PHINode>(I) || I.isTerminator()) continue; if (I.getType()->isIntegerTy() && !isa<LoadInst>(I) && !isa<CallBase>(I)) { S.bind.erase(&I); SVal v = S.evalFresh(&I); S.bind[&I] = v; }
			else if (auto *CB = dyn_cast<CallBase>(&I)) { if (!isa<IntrinsicInst>(CB)) { if (neverReturns(CB->getCalledFunction())) { pick = save; return; } fail("the decoder calls something"); } else if (I.getType()->isIntegerTy()) { S.bind.erase(&I); SVal v = S.evalFresh(&I); S.bind[&I] = v; } }
			else if (I.mayWriteToMemory()) fail("the decoder writes to memory");
			else if (isa<LoadInst>(I) && I.getType()->isIntegerTy()) { fail("the decoder reads memory"); } }
		env = S.bind; auto *T = B->getTerminator();
		if (auto *Br = dyn_cast<BranchInst>(T)) {
			if (Br->isUnconditional()) walk(Br->getSuccessor(0), B, st, env);
			else { SVal c = S.eval(Br->getCondition()); auto a = cut(st, c, true), b = cut(st, c, false); walk(Br->getSuccessor(0), B, a, env); walk(Br->getSuccessor(1), B, b, env); }
		} else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
			SVal v = S.eval(Sw->getCondition()); auto rest = st;
			for (auto &cs : Sw->cases()) { S.bind = env; SVal q = S.cmp(CmpInst::ICMP_EQ, v, S.cst(v.w, cs.getCaseValue()->getZExtValue())); walk(cs.getCaseSuccessor(), B, cut(rest, q, true), env); S.bind = env; rest = cut(rest, q, false); }
			walk(Sw->getDefaultDest(), B, rest, env);
		} else if (auto *R = dyn_cast<ReturnInst>(T)) { if (R->getReturnValue()) leave(R->getReturnValue(), st, B); else fail("decoder returns nothing"); }
		pick = save;
	}
};
bool isDecode(const Function *F);
static std::string plain(StringRef s) { std::string r; for (char c : s) if (isalnum(c)) r += toupper(c); return r; }
// the disassembler has separate names for the single and double register file of one encoding
static std::string encName(StringRef s) { for (const char *x : {"_xS", "_xD", "_xS64"}) if (s.ends_with(x)) return s.drop_back(strlen(x)).str(); return s.str(); }
	// a family of conditions shares one descriptor
bool isaFits(const std::string &d, StringRef spec) {
		std::string s = plain(encName(spec)), g = plain(d); if (s == g) return true;
		auto db = s.find("DB"); if (StringRef(s).starts_with("AM") && db != std::string::npos && s.substr(0, db) + s.substr(db + 2) == g) return true; // the barrier form of the same operation
		auto q = g.find("COND"); if (q != std::string::npos && StringRef(s).starts_with(g.substr(0, q)) && StringRef(s).ends_with(g.substr(q + 4)) && s.size() > g.size() - 4) return true;
		if (g == "NOP") return s == "ANDI"; // andi r0, r0, 0
		return false; }
const std::vector<IsaEntry> &isaEntries() { static std::vector<IsaEntry> v(std::begin(isaTable), std::end(isaTable)); return v; }
void runIsa(Ctx &C) {
	simplifyModuleLight(*C.M);
	Function *D = nullptr; unsigned cand = 0;
	for (auto &F : *C.M) if (!F.isDeclaration() && inProject(&F) && isDecode(&F) && isPublicApi(&F)) { D = &F; cand++; }
	if (cand != 1) { D = nullptr; unsigned best = 0; for (auto &F : *C.M) if (!F.isDeclaration() && inProject(&F) && isDecode(&F) && F.arg_size() == 1) { std::set<const Function*> users; D = F.getInstructionCount() > best ? (best = F.getInstructionCount(), &F) : D; } }
	if (!D) { C.R.error("decoder not recognised"); return; }
	InlinePolicy IP; IP.want = defaultInlineWant; flatten(*D, IP); simplifyFunction(*D);
	if (C.opts.count("dump")) D->print(errs());
	DecodeWalk W(C, *D); Argument *A = nullptr; for (auto &a : D->args()) if (a.getType()->isIntegerTy(32)) A = &a;
	if (!A) { C.R.error("instruction word of the decoder not recognised"); return; }
	SVal w = W.S.leaf("word", 32); W.wordLeaf = W.S.bits(w)[0].leaf; W.S.bind[A] = w;
	W.walk(&D->getEntryBlock(), nullptr, {Words()}, W.S.bind);
	if (W.failed) { C.R.error("decoder: " + W.why); return; }
	// descriptors by instruction id
	std::map<int64_t, std::string> idName; auto e = FM->enums.find("loongarch::InstrId"); if (e != FM->enums.end()) for (auto &p : e->second) idName[p.second] = p.first;
	if (idName.size() < 100) { C.R.error("instruction ids not recognised"); return; }
	struct Got { std::string name; std::vector<Words> ws; const GlobalVariable *g; };
	std::vector<Got> got; std::set<std::string> known, invalid;
	for (auto &p : W.out) {
		auto *id = p.first->hasInitializer() ? dyn_cast_or_null<ConstantInt>(p.first->getInitializer()->getAggregateElement(2u)) : nullptr;
		if (!id || !idName.count(id->getSExtValue())) { C.R.error("descriptor without an instruction id: " + p.first->getName().str()); return; }
		got.push_back({idName[id->getSExtValue()], p.second, p.first}); known.insert(plain(got.back().name));
	}
	C.R.info["descriptors"] = (int64_t)got.size(); C.R.info["decode_paths"] = (int64_t)W.paths; C.R.info["encodings"] = (int64_t)(sizeof isaTable / sizeof *isaTable);
	auto L = D->getSubprogram(); std::string file = L && L->getFile() ? L->getFile()->getFilename().str() : "";
	auto fits = [&](const std::string &d, StringRef spec) { return isaFits(d, spec); };
	auto inv = [&](const std::string &d) { return d == "INVALID" || d == "UNIMPLEMENTED"; };
	std::set<std::string> implemented;
	for (auto &E : isaTable) for (auto &g : got) if (!inv(g.name) && fits(g.name, E.name)) implemented.insert(E.name);
	C.R.info["encodings_implemented"] = (int64_t)implemented.size();
	for (auto &E : isaTable) {
		std::set<std::string> wrong; bool some = false, miss = false; uint32_t word = 0, bad = 0, mw = 0; std::string rx;
		for (auto &g : got) for (auto &x : g.ws) { Cube o; if (!meet(x.k, {E.mask, E.match}, o) || !member(o, x.n, 0, word)) continue; C.R.count("regions_compared");
			if (inv(g.name)) { miss = true; mw = word; } else if (fits(g.name, E.name)) some = true; else { wrong.insert(g.name); bad = word; } }
		C.R.count("obligations"); char b[16];
		std::string all; for (auto &s : wrong) all += (all.empty() ? "" : ", ") + s;
		if (!wrong.empty()) { snprintf(b, sizeof b, "0x%08x", bad); C.R.violation("decode", E.name, all, file, L ? L->getLine() : 0, std::string("word ") + b + " encodes " + E.name + " but is decoded to " + all); }
		else if (some && miss) { snprintf(b, sizeof b, "0x%08x", mw); C.R.violation("decode-partial", E.name, "not implemented", file, L ? L->getLine() : 0, std::string("word ") + b + " encodes " + E.name + ", which is implemented, but is not decoded to it"); }
		else { C.R.count("discharged"); if (some) C.R.count("decoded_to_their_instruction"); else C.R.count("rejected_as_unimplemented"); C.R.sample(std::string(E.name) + (some ? " decoded" : " rejected"), 40); }
	}
	for (auto &g : got) { if (inv(g.name)) continue; bool any = false; for (auto &E : isaTable) if (fits(g.name, E.name)) any = true; if (!any) C.R.sample("no architectural encoding known for " + g.name, 60); if (!any) C.R.count("not_in_table"); }
	// every instruction with a descriptor is reachable through its own encoding
	std::set<std::string> returned; // for a word of its own encoding
	for (auto &g : got) for (auto &E : isaTable) if (!returned.count(g.name) && fits(g.name, E.name)) for (auto &x : g.ws) { Cube o; uint32_t w; if (meet(x.k, {E.mask, E.match}, o) && member(o, x.n, 0, w)) { returned.insert(g.name); break; } }
	Type *DT = got.empty() ? nullptr : got[0].g->getValueType();
	for (auto &G : C.M->globals()) {
		if (G.getValueType() != DT || !G.hasInitializer()) continue;
		auto *id = dyn_cast_or_null<ConstantInt>(G.getInitializer()->getAggregateElement(2u)); if (!id || !idName.count(id->getSExtValue())) continue;
		std::string n = idName[id->getSExtValue()]; C.R.count("descriptors_defined"); if (inv(n) || returned.count(n)) continue;
		bool any = false; for (auto &E : isaTable) if (fits(n, E.name)) any = true;
		if (!any) continue; C.R.count("obligations");
		C.R.violation("decode-missing", n, "decode", file, L ? L->getLine() : 0, n + " is implemented but no instruction word is decoded to it");
	}
}
}
