// Value numbering along every way through an acyclic function (see agree.cpp)
#pragma once
#include "regions.hpp"
#include "sym.hpp"
namespace lva {
void unrollLoops(Function &F);
int64_t enumVal(const std::string &n);
struct Layout { uint64_t regs = 0, vr = 0, vrEnd = 0, pc = 0; bool ok = false;
	Layout() { auto *a = FM->memberByName("loongarch::CPU", "m_regs"), *b = FM->memberByName("loongarch::Registers", "m_regs"), *v = FM->memberByName("loongarch::Registers", "m_vr"), *p = FM->memberByName("loongarch::Registers", "pc");
		if (a && b && v && p) { ok = true; regs = a->off + b->off; vr = a->off + v->off; vrEnd = vr + v->size; pc = a->off + p->off; } } };

struct Eff { bool call = false; std::string cls, base; int64_t off = 0; unsigned n = 0; SVal v; bool wide = true; std::string name; std::vector<SVal> args; const Instruction *at = nullptr; };
struct Way { std::map<SBit, bool> known; std::vector<Eff> eff; std::string end; SVal target; bool hasTarget = false, dead = false; const Instruction *at = nullptr; std::vector<const BasicBlock*> path; };

struct Walker {
	Ctx &C; CpuModel *M; Dispatch *D; Function &F; Sym &S; const Layout &L; bool handler;
	std::vector<Way> ways; bool tooMany = false, loops = false; unsigned cap = 400;
	const Way *follow = nullptr; // only this one
	std::function<bool(unsigned, unsigned, SVal&)> argVal; // what an argument is
	struct State { std::map<const Value*, SVal> env; Way w; SVal pc0; bool at = false; unsigned calls = 0; size_t barrier = 0; };
	Walker(Ctx &C, CpuModel *M, Dispatch *D, Function &F, Sym &S, const Layout &L, bool handler) : C(C), M(M), D(D), F(F), S(S), L(L), handler(handler) {}
	Function *fn(const char *n) { return C.M->getFunction(n); }

	bool lit(State &st, const SVal &c, bool v) { if (!lit0(st, c, v)) return false; if (!S.bitwise) return true; bool r = S.close(st.w.known); S.known = st.w.known; return r; }
	bool lit0(State &st, const SVal &c, bool v) { // false: excluded
		if (c.isConst()) return (c.k & 1) == v;
		auto b = S.bits(c); SBit q = b[0];
		if (c.k & 1 && c.w == 1) { auto n = S.bits(S.notb(c)); q = n[0]; v = !v; }
		auto it = st.w.known.find(q); if (it != st.w.known.end()) return it->second == v;
		if (auto rl = S.relLeaf.find(q.leaf); rl != S.relLeaf.end()) { unsigned all = 15; for (auto &l : S.relOf[rl->second.first]) { auto k = st.w.known.find(SBit{l.first, 0}); if (k != st.w.known.end()) all &= k->second ? l.second : ~l.second; } all &= v ? rl->second.second : ~rl->second.second; if (!all) return false; }
		st.w.known[q] = v; S.known = st.w.known;
		auto o = S.opOf.find(q.leaf); if (o == S.opOf.end() || q.ix) return true;
		auto rec = o->second;
		if (rec.name == "ite") for (int k = 1; k < 3; k++) if (rec.args[k].isConst() && (bool)(rec.args[k].k & 1) != v) return lit0(st, rec.args[0], k == 2) && lit0(st, renew(rec.args[3 - k]), v);
		if (rec.name == "and" && v) return lit0(st, renew(rec.args[0]), true) && lit0(st, renew(rec.args[1]), true);
		if (rec.name == "eqz" && rec.args[0].w <= 64) {
			for (int neg = 0; neg < 2; neg++) {
				SVal d = neg ? S.scale(rec.args[0], ~0ull) : rec.args[0];
				if (d.c.size() != 1 || !isPowerOf2_64(d.c.begin()->second)) continue;
				unsigned s = Log2_64(d.c.begin()->second); uint64_t want = (0 - d.k) & Sym::mask(d.w);
				auto a = S.atoms[d.c.begin()->first];
				std::vector<std::pair<SBit, bool>> need; bool no = want & ((1ull << s) - 1);
				for (unsigned i = 0; i + s < d.w; i++) { bool w = want >> (i + s) & 1; if (a[i].leaf < 0) { if ((bool)a[i].ix != w) no = true; } else { auto k = st.w.known.find(a[i]); if (k == st.w.known.end()) { if (!is_contained(need, std::make_pair(a[i], w))) need.push_back({a[i], w}); } else if (k->second != w) no = true; } }
				if (v) { if (no) return false; for (auto &p : need) { auto k = st.w.known.find(p.first); if (k != st.w.known.end()) { if (k->second != p.second) return false; continue; } st.w.known[p.first] = p.second; } }
				else { if (!no && need.empty()) return false; if (!no && need.size() == 1) st.w.known[need[0].first] = !need[0].second; }
				S.known = st.w.known; break;
			}
		}
		return true;
	}
	SVal renew(const SVal &v) { SVal r = S.cst(v.w, v.k); if (v.w > 64) return v; for (auto &p : v.c) { auto b = S.atoms[p.first]; b.resize(v.w, SBit{-1, 0}); r = S.add(r, S.scale(S.fromBits(b), p.second)); } return r; }

	// ---- memory ----
	void place(const SVal &addr0, std::string &cls, std::string &base, int64_t &off) {
		SVal addr = renew(addr0);
		off = (int64_t)addr.k; SVal b = addr; b.k = 0; base = S.key(b); cls = "A";
		if (!stride.count(base)) { uint64_t g = 0; bool one = false; for (auto &p : b.c) { int l = p.second == 1 ? S.leafOfAtom(p.first) : -1; if (l >= 0 && S.leaves[l].key == "cpu" && !one) { one = true; continue; } uint64_t t = p.second & (0 - p.second); g = g ? std::min(g, t) : t; } stride[base] = one ? (g ? g : 1ull << 32) : 1; }
		for (auto &p : b.c) { if (p.second != 1) continue; int l = S.leafOfAtom(p.first); if (l < 0) continue; auto &k = S.leaves[l].key;
			if (k == "cpu") { cls = off >= (int64_t)L.regs && off < (int64_t)L.regs + 256 ? "R" : off >= (int64_t)L.vr && off < (int64_t)L.vrEnd ? "V" : "M"; return; }
			if (k == "entry") { cls = "E"; return; }
			if (StringRef(k).starts_with("alloca") || StringRef(k).starts_with("const:@")) { cls = k; return; }
			if (StringRef(k).starts_with("new")) { cls = k; return; } }
	}
	std::map<std::string, uint64_t> stride; // of a base: cpu plus multiples of this
	bool regBase(const std::string &b, uint64_t z) { auto i = stride.find(b); return i != stride.end() && i->second % z == 0; }
	bool pureCpu(const std::string &base) { return base == S.key(S.leaf("cpu", 64)); }
	std::vector<SBit> loadByte(State &st, const std::string &cls, const std::string &base, int64_t off, bool aligned) {
		std::string ver; size_t i = st.w.eff.size();
		while (i-- > 0) {
			auto &e = st.w.eff[i];
			if (e.call) { if (e.wide && !StringRef(cls).starts_with("alloca") && !(StringRef(cls).starts_with("const:@"))) ver += "c" + std::to_string(i) + ","; continue; }
			if (e.cls != cls) { if (!((cls == "R" && e.cls == "M" && e.base != S.key(S.leaf("cpu", 64))) )) continue; }
			if (e.base == base && e.cls == cls) { if (off >= e.off && off < e.off + (int64_t)e.n) { if (!ver.empty()) break; auto b = S.bits(e.v); b.resize(e.n * 8, SBit{-1, 0}); return std::vector<SBit>(b.begin() + (off - e.off) * 8, b.begin() + (off - e.off) * 8 + 8); } continue; }
			if (!M && e.cls == cls && (cls == "V" || cls == "R")) { // registers are disjoint or the same
				int64_t z = cls == "V" ? 32 : 8, o = cls == "V" ? L.vr : L.regs, a = ((off - o) % z + z) % z, b = ((e.off - o) % z + z) % z;
				if (regBase(base, z) && regBase(e.base, z) && b + e.n <= z && (a < b || a >= b + (int64_t)e.n)) continue; }
			ver += e.cls + e.base + std::to_string(e.off) + "/" + std::to_string(e.n) + "=" + S.key(e.v) + ",";
		}
		if (cls == "R" && ver.empty() && pureCpu(base) && off >= (int64_t)L.regs && off < (int64_t)L.regs + 8) return std::vector<SBit>(8, SBit{-1, 0});
		(void)aligned;
		return S.bits(S.leaf("m|" + cls + "|" + base + "+" + std::to_string(off) + (ver.empty() ? "" : "|v" + std::to_string(std::hash<std::string>()(ver))), 8));
	}
	SVal load(State &st, const SVal &addr, unsigned w) {
		if (S.bitwise) { // an address that is one of several
			for (auto &p : addr.c) { int l = p.second == 1 ? S.leafOfAtom(p.first) : -1; auto o = l < 0 ? S.opOf.end() : S.opOf.find(l); if (o == S.opOf.end() || o->second.name != "pselect") continue; auto rec = o->second; SVal rest = addr; rest.c.erase(p.first);
				return S.select(renew(rec.args[0]), load(st, S.add(rest, rec.args[1]), w), load(st, S.add(rest, rec.args[2]), w)); }
			SVal a = renew(addr); bool reg = false, loc = false; std::vector<std::pair<SBit, unsigned>> var; int64_t off = (int64_t)a.k;
			for (auto &p : a.c) { int l = p.second == 1 ? S.leafOfAtom(p.first) : -1; if (l >= 0 && S.leaves[l].key == "cpu") reg = off >= (int64_t)L.vr && off < (int64_t)L.vrEnd; else if (l >= 0 && StringRef(S.leaves[l].key).starts_with("alloca")) loc = true; }
			if (reg || loc) for (auto &p : a.c) { int l = S.leafOfAtom(p.first); if (!isPowerOf2_64(p.second) || (l >= 0 && S.leaves[l].w == 64)) continue; auto &b = S.atoms[p.first]; unsigned s = Log2_64(p.second); for (unsigned i = 0; i < b.size(); i++) if (b[i].leaf >= 0 && i + s < (reg ? 5 : 8)) var.push_back({b[i], i + s}); }
			if (!var.empty() && var.size() <= 6) { // indexed: by the bits of the index
				auto q = var.back(); SVal c = S.fromBits({q.first}); SVal z = a; 
				auto sub = [&](bool t) { SVal r = S.cst(64, a.k); for (auto &p : a.c) { auto b = S.atoms[p.first]; b.resize(64, SBit{-1, 0}); for (auto &x : b) if (x == q.first) x = SBit{-1, t}; r = S.add(r, S.scale(S.fromBits(b), p.second)); } return r; };
				return S.select(c, load(st, sub(true), w), load(st, sub(false), w)); }
		}
		std::string cls, base; int64_t off; place(addr, cls, base, off);
		// the same bytes as an earlier store as a whole
		for (size_t i = st.w.eff.size(); i-- > 0;) { auto &e = st.w.eff[i]; if (e.call) { if (e.wide && !StringRef(cls).starts_with("alloca")) break; continue; } if (e.cls != cls) continue; if (e.base != base) break; if (e.off == off && e.n * 8 == w && e.v.w == w) return e.v; if (e.off < off + (int64_t)(w / 8) && off < e.off + (int64_t)e.n) break; }
		std::vector<SBit> b; for (unsigned i = 0; i < (w + 7) / 8; i++) { auto q = loadByte(st, cls, base, off + i, true); b.insert(b.end(), q.begin(), q.end()); }
		b.resize(w);
		return fromBitsLin(b);
	}
	SVal fromBitsLin(const std::vector<SBit> &b) { SVal v; v.w = b.size(); SVal t = S.cst(std::min<size_t>(b.size(), 64), 0); (void)t; return S.fromB(b); }
	void store(State &st, const SVal &addr, const SVal &v, unsigned n, const Instruction *at) {
		if (S.bitwise) { SVal a = renew(addr); SBit q; bool reg = false, var = false; int64_t off = (int64_t)a.k; // an indexed element: each one it may be
			for (auto &p : a.c) { int l = p.second == 1 ? S.leafOfAtom(p.first) : -1; if (l >= 0 && S.leaves[l].key == "cpu") reg = off >= (int64_t)L.vr && off < (int64_t)L.vrEnd; else if (l >= 0 && StringRef(S.leaves[l].key).starts_with("alloca")) reg = true; }
			if (reg) for (auto &p : a.c) { int l = S.leafOfAtom(p.first); if (!isPowerOf2_64(p.second) || (l >= 0 && S.leaves[l].w == 64)) continue; auto &b = S.atoms[p.first]; unsigned s = Log2_64(p.second); for (unsigned i = 0; i < b.size(); i++) if (b[i].leaf >= 0 && i + s < 5) { q = b[i]; var = true; } }
			if (var) { SVal c = S.fromBits({q});
				for (int t = 0; t < 2; t++) { SVal r = S.cst(64, a.k); for (auto &p : a.c) { auto b = S.atoms[p.first]; b.resize(64, SBit{-1, 0}); for (auto &x : b) if (x == q) x = SBit{-1, t}; r = S.add(r, S.scale(S.fromBits(b), p.second)); }
					SVal old = load(st, r, v.w); store(st, r, t ? S.select(c, v, old) : S.select(c, old, v), n, at); }
				return; } }
		Eff e; place(addr, e.cls, e.base, e.off); e.n = n; e.v = v; e.at = at;
		if (e.cls == "R" && pureCpu(e.base) && e.off >= (int64_t)L.regs && e.off < (int64_t)L.regs + 8) return; // always zero (P10)
		st.w.eff.push_back(e);
	}
	unsigned bitsOf(Type *T) { return (unsigned)C.DL->getTypeSizeInBits(T).getFixedValue(); }

	bool intrinsic(State &st, const IntrinsicInst *II) {
		switch (II->getIntrinsicID()) {
		case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return true;
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: {
			auto n = S.eval(II->getArgOperand(2)); if (!n.isConst() || n.k > 256) return false;
			SVal d = S.eval(II->getArgOperand(0));
			std::vector<std::pair<unsigned, SVal>> parts; unsigned o = 0;
			while (o < n.k) { unsigned k = n.k - o >= 8 ? 8 : n.k - o >= 4 ? 4 : n.k - o >= 2 ? 2 : 1; SVal x;
				if (II->getIntrinsicID() == Intrinsic::memset) { auto b = S.bits(II->getArgOperand(1)); std::vector<SBit> r; for (unsigned i = 0; i < k; i++) r.insert(r.end(), b.begin(), b.end()); x = S.fromBits(r); }
				else x = load(st, S.add(S.eval(II->getArgOperand(1)), S.cst(64, o)), k * 8);
				parts.push_back({o, x}); o += k; }
			for (auto &p : parts) store(st, S.add(d, S.cst(64, p.first)), p.second, p.second.w / 8, II);
			return true; }
		default: return false;
		}
	}
	void walk(const BasicBlock *B, const BasicBlock *from, State st) {
		if (tooMany || ways.size() > cap || S.late()) { tooMany = true; return; }
		S.known = st.w.known; S.bind = st.env; st.w.path.push_back(B);
		if (follow && (st.w.path.size() > follow->path.size() || follow->path[st.w.path.size() - 1] != B)) return;
		if (st.w.path.size() > 1000) { loops = true; return; }
		// merges first, all from the old values
		std::vector<std::pair<const Value*, SVal>> ph;
		for (auto &P : B->phis()) ph.push_back({&P, S.eval(P.getIncomingValueForBlock(from))});
		for (auto &p : ph) S.bind[p.first] = p.second;
		auto end = [&](const std::string &k, const Instruction *at) { if (!M && k == "return") { st.w.target = load(st, S.add(S.leaf("cpu", 64), S.cst(64, L.pc)), 64); st.w.hasTarget = true; } st.w.end = k; st.w.at = at; ways.push_back(st.w); };
		for (auto &I : *B) {
			if (isa<PHINode>(I)) continue;
			if (auto *A = dyn_cast<AllocaInst>(&I)) { char b[40]; snprintf(b, sizeof b, "alloca%p", (const void*)A); S.bind[A] = S.leaf(b, 64); continue; }
			if (auto *Ld = dyn_cast<LoadInst>(&I)) { if (Ld->getType()->isSized() && !Ld->getType()->isAggregateType()) { unsigned w = bitsOf(Ld->getType()); SVal a = S.eval(Ld->getPointerOperand()); SVal v = load(st, a, (w + 7) / 8 * 8); if (w % 8) v = S.trunc(v, w); S.bind.erase(Ld); S.bind[Ld] = v; } continue; }
			if (auto *Sr = dyn_cast<StoreInst>(&I)) { auto *V = Sr->getValueOperand(); unsigned w = bitsOf(V->getType()); SVal v = S.eval(V); if (w % 8) v = S.zext(v, (w + 7) / 8 * 8);
				SVal a = S.eval(Sr->getPointerOperand());
				if (w <= 64) store(st, a, v, v.w / 8, Sr); else { auto b = S.bits(v); for (unsigned o = 0; o < w; o += 64) { std::vector<SBit> q(b.begin() + o, b.begin() + std::min(o + 64, w)); store(st, S.add(a, S.cst(64, o / 8)), S.fromB(q), q.size() / 8, Sr); } }
				continue; }
			if (auto *CB = dyn_cast<CallBase>(&I)) {
				auto *c = calleeOf(CB); StringRef n = c ? c->getName() : "";
				if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
					if (II->getIntrinsicID() == Intrinsic::assume) { if (!lit(st, S.eval(II->getArgOperand(0)), true)) return; S.known = st.w.known; continue; }
					if (intrinsic(st, II)) continue;
					if (II->doesNotAccessMemory() || II->getIntrinsicID() == Intrinsic::experimental_constrained_fadd) {
						if (II->getType()->isStructTy() || II->getType()->isVoidTy()) continue; // taken apart where used
						S.bind.erase(II); SVal v = II->getType()->isIntegerTy() ? S.evalFresh(II) : SVal();
						bool opq = !II->getType()->isIntegerTy(); if (II->getType()->isFloatingPointTy() && (II->getIntrinsicID() == Intrinsic::fabs || II->getIntrinsicID() == Intrinsic::fmuladd)) { v = S.evalFresh(II); opq = false; } else if (!opq) { int l = v.c.size() == 1 ? S.leafOfAtom(v.c.begin()->first) : -1; if (l >= 0 && StringRef(S.leaves[l].key).starts_with("v0x")) opq = true; }
						if (opq) { std::vector<SVal> as; for (auto &a : II->args()) as.push_back(S.eval(a)); v = S.op("i." + std::to_string(II->getIntrinsicID()), as, bitsOf(II->getType())); }
						S.bind[II] = v; continue; }
				}
				if (n == "lva.at") { st.pc0 = S.eval(CB->getArgOperand(0)); st.at = true; st.w.eff.clear(); continue; }
				if (n.starts_with("lva.in.")) { S.bind[CB] = S.leaf(n.str(), bitsOf(CB->getType())); continue; }
				if (n == "lva.init") continue;
				if (c && M && (c == M->fnNext || c == M->fnTail)) {
					if (c == M->fnTail) {
						auto *t = dyn_cast<ConstantInt>(CB->getArgOperand(0)); bool ret = false;
						if (t) for (auto &T : D->tailRegions) if (T.id == t->getZExtValue()) ret = T.pc == nullptr;
						if (!ret) { st.w.target = S.eval(CB->getArgOperand(1)); st.w.hasTarget = true; }
						end(ret ? "return" : "next", CB); return;
					}
					SVal dec = S.eval(CB->getArgOperand(0)), pcn = S.eval(CB->getArgOperand(1)), ent = S.leaf("entry", 64);
					SVal o = S.add(dec, ent, ~0ull); bool seq = o.isConst() && o.k == M->size;
					SVal T = pcn; bool got = false;
					if (seq) { SVal d = S.add(pcn, st.pc0, ~0ull); // staying in the block: the program counter names the block's end
						if (!(d.isConst() && d.k == 4) ) { auto bb = load(st, S.add(ent, S.cst(64, M->offBlock)), 16); if (S.key(d) == S.key(S.zext(bb, 64))) { T = S.add(st.pc0, S.cst(64, 4)); got = true; } } }
					if (!got) { auto bb = S.zext(load(st, S.add(dec, S.cst(64, M->offBlock)), 16), 64); SVal t2 = S.add(pcn, bb, ~0ull); T = t2; }
					st.w.target = T; st.w.hasTarget = true; end("next", CB); return;
				}
				if (n == "lva.done") { st.w.target = S.add(load(st, S.add(S.leaf("cpu", 64), S.cst(64, L.pc)), 64), S.cst(64, 4)); st.w.hasTarget = true; end("next", CB); return; }
				if (n.starts_with("lva.")) continue;
				if (c && neverReturns(c) && n != "__cxa_throw") {}
				Eff e; e.call = true; e.at = CB; e.name = c ? n.str() : "*" + S.key(S.eval(CB->getCalledOperand()));
				bool ptr = false; for (auto &a : CB->args()) { e.args.push_back(S.eval(a)); ptr = ptr || a->getType()->isPointerTy(); }
				bool pure = CB->doesNotAccessMemory() && !CB->getType()->isVoidTy();
				e.wide = !(CB->onlyReadsMemory() || (c && c->isDeclaration() && (!ptr || n.starts_with("__cxa_"))));
				std::string rk = (n == "__cxa_allocate_exception" || n == "_Znwm" ? "new" : "ret") + std::to_string(st.calls) + e.name;
				if (pure) { S.bind[CB] = S.op("f." + e.name, e.args, bitsOf(CB->getType())); continue; }
				st.calls++;
				if (!CB->getType()->isVoidTy()) { if (CB->getType()->isSized() && !CB->getType()->isAggregateType()) S.bind[CB] = S.leaf(rk, bitsOf(CB->getType())); }
				st.w.eff.push_back(e);
				if (n == "__cxa_throw" || CB->doesNotReturn() || (c && neverReturns(c))) { end("throw", CB); return; }
				if (auto *Iv = dyn_cast<InvokeInst>(CB)) { st.env = S.bind; walk(Iv->getNormalDest(), B, st); return; }
				continue;
			}
			if (auto *X = dyn_cast<AtomicRMWInst>(&I)) { Eff e; e.call = true; e.at = X; e.name = "rmw" + std::to_string(X->getOperation()); e.args = {S.eval(X->getPointerOperand()), S.eval(X->getValOperand())}; e.wide = true; S.bind[X] = S.leaf("ret" + std::to_string(st.calls++) + e.name, bitsOf(X->getType())); st.w.eff.push_back(e); continue; }
			if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { Eff e; e.call = true; e.at = X; e.name = "cmpxchg"; e.args = {S.eval(X->getPointerOperand()), S.eval(X->getCompareOperand()), S.eval(X->getNewValOperand())}; st.w.eff.push_back(e); st.calls++; continue; }
			if (I.isTerminator()) break;
			if (I.getType()->isVoidTy()) continue;
			if (!I.getType()->isSized() || I.getType()->isAggregateType()) continue;
			S.bind.erase(&I); SVal v = S.evalFresh(&I); S.bind[&I] = v;
		}
		st.env = S.bind;
		auto *T = B->getTerminator();
		if (auto *Br = dyn_cast<BranchInst>(T)) {
			if (Br->isUnconditional()) { walk(Br->getSuccessor(0), B, st); return; }
			SVal c = S.eval(Br->getCondition());
			for (int k = 0; k < 2; k++) { State s2 = st; S.known = st.w.known; if (!lit(s2, c, k == 0)) continue; walk(Br->getSuccessor(k), B, s2); }
			return;
		}
		if (auto *Sw = dyn_cast<SwitchInst>(T)) {
			SVal v = S.eval(Sw->getCondition()); State rest = st; bool open = true;
			for (auto &cs : Sw->cases()) { S.known = rest.w.known; SVal q = S.cmp(CmpInst::ICMP_EQ, v, S.cst(v.w, cs.getCaseValue()->getZExtValue())); State s2 = rest; if (lit(s2, q, true)) walk(cs.getCaseSuccessor(), B, s2); S.known = rest.w.known; if (!lit(rest, q, false)) { open = false; break; } }
			S.known = rest.w.known; S.bind = rest.env;
			if (open && !isa<UnreachableInst>(Sw->getDefaultDest()->getFirstNonPHIOrDbg())) walk(Sw->getDefaultDest(), B, rest);
			return;
		}
		if (isa<UnreachableInst>(T)) { if (B->size() > 1 && isa<CallBase>(T->getPrevNonDebugInstruction())) end("throw", T); return; }
		end("return", T);
	}
	void run(const std::map<SBit, bool> &given) {
		ways.clear(); State st; st.w.known = given; S.known = given; S.noMemo = true;
		unsigned n = F.arg_size();
		for (unsigned k = 0; k < n; k++) { auto *A = F.getArg(k); std::string nm = k == n - 1 ? "entry" : k == n - 2 ? "cpu" : "arg" + std::to_string(k); SVal av; if (argVal && argVal(k, bitsOf(A->getType()), av)) st.env[A] = av; else st.env[A] = S.leaf(nm, bitsOf(A->getType())); }
		walk(&F.getEntryBlock(), nullptr, st);
	}
};

struct Outcome { std::vector<std::pair<std::string, std::string>> items; };
Outcome outcome(Sym &S, const Layout &L, const Way &w);
} // namespace lva
