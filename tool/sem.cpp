// Instructions against the architecture.
//
// spec/spec.cc states what every instruction does.  The handler of an
// instruction and its specification are flattened, unrolled and value-numbered
// along every way through their acyclic control flow (walk.hpp), once per
// encoding of the instruction, whose fixed bits are constants.  What each way
// leaves behind - registers, guest memory, exceptions, the next program
// counter - must have the same canonical form whenever the conditions of the
// two ways do not exclude each other.
#include "walk.hpp"
#include "par.hpp"
#include "isa.hpp"
#include "llvm/Support/CommandLine.h"
namespace lva {
bool isDecode(const Function *F);
// register operands by their field of the instruction word
static const Layout *lay; static int wordLeaf;
static std::string place(Sym &S, StringRef k) { // CLS|base+off
	auto bar = k.find('|'); auto pl = k.rfind('+'); if (bar == StringRef::npos || pl == StringRef::npos) return k.str();
	StringRef cls = k.take_front(bar), base = k.slice(bar + 1, pl), off = k.drop_front(pl + 1), ver; auto v = off.find('|'); if (v != StringRef::npos) { ver = off.drop_front(v); off = off.take_front(v); }
	long o = 0; off.getAsInteger(10, o); std::string w = "{L" + std::to_string(wordLeaf) + "."; auto f = base.find(w);
	if ((cls != "R" && cls != "V")) return k.str();
	std::string r; if (f != StringRef::npos && f >= 2) { auto q = base.drop_front(f + w.size()); r = q.take_while([](char c) { return isdigit(c); }).str(); r = r == "0" ? "d" : r == "5" ? "j" : r == "10" ? "k" : r == "15" ? "a" : r; }
	return (cls == "R" ? "r" : "v") + r + "@" + std::to_string(o - (long)(cls == "R" ? lay->regs : lay->vr)) + (ver.empty() ? "" : "(after an earlier write)");
}
static std::string expand(Sym &S, std::string s) {
	for (int n = 0; n < 5; n++) { std::string o; for (size_t i = 0; i < s.size();) { if (s[i] == 'L' && i + 1 < s.size() && isdigit(s[i + 1]) && (!i || !isalnum(s[i - 1]))) { size_t j = i + 1; int id = 0; while (j < s.size() && isdigit(s[j])) id = id * 10 + (s[j++] - '0'); StringRef k = id < (int)S.leaves.size() ? StringRef(S.leaves[id].key) : StringRef("?"); o += k.starts_with("m|") ? place(S, k.drop_front(2)) : "<" + k.str() + ">"; i = j; } else o += s[i++]; } s = o; if (s.size() > 1200) break; }
	return s.substr(0, 1200);
}
static std::string where(Sym &S, StringRef k) { auto h = k.find('#'); return expand(S, place(S, k.drop_front(h + 1))); }
void runSem(Ctx &C) {
	simplifyModuleLight(*C.M);
	Layout L; if (!L.ok) { C.R.error("register file layout not recognised"); return; }
	auto &opts = cl::getRegisteredOptions(); if (opts.count("unroll-threshold")) static_cast<cl::opt<unsigned>*>(opts["unroll-threshold"])->setValue(1000000);
	std::map<int64_t, std::string> idName; auto e = FM->enums.find("loongarch::InstrId"); if (e != FM->enums.end()) for (auto &p : e->second) idName[p.second] = p.first;
	if (idName.size() < 100) { C.R.error("instruction ids not recognised"); return; }
	// descriptors: {handler, printer, id}
	Type *DT = nullptr; for (auto &F : *C.M) if (!F.isDeclaration() && inProject(&F) && isDecode(&F)) for (auto &I : instructions(F)) for (auto &o : I.operands()) if (auto *G = dyn_cast<GlobalVariable>(o->stripPointerCasts())) if (G->hasInitializer() && G->getValueType()->isStructTy() && G->getValueType()->getStructNumElements() >= 3) DT = G->getValueType();
	if (!DT) { C.R.error("instruction descriptors not recognised"); return; }
	struct Item { std::string name; Function *H, *P; const IsaEntry *E; const GlobalVariable *G; };
	std::vector<Item> items; std::set<std::string> seen, noSpec, noEnc; unsigned specs = 0;
	for (auto &F : *C.M) if (F.getName().starts_with("lva_spec_") && !F.isDeclaration()) specs++;
	if (specs < 100) { C.R.error("specification not linked"); return; }
	static const std::set<std::string> exempt = {"INVALID", "UNIMPLEMENTED", "SYSCALL", "BREAK", "CPUCFG", "RDTIME_D"};
	for (auto &G : C.M->globals()) {
		if (G.getValueType() != DT || !G.hasInitializer()) continue;
		auto *id = dyn_cast_or_null<ConstantInt>(G.getInitializer()->getAggregateElement(2u)); if (!id || !idName.count(id->getSExtValue())) continue;
		auto *H = dyn_cast<Function>(G.getInitializer()->getAggregateElement(0u)->stripPointerCasts()); std::string n = idName[id->getSExtValue()];
		if (!H || H->isDeclaration()) continue; if (exempt.count(n)) { C.R.count("exempt"); continue; }
		if (!seen.insert(n).second) continue;
		auto *P = C.M->getFunction("lva_spec_" + n); if (!P) { noSpec.insert(n); continue; }
		if (C.opts.count("id") && C.opts["id"] != n) continue;
		bool any = false; for (auto &E : isaEntries()) if (isaFits(n, E.name)) { any = true; items.push_back({n, H, P, &E, &G}); }
		if (!any) { noEnc.insert(n); items.push_back({n, H, P, nullptr, &G}); }
	}
	C.R.info["instructions"] = (int64_t)seen.size(); C.R.info["specifications"] = (int64_t)specs; C.R.info["encodings_compared"] = (int64_t)items.size();
	for (auto &n : noSpec) { C.R.count("without_specification"); C.R.sample("no specification: " + n, 100); }
	for (auto &n : noEnc) C.R.sample("encoding not in the table, any word assumed: " + n, 100);
	if (seen.size() < 300 && !C.opts.count("id")) { C.R.error("instruction descriptors vanished"); return; }
	bool dump = C.opts.count("dump"); auto opt = [&](const char *k, int d) { return C.opts.count(k) ? atoi(C.opts[k].c_str()) : d; }; uint64_t lvr = L.vr;
	// flatten once per instruction
	std::map<std::string, std::vector<unsigned>> byName; for (unsigned i = 0; i < items.size(); i++) byName[items[i].name].push_back(i);
	std::vector<std::string> names; for (auto &p : byName) names.push_back(p.first);
	parallelFor(C, names.size(), [&](unsigned ni) {
		auto &g = byName[names[ni]]; Function *H = items[g[0]].H, *P = items[g[0]].P;
		InlinePolicy IP; IP.want = [](const Function *F) { auto *SP = F->getSubprogram(); return defaultInlineWant(F) || (SP && SP->getFile() && SP->getFile()->getFilename().ends_with("spec.cc")); };
		for (auto *F : {H, P}) { flatten(*F, IP); simplifyFunction(*F); optimizeRegion(*F, true); unrollLoops(*F); }
		if (dump) { errs() << "==== handler\n"; H->print(errs()); errs() << "==== specification\n"; P->print(errs()); }
		for (unsigned ix : g) {
			auto &it = items[ix]; std::string what = it.E ? it.name + " encoded as " + it.E->name : it.name;
			struct Res { std::string bad; bool over = false, none = false; unsigned pairs = 0, rejected = 0, unspec = 0; };
			auto attempt = [&](bool fpBits) -> Res {
			Res R; std::string &bad = R.bad; bool &over = R.over; unsigned &pairs = R.pairs, &rejected = R.rejected;
			Sym S(*C.DL); S.bitwise = true; S.fpBits = fpBits; S.limit(opt("limit", 90)); SVal word = S.leaf("word", 32); std::map<SBit, bool> base; auto wb = S.bits(word);
			if (it.E) for (unsigned i = 0; i < 32; i++) if (it.E->mask >> i & 1) base[wb[i]] = it.E->match >> i & 1;
			Walker A(C, nullptr, nullptr, *P, S, L, false), B(C, nullptr, nullptr, *H, S, L, true);
			auto arg = [&](unsigned k, unsigned w, SVal &v) { S.known = base; lay = &L; wordLeaf = wb[0].leaf; v = k == 0 ? S.leaf("cpu", 64) : S.fromBits(S.bits(S.leaf("word", 32))); return w == v.w; };
			A.argVal = B.argVal = arg; A.cap = B.cap = C.opts.count("cap") ? atoi(C.opts["cap"].c_str()) : 300;
			auto vague = [&](const Way &w) { for (auto &e : w.eff) if (e.call && e.name == "lva_unspecified") return true; return false; };
			auto join = [&](const std::map<SBit, bool> &x, const std::map<SBit, bool> &y, std::map<SBit, bool> &o) { o = x; for (auto &p : y) { auto f = o.find(p.first); if (f != o.end() && f->second != p.second) return false; o[p.first] = p.second; } return true; };
			auto wordOnly = [&](const std::map<SBit, bool> &k) { std::function<bool(const SVal&, unsigned)> ok = [&](const SVal &v, unsigned d) -> bool { if (d > 20) return false; for (auto &p : v.c) for (auto &q : S.atoms[p.first]) { if (q.leaf < 0 || q.leaf == wb[0].leaf) continue; auto l = S.linOf.find(q.leaf); if (l != S.linOf.end()) { SVal x = l->second; if (!ok(x, d + 1)) return false; continue; } auto o = S.opOf.find(q.leaf); if (o == S.opOf.end()) return false; auto r = o->second; for (auto &a : r.args) if (!ok(a, d + 1)) return false; } return true; };
				for (auto &p : k) { SVal v = S.fromBits({p.first}); if (!ok(v, 0)) return false; } return true; };
			A.run(base); auto wa = A.ways;
			if (A.tooMany || A.loops) { R.none = true; return R; }
			for (auto &a : wa) {
				if (vague(a)) { R.unspec++; continue; }
				B.run(a.known); auto wb2 = B.ways; if (B.tooMany || B.loops || S.late()) { over = true; break; }
				for (auto &b : wb2) {
					std::map<SBit, bool> U, U2; if (!join(a.known, b.known, U) || !S.close(U)) continue;
					A.follow = &a; A.run(U); A.follow = nullptr; if (A.ways.empty()) continue; Way a2 = A.ways[0];
					B.follow = &b; B.run(U); B.follow = nullptr; if (B.ways.empty()) continue; Way b2 = B.ways[0];
					if (!join(a2.known, b2.known, U2) || !S.close(U2)) continue;
					S.known = U2; pairs++; std::string d;
					if (b2.end == "throw" && a2.end != "throw" && wordOnly(b2.known)) { rejected++; continue; }
					auto oa = outcome(S, L, a2), ob = outcome(S, L, b2);
					if (a2.end != b2.end) d = "the specification " + a2.end + "s, the handler " + b2.end + "s";
					else if (a2.hasTarget && b2.hasTarget && S.key(a2.target) != S.key(b2.target)) d = "program counter: specification " + S.show(a2.target) + ", handler " + S.show(b2.target);
					else {
						// calls in order, everything else by place
						auto split = [&](Outcome &o, std::vector<std::string> &calls, std::map<std::string, std::string> &at) { for (auto &p : o.items) if (p.first == "call") calls.push_back(p.second); else at[std::to_string(calls.size()) + "#" + p.first] = p.second; };
						std::vector<std::string> ca, cb; std::map<std::string, std::string> ma, mb; split(oa, ca, ma); split(ob, cb, mb);
						if (ca != cb) d = "calls differ: " + (ca.empty() ? "none" : expand(S, ca[0])) + " / " + (cb.empty() ? "none" : expand(S, cb[0]));
						auto initial = [&](const std::string &k) { size_t h = k.find('#'); return S.key(S.leaf("m|" + k.substr(h + 1), 8)); };
						std::set<std::string> vbase; for (auto &p : ma) if (p.first.find("#V|") != std::string::npos) vbase.insert(p.first.substr(0, p.first.rfind('+')));
						for (auto &p : ma) { if (!d.empty()) break; auto f = mb.find(p.first); std::string got = f == mb.end() ? initial(p.first) : f->second; if (got != p.second) d = "at " + where(S, p.first) + ": specification " + expand(S, p.second) + "  /  handler " + (f == mb.end() ? "unchanged" : expand(S, got)); }
						for (auto &p : mb) { if (!d.empty()) break; if (ma.count(p.first) || p.second == initial(p.first)) continue; if (vbase.count(p.first.substr(0, p.first.rfind('+')))) continue; d = "the handler also writes " + where(S, p.first) + " = " + expand(S, p.second); }
					}
					if (!d.empty()) { bad = d; return R; }
				}
			}
			R.over = R.over || S.late(); return R; };
			// comparisons of numbers are taken as operations; when that leaves a difference, as functions of the numbers' bits
			Res R = attempt(false); if (!R.bad.empty()) { Res T = attempt(true); if (!T.over && !T.none) R = T; }
			C.R.count("obligations"); C.R.count("pairs", R.pairs); C.R.count("rejected_encodings", R.rejected); C.R.count("unspecified_ways", R.unspec);
			if (R.none) { C.R.count("not_compared"); C.R.sample(what + ": too many ways through the specification", 200); continue; }
			auto *SP = it.H->getSubprogram(); std::string file = SP && SP->getFile() ? SP->getFile()->getFilename().str() : ""; unsigned line = SP ? SP->getLine() : 0; 
			if (R.over) { C.R.count("not_compared"); C.R.sample(what + ": too many ways through the handler", 200); }
			else if (!R.bad.empty()) C.R.violation("semantics", it.name, it.E ? it.E->name : "", file, line, what + " does not do what the architecture says: " + R.bad);
			else if (!R.pairs) { C.R.count("never_specified"); C.R.sample(what + ": no way compared", 100); }
			else { C.R.count("discharged"); if (R.rejected == R.pairs) C.R.count("only_rejected"); C.R.sample(what + ": " + std::to_string(R.pairs) + " pairs of ways", 30); }
		}
	});
	(void)lvr;
}
}
