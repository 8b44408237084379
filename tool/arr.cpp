// Fixed-size arrays: every access to a stack array or array global, and every
// variable step through a fixed array type, stays inside the array.
#include "prover.hpp"
namespace lva {

struct Access { const Instruction *I; const Value *ptr; Lin size; bool sizeKnown; bool write; std::string what; };
void collectAccesses(Function &F, Prover &P, std::vector<Access> &out, std::function<bool(const Value*)> isBase, std::vector<std::pair<const Instruction*, std::string>> &escapes);
void setupMemProver(Prover &P);

// memory touched through a pointer, directly or after further constant steps
static void memUsers(const Value *p, std::vector<const Instruction*> &out, bool &other, unsigned d = 0) {
	if (d > 6) { other = true; return; }
	for (auto *U : p->users()) {
		auto *I = dyn_cast<Instruction>(U);
		if (!I) { other = true; continue; }
		if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I)) { memUsers(I, out, other, d + 1); continue; }
		if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<CallBase>(I)) { out.push_back(I); continue; }
		if (isa<ICmpInst>(I)) continue;
		other = true;
	}
}

// written inside std::basic_string or its char_traits
static bool libString(const Instruction *I) {
	auto *L = I->getDebugLoc().get(); if (!L) return false;
	std::string q; if (auto *S = dyn_cast_or_null<DILocalScope>(L->getScope())) if (auto *P = S->getSubprogram()) { for (auto *sc = P->getScope(); sc; sc = sc->getScope()) q = sc->getName().str() + "::" + q; }
	return q.rfind("std::char_traits", 0) == 0 || q.rfind("std::__cxx11::basic_string", 0) == 0 || q.rfind("std::basic_string", 0) == 0;
}
void checkArrays(Ctx &C, Function &F, const std::string &kind, const std::string &name) {
	Prover P(F, C);
	setupMemProver(P);
	auto done = [&](bool ok, const Instruction *I, const std::string &what, const std::string &msg) {
		auto L = projLocOf(I);
		if (!ok && libString(I)) { C.R.count("inside_std_string"); return; } // the library's own invariant (size fits the buffer)
		C.R.count("obligations"); C.R.count("obligations_" + kind);
		if (ok) { C.R.count("discharged"); C.R.sample(kind + " " + name + ": " + what + " at " + L.file + ":" + std::to_string(L.line)); }
		else C.R.violation("array-bounds", what + " in " + L.func, name, L.file, L.line, msg + "; path " + inlineChain(I));
	};
	// (a) stack arrays and array globals as objects
	std::vector<std::pair<const Value*, uint64_t>> objs;
	std::set<const Value*> gl;
	for (auto &I : instructions(F)) {
		if (auto *A = dyn_cast<AllocaInst>(&I)) {
			auto sz = A->getAllocationSize(*C.DL);
			if (sz && !sz->isScalable() && sz->getFixedValue() >= 1) objs.push_back({A, sz->getFixedValue()});
		}
		for (auto &op : I.operands()) if (auto *G = dyn_cast<GlobalVariable>(op->stripInBoundsOffsets())) if (G->hasDefinitiveInitializer() && G->getValueType()->isArrayTy() && gl.insert(G).second)
			objs.push_back({G, C.DL->getTypeAllocSize(G->getValueType()).getFixedValue()});
	}
	for (auto &o : objs) {
		std::vector<Access> acc; std::vector<std::pair<const Instruction*, std::string>> esc;
		auto isBase = [&](const Value *v) { return v == o.first; };
		collectAccesses(F, P, acc, isBase, esc);
		bool arr = isa<GlobalVariable>(o.first) || cast<AllocaInst>(o.first)->getAllocatedType()->isArrayTy();
		for (auto &a : acc) {
			PtrInfo pi = decompose(a.ptr, P);
			if (pi.ok && pi.base == o.first && pi.off.c.empty() && a.size.c.empty()) { // constant access
				if (!arr && pi.off.k >= 0 && pi.off.k + a.size.k <= (i128)o.second) continue;
			}
			bool ok = a.sizeKnown && proveInObject(a.ptr, a.size, Lin::cst((i128)o.second), isBase, a.I, P, nullptr, true);
			done(ok, a.I, a.what + " of a " + std::to_string(o.second) + "-byte " + (isa<AllocaInst>(o.first) ? "local object" : "table"),
				a.what + " is not proved to stay inside the " + std::to_string(o.second) + "-byte object; offset " + P.show(pi.off) + ", size " + P.show(a.size));
		}
	}
	// (b) variable steps through fixed array types
	for (auto &I : instructions(F)) {
		auto *G = dyn_cast<GetElementPtrInst>(&I);
		if (!G) continue;
		Type *cur = nullptr;
		for (auto T = gep_type_begin(G), E = gep_type_end(G); T != E; ++T) {
			if (T.getStructTypeOrNull()) { cur = T.getIndexedType(); continue; }
			if (!cur || !isa<ArrayType>(cur)) { cur = T.getIndexedType(); continue; }
			uint64_t n = cast<ArrayType>(cur)->getNumElements();
			cur = T.getIndexedType();
			const Value *idx = T.getOperand();
			if (auto *CI = dyn_cast<ConstantInt>(idx)) {
				if (CI->getZExtValue() < n || n == 0) continue;
			}
			if (n == 0) continue;
			std::string fk = fieldKey(G->getPointerOperand(), *C.DL);
			if (kind == "api" && isa<Argument>(idx->stripPointerCasts())) { C.R.count("host_index_arguments"); continue; }
			Lin iv = P.val(idx);
			bool ok = iv.ok && P.proveLE(iv, Lin::cst((i128)n - 1), G);
			if (!ok) {
				std::vector<const Instruction*> us; bool other = false;
				memUsers(G, us, other);
				if (!other && (!us.empty() || isa<ConstantInt>(idx))) {
					ok = true;
					for (auto *u : us) if (!P.proveLE(iv, Lin::cst((i128)n - 1), u)) { ok = false; break; }
				}
			}
			std::string what = "index into " + (fk.empty() ? "an array" : fk) + " of " + std::to_string(n);
			done(ok, G, what, "index is not proved to be below " + std::to_string(n) + " (" + P.show(iv) + ")");
		}
	}
}
}
