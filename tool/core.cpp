#include "core.hpp"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/LoopSimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"

namespace lva {

FieldModel *FM = nullptr;

void Report::violation(const std::string &rule, const std::string &site,
                       const std::string &func, const std::string &file, unsigned line,
                       const std::string &msg) {
	std::string key = rule + "|" + site + "|" + func;
	if (!seen.insert(key).second) return;
	findings.push_back(json::Object{{"rule", rule}, {"site", site}, {"func", func},
		{"file", file}, {"line", (int64_t)line}, {"msg", msg}});
}

std::string demangle(StringRef n) { return llvm::demangle(n.str()); }

static std::string stripParams(std::string s) {
	// cut the parameter list: last top-level '(' that is not "(anonymous" / operator()
	int depth = 0, ang = 0;
	for (size_t i = 0; i < s.size(); i++) {
		char c = s[i];
		if (c == '<') { if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) continue; ang++; }
		else if (c == '>') { if (i && s[i-1] == '-') continue; if (ang) ang--; }
		else if (c == '(' && ang == 0) {
			if (s.compare(i, 11, "(anonymous ") == 0) { i = s.find(')', i); continue; }
			if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) { i++; continue; }
			(void)depth;
			// lambda "{lambda(...)#1}" keeps going
			size_t lb = s.rfind('{', i);
			size_t rb = s.rfind('}', i);
			if (lb != std::string::npos && (rb == std::string::npos || rb < lb)) {
				int d = 0; size_t j = i;
				for (; j < s.size(); j++) { if (s[j]=='(') d++; if (s[j]==')' && --d==0) break; }
				i = j; continue;
			}
			// function enclosing a local entity: foo(int)::bar
			int d = 0; size_t j = i;
			for (; j < s.size(); j++) { if (s[j]=='(') d++; if (s[j]==')' && --d==0) break; }
			if (j + 2 < s.size() && s.compare(j + 1, 2, "::") == 0) { s.erase(i, j - i + 1); i--; continue; }
			if (j + 8 < s.size() && s.compare(j + 1, 8, " const::") == 0) { s.erase(i, j - i + 7); i--; continue; }
			return s.substr(0, i);
		}
	}
	return s;
}

std::string scopeName(const DIScope *S) {
	std::string r;
	while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) {
		StringRef n = S->getName();
		if (isa<DILexicalBlockBase>(S)) { S = cast<DILexicalBlockBase>(S)->getScope(); continue; }
		if (auto *SP = dyn_cast<DISubprogram>(S)) {
			std::string ln = SP->getLinkageName().empty() ? n.str() : stripParams(demangle(SP->getLinkageName()));
			if (!SP->getLinkageName().empty()) return r.empty() ? ln : ln + "::" + r;
		}
		if (n.empty()) n = "{anon}";
		r = r.empty() ? n.str() : n.str() + "::" + r;
		S = S->getScope();
	}
	return r;
}

std::string qualName(const Function *F) {
	std::string d = stripParams(demangle(F->getName()));
	// template functions demangle with a return type: drop it
	int ang = 0; size_t cut = 0;
	for (size_t i = 0; i < d.size(); i++) {
		if (d[i] == '<') ang++; else if (d[i] == '>') ang--;
		else if (d[i] == '{') ang++; else if (d[i] == '}') ang--;
		else if (d[i] == '(') ang++; else if (d[i] == ')') ang--;
		else if (d[i] == ' ' && ang == 0) {
			if (i >= 8 && d.compare(i - 8, 8, "operator") == 0) continue;
			cut = i + 1;
		}
	}
	return d.substr(cut);
}

std::string shortFile(StringRef f) {
	size_t p = f.find("lib/libloong/");
	if (p != StringRef::npos) return f.substr(p).str();
	p = f.rfind("/repo/");
	return f.str();
}

static std::string fileOf(const DIScope *S) { return S && S->getFile() ? shortFile(S->getFile()->getFilename()) : std::string("?"); }

Loc locOf(const Instruction *I) {
	Loc L;
	const DebugLoc &DLc = I->getDebugLoc();
	if (DLc) {
		auto *S = cast<DIScope>(DLc.getScope());
		L.line = DLc.getLine();
		L.file = fileOf(S);
		L.func = scopeName(S);
	} else if (I->getFunction()) {
		L = locOf(I->getFunction());
	}
	return L;
}
const DISubprogram *spOf(const Function *F) { return F->getSubprogram(); }
Loc locOf(const Function *F) {
	Loc L;
	L.func = qualName(F);
	if (auto *SP = F->getSubprogram()) { L.file = fileOf(SP); L.line = SP->getLine(); }
	else L.file = "?";
	return L;
}
std::string inlineChain(const Instruction *I) {
	std::string r;
	const DILocation *D = I->getDebugLoc();
	while (D) {
		if (!r.empty()) r += " <- ";
		r += scopeName(D->getScope()) + ":" + std::to_string(D->getLine());
		D = D->getInlinedAt();
	}
	return r;
}
Loc projLocOf(const Instruction *I) {
	for (const DILocation *D = I->getDebugLoc(); D; D = D->getInlinedAt()) {
		std::string f = fileOf(D->getScope());
		if (f.find("lib/libloong/") == std::string::npos || D->getLine() == 0) continue;
		return {f, D->getLine(), scopeName(D->getScope())};
	}
	return locOf(I->getFunction());
}
bool isPublicApi(const Function *F) {
	if (F->isDeclaration() || F->hasLocalLinkage() || !inProject(F)) return false;
	auto *SP = F->getSubprogram();
	if (auto *D = SP ? SP->getDeclaration() : nullptr) SP = D;
	if (!SP) return false;
	auto fl = SP->getFlags() & DINode::FlagAccessibility;
	if (fl == DINode::FlagPrivate || fl == DINode::FlagProtected) return false;
	if (fl == 0) if (auto *T = dyn_cast_or_null<DICompositeType>(SP->getScope())) if (T->getTag() == dwarf::DW_TAG_class_type) return false;
	return true;
}
bool inProject(const Function *F) {
	auto *SP = F->getSubprogram();
	if (!SP || !SP->getFile()) return false;
	StringRef fn = SP->getFile()->getFilename();
	return fn.contains("lib/libloong/") || fn.contains("lva_project/");
}

// ---------------- fields ----------------
std::string irStructName(const Type *T) {
	auto *ST = dyn_cast_or_null<StructType>(T);
	if (!ST || !ST->hasName()) return "";
	StringRef n = ST->getName();
	for (const char *p : {"struct.", "class.", "union."})
		if (n.starts_with(p)) { n = n.substr(strlen(p)); break; }
	// numeric suffix of duplicates
	size_t d = n.rfind('.');
	if (d != StringRef::npos) {
		StringRef suf = n.substr(d + 1);
		if (!suf.empty() && (all_of(suf, isDigit) || suf == "base")) n = n.substr(0, d);
	}
	return n.str();
}
static const DIType *stripQ(const DIType *T) {
	while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
		switch (D->getTag()) {
		case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
			T = D->getBaseType(); continue;
		default: return T;
		}
	}
	return T;
}
FieldModel::FieldModel(Module &M) {
	// walk all composite types through function retained / global metadata
	std::set<const Metadata*> vis;
	std::vector<const MDNode*> wl;
	auto push = [&](const Metadata *m) {
		if (auto *n = dyn_cast_or_null<MDNode>(m)) if (vis.insert(n).second) wl.push_back(n);
	};
	for (auto &NMD : M.named_metadata()) for (auto *n : NMD.operands()) push(n);
	for (auto &F : M) { if (F.getSubprogram()) push(F.getSubprogram());
		for (auto &I : instructions(F)) {
			SmallVector<std::pair<unsigned, MDNode*>, 4> mds; I.getAllMetadata(mds);
			for (auto &p : mds) push(p.second);
			if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) push(DV->getVariable());
		}
	}
	for (auto &G : M.globals()) { SmallVector<DIGlobalVariableExpression*, 2> gv; G.getDebugInfo(gv); for (auto *g : gv) push(g); }
	while (!wl.empty()) {
		auto *n = wl.back(); wl.pop_back();
		for (auto &op : n->operands()) push(op.get());
		auto *C = dyn_cast<DICompositeType>(n);
		if (!C) continue;
		if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
			std::string en = scopeName(C);
			auto &m = enums[en];
			for (auto *e : C->getElements()) if (auto *en2 = dyn_cast<DIEnumerator>(e)) m[en2->getName().str()] = en2->getValue().getSExtValue();
			continue;
		}
		if (C->isForwardDecl()) continue;
		if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
		std::string nm = scopeName(C);
		if (nm.empty()) continue;
		types[nm] = C;
		auto &v = members[nm];
		if (!v.empty()) continue;
		for (auto *e : C->getElements()) {
			auto *D = dyn_cast<DIDerivedType>(e);
			if (!D) continue;
			if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
				v.push_back({D->getOffsetInBits() / 8, (D->getBaseType() ? D->getBaseType()->getSizeInBits() : 0) / 8, D->getName().str(), stripQ(D->getBaseType())});
				if (D->getSizeInBits()) v.back().size = D->getSizeInBits() / 8;
			} else if (D->getTag() == dwarf::DW_TAG_inheritance) {
				v.push_back({D->getOffsetInBits() / 8, D->getBaseType() ? stripQ(D->getBaseType())->getSizeInBits() / 8 : 0, "<base>", stripQ(D->getBaseType())});
			}
		}
	}
}
const FieldModel::Mem *FieldModel::member(const std::string &st, uint64_t off) const {
	auto it = members.find(st);
	if (it == members.end()) return nullptr;
	const Mem *best = nullptr;
	for (auto &m : it->second) if (off >= m.off && (off < m.off + m.size || (m.size == 0 && off == m.off))) { if (!best || m.off >= best->off) best = &m; }
	return best;
}
const FieldModel::Mem *FieldModel::memberByName(const std::string &st, const std::string &n) const {
	auto it = members.find(st);
	if (it == members.end()) return nullptr;
	for (auto &m : it->second) if (m.name == n) return &m;
	return nullptr;
}

// pointer-typed SSA values -> struct types they are declared to point at
static std::map<const Function*, std::map<const Value*, std::vector<std::string>>> DbgTypes;
static std::string pointeeStruct(const DIType *T) {
	T = stripQ(T);
	auto *D = dyn_cast_or_null<DIDerivedType>(T);
	if (!D) return "";
	if (D->getTag() != dwarf::DW_TAG_pointer_type && D->getTag() != dwarf::DW_TAG_reference_type && D->getTag() != dwarf::DW_TAG_rvalue_reference_type) return "";
	auto *C = dyn_cast_or_null<DICompositeType>(stripQ(D->getBaseType()));
	return C ? scopeName(C) : "";
}
void resetDbgTypes(const Function *F) { DbgTypes.erase(F); }
const std::vector<std::string> &declaredPointees(const Value *V) {
	static const std::vector<std::string> none;
	const Function *F = nullptr;
	if (auto *A = dyn_cast<Argument>(V)) F = A->getParent();
	else if (auto *I = dyn_cast<Instruction>(V)) F = I->getFunction();
	if (!F) return none;
	auto it = DbgTypes.find(F);
	if (it == DbgTypes.end()) {
		auto &m = DbgTypes[F];
		for (auto &I : instructions(*F)) if (auto *DV = dyn_cast<DbgValueInst>(&I)) {
			if (DV->hasArgList() || DV->getExpression()->getNumElements()) continue;
			auto *v = DV->getVariableLocationOp(0);
			if (!v || !v->getType()->isPointerTy()) continue;
			std::string s = pointeeStruct(DV->getVariable()->getType());
			if (s.empty()) continue;
			auto &l = m[v];
			if (!llvm::is_contained(l, s)) l.push_back(s);
		}
		it = DbgTypes.find(F);
	}
	auto jt = it->second.find(V);
	return jt == it->second.end() ? none : jt->second;
}

// innermost project member containing byte offset o of struct st
static std::string leafField(std::string cur, uint64_t o) {
	for (unsigned n = 0; n < 16; n++) {
		auto *m = FM->member(cur, o);
		if (!m) return "";
		auto *ct = dyn_cast_or_null<DICompositeType>(m->ty);
		uint64_t rem = o - m->off;
		std::string nn = ct && ct->getTag() != dwarf::DW_TAG_array_type && ct->getTag() != dwarf::DW_TAG_enumeration_type ? scopeName(ct) : "";
		bool descend = !nn.empty() && nn.rfind("loongarch::", 0) == 0 && FM->members.count(nn) && !FM->members.at(nn).empty() && ct->getTag() != dwarf::DW_TAG_union_type;
		if (m->name == "<base>" && !nn.empty() && FM->members.count(nn)) descend = nn.rfind("loongarch::", 0) == 0;
		if (descend) { o = rem; cur = nn; continue; }
		std::string k = cur + "::" + m->name;
		bool isArr = ct && (ct->getTag() == dwarf::DW_TAG_array_type || StringRef(nn).contains("array<") || ct->getTag() == dwarf::DW_TAG_union_type);
		if (rem && !isArr) k += "+" + std::to_string(rem);
		return k;
	}
	return "";
}
bool isProjStruct(const std::string &n) { return n.rfind("loongarch::", 0) == 0; }

static const DICompositeType *pointeeOfMember(const std::string &key) {
	auto p = key.rfind("::"); if (p == std::string::npos || key.find('+', p) != std::string::npos) return nullptr;
	auto *m = FM->memberByName(key.substr(0, p), key.substr(p + 2));
	auto *D = m ? dyn_cast<DIDerivedType>(m->ty) : nullptr;
	if (!D || (D->getTag() != dwarf::DW_TAG_pointer_type && D->getTag() != dwarf::DW_TAG_reference_type)) return nullptr;
	return dyn_cast_or_null<DICompositeType>(stripQ(D->getBaseType()));
}
// no declared type: what a pointer member is declared to point at, or what the pointer is indexed as
static std::vector<std::string> inferredPointees(const Value *P, const DataLayout &DL) {
	static unsigned depth = 0;
	std::vector<std::string> r;
	if (depth > 3) return r;
	depth++;
	if (auto *L = dyn_cast<LoadInst>(P)) if (auto *C = pointeeOfMember(fieldKey(L->getPointerOperand(), DL))) r.push_back(scopeName(C));
	if (r.empty() && !isa<Constant>(P)) for (auto *U : P->users()) if (auto *G = dyn_cast<GEPOperator>(U)) if (G->getPointerOperand() == P && G->getNumIndices() >= 2) {
		std::string sn = irStructName(G->getSourceElementType());
		auto *z = dyn_cast<ConstantInt>(G->getOperand(1));
		if (z && z->isZero() && isProjStruct(sn) && !llvm::is_contained(r, sn)) r.push_back(sn);
	}
	depth--;
	return r;
}
std::string fieldKey(const Value *P, const DataLayout &DL) {
	int64_t acc = 0; bool accOK = true;
	for (unsigned n = 0; n < 24 && P; n++) {
		auto *G = dyn_cast<GEPOperator>(P);
		if (!G) break;
		APInt off(64, 0);
		std::string sn = irStructName(G->getSourceElementType());
		bool k = G->accumulateConstantOffset(DL, off);
		if (!sn.empty() && isProjStruct(sn) && FM->members.count(sn) && !FM->members.at(sn).empty()) {
			uint64_t size = FM->types.at(sn)->getSizeInBits() / 8;
			if (k) {
				int64_t o = off.getSExtValue() % (int64_t)size;
				if (G->getNumIndices() >= 2 || accOK) {
					std::string r = leafField(sn, o + (accOK ? acc : 0));
					if (!r.empty()) return r;
				}
			} else if (G->getNumIndices() >= 2) {
				auto *c1 = dyn_cast<ConstantInt>(G->getOperand(2));
				if (c1 && isa<StructType>(G->getSourceElementType())) {
					uint64_t o = DL.getStructLayout(cast<StructType>(G->getSourceElementType()))->getElementOffset(c1->getZExtValue());
					if (G->getNumIndices() == 2 && accOK) o += acc;
					std::string r = leafField(sn, o);
					if (!r.empty()) return r;
				}
			} else if (accOK && G->getNumIndices() == 1) { // array-of-struct element
				std::string r = leafField(sn, acc % (int64_t)size);
				if (!r.empty()) return r;
			}
		}
		if (k) acc += off.getSExtValue(); else accOK = false;
		P = G->getPointerOperand();
	}
	if (!accOK || !P || acc < 0) return "";
	std::string best; uint64_t bs = 0;
	std::vector<std::string> types = declaredPointees(P);
	if (types.empty()) types = inferredPointees(P, DL);
	for (auto &sn : types) {
		if (!isProjStruct(sn) || !FM->members.count(sn) || FM->members.at(sn).empty()) continue;
		uint64_t size = FM->types.at(sn)->getSizeInBits() / 8;
		if ((uint64_t)acc >= size) continue;
		std::string r = leafField(sn, acc);
		if (!r.empty() && size > bs) { best = r; bs = size; }
	}
	return best;
}

// ---------------- inlining ----------------
bool neverReturns(const Function *F) {
	if (F->doesNotReturn()) return true;
	if (F->isDeclaration()) {
		StringRef n = F->getName();
		return n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_ZSt9terminatev" || n == "abort" || n == "exit";
	}
	for (auto &B : *F) if (isa<ReturnInst>(B.getTerminator())) return false;
	return true;
}

bool defaultInlineWant(const Function *F) {
	if (F->isDeclaration() || F->isIntrinsic() || F->isVarArg()) return false;
	if (F->hasFnAttribute(Attribute::OptimizeNone)) return false;
	if (neverReturns(F)) return false;
	if (inProject(F)) return F->getInstructionCount() < 6000;
	// small library helpers only
	return F->getInstructionCount() < 60;
}

unsigned flatten(Function &F, const InlinePolicy &P) {
	struct Item { CallBase *CB; std::vector<const Function*> chain; };
	std::vector<Item> wl;
	for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) wl.push_back({CB, {&F}});
	unsigned n = 0;
	size_t size = F.getInstructionCount();
	for (size_t i = 0; i < wl.size(); i++) {
		Item it = wl[i];
		Function *C = calleeOf(it.CB);
		if (!C || C->isDeclaration() || it.chain.size() > P.maxDepth) continue;
		if (C->getFunctionType() != it.CB->getFunctionType()) continue;
		if (llvm::is_contained(it.chain, C)) continue;
		if (!P.want(C)) continue;
		size_t cs = C->getInstructionCount();
		if (size + cs > P.maxInstrs) continue;
		InlineFunctionInfo IFI;
		auto res = InlineFunction(*it.CB, IFI, /*MergeAttributes=*/false, nullptr, /*InsertLifetime=*/true);
		if (!res.isSuccess()) continue;
		n++; size += cs;
		auto ch = it.chain; ch.push_back(C);
		for (auto *cb : IFI.InlinedCallSites) wl.push_back({cb, ch});
	}
	return n;
}

struct PMs {
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PMs() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
		PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); }
};

// a choice that the edge it travels along has already decided
static void pickArms(Function &F) {
	bool ch = false;
	for (auto &B : F) for (auto &P : B.phis()) for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
		auto *Se = dyn_cast<SelectInst>(P.getIncomingValue(i)); if (!Se) continue;
		for (BasicBlock *X = P.getIncomingBlock(i), *to = &B; X; to = X, X = X->getSinglePredecessor()) {
			auto *Br = dyn_cast<BranchInst>(X->getTerminator());
			if (Br && Br->isConditional() && Br->getCondition() == Se->getCondition() && Br->getSuccessor(0) != Br->getSuccessor(1)) { P.setIncomingValue(i, Br->getSuccessor(0) == to ? Se->getTrueValue() : Se->getFalseValue()); ch = true; break; }
			if (X == Se->getParent()) break;
		}
	}
	if (ch) for (auto &B : F) for (auto &I : make_early_inc_range(reverse(B))) if (isInstructionTriviallyDead(&I)) I.eraseFromParent();
}
// a loop over a few values listed in place (a local array) is the same as the
// statements written one after the other
static bool unrollListLoops(Function &F) {
	bool any = false;
	for (unsigned k = 0; k < 8; k++) {
		PMs P; DominatorTree DT(F); LoopInfo LI(DT); if (LI.empty()) return any;
		auto &SE = P.FAM.getResult<ScalarEvolutionAnalysis>(F);
		std::vector<BasicBlock*> heads;
		for (auto *L : LI.getLoopsInPreorder()) {
			if (!L->isInnermost()) continue;
			auto &LI2 = P.FAM.getResult<LoopAnalysis>(F); auto *L2 = LI2.getLoopFor(L->getHeader());
			unsigned tc = 0; SmallVector<BasicBlock*, 4> ex; L2->getExitingBlocks(ex); for (auto *e : ex) { unsigned t = SE.getSmallConstantTripCount(L2, e); if (t && (!tc || t < tc)) tc = t; }
			if (!tc || tc > 9) continue; // the test of a list of n values runs n+1 times
			bool list = false;
			for (auto *B : L->blocks()) for (auto &I : *B) if (auto *Ld = dyn_cast<LoadInst>(&I)) { auto *o = getUnderlyingObject(Ld->getPointerOperand(), 0); auto *p = Ld->getPointerOperand()->stripInBoundsConstantOffsets(); auto *A = dyn_cast<AllocaInst>(o); auto *G = dyn_cast<GlobalVariable>(o); if (p != o && (A ? A->getAllocatedType()->isArrayTy() : G && G->isConstant())) list = true; if (auto *Ph = dyn_cast<PHINode>(p)) for (auto &in : Ph->incoming_values()) { auto *io = getUnderlyingObject(in, 0); if (isa<AllocaInst>(io) && cast<AllocaInst>(io)->getAllocatedType()->isArrayTy()) list = true; if (auto *G = dyn_cast<GlobalVariable>(io); G && G->isConstant()) list = true; } }
			if (list) heads.push_back(L->getHeader());
		}
		bool did = false;
		for (auto *H : heads) {
			DominatorTree DT2(F); LoopInfo LI2(DT2); AssumptionCache AC(F); TargetLibraryInfoImpl TI; TargetLibraryInfo TL(TI); ScalarEvolution SE2(F, TL, AC, DT2, LI2); TargetTransformInfo TTI(F.getParent()->getDataLayout()); OptimizationRemarkEmitter ORE(&F);
			auto *L = LI2.getLoopFor(H); if (!L || L->getHeader() != H) continue;
			simplifyLoop(L, &DT2, &LI2, &SE2, &AC, nullptr, false); formLCSSARecursively(*L, DT2, &LI2, &SE2);
			unsigned tc = 0; SmallVector<BasicBlock*, 4> ex; L->getExitingBlocks(ex); for (auto *e : ex) { unsigned t = SE2.getSmallConstantTripCount(L, e); if (t && (!tc || t < tc)) tc = t; }
			if (!tc || tc > 9) continue;
			UnrollLoopOptions U; U.Count = tc; U.Force = true; U.Runtime = false; U.AllowExpensiveTripCount = false; U.UnrollRemainder = false; U.ForgetAllSCEV = true;
			if (UnrollLoop(L, U, &LI2, &SE2, &DT2, &AC, &TTI, &ORE, true) != LoopUnrollResult::Unmodified) { did = any = true; break; }
		}
		if (!did) return any;
	}
	return any;
}
static void simplifyOnce(Function &F, bool gvn);
void simplifyFunction(Function &F, bool gvn) { simplifyOnce(F, gvn); if (unrollListLoops(F)) { simplifyOnce(F, gvn); } }
static void simplifyOnce(Function &F, bool gvn) {
	PMs P;
	FunctionPassManager FPM;
	FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
	FPM.addPass(EarlyCSEPass(true));
	SimplifyCFGOptions O;
	O.convertSwitchRangeToICmp(false).convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false).needCanonicalLoops(true).setSimplifyCondBranch(true).bonusInstThreshold(0);
	FPM.addPass(SimplifyCFGPass(O));
	FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
	FPM.addPass(EarlyCSEPass(true));
	if (gvn) FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false).setMemDep(true)));
	FPM.addPass(SCCPPass());
	FPM.addPass(SimplifyCFGPass(O));
	FPM.addPass(DCEPass());
	FPM.run(F, P.FAM);
	pickArms(F);
	resetDbgTypes(&F);
}
// path-splitting: threads correlated branches so that path facts are not merged away
void threadJumps(Function &F) {
	PMs P;
	FunctionPassManager FPM;
	FPM.addPass(JumpThreadingPass(24));
	FPM.addPass(EarlyCSEPass(true));
	FPM.run(F, P.FAM);
	resetDbgTypes(&F);
}
void simplifyModuleLight(Module &M) {
	PMs P;
	FunctionPassManager FPM;
	FPM.addPass(LowerExpectIntrinsicPass());
	FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
	FPM.addPass(EarlyCSEPass(true));
	for (auto &F : M) if (!F.isDeclaration()) FPM.run(F, P.FAM);
}

// ---------------- roots ----------------
static bool isMachineRefFn(const Function *F) {
	// void f(Machine&)
	auto *SP = F->getSubprogram();
	if (!SP || !SP->getType()) return false;
	auto ta = SP->getType()->getTypeArray();
	std::vector<const DIType*> ts;
	for (unsigned i = 0; i < ta.size(); i++) ts.push_back(ta[i]);
	if (ts.size() == 3 && ts[1] && (ts[1]->getFlags() & DINode::FlagArtificial)) ts.erase(ts.begin() + 1);
	if (ts.size() != 2 || ts[0]) return false;
	if (SP->getScope() && SP->getName() == cast<DIScope>(SP->getScope())->getName()) return false; // constructor
	auto *D = dyn_cast_or_null<DIDerivedType>(ts[1]);
	if (!D || D->getTag() != dwarf::DW_TAG_reference_type) return false;
	return D->getBaseType() && D->getBaseType()->getName() == "Machine";
}

Roots findRoots(Ctx &C) {
	Roots R;
	Module &M = *C.M;
	for (auto &G : M.globals()) {
		if (!G.hasInitializer()) continue;
		SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
		if (gv.empty()) continue;
		auto *ty = dyn_cast_or_null<DICompositeType>(stripQ(gv[0]->getVariable()->getType()));
		if (!ty || scopeName(ty) != "loongarch::Instruction") continue;
		auto *init = G.getInitializer();
		if (!init->getAggregateElement(0u) || !init->getAggregateElement(1u)) continue;
		auto *h = dyn_cast<Function>(init->getAggregateElement(0u)->stripPointerCasts());
		auto *p = dyn_cast<Function>(init->getAggregateElement(1u)->stripPointerCasts());
		std::string nm = demangle(G.getName());
		size_t q = nm.rfind("instr64_");
		if (q != std::string::npos) nm = nm.substr(q + 8);
		if (h) { if (!llvm::is_contained(R.handlers, h)) R.handlers.push_back(h); if (!R.handlerName.count(h)) R.handlerName[h] = nm; }
		if (p && !llvm::is_contained(R.printers, p)) R.printers.push_back(p);
	}
	for (auto &F : M) {
		if (F.isDeclaration() || !inProject(&F)) continue;
		bool ib = false;
		for (auto &B : F) if (isa<IndirectBrInst>(B.getTerminator())) ib = true;
		if (ib) { R.dispatch.push_back(&F); continue; }
		if (F.hasAddressTaken(nullptr, true) && isMachineRefFn(&F)) R.syscalls.push_back(&F);
	}
	auto byName = [](Function *a, Function *b) { return a->getName() < b->getName(); };
	llvm::sort(R.dispatch, byName); llvm::sort(R.handlers, byName); llvm::sort(R.syscalls, byName);
	return R;
}

} // namespace lva

// Library algorithms, replaced by what the standard says they return: a search
// yields the end of its range or an element the predicate accepts.  Only for
// predicates without side effects, whose calls cannot be told apart.
namespace lva {
static bool pureBody(const Function *F, std::set<const Function*> &seen) {
	if (!seen.insert(F).second) return true;
	if (F->isDeclaration()) return F->onlyReadsMemory() || F->isIntrinsic();
	for (auto &I : instructions(F)) {
		if (auto *S = dyn_cast<StoreInst>(&I)) { if (!isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand(), 0))) return false; }
		else if (auto *CB = dyn_cast<CallBase>(&I)) { auto *c = calleeOf(CB); if (!c) return false; if (auto *MI = dyn_cast<MemIntrinsic>(CB)) { if (!isa<AllocaInst>(getUnderlyingObject(MI->getDest(), 0))) return false; } else if (!c->isIntrinsic() && !pureBody(c, seen)) return false; }
		else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return false;
	}
	return true;
}
void modelLibrary(Module &M) {
	auto &X = M.getContext(); unsigned n = 0;
	for (auto &F : M) {
		if (F.isDeclaration() || !F.getName().starts_with("_ZSt9__find_if") || F.arg_size() < 3) continue;
		auto *P0 = F.getArg(0)->getType();
		if (!P0->isPointerTy() || F.getArg(1)->getType() != P0 || F.getReturnType() != P0) continue;
		CallBase *pc = nullptr;
		for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = calleeOf(CB)) { std::string d = demangle(c->getName().str()); if (d.find("::operator()") != std::string::npos && CB->arg_size() == 2 && CB->getType()->isIntegerTy(1) && CB->getArgOperand(1)->getType() == P0 && isa<AllocaInst>(CB->getArgOperand(0)) && cast<Instruction>(CB->getArgOperand(0))->getParent() == &F.getEntryBlock()) { pc = CB; break; } }
		if (!pc) continue;
		std::set<const Function*> seen; if (!pureBody(calleeOf(pc), seen)) continue;
		auto *pred = calleeOf(pc); auto *predObj = pc->getArgOperand(0); auto DLoc = pc->getDebugLoc();
		auto *fn = cast<Function>(M.getOrInsertFunction("lva.found", FunctionType::get(P0, {P0, P0}, false)).getCallee());
		fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); fn->setDoesNotThrow(); fn->setWillReturn();
		auto *never = cast<Function>(M.getOrInsertFunction("lva.never", FunctionType::get(Type::getVoidTy(X), false)).getCallee());
		never->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); never->setDoesNotThrow(); never->setDoesNotReturn();
		BasicBlock *E = &F.getEntryBlock();
		std::vector<BasicBlock*> rest; for (auto &B : F) if (&B != E) rest.push_back(&B);
		E->getTerminator()->eraseFromParent();
		for (auto *B : rest) B->dropAllReferences();
		auto *end = BasicBlock::Create(X, "found.end", &F), *hit = BasicBlock::Create(X, "found.hit", &F), *no = BasicBlock::Create(X, "found.no", &F), *ok = BasicBlock::Create(X, "found.ok", &F);
		IRBuilder<> B(E); B.SetCurrentDebugLocation(DLoc);
		auto *r = B.CreateCall(fn, {F.getArg(0), F.getArg(1)}); B.CreateCondBr(B.CreateICmpEQ(r, F.getArg(1)), end, hit);
		B.SetInsertPoint(end); B.CreateRet(F.getArg(1));
		B.SetInsertPoint(hit); auto *q = B.CreateCall(pred, {predObj, r}); B.CreateCondBr(q, ok, no);
		B.SetInsertPoint(no); B.CreateCall(never); B.CreateUnreachable(); // cannot happen
		B.SetInsertPoint(ok); B.CreateRet(r);
		for (auto *Bk : rest) Bk->eraseFromParent();
		n++;
	}
}
}
