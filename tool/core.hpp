// Core of the libloong static analyser: module loading, source names, field
// model, per-root inlining, shared by every analysis.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

namespace lva {

// ---------- reporting ----------
struct Report {
	json::Array findings;   // violations
	json::Object info;      // counts etc
	json::Array samples;    // discharged samples
	std::vector<std::string> errors; // analysis-broken conditions
	void count(const std::string &k, int64_t n = 1) {
		auto *v = info.get(k);
		int64_t o = v ? v->getAsInteger().value_or(0) : 0;
		info[k] = o + n;
	}
	void violation(const std::string &rule, const std::string &site,
	               const std::string &func, const std::string &file, unsigned line,
	               const std::string &msg);
	void sample(const std::string &s, size_t cap = 40) { if (samples.size() < cap) samples.push_back(s); }
	void error(const std::string &e) { errors.push_back(e); }
	std::set<std::string> seen;
};

struct Ctx {
	LLVMContext llctx;
	std::unique_ptr<Module> M;
	const DataLayout *DL = nullptr;
	Report R;
	std::map<std::string, std::string> opts;
	bool masked = false;
	uint64_t maskedBits = 0;
};

// ---------- names ----------
std::string demangle(StringRef n);               // full demangled
std::string qualName(const Function *F);         // qualified name w/o parameters
std::string scopeName(const DIScope *S);         // namespace::class::name of debug scope
std::string shortFile(StringRef f);              // path relative to lib/libloong
struct Loc { std::string file; unsigned line = 0; std::string func; };
Loc locOf(const Instruction *I);                 // innermost source location
Loc locOf(const Function *F);
std::string inlineChain(const Instruction *I);   // a <- b <- c
Loc projLocOf(const Instruction *I);             // innermost frame of the inline stack that lies in the project
bool isPublicApi(const Function *F);             // externally visible, not private/protected
bool inProject(const Function *F);               // body comes from lib/libloong
const DISubprogram *spOf(const Function *F);

// ---------- struct fields ----------
// canonical field key of an address: "Memory::m_arena", with element info
struct FieldRef {
	std::string key;       // Struct::member (innermost named member)
	const Value *base = nullptr; // struct pointer
	bool exact = false;    // all-constant path
};
struct FieldModel {
	explicit FieldModel(Module &M);
	// struct IR type name ("loongarch::Memory") -> (byte offset -> member name, size)
	struct Mem { uint64_t off, size; std::string name; const DIType *ty; };
	std::map<std::string, std::vector<Mem>> members;
	std::map<std::string, const DICompositeType*> types;
	std::map<std::string, std::map<std::string, int64_t>> enums; // enum -> name -> value
	const Mem *member(const std::string &st, uint64_t off) const;
	const Mem *memberByName(const std::string &st, const std::string &n) const;
};
extern FieldModel *FM;
std::string irStructName(const Type *T); // strip "struct."/"class."/"union." and numeric suffix
// resolve pointer to innermost struct field key ("Memory::m_arena"); "" when unknown
std::string fieldKey(const Value *Ptr, const DataLayout &DL);
const std::vector<std::string> &declaredPointees(const Value *V);
void resetDbgTypes(const Function *F);

// ---------- inlining ----------
struct InlinePolicy {
	std::function<bool(const Function*)> want; // may inline this callee
	size_t maxInstrs = 120000;
	unsigned maxDepth = 24;
};
bool neverReturns(const Function *F);
// flatten a root in place; returns number of inlined calls
void modelLibrary(Module &M);
unsigned flatten(Function &F, const InlinePolicy &P);
void simplifyFunction(Function &F, bool gvn = true);
void threadJumps(Function &F);
void simplifyModuleLight(Module &M);
bool defaultInlineWant(const Function *F);

// direct callee looking through casts
inline Function *calleeOf(const CallBase *CB) {
	return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
}

// ---------- roots ----------
struct Roots {
	std::vector<Function*> dispatch;   // threaded dispatch loops
	std::vector<Function*> handlers;   // generic instruction handlers
	std::vector<Function*> syscalls;   // system call handlers
	std::vector<Function*> printers;
	std::map<Function*, std::string> handlerName; // descriptor name
};
Roots findRoots(Ctx &C);

} // namespace lva
