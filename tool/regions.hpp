// The interpreter as data: one function per bytecode cut out of each dispatch
// loop, one decoding step per instruction id cut out of the decoder-cache
// builder, and their composition.
#pragma once
#include "prover.hpp"
#include "llvm/Transforms/Utils/ValueMapper.h"
namespace lva {

struct LiveIn { Value *orig = nullptr; Argument *arg = nullptr; };
struct Extract { Function *F = nullptr; std::vector<LiveIn> in; ValueToValueMapTy *VM = nullptr; std::vector<std::pair<Value*, Instruction*>> carried; // values the region computes but also needs from before it started
	Argument *argFor(const Value *v) const { for (auto &l : in) if (l.orig == v) return l.arg; return nullptr; } };
// Copies the blocks reachable from entry (not crossing an edge for which cut
// returns true) into a new function; values defined outside become arguments.
// emitCut builds the code of a cut edge (values are mapped with map()).
Extract extractRegion(Function &S, BasicBlock *entry, const std::string &name,
	std::function<bool(BasicBlock*, BasicBlock*)> cut,
	std::function<void(IRBuilder<>&, BasicBlock*, BasicBlock*, std::function<Value*(Value*)>)> emitCut);

struct Region {
	unsigned bytecode = 0; BasicBlock *label = nullptr; Extract X;
	Argument *self = nullptr, *decoder = nullptr, *pc = nullptr, *counter = nullptr, *max = nullptr; // may be null when unused
};
struct Dispatch {
	Function *F = nullptr; GlobalVariable *table = nullptr; std::string name;
	IndirectBrInst *IB = nullptr;
	PHINode *decoder = nullptr, *pc = nullptr, *counter = nullptr, *max = nullptr;
	std::map<PHINode*, std::string> web;          // phi -> pc|counter|max
	std::map<PHINode*, std::string> seg;          // phi -> begin|end|base: what the loop remembers of the current segment
	std::map<std::string, PHINode*> segAt;        // the one merged at the dispatch point
	std::vector<Region> regions;                  // by bytecode; several bytecodes may share a label
	std::map<BasicBlock*, unsigned> tails;        // blocks shared by many labels
	std::vector<BasicBlock*> labels;              // by bytecode
	struct Tail { unsigned id; BasicBlock *entry; Extract X; Value *self, *pc, *counter, *max; std::map<std::string, Value*> seg; };
	std::vector<Tail> tailRegions;                // what a cut to a shared tail leads to; the function entry is one of them
	std::set<const BasicBlock*> tailTargets;
};
struct StepExit { CallInst *call; };
struct CpuModel {
	std::vector<std::unique_ptr<Dispatch>> disp;
	Function *builder = nullptr;                  // fills the decoder cache from instruction words
	BasicBlock *stepHeader = nullptr; const Loop *stepLoop = nullptr;
	Extract step; Argument *word = nullptr;       // loop body as a function; word: what decode() sees
	Value *wordOrig = nullptr, *pcOrig = nullptr; Argument *segBeginArg = nullptr;
	std::map<int64_t, std::string> ids;           // instruction id -> name
	std::map<int64_t, GlobalVariable*> descOf;    // id -> descriptor
	std::map<int64_t, std::set<unsigned>> op6;    // id -> major opcodes that decode to it
	uint64_t offBytecode = 0, offHandler = 1, offBlock = 2, offInstr = 4, size = 8;
	Function *fnNext = nullptr, *fnTail = nullptr, *fnRet = nullptr, *fnExit = nullptr, *fnSeg = nullptr;
	std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
	bool wordFacts = false;                       // also state decode facts as lva.word(x, shift, value): x >> shift is value
	std::function<void(Function&)> stepHook;      // applied to every specialised decoding step
};
bool buildCpuModel(Ctx &C, Roots &R, CpuModel &M);
// decoding step specialised for one instruction id; every path ends in its own
// lva.exit(bytecode, instr, block_bytes, handler_idx, pc, word)
Function *stepFor(Ctx &C, CpuModel &M, int64_t id, int force = -1, bool *open = nullptr);
std::vector<CallInst*> exitsOf(Function &F, CpuModel &M);
// step for one id followed by the region its bytecode selects, in one function
struct Composed { Function *F = nullptr; int bytecode = -1; int64_t id = 0; Dispatch *D = nullptr; };
std::vector<Composed> compose(Ctx &C, CpuModel &M, Dispatch &D, int64_t id, int force = -1, Function *own = nullptr);
void optimizeRegion(Function &F, bool instcombine = true);
// gives every way in which an argument of the calls is merged its own copy of what follows
void splitCalls(Function &F, std::function<std::vector<CallInst*>()> calls, std::vector<unsigned> args, unsigned cap = 120);
} // namespace lva
