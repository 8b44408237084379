#include "core.hpp"
namespace lva {
void runArena(Ctx&); void runElf(Ctx&); void runBounds(Ctx&);
void runGuards(Ctx&); void runCpu(Ctx&); void runRegionsDump(Ctx&); void runAgree(Ctx&);
void runIsa(Ctx&); void runSem(Ctx&); void runEffects(Ctx&); void runTerminate(Ctx&); void runBuilder(Ctx&); void runShared(Ctx&); void runLeak(Ctx&); void runResults(Ctx&);
struct Analysis { const char *name; void (*run)(Ctx&); };
extern const Analysis analyses[];
const Analysis analyses[] = {{"arena", runArena}, {"elf", runElf}, {"bounds", runBounds},
	{"effects", runEffects}, {"terminate", runTerminate}, {"builder", runBuilder}, {"shared", runShared}, {"leak", runLeak}, {"results", runResults}, {"guards", runGuards}, {"cpu", runCpu}, {"regions", runRegionsDump}, {"agree", runAgree}, {"isa", runIsa}, {"sem", runSem}, {nullptr,nullptr}};
}
