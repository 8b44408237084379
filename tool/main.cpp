#include "core.hpp"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/InitLLVM.h"
#include "llvm/Bitcode/BitcodeWriter.h"
using namespace lva;
namespace lva {
struct Analysis { const char *name; void (*run)(Ctx&); };
extern const Analysis analyses[];
}
static void roots(Ctx &C) {
	auto R = findRoots(C);
	errs() << "dispatch " << R.dispatch.size() << " handlers " << R.handlers.size() << " syscalls " << R.syscalls.size() << "\n";
	for (auto *f : R.dispatch) errs() << "D " << qualName(f) << "\n";
	for (auto *f : R.syscalls) errs() << "S " << qualName(f) << " " << locOf(f).file << "\n";
	for (auto *f : R.handlers) errs() << "H " << R.handlerName[f] << " " << qualName(f) << "\n";
}
int main(int argc, char **argv) {
	InitLLVM X(argc, argv);
	if (argc < 3) { errs() << "usage: lva analysis file.bc [k=v...]\n"; return 2; }
	Ctx C;
	for (int i = 3; i < argc; i++) { StringRef a(argv[i]); auto p = a.split('='); C.opts[p.first.str()] = p.second.str(); }
	SMDiagnostic Err;
	C.M = parseIRFile(argv[2], Err, C.llctx);
	if (!C.M) { Err.print("lva", errs()); return 2; }
	C.DL = &C.M->getDataLayout();
	if (C.opts.count("masked")) { C.maskedBits = std::stoull(C.opts["masked"]); C.masked = C.maskedBits != 0; }
	FieldModel fm(*C.M); FM = &fm;
	std::string a = argv[1];
	modelLibrary(*C.M);
	if (a == "roots") { roots(C); return 0; }
	if (a == "flat") { // debugging aid: print one flattened function
		simplifyModuleLight(*C.M); InlinePolicy IP; IP.want = defaultInlineWant;
		for (auto &F : *C.M) if (!F.isDeclaration() && qualName(&F) == C.opts["fn"]) { flatten(F, IP); simplifyFunction(F); F.print(outs()); }
		return 0;
	}
	if (a == "fields") { for (auto &p : fm.members) for (auto &m : p.second) outs() << p.first << " +" << m.off << " " << m.name << "\n"; return 0; }
	for (const Analysis *A = analyses; A->name; A++) {
		if (a == A->name) {
			A->run(C);
			json::Array errsA; for (auto &e : C.R.errors) errsA.push_back(e);
			json::Value out = json::Object{{"findings", std::move(C.R.findings)}, {"info", std::move(C.R.info)}, {"samples", std::move(C.R.samples)}, {"errors", std::move(errsA)}};
			outs() << formatv("{0:2}", out) << "\n";
			return 0;
		}
	}
	errs() << "unknown analysis " << a << "\n";
	return 2;
}
