// Work split over processes: each worker reports into its own copy of C.R.
#include "par.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <sys/mman.h>
#include <atomic>
namespace lva {
void parallelFor(Ctx &C, unsigned n, std::function<void(unsigned)> fn) {
	unsigned nw = std::max(1l, std::min(8l, sysconf(_SC_NPROCESSORS_ONLN)));
	if (C.opts.count("jobs")) nw = std::stoul(C.opts["jobs"]);
	if (nw == 1 || n < 4) { for (unsigned i = 0; i < n; i++) fn(i); return; }
	auto *next = (std::atomic<unsigned>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (next) std::atomic<unsigned>(0);
	struct W { pid_t pid; FILE *f; };
	std::vector<W> ws;
	for (unsigned w = 0; w < nw; w++) {
		FILE *f = tmpfile();
		if (!f) { C.R.error("cannot create a temporary file"); return; }
		pid_t p = fork();
		if (p < 0) { C.R.error("cannot start a worker"); fclose(f); return; }
		if (!p) {
			C.R = Report();
			unsigned done = 0;
			for (unsigned i; (i = next->fetch_add(1)) < n;) { fn(i); done++; }
			json::Array er; for (auto &e : C.R.errors) er.push_back(e);
			std::string s = formatv("{0}", json::Value(json::Object{{"findings", std::move(C.R.findings)}, {"info", std::move(C.R.info)}, {"samples", std::move(C.R.samples)}, {"errors", std::move(er)}, {"done", (int64_t)done}})).str();
			fwrite(s.data(), 1, s.size(), f); fflush(f);
			_exit(0);
		}
		ws.push_back({p, f});
	}
	int64_t done = 0;
	for (auto &w : ws) {
		int st = 0; waitpid(w.pid, &st, 0);
		std::string s; rewind(w.f); char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, w.f)) > 0) s.append(buf, k); fclose(w.f);
		auto v = json::parse(s);
		if (!WIFEXITED(st) || WEXITSTATUS(st) || !v) { if (!v) consumeError(v.takeError()); C.R.error("a worker of the analysis failed"); continue; }
		auto &o = *v->getAsObject();
		done += o.getInteger("done").value_or(0);
		for (auto &e : *o.getArray("findings")) { auto *q = e.getAsObject(); std::string key = (q->getString("rule").value_or("") + "|" + q->getString("site").value_or("") + "|" + q->getString("func").value_or("")).str(); if (C.R.seen.insert("par:" + key).second) C.R.findings.push_back(e); }
		for (auto &p : *o.getObject("info")) if (auto x = p.second.getAsInteger()) C.R.count(p.first.str(), *x);
		for (auto &e : *o.getArray("samples")) if (auto t = e.getAsString()) C.R.sample(t->str());
		for (auto &e : *o.getArray("errors")) if (auto t = e.getAsString()) C.R.error(t->str());
	}
	if (done != n) C.R.error("not every unit of the analysis was processed");
	munmap(next, 4096);
}
}
