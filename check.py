#!/usr/bin/env python3
"""Driver of the libloong static checks.

  check.py build              build the analyser (cached by content)
  check.py <ID> [--repo DIR]  decide property <ID> on /repo's current source

Every run compiles /repo's current sources to LLVM bitcode (never executing
them), links them and runs the analyses of checks.json on the result.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(VERIF, "tool")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
LLVM_INC = "/usr/lib/llvm-18/include"
LLVM_LIB = "/usr/lib/llvm-18/lib"
JOBS = os.cpu_count() or 4


class Broken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build_tool():
    srcs = sorted(os.path.join(TOOL, f) for f in os.listdir(TOOL) if f.endswith(".cpp"))
    hdrs = [os.path.join(TOOL, f) for f in os.listdir(TOOL) if f.endswith((".hpp", ".inc"))]
    out = os.path.join(BUILD, "lva-" + digest(srcs + hdrs))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(prefix="obj-", dir=BUILD)
        try:
            def one(s):
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                # objects are cached by their own source and the headers
                c = os.path.join(BUILD, os.path.basename(s) + "-" + digest([s] + hdrs) + ".o")
                if not os.path.exists(c):
                    r = run([CLANG, "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-w", "-I" + LLVM_INC, "-D_GNU_SOURCE",
                             "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-c", s, "-o", o])
                    if r.returncode:
                        raise Broken("analyser does not compile: " + r.stderr[-3000:])
                    os.replace(o, c)
                return c
            with ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(one, srcs))
            t = os.path.join(tmp, "lva")
            r = run([CLANG] + objs + ["-L" + LLVM_LIB, "-lLLVM-18", "-o", t])
            if r.returncode:
                raise Broken("analyser does not link: " + r.stderr[-3000:])
            os.replace(t, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


CONFIGS = {
    # name: (cmakedefines, values)
    "default": ({"LA_64", "LA_THREADED"}, {"LA_MASKED_MEMORY_BITS": "0"}),
    "masked": ({"LA_64", "LA_THREADED"}, {"LA_MASKED_MEMORY_BITS": "28"}),
    "masked32": ({"LA_64", "LA_THREADED"}, {"LA_MASKED_MEMORY_BITS": "32"}),
    "spec": ({"LA_64", "LA_THREADED"}, {"LA_MASKED_MEMORY_BITS": "0"}),  # default, with tool/spec/spec.cc linked in
    "bt": ({"LA_64", "LA_THREADED", "LA_BINARY_TRANSLATION"}, {"LA_MASKED_MEMORY_BITS": "0"}),
}


def settings(repo, cfg, out):
    defs, vals = CONFIGS[cfg]
    txt = open(os.path.join(repo, "lib", "libloong_settings.h.in")).read()
    def cm(m):
        return "#define " + m.group(1) if m.group(1) in defs else "/* #undef %s */" % m.group(1)
    txt = re.sub(r"#cmakedefine\s+(\w+).*", cm, txt)
    txt = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), txt)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "libloong_settings.h"), "w").write(txt)


def sources(repo, cfg):
    lib = os.path.join(repo, "lib")
    cm = open(os.path.join(lib, "CMakeLists.txt")).read()
    cm = re.sub(r"#.*", "", cm)
    files = sorted(set(re.findall(r"libloong/[\w/.-]+\.cpp", cm)))
    res = []
    for f in files:
        b = os.path.basename(f)
        if b.startswith("tailcall") or b == "cpu_dispatch.cpp":
            continue
        if b.startswith("tr_") and cfg != "bt":
            continue
        p = os.path.join(lib, f)
        if os.path.exists(p):
            res.append(p)
    if len(res) < 10:
        raise Broken("library source list not recognised in lib/CMakeLists.txt")
    return res


def bitcode(repo, cfg):
    """Compile the current tree; cached in build/ by content of lib/ (content hash, so never stale)."""
    lib = os.path.join(repo, "lib")
    allf = []
    for d, _, fs in os.walk(lib):
        allf += [os.path.join(d, f) for f in fs]
    allf.append(os.path.join(TOOL, "inst", "inst.cc"))
    allf.append(os.path.abspath(__file__))
    if cfg == "spec":
        allf.append(os.path.join(TOOL, "spec", "spec.cc"))
    key = digest(allf)
    out = os.path.join(BUILD, "%s-%s.bc" % (cfg, key))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="bc-", dir=BUILD)
    try:
        settings(repo, cfg, os.path.join(tmp, "set"))
        base = []
        if cfg == "spec":
            base = [bitcode(repo, "default")]
            srcs = [os.path.join(TOOL, "spec", "spec.cc")]
        else:
            srcs = sources(repo, cfg)
            srcs.append(os.path.join(TOOL, "inst", "inst.cc"))
        # largest first, so the long ones do not come last
        srcs.sort(key=lambda p: -os.path.getsize(p))
        def one(a):
            i, s = a
            o = os.path.join(tmp, "%02d.bc" % i)
            r = run([CLANG, "-x", "c++", "-std=gnu++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-fno-rtti",
                     "-w", "-ffp-contract=off", "-emit-llvm", "-c", s, "-I" + os.path.join(tmp, "set"), "-I" + lib, "-o", o])
            if r.returncode:
                raise Broken("%s does not compile:\n%s" % (s, r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        t = os.path.join(tmp, "all.bc")
        r = run([LINK] + base + sorted(objs) + ["-o", t])
        if r.returncode:
            raise Broken("llvm-link: " + r.stderr[-3000:])
        for old in os.listdir(BUILD):  # keep the cache small
            if old.startswith(cfg + "-") and old.endswith(".bc"):
                p = os.path.join(BUILD, old)
                if time.time() - os.path.getmtime(p) > 3600:
                    try: os.unlink(p)
                    except OSError: pass
        os.replace(t, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def load_known():
    """known: property=<id> key=<rule>|<site>|<func> :: description   (fixed: lines suppress nothing)"""
    known = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(.*?) :: (.*)", ln.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        print(build_tool())
        return 0
    pid = sys.argv[1]
    repo = "/repo"
    if "--repo" in sys.argv:
        repo = sys.argv[sys.argv.index("--repo") + 1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    tool = build_tool()
    known = load_known()
    findings, infos, samples, errors = [], {}, [], []
    runs = list(spec["runs"]) + (spec.get("thorough_runs", []) if tier == "thorough" else [])
    for cfg in sorted({r["config"] for r in runs}):
        bitcode(repo, cfg)  # not in parallel: one run uses all cores

    def one(r):
        bc = bitcode(repo, r["config"])
        opts = ["%s=%s" % kv for kv in r.get("opts", {}).items()]
        opts.append("masked=" + CONFIGS[r["config"]][1]["LA_MASKED_MEMORY_BITS"])
        opts.append("tier=" + tier)
        if r["config"] == "bt": opts.append("bt=1")
        p = run([tool, r["analysis"], bc] + opts)
        if p.returncode:
            raise Broken("analysis %s failed (%d): %s" % (r["analysis"], p.returncode, p.stderr[-2000:]))
        return r, json.loads(p.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        for r, o in ex.map(one, runs):
            tag = r["analysis"] + ("" if not r.get("opts") else "[" + ",".join("%s=%s" % kv for kv in sorted(r["opts"].items())) + "]") + "@" + r["config"]
            infos[tag] = o["info"]
            samples += [tag + ": " + (s if isinstance(s, str) else json.dumps(s)) for s in o["samples"]][:12]
            for f in o["findings"]:
                f["run"] = tag
                f["key"] = "%s|%s|%s" % (f["rule"], f["site"], f["func"])
                findings.append(f)
            errors += [tag + ": " + e for e in o["errors"]]

    new, old = [], {}
    for f in findings:
        if (pid, f["key"]) in known:
            old.setdefault(f["key"], f)
        else:
            new.append(f)
    rc = 0
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%s:%d) %s" % (pid, k, old[k]["file"], old[k]["line"], known[(pid, k)]))
    replay = os.path.join(VERIF, "evidence", pid + ".replay.txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as fo:
            fo.write("property %s, found by static analysis of %s\nreproduce: python3 %s %s\n\n" % (pid, repo, os.path.join(VERIF, "check.py"), pid))
            for f in new:
                fo.write("%(file)s:%(line)d in %(func)s\n  rule %(rule)s: %(msg)s\n  key=%(key)s\n  run %(run)s\n\n" % f)
        for f in new[:60]:
            print("finding: %s:%d %s: %s" % (f["file"], f["line"], f["func"], f["msg"][:600]))
            print("   key=" + f["key"])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    obl = sum(i.get("obligations", 0) for i in infos.values())
    dis = sum(i.get("discharged", 0) for i in infos.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3 check.py %s" % pid,
            "trusted_base": ["clang 18 front end and its debug information", "LLVM 18 mem2reg/GVN/SimplifyCFG used for normalisation", "the analyser in /verif/tool"],
            "explanation": spec["explanation"],
            "analysed": infos,
            "samples": samples[:30],
            "known_findings": sorted(old),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    if errors and not new:
        for e in errors:
            print("ERROR: " + e)
        rc = 2
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    if rc == 0:
        if obl == 0:
            print("ERROR: no obligation found")
            return 2
        print("OK property=%s obligations=%d discharged=%d known=%d wall=%.1fs" % (pid, obl, dis, len(old), time.time() - t0))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR: %s" % e)
        sys.exit(2)
