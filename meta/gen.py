#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json, checks.json and the per-property
part of DESIGN.md from props.py (one place to keep them in step)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
from props import PROPS
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [], "not_applicable": []}
checks = {}
design = []
for p in PROPS:
    if "na" in p:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        design.append("### %s %s\n\nNot applicable: %s\n" % (p["id"], p["title"], p["na"]))
        continue
    c = {"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
    if p.get("thorough_runs"):
        c["thorough_cmd"] = "python3 check.py %s --tier thorough" % p["id"]
    man["checks"].append(c)
    checks[p["id"]] = {"level": p["level"], "explanation": p["explain"], "assumptions": p.get("assume", []), "runs": p["runs"]}
    if p.get("thorough_runs"):
        checks[p["id"]]["thorough_runs"] = p["thorough_runs"]
    design.append("### %s %s\n\n%s\n\n- Decided by: %s (%s)\n- Rule: %s\n- Bounds and assumptions: %s\n" % (p["id"], p["title"], p["statement"], p["technique"],
        ", ".join(sorted({r["analysis"] + "@" + r["config"] for r in p["runs"] + p.get("thorough_runs", [])})), p["explain"], "; ".join(p.get("assume", [])) or "none beyond the trusted base"))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
d = os.path.join(V, "DESIGN.md")
if os.path.exists(d):
    t = open(d).read()
    t = re.sub(r"(<!-- properties -->\n).*(<!-- /properties -->)", lambda m: m.group(1) + "\n" + "\n".join(design) + "\n" + m.group(2), t, flags=re.S)
    open(d, "w").write(t)
print("claimed", len(man["checks"]), "not applicable", len(man["not_applicable"]))
