#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*/conf.json and props/not_applicable.json."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
pr = []; checks = []
for f in sorted(glob.glob(V + "/props/*/conf.json")):
    i = os.path.basename(os.path.dirname(f)); c = json.load(open(f)); p = c["property"]
    pr.append(dict(id=i, **p))
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR instrumentation), every path and assertion decided by z3 within bounds", "level": "model_checking",
        "level_note": "Bounded, exhaustive within the bounds when evidence says exhausted. Bounds: %s Outside: %s. Trusts clang -O1, z3 and the instrumentation; a violation is replayed on the instrumented and on an uninstrumented g++ build." % (c["bounds"].rstrip(".") + ".", c["outside"].rstrip("."))})
na = json.load(open(V + "/props/not_applicable.json")) if os.path.exists(V + "/props/not_applicable.json") else []
for n in na: pr.append(n["property"])
pr.sort(key=lambda p: p["id"])
assert len({p["id"] for p in pr}) == len(pr)
for p in pr: assert len(p["title"]) <= 80, p["title"]
with open(V + "/properties.jsonl", "w") as f: f.write("".join(json.dumps(p) + "\n" for p in pr))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "VX_CHECK_BUILD", "enable": "no hooks were needed in /repo: the checks compile its sources unmodified through an LLVM pass (the define is set but nothing in /repo tests it)", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": n["property"]["id"], "reason": n["reason"]} for n in na],
     "notes": "One symbolic-execution engine (engine/), one driver (check.py), one harness directory per property (props/<id>). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
