#!/usr/bin/env python3
"""Rebuilds the generated part of DESIGN.md (per-property table, defects, seeds) from props/, known_findings.json, seeded/."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__)); o = []
o.append("## Per property: what is decided, bounds, what is outside\n")
for f in sorted(glob.glob(V + "/props/*/conf.json")):
    i = f.split("/")[-2]; c = json.load(open(f)); p = c["property"]
    o.append("### %s. %s\n" % (i, p["title"]))
    o.append("- Claim: %s" % p["statement"]); o.append("- Code executed symbolically: %s." % "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]))
    o.append("- Entries (props/%s): %s." % (i, ", ".join(sorted(c["entries"])))); o.append("- Bounds: %s." % c["bounds"].rstrip(".")); o.append("- Outside: %s." % c["outside"].rstrip("."))
    o.append("- Why tests cannot settle it: %s" % p["why_tests_cant"]); 
    for n in c.get("design", []): o.append("- " + n)
    o.append("")
na = V + "/props/not_applicable.json"
if os.path.exists(na):
    o.append("## Not applicable\n")
    for n in json.load(open(na)): o.append("- %s %s: %s" % (n["property"]["id"], n["property"]["title"], n["reason"]))
    o.append("")
o.append("## Genuine defects found by the checks\n\nEach was first shown by a concrete counterexample replayed on an uninstrumented g++ build, then repaired by one `fix:` commit in /repo.\n")
for k in json.load(open(V + "/known_findings.json")): o.append("- " + k["what"])
o.append("\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); o.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/"), m.get("caught_by", "check " + m["property"])))
d = V + "/DESIGN.md"; s = open(d).read(); mark = "<!-- generated below by design_gen.py -->"
open(d, "w").write(s[:s.index(mark)] + mark + "\n\n" + "\n".join(o) + "\n")
