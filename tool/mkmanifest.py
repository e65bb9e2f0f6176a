#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that has a specification"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: VCs from the clang AST of the real functions, discharged by z3/cvc5"
NOTE = {}
REASON = {}
HOW = {}
exec(open(os.path.join(ROOT, "tool/notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "specs", p.lower() + ".py")) and p not in REASON:
        n = NOTE[p]
        checks.append({"property": p, "quick_cmd": "python3-vt check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
                       "technique": n[2] if len(n) > 2 else TECH, "level": n[0], "level_note": n[1]})
    else:
        na.append({"property": p, "reason": REASON.get(p, "not claimed yet: no contracts have been written for it")})
m = {"version": 1, "setup_cmd": "bash tool/setup.sh",
     "hooks": {"guard": "LUE_VERIF_NONE", "enable": "no hooks: the checks read /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check exports the ASTs of /repo's current sources (tool/cppx.cpp), proves the contracts in specs/ over them and replays failures with replay/ on code compiled from the same sources. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# the tables of DESIGN.md
d = open(os.path.join(ROOT, "DESIGN.md")).read()


def table(name, rows):
    global d
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + "\n".join(rows) + "\n" + d[j:]


table("properties", ["| id | level | how it is decided | bounds and assumptions |", "|----|----|----|----|"] +
      ["| %s | %s | %s | %s |" % (p, NOTE[p][0], HOW.get(p, ""), NOTE[p][1].replace(H5, "").strip()) if p in [c["property"] for c in checks]
       else "| %s | not applicable | %s | |" % (p, REASON.get(p, "no contracts written")) for p in props])
caught = {}
if os.path.exists(os.path.join(ROOT, "tool/caught.txt")):
    for l in open(os.path.join(ROOT, "tool/caught.txt")):
        caught[l.split(" ", 1)[0]] = l.split(" ", 1)[1].strip()
rows = ["| seed | property | needs | caught by its check |", "|----|----|----|----|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    x = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, x["property"], x["needs"], caught.get(s, "?")))
table("seeds", rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
