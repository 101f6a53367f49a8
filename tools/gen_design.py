#!/usr/bin/env python3
"""writes DESIGN.md from DESIGN.in.md, design_props.py and seeds.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from design_props import D
from vlib.checks import CHECKS
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
out = []
for k, t in titles.items():
    how, why = D[k]
    out.append("### %s %s\n\n%s" % (k, t, how))
    if why:
        out[-1] += " Beyond the tests: %s." % why
    if k in CHECKS:
        c = CHECKS[k]
        out[-1] += "\n\nPhases (seconds quick/thorough): " + "; ".join("%s %d/%d" % (p.name, p.secs["quick"], p.secs["thorough"]) for p in c.phases) + "."
    elif k != "C25":
        out[-1] += "\n\n(no check yet)"
seeds = json.load(open(os.path.join(V, "tools", "seeds.json")))
st = "| planted bug | needs | reported by |\n|---|---|---|\n"
for k in sorted(seeds):
    m = os.path.join(V, "seeded", k, "meta.json")
    if os.path.exists(m):
        st += "| %s | %s | %s |\n" % (k, json.load(open(m))["needs"], seeds[k])
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@@PROPS@@", "\n\n".join(out)).replace("@@SEEDS@@", st)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
