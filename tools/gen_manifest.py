#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from vlib.checks import CHECKS
from design_props import D

NA = {"C25": "the CUDA and cupla dispatchers need a CUDA/alpaka runtime and headers; neither is installed, nothing of "
             "dispatch/cuda or dispatch/cupla can be compiled or run here, so there is no execution to monitor"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py %s --tier quick" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c.technique,
            "level": "exploration",
            "level_note": (c.note or D[p][0]) + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else ""),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "REDGRAPES_VERIF", "enable": "-DREDGRAPES_VERIF on every compile of vlib/build.py",
               "source_commits": [open(os.path.join(V, "tools/hook_commits")).read().strip()]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
