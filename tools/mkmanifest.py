#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that bin/plans.py has a plan for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
BASE = ("TLA+ specification judged by TLC; conformance by validating traces recorded from the real code. "
        "Holds for the executions explored; trusts TLC, java.math.BigInteger/java.security and the recording harness. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        tech, note = plans.TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "technique": tech, "level": plans.LEVEL.get(i, "model_checking"), "level_note": BASE + note})
    else:
        na.append({"property": i, "reason": plans.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the recorder uses the exported API only. Each check builds the harness from /repo's working tree in a scratch GOPATH."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
