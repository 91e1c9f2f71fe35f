#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per claimed property, the rest is not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "trace-partitioned abstract interpretation over go/ssa "
TRUST = " Trusted: Go type checker and go/ssa, the models of the standard library calls used, one process per unit, no unsafe or reflection. Anything the analysis cannot decide is reported as a violation."
C = {}
def c(id, technique, note): C[id] = (technique, note)
exec(open(os.path.join(V, "tools", "levels.py")).read())
N = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": N.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they load /repo's current source and never run it. No hooks in /repo. Quick and thorough tiers decide the same obligations: the analyses are exhaustive within a few seconds."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
