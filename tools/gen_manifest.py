#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = "static path analysis: abstract interpretation of the SSA form (value terms, linear inequalities, trace partitioning)"
COMMON = " Trusted: the Go type checker and SSA builder, the analyser's model of reflect, sync and runtime calls."
C = {}   # property -> (technique, note)
NA = {}  # property -> reason
def c(id, technique, note): C[id] = (technique, note + COMMON)
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash -c 'cd /verif && ./check.sh --build'",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                 "technique": C[p][0], "level": "other", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in C]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
