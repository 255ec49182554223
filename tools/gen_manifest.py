#!/usr/bin/env python3
"""MANIFEST.json from the rules that exist and the texts below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import rules
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH, NOT_APPLICABLE
have = rules.load()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in TECH:
        t, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 sa/check.py %s" % i,
            "thorough_cmd": "python3 sa/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "other",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of the MIR of /repo's current tree (rustc driver in driver/, analysis in sa/); see DESIGN.md. Genuine defects found and repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
