#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "property-based testing with generated inputs and an independent oracle"),
                       "level": "exploration", "level_note": c.get("note", c["rule"])})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --build", 
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks were needed; the checks compile /repo's sources unmodified", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests; see DESIGN.md. A violation's replay file is re-run with: python3 run.py <id> --replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
