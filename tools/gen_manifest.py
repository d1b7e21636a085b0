#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HIST = "exhaustive operation-history exploration of the real crate (stateless to a depth, then explicit-state BFS) against a reference model"
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks = []
na = []
for p in props:
    i = p["id"]
    if i not in TECH:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    tech, level, note = TECH[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything the checks need is public API of the crate. See DESIGN.md for bounds, fixes and seeded bugs; known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
