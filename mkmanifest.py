#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json, os
from checks import BINS
import checks
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = getattr(checks, "TECH", {})
NOTE = getattr(checks, "NOTE", {})
NA = getattr(checks, "NA", {})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "run.py builds the checkers against /repo's working tree and runs the drivers of one property; DESIGN.md describes drivers, oracles and bounds; known_findings.txt lists findings and fixes",
}
for p in props:
    i = p["id"]
    if i in BINS:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} quick",
            "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": TECH.get(i, "explicit-state model checking of the implementation: exhaustive breadth-first exploration of transaction sequences against a reference model"),
            "level": "model_checking",
            "level_note": NOTE.get(i, "exhaustive within the stated bounds (alphabet, depth, start states); no claim beyond them"),
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
