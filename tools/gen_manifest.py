#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
NOTES = checks.NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = NOTES[i]
        out["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                              "technique": tech, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.MISSING.get(i, "the check is not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
