#!/usr/local/bin/python3
"""Writes MANIFEST.json from properties.jsonl, checks.py and notes.json."""
import json, os
from checks import CHECKS
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
notes = json.load(open(os.path.join(ROOT, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "technique": notes["technique"].get(i, "property-based testing (rapid)"),
            "level": "exploration",
            "level_note": notes["level_note"].get(i, notes["level_note"]["default"]),
        })
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks: every check uses /repo's public API, its programs, or identifiers its own in-package tests use."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
