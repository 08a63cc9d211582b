#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl, the analyser's registered checks
(vx -list on stdin) and notes.json (level notes and reasons)."""
import json, sys, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
reg = json.load(sys.stdin)
notes = json.load(open(os.path.join(here, "notes.json")))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    if not l.strip():
        continue
    i = json.loads(l)["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "technique": reg[i], "level": "other", "level_note": notes.get(i, notes["default"])})
    else:
        na.append({"property": i, "reason": notes.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": notes["manifest"]}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
