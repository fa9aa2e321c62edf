#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIMED = {}   # id -> (technique, level_note)
exec(open(os.path.join(ROOT, "tools", "claimed.py")).read())
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "bash checks/run.sh %s quick" % i,
                       "thorough_cmd": "bash checks/run.sh %s thorough" % i,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
