#!/usr/bin/env python3
"""Regenerate MANIFEST.json from lib/checks.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
cs = []
na = []
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    cs.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "bin/check %s --thorough" % p["id"],
               "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": cs, "not_applicable": na,
     "notes": "TLA+ specifications in spec/ are executed by TLC; driver/ replays the behaviours in code built from /repo's working tree through go build -overlay, so /repo needs no hooks. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
