#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/DESIGN.in.md, known-findings.jsonl, seeded/ and tools/mutation.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for line in open(os.path.join(V, "known-findings.jsonl")):
    if line.startswith("{"):
        d = json.loads(line)
        rows.append("| %s | %s | %s |" % (d["property"], d["commit"], d["what"]))
text = text.replace("@FIXES@", "\n".join(rows))
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
S = os.path.join(V, "seeded")
for i in sorted(os.listdir(S)):
    d = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, d.get("caught", d["property"]), d["what_it_breaks"]))
text = text.replace("@SEEDS@", "\n".join(rows))
m = os.path.join(V, "tools", "mutation.md")
text = text.replace("@MUTATION@", open(m).read().strip() if os.path.exists(m) else "")
open(os.path.join(V, "DESIGN.md"), "w").write(text)
