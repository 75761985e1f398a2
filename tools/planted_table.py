#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m.get('caught_by', '?')} |")
p = f"{R}/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", t, flags=re.S)
open(p, "w").write(t)
