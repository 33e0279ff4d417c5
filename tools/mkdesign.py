#!/usr/bin/env python3
"""Appends the table of planted bugs (seeded/*/meta.json) to lib/design.md and writes DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/lib/design.md").read()
rows = []
notes = json.load(open(V + "/lib/seednotes.json"))
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {notes.get(i, 'caught')} |")
table = "| bug | property (its check catches it) | needs | remark |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s.replace("<!--SEEDS-->", table))
