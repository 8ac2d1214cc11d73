#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted -->\n"
s = s.split(mark)[0]
rows = []
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')} | {m['what_it_breaks'].replace('|','/')} |")
open(p, "w").write(s + mark + "\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
