#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (development aid)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | reported by |", "|---|---|---|"]
catches = json.load(open(here + "/tools/catches.json"))
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['needs']} | {', '.join(catches.get(b, [m['property']]))} |")
d = open(here + "/DESIGN.md").read()
a = d.index("<!-- bugs -->")
d = d[:a] + "<!-- bugs -->\n\n" + "\n".join(rows) + "\n"
open(here + "/DESIGN.md", "w").write(d)
