#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json. The property named there is
the check which reports it."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    o = json.load(open(m))
    rows.append((o["property"], os.path.basename(os.path.dirname(m)), o["needs"], o["what_it_breaks"]))
t = "| caught by | change | needs | breaks |\n|---|---|---|---|\n"
for p, i, n, b in sorted(rows):
    t += "| %s | `%s` | %s | %s |\n" % (p, i, n, b)
s = open(here + "/DESIGN.md").read()
a, rest = s.split("<!-- planted -->\n", 1)
_, z = rest.split("<!-- end planted -->", 1)
open(here + "/DESIGN.md", "w").write(a + "<!-- planted -->\n" + t + "<!-- end planted -->" + z)
