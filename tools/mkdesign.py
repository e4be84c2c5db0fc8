#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read().split("<!-- table -->")[0] + "<!-- table -->\n| caught by | planted bug | what it breaks |\n|---|---|---|\n"
rows = []
for f in glob.glob(os.path.join(R, "seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "/")))
for r in sorted(rows):
    s += "| %s | %s | %s |\n" % r
open(p, "w").write(s)
