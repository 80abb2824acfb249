#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | what it takes to show |", "|---|---|---|"]
d = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- planted: written by tools/mkseeds.py -->\n", "<!-- /planted -->"
t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
