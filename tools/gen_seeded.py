#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not part of any check)."""
import glob
import json
import os
import re

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[1], m["property"], m["what_it_breaks"], m["needs"]))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
