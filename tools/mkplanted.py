#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"]))
t = "<!-- planted -->\n| check | planted bug | needs |\n|---|---|---|\n" + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in sorted(rows)) + "<!-- end -->\n"
s = open(V + "/DESIGN.md").read()
s = s.replace("PLANTED\n", t) if "PLANTED\n" in s else re.sub(r"<!-- planted -->.*?<!-- end -->\n", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
