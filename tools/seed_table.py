#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"]))
table = "| property | change | needs | breaks |\n|---|---|---|---|\n" + "".join(
    "| %s | `%s` | %s | %s |\n" % tuple(x.replace("|", "/") for x in r) for r in sorted(rows))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\| property \| change \|.*?\n\n", lambda m: table + "\n", s, flags=re.S)
open(p, "w").write(s)
