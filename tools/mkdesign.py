#!/usr/bin/env python3
"""DESIGN.md from tools/design.tmpl.md and the planted bugs' descriptions: python3 tools/mkdesign.py"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["what_it_breaks"]))
rows.sort(key=lambda r: (r.split("|")[2], r))
s = open(os.path.join(HERE, "tools", "design.tmpl.md")).read().replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
