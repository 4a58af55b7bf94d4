#!/usr/bin/env python3
"""Rewrites the matrix of planted bugs in DESIGN.md from seeded/*/meta.json (development tool)."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
n = 0
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    n += 1
    rows.setdefault(d["property"], []).append("`%s` (%s)" % (os.path.basename(os.path.dirname(m)), d["needs"]))
t = open(V + "/DESIGN.md").read()
head = "| property | planted bugs (what they need to show) |\n|---|---|\n"
i = t.index(head) + len(head)
j = t.index("\n\n", i)
t = t[:i] + "\n".join("| %s | %s |" % (p, "; ".join(rows[p])) for p in sorted(rows)) + t[j:]
t = re.sub(r"^\d+ changes are kept in `seeded/`", "%d changes are kept in `seeded/`" % n, t, flags=re.M)
open(V + "/DESIGN.md", "w").write(t)
