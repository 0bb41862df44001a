#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md: bounds and planted bugs filled in."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(root, "tools/design.in.md")).read()
b = json.load(open(os.path.join(root, "harness/bounds.json")))
t = t.replace("@@BOUNDS@@", "\n".join("* **%s** %s" % (k, v) for k, v in sorted(b.items())))
rows = ["| bug | property | what it breaks | needs | caught |", "|--|--|--|--|--|"]
res = {}
p = os.path.join(root, "tools/seeded-results.txt")
for l in open(p) if os.path.exists(p) else []:
    w = l.split()
    res[w[0]] = w[2]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), {"rc=1": "yes", "rc=0": "**no**"}.get(res.get(i), "?")))
t = t.replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
