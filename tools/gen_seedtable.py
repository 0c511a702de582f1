#!/usr/bin/env python3
"""Rewrites the table of section 7 of DESIGN.md from seeded/*/meta.json."""
import os, json, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open(f"{top}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {m['property']} |")
p = top + "/DESIGN.md"; t = open(p).read()
a, b = "<!-- table begin -->", "<!-- table end -->"
assert a in t and b in t
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
