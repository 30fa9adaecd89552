"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (and tools/caught.txt)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
p = os.path.join(V, "tools", "missed.txt")
if os.path.exists(p):
    for ln in open(p):
        k, _, v = ln.strip().partition(" ")
        missed[k] = v
rows = ["| planted bug | check | needs | breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property'] if i not in missed else 'missed: ' + missed[i]} | {m['needs']} | {m['what_it_breaks']} |")
s = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
s = re.sub(re.escape(a) + ".*" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
