#!/usr/bin/env python3
"""Rewrite the table of seeded changes in DESIGN.md (development aid)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
rows = ["| id | property | needs | breaks | caught by |", "|----|----|----|----|----|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    c = lambda t: t.replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {m['property']} quick |")
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- end -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + s[b:])
