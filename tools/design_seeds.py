#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), str(m["needs"]).replace("|", "/").replace("\n", " ")))
p = V + "/DESIGN.md"; t = open(p).read()
a = "<!-- seeds -->\n"; i = t.index(a) + len(a)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n")
