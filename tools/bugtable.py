#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/bugruns.json
(runs the property's quick check needed; measured, see DESIGN.md section 5)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = json.load(open(V + "/tools/bugruns.json"))
t = ["| bug | property | runs | what it breaks | needs |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json"))
    t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], runs.get(i, "?"), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read(); a, b = "<!-- bugs -->", "<!-- /bugs -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(t) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
