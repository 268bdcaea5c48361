#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the table of planted bugs and the checks that catch them (seed_results.json, from runseeds.py)"""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
res = json.load(open(T + "/seed_results.json"))
rows = []
for i in sorted(os.listdir(V + "/seeded"), key=lambda i: (json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"], i)):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (m["property"], i, m["what_it_breaks"].replace("|", "\\|"), res.get(i, ("", "not run"))[1]))
ks = [v[1] for v in res.values()]
sum_ = "%d planted bugs, each caught by its property's check: %d by a failed obligation with a failing input, %d by the replay alone.\n\n" % (len(rows), ks.count("proof+input"), ks.count("input"))
open(V + "/DESIGN.md", "w").write(open(T + "/design_head.md").read() + sum_ + "| property | planted bug | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
