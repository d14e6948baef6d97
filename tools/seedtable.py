#!/usr/bin/env python3
"""seedtable.py RESULTS... : writes the table of planted bugs at the end of DESIGN.md.
RESULTS are lines 'id property rc=.. CAUGHT|MISSED ..' (the last line for an id counts)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f):
        w = line.split()
        if len(w) > 3 and w[2].startswith("rc="):
            res[w[0]] = w[3] if w[3] in ("CAUGHT", "MISSED") else "?"
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
head = s.split("<!-- planted -->")[0].rstrip() + "\n\n<!-- planted -->\n"
rows = ["| bug | property | what it breaks | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), {"CAUGHT": "caught", "MISSED": "missed"}.get(res.get(i), "not run")))
open(p, "w").write(head + "\n".join(rows) + "\n")
