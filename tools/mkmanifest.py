#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plans import PLANS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
na = []
for p in props:
    pid = p["id"]
    if pid not in PLANS:
        na.append(dict(property=pid, reason="its specification is still being written"))
        continue
    doms = sorted(set(s["dom"] for s in PLANS[pid]["quick"] if s["dom"]))
    mods = sorted(set(s["module"] for s in PLANS[pid]["quick"]))
    has_mc = any(s["kind"] == "mc" for s in PLANS[pid]["quick"])
    checks.append(dict(
        property=pid, quick_cmd="VERIF_TIER=quick python3 check.py " + pid,
        thorough_cmd="VERIF_TIER=thorough python3 check.py " + pid,
        evidence_file="evidence/%s.json" % pid,
        technique="TLA+ specification checked with TLC (%s); %srecorded histories of the code validated against it" % (
            ", ".join(mods), "its behaviours replayed on the code, " if has_mc else ""),
        level="model_checking",
        level_note=PLANS[pid].get("note", "Exhaustive over the bounded model; the code is bound to it by replayed behaviours and validated random histories, so code behaviour outside those is not covered.")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="TLA+ with TLC; see DESIGN.md. Known findings and fixed defects: known_findings.json.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
