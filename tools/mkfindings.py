#!/usr/bin/env python3
"""Writes known_findings.json: recorded findings, and the repaired defects with the property each broke."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = """66b37d5 S11
fa626e2 S11
f62ec68 S07
832a050 S05
36a6748 S12
15b6abe S10
2048b4d S14
09d9cdd B13
9c54d24 B08
4ae38fa B09
4f91e68 B14
ab20fa8 B13
0d2d7d7 B13
0d88c57 B10
353c21c B14
f5da8a6 B14
35b5c9a B14
afa91f7 B10
ec9f428 B01
1e70063 S09
241cf73 S09
1ca8725 S09
5756687 S09
e0c5f71 S12
af47766 S03
538c60d S05
1758e22 S07
b62ae74 S10
1e23e0d S13
6d15440 S04
072d3ee S12
3e07947 B11
486bb0f B04
e75c933 B09
b1c540b B04
63215f0 S05
24cb996 S04
4c2827a B07
92cc45a B05
4f2460b B01"""
extra = os.path.join(R, "tools", "fixed_extra.txt")
rows = [l.split()[:2] for l in BY.splitlines()]
if os.path.exists(extra):
    rows = [l.split()[:2] for l in open(extra) if l.strip()] + rows
fixed = []
for h, p in rows:
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", h], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    assert s.startswith("fix: ")
    fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
json.dump({"findings": json.load(open(os.path.join(R, "tools", "findings.json"))) if os.path.exists(os.path.join(R, "tools", "findings.json")) else [],
           "fixed": fixed}, open(os.path.join(R, "known_findings.json"), "w"), indent=1)
