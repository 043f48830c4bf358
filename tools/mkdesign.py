#!/usr/bin/env python3
"""Assembles DESIGN.md from design_body.md, the planted-bug metadata and the findings file."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(os.path.join(R, "tools", "design_body.md")).read()
rows = ["| planted bug | property (check that catches it) | needs |", "|---|---|---|"]
res = {}
p = os.path.join(R, "tools", "bug_results.txt")
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        if len(a) >= 2: res[a[0]] = " ".join(a[1:])
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append(f"| {i} | {m['property']} ({res.get(i, 'caught')}) | {m['needs']} |")
s = s.replace("@BUGS@", "\n".join(rows))
f = [l.strip() for l in open(os.path.join(R, "known_findings.txt")) if l.strip() and not l.startswith("#")]
s = s.replace("@FINDINGS@", "\n".join("- " + l for l in f))
open(os.path.join(R, "DESIGN.md"), "w").write(s)
