#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md between the markers from vxlib/jobs.py, properties.jsonl and seeded/."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vxlib import table
BEGIN, END = "<!-- per property: begin (tools/gen_design.py) -->", "<!-- per property: end -->"
oracle = {}
for l in open(V + "/tools/oracles.txt"):
    if l.strip():
        k, v = l.split(" ", 1)
        oracle[k] = v.strip()
seeded = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    seeded.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
out = [BEGIN]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in table.CHECKS:
        out.append("### %s %s\n\nNot applicable: %s\n" % (i, p["title"], table.NOT_APPLICABLE.get(i, "")))
        continue
    c = table.CHECKS[i]
    files = sorted({"harness/" + j.file if j.file else "vxpy/" for j in c.jobs})
    entries = []
    for j in c.jobs:
        if j.entry not in entries:
            entries.append(j.entry)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* code: " + ", ".join("`%s`" % f for f in p["anchors"]["files"]))
    out.append("* driver: %s: %s (%d runs quick, %d thorough)%s" % (", ".join("`%s`" % f for f in files), ", ".join("`%s`" % e for e in entries),
               sum(not j.thorough_only for j in c.jobs), len(c.jobs), "; all thread schedules" if any(j.conc and j.preempt != 0 for j in c.jobs) else ""))
    out.append("* oracle: " + oracle[i])
    out.append("* bounds: " + c.bounds)
    if c.assumptions:
        out.append("* assumed: " + "; ".join(c.assumptions))
    if i in seeded:
        out.append("* planted bugs caught: " + ", ".join(seeded[i]))
    out.append("")
out.append(END)
d = open(V + "/DESIGN.md").read()
d = d[:d.index(BEGIN)] + "\n".join(out) + d[d.index(END) + len(END):]
sb, se = "<!-- seeded: begin -->", "<!-- seeded: end -->"
rows = ["| bug | needs | breaks |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["needs"], j["what_it_breaks"]))
d = d[:d.index(sb)] + sb + "\n" + "\n".join(rows) + "\n" + d[d.index(se):]
open(V + "/DESIGN.md", "w").write(d)
