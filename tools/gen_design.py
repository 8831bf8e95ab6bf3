#!/usr/bin/env python3
"""Fills the two generated tables of DESIGN.md (plan per property, planted bugs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import proofs
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
plan = "| | property | level | proved for all inputs (units) | explored only |\n|---|---|---|---|---|\n"
for p in P:
    i = p["id"]
    plan += "| %s | %s | %s | %s | %s |\n" % (i, p["title"], proofs.LEVEL(i), proofs.PLAN[i][0] or "-", proofs.PLAN[i][1] or "-")
seeds = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), proofs.CAUGHT.get(d, "check " + m["property"]))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
for k, t in (("PLAN_TABLE", plan), ("SEED_TABLE", seeds)):
    a, b = "<!-- %s -->\n" % k, "<!-- /%s -->" % k
    if a in s: s = s[:s.index(a)] + a + t + s[s.index(b):]
    else: s = s.replace(k, a + t + b)
open(f, "w").write(s)
