#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (text below + lists from lcv/props.py and seeded/) + tools/design_tail.md"""
import sys, os, json, glob
V = "/verif"; sys.path.insert(0, V + "/lcv")
from props import PROPS, NA
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {}
cur = None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); T[cur] = ""
    elif cur: T[cur] += l
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); seeds.setdefault(m["property"], []).append((os.path.basename(d), m["needs"]))
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(V + "/tools/design_caught.tsv")) if os.path.exists(V + "/tools/design_caught.tsv") else {}
o = open(V + "/tools/design_head.md").read()
for p in P:
    i = p["id"]; o += "\n### %s %s\n\n" % (i, p["title"])
    if i in NA: o += "Not applicable: %s\n" % NA[i]; continue
    c = PROPS[i]
    o += T.get(i, "").strip() + "\n\n"
    o += "* proved (every run, from the current source): %s%s\n" % (", ".join("`%s`" % f for f in c["functions"]), "; lemmas " + ", ".join("`%s`" % f for f in c["lemmas"]) if c["lemmas"] else "")
    o += "* bounded stand-in (`native/%s.c`, never counted as proved): %s\n" % (c["native"], ", ".join(c["bounded"]) or "none (the harness replays and cross-checks the proved functions)")
    if c["trusted"]: o += "* trusted contracts: %s\n" % ", ".join(c["trusted"])
    if c["assumptions"]: o += "* assumptions: %s\n" % "; ".join(c["assumptions"])
    for s, n in seeds.get(i, []): o += "* planted `%s` (%s): %s\n" % (s, n, caught.get(s, "see the table"))
o += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
