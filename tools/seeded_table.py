#!/usr/bin/env python3
"""Writes the planted-bugs table of DESIGN.md from /verif/seeded (documentation only; no check reads it)."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property, caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
p = R + "/DESIGN.md"
s = open(p).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "\n".join(rows))
else:
    s = re.sub(r"\| bug \| property.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
open(p, "w").write(s)
