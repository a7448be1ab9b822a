#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, known_findings.txt and seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/DESIGN.in.md").read()
f = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(R + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: f.append("| %s | %s | %s |" % m.groups())
s = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    s.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
open(R + "/DESIGN.md", "w").write(t.replace("@FINDINGS@", "\n".join(f)).replace("@SEEDS@", "\n".join(s)))
