#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, properties.jsonl, texts.py, tools/design_tail.md, known_findings.txt and seeded/*/meta.json + tools/catches.txt."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from texts import T
rd = lambda p: open(os.path.join(V, p)).read()
o = [rd("tools/design_head.md"), "\n## The properties, one by one\n"]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); t = T[p["id"]]
    o.append("### %s  %s\n\n%s\n\n* technique: %s\n* enumerated: %s\n* oracle: %s\n* bounds: %s\n%s* what the tests cannot settle: %s\n" % (
        p["id"], p["title"], p["statement"], t["technique"], t["rule"], t["oracle"], t["bounds"],
        ("* assumptions: %s\n" % "; ".join(t["assumptions"])) if t["assumptions"] else "", p["why_tests_cant"]))
o.append(rd("tools/design_tail.md"))
o.append("\n## Genuine defects\n\nRepaired (`fix:` commits; all reported by the checks before the repair, none since):\n")
kn = rd("known_findings.txt").splitlines()
for l in kn:
    if l.startswith("fixed:"): o.append("* " + l[len("fixed: property="):])
o.append("\nRecorded, not repaired (`KNOWN-FINDING` lines):\n")
for l in kn:
    if l.startswith("known:"): o.append("* " + l[len("known: property="):])
o.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
ca = {}
for l in rd("tools/catches.txt").splitlines():
    if l.strip(): a, b = l.split(None, 1); ca[a] = b
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json"))); o.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], ca.get(d, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
