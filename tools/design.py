#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
from props import P
from spec import CHECKS
from oracles import ORACLE
o = open(V + "/tools/design_head.md").read()
for p in P:
    o += "\n### %s %s\n\n" % (p["id"], p["title"])
    if not (p["claim"] and p["id"] in CHECKS):
        o += "Not claimed: %s\n" % (p["na"] or "the check is under construction")
        continue
    o += "%s\n\n" % ORACLE[p["id"]].strip()
    o += "Quantifier: %s. " % p["text"]
    o += "Beyond the tests: %s\n\n" % p["why"]
    s = CHECKS[p["id"]]
    o += "Sources encoded: `%s`. Entries:\n\n" % (", ".join(s.get("sources", [])) or "headers only")
    for e in s["entries"]:
        o += "* `%s`: %s%s\n" % (e["name"], e["bound"], " (thorough only)" if e.get("thorough_only") else "")
o += "\n" + open(V + "/tools/design_tail.md").read()
o += "\n## 6. Defects found\n\nEach was shown by the check of the property (natively replayed where it compiles), repaired by the named commit in /repo and is quiet since:\n\n"
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"):
        f = l.split(None, 3)
        o += "* %s (%s): %s\n" % (f[1].split("=")[1], f[2], f[3].strip())
    elif l.startswith("finding:"):
        o += "* recorded, not repaired: %s\n" % l[8:].strip()
o += "\n## 7. Planted bugs\n\nEach breaks its property, builds, passes the stable tests and has a demonstration. Result of the quick check of its property:\n\n"
caught = {}
try:
    for l in open(V + "/tools/caught.txt"):
        a = l.split()
        caught[a[0]] = " ".join(a[1:])
except OSError:
    pass
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    o += "* `%s` (%s): %s Needs: %s. **%s**\n" % (i, m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip("."), caught.get(i, "not recorded"))
open(V + "/DESIGN.md", "w").write(o)
