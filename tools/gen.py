#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
from props import P
from spec import CHECKS
checks, na = [], []
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                               "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]},
                   "observe_at": p["observe"], "hook_needed": None}, f)
        f.write("\n")
        if p["claim"] and p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "python3 lib/check.py %s quick" % p["id"],
                           "thorough_cmd": "python3 lib/check.py %s thorough" % p["id"],
                           "technique": p["claim"][0], "level": "model_checking", "level_note": p["claim"][1]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "the check is under construction"})
m = {"version": 1, "setup_cmd": "python3 lib/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources unchanged. Known and fixed findings: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
import subprocess
subprocess.check_call([sys.executable, V + "/tools/design.py"])
