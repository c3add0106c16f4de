#!/usr/bin/env python3
"""Keeps known_findings.json: findings.py fixed PROP COMMIT WHAT | known PROP WHAT MATCH-JSON"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else {"findings": []}
if sys.argv[1] == "fixed":
    _, _, prop, commit, what = sys.argv
    d["findings"].append({"property": prop, "status": "fixed", "commit": commit, "what": what,
                          "line": "fixed: property=%s %s %s" % (prop, commit, what)})
else:
    _, _, prop, what, match = sys.argv
    d["findings"].append({"property": prop, "status": "known", "what": what, "match": json.loads(match)})
json.dump(d, open(P, "w"), indent=1)
