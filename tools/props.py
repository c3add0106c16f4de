#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: reads tools/properties.d/*.py (each defines PROPS, a list of dicts)."""
import glob, json, os, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"
props, na = [], []
for f in sorted(glob.glob(os.path.join(ROOT, "tools", "properties.d", "*.py"))):
    m = runpy.run_path(f)
    props += m["PROPS"]
    na += m.get("NA", [])
props.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    checks = []
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"state": [{"name": n, "meaning": mm, "where": w} for n, mm, w in p["state"]]} if "state" in p else {}),
                        **({"observe_at": p["observe"]} if "observe" in p else {})}}) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 checks/check.py %s thorough" % p["id"],
                       "technique": p.get("tech", TECH), "level": p.get("level", "model_checking"), "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh",
           "hooks": {"guard": "HDK_VERIF", "enable": "none needed: the checks compile the unmodified sources of /repo into /verif/build", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
