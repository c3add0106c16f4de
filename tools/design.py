#!/usr/bin/env python3
"""Fills the generated sections (planted bugs, property table) of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
seeds = ["| planted bug | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"], j["what_it_breaks"], j.get("result", "caught")))
d = re.sub(r"(## 5\. Planted bugs\n\n).*?(?=\n## 6)", lambda m: m.group(1) + "<!-- SEEDS (tools/design.py) -->\n" + "\n".join(seeds) + "\n", d, flags=re.S)
rows = ["| id | property | how it is decided |", "|---|---|---|"]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = man.get(p["id"])
    rows.append("| %s | %s | %s. %s |" % (p["id"], p["title"], c["technique"], c["level_note"]) if c else "| %s | %s | not claimed |" % (p["id"], p["title"]))
d = re.sub(r"(## 8\. Property table\n\n).*", lambda m: m.group(1) + "\n".join(rows) + "\n", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
