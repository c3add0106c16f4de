#!/usr/bin/env python3
"""seed.py new ID PROP FILE   (reads a python literal from stdin: dict(edits=[(file,old,new)], demo=..., libs=..., needs=..., breaks=...))
   seed.py test ID...   applies each planted change to /repo, builds, tests, runs its demo and its property's check; undoes it."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def new(sid, prop, d):
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    try:
        for f, a, b in d["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    o = os.path.join(S, sid)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.cpp", "w").write(d["demo"])
    shutil.copy(os.path.join(ROOT, "tools", "demo_lib.sh"), o + "/demo_lib.sh")
    open(o + "/demo.sh", "w").write('#!/bin/bash\n%sLIBS="%s"\nEXTRALIBS="%s"\n. "$(dirname "$0")/demo_lib.sh"\n' % (d.get("pre", ""), d["libs"], d.get("extralibs", "")))
    json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)

def test(sid, check=True, tests=True):
    o = os.path.join(S, sid)
    prop = json.load(open(o + "/meta.json"))["property"]
    res = {}
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    r = sh("git -C /repo apply %s/patch.diff" % o)
    if r.returncode:
        print(sid, "does not apply", r.stdout); return
    try:
        r = sh("bash /opt/vp/build.sh")
        res["build"] = r.returncode
        if r.returncode: print(r.stdout[-3000:])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            passed = set(t.get("passed", [])) if "passed" in t else set()
            res["tests_broken"] = [x for x in base if x not in passed][:5]
        r = sh("cd /repo && bash %s/demo.sh" % o)
        res["demo_with"] = r.returncode
        res["demo_out"] = r.stdout[-120:]
        if check:
            r = sh("python3 %s/checks/check.py %s quick" % (ROOT, prop))
            res["check"] = r.returncode
            res["viol"] = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")][:1]
            if r.returncode == 2: res["out"] = r.stdout[-1500:]
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r = sh("cd /repo && bash %s/demo.sh" % o)
    res["demo_without"] = r.returncode
    if r.returncode: res["demo_wo_out"] = (r.stdout[r.stdout.find("error"):][:300])
    good = res["build"] == 0 and not res.get("tests_broken") and res["demo_with"] != 0 and res["demo_without"] == 0
    print(sid, prop, "COUNTS" if good else "BAD", "CAUGHT" if res.get("check") == 1 else "missed", json.dumps(res)[:700], flush=True)

if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3], eval(sys.stdin.read()))
else:
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    for i in ids:
        test(i, check="--nocheck" not in sys.argv, tests="--notests" not in sys.argv)
