"""Checks of the configuration builder (C01)."""
import os
import re

from lib import *

BIG = 2000000000
TRUE = ["1", "true", "True", "TRUE", "on", "ON", "yes", "Yes"]
FALSE = ["0", "false", "False", "FALSE", "off", "OFF", "no", "No"]


def table():
    res = []
    for l in open(os.path.join(ROOT, "specs", "ConfigTable.tla")):
        m = re.match(r'\s*\[o \|-> "(.*?)", f \|-> "(.*?)", k \|-> "(.*?)", imp \|-> "(.*?)"\]', l)
        if m:
            res.append(m.groups())
    return res


OPTS = table()


def real(h):
    s = "%d.%04d" % (abs(h) // 10000, abs(h) % 10000)
    s = s.rstrip("0").rstrip(".")
    return ("-" if h < 0 else "") + s


def value(r, k, o, bad):
    """(text, h) of a value of kind k; bad: one that is not of the kind."""
    if k == "bool":
        return (r.choice(["2", "maybe", "tru", "01"]) if bad else r.choice(TRUE + FALSE)), 0
    if k in ("nat", "nat4"):
        m = 2**64 - 1 if k == "nat" else 2**32 - 1
        if bad:
            return r.choice(["x", "1.5", "12a", "0x10", str(m + 1), str(m * 10)]), 0
        if o == "hll-precision-bits":
            return str(r.choice([1, 16, 0, 17, 4, 100, r.randint(1, 16)])), 0
        v = r.choice([0, 1, 7, m, m - 1, r.randint(0, 10**6), r.randint(0, m)])
        return ("0" * r.choice([0, 0, 0, 1])) + str(v), 0
    if k in ("int", "int2"):
        b = 63 if k == "int" else 15
        if bad:
            return r.choice(["x", "1.5", str(2**b), str(-2**b - 1), "-"]), 0
        return str(r.choice([0, 1, -1, 2**b - 1, -2**b, r.randint(-1000, 1000)])), 0
    if k == "real":
        if bad:
            return r.choice(["x", "1,5", "0.5z"]), BIG
        if o == "gpu-input-mem-limit":
            h = r.choice([100, 9900, 99, 9901, 5000, 0, 10000, r.randint(100, 9900)])
        else:
            h = r.choice([0, 10000, -10000, 2500, r.randint(-30000, 30000)])
        return real(h), h
    return r.choice(["intel", "nvidia", "/tmp/x y", "a", "=b", "A-b_c.d"]), 0


def one(r, opt):
    o, f, k, imp = opt
    if imp and r.random() < 0.4:
        return {"o": o, "has": 0, "v": "", "h": 0}
    if not imp and r.random() < 0.02:
        return {"o": o, "has": 0, "v": "", "h": 0}
    v, h = value(r, k, o, k != "str" and r.random() < 0.06)
    return {"o": o, "has": 1, "v": v, "h": h}


def parse(r, args, junk=None, gtest=0):
    imp = {o: i for o, _, _, i in OPTS}
    argv = []
    for j, a in enumerate(args):
        if a["has"] == 0:
            argv.append(["--" + a["o"]])
        elif imp.get(a["o"]) == "" and not a["v"].startswith("-") and r.random() < 0.4:
            argv.append(["--" + a["o"], a["v"]])
        else:
            argv.append(["--" + a["o"] + "=" + a["v"]])
    # an option that lacks its value must not take the next word for it
    if junk:
        argv.insert(r.randint(0, len(argv)), [junk])
    argv = [x for p in argv for x in p]
    c = {"op": "cfg_parse", "args": args, "junk": 1 if junk else 0, "gtest": gtest, "line": 0, "argv": argv}
    if r.random() < 0.3 and not any(a["o"] == "help" for a in args):
        c["line"] = 1
        c["text"] = (" " * r.choice([1, 1, 2])).join('"%s"' % x if " " in x or r.random() < 0.1 else x for x in argv)
    return c


def scenario(r, opts):
    fields = {f: (k, o) for o, f, k, _ in OPTS}
    own = int(r.random() < 0.6)
    st = []
    if own:
        for f in r.sample(sorted(fields), r.randint(0, 25)):
            k, o = fields[f]
            if k == "bool":
                v = r.choice("01")
            elif k == "real":
                v = real(r.choice([5000, 2500, r.randint(100, 9900)]))
            elif k == "str":
                v = r.choice(["", "intel", "p"])
            elif o == "hll-precision-bits":
                v = str(r.randint(1, 16))
            else:
                v = str(r.randint(0, 30000))
            st.append({"f": f, "v": v})
        for f in ("debug.log_dir", "exec.materialize_inner_join_tables"):
            if r.random() < 0.3:
                st.append({"f": f, "v": "0" if f[0] == "e" else "dir"})
    s = [{"op": "cfg_new", "own": own, "set": st}]
    for ch in opts:
        args = [one(r, o) for o in ch]
        junk, gtest = None, int(r.random() < 0.2)
        x = r.random()
        if x < 0.03:
            twice = [a for a in args if a["has"]]
            if twice:
                args.insert(r.randint(0, len(args)), dict(r.choice(twice)))
        elif x < 0.06:
            args.insert(r.randint(0, len(args)), {"o": "help", "has": 0, "v": "", "h": 0})
        elif x < 0.09:
            args.insert(r.randint(0, len(args)), {"o": "gtest_list_tests", "has": 0, "v": "", "h": 0})
        elif x < 0.12:
            args.insert(r.randint(0, len(args)), {"o": r.choice(["no-such-option", "enable-watchdogs", "pmem-sizes"]), "has": 1, "v": "1", "h": 0})
        elif x < 0.14:
            junk = r.choice(["--nothing-like-it", "-zz"])
        lacking = [j for j, a in enumerate(args) if a["has"] == 0 and not {o: i for o, _, _, i in OPTS}.get(a["o"], "1")]
        if lacking:
            a = args.pop(lacking[0])
            args = [b for b in args if b["has"] or {o: i for o, _, _, i in OPTS}.get(b["o"], "1")] + [a]
            junk = None
        s.append(parse(r, args, junk, gtest))
        # a value out of the option's range is refused once settings may have been stored: what they are then is not specified
        if any(a["o"] == "hll-precision-bits" and a["has"] and a["v"].isdigit() and not 1 <= int(a["v"]) <= 16 for a in args) or \
                any(a["o"] == "gpu-input-mem-limit" and a["has"] and not 100 <= a["h"] <= 9900 for a in args):
            break
    return s


def to_event(c, a):
    e = {k: v for k, v in c.items() if k not in ("argv", "text", "line", "own")}
    e["a"] = a
    return e


def run(prop):
    ck = Check(prop, "model_checking")
    build("meta_driver")
    ck.model("SettingsMC.tla", "SettingsMC.cfg")
    r = ck.rng()
    sc = []
    # every option on its own, then with others, on builders that live on
    for o in OPTS:
        sc.append(scenario(r, [[o], [], [o]]))
    for _ in range(600 if ck.thorough else 60):
        sc.append(scenario(r, [r.sample(OPTS, min(len(OPTS), r.choice([0, 1, 2, 5, 12, 40]))) for _ in range(r.randint(1, 6))]))
    ck.conform("meta_driver", "TraceMeta.tla", "TraceMeta.cfg", sc, to_event, "config")
    return ck.finish()
