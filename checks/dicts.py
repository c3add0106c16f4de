"""Checks of the string dictionary (D01..D06)."""
import json
import random

from lib import *

INT_MIN = -2147483648
ALPH = "abcABC"


class Gen:
    """Random scenarios over a family of dictionaries; keeps the views so that the ids it uses exist."""

    def __init__(self, rng, mix, alph=ALPH, par=None, maxlen=4):
        self.r = rng
        self.mix = mix
        self.alph = alph
        self.maxlen = maxlen
        self.cmds = [{"op": "start", "par": rng.randint(0, 1) if par is None else par}]
        self.views = {}
        self.base = {}
        self.n = 0
        self.unknown = False

    def s(self, empty=0.06):
        if self.r.random() < empty:
            return ""
        if self.r.random() < 0.05:
            return "".join(self.r.choice(self.alph) for _ in range(self.r.randint(20, 60)))
        return "".join(self.r.choice(self.alph) for _ in range(self.r.randint(1, self.maxlen)))

    def known(self, d):
        v = self.views[d]
        return self.r.choice(v) if v and self.r.random() < 0.6 else self.s()

    def new(self, **kw):
        self.n += 1
        d = self.n
        c = {"op": "new", "d": d, "mat": self.r.randint(0, 1), "cap": self.r.choice([2, 4, 16, 256])}
        c.update(kw)
        self.cmds.append(c)
        self.views[d] = []
        self.base[d] = (0, 0)
        return d

    def nest(self, b=None, g=None):
        b = b or self.r.choice(list(self.views))
        g = g if g is not None else self.r.choice([-1, self.r.randint(0, len(self.views[b]))])
        self.n += 1
        d = self.n
        self.cmds.append({"op": "nest", "d": d, "b": b, "g": g, "mat": self.r.randint(0, 1), "cap": self.r.choice([0, 2, 8])})
        self.views[d] = list(self.views[b]) if g < 0 else self.views[b][:g]
        self.base[d] = (b, len(self.views[d]))
        return d

    def _app(self, d, s):
        if s and s not in self.views[d]:
            self.views[d].append(s)

    def g(self, d):
        n = len(self.views[d])
        return self.r.choice([-1, -1, self.r.randint(0, n), self.r.randint(0, n)])

    def step(self):
        r = self.r
        op = r.choices(list(self.mix), weights=list(self.mix.values()))[0]
        if not self.views or op == "new":
            if len(self.views) < 4:
                self.new()
            return
        d = r.choice(list(self.views))
        v = self.views[d]
        if op == "nest":
            if len(self.views) < 6:
                self.nest()
        elif op == "add":
            s = self.known(d)
            self.cmds.append({"op": "add", "d": d, "s": s2c(s)})
            self._app(d, s)
        elif op == "bulk":
            ss = [self.known(d) for _ in range(r.choice([0, 1, 2, 3, 8, 20, 40]))]
            w = r.choice([4, 4, 1, 2])
            self.cmds.append({"op": "bulk", "d": d, "ss": [s2c(s) for s in ss], "w": w, "sv": r.randint(0, 1)})
            for s in ss:
                self._app(d, s)
        elif op == "getbulk":
            ss = [self.known(d) for _ in range(r.choice([0, 1, 2, 3, 8, 20]))]
            c = {"op": "getbulk", "d": d, "ss": [s2c(s) for s in ss], "w": r.choice([4, 4, 1, 2])}
            g = self.g(d)
            if g >= 0:
                c["g"] = g
            self.cmds.append(c)
        elif op == "idof":
            self.cmds.append({"op": "idof", "d": d, "s": s2c(self.known(d))})
        elif op in ("string", "bytes") and v:
            i = r.randrange(len(v)) if op == "bytes" or r.random() < 0.95 else INT_MIN
            self.cmds.append({"op": op, "d": d, "id": i})
        elif op == "strings" and v:
            self.cmds.append({"op": op, "d": d, "ids": [r.randrange(len(v)) for _ in range(r.randint(0, 6))]})
        elif op == "count":
            self.cmds.append({"op": op, "d": d})
        elif op in ("copy", "each"):
            c = {"op": op, "d": d}
            g = self.g(d)
            if g >= 0:
                c["g"] = g
            self.cmds.append(c)
        elif op == "like":
            self.cmds.append(self.like(d))
        elif op == "cmp":
            self.cmds.append({"op": op, "d": d, "p": s2c(self.known(d) or "a"), "o": r.choice(["<", "<=", ">", ">=", "=", "<>", "=", "<>"]),
                              "g": self.g(d)})
        elif op == "regexp":
            p, ra = regex(r, self.alph, 3)
            self.cmds.append({"op": op, "d": d, "p": s2c(p), "ra": ra, "g": self.g(d)})
        elif op == "eq":
            self.cmds.append({"op": op, "d": d, "d2": r.choice(list(self.views))})
        elif op in ("inter", "union", "trans"):
            d2 = r.choice(list(self.views))
            if d2 == d and r.random() < 0.8:
                return
            c = {"op": op, "d": d, "d2": d2}
            if op == "trans":
                c.update(sg=r.randint(0, len(v)), dg=r.randint(0, len(self.views[d2])), tr=r.randint(0, 1))
                if r.random() < 0.5:
                    c.update(sg=len(v), dg=len(self.views[d2]))
            if op == "union" and d2 != d:
                for s in v:
                    self._app(d2, s)
            self.cmds.append(c)

    def like(self, d):
        r = self.r
        ic = r.randint(0, 1)
        si = r.random() < 0.25
        p = likepat(r, self.known(d), self.alph, simple=si)
        if ic:
            p = p.lower()
        return {"op": "like", "d": d, "p": s2c(p), "ic": ic, "si": int(si), "esc": ord("\\"), "g": self.g(d)}

    def run(self, n):
        self.new()
        for _ in range(n):
            self.step()
        for d in self.views:
            self.cmds.append({"op": "copy", "d": d})
            self.cmds.append({"op": "count", "d": d})
        return self.cmds


def likepat(r, s, alph, simple=False):
    """A well formed pattern, usually derived from a string so that it matches sometimes."""
    if simple:
        if s and r.random() < 0.7:
            a = r.randrange(len(s))
            return s[a:a + r.randint(1, 3)]
        return "".join(r.choice(alph) for _ in range(r.randint(1, 2)))
    out = []
    i = 0
    while i < len(s):
        x = r.random()
        if x < 0.5:
            out.append(s[i])
        elif x < 0.65:
            out.append("_")
        elif x < 0.8:
            out.append("%")
            i += r.randint(0, 2)
            continue
        elif x < 0.9:
            cs = "".join(r.choice(alph) for _ in range(r.randint(0, 2))) + (s[i] if r.random() < 0.8 else "")
            out.append("[" + (cs or s[i]) + "]")
        else:
            out.append("\\" + s[i])
        i += 1
    if r.random() < 0.3:
        out.append(r.choice(["%", "_", "%%", "_%"]))
    if r.random() < 0.2:
        out.insert(0, r.choice(["%", "_", "%_", "%%"]))
    if not out:
        out = ["%"]
    return "".join(out)


def regex(r, alph, depth):
    """(pattern, tree)."""
    x = r.random()
    if depth == 0 or x < 0.3:
        y = r.random()
        if y < 0.6:
            c = r.choice(alph)
            return c, {"x": "chr", "c": ord(c)}
        if y < 0.8:
            return ".", {"x": "any"}
        cs = sorted(set(r.choice(alph) for _ in range(r.randint(1, 3))))
        neg = r.random() < 0.3
        return "[" + ("^" if neg else "") + "".join(cs) + "]", {"x": "cls", "neg": neg, "cs": [ord(c) for c in cs]}
    if x < 0.65:
        a, ta = regex(r, alph, depth - 1)
        b, tb = regex(r, alph, depth - 1)
        return "(" + a + ")(" + b + ")", {"x": "seq", "a": ta, "b": tb}
    if x < 0.78:
        a, ta = regex(r, alph, depth - 1)
        b, tb = regex(r, alph, depth - 1)
        return "(" + a + "|" + b + ")", {"x": "alt", "a": ta, "b": tb}
    a, ta = regex(r, alph, 0)      # quantifiers are not nested: boost gives up on some of those (complexity limit)
    k, n = r.choice([("*", "star"), ("+", "plus"), ("?", "opt")])
    return "(" + a + ")" + k, {"x": n, "a": ta}


BOOLS = ("ic", "si", "tr")


def to_event(c, a):
    e = {k: v for k, v in c.items() if k not in ("par", "mat", "cap", "sv")}
    e.setdefault("g", -1)
    e.setdefault("w", 4)
    for b in BOOLS:
        if b in e:
            e[b] = bool(e[b])
    if e.get("id") == INT_MIN:
        e["id"] = -2
    a = dict(a)
    a.pop("m", None)

    def fix(x):
        if isinstance(x, list):
            return [fix(y) for y in x]
        return -2 if x == INT_MIN else x
    if "r" in a:
        a["r"] = fix(a["r"])
    a.setdefault("r", [])
    e["a"] = a
    return e


MIX_BASIC = {"new": 1, "add": 10, "bulk": 5, "getbulk": 3, "idof": 4, "string": 3, "strings": 2, "bytes": 2, "count": 2, "copy": 2, "each": 2, "eq": 1}
MIX_BULK = {"new": 1, "nest": 1, "add": 4, "bulk": 12, "getbulk": 6, "copy": 3, "idof": 2, "count": 2}
MIX_NEST = {"new": 1, "nest": 3, "add": 10, "bulk": 6, "getbulk": 5, "idof": 4, "string": 2, "strings": 2, "bytes": 2, "count": 2, "copy": 4, "each": 4, "eq": 3}
MIX_TRANS = {"new": 2, "nest": 2, "add": 8, "bulk": 4, "inter": 5, "union": 3, "trans": 6, "copy": 1}
MIX_FIND = {"new": 1, "nest": 1, "add": 5, "bulk": 2, "like": 6, "cmp": 8, "regexp": 4}


def scenarios(rng, mix, n, steps, **kw):
    out = []
    for _ in range(n):
        g = Gen(random.Random(rng.random()), mix, **kw)
        out.append(g.run(rng.randint(steps // 2, steps)))
    return out


def narrow(rng, n):
    """Bulk adds that reach the limit of an 8-bit (16-bit) id space; then the dictionary is used further."""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        c = [{"op": "start", "par": r.randint(0, 1)}, {"op": "new", "d": 1, "mat": r.randint(0, 1), "cap": 256}]
        d = 1
        if r.random() < 0.4:
            m = r.choice([3, 100, 250])
            c += [{"op": "bulkgen", "d": 1, "pre": s2c("b"), "lo": 0, "hi": m}, {"op": "nest", "d": 2, "b": 1, "g": -1, "mat": r.randint(0, 1), "cap": 0}]
            d = 2
        else:
            m = 0
        lo = r.choice([0, 200, 250, 254]) if not m else r.choice([0, 5])
        lo = max(0, min(lo, 250 - m))
        ss = ["k%d" % i for i in range(lo)]
        if ss:
            c.append({"op": "bulk", "d": d, "ss": [s2c(s) for s in ss], "w": r.choice([1, 4])})
        cnt = m + lo
        room = 255 - cnt
        for want in (r.choice([0, 1, room - 1, room, room + 1, room + 5]), 2):
            want = max(0, want)
            new = ["n%d_%d" % (want, i) for i in range(want)]
            mixin = new + (ss[:3] if ss else []) + [""]
            r.shuffle(mixin)
            c.append({"op": "bulk", "d": d, "ss": [s2c(s) for s in mixin], "w": 1, "sv": r.randint(0, 1)})
            c.append({"op": "copy", "d": d})
            c.append({"op": "idof", "d": d, "s": s2c("n%d_%d" % (want, max(0, want - 1)))})
            c.append({"op": "cmp", "d": d, "p": s2c("m"), "o": ">", "g": -1})
            c.append({"op": "add", "d": d, "s": s2c("z%d" % want)})
            c.append({"op": "getbulk", "d": d, "ss": [s2c(s) for s in mixin[:6]], "w": 4})
        c.append({"op": "count", "d": d})
        out.append(c)
    return out


def big(rng, n, hi, nested=True):
    """Growth far beyond the initial capacity, and the multi-threaded copy."""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        c = [{"op": "start", "par": k % 2}, {"op": "new", "d": 1, "mat": (k // 2) % 2, "cap": r.choice([2, 256])}]
        c.append({"op": "bulk", "d": 1, "ss": [s2c(x) for x in ("aa", "bb", "", "aa")], "w": 4})
        c.append({"op": "bulkgen", "d": 1, "pre": s2c("x"), "lo": 0, "hi": hi})
        d = 1
        if nested and r.random() < 0.5:
            c.append({"op": "nest", "d": 2, "b": 1, "g": -1, "mat": r.randint(0, 1), "cap": 0})
            d = 2
        c.append({"op": "bulkgen", "d": d, "pre": s2c("y"), "lo": 0, "hi": hi})
        for p in ("x", "y"):
            c.append({"op": "getbulkgen", "d": d, "pre": s2c(p), "lo": 0, "hi": hi})
            c.append({"op": "copygen", "d": d, "pre": s2c(p), "hi": hi})
        c.append({"op": "bulk", "d": d, "ss": [s2c("new%d" % i) for i in range(3)] + [s2c("x5"), s2c("y%d" % (hi - 1))], "w": 4})
        for s in ("x0", "x%d" % (hi - 1), "y7", "aa", "new1", "zz", "y%d" % hi):
            c.append({"op": "idof", "d": d, "s": s2c(s)})
        for i in (0, 2, hi, hi + 1, hi + 2, 2 * hi + 1, 2 * hi + 4):
            c.append({"op": "string", "d": d, "id": i})
            c.append({"op": "bytes", "d": d, "id": i})
        c.append({"op": "count", "d": d})
        out.append(c)
    return out


def bigtrans(rng, n):
    """Translations large enough to be split between threads."""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        hi = r.choice([3000, 9000])
        nb = r.randint(1, 6)
        c = [{"op": "start", "par": k % 2}, {"op": "new", "d": 1, "mat": r.randint(0, 1), "cap": 256}]
        c.append({"op": "bulk", "d": 1, "ss": [s2c("b%d" % i) for i in range(nb)], "w": 4})
        c.append({"op": "nest", "d": 2, "b": 1, "g": r.randint(0, nb), "mat": r.randint(0, 1), "cap": 0})
        c.append({"op": "bulkgen", "d": 2, "pre": s2c("y"), "lo": 0, "hi": hi})
        c.append({"op": "new", "d": 3, "mat": r.randint(0, 1), "cap": 2})
        c.append({"op": "bulk", "d": 3, "ss": [s2c(x) for x in ("b0", "y17", "q", "y%d" % (hi - 1), "b4", "y5")], "w": 4})
        g = c[3]["g"]
        for sg, dg in ((g + hi, 6), (g + r.randint(1, hi), r.randint(1, 6)), (g, 6), (g + hi, 1)):
            c.append({"op": "trans", "d": 2, "d2": 3, "sg": sg, "dg": dg, "tr": r.randint(0, 1)})
        c.append({"op": "inter", "d": 2, "d2": 3})
        out.append(c)
    return out


def run(prop):
    ck = Check(prop, "model_checking")
    build("dict_driver")
    k = 6 if ck.thorough else 1
    if prop == "D06":
        return run_conc(ck)
    ck.model("StringDictMC.tla", "StringDictMC3.cfg" if ck.thorough and prop == "D01" else "StringDictMC.cfg")
    rng = ck.rng()

    def go(sc, name):
        ck.conform("dict_driver", "TraceStringDict.tla", "TraceStringDict.cfg", sc, to_event, name=name)
    if prop == "D01":
        go(scenarios(rng, MIX_BASIC, 80 * k, 60) + scenarios(rng, MIX_BASIC, 40 * k, 120, alph="abcdefghijklmnop", maxlen=6), "basic")
        go(big(rng, 4 * k, 2600), "big")
    elif prop == "D02":
        go(scenarios(rng, MIX_BULK, 100 * k, 50), "bulk")
        go(narrow(rng, 40 * k), "narrow")
        go(big(rng, 4 * k, 2600), "big")
    elif prop == "D03":
        go(scenarios(rng, MIX_NEST, 140 * k, 60), "nest")
        go(big(rng, 2, 10100), "big")
    elif prop == "D04":
        go(scenarios(rng, MIX_TRANS, 160 * k, 50), "trans")
        go(bigtrans(rng, 8 * k), "bigtrans")
    elif prop == "D05":
        go(scenarios(rng, MIX_FIND, 140 * k, 60) + scenarios(rng, MIX_FIND, 60 * k, 50, alph="ab", maxlen=6), "find")
    return ck.finish()


def conc_event(c, a):
    if c["op"] != "conc":
        return to_event(c, a)
    e = {"op": "conc", "k": a.get("k"), "d": 0, "a": {"k": a.get("k"), "r": []}, "h": []}
    if a.get("k") == "hist":
        for h in a["h"]:
            op = c["clients"][h["c"] - 1][h["n"] - 1]
            x = to_event(op, h["a"])
            x.update(c=h["c"], n=h["n"], t0=h["s"], t1=h["e"])
            e["h"].append(x)
    e["nc"] = len(c["clients"])
    return e


def conc_scenarios(rng, n):
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        cmds = [{"op": "start", "par": r.randint(0, 1)}, {"op": "new", "d": 1, "mat": r.randint(0, 1), "cap": r.choice([2, 4, 256])}]
        words = ["w%d" % i for i in range(r.choice([2, 4, 8]))]
        pre = r.randint(0, 3)
        if pre:
            cmds.append({"op": "bulk", "d": 1, "ss": [s2c("p%d" % i) for i in range(pre)], "w": 4})
        ds = [1]
        if r.random() < 0.5:
            cmds.append({"op": "nest", "d": 2, "b": 1, "g": -1, "mat": r.randint(0, 1), "cap": 0})
            ds.append(2)
        if r.random() < 0.3:
            cmds.append({"op": "new", "d": 3, "mat": 0, "cap": 4})
            ds.append(3)
        allw = words + ["p%d" % i for i in range(pre)]
        clients = []
        nc = r.choice([2, 3, 4])
        for _ in range(nc):
            ops = []
            for _ in range({2: 4, 3: 3, 4: 2}[nc]):
                d = r.choice(ds)
                x = r.random()
                w = lambda: s2c(r.choice(allw))
                if x < 0.35:
                    ops.append({"op": "add", "d": d, "s": w()})
                elif x < 0.6:
                    ops.append({"op": "bulk", "d": d, "ss": [w() for _ in range(r.randint(1, 5))], "w": 4})
                elif x < 0.7:
                    ops.append({"op": "idof1", "d": d, "s": w()})
                elif x < 0.78:
                    ops.append({"op": "copy", "d": d})
                elif x < 0.84:
                    ops.append({"op": "getbulk", "d": d, "ss": [w()], "w": 4})
                elif x < 0.92:
                    ops.append({"op": "cmp", "d": d, "p": w(), "o": r.choice(["<", "<=", "=", "<>", ">"]), "g": -1})
                elif x < 0.96:
                    ops.append({"op": "like", "d": d, "p": s2c("w%"), "ic": 0, "si": 0, "esc": 92, "g": -1})
                else:
                    ops.append({"op": "count1", "d": d})
            clients.append(ops)
        cmds.append({"op": "conc", "clients": clients, "lockstep": r.randint(0, 1)})
        for d in ds:
            cmds.append({"op": "copy", "d": d})
            cmds.append({"op": "count", "d": d})
            for s in words:
                cmds.append({"op": "idof", "d": d, "s": s2c(s)})
        out.append(cmds)
    return out


def run_conc(ck):
    ck.model("StringDictConc.tla", "StringDictConc.cfg")
    n = 4000 if ck.thorough else 900
    ck.conform("dict_driver", "TraceStringDictConc.tla", "TraceStringDictConc.cfg", conc_scenarios(ck.rng("conc"), n), conc_event, name="conc")
    return ck.finish()
