"""Checks of the chunk statistics (E01..E03)."""
import struct

from lib import *

I64 = 1 << 63
WIDTH = {"bool": (-128, 127), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-I64, I64 - 1),
         "dec": (-I64, I64 - 1), "dict8": (0, 255), "dict16": (0, 65535), "dict32": (-2 ** 31, 2 ** 31 - 1)}
ENCW = {"time16": 16, "time32": 32, "iv32": 32, "time64": 64, "ts64": 64, "iv64": 64, "dates64": 64, "date16": 16, "date32": 32, "date64": 64}
DAYS = ("date16", "date32", "date64")
FP = ("f32", "f64")
SCALARS = list(WIDTH) + list(ENCW) + list(FP)
ELEMS = ["bool", "i8", "i16", "i32", "i64", "dec", "dict32", "f32", "f64", "time64", "ts64", "dates64", "iv64"]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


FPV = {"f32": [0.0, 1.5, -1.5, 2.0 ** 127, -2.0 ** 127, f32(2.0 ** -100), 7.0, -2.25, 2.0 ** -126, 2.0 ** -125, 2.0 ** -127, -2.0 ** -126],
       "f64": [0.0, 1.5, -1.5, 2.0 ** 1020, -2.0 ** 1020, 2.0 ** -990, 7.0, -2.25, 2.0 ** -1022, 2.0 ** -1021, 2.0 ** 990, -2.0 ** -1022]}


def word(v):
    return [v >> 32, (v & 0xFFFFFFFF) - (1 << 31)]


def rep(t, v):
    """A value of type t as the specification has it."""
    if t in FP:
        b = struct.unpack("<q", struct.pack("<d", v))[0]
        return word(b if b >= 0 else -(b & (I64 - 1)))
    if t in DAYS:
        if v == -I64:
            return [-2 ** 31, -1]
        d, s = divmod(v, 86400)
        if not -2 ** 31 <= d < 2 ** 31:
            return [2 ** 31 - 1, 86400] if d > 0 else [-2 ** 31, -2]
        return [d, s]
    return word(v)


def enc_rep(t, v):
    if t in DAYS:
        if v == -I64:
            return [-2 ** 31, -1]
        if v == -I64 + 1:
            return [-2 ** 31, 0]
        return [v, 0]
    return rep(t, v)


class Gen:
    def __init__(self, r):
        self.r = r

    def raw(self, t, big=False):
        r = self.r
        if t in FP:
            return r.choice(FPV[t]) if r.random() < 0.7 else r.randint(-4000, 4000) / 64
        if t in WIDTH:
            lo, hi = WIDTH[t]
            if t == "bool":
                return r.choice([0, 1, -128])
            return self.near(lo, hi)
        w = ENCW[t]
        if t in DAYS:
            day = min(2 ** 15 - 1, 2 ** 31 - 1) if t == "date16" else 2 ** 31 - 1
            x = r.random()
            if x < 0.12:
                return {16: -2 ** 15, 32: -2 ** 31, 64: -I64}[w]
            if x < 0.25:
                d = r.choice([day, -day - 1, day - 1, -day])
            elif big and x < 0.45:
                d = r.choice([day + 1, -day - 2]) + r.choice([0, 5, -5])
            else:
                d = r.randint(-20000, 20000)
            return d * 86400 + r.choice([0, 1, 86399, 43200, r.randint(0, 86399)])
        lim = 1 << (w - 1)
        if r.random() < 0.15 and w < 64:
            return r.choice([lim, -lim - 1, lim + 7, 5 * lim])
        return self.near(-lim, lim - 1)

    def near(self, lo, hi):
        r = self.r
        x = r.random()
        if x < 0.12:
            return lo
        if x < 0.2:
            return hi
        if x < 0.3:
            return r.choice([lo + 1, lo + 2, hi - 1])
        if x < 0.7:
            return max(lo, min(hi, r.randint(-30, 200)))
        return r.randint(lo, hi)

    def encoded(self, t):
        if t in ENCW and t not in DAYS:
            lim = 1 << (ENCW[t] - 1)
            return self.near(-lim, lim - 1)
        if t in DAYS:
            w = ENCW[t]
            lim = 1 << (w - 1)
            x = self.r.random()
            if x < 0.15:
                return self.r.choice([-lim, -lim + 1])
            if w == 64:
                return self.r.randint(-2 * 10 ** 9, 2 * 10 ** 9)
            return self.near(-lim, lim - 1)
        return self.raw(t)

    def bounds(self, t):
        r = self.r
        if t in FP:
            a, b = sorted([r.choice(FPV[t]), r.choice(FPV[t])])
        elif t in DAYS:
            a, b = sorted([86400 * r.randint(-20000, 20000) for _ in range(2)])
        elif t == "bool":
            a, b = r.choice([(0, 0), (0, 1), (1, 1)])
        elif t in WIDTH:
            a, b = sorted([self.near(*WIDTH[t]) for _ in range(2)])
        else:
            lim = 1 << (ENCW[t] - 1)
            a, b = sorted([self.near(-lim, lim - 1) for _ in range(2)])
        return a, b

    def batch(self, kind, t):
        """upd/enc/sca commands for one encoder of type t (kind n scalar, a/l array, s string)."""
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 6, 12])
        if kind == "s":
            m = n + r.randint(0, 3)
            lens = [r.choice([0, 1, 2, 5]) if r.random() < 0.4 else r.randint(1, 4) for _ in range(m)]
            k = r.randint(0, m - n)
            return {"op": "upd", "vals": lens, "from": k, "num": n}
        if kind in "al":
            m = n + r.randint(0, 3)
            vs = [None if r.random() < 0.15 else [self.raw(t) for _ in range(3 if kind == "l" else r.choice([0, 1, 2, 4]))] for _ in range(m)]
            k = r.randint(0, m - n)
            return {"op": "upd", "vals": vs, "from": k, "num": n}
        x = r.random()
        if x < 0.4:
            return {"op": "upd", "vals": [self.raw(t, r.random() < 0.1) for _ in range(max(n, 1))]}
        if x < 0.8:
            vs = [self.encoded(t) for _ in range(max(n, 1))]
            num = r.choice([len(vs)] * 4 + [max(0, len(vs) - 1), 0, 1000 * len(vs), 4099])
            arr = r.randint(0, 1)
            if t == "date64" and not arr:
                vs = [v if v != -I64 + 1 else -I64 for v in vs]   # not a number of days that has seconds
            return {"op": "enc", "vals": vs, "num": num, "arr": arr}
        v = self.raw(t)
        if t in DAYS or t not in FP and abs(v) > 2 ** 50:
            v = max(-2 ** 50, min(2 ** 50, v))
            if t in DAYS:
                v = 86400 * r.randint(-20000, 20000)
        fp = t in FP or (t not in ("dict8", "dict16") and r.random() < 0.3)
        if t in WIDTH and not (WIDTH[t][0] <= v <= WIDTH[t][1]):
            v = 1
        return {"op": "sca", "v": float(v) if fp else v, "fp": 1 if fp else 0, "null": 1 if r.random() < 0.2 else 0}

    def scenario(self, kinds, focus, n):
        r = self.r
        cmds = [{"op": "start"}]
        kind = r.choice(kinds)
        t = "" if kind == "s" else r.choice(SCALARS if kind == "n" else ELEMS)
        es = list(range(1, r.choice([1, 2, 2, 3]) + 1))
        name = {"s": "text", "n": t}.get(kind, kind + ":" + t)
        for e in es:
            cmds.append({"op": "new", "e": e, "t": name, "_et": t, "_c": {"n": "n", "s": "s"}.get(kind, "a")})
        if r.random() < 0.2 and kind == "n":
            t2 = r.choice(SCALARS)
            cmds.append({"op": "new", "e": 9, "t": t2, "_et": t2, "_c": "n"})
            cmds.append({"op": "eq", "e": 1, "f": 9})
        for _ in range(n):
            e = r.choice(es)
            x = r.random()
            if x < (0.45 if focus == "data" else 0.25):
                c = dict(self.batch(kind, t), e=e)
            elif x < (0.8 if focus == "data" else 0.4):
                c = {"op": "get", "e": e}
            else:
                f = r.choice([y for y in es if y != e] or [e])
                ops = ["rst", "set", "setn", "lazy", "setn"]
                if f != e:
                    ops += ["cpy", "wr", "cpy"]
                    if kind != "s":
                        ops += ["mrg", "eq"]
                    if kind == "n":
                        ops += ["red", "red", "mrg"]
                if kind in "sal":
                    ops += ["fit"] * (3 if focus == "data" else 1)
                op = r.choice(ops)
                c = {"op": op, "e": e}
                if op in ("cpy", "wr", "mrg", "eq", "red"):
                    c["f"] = f
                if op == "cpy":
                    c["sync"] = r.randint(0, 1)
                if op == "set":
                    c["nulls"] = r.randint(0, 1)
                    if kind != "s":
                        c["mn"], c["mx"] = self.bounds(t)
                    cmds.append(c)
                    if r.random() < 0.4:
                        cmds.append(dict(c))
                    cmds.append({"op": "get", "e": e})
                    continue
                if op == "setn":
                    c["n"], c["bytes"] = r.randint(0, 1000), r.randint(0, 1000)
                if op == "lazy":
                    c["reads"] = r.randint(0, 3)
                if op == "fit":
                    m = r.randint(1, 6)
                    k = r.randint(0, m - 1)
                    c.update(lens=[r.randint(0, 20) for _ in range(m)], **{"from": k}, num=r.randint(0, m - k), limit=r.choice([0, 10, 24, 36, 60, 100, 150]), repl=r.randint(0, 1))
            cmds.append(c)
            if c["op"] in ("upd", "enc", "red", "cpy", "sca"):
                cmds.append({"op": "get", "e": e})
            if c["op"] == "wr":
                cmds.append({"op": "get", "e": c["f"]})
        return self.annotate(cmds)

    def annotate(self, cmds):
        ty = {}
        for c in cmds:
            if c["op"] == "new":
                ty[c["e"]] = (c["_c"], c["_et"], c["t"])
            elif "e" in c:
                c["_c"], c["_et"], c["_tn"] = ty[c["e"]]
        return cmds


SIZES = {"bool": 1, "i8": 1, "i16": 2, "i32": 4, "dict32": 4, "f32": 4}


def to_event(c, a):
    e = {k: v for k, v in c.items() if k[0] != "_"}
    t = c.get("_et", "")
    a = dict(a)
    a.pop("m", None)
    op = c["op"]
    if op == "new":
        e["t"], e["c"] = t or "text", c["_c"]
    if op == "upd":
        if c["_c"] == "s":
            e["vals"] = c["vals"][c["from"]:c["from"] + c["num"]]
        elif c["_c"] == "a":
            e["vals"] = [[x is None, [rep(t, y) for y in (x or [])]] for x in c["vals"][c["from"]:c["from"] + c["num"]]]
        else:
            e["vals"] = [rep(t, x) for x in c["vals"]]
    if op == "enc":
        vs = c["vals"][:c["num"]]
        e["vals"] = [enc_rep(t, x) for x in vs]
    if op == "sca":
        e["v"] = rep(t, c["v"] if t in FP else int(c["v"]))
    if op == "set":
        if t:
            e["mn"], e["mx"] = rep(t, c["mn"]), rep(t, c["mx"])
    if op == "fit":
        lens = [SIZES.get(t, 8) * 3] * len(c["lens"]) if c["_tn"][0] == "l" else c["lens"]
        k = c["from"]
        e["lens"] = [lens[0]] * c["num"] if c["repl"] else lens[k:k + c["num"]]
        e.pop("from", None)
    if "st" in a:
        a["st"] = [[rep(t, s[0][0]) if s[0] else [], rep(t, s[1][0]) if s[1] else [], s[2]] for s in a["st"]]
    e["a"] = a
    return e


def run(prop):
    ck = Check(prop, "state-space")
    build("enc_driver")
    ck.model("EncoderStatsMC.tla", "EncoderStatsMC3.cfg" if ck.thorough else "EncoderStatsMC.cfg")
    r = ck.rng("enc")
    g = Gen(r)
    n = 12000 if ck.thorough else 1500
    kinds, focus = {"E01": ("n", "data"), "E02": ("nnnals", "moves"), "E03": ("aaals", "data")}[prop]
    sc = [g.scenario(kinds, focus, r.choice([4, 10, 20])) for _ in range(n)]
    ck.conform("enc_driver", "TraceEncoderStats.tla", "TraceEncoderStats.cfg", sc, to_event, "enc")
    return ck.finish()
