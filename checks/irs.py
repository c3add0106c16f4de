"""Checks of types, expressions and constants (I01..I03)."""
import itertools
from fractions import Fraction

from lib import *
from utils import Dates, triple, untriple

UNITS = ["m", "d", "s", "ms", "us", "ns"]
PREC = {"s": 0, "ms": 3, "us": 6, "ns": 9}
NONE = {"x": "none"}


# ---- types -------------------------------------------------------------------------------------------------------
class Types:
    def __init__(self, r):
        self.r = r

    def n(self):
        return int(self.r.random() < 0.6)

    def wild(self, depth=2):
        """A type description that may or may not be allowed."""
        r = self.r
        k = r.choice(["null", "bool", "int", "fp", "dec", "varchar", "text", "date", "time", "ts", "interval", "arrf", "arrv", "dict", "col", "collist"])
        if depth == 0 and k in ("arrf", "arrv", "dict", "col", "collist"):
            k = "int"
        n = self.n()
        sz = r.choice([1, 2, 4, 8, 8, 4, 2, 1, 0, 3, 16, -1])
        if k == "null":
            return {"k": k}
        if k in ("bool", "text"):
            return {"k": k, "n": n}
        if k == "int":
            return {"k": k, "s": sz, "n": n}
        if k == "fp":
            return {"k": k, "s": r.choice([4, 8]), "n": n}
        if k == "dec":
            return {"k": k, "s": r.choice([8, 8, 8, 8, 8, 4, 16, 1]), "p": r.choice([0, 1, 5, 10, 18, 19, 38, r.randint(0, 40), -1]), "sc": r.choice([0, 1, 2, 5, 18, r.randint(0, 20), -1]), "n": n}
        if k == "varchar":
            return {"k": k, "len": r.choice([0, 1, 5, 255, 32767, r.randint(0, 10**6), -1]), "n": n}
        if k in ("date", "time"):
            return {"k": k, "s": r.choice([2, 4, 8, 2, 4, 8, 1, 16]), "u": r.choice(UNITS), "n": n}
        if k == "ts":
            return {"k": k, "u": r.choice(UNITS), "n": n}
        if k == "interval":
            return {"k": k, "s": r.choice([2, 4, 8]), "u": r.choice(UNITS), "n": n}
        e = self.wild(depth - 1)
        if k == "arrf":
            return {"k": k, "len": r.choice([0, 1, 2, 3, 100, -1]), "e": e, "n": n}
        if k == "arrv":
            return {"k": k, "os": r.choice([4, 4, 4, 4, 8, 2]), "e": e, "n": n}
        if k == "dict":
            if r.random() < 0.85:
                e = {"k": r.choice(["text", "text", "varchar"]), "n": self.n()}
                if e["k"] == "varchar":
                    e = {"k": "varchar", "len": r.randint(0, 50), "n": e["n"]}
            return {"k": k, "s": r.choice([1, 2, 4, 4, 4, 8, 3]), "id": r.choice([0, 0, 1, 5, -1, -5, 1 << 24, r.randint(-1000, 1000)]), "e": e, "n": e.get("n", 1)}
        if k == "col":
            return {"k": k, "e": e, "n": n}
        return {"k": k, "len": r.choice([1, 2, 5, 0, -1]), "e": e, "n": n}

    def valid(self, kinds=None, depth=2):
        while True:
            t = self.wild(depth)
            if ok(t) and (kinds is None or t["k"] in kinds) and (kinds is not None or t["k"] not in ("col", "collist")) and not deepcol(t):
                return t

    def near(self, t):
        """A type differing from t in one respect."""
        r = self.r
        for _ in range(50):
            u = json.loads(json.dumps(t))
            f = r.choice(sorted(u))
            if f == "n":
                u["n"] = 1 - u["n"]
                if u["k"] == "dict":
                    u["e"]["n"] = u["n"]
            elif f == "e":
                u["e"] = self.near(u["e"])
                if u["k"] == "dict":
                    u["n"] = u["e"].get("n", 1)
            elif f == "u":
                u["u"] = r.choice(UNITS)
            elif f == "s":
                u["s"] = r.choice([1, 2, 4, 8])
            elif f == "k":
                if u["k"] in ("date", "time", "interval"):
                    u["k"] = r.choice(["date", "time", "interval"])
                elif u["k"] in ("int", "fp"):
                    u["k"] = r.choice(["int", "fp"])
                elif u["k"] in ("bool", "text"):
                    u["k"] = r.choice(["bool", "text"])
            else:
                u[f] = max(0, u[f] + r.choice([-1, 1]))
            if ok(u):
                return u
        return t

    def opts(self, t):
        r = self.r
        o = {"size": int(r.random() < 0.5), "unit": int(r.random() < 0.5), "elem": int(r.random() < 0.5), "id": int(r.random() < 0.5),
             "word": r.choice(["dec", "decimal"]), "sp": r.choice(["", "", " ", "  "])}
        if o["size"] == 0 and t["k"] != "ts" and t.get("s", 0) != (4 if t["k"] == "dict" else 8):
            o["size"] = 1
        if o["unit"] == 0 and t["k"] in ("date", "time", "interval", "ts") and t["u"] != defunit(t):
            o["unit"] = 1
        if t["k"] == "dict":
            if t["id"] != 0:
                o["id"] = 1
            if t["e"] != {"k": "text", "n": 1}:
                o["elem"] = 1
        if "e" in t:
            o["e"] = self.opts(t["e"])
        return o

    def scenario(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            t = self.wild()
            c = {"op": "mk", "t": t, "ctx": r.randint(0, 1), "e2": self.elem()}
            return [c]
        if x < 0.6:
            t = self.valid(ALLK if r.random() < 0.1 else None)
            u = self.near(t) if r.random() < 0.6 else t if r.random() < 0.6 else self.valid()
            return [{"op": "teq", "a": t, "b": u, "ca": r.randint(0, 1), "cb": r.randint(0, 1)}]
        if x < 0.72:
            t = self.valid()
            a = r.randint(0, 1)
            return [{"op": "copy", "t": t, "ca": a, "cb": r.choice([1 - a, 1 - a, a])}]
        if x < 0.96:
            t = self.wild()
            while t["k"] in ("col", "collist", "null") and r.random() < 0.95 or deepcol(t) or not spellable(t):
                t = self.wild()
            o = self.opts(t)
            lt = spell(t, o)
            txt = "".join(ch.upper() if r.random() < 0.5 else ch for ch in lt) if r.random() < 0.6 else lt.upper() if r.random() < 0.5 else lt
            txt = r.choice(["", "", " ", "\t "]) + txt + r.choice(["", "", " "])
            return [{"op": "tparse", "text": txt, "_t": t, "_o": o, "_l": lt, "_bad": 0, "ctx": r.randint(0, 1)}]
        return [{"op": "tparse", "text": r.choice(BADTYPES), "_bad": 1, "ctx": r.randint(0, 1)}]

    def elem(self):
        while True:
            t = self.wild(1)
            if ok(t) and t["k"] in ("bool", "int", "fp", "dec", "date", "time", "ts", "interval", "dict", "null"):
                return t


ALLK = {"null", "bool", "int", "fp", "dec", "varchar", "text", "date", "time", "ts", "interval", "arrf", "arrv", "dict", "col", "collist"}
BADTYPES = ["", "int7", "int128", "int8x", "xint8", "int 8", "fp16", "dec(5)", "dec(5,)", "dec(-1,2)", "decimal", "varchar", "varchar()", "varchar(-1)", "text(5)",
            "date16[s]", "date32[ms]", "date[m]", "time[d]", "time16[ms]", "time32[us]", "timestamp[d]", "timestamp32[s]", "interval8", "array()", "array(int", "array(text)",
            "array(int)(x)", "dict64(text)[1]", "dict(int)[1]", "dict8(text)[1", "nullt[nn]", "bool[n]", "int32[nn][nn]", "string", "ints", "date[x]", "array(array(int))"]


def spellable(t):
    """No negative numbers or odd sizes in the written form."""
    k = t["k"]
    if k in ("col", "collist"):
        return False
    if k == "int" or k == "interval" or k in ("date", "time", "dict"):
        if t["s"] not in ((1, 2, 4, 8) if k == "int" else (1, 2, 4) if k == "dict" else (2, 4, 8)):
            return False
    if k == "dec" and (t["s"] != 8 or t["p"] < 0 or t["sc"] < 0):
        return False
    if k in ("varchar", "arrf") and t["len"] < 0:
        return False
    if k == "arrv" and t["os"] != 4:
        return False
    return "e" not in t or spellable(t["e"])


def deepcol(t):
    return "e" in t and (t["e"]["k"] in ("col", "collist") or deepcol(t["e"]))


def ok(t):
    k = t["k"]
    if k == "int":
        return t["s"] in (1, 2, 4, 8)
    if k == "dec":
        return t["s"] == 8 and t["p"] >= 0 and t["sc"] >= 0
    if k == "varchar":
        return t["len"] >= 0
    if k == "date":
        return t["s"] in (2, 4, 8) and t["u"] != "m" and (t["s"] != 2 or t["u"] == "d") and (t["s"] != 4 or t["u"] in "ds")
    if k == "time":
        return t["s"] in (2, 4, 8) and t["u"] not in "md" or (t["k"] == "time" and t["u"] in ("ms",) and t["s"] in (4, 8)) if t["s"] == 8 else t["s"] in (2, 4) and t["u"] in (("s",) if t["s"] == 2 else ("s", "ms"))
    if k == "ts":
        return t["u"] not in ("m", "d")
    if k == "interval":
        return t["s"] in (2, 4, 8)
    el = ("bool", "int", "fp", "dec", "date", "time", "ts", "interval", "dict", "null")
    if k == "fp":
        return t["s"] in (4, 8)
    if k == "arrf":
        return ok(t["e"]) and t["len"] >= 0 and t["e"]["k"] in el
    if k == "arrv":
        return ok(t["e"]) and t["os"] == 4 and t["e"]["k"] in el
    if k == "dict":
        return ok(t["e"]) and t["s"] in (1, 2, 4) and t["e"]["k"] in ("text", "varchar")
    if k == "col":
        return ok(t["e"])
    if k == "collist":
        return ok(t["e"]) and t["len"] >= 1
    return True


def defunit(t):
    if t["k"] == "date":
        return "d" if t["s"] == 2 else "s"
    if t["k"] == "time":
        return {2: "s", 4: "ms"}.get(t["s"], "us")
    return "us"


def spell(t, o):
    k = t["k"]
    nn = "" if t.get("n", 1) else "[nn]"
    sz = str(8 * (8 if k == "ts" else t.get("s", 0))) if o["size"] else ""
    un = "[%s]" % t.get("u") if o["unit"] else ""
    sp = o["sp"]
    if k == "null":
        return "nullt"
    if k in ("bool", "text"):
        return k + nn
    if k in ("int", "fp"):
        return k + sz + nn
    if k == "dec":
        return "%s%s(%s%d%s,%s%d%s)%s" % (o["word"], sz, sp, t["p"], sp, sp, t["sc"], sp, nn)
    if k == "varchar":
        return "varchar(%d)%s" % (t["len"], nn)
    if k in ("date", "time", "interval"):
        return k + sz + un + nn
    if k == "ts":
        return "timestamp" + sz + un + nn
    if k == "arrf":
        return "array(%s)(%d)%s" % (spell(t["e"], o["e"]), t["len"], nn)
    if k == "arrv":
        return "array(%s)%s" % (spell(t["e"], o["e"]), nn)
    return "dict" + sz + ("(%s)" % spell(t["e"], o["e"]) if o["elem"] else "") + ("[%d]" % t["id"] if o["id"] else "")


# ---- expressions -------------------------------------------------------------------------------------------------
I4 = {"k": "int", "s": 4, "n": 1}
I8 = {"k": "int", "s": 8, "n": 1}
BO = {"k": "bool", "n": 1}
FP = {"k": "fp", "s": 8, "n": 1}
TX = {"k": "text", "n": 1}
DI = {"k": "dict", "s": 4, "id": 1, "e": TX, "n": 1}
TS = {"k": "ts", "u": "s", "n": 1}
AR = {"k": "arrv", "os": 4, "e": I4, "n": 1}
COLT = {1: I4, 2: I8, 3: FP, 4: DI, 5: TS, 6: BO, 7: TX, 8: AR}


AG0, AG1, AG2 = [0, 1, 2, 3, 4, 7, 8, 11], [5, 6, 9, 10], [12]      # aggregates without, with a constant, with any second argument


class Exprs:
    def __init__(self, r):
        self.r = r
        self.flat = False           # casts only of columns, to another type: nothing for a rewriter to fold

    def col(self, t=None):
        r = self.r
        c = r.choice([k for k, v in COLT.items() if t is None or v == t] or [1])
        return {"x": "col", "t": COLT[c], "db": r.choice([1, 1, 1, 2]), "tab": r.choice([1, 1, 2]), "c": c, "rte": r.choice([0, 0, 1])}

    def wide(self, t):
        """Numbers that agree in their low bytes."""
        b = 8 * (t["s"] if t["k"] == "int" else 8)
        return str(self.r.choice([0, 1]) + self.r.choice([1, -1]) * (1 << self.r.choice([x for x in (0, 7, 8, 15, 16, 31, 32, 47, 62) if x < b - 1])))

    def const(self, t=None):
        r = self.r
        t = t or r.choice([I4, I8, FP, TX, BO, {"k": "int", "s": 1, "n": 0}, {"k": "dec", "s": 8, "p": 10, "sc": 2, "n": 1}, TS, {"k": "date", "s": 8, "u": "s", "n": 1},
                           {"k": "int", "s": 2, "n": 1}, {"k": "fp", "s": 4, "n": 1}])
        if r.random() < 0.12:
            return {"x": "const", "t": dict(t, n=1), "null": 1, "v": ""}
        v = {"fp": lambda: r.choice(["0", "1", "1.5", "-2.25", "3"]), "text": lambda: r.choice(["", "a", "b", "ab", "ba", "aB", "1"]), "bool": lambda: r.choice(["0", "1"])}.get(
            t["k"], lambda: r.choice(["0", "1", "-1", "2", "100"]) if r.random() < 0.6 else self.wide(t))()
        return {"x": "const", "t": dict(t, n=0), "null": 0, "v": v}      # a constant that is not NULL is never nullable

    def var(self):
        r = self.r
        c = r.choice(sorted(COLT))
        return {"x": "var", "t": COLT[c], "db": 1, "tab": 1, "c": c, "rte": -1, "row": 2, "no": r.randint(1, 3)}

    def ex(self, d):
        """Any expression of depth at most d."""
        r = self.r
        if d == 0 or r.random() < 0.12:
            x = r.random()
            return self.col() if x < 0.6 else self.const() if x < 0.93 else self.var()
        k = r.choice(["u", "u", "b", "b", "b", "in", "inset", "charlen", "key", "ratio", "lower", "card", "like", "regexp", "bucket", "likely", "agg", "case", "extract",
                      "dadd", "ddiff", "dtrunc", "fn", "win", "arr", "tuple", "offs"])
        E = lambda: self.ex(d - 1)
        if k == "u":
            op = r.choice(["not", "bnot", "neg", "isnull", "cast", "cast", "unnest"])
            t = r.choice([I4, I8, FP, {"k": "int", "s": 2, "n": 1}]) if op == "cast" else {"not": BO, "isnull": BO}.get(op, I8)
            if op == "cast" and self.flat:
                c = self.col()
                while c["t"] not in (I4, I8, FP) or c["t"] == t:
                    c = self.col()
                return {"x": k, "t": t, "agg": 0, "op": op, "a": c, "di": 0}
            return {"x": k, "t": t, "agg": 0, "op": op, "a": E(), "di": 0 if op != "cast" else int(r.random() < 0.15)}
        if k == "b":
            op = r.choice(["eq", "bweq", "ne", "lt", "gt", "le", "ge", "and", "or", "minus", "plus", "mul", "div", "mod", "at", "band", "bor", "bxor"])
            return {"x": k, "t": BO if op in ("eq", "bweq", "ne", "lt", "gt", "le", "ge", "and", "or") else I8, "agg": 0, "op": op, "q": r.choice([0, 0, 0, 1, 2]) if op in ("eq", "ne", "lt", "gt", "le", "ge") else 0,
                    "a": E(), "b": E()}
        if k == "in":
            return {"x": k, "a": E(), "args": [self.const(r.choice([I4, TX])) if r.random() < 0.7 else self.col(I4) for _ in range(r.randint(1, 3))]}
        if k == "inset":
            return {"x": k, "a": E(), "nn": r.randint(0, 1), "vs": [r.choice([0, 1, 2, 3, 1 << 32, (1 << 32) + 1, -1]) for _ in range(r.randint(0, 3))]}
        if k == "charlen":
            return {"x": k, "a": self.strex(d - 1), "enc": r.randint(0, 1)}
        if k in ("key", "lower"):
            return {"x": k, "a": self.col(DI)}
        if k == "ratio":
            return {"x": k, "a": E()}
        if k == "card":
            return {"x": k, "a": self.col(AR)}
        if k == "like":
            return {"x": k, "a": self.strex(d - 1), "b": self.const(TX), "esc": self.opt(TX), "il": r.randint(0, 1), "sim": r.randint(0, 1)}
        if k == "regexp":
            return {"x": k, "a": self.strex(d - 1), "b": self.const(TX), "esc": self.opt(TX)}
        if k == "bucket":
            return {"x": k, "a": E(), "b": E(), "c1": E(), "d": E()}
        if k == "likely":
            return {"x": k, "a": E(), "l": r.choice([1, 8, 15])}
        if k == "agg":
            at = r.choice(AG0 + AG1 + AG2)
            a1 = NONE if at in AG0 or r.random() < 0.3 else self.const() if at in AG1 else E()
            return {"x": k, "t": I8, "at": at, "a": NONE if at == 4 and r.random() < 0.5 else E(), "dist": r.randint(0, 1), "a1": a1, "ip": r.choice([0, 0, 1])}
        if k == "case":
            return {"x": k, "t": I8, "agg": 0, "ws": [{"c": E(), "v": E()} for _ in range(r.randint(1, 3))], "els": NONE if r.random() < 0.3 and not self.flat else E()}
        if k == "extract":
            return {"x": k, "t": I8, "agg": 0, "f": r.randint(0, 5), "a": E()}
        if k == "dadd":
            return {"x": k, "t": TS, "f": r.randint(0, 5), "a": E(), "b": E()}
        if k == "ddiff":
            return {"x": k, "t": I8, "f": r.randint(0, 5), "a": E(), "b": E()}
        if k == "dtrunc":
            return {"x": k, "t": TS, "agg": 0, "f": r.randint(0, 5), "a": E()}
        if k == "fn":
            return {"x": k, "t": r.choice([I8, FP]), "name": r.choice(["f", "g"]), "args": [E() for _ in range(r.randint(0, 3))]}
        if k == "win":
            ok_ = [E() for _ in range(r.randint(0, 2))]
            return {"x": k, "t": I8, "kind": r.randint(0, 5), "args": [E() for _ in range(r.randint(0, 2))], "pk": [E() for _ in range(r.randint(0, 2))], "ok": ok_,
                    "co": [[i + 1, r.randint(0, 1), r.randint(0, 1)] for i in range(len(ok_))]}
        if k == "arr":
            return {"x": k, "t": AR, "args": [E() for _ in range(r.randint(0, 3))], "null": int(r.random() < 0.1), "la": 0}
        if k == "tuple":
            return {"x": k, "args": [E() for _ in range(r.randint(1, 3))]}
        return {"x": "offs"}

    def strex(self, d):
        return self.col(self.r.choice([DI, TX]))

    def opt(self, t):
        return NONE if self.r.random() < 0.6 else self.const(t)

    def sites(self, e, path=()):
        yield path
        for f in sorted(e):
            v = e[f]
            if f in ("a", "b", "c1", "d", "esc", "a1", "els") and v["x"] != "none":
                yield from self.sites(v, path + (f,))
            elif f in ("args", "pk", "ok"):
                for i, x in enumerate(v):
                    yield from self.sites(x, path + (f, i))
            elif f == "ws":
                for i, w in enumerate(v):
                    yield from self.sites(w["c"], path + (f, i, "c"))
                    yield from self.sites(w["v"], path + (f, i, "v"))

    def near(self, e):
        """e with one respect changed somewhere."""
        r = self.r
        for _ in range(60):
            u = json.loads(json.dumps(e))
            at = u
            for p in r.choice(list(self.sites(u))):
                at = at[p]
            k = at["x"]
            fs = [f for f in sorted(at) if f not in ("x", "t", "agg", "la", "nn")]
            if k == "u" and at["op"] == "cast":
                fs.append("t")
            if k == "fn":
                fs.append("t")
            if k == "agg" and at["at"] in AG0:
                fs.remove("a1")
            if not fs:
                continue
            f = r.choice(fs)
            v = at[f]
            if k in ("col", "var"):
                if f == "c":
                    c = r.choice(sorted(COLT))
                    at["c"], at["t"] = c, COLT[c]
                elif f in ("tab", "db", "rte") and k == "col":
                    at[f] = r.choice([0, 1] if f == "rte" else [1, 2])
                elif f in ("no",):
                    at[f] = r.randint(1, 3)
                elif f == "row":
                    at[f] = r.choice([0, 2])
                else:
                    continue
                if k == "var" and f == "c":
                    continue        # a Var is identified by its row and number
            elif k == "const":
                if at["t"]["k"] in ("int", "dec", "ts", "date") and not at["null"] and r.random() < 0.6:
                    b = 8 * (at["t"]["s"] if at["t"]["k"] == "int" else 8)
                    w = int(at["v"]) ^ (1 << r.randrange(b - 1))
                    if w == -(1 << (b - 1)):
                        continue
                    at["v"] = str(w)
                else:
                    c = self.const(at["t"])
                    at.update(c)
            elif f == "t":
                at["t"] = r.choice([I4, I8, FP, {"k": "int", "s": 2, "n": 1}])
            elif f == "op":
                grp = [["eq", "bweq", "ne", "lt", "gt", "le", "ge", "and", "or"], ["minus", "plus", "mul", "div", "mod", "at", "band", "bor", "bxor"], ["not", "isnull"], ["bnot", "neg", "unnest"]]
                g = [x for x in grp if v in x]
                if not g:
                    continue
                at["op"] = r.choice(g[0])
            elif f in ("a", "b", "c1", "d", "esc", "a1", "els"):
                if v["x"] == "none":
                    at[f] = self.const(TX if f == "esc" else None)
                elif f in ("esc", "a1", "els") and r.random() < 0.5:
                    at[f] = NONE
                else:
                    continue
            elif f in ("args", "pk"):
                if k == "tuple" and len(v) < 2:
                    continue
                if v and r.random() < 0.5 and not (k == "in" and len(v) == 1):
                    i = r.randrange(len(v))
                    if r.random() < 0.5 and len(v) > 1:
                        j = r.randrange(len(v))
                        v[i], v[j] = v[j], v[i]
                    else:
                        del v[i]
                else:
                    v.append(self.const(I4))
            elif f == "ok":
                if v:
                    v.pop()
                    at["co"].pop()
                else:
                    v.append(self.const(I4))
                    at["co"].append([1, 0, 0])
            elif f == "co":
                if not v:
                    continue
                i = r.randrange(len(v))
                j = r.choice([1, 2])
                v[i][j] = 1 - v[i][j]
            elif f == "ws":
                if len(v) > 1:
                    i = r.randrange(len(v))
                    if r.random() < 0.5:
                        del v[i]
                    else:
                        j = r.randrange(len(v))
                        v[i], v[j] = v[j], v[i]
                else:
                    v.append({"c": self.const(BO), "v": self.const(I4)})
            elif f == "vs":
                at[f] = v[:-1] if v and r.random() < 0.5 else v + [r.randint(0, 3)]
            elif f == "name":
                at[f] = r.choice(["f", "g"])
            elif f in ("il", "sim", "dist", "enc", "di", "null", "nn"):
                if f == "di" and at["op"] != "cast":
                    continue
                at[f] = 1 - v
            elif f == "l":
                at[f] = r.choice([1, 8, 15])
            elif f == "q":
                if at["op"] not in ("eq", "ne", "lt", "gt", "le", "ge"):
                    continue
                at[f] = r.randint(0, 2)
            elif f == "ip":
                at[f] = 1 - v
            elif f == "at":
                at[f] = r.choice([g for g in (AG0, AG1, AG2) if v in g][0])
            else:
                at[f] = r.randint(0, 5)
            return u
        return e

    def scenario(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            e = self.ex(r.choice([1, 1, 2, 2, 3]))
            y = r.random()
            u = self.near(e) if y < 0.7 else json.loads(json.dumps(e)) if y < 0.9 else self.ex(2)
            return [{"op": "ecmp", "a": e, "b": u}]
        if x < 0.92:
            self.flat = True
            e = self.ex(r.choice([1, 2, 2, 3]))
            self.flat = False
            keys = [(t, c) for t in (1, 2) for c in COLT]
            r.shuffle(keys)
            m = []
            for t, c in keys[: r.randint(0, 12)]:
                to = self.col(COLT[c])
                if c in (1, 2, 3, 6) and r.random() < 0.5:
                    to = {"x": "u", "t": COLT[c], "agg": 0, "op": "not" if c == 6 else "neg", "a": to, "di": 0}
                m.append({"tab": t, "c": c, "to": to})
            return [{"op": "erw", "e": e, "map": m}]
        while True:
            e = self.ex(2)
            if e["x"] in ("like", "regexp", "likely", "ratio", "in"):
                return [{"op": "etype", "e": e, "to": {"k": "bool", "n": r.randint(0, 1)}}]
            if e["x"] in ("charlen", "key", "bucket", "card"):
                return [{"op": "etype", "e": e, "to": {"k": "int", "s": 4, "n": r.randint(0, 1)}}]
            if e["x"] in ("u", "b", "agg", "case", "extract", "dadd", "ddiff", "dtrunc", "fn", "win") and not (e["x"] == "u" and e["op"] in ("isnull",)):
                break
        return [{"op": "etype", "e": e, "to": dict(e["t"], n=1 - e["t"]["n"]) if r.random() < 0.5 else r.choice([I4, I8, FP])}]


# ---- constants ---------------------------------------------------------------------------------------------------
def num(text):
    """A number's text as sign, digits and length of the fraction."""
    neg = text.startswith("-")
    t = text.lstrip("-")
    a, _, b = t.partition(".")
    d = [int(c) for c in a + b]
    while d and d[0] == 0:
        d.pop(0)
    return {"neg": int(neg and any(d)), "d": d, "f": len(b)}


def dectext(v, sc):
    s = str(abs(v)).rjust(sc + 1, "0")
    return ("-" if v < 0 else "") + (s if sc == 0 else s[:-sc] + "." + s[-sc:])


def fptext(fr):
    """Exact decimal text of a dyadic fraction."""
    n, d = fr.numerator, fr.denominator
    k = d.bit_length() - 1
    return dectext(n * 5 ** k, k)


MAXI = {1: 127, 2: 32767, 4: 2**31 - 1, 8: 2**63 - 1}


class Consts:
    def __init__(self, r):
        self.r = r
        self.d = Dates(r)

    def n(self):
        return int(self.r.random() < 0.6)

    def int_(self, s):
        r = self.r
        m = MAXI[s]
        x = r.random()
        if x < 0.3:
            return r.choice([0, 1, -1, m, -m, m - 1, 2, 5, -5, 10, 99, -100])
        if x < 0.6:
            b = MAXI[r.choice([k for k in (1, 2, 4, 8) if k <= s])]
            return max(-m, min(m, r.choice([b, b + 1, -b, -b - 1, -b - 2, b - 1]))) if s < 8 or b < m else r.choice([m, -m])
        return r.randint(-m, m) // r.choice([1, 1, 10, 1000, 10**6])

    def frac(self, s):
        """A dyadic number that a floating-point type of s bytes holds exactly."""
        r = self.r
        k = r.choice([0, 0, 1, 1, 2, 3, 4])
        bits = 20 if s == 4 else r.choice([8, 16, 32, 44])
        v = Fraction(r.randint(-(2**bits), 2**bits), 2**k)
        if r.random() < 0.25:
            b = MAXI[r.choice([1, 2] if s == 4 else [1, 2, 4])]
            v = Fraction(r.choice([b, -b, b + 1, -b - 1, -b - 2])) + r.choice([Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4), 0, Fraction(3, 4)])
        if r.random() < 0.05:
            v = Fraction(r.choice([-1, 1]) * 2 ** r.choice([63, 64, 70]))
        return v

    def type_(self, k):
        r = self.r
        if k == "bool":
            return {"k": k, "n": self.n()}
        if k == "int":
            return {"k": k, "s": r.choice([1, 2, 4, 8]), "n": self.n()}
        if k == "fp":
            return {"k": k, "s": r.choice([4, 8]), "n": self.n()}
        if k == "dec":
            sc = r.choice([0, 1, 2, 3, 5, 9, 17, 18])
            return {"k": k, "s": 8, "p": r.choice([18, 19]), "sc": sc, "n": self.n()}
        if k == "varchar":
            return {"k": k, "len": r.choice([0, 1, 3, 5, 10, 19, 20, 40]), "n": self.n()}
        if k == "text":
            return {"k": k, "n": self.n()}
        if k == "date":
            return {"k": k, "s": 8, "u": "s", "n": self.n()}
        if k == "time":
            return {"k": k, "s": 8, "u": r.choice(["s", "ms", "us", "ns"]), "n": self.n()}
        if k == "ts":
            return {"k": k, "u": r.choice(["s", "ms", "us", "ns"]), "n": self.n()}
        raise KeyError(k)

    def raw(self, t):
        """The text of a value of t, as the driver takes it."""
        r = self.r
        k = t["k"]
        if k == "bool":
            return r.choice(["0", "1"])
        if k == "int":
            return str(self.int_(t["s"]))
        if k == "fp":
            return fptext(self.frac(t["s"]))
        if k == "dec":
            return str(self.int_(r.choice([2, 4, 8, 8])) if r.random() < 0.7 else r.choice([-1, 1]) * (r.randint(0, 99) * 10 ** max(0, t["sc"] - 1) + r.choice([0, 4, 5, 6, 49, 50, 51]) * 10 ** max(0, t["sc"] - 3)) % MAXI[8])
        if k in ("varchar", "text"):
            s = "".join(r.choice("abcXYZ 019.-") for _ in range(r.choice([0, 1, 3, 5, 9, 20])))
            return s[:t["len"]] if k == "varchar" else s
        if k == "date":
            return str(86400 * self.inst(0)[0])
        if k == "time":
            p = PREC[t["u"]]
            return str(r.randint(0, 86399) * 10 ** p + r.randint(0, 10 ** p - 1))
        v = self.inst(PREC[t["u"]])
        return str(untriple(v, PREC[t["u"]]))

    def inst(self, p):
        r = self.r
        if p == 9:
            days = r.choice([0, -1, 1, r.randint(-90000, 90000)])
        else:
            days = r.choice([0, -1, 1, r.randint(-90000, 90000), r.randint(-700000, 2500000)])
        ns = 0 if p == 0 else r.choice([0, 1, 10 ** p - 1, r.randint(0, 10 ** p - 1), 10 ** p // 2]) * 10 ** (9 - p)
        return [days, r.choice([0, 1, 86399, 43200, r.randint(0, 86399)]), ns]

    def written(self, t):
        """A number as a user writes it, for type t."""
        r = self.r
        if t["k"] == "int":
            m = MAXI[t["s"]]
            x = r.random()
            if x < 0.45:
                v = r.choice([0, 1, -1, m, m + 1, -m, -m - 1, -m - 2, 2 * m, 10 * m, r.randint(-m, m), 99])
                ip, fp = str(abs(v)), ""
                neg, dot = v < 0, 0
                if r.random() < 0.2 and t["s"] < 8:
                    dot, fp = 1, r.choice(["", "0"])
                exp = []
            else:
                ip = str(r.randint(0, min(m, 10**11) // r.choice([1, 10, 1000])) if r.random() < 0.8 else min(m, 10**11))
                fp = r.choice(["5", "49", "4", "50", "51", "499", "0", "00", "25", "75", ""])
                neg, dot = r.random() < 0.5, 1
                exp = []
                if r.random() < 0.3 and int(ip) > 0:
                    ex = r.choice([0, 1, 2, 3])
                    exp = [r.choice([101, 69]), r.choice([[], [45], [43]]), [ex]]
            sign = [45] if neg else [43] if r.random() < 0.03 and t["s"] < 8 else []
        elif t["k"] == "dec":
            nd = r.randint(1, 17)
            k = r.randint(0, nd)
            ds = "".join(r.choice("0123456789059") for _ in range(nd))
            ip, fp = ds[:k] or "0", ds[k:]
            dot = 1 if fp else 0
            neg = r.random() < 0.4
            exp = []
            sign = [45] if neg else []
        else:
            fr = self.frac(t["s"])
            tx = fptext(fr).lstrip("-")
            ip, _, fp = tx.partition(".")
            dot = 1 if fp else r.choice([0, 0, 1])
            exp = []
            if r.random() < 0.3:
                exp = [101, [], [0]]
            sign = [45] if fr < 0 else []
        w = {"sign": sign, "ip": [int(c) for c in ip], "dot": dot, "fp": [int(c) for c in fp], "exp": exp}
        tx = "".join(map(chr, sign)) + ip + ("." + fp if dot else "") + ("" if not exp else chr(exp[0]) + "".join(map(chr, exp[1])) + "".join(map(str, exp[2])))
        return tx, w

    def readcase(self, to):
        """(text, how, w) for a text read as type to."""
        r = self.r
        if to["k"] == "bool":
            if r.random() < 0.75:
                s = r.choice(["t", "T", "f", "F", "0", "1", "true", "TRUE", "True", "tRue", "false", "FALSE", "faLSE", "False"])
            else:
                s = r.choice(["", "2", "yes", "no", "tr", "fals", "truee", " t", "tf", "10", "-1", "o", "on"])
            return s, "bool", {}
        if to["k"] == "int" and r.random() < 0.15:
            return r.choice(["", "abc", "12abc", "1 2", "--1", "1-", "0x", "1.2.3", "e5", "nan", "inf", "-", ".", "1,000", "12 ", "5.x", "1e", "1e99", "-1e99"]), "bad", {}
        s, w = self.written(to)
        return s, "num", w

    def scenario(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            to = self.type_(r.choice(["int", "int", "dec", "dec", "fp", "bool"]))
            s, how, w = self.readcase(to)
            return [{"op": "dread", "t": to, "text": s, "_how": how, "_w": w}]
        if x < 0.4:
            t = self.type_(r.choice(["int", "dec", "dec", "dec", "fp", "bool", "ts", "ts", "date", "time", "text"]))
            v = self.raw(t)
            if t["k"] == "date" and not (0 <= year(int(v)) <= 9999) or t["k"] == "ts" and not (0 <= year(int(v) // 10 ** PREC[t["u"]]) <= 9999):
                v = "0"
            if t["k"] == "fp" and abs(Fraction(v)) > 10**15:
                v = "1.5"
            return [{"op": "dprint", "t": t, "v": v}]
        if x < 0.46:
            t = self.type_(r.choice(["int", "fp", "dec"]))
            v = self.int_(t["s"]) if t["k"] == "int" else r.randint(-2**20, 2**20) if t["k"] == "fp" else r.randint(-9, 9)
            return [{"op": "cint", "t": t, "v": str(v)}]
        f = r.choice(["bool", "int", "int", "fp", "fp", "dec", "dec", "text", "varchar", "date", "ts", "ts"])
        to = {"bool": ["int", "fp", "dec", "text", "bool"], "int": ["int", "int", "int", "fp", "dec", "dec", "text", "varchar"], "fp": ["int", "int", "fp", "dec", "text"],
              "dec": ["int", "int", "dec", "dec", "dec", "fp", "text", "varchar"], "text": ["text", "varchar", "int", "dec", "fp", "bool"], "varchar": ["text", "varchar"],
              "date": ["ts", "date", "text"], "ts": ["ts", "ts", "date", "text", "varchar"]}[f]
        ft, tt = self.type_(f), self.type_(r.choice(to))
        if f == "bool" and tt["k"] == "bool":
            tt["n"] = 1 - ft["n"]
        if r.random() < 0.05:
            return [{"op": "ccast", "e": {"x": "const", "t": dict(ft, n=1), "null": 1, "v": ""}, "to": dict(tt, n=1), "_how": "", "_w": {}}]
        if f == "dec" and tt["k"] == "int" and r.random() < 0.15:
            ft = dict(ft, sc=r.choice([18, 19, 20]))
        how, w = "", {}
        if f == "text" and tt["k"] not in ("text", "varchar"):
            v, how, w = self.readcase(tt)
        else:
            v = self.raw(ft)
        # stay where the conversion is exact
        if f == "fp":
            fr = Fraction(v)
            if tt["k"] == "dec" and abs(fr * 10 ** tt["sc"]) >= 2**50:
                tt["sc"] = r.choice([0, 1, 2, 3])
                if abs(fr * 10 ** tt["sc"]) >= 2**50 and abs(fr) < 2**62:
                    v = "2.5"
            if tt["k"] == "fp" and tt["s"] == 4 and (abs(fr) >= 2**20 or fr.denominator > 16):
                v = "-3.75"
            if tt["k"] == "text" and abs(fr) > 10**15:
                v = "0.5"
        if tt["k"] == "fp" and f in ("int", "dec"):
            lim = 2**24 if tt["s"] == 4 else 2**53
            if f == "int" and abs(int(v)) > lim:
                v = str(r.randint(-1000, 1000))
            if f == "dec":
                ft = dict(ft, sc=r.choice([0, 1, 2]))
                v = str(r.randint(-10**4, 10**4) * 10 ** ft["sc"] + r.choice([0, 25, 50, 75]) * (1 if ft["sc"] == 2 else 0))
        if f in ("date", "ts") and tt["k"] in ("text", "varchar"):
            sec = int(v) // (1 if f == "date" else 10 ** PREC[ft["u"]])
            if not 0 <= year(sec) <= 9999:
                v = "0"
        if f in ("date", "ts") and tt["k"] == "ts":
            p = PREC[ft.get("u", "s")] if f == "ts" else 0
            q = PREC[tt["u"]]
            if abs(int(v) // 10 ** p) * 10 ** q > 9 * 10**18:
                v = str(86400 * r.randint(-90000, 90000) * 10 ** p)
        return [{"op": "ccast", "e": {"x": "const", "t": ft, "null": 0, "v": v}, "to": tt, "_how": how, "_w": w}]


def year(sec):
    return 1970 + sec // 31556952


def val(t, text):
    """A value text of the driver as the specification's value."""
    k = t["k"]
    if k in ("bool", "int", "fp"):
        return num(text)
    if k == "dec":
        return num(dectext(int(text), t["sc"]))
    if k in ("varchar", "text"):
        return s2c(text)
    return triple(int(text), PREC[t["u"]])


ZERO = {"neg": 0, "d": [], "f": 0}


def to_event(c, a):
    op = c["op"]
    e = {"op": op, "a": {"k": a.get("k", "?")}}
    if e["a"]["k"] != "ok":
        return dict(e, **{k: c[k] for k in ("t",) if k in c})
    if op == "mk":
        e.update(t=c["t"], e2=c["e2"], a=a)
    elif op == "teq":
        e.update(x=c["a"], y=c["b"], a=a)
    elif op == "copy":
        e.update(t=c["t"], a=a)
    elif op == "tparse":
        e.update(bad=c["_bad"], a=a)
        if not c["_bad"]:
            e.update(t=c["_t"], o=c["_o"], ltext=c["_l"])
    elif op == "ecmp":
        e.update(x=c["a"], y=c["b"], a=a)
    elif op == "erw":
        e.update(e=c["e"], map=c["map"], a=a)
    elif op == "etype":
        e.update(e=c["e"], to=c["to"], a=a)
    elif op in ("ccast", "cint"):
        r = {"k": "ok", "ok": a["ok"]}
        if a["ok"]:
            x = a["r"]
            r.update(null=x.get("null", 0), t=x["t"])
            if not r["null"] and x["x"] == "const":
                r["v"] = val(x["t"], x["v"])
        if op == "cint":
            e.update(to=c["t"], v=num(c["v"]), a=r)
        else:
            k = c["e"]
            e.update({"from": k["t"], "to": c["to"], "null": k["null"], "how": c["_how"], "w": c["_w"], "text": s2c(k["v"]), "v": ZERO if k["null"] else val(k["t"], k["v"]), "a": r})
    elif op == "dread":
        r = {"k": "ok", "ok": a["ok"]}
        if a["ok"]:
            r["v"] = val(c["t"], a["v"])
        e.update(to=c["t"], how=c["_how"], w=c["_w"], text=s2c(c["text"]), a=r)
    elif op == "dprint":
        e.update(t=c["t"], v=val(c["t"], c["v"]), a={"k": "ok", "text": s2c(a["text"])})
    return e


def run(prop):
    ck = Check(prop, "state-space")
    build("ir_driver")
    r = ck.rng("ir")
    k = 25 if ck.thorough else 4
    if prop == "I01":
        ck.model("TypesMC.tla", "TypesMC.cfg")
    g, n = {"I01": (Types, 2500), "I02": (Exprs, 2500), "I03": (Consts, 3000)}[prop]
    g = g(r)
    S = [g.scenario() for _ in range(n * k)]
    # a few hundred commands per process: the contexts keep their types
    S = [[{"op": "start"}] + sum(S[i:i + 20], []) for i in range(0, len(S), 20)]
    ck.conform("ir_driver", "TraceIR.tla", "TraceIR.cfg", S, to_event, "ir")
    return ck.finish()
