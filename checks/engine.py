"""Checks of the query engine (Q..): random histories of tables and queries on the real engine, validated against Relational.tla."""
import copy
import json

import lib

INT = {"int8": (-127, 127), "int16": (-32767, 32767), "int32": (-2147483647, 2147483647), "int64": (-10**9, 10**9)}
WEIRD = 1999999999
WORDS = ["a", "b", "ab", "abc", "ba", "B", "Ab", "xyz", "x_z", "100%", "b c", "aa", "zz"]


# ---------------------------------------------------------------- tables
def col(t, nn=False):
    base = t.split("(")[0].split("[")[0]
    c = "i" if t in INT else {"bool": "b", "fp32": "f", "fp64": "f", "dec": "f", "dict32": "s", "dict16": "s", "dict8": "s", "text": "s",
                               "timestamp": "t", "date": "D", "date32": "D", "date16": "D"}[base]
    return {"t": t, "c": c, "nn": nn}


def typestr(c):
    if c["t"].startswith("dict"):
        return c["t"].replace("(text)", "(text[nn])") if c["nn"] else c["t"]
    return c["t"] + ("[nn]" if c["nn"] else "")


def value(r, c, narrow, pnull):
    """The stored value, None for null."""
    if not c["nn"] and r.random() < pnull:
        return None
    if c["c"] == "i":
        if "pool" in c:
            return r.choice(c["pool"])
        lo, hi = c.get("rng", (-3, 6) if narrow else (-40, 40))
        return r.randint(lo, hi)
    if c["c"] == "b":
        return r.randint(0, 1)
    if c["c"] == "f":
        v = r.choice([-2.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.5])
        return int(v * 10 ** c["sc"]) if c["t"].startswith("dec") else v
    if c["c"] == "s":
        return r.choice(WORDS[:5] if narrow else WORDS)
    if c["c"] == "t":
        return r.choice([0, 86399, 951782400, -1, 1078012800 - 1, 1330473600, 1230768000 - 1]) if r.random() < .3 else \
            r.randint(-500_000_000, 1_400_000_000)
    if c["c"] == "D":
        return r.randint(-6000, 15000) * c.get("mul", 1)
    raise ValueError(c)


def cell(v, c):
    if v is None:
        return []
    if c["c"] == "f":
        return [round(v * 1000 / 10 ** c["sc"])] if c["t"].startswith("dec") else [round(v * 1000)]
    if c["c"] == "s":
        return [lib.s2c(v)]
    if c["c"] == "D":
        return [v // c.get("mul", 1)]
    return [int(v)]


class Tab:
    def __init__(self, name, cols, frag):
        self.name, self.cols, self.frag, self.n = name, cols, frag, 0

    def create(self):
        return {"op": "create", "t": self.name, "frag": self.frag, "cols": [{"n": "c%d" % i, "t": typestr(c)} for i, c in enumerate(self.cols)]}

    def append(self, r, n, narrow=True, pnull=.2, sorted_=False):
        rows = [[value(r, c, narrow, pnull) for c in self.cols] for _ in range(n)]
        self.n += n
        return {"op": "append", "t": self.name, "rows": rows, "_spec": [[cell(v, c) for v, c in zip(x, self.cols)] for x in rows]}


# ---------------------------------------------------------------- expressions
class Gen:
    def __init__(self, r, cfg=None, feat=()):
        self.r = r
        self.cfg = cfg or {}
        self.feat = set(feat)

    # cols: list of (source, index, absolute 1-based position, column)
    def ref(self, x):
        s, i, j, c = x
        e = {"e": "col", "s": s, "i": i, "j": j, "c": c["c"], "nn": c["nn"]}
        if c["c"] == "i":
            e["lo"], e["hi"] = c.get("rng", (-40, 40))
        e["w"] = c["t"]
        if c.get("der"):
            e["der"] = 1
        return e

    def pick(self, cols, classes):
        xs = [x for x in cols if x[3]["c"] in classes]
        return self.ref(self.r.choice(xs)) if xs else None

    def lit(self, c, w=None):
        r = self.r
        if c == "i":
            v = r.randint(-4, 7)
            return {"e": "lit", "t": w or r.choice(["int32", "int64"]), "v": [v], "c": "i", "lo": v, "hi": v, "nn": True}
        if c == "f":
            return {"e": "lit", "t": w or "fp64", "v": [r.choice([-1500, -500, 0, 500, 1000, 2500])], "c": "f", "nn": True}
        if c == "b":
            return {"e": "lit", "t": "bool", "v": [r.randint(0, 1)], "c": "b", "nn": True}
        if c == "s":
            return {"e": "lit", "t": "text", "v": [r.choice(WORDS)], "c": "s", "nn": True}
        raise ValueError(c)

    def num(self, cols, d, want=None):
        r = self.r
        cols = [x for x in cols if not (x[3]["c"] == "i" and max(-x[3]["rng"][0], x[3]["rng"][1]) > 2000)]
        if d <= 0 or r.random() < .25:
            e = self.pick(cols, want or "if")
            if e is None or r.random() < .15:
                return self.lit((want or "i")[0])
            return e
        k = r.choice(["add", "sub", "mul", "div", "mod", "neg", "case", "cast", "bw"])
        if k == "neg":
            a = self.num(cols, d - 1, want)
            if a["e"] == "lit":
                return a
            return self._b({"e": "neg", "a": [a], "c": a["c"]}, lambda x: (-x[1], -x[0]), a)
        if k == "case":
            c = self.boolean(cols, d - 1)
            a, b = self.num(cols, d - 1, want), self.num(cols, d - 1, want)
            cc = "f" if "f" in (a["c"], b["c"]) else "i"
            a, b = (self._b({"e": "cast", "a": [x], "c": cc, "t": "fp64" if cc == "f" else "int64"}, lambda z: z, x) for x in (a, b))
            e = {"e": "case", "a": [c, a, b], "c": cc}
            if cc == "i":
                e["lo"], e["hi"] = min(a["lo"], b["lo"]), max(a["hi"], b["hi"])
            return e
        if k == "cast":
            a = self.num(cols, d - 1, "i")
            if want == "i" or r.random() < .5:
                t = r.choice(["int32", "int64"])
                return dict(self._b({"e": "cast", "a": [a], "c": "i", "t": t}, lambda x: x, a))
            return {"e": "cast", "a": [a], "c": "f", "t": r.choice(["fp64", "fp32"])}
        if k == "bw":
            if want == "f":
                return self.num(cols, d - 1, want)
            a, b = self.num(cols, d - 1, "i"), self.num(cols, d - 1, "i")
            return {"e": r.choice(["bwand", "bwor", "bwxor"]), "a": [a, b], "c": "i", "lo": -128, "hi": 127} if max(
                -a["lo"], a["hi"], -b["lo"], b["hi"]) < 100 else a
        if k in ("div", "mod"):
            a = self.num(cols, d - 1, "i")
            free = self.cfg.get("null_div" if k == "div" else "null_mod")
            b = self.pick([x for x in cols if not x[3]["nn"]], "i") if free and r.random() < .6 else None
            if b is None:
                v = r.choice([1, 2, 3, -2, 5])
                b = {"e": "lit", "t": r.choice(["int32", "int64"]), "v": [v], "c": "i", "lo": v, "hi": v, "nn": True}
            m = max(-a["lo"], a["hi"])
            return {"e": k, "a": [a, b], "c": "i", "lo": -m, "hi": m}
        a, b = self.num(cols, d - 1, want), self.num(cols, d - 1, want)
        if k == "mul":
            if a["c"] == "f" and b["c"] == "f":
                k = "add"
            elif "f" in (a["c"], b["c"]):
                if a["c"] == "f" and a["e"] not in ("col", "lit") or b["c"] == "f" and b["e"] not in ("col", "lit"):
                    k = "sub"
                else:
                    i = a if a["c"] == "i" else b
                    if max(-i["lo"], i["hi"]) > 200:
                        k = "add"
        cc = "f" if "f" in (a["c"], b["c"]) else "i"
        e = {"e": k, "a": [a, b], "c": cc}
        if cc == "i":
            x, y = (a["lo"], a["hi"]), (b["lo"], b["hi"])
            if k == "add":
                e["lo"], e["hi"] = x[0] + y[0], x[1] + y[1]
            elif k == "sub":
                e["lo"], e["hi"] = x[0] - y[1], x[1] - y[0]
            else:
                p = [u * v for u in x for v in y]
                e["lo"], e["hi"] = min(p), max(p)
            if max(-e["lo"], e["hi"]) > 127:
                return a
        return e

    @staticmethod
    def _b(e, f, a):
        if e["c"] == "i":
            e["lo"], e["hi"] = f((a["lo"], a["hi"]))
        return e

    def boolean(self, cols, d):
        r = self.r
        if d <= 0:
            e = self.pick(cols, "b")
            if e is not None and r.random() < .4:
                return e
            return self.cmp(cols, 0)
        k = r.choice(["and", "or", "not", "cmp", "cmp", "cmp", "isnull", "in", "col", "str", "bweq"])
        if k in ("and", "or"):
            return {"e": k, "a": [self.boolean(cols, d - 1), self.boolean(cols, d - 1)], "c": "b"}
        if k == "not":
            return {"e": "not", "a": [self.boolean(cols, d - 1)], "c": "b"}
        if k == "isnull":
            a = self.pick(cols, "ifbs") if r.random() < .6 else self.num(cols, d - 1)
            if a is None or a["e"] == "lit":
                return self.cmp(cols, d - 1)
            return {"e": "isnull", "a": [a], "c": "b", "nn": True}
        if k == "in":
            a = self.pick(cols, "is")
            if a is None or a.get("der"):
                return self.cmp(cols, d - 1)
            n = r.choice([1, 2, 3, 5])
            if a["c"] == "i":
                l = [self.lit("i", a["w"]) for _ in range(n)]
            else:
                l = [self.lit("s") for _ in range(n)]
            if a["c"] == "s" and a["w"] == "text":
                return self.cmp(cols, d - 1)
            return {"e": "in", "a": [a], "l": l, "c": "b"}
        if k == "col":
            return self.pick(cols, "b") or self.cmp(cols, d - 1)
        if k == "bweq":
            a = self.pick(cols, "i")
            b = self.pick(cols, "i")
            if a is None or a["w"] != b["w"] or "bweq" not in self.feat:
                return self.cmp(cols, d - 1)
            return {"e": "bweq", "a": [a, b], "c": "b", "cc": "i"}
        if k == "str" and "str" in self.feat:
            return self.strpred(cols) or self.cmp(cols, d - 1)
        return self.cmp(cols, d - 1)

    def cmp(self, cols, d):
        r = self.r
        s = self.pick(cols, "s")
        if s is not None and r.random() < .25:
            op = r.choice(["eq", "ne"] + (["lt", "le", "gt", "ge"] if "strcmp" in self.feat else []))
            return {"e": op, "a": [s, self.lit("s")], "c": "b", "cc": "s"}
        a = self.num(cols, d)
        b = self.num(cols, d)
        if a["e"] == "lit" and b["e"] == "lit":
            return self.lit("b")
        cc = "f" if "f" in (a["c"], b["c"]) else "i"
        return {"e": r.choice(["eq", "ne", "lt", "le", "gt", "ge"]), "a": [a, b], "c": "b", "cc": cc}

    def strpred(self, cols):
        r = self.r
        a = self.pick(cols, "s")
        if a is None:
            return None
        k = r.random()
        if k < .6:
            p = r.choice(["a%", "%b", "%a%", "_", "__", "a_", "%", "x\\_z", "100\\%", "[ab]%", "%[xyz]", "ab", "b c", "%_a%", "a%c", "%%", "_%"])
            e = {"e": "like", "a": [a], "p": p, "ilike": int(r.random() < .3), "not": int(r.random() < .3), "c": "b"}
            return e
        if k < .8:
            t = self.regex(2)
            return {"e": "regexp", "a": [a], "p": rx_text(t), "ra": t, "not": int(r.random() < .3), "c": "b"}
        if a["w"] != "text":
            return None
        return {"e": r.choice(["eq", "gt", "le"]), "a": [{"e": "charlen", "a": [a], "c": "i", "enc": 0}, self.lit("i", "int32")], "c": "b", "cc": "i"}

    def regex(self, d):
        r = self.r
        if d == 0:
            k = r.choice(["chr", "chr", "any", "cls"])
            if k == "chr":
                return {"x": "chr", "c": ord(r.choice("abxz"))}
            if k == "any":
                return {"x": "any"}
            return {"x": "cls", "neg": r.random() < .3, "cs": [ord(c) for c in r.sample("abcxyz", 2)]}
        k = r.choice(["seq", "seq", "alt", "star", "plus", "opt"])
        if k in ("seq", "alt"):
            return {"x": k, "a": self.regex(d - 1), "b": self.regex(d - 1)}
        return {"x": k, "a": self.regex(d - 1)}


def rx_text(t):
    k = t["x"]
    if k == "chr":
        return chr(t["c"])
    if k == "any":
        return "."
    if k == "cls":
        return "[" + ("^" if t["neg"] else "") + "".join(map(chr, t["cs"])) + "]"
    if k == "seq":
        return rx_text(t["a"]) + rx_text(t["b"])
    if k == "alt":
        return "(" + rx_text(t["a"]) + "|" + rx_text(t["b"]) + ")"
    return "(" + rx_text(t["a"]) + ")" + {"star": "*", "plus": "+", "opt": "?"}[k]


# ---------------------------------------------------------------- conversion for the specification
def spec_expr(e):
    o = {k: e[k] for k in ("e", "c", "cc", "j", "f", "n", "not", "ilike", "ra") if k in e}
    if "a" in e:
        o["a"] = [spec_expr(x) for x in e["a"]]
    if e["e"] == "lit":
        o["v"] = [lib.s2c(e["v"][0])] if e["v"] and isinstance(e["v"][0], str) else (
            [e["v"][0] // e.get("mul", 1)] if e["v"] else [])
    if e["e"] == "in":
        o["l"] = [spec_expr(x) for x in e["l"]]
    if e["e"] == "like":
        o["p"] = lib.s2c(e["p"])
        o["escc"] = ord(e["esc"]) if "esc" in e else ord("\\")
    if e["e"] == "win":
        o["p"] = [spec_expr(x) for x in e["p"]]
        o["o"] = [{"k": spec_expr(x["k"]), "d": x.get("d", 0), "nf": x.get("nf", 0)} for x in e["o"]]
        o.setdefault("a", [])
        o.setdefault("n", 1)
    return o


def spec_query(q):
    o = {"n": q["n"]}
    if "t" in q:
        o["t"] = q["t"]
        o["rid"] = q.get("rid", 0)
    for k in ("in", "l", "r"):
        if k in q:
            o[k] = spec_query(q[k])
    if q["n"] in ("filter", "join"):
        o["c"] = spec_expr(q["c"])
    if q["n"] == "proj":
        o["e"] = [spec_expr(x) for x in q["e"]]
    if q["n"] == "agg":
        o["k"] = [spec_expr(x) for x in q["k"]]
        o["a"] = [{"f": x["f"], "a": [spec_expr(y) for y in x.get("a", [])]} for x in q["a"]]
    if q["n"] == "sort":
        o["f"] = [{"j": f["i"] + 1, "d": f.get("d", 0), "nf": f.get("nf", 0), "c": f["c"]} for f in q["f"]]
        o["limit"], o["offset"] = q.get("limit", 0), q.get("offset", 0)
    if q["n"] == "join":
        o["jt"], o["nr"] = q["jt"], q["nr"]
    return o


def type_class(ty):
    t = ty.upper()
    for p, c in (("BOOL", "b"), ("INT", "i"), ("FP", "f"), ("DEC", "f"), ("EXTDICT", "s"), ("DICT", "s"), ("TEXT", "s"), ("VARCHAR", "s"),
                 ("TIMESTAMP", "t"), ("DATE", "D"), ("TIME", "T")):
        if t.startswith(p):
            return c
    return "?"


def spec_answer(a, classes):
    """Cells in the specification's form; anything of the wrong class becomes a value no query yields."""
    if a.get("k") != "rows":
        return {"k": "refused" if str(a.get("m", "")).startswith(("Hash join failed", "Query execution fails because the query contains not supported self-join")) else a.get("k", "ok")}
    rows = []
    got = [type_class(t) for t in a["ty"]]
    ok = len(got) == len(classes) and all(g == c for g, c in zip(got, classes))
    for row in a["rows"]:
        o = []
        for k, c in enumerate(classes):
            x = row[k] if k < len(row) else ["?"]
            if x == []:
                o.append([] if ok else [WEIRD] if c != "s" else [[WEIRD]])
                continue
            v = x[0]
            if c == "s":
                o.append([lib.s2c(v)] if isinstance(v, str) and ok else [[WEIRD]])
            elif isinstance(v, int) and ok:
                ty = a["ty"][k].upper()
                if ty.startswith("DEC"):
                    sc = int(ty.split(",")[1].split(")")[0])
                    v = v * 1000
                    v = v // 10 ** sc if v % 10 ** sc == 0 else WEIRD
                if ty.startswith("DATE64[S]"):
                    v = v // 86400 if v % 86400 == 0 else WEIRD
                o.append([v if abs(v) < 2 * 10**9 else WEIRD])
            else:
                try:
                    v = int(v)
                    o.append([WEIRD + (1 if v < 0 else 0)])
                except (ValueError, TypeError):
                    o.append([WEIRD])
        rows.append(o)
    return {"k": "rows" if len(got) == len(classes) else "shape", "seq": a["seq"], "n": a["n"], "rows": rows}


def to_event(c, a):
    op = c["op"]
    e = {"op": op, "a": {"k": a.get("k", "ok")}}
    for k in ("t", "r", "c"):
        if k in c and op != "cfg":
            e[k] = c[k]
    if op == "append":
        e["rows"] = c["_spec"]
    if op == "query":
        e["q"] = spec_query(c["q"])
        e["keep"] = c.get("keep", "")
        e["a"] = spec_answer(a, c["_cls"])
    if op == "par":
        e["qs"] = [spec_query(q) for q in c["qs"]]
        if a.get("k") == "many":
            e["a"] = {"k": "many", "rs": [spec_answer(x, cl) for x, cl in zip(a["rs"], c["_cls"])]}
    if op in ("read", "head", "tail"):
        e["keep"] = c.get("keep", "")
        e["a"] = spec_answer(a, c["_cls"])
    return e


# ---------------------------------------------------------------- queries
ROWID = {"c": "i", "t": "int64", "nn": True, "rng": (0, 100)}


def scan(t, rowid=False):
    return {"n": "scan", "t": t.name, "rid": int(rowid)}, [dict(c) for c in t.cols] + ([dict(ROWID)] if rowid else [])


def expose(cols, s=0, off=0):
    return [(s, k, off + k + 1, c) for k, c in enumerate(cols)]


def out_col(e):
    c = {"c": e["c"], "t": e.get("w", {"i": "int64", "f": "fp64", "b": "bool", "s": "text", "t": "timestamp[s]", "D": "date"}[e["c"]]), "nn": False}
    if e["c"] == "i":
        c["rng"] = (e["lo"], e["hi"])
    if e["c"] == "s":
        c["t"] = e.get("w", "text")
    if e.get("der"):
        c["der"] = 1
    return c


def classes(cols):
    return [c["c"] for c in cols]


def small_cfg(r, keys=None):
    opts = {
        "columnar": [0, 1], "lazy": [0, 1], "direct_col": [0, 1], "row_init": [0, 1], "multifrag_kernels": [0, 1], "hoist": [0, 1],
        "filter_fn": [0, 1], "baseline_threshold": [1, 1000000], "groups_guess": [64, 16384], "bigint_count": [0, 1],
        "buf_desc": [0, 1], "partitioned": [0, 1], "multifrag_rs": [0, 1],
        "multifrag_res": [0, 1], "topn": [1, 100000], "ptop": [1, 100000], "recycler": [0, 1], "ht_cache": [0, 1], "mat_inner": [0, 1],
        "reorder": [0, 1], "in_thr": [1, 10], "lj_hoist": [0, 1], "part_buf": [1, 100000], "part_group": [1, 30], "part_min": [2, 4], "part_max": [4, 8],
        "part_target": [1, 100000], "large_ndv": [1, 100000], "est_cache": [0, 1], "loop_join": [1, 1], "huge_join": [1, 1000000],
    }
    ks = [k for k in (keys or opts) if r.random() < .35]
    return {k: r.choice(opts[k]) for k in ks}


# ---------------------------------------------------------------- scenarios
def some_cols(r, n, kinds):
    cols = []
    for _ in range(n):
        t = r.choice(kinds)
        c = col(t, r.random() < .25)
        if c["c"] == "i":
            c["rng"] = r.choice([(-3, 6), (0, 4), (-40, 40), (1, 1), (0, 9)])
        if t.startswith("dec"):
            c["sc"] = int(t.split(",")[1][0])
        cols.append(c)
    return cols


BASIC = ["int8", "int16", "int32", "int64", "bool", "fp32", "fp64", "dict32(text)[0]"]


def start(r, cfg):
    return {"op": "start", "cfg": cfg, "zc": r.randint(0, 1)}


def q(node, cols, r=None, keep=None):
    c = {"op": "query", "q": node, "_cls": classes(cols)}
    if r is not None and r.random() < .2:
        c["hint"] = 1
    if keep:
        c["keep"] = keep
    return c


def filter_proj(g, node, cols, d, nproj=None):
    r = g.r
    if not (cols and cols[-1] == ROWID) and r.random() < .8:
        node = {"n": "filter", "in": node, "c": g.boolean(expose(cols), d)}
    es = []
    for _ in range(nproj or r.randint(1, 4)):
        k = r.random()
        if k < .3:
            es.append(g.ref(r.choice(expose(cols))))
        elif k < .6:
            es.append(g.boolean(expose(cols), d))
        else:
            es.append(g.num(expose(cols), d))
    return {"n": "proj", "in": node, "e": es}, [out_col(e) for e in es]


def scen_q01(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["columnar", "lazy", "direct_col", "multifrag_kernels", "hoist", "filter_fn", "in_thr",
                            "multifrag_rs", "multifrag_res"])
        cfg["null_div"] = r.randint(0, 1)
        cfg["null_mod"] = cfg["null_div"]
        g = Gen(r, cfg)
        t = Tab("t", some_cols(r, r.randint(2, 5), BASIC), r.choice([3, 5, 100]))
        s = [start(r, cfg), t.create()]
        s.append(t.append(r, r.choice([0, 1, 4, 9, 14]), r.random() < .7, r.choice([0, .2, .5])))
        for _ in range(3):
            node, cols = filter_proj(g, *scan(t, r.random() < .15), r.choice([1, 2, 3]))
            if r.random() < .25:
                node, cols = filter_proj(g, node, cols, 1)
            s.append(q(node, cols, r))
        out.append(s)
    return out



def spread(r, cols):
    """Gives some integer columns values that are far apart."""
    for c in cols:
        if c["t"] in ("int32", "int64") and r.random() < .35:
            c["pool"] = r.sample([0, 1, -1, 7, 1000, 65536, 1000000, -1000000, 900000000, -900000000], r.randint(2, 6))
            c["rng"] = (min(c["pool"]), max(c["pool"]))
    return cols


def agg_over(g, node, cols, nkeys=None, exprs=True):
    r = g.r
    ks = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]) if nkeys is None else nkeys):
        k = g.pick(expose(cols), "isb" if r.random() < .85 else "ift")
        if k is not None and k["e"] != "lit" and not (k["c"] == "s" and k.get("w") == "text"):
            ks.append(k)
    ks = [k for n, k in enumerate(ks) if k not in ks[:n]]
    ags = [{"f": "count_star"}] if r.random() < .4 or (not ks and r.random() < .2) else []
    for _ in range(r.randint(1, 4)):
        f = r.choice(["count", "sum", "min", "max", "avg", "count_distinct", "sum", "min", "max"])
        e = g.pick(expose(cols), "if")
        if f in ("count", "count_distinct") and r.random() < .4:
            e = g.pick(expose(cols), "isb") or e
        if e is None or e["e"] == "lit" or (e["c"] == "s" and e.get("w") == "text"):
            continue
        if f == "count_distinct" and e["c"] not in "isb":
            f = "max"
        if f == "count_distinct" and e["c"] == "i" and max(-e["lo"], e["hi"]) > 100000:
            f = "min"
        if f in ("sum", "avg") and e["c"] == "i" and max(-e["lo"], e["hi"]) > 20000:
            f = "max"
        if f == "avg" and e["c"] == "f" and e["e"] != "col":
            f = "sum"
        ags.append({"f": f, "a": [e]})
    if not ags:
        ags = [{"f": "count_star"}]
    out = [out_col(k) for k in ks]
    for x in ags:
        if x["f"] in ("count_star", "count", "count_distinct"):
            out.append({"c": "i", "t": "int64" if g.cfg.get("bigint_count") or x["f"] == "count_distinct" else "int32", "nn": True, "rng": (0, 60), "der": 1})
        elif x["f"] == "avg":
            out.append({"c": "f", "t": "fp64", "nn": False, "rough": 1})
        else:
            oc = out_col(x["a"][0])
            if x["f"] == "sum" and oc["c"] == "i":
                oc["t"] = "int64"
                m = max(-oc["rng"][0], oc["rng"][1]) * 40
                oc["rng"] = (-m, m)
            out.append(oc)
    return {"n": "agg", "in": node, "k": ks, "a": ags}, out


GB = ["columnar", "lazy", "direct_col", "row_init", "multifrag_kernels", "hoist", "filter_fn", "baseline_threshold", "groups_guess",
      "bigint_count", "buf_desc", "partitioned", "part_buf", "part_group", "part_min", "part_max", "part_target", "large_ndv",
      "multifrag_rs", "multifrag_res", "est_cache"]


def scen_q02(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, GB)
        g = Gen(r, cfg)
        t = Tab("t", spread(r, some_cols(r, r.randint(2, 6), BASIC)), r.choice([3, 5, 8, 100]))
        s = [start(r, cfg), t.create()]
        s.append(t.append(r, r.choice([0, 1, 5, 12, 20, 30]), r.random() < .7, r.choice([0, .2, .5])))
        for _ in range(3):
            node, cols = scan(t)
            if r.random() < .4:
                node = {"n": "filter", "in": node, "c": g.boolean(expose(cols), 1)}
            if r.random() < .5:
                node, cols = filter_proj(g, node, cols, r.choice([0, 1, 2]), r.randint(3, 6))
            node, cols = agg_over(g, node, cols)
            if r.random() < .25:
                keys = [x for x in expose(cols) if not x[3].get("rough")]
                if keys and r.random() < .5:
                    node = {"n": "filter", "in": node, "c": g.boolean(keys, 1)}
                elif keys:
                    kc = [c for c in cols if not c.get("rough")]
                    if len(kc) == len(cols) and not cfg.get("columnar"):
                        node, cols = agg_over(g, node, cols, exprs=False)
            s.append(q(node, cols, r))
        out.append(s)
    return out


def sort_over(g, node, cols, all_cols=False):
    r = g.r
    idx = [k for k, c in enumerate(cols) if c["c"] in "ifbst" and not (c["c"] == "s" and c["t"] == "text")]
    if not idx:
        return node
    r.shuffle(idx)
    if not all_cols:
        idx = idx[:r.randint(1, 3)]
    elif len(idx) < len(cols):
        return node
    fs = [{"i": k, "d": r.randint(0, 1), "nf": r.randint(0, 1), "c": cols[k]["c"]} for k in idx]
    lim = r.choice([0, 0, 1, 2, 3, 5, 50])
    return {"n": "sort", "in": node, "f": fs, "limit": lim, "offset": r.choice([0, 0, 1, 2, 4])}


def scen_q04(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["columnar", "lazy", "direct_col", "multifrag_kernels", "topn", "ptop", "baseline_threshold", "multifrag_rs",
                            "multifrag_res", "groups_guess", "buf_desc", "row_init"])
        g = Gen(r, cfg)
        t = Tab("t", spread(r, some_cols(r, r.randint(2, 5), BASIC)), r.choice([3, 5, 100]))
        s = [start(r, cfg), t.create()]
        s.append(t.append(r, r.choice([0, 1, 5, 12, 25, 40]), r.random() < .7, r.choice([0, .2, .5])))
        for _ in range(3):
            node, cols = scan(t)
            k = r.random()
            if k < .55:
                node, cols = filter_proj(g, node, cols, 1)
            else:
                node, cols = agg_over(g, node, cols)
            if r.random() < .25:
                inner = sort_over(g, node, cols, True)
                if inner is not node and not any(c.get("rough") for c in cols):
                    node = inner
                    if r.random() < .5:
                        node, cols = agg_over(g, node, cols, exprs=False)
                    else:
                        node, cols = filter_proj(g, node, cols, 1)
            node = sort_over(g, node, cols)
            s.append(q(node, cols, r))
        out.append(s)
    return out


JOINS = ["columnar", "lazy", "multifrag_kernels", "loop_join", "huge_join", "ht_cache", "recycler", "mat_inner", "reorder", "lj_hoist",
         "multifrag_rs", "multifrag_res", "hoist", "filter_fn", "direct_col"]


def join_tabs(r, k, share):
    tabs = []
    for i in range(k):
        kinds = ["int8", "int16", "int32", "int64", "int32", "fp64", "bool"]
        cols = some_cols(r, r.randint(1, 4), kinds)
        d = r.choice(["dict32(text)[0]", "dict32(text)[0]", "dict16(text)[0]", "dict8(text)[0]"])
        cols.append(col(d, r.random() < .2))
        cols.append(dict(col(r.choice(["int32", "int64", "int16"]), r.random() < .3), rng=r.choice([(0, 4), (-3, 6), (0, 30)])))
        if share and d.startswith("dict32"):
            cols[-2]["t"] = d + "@x"
        tabs.append(Tab("t%d" % i, cols, r.choice([3, 7, 100])))
    return tabs


def join_cond(g, lc, rc, simple=False):
    """lc, rc: exposed columns of both sides."""
    r = g.r
    pairs = []
    for _ in range(1 if simple else r.choice([1, 1, 1, 2])):
        for _ in range(8):
            c = r.choice("iiiis")
            a, b = g.pick(lc, c), g.pick(rc, c)
            if a is None or b is None:
                continue
            if a["w"] != b["w"] or c == "s" and "@x" not in a["w"]:
                continue
            pairs.append({"e": "eq", "a": [a, b] if r.random() < .7 else [b, a], "c": "b", "cc": c})
            break
    if not pairs:
        return None
    e = pairs[0]
    for x in pairs[1:]:
        e = {"e": "and", "a": [e, x], "c": "b"}
    if r.random() < .25 and not simple:
        e = {"e": "and", "a": [e, g.boolean(lc if r.random() < .5 else rc, 0)], "c": "b"}
    return e


def join_two(g, l, lcols, r_, rcols, jt, simple=False):
    """Columns: those of the left node, then those of the right one."""
    nl = len(lcols)
    lx = [x for x in expose(lcols, 0, 0)]
    rx = [x for x in expose(rcols, 1, nl)]
    usable = lambda xs: [x for x in xs if not x[3].get("rowid")]
    c = join_cond(g, usable(lx), usable(rx), simple)
    if c is None:
        return None, None
    node = {"n": "join", "l": l, "r": r_, "c": c, "jt": jt, "nr": len(rcols)}
    if jt in ("semi", "anti"):
        return node, lcols
    right = [dict(x, nn=False, der=1) if jt == "left" else dict(x) for x in rcols]
    return node, [dict(x) for x in lcols] + right


def scan_rid(t):
    return {"n": "scan", "t": t.name}, [dict(c) for c in t.cols]


def visible(cols):
    return [(0, k, k + 1, c) for k, c in enumerate(cols) if not c.get("rowid")]


def top_of_join(g, node, cols):
    r = g.r
    if r.random() < .5:
        node = {"n": "filter", "in": node, "c": g.boolean(visible(cols), 1)}
    es = [g.ref(x) for x in r.sample(visible(cols), min(len(visible(cols)), r.randint(1, 5)))]
    agg = r.random() < .35
    es = es + ([g.num(visible(cols), 1)] if not agg and r.random() < .3 else [])
    node, cols = {"n": "proj", "in": node, "e": es}, [out_col(e) for e in es]
    if agg:
        node, cols = agg_over(g, node, cols)
    return node, cols


def scen_q03(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, JOINS)
        g = Gen(r, cfg)
        k = r.choice([2, 2, 2, 3])
        tabs = join_tabs(r, k, r.random() < .5)
        s = [start(r, cfg)]
        for t in tabs:
            s += [t.create(), t.append(r, r.choice([0, 1, 4, 8, 14]), r.random() < .8, r.choice([0, .2]))]
        for _ in range(3):
            ts = list(tabs)
            r.shuffle(ts)
            l, lc = scan_rid(ts[0])
            ok = True
            for t in ts[1:]:
                rr, rc = scan_rid(t)
                if r.random() < .15:
                    es = [g.ref(x) for x in visible(rc)]
                    rr, rc = {"n": "proj", "in": rr, "e": es}, [out_col(e) for e in es]
                node, cols = join_two(g, l, lc, rr, rc, r.choice(["inner", "inner", "left"]), k > 2)
                if node is None:
                    ok = False
                    break
                l, lc = node, cols
            if ok:
                node, cols = top_of_join(g, l, lc)
                s.append(q(node, cols, r))
        out.append(s)
    return out


# ---------------------------------------------------------------- windows
def scen_q05(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["lazy", "multifrag_kernels", "hoist", "multifrag_rs", "multifrag_res"])
        g = Gen(r, cfg)
        t = Tab("t", some_cols(r, r.randint(2, 4), ["int16", "int32", "int64", "bool", "fp64", "dict32(text)[0]"]), 100)
        u = col("int32", True)
        u["uniq"] = 1
        t.cols.append(u)
        s = [start(r, cfg), t.create()]
        m = r.choice([1, 4, 9, 14])
        ap = t.append(r, m, True, r.choice([0, .2, .4]))
        vals = r.sample(range(-20, 40), m)
        for k in range(m):
            ap["rows"][k][-1] = vals[k]
            ap["_spec"][k][-1] = [vals[k]]
        u["rng"] = (-20, 40)
        s.append(ap)
        for _ in range(3):
            node, cols = scan(t)
            xs = expose(cols)
            es = [g.ref(x) for x in r.sample(xs, r.randint(1, len(xs)))]
            for _ in range(r.randint(1, 2)):
                w = window(g, xs)
                if w is not None:
                    es.append(w)
            node, cols = {"n": "proj", "in": node, "e": es}, [out_col(e) for e in es]
            if r.random() < .3 and not any(e.get("f") in ("lag", "lead") for e in es):
                node = sort_over(g, node, cols)
            s.append(q(node, cols, None))
        out.append(s)
    return out


def window(g, xs):
    r = g.r
    u = g.ref(xs[-1])
    part = [g.ref(x) for x in r.sample(xs[:-1], r.choice([0, 1, 1, 2]))]
    part = [p for p in part if p["c"] in "is"]
    f = r.choice(["row_number", "rank", "dense_rank", "percent_rank", "ntile", "lag", "lead", "first", "last", "sum", "min", "max", "avg", "count", "count_star"])
    keys = []
    for x in r.sample(xs[:-1], r.choice([0, 0, 1])):
        e = g.ref(x)
        if e["c"] in "ifb":
            keys.append({"k": e, "d": r.randint(0, 1), "nf": r.randint(0, 1)})
    uniq = f not in ("rank", "dense_rank", "percent_rank")
    if uniq or r.random() < .5 or not keys:
        keys.append({"k": u, "d": r.randint(0, 1), "nf": 0})
    w = {"e": "win", "f": f, "p": part, "o": keys, "c": "i", "lo": 0, "hi": 100}
    if f in ("ntile", "lag", "lead"):
        w["n"] = r.choice([1, 1, 2, 3, 5]) if f == "ntile" else r.choice([0, 1, 1, 2, 20])
    if f in ("lag", "lead", "first", "last", "sum", "min", "max", "avg", "count"):
        a = g.pick(xs, "if")
        if a is None:
            return None
        w["a"] = [a]
        if f in ("avg",):
            w["c"] = "f"
        elif f != "count":
            w["c"] = a["c"]
            if a["c"] == "i":
                w["lo"], w["hi"] = -2000, 2000
    if f == "percent_rank":
        w["c"] = "f"
    if f in ("sum", "min", "max", "avg", "count", "count_star") and part and r.random() < .3:
        w["o"] = []
    return w


# ---------------------------------------------------------------- strings
def scen_q06(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["lazy", "direct_col", "multifrag_kernels", "filter_fn", "in_thr", "columnar"])
        g = Gen(r, cfg, ["str", "strcmp"])
        kinds = ["dict32(text)[0]", "dict16(text)[0]", "dict8(text)[0]", "text", "int32"]
        t = Tab("t", some_cols(r, r.randint(2, 4), kinds), r.choice([3, 100]))
        t.cols[0] = col(r.choice(kinds[:4]), r.random() < .3)
        s = [start(r, cfg), t.create(), t.append(r, r.choice([1, 5, 12, 18]), False, r.choice([0, .2]))]
        for _ in range(3):
            node, cols = scan(t)
            xs = expose(cols)
            es = [g.ref(x) for x in r.sample(xs, r.randint(1, len(xs)))]
            for _ in range(r.randint(0, 2)):
                e = g.strpred(xs) if r.random() < .7 else None
                if e is not None and r.random() < .3:
                    e = {"e": r.choice(["and", "or"]), "a": [e, g.boolean(xs, 1)], "c": "b"}
                if e is not None:
                    es.append(e)
            if r.random() < .7:
                node = {"n": "filter", "in": node, "c": g.boolean(xs, 2) if r.random() < .3 else (g.strpred(xs) or g.boolean(xs, 1))}
            s.append(q({"n": "proj", "in": node, "e": es}, [out_col(e) for e in es], None))
        out.append(s)
    return out


# ---------------------------------------------------------------- dates
EXTRACT = ["year", "quarter", "month", "day", "doy", "dow", "isodow", "week", "week_sunday", "week_saturday", "hour", "minute", "second", "epoch"]
TRUNC = ["minute", "hour", "day", "week", "week_sunday", "week_saturday", "month", "quarter", "year", "decade"]


def time_expr(g, xs):
    r = g.r
    a = g.pick(xs, "tD")
    if a is None:
        return None
    k = r.random()
    if k < .45:
        f = r.choice(EXTRACT)
        return {"e": "extract", "f": f, "a": [a], "c": "i", "lo": -10**9, "hi": 10**9}
    if k < .7:
        return {"e": "trunc", "f": r.choice(TRUNC), "a": [a], "c": "t"}
    if k < .85:
        f = r.choice(["day", "week", "month", "quarter", "year"] + (["hour", "minute", "second"] if a["c"] == "t" else []))
        v = r.choice([0, 1, -1, 2, 7, 11, 13, -5])
        return {"e": "dateadd", "f": f, "a": [a, {"e": "lit", "t": "int64", "v": [v], "c": "i", "lo": v, "hi": v, "nn": True}], "c": "t"}
    b = g.pick([x for x in xs if x[3]["c"] == a["c"]], a["c"])
    return {"e": "datediff", "f": r.choice(["second", "minute", "hour", "day", "week", "month", "quarter", "year"]), "a": [a, b], "c": "i", "lo": -10**9, "hi": 10**9}


def scen_q07(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["lazy", "direct_col", "multifrag_kernels", "hoist", "filter_fn", "columnar"])
        g = Gen(r, cfg)
        cols = [col(r.choice(["timestamp[s]", "timestamp[s]", "date32[d]", "date16[d]"]), r.random() < .3) for _ in range(r.randint(1, 3))] + [col("int32")]
        cols[-1]["rng"] = (-3, 6)
        t = Tab("t", cols, r.choice([3, 100]))
        s = [start(r, cfg), t.create(), t.append(r, r.choice([1, 5, 12, 18]), True, r.choice([0, .2]))]
        for _ in range(3):
            node, cols = scan(t)
            xs = expose(cols)
            es = [g.ref(r.choice(xs))]
            for _ in range(r.randint(1, 3)):
                es.append(time_expr(g, xs))
            if r.random() < .4:
                e = {"e": "extract", "f": r.choice(["year", "month", "day", "dow"]), "a": [g.pick(xs, "tD")], "c": "i", "lo": 0, "hi": 3000}
                node = {"n": "filter", "in": node, "c": {"e": r.choice(["lt", "ge", "ne"]), "a": [e, {"e": "lit", "t": "int64", "v": [r.choice([3, 6, 1990])], "c": "i", "lo": 0, "hi": 3000, "nn": True}], "c": "b", "cc": "i"}}
            s.append(q({"n": "proj", "in": node, "e": es}, [out_col(e) for e in es], None))
        out.append(s)
    return out


# ---------------------------------------------------------------- results as tables
def any_query(g, node, cols):
    r = g.r
    k = r.random()
    if k < .4:
        return filter_proj(g, node, cols, 1)
    if k < .7:
        if r.random() < .4:
            node = {"n": "filter", "in": node, "c": g.boolean(expose(cols), 1)}
        return agg_over(g, node, cols)
    es = [g.ref(x) for x in expose(cols)]
    node, cols = {"n": "proj", "in": node, "e": es}, [out_col(e) for e in es]
    return sort_over(g, node, cols), cols


def scen_q08(r, n):
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["lazy", "direct_col", "multifrag_kernels", "hoist", "multifrag_rs", "multifrag_res", "bigint_count"])
        g = Gen(r, cfg)
        t = Tab("t", spread(r, some_cols(r, r.randint(2, 5), BASIC)), r.choice([3, 5, 100]))
        s = [start(r, cfg), t.create(), t.append(r, r.choice([1, 5, 12, 20]), True, r.choice([0, .2]))]
        kept = {}
        for k in range(6):
            x = r.random()
            if x < .35 or not kept:
                node, cols = any_query(g, *scan(t))
                nm = "r%d" % k
                s.append(q(node, cols, r, nm))
                if not any(c.get("rough") for c in cols):
                    kept[nm] = cols
                continue
            nm = r.choice(sorted(kept))
            if x < .5:
                s.append({"op": "read", "r": nm, "_cls": classes(kept[nm])})
            elif x < .6:
                nn = "r%d" % k
                s.append({"op": r.choice(["head", "tail"]), "r": nm, "c": r.choice([1, 2, 3, 8, 100]), "keep": nn, "_cls": classes(kept[nm])})
                kept[nn] = kept[nm]
            elif x < .9:
                node, cols = any_query(g, {"n": "res", "t": nm}, [dict(c) for c in kept[nm]])
                nn = "r%d" % k
                s.append(q(node, cols, r, nn))
                if not any(c.get("rough") for c in cols):
                    kept[nn] = cols
            elif x < .95:
                s.append({"op": "release", "r": nm})
                del kept[nm]
            else:
                s.append(t.append(r, r.choice([1, 4]), True, .2))
        out.append(s)
    return out


# ---------------------------------------------------------------- histories
def scen_q09(r, n):
    """Tables change between queries; everything the engine caches has to follow."""
    out = []
    for _ in range(n):
        cfg = small_cfg(r, ["recycler", "ht_cache", "est_cache", "lazy", "multifrag_kernels", "hoist", "multifrag_rs", "filter_fn"])
        g = Gen(r, cfg)
        tabs = join_tabs(r, 2, r.random() < .5)
        s = [start(r, cfg)]
        for t in tabs:
            s += [t.create(), t.append(r, r.choice([0, 1, 4, 8]), True, r.choice([0, .2]))]
        qs = []
        for _ in range(3):
            if r.random() < .5:
                node, cols = any_query(g, *scan(r.choice(tabs)))
            else:
                (l, lc), (rr, rc) = scan_rid(tabs[0]), scan_rid(tabs[1])
                node, cols = join_two(g, l, lc, rr, rc, r.choice(["inner", "left"]))
                if node is None:
                    continue
                node, cols = top_of_join(g, node, cols)
            qs.append((node, cols))
        if not qs:
            continue
        for _ in range(8):
            x = r.random()
            if x < .6:
                node, cols = r.choice(qs)
                s.append(q(node, cols))
            elif x < .8:
                t = r.choice(tabs)
                s.append(t.append(r, r.choice([1, 3, 6]), True, r.choice([0, .3])))
            elif x < .88:
                t = r.choice(tabs)
                s += [{"op": "drop", "t": t.name}, t.create(), t.append(r, r.choice([0, 2, 7]), True, .2)]
            elif x < .93:
                s.append({"op": "clear"})
            else:
                m = [r.choice(qs) for _ in range(r.choice([2, 4]))]
                s.append({"op": "par", "qs": [a for a, _ in m], "_cls": [classes(b) for _, b in m]})
        out.append(s)
    return out


SCEN = {"Q01": scen_q01, "Q02": scen_q02, "Q03": scen_q03, "Q04": scen_q04, "Q05": scen_q05, "Q06": scen_q06, "Q07": scen_q07, "Q08": scen_q08, "Q09": scen_q09}


def run(prop):
    c = lib.Check(prop, "conformance")
    lib.build("engine_driver")
    n = {"Q01": 90}.get(prop, 90)
    if c.thorough:
        n *= 12
    sc = SCEN[prop](c.rng("scen"), n)
    c.conform("engine_driver", "TraceRelational.tla", "TraceRelational.cfg", sc, to_event, name="engine", timeout=600)
    return c.finish()
