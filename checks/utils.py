"""Checks of the building blocks of queries: strings, dates, work division, sorts, quantiles, distinct counts, texts (U01..U07)."""
import bisect
import itertools
import math

from engine import rx_text
from lib import *

SUB = ("milli", "micro", "nano")
DIM = {"milli": 3, "micro": 6, "nano": 9}
UNITS = {"s": 0, "ms": 3, "us": 6, "ns": 9, "d": 0}
EXTRACT = ["year", "quarter", "month", "day", "hour", "minute", "second", "milli", "micro", "nano", "dow", "isodow", "doy", "epoch",
           "quarterday", "week", "week_sunday", "week_saturday", "dateepoch"]
TRUNC = ["year", "quarter", "month", "day", "hour", "minute", "second", "milli", "micro", "nano", "millennium", "century", "decade",
         "week", "week_sunday", "week_saturday", "quarterday"]
ADD = ["year", "quarter", "month", "day", "hour", "minute", "second", "millennium", "century", "decade", "milli", "micro", "nano",
       "week", "weekday", "doy"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return (29 if leap(y) else 28) if m == 2 else 30 if m in (4, 6, 9, 11) else 31


def ystart(y):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 - 719162


def day(y, m, d):
    return ystart(y) + sum(mlen(y, k) for k in range(1, m)) + d - 1


def triple(v, p):
    s, n = divmod(v, 10 ** p)
    d, s = divmod(s, 86400)
    return [d, s, n * 10 ** (9 - p)]


def untriple(t, p):
    return (t[0] * 86400 + t[1]) * 10 ** p + t[2] // 10 ** (9 - p)


class Dates:
    def __init__(self, r):
        self.r = r

    def year(self, lo, hi):
        r = self.r
        x = r.random()
        if x < 0.3:
            y = r.choice([1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2035, 2036, 2037, 2038, 2099, 2100, 2101, 2105, 2106, 2107, 1900, 1600, 1601,
                          2400, 2399, 1582, 0, 1, -1, -3, -4, -399, -400, -401, 4000, 9999, 10000, -4712, 1000, 1001, 2010, 2011, 1901, 2020, 2030])
        elif x < 0.75:
            y = r.randint(1950, 2110)
        elif x < 0.9:
            y = r.randint(1500, 2600)
        else:
            y = r.randint(lo, hi)
        return y if lo <= y <= hi else r.randint(lo, hi)

    def ymd(self, lo, hi):
        r = self.r
        y = self.year(lo, hi)
        m = r.choice([1, 2, 3, 12, r.randint(1, 12)])
        d = r.choice([1, mlen(y, m), r.randint(1, mlen(y, m)), min(4, mlen(y, m)), 28, mlen(y, m) - r.randint(0, 3)])
        return y, m, d

    def sec(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            return 0
        if x < 0.4:
            return 86399
        if x < 0.7:
            return r.choice([1, 59, 60, 3599, 3600, 21599, 21600, 43199, 43200, 64800, 86340, 82800, 46799])
        return r.randint(0, 86399)

    def nanos(self, p):
        r = self.r
        if p == 0:
            return 0
        x = r.random()
        k = 0 if x < 0.3 else 10 ** p - 1 if x < 0.45 else 1 if x < 0.55 else r.randint(0, 10 ** p - 1)
        return k * 10 ** (9 - p)

    def inst(self, p, lo=-200000, hi=200000):
        if p == 9:
            lo, hi = max(lo, 1700), min(hi, 2240)
        r = self.r
        x = r.random()
        if x < 0.1 and p == 0:
            v = r.choice([2 ** 31, 2 ** 32, 2 ** 31 - 1, 2 ** 32 - 1, -2 ** 31, -2 ** 32, 68 * 365 * 86400, 1_000_000_000]) + r.choice([0, 1, -1, 86400, -86400, 3600])
            t = triple(v, 0)
            if lo <= 1970 + t[0] / 365.2 <= hi:
                return t
        return [day(*self.ymd(lo, hi)), self.sec(), self.nanos(p)]

    def near(self, t, p):
        """Another instant, often in the same or the next unit."""
        r = self.r
        x = r.random()
        lim = (1700, 2240) if p == 9 else (-1900, 3800)
        if x < 0.3:
            u = self.inst(p, *lim)
        elif x < 0.5:
            u = [t[0] + r.choice([0, 1, -1, 7, -7, 28, 29, 30, 31, 365, 366, -365, -366, 1461]), self.sec(), self.nanos(p)]
        elif x < 0.65:
            u = [t[0], self.sec(), self.nanos(p)]
        else:
            y = 1970 + int(t[0] // 365.2425)
            while ystart(y) > t[0]:
                y -= 1
            while ystart(y + 1) <= t[0]:
                y += 1
            m, dd = 1, t[0] - ystart(y) + 1
            while dd > mlen(y, m):
                dd -= mlen(y, m)
                m += 1
            q = y * 12 + m - 1 + r.choice([0, 1, -1, 12, -12, 3, -3, 24, 13, 120, -120, 1200, 11])
            y, m = q // 12, q % 12 + 1
            if not lim[0] <= y <= lim[1]:
                return self.inst(p, *lim)
            dd = max(1, min(mlen(y, m), dd + r.choice([0, 0, 0, 1, -1])))
            u = [day(y, m, dd), t[1] if r.random() < 0.6 else self.sec(), t[2] - t[2] % 10 ** (9 - p) if r.random() < 0.6 else self.nanos(p)]
        if p == 9 and not -98000 < u[0] < 98000:
            return self.inst(9)
        return u

    def scenario(self, k):
        r = self.r
        x = r.random()
        n = 25
        if x < 0.25:
            f = EXTRACT[k % len(EXTRACT)]
            p = DIM.get(f, 0)
            c = {"op": "ext", "f": f, "vs": [self.inst(p) for _ in range(n)], "_p": p}
        elif x < 0.45:
            c = {"op": "trunc", "f": TRUNC[k % len(TRUNC)], "vs": [self.inst(0) for _ in range(n)], "_p": 0}
        elif x < 0.7:
            f = ADD[k % len(ADD)]
            p = r.choice([0, 0, 3, 6, 9])
            big = {"millennium": 3, "century": 20, "decade": 200, "year": 2000, "quarter": 8000, "month": 24000, "week": 10 ** 5, "day": 10 ** 6,
                   "weekday": 10 ** 6, "doy": 10 ** 6, "hour": 10 ** 7}.get(f, 2 * 10 ** 9)
            if p == 9:
                big = {"millennium": 0, "century": 0, "decade": 2, "year": 20, "quarter": 90, "month": 250, "week": 1000, "day": 7000, "weekday": 7000,
                       "doy": 7000, "hour": 10 ** 5, "minute": 10 ** 6, "second": 10 ** 8}.get(f, 2 * 10 ** 9)
            m = r.choice([0, 1, -1, 2, -3, 12, -12, 13, 48, r.randint(-big, big), r.randint(-big, big)])
            m = max(-big, min(big, m))
            c = {"op": "add", "f": f, "n": m, "p": p, "vs": [self.inst(p, -2500, 3500) for _ in range(n)], "_p": p}
        elif x < 0.9:
            f = TRUNC[k % len(TRUNC)]
            p, q = r.choice([(0, 0), (0, 0), (3, 3), (6, 6), (9, 9), (0, 3), (3, 0), (0, 9), (9, 6), (6, 3), (3, 9)])
            vs = []
            for _ in range(n):
                m = max(p, q)
                lo, hi = (1850, 2100) if m == 9 or f == "nano" else (-1900, 3800)
                a = self.inst(p, lo, hi)
                b = self.near(a, q)
                if abs((b[0] - a[0]) * 86400 * 10 ** max(m, DIM.get(f, 0))) > 9e18 or abs(a[0]) > 699000 or abs(b[0]) > 699000:
                    b = [a[0], self.sec(), self.nanos(q)]
                vs.append([a, b])
            c = {"op": "diff", "f": f, "p": p, "q": q, "vs": vs}
        elif x < 0.95:
            p = r.choice([0, 3, 6, 9])
            c = {"op": "todate", "p": p, "vs": [self.inst(p) for _ in range(n)], "_p": p}
        else:
            p, q = r.choice([(a, b) for a in (0, 3, 6, 9) for b in (0, 3, 6, 9)])
            c = {"op": "totime", "p": p, "q": q, "vs": [self.inst(p, *((1700, 2240) if q == 9 else (-200000, 200000))) for _ in range(n)], "_p": p}
        return [c]

    # ------------------------------------------------------------ text
    def written(self, t, p):
        r = self.r
        lo, hi = (1700, 2240) if p == 9 else (1000, 9999)
        y, m, d = self.ymd(lo, hi)
        df = r.choice([1, 1, 1, 2, 3, 4, 5, 6])
        if df in (2, 5):
            y = r.choice([1969, 2068, 2000, 1999, 2005, r.randint(1969, 2068)])
            d = min(d, mlen(y, m))
        tf = 0 if t == "date" else r.choice([1, 2, 2, 2, 3, 4, 5, 6, 7])
        zf = r.choice([0, 0, 1, 2])
        # a time of day without fraction and zone "+HHMM" directly after HHMMSS stays readable
        fl = r.choice([0, 0, 1, 3, 6, 9, r.randint(1, 9)])
        n = r.choice([0, 10 ** fl - 1, r.randint(0, 10 ** fl - 1), 5 * 10 ** max(0, fl - 1) if fl else 0]) * 10 ** (9 - fl) if fl else 0
        return {"df": df, "tf": tf, "zf": zf, "y": y, "m": m, "d": d, "s": self.sec(), "n": n, "fl": fl, "pad": r.random() < 0.7, "full": r.random() < 0.5,
                "how": r.choice(["lo", "up", "cap"]), "dots": r.random() < 0.3, "z": r.choice([0, 60, -60, 330, -570, 839, -839, r.randint(-840, 840)]),
                "t": r.random() < 0.1, "sep": r.choice([32, 84, 58])}

    def parse(self):
        r = self.r
        t = r.choice(["date", "time", "ts", "ts"])
        u = r.choice(list(UNITS) if t == "date" else ["s", "ms", "us", "ns"])
        p = UNITS[u]
        ss, ws = [], []
        for _ in range(25):
            x = r.random()
            if x < 0.8:
                w = self.written(t, p)
                ss.append(written_text(t, w))
                ws.append({"kind": "ok", "r": w})
            elif x < 0.88 and t != "time":
                v = r.choice([0, 1, -1, 12345, 2 ** 31 - 1, r.randint(-10 ** 9, 10 ** 9)])
                ss.append(s2c(str(v) + r.choice(["", ".", ".5", ".000"])))
                ws.append({"kind": "raw", "v": v})
            else:
                bad = {"date": ["", "x", "2001-13-01", "2001-00-10", "2001-02-32", "2001-02", "2001", "2001-jan-x", "1-foo-01", "-", "2001-", "2001/1", "1/2/", "12:"],
                       "time": ["", "x", "24:00:00", "10:60:00", "10:10:62", "10:10:10.", "10:10:10x", "10:10x", "13 pm", "25", "99", "10:10:10 xm", "10:", ":10", "0 am x", "10:10:10+1", "1234"],
                       "ts": ["", "x", "2001-01-01", "2001-13-01 10:10:10", "2001-02-32 00:00:00", "1-foo-01 10:10", "-", "2001-02", "2001-00-01 00:00"]}[t]
                s = r.choice(bad)
                if t != "time" and s in ("2001", "12:"):
                    s = "2001-"
                ss.append(s2c(s))
                ws.append({"kind": "bad"})
        return [{"op": "parse", "t": t, "u": u, "ss": ss, "_ws": ws, "_p": p}]

    def fmt(self):
        r = self.r
        t = r.choice(["str", "strdate", "strtime", "date", "hms", "ts"])
        u = r.choice(["s", "ms", "us", "ns"]) if t in ("str", "ts") else "s"
        p = UNITS[u]
        vs = [self.inst(p, 1000, 9999) for _ in range(25)]
        if t == "hms":
            vs = [[0, self.sec(), 0] for _ in vs]
        return [{"op": "fmt", "t": t, "u": u, "max": r.choice([64, 64, 64, 30, 9, 10, 11, 19, 20, 23, 24, 27, 8]), "vs": vs, "_p": p}]


MN = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"]


def written_text(t, w):
    """The text of the record (the specification writes it anew and insists on equality)."""
    def n2(n):
        return "%02d" % n if w["pad"] else str(n)

    def cased(s):
        return s.upper() if w["how"] == "up" else s.capitalize() if w["how"] == "cap" else s
    mon = cased(MN[w["m"] - 1] if w["full"] else MN[w["m"] - 1][:3])
    y, m, d, s = w["y"], w["m"], w["d"], w["s"]
    D = {1: lambda: "%d-%s-%s" % (y, n2(m), n2(d)), 2: lambda: "%s/%s/%s" % (n2(m), n2(d), n2(y % 100)), 3: lambda: "%s/%s/%d" % (n2(m), n2(d), y),
         4: lambda: "%d/%s/%s" % (y, n2(m), n2(d)), 5: lambda: "%s-%s-%s" % (n2(d), mon, n2(y % 100)), 6: lambda: "%s/%s/%d" % (n2(d), mon, y)}[w["df"]]()
    h, mi, se = s // 3600, s % 3600 // 60, s % 60
    h12 = h % 12 or 12
    ap = cased(("p" if s >= 43200 else "a") + (".m." if w["dots"] else "m"))
    fr = "." + "%0*d" % (w["fl"], w["n"] // 10 ** (9 - w["fl"])) if w["fl"] else ""
    T = {0: "", 1: "%s:%02d:%02d%s %s" % (n2(h12), mi, se, fr, ap), 2: "%s:%02d:%02d%s" % (n2(h), mi, se, fr), 3: "%s:%02d %s" % (n2(h12), mi, ap),
         4: "%s:%02d" % (n2(h), mi), 5: "%02d%02d%02d%s" % (h, mi, se, fr), 6: "%s . %02d . %02d%s %s" % (n2(h12), mi, se, fr, ap), 7: "%s %s" % (n2(h12), ap)}[w["tf"]]
    z = "" if not w["zf"] else ("-" if w["z"] < 0 else "+") + "%02d" % (abs(w["z"]) // 60) + (":" if w["zf"] == 2 else "") + "%02d" % (abs(w["z"]) % 60)
    pre = "T" if w["t"] else ""
    return s2c({"date": D + z, "time": pre + T + z, "ts": pre + D + chr(w["sep"]) + T + z}[t])


# ------------------------------------------------------------------ strings
class Texts:
    def __init__(self, r):
        self.r = r

    def word(self, alpha, mx):
        return "".join(self.r.choice(alpha) for _ in range(self.r.choice([0, 1, 2, 3, mx, self.r.randint(0, mx)])))

    def like(self):
        r = self.r
        fn = r.choice(["like", "like", "like", "ilike", "ilike", "simple", "isimple"])
        esc = r.choice("\\\\!a#")
        alpha = r.choice(["ab", "abAB", "ab%_", "aZz[", "abc]-^.", "äb", "a!\\"])
        p = ""
        if fn in ("like", "ilike"):
            for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8])):
                x = r.random()
                if x < 0.25:
                    p += "%" if esc != "%" else "_"
                elif x < 0.4:
                    p += "_"
                elif x < 0.5:
                    p += esc + r.choice(alpha + "%_[" + esc)
                elif x < 0.6:
                    p += "[" + "".join(r.choice("abzZ%_^-") for _ in range(r.randint(1, 3))).replace(esc, "b") + "]"
                else:
                    c = r.choice(alpha)
                    p += c if c not in "[" + esc else "b"
        else:
            p = self.word(alpha, 4)
        if fn in ("ilike", "isimple"):
            p = p.lower()
            esc = esc.lower()
        pb = list(p.encode("latin-1"))
        ss = []
        for _ in range(20):
            x = r.random()
            if x < 0.5:
                s = self.word(alpha, 6)
            else:    # something like the pattern
                s = ""
                k = 0
                while k < len(p):
                    c = p[k]
                    if c == esc and k + 1 < len(p) and fn in ("like", "ilike"):
                        k += 1
                        s += p[k]
                    elif c == "%" and fn in ("like", "ilike"):
                        s += self.word(alpha, 3)
                    elif c == "_" and fn in ("like", "ilike"):
                        s += r.choice(alpha)
                    elif c == "[" and fn in ("like", "ilike"):
                        e = p.index("]", k)
                        s += r.choice(p[k + 1:e])
                        k = e
                    else:
                        s += c
                    k += 1
                if r.random() < 0.4 and s:
                    j = r.randrange(len(s))
                    s = s[:j] + r.choice(["", r.choice(alpha), r.choice(alpha) + s[j]]) + s[j + 1:]
                if fn in ("simple", "isimple"):
                    s = self.word(alpha, 3) + s + self.word(alpha, 3)
            if fn in ("ilike", "isimple") and r.random() < 0.5:
                s = "".join(c.upper() if r.random() < 0.5 and ord(c) < 128 else c for c in s)
            ss.append(list(s.encode("latin-1")))
        return [{"op": "like", "fn": fn, "p": pb, "esc": ord(esc), "ss": ss}]

    def regex(self, d):
        r = self.r
        if d == 0:
            k = r.choice(["chr", "chr", "any", "cls"])
            if k == "chr":
                return {"x": "chr", "c": ord(r.choice("abxz"))}
            if k == "any":
                return {"x": "any"}
            return {"x": "cls", "neg": r.random() < .3, "cs": [ord(c) for c in r.sample("abcxyz", 2)]}
        k = r.choice(["seq", "seq", "alt", "star", "plus", "opt"])
        if k in ("seq", "alt"):
            return {"x": k, "a": self.regex(d - 1), "b": self.regex(d - 1)}
        return {"x": k, "a": self.regex(d - 1)}

    def regexp(self):
        r = self.r
        t = self.regex(r.choice([0, 1, 2, 3, 3]))
        ss = [s2c(self.word("abcxz", 6)) for _ in range(15)]
        return [{"op": "like", "fn": "regexp", "p": s2c(rx_text(t)), "esc": 92, "ss": ss, "_tree": t}]

    def cmp(self):
        r = self.r
        ps = []
        for _ in range(20):
            a = [r.choice([97, 98, 65, 255, 1, 127, 128, 200]) for _ in range(r.randint(0, 5))]
            x = r.random()
            b = list(a) if x < 0.2 else a[:r.randint(0, len(a))] + [r.choice([97, 98, 255, 128]) for _ in range(r.randint(0, 3))] if x < 0.7 else [r.choice([97, 255, 128, 1]) for _ in range(r.randint(0, 5))]
            ps.append([a, b] if r.random() < 0.5 else [b, a])
        return [{"op": "cmp", "ss": ps}]

    def texts(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            al = r.choice(["ab,", "a b\t\n", "aab", "a  ", ",,;a"])
            d = r.choice(["", "", ",", "a", "ab", "aa", ",,", "  "])
            mx = r.choice([-1, -1, 0, 1, 2, 3]) if d else r.choice([-1, -1, 1, 2, 3])
            return [{"op": "split", "s": s2c(self.word(al, 12)), "d": s2c(d), "max": mx}]
        if x < 0.32:
            return [{"op": "join", "ss": [s2c(self.word("ab,", 4)) for _ in range(r.randint(0, 4))], "d": s2c(r.choice(["", ",", ", "]))}]
        fn = r.choice(["strip", "upper", "lower", "sanitize", "unnl", "unnl", "quoted", "substr", "hide", "hide", "lits", "lits", "lits", "b64", "b64", "shim", "shim", "shim"])
        c = {"op": "text", "fn": fn}
        if fn == "strip":
            s = s2c(self.word(" \t\n\v\f\rab", 8))
        elif fn in ("upper", "lower"):
            s = s2c(self.word("aZz@[`{Am9_", 8))
        elif fn == "sanitize":
            s = [r.choice([0 + 1, 9, 10, 31, 32, 33, 65, 127]) for _ in range(r.randint(0, 10))]
        elif fn == "unnl":
            s = s2c(self.word("a\n\t\r'\"\\ ", 14))
        elif fn == "quoted":
            s = s2c(self.word("a\"\\'b", 8))
        elif fn == "substr":
            s = s2c(self.word("abc", 8))
            c["n"] = r.randint(0, 10)
        elif fn == "b64":
            s = [r.choice([0, 1, 255, 128, 62, 63, r.randint(0, 255)]) for _ in range(r.randint(0, 14))]
            while s and s[-1] == 0:
                s.pop()
        elif fn == "hide":
            ps = []
            for _ in range(r.randint(1, 4)):
                y = r.random()
                if y < 0.6:
                    key = r.choice(["password", "s3_access_key", "s3_secret_key", "s3_session_token", "username", "credential_string"])
                    key = r.choice([key, key.upper(), key.capitalize()])
                    key += r.choice(["", " "]) + "=" + r.choice(["", " ", "  "])
                    ps.append([key + "'" + (self.word("abS=x ", 6) or "q") + "'", key + "'XXXXXXXX'", 0])
                elif y < 0.75:
                    w = "\\set_license" + r.choice([" ", "  ", "\t"])
                    ps.append([w + (self.word("abc'=", 6) or "k"), w + "XXXXXXXX", 0])
                else:
                    t = r.choice(["select 'a'", "name = 'bob'", "my_password = 'x'", "passwords = 'x'", "password 'x'", "password = x", "usernames='x'", "x = 1"])
                    ps.append([t, t, 0])
                ps.append([" ; ", " ; ", 0])
            c["_ps"] = [[s2c(a), s2c(b), k] for a, b, k in ps]
            s = s2c("".join(p[0] for p in ps))
        elif fn == "shim":
            ps = [["select a", "select a", 0]]
            for _ in range(r.randint(1, 4)):
                y = r.random()
                u = r.choice(["DAY", "month", "Year"])
                a, b = r.choice([(" unnest(x)", " PG_UNNEST(x)"), (",UNNEST (x)", ",PG_UNNEST(x)"), (", CAST( 't' AS boolean)", ", true"), (", cast('f' as Boolean )", ", false"),
                                 (", datediff(%s, x)" % u, ", DATEdiff('%s', x)" % u), (", DATEADD( %s ,x)" % u, ", DATEADD('%s',x)" % u),
                                 (", DATEPART(%s, x)" % u, ", DATEPART('%s', x)" % u),
                                 (", date_trunc (%s, x)" % u, ", PG_DATE_TRUNC('%s', x)" % u), (", TIMESTAMPADD(%s, x)" % u, ", DATEADD('%s', x)" % u),
                                 (", timestampdiff( '%s', x)" % u, ", DATEdiff('%s', x)" % u), (", corr (x, y)", ", CORRELATION(x, y)"), ("(Corr(x, y))", "(CORRELATION(x, y))"),
                                 (", TIMESTAMP(3) '2001'", ", CAST('2001' AS TIMESTAMP(3))"), (", CAST('2001' AS TIMESTAMP(9))", ", nsTIMESTAMP('2001')"),
                                 (", CAST( '2001' AS TIMESTAMP(6) )", ", usTIMESTAMP('2001')"), (", x > ALL y", ", x > PG_ALL(y)"), (", x = any y", ", x = PG_ANY(y)"),
                                 (" b ilike 'a%'", " PG_ILIKE(b, 'a%')"), (" b ILIKE 'a%' escape '#'", " PG_ILIKE(b, 'a%', '#')"), (" b regexp 'a''+'", " REGEXP_LIKE(b, 'a''+')")])
                ps.append([a, b, 0])
                if y < 0.6:
                    lit = r.choice(["''", "' unnest(x) '", "'x, corr (y)'", "', datediff(day, x)'", "'o''clock unnest (y)'", "' unnest('", "'it''s = any x '", "'q'", "',corr( corr( '"])
                    ps.append([" = " + lit, " = " + lit, 0])
                ps.append([" + z", " + z", 0])
            c["_ps"] = [[s2c(a), s2c(b), k] for a, b, k in ps]
            s = s2c("".join(p[0] for p in ps))
        else:    # lits: text and literals in turn
            ps = []
            for _ in range(r.randint(0, 4)):
                t = self.word("ab =,(", 4) or "x"
                ps.append([t, t, 0])
                lit = "'" + "".join(r.choice(["a", "''", " ", "=", "b"]) for _ in range(r.choice([0, 1, 2, 3]))) + "'"
                ps.append([lit, lit, 1])
            if r.random() < 0.7:
                ps.append(["xy", "xy", 0])
            c["_ps"] = [[s2c(a), s2c(b), k] for a, b, k in ps]
            s = s2c("".join(p[0] for p in ps))
        c["s"] = s
        return [c]

    # ---------------------------------------------------------- work division and sorts
    def ivl(self):
        r = self.r
        t = r.choice(["i8", "u8", "i16", "i32", "u32", "i64", "u64"])
        w = int(t[1:])
        lo, hi = (0, 2 ** w - 1) if t[0] == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        size = r.choice([0, 1, 2, 3, 7, 10, 100, r.randint(0, 300), 2 ** 15 - 1, 2 ** 31 - 2])
        a = r.choice([lo, 0, hi - size, hi - size - 1, r.randint(lo, hi)])
        a = max(lo, min(a, hi))
        b = min(hi, a + size)
        if r.random() < 0.05:
            a, b = b, a
        n = r.choice([1, 2, 3, 4, 7, 8, 16, 63, 100, 255, 256, 257, 300, 70000, 2 ** 33]) if r.random() < 0.7 else r.randint(1, 40)
        if b - a > 1000 and n > 1000:
            n = r.randint(1, 300)
        return [{"op": "ivl", "t": t, "A": a, "B": b, "n": n, "_w": w}]

    def sort(self, big):
        r = self.r
        alg = r.choice(["par", "parp", "ins", "dbl"])
        t = r.choice(["i16", "i32", "i64"])
        n = r.choice([0, 1, 2, 3, 10, 31, 32, 33, 100]) if not big else r.choice([1000, 2049, 5000, 20000])
        if alg == "ins":
            n = min(n, 300)
        hi = r.choice([1, 5, 100, 30000])
        ks = [r.randint(-hi, hi) for _ in range(n)]
        y = r.random()
        if y < 0.2:
            ks.sort()
        elif y < 0.4:
            ks.sort(reverse=True)
        elif y < 0.5:
            ks = ks[:1] * n
        return [{"op": "sort", "alg": alg, "t": t, "ks": ks, "desc": r.randint(0, 1)}]

    # ---------------------------------------------------------- aggregates
    def quant(self):
        r = self.r
        vt = r.choice(["i8", "i16", "i32", "i64", "f32", "f64"])
        rt = r.choice([vt, "f64", "f64"] if vt[0] == "i" else [vt, "f64"])
        hi = {"i8": 60, "i16": 16000}.get(vt, 20000)
        k = r.choice([1, 1, 2, 3, 4])
        mode = r.choice([2, hi])

        def val():
            v = r.randint(-mode, mode)
            return v if vt[0] == "i" or r.random() < 0.3 else v + r.randint(0, 15) / 16
        parts = [[val() for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 17, 33]))] for _ in range(k)]
        left = list(range(k))
        merges = []
        chain = False
        r.shuffle(left)
        while len(left) > 1:
            b = left.pop(r.randrange(len(left)))
            if b == 0:
                b, left = left[-1], left[:-1] + [0]
            a = r.choice(left)
            if any(m[0] == b for m in merges):
                chain = True
            merges.append([a, b])
        return [{"op": "quant", "vt": vt, "rt": rt, "parts": [[float(v) for v in p] for p in parts], "merges": merges, "q": r.randint(0, 16) / 16,
                 "interp": r.choice(["lower", "higher", "nearest", "midpoint", "linear"]), "peek": r.randint(0, 1) if not chain else 0, "_chain": chain}]

    def tdig(self):
        r = self.r
        q0 = r.choice([0.5, 0.25, 0.75, 0.125, 0.9375])
        k = r.choice([1, 1, 2, 3, 5])
        mode = r.choice(["uni", "uni", "exp", "dup", "sorted", "rev"])
        parts = []
        for _ in range(k):
            n = r.choice([1, 2, 5, 50, 300, 1000, 3000])
            v = [r.uniform(-1000, 1000) if mode != "exp" else 2.0 ** r.uniform(-20, 20) for _ in range(n)]
            if mode == "dup":
                v = [float(round(x / 200)) for x in v]
            if mode == "sorted":
                v.sort()
            if mode == "rev":
                v.sort(reverse=True)
            parts.append(v)
        qs = [0, 1024] + [r.randint(0, 1024) for _ in range(6)] + [int(q0 * 1024)]
        qs.sort()
        buf, cen = r.choice([(1000, 300), (100, 100), (300, 300), (200, 137)])
        return [{"op": "tdig", "q0": q0, "buf": buf, "cen": cen, "parts": parts, "qs": [x / 1024 for x in qs], "_qs": qs, "_cen": cen}]

    def hll(self):
        r = self.r
        bits = r.choice([4, 6, 8, 8, 10, 11, 12])
        m = 1 << bits
        k = r.choice([1, 2, 3, 4])
        pool = []
        parts, sets = [], []
        for _ in range(k):
            n = r.choice([0, 1, 5, 50, 500, 3000, 10 * m if bits <= 10 else 2 * m])
            hs = [r.getrandbits(64) for _ in range(n)] + (r.sample(pool, min(len(pool), n // 2)) if pool else [])
            pool += hs
            sets.append(set(hs))
            best = {}
            for h in hs:
                i = h >> (64 - bits)
                rest = (h << bits) & (2 ** 64 - 1)
                lz = 64 - rest.bit_length()
                rk = min(lz, 64 - bits) + 1
                best.setdefault(i, []).append(rk)
            parts.append([[i, rk] for i, l in best.items() for rk in ([max(l)] + l[:2])])
        return [{"op": "hll", "bits": bits, "gpu": r.randint(0, 1), "parts": parts, "_sets": sets}]

    def rank(self):
        r = self.r
        b = r.choice([4, 10, 11, 12, 16, 48, 50, 53, 54, 60])
        vs = [r.getrandbits(64) >> r.randint(0, 63) if r.random() < 0.9 else 0 for _ in range(30)]
        return [{"op": "rank", "b": b, "vs": vs}]

    def cds(self):
        r = self.r
        bits = r.choice([1, 7, 8, 9, 63, 64, 65, 100, 127, 128, 200, 1000])
        hash_ = r.randint(0, 1)
        gpu = 0 if hash_ else r.randint(0, 1)
        sub = r.choice([1, 2, 4, 8]) if gpu else 1
        parts = [[[r.randint(0, 7), r.choice([0, bits - 1, r.randint(0, bits - 1)])] for _ in range(r.choice([0, 1, 2, 5, 20, 60]))] for _ in range(r.choice([1, 2, 3, 5]))]
        return [{"op": "cds", "bits": bits, "sub": sub, "hash": hash_, "gpu": gpu, "before": r.randint(0, 1), "parts": parts}]


def to_driver(c):
    """Commands carry instants as triples; the driver wants numbers."""
    op = c["op"]
    if op in ("ext", "trunc", "add", "todate", "totime", "fmt"):
        return dict(c, _vs=c["vs"], vs=[untriple(v, c["_p"]) for v in c["vs"]])
    if op == "diff":
        return dict(c, _vs=c["vs"], vs=[[untriple(a, c["p"]), untriple(b, c["q"])] for a, b in c["vs"]])
    return c


def to_event(c, a):
    e = {k: v for k, v in c.items() if k[0] != "_"}
    a = dict(a)
    a.pop("m", None)
    op = c["op"]
    e["a"] = a
    if a["k"] != "ok":
        return {"op": op, "a": a}
    if "_vs" in c:
        e["vs"] = c["_vs"]
    if op == "like" and "_tree" in c:
        e["tree"] = c["_tree"]
    if op == "ext":
        f = c["f"]
        if f in SUB:
            a["r"] = [[x // 10 ** DIM[f], x % 10 ** DIM[f] * 10 ** (9 - DIM[f])] for x in a["r"]]
        elif f in ("epoch", "dateepoch"):
            a["r"] = [triple(x, 0) for x in a["r"]]
    if op in ("trunc", "add"):
        a["r"] = [triple(x, c["_p"]) for x in a["r"]]
    if op == "todate":
        a["r"] = [triple(x, 0) for x in a["r"]]
    if op == "totime":
        a["r"] = [triple(x, c["q"]) for x in a["r"]]
    if op == "diff" and (c["f"] in SUB or c["f"] == "second"):
        d = DIM.get(c["f"], 0)
        a["r"] = [[(x > 0) - (x < 0)] + triple(abs(x), d) for x in a["r"]]
    if op == "parse":
        e["ws"] = c["_ws"]
        e["p"] = c["_p"]
        a["r"] = [[] if not x else [x[0]] if w["kind"] == "raw" and abs(x[0]) < 2 ** 31 else [triple(x[0], c["_p"])] for x, w in zip(a["r"], c["_ws"])]
        for x, w in zip(a["r"], c["_ws"]):
            if w["kind"] == "raw" and x and isinstance(x[0], list):
                x[0] = 2 ** 31 - 7
    if op == "fmt":
        e["p"] = c["_p"]
    if op == "ivl":
        sz = max(0, c["B"] - c["A"])
        cap = min(c["n"], 2 ** c["_w"] - 1)
        lim = 2 ** 31 - 1

        def rel(x):
            y = x - c["A"]
            return y if -lim < y < lim else -lim
        a["r"] = [[rel(x[0]), rel(x[1]), x[2] if x[2] < lim else lim, x[3] if x[3] < lim else lim] for x in a["r"]]
        e = {"op": op, "size": sz, "n": min(cap, lim), "a": a}
    if op == "quant":
        def sc(x):
            if not x or isinstance(x[0], str):
                return x and [7777777]
            y = x[0] * 256
            return [int(y)] if y == int(y) and abs(y) < 2 ** 31 else [7777777]
        a["cur"], a["fin"], a["mid"] = sc(a["cur"]), sc(a["fin"]), [sc(x) for x in a["mid"]]
        e = {"op": op, "parts": [[int(v * 16) for v in p] for p in c["parts"]], "merges": c["merges"], "qn": int(c["q"] * 16), "interp": c["interp"],
             "isint": c["rt"][0] == "i", "chain": c["_chain"], "a": a}
    if op == "tdig":
        vs = sorted(v for p in c["parts"] for v in p)
        r = [float("nan") if isinstance(x, str) else x for x in a["r"]]
        a = {"k": "ok", "w": a["w"], "lo": [bisect.bisect_left(vs, x) for x in r], "hi": [bisect.bisect_right(vs, x) for x in r],
             "inside": [int(vs[0] <= x <= vs[-1]) for x in r], "mono": [int(x <= y) for x, y in zip(r, r[1:])],
             "own": int(not isinstance(a["own"], str) and a["own"] == r[c["_qs"].index(int(c["q0"] * 1024))])}
        e = {"op": op, "n": len(vs), "qs": c["_qs"], "tol": TOL(c["_cen"]), "a": a}
    if op == "hll":
        m = 1 << c["bits"]
        small = m <= 256
        want = [[] for _ in range(m)] if small else []
        if small:
            for p in c["parts"]:
                for i, rk in p:
                    want[i].append(rk)
        u = set().union(*c["_sets"])
        e = {"op": op, "small": int(small), "want": want, "ns": [len(s) for s in c["_sets"]], "nu": len(u), "pm": int(1040 / math.sqrt(m) * 5) + 30, "a": a}
    if op == "rank":
        e = {"op": op, "b": c["b"], "vs": [0] * len(c["vs"]), "lz": [64 - v.bit_length() for v in c["vs"]], "a": a}
    if op == "text" and "_ps" in c:
        e["ps"] = c["_ps"]
    return e


def TOL(cen):
    """Rank tolerance in 1024ths."""
    return 1024 * 8 // cen + 8


def start(cmds):
    return [{"op": "start"}] + [to_driver(c) for c in cmds]


def small_likes():
    """Every short pattern against every short string."""
    out = []
    strs = ["".join(p) for n in range(5) for p in itertools.product("ab", repeat=n)]
    for n in range(0, 5):
        for p in itertools.product("ab%_", repeat=n):
            for fn in ("like", "ilike"):
                out.append([{"op": "like", "fn": fn, "p": s2c("".join(p)), "esc": 92, "ss": [s2c(s) for s in strs]}])
    for n in range(0, 4):
        for p in itertools.product("ab", repeat=n):
            for fn in ("simple", "isimple"):
                out.append([{"op": "like", "fn": fn, "p": s2c("".join(p)), "esc": 92, "ss": [s2c(s) for s in strs]}])
    return out


def run(prop):
    ck = Check(prop, "state-space")
    build("util_driver")
    r = ck.rng("util")
    d, t = Dates(r), Texts(r)
    k = 30 if ck.thorough else 4
    S = []
    if prop == "U01":
        S = small_likes()
        S += [t.like() for _ in range(700 * k)] + [t.regexp() for _ in range(250 * k)] + [t.cmp() for _ in range(150 * k)]
    if prop in ("U02", "U03"):
        ck.model("CalendarMC.tla", "CalendarMC3.cfg" if ck.thorough else "CalendarMC.cfg")
    if prop == "U02":
        S = [d.scenario(i) for i in range(1200 * k)]
    if prop == "U03":
        S = [d.parse() for _ in range(700 * k)] + [d.fmt() for _ in range(300 * k)]
    if prop == "U04":
        for a, b, n in itertools.product(range(-6, 6), range(-6, 6), range(1, 8)):
            S.append([{"op": "ivl", "t": "i8", "A": a, "B": b, "n": n, "_w": 8}])
        S += [t.ivl() for _ in range(500 * k)] + [t.sort(False) for _ in range(300 * k)] + [t.sort(True) for _ in range(12 * k)]
    if prop == "U05":
        S = [t.quant() for _ in range(1200 * k)] + [t.tdig() for _ in range(150 * k)]
    if prop == "U06":
        S = [t.hll() for _ in range(120 * k)] + [t.rank() for _ in range(40)] + [t.cds() for _ in range(500 * k)] + [[{"op": "hllsize"}]]
    if prop == "U07":
        S = [t.texts() for _ in range(2500 * k)]
    ck.conform("util_driver", "TraceUtil.tla", "TraceUtil.cfg", [start(s) for s in S], to_event, "util")
    return ck.finish()
