"""Checks of the schema catalogues (S01)."""
from lib import *

TYPES = ["INT8", "INT32[NN]", "INT64", "TEXT", "FP64", "DEC64(10,2)", "TIMESTAMP[ms]", "BOOL"]


def scenario(r, n):
    np = r.randint(1, 3)
    s = [{"op": "sch_new", "n": np}]
    tabs = {}   # (p, db) -> {t: (name, cols)}
    gone = []
    schemas = r.sample(range(0, 128), 4) if r.random() < 0.5 else [0, 1, 2, 127]
    nums = [1, 2, 3, (1 << 24) - 1, 0]
    merged = False
    share = r.random() < 0.2
    own = {p: [x for j, x in enumerate(schemas) if share or j % np == p] for p in range(np)}
    names = ["t", "T", "t1", "x y", "", "rowid", "a_rather_long_table_name"]
    cnames = ["a", "b", "A", "col", "", "x.y", "c%d"]

    def alltabs():
        return [(p, db, t) for (p, db), m in tabs.items() for t in m]

    def look():
        p = r.randint(0, np - 1) if not merged or r.random() < 0.4 else -1
        cand = alltabs()
        if cand and r.random() < 0.8:
            q, db, t = r.choice(cand)
            if p >= 0 and r.random() < 0.8:
                p = q
        elif gone and r.random() < 0.6:
            q, db, t = r.choice(gone)
        else:
            q, db, t = 0, [r.choice(schemas), r.choice(nums)], r.randint(1, 6)
        known = any(x[1] == list(db) or x[1] == db for x in cand)
        op = r.choice(["sch_dbs", "sch_tables", "sch_cols", "sch_table", "sch_table_n", "sch_col", "sch_col_n"])
        c = {"op": op, "p": p, "db": list(db), "t": t, "ref": r.randint(0, 1)}
        if op == "sch_cols":
            # defined for the tables a catalogue has
            if p >= 0:
                if t not in tabs.get((p, tuple(db)), {}):
                    return None
            else:
                if not any(t in m for (pp, d), m in tabs.items() if d == tuple(db)) or share:
                    return None
                if not all(t in tabs.get((pp, tuple(db)), {}) for pp in range(np) if db[0] in own[pp]):
                    return None
        if op == "sch_table_n":
            c["name"] = r.choice([tabs.get((q, tuple(db)), {}).get(t, ("zz",))[0], r.choice(names)])
        if op == "sch_col":
            c["id"] = r.randint(0, 7)
            c["ref"] = r.randint(0, 2)
        if op == "sch_col_n":
            cols = tabs.get((q, tuple(db)), {}).get(t, ("", []))[1]
            c["name"] = r.choice([x["name"] for x in cols] + cnames[:3] + ["rowid"])
        return c

    for _ in range(n):
        x = r.random()
        if x < 0.25 or not tabs:
            p = r.randint(0, np - 1)
            if not own[p]:
                continue
            db = (r.choice(own[p]), r.choice(nums))
            m = tabs.setdefault((p, db), {})
            t = r.choice([k for k in list(range(1, 9)) + [(1 << 24) + 1, 1 << 30] if k not in m] or [None])
            nm = r.choice([z for z in names if z not in [v[0] for v in m.values()]] or [None])
            if t is None or nm is None:
                continue
            cols = []
            ids = r.sample(range(1, 8), r.randint(1, 5))
            cn = r.sample(cnames, len(ids))
            for j, idn in enumerate(ids):
                cols.append({"id": idn, "name": cn[j].replace("%d", str(idn)), "type": r.choice(TYPES), "rowid": 0})
            rowid = r.randint(0, 1)
            rc = r.choice([k for k in range(0, 10) if k not in ids])
            every = cols + ([{"id": rc, "name": "rowid", "type": "INT64", "rowid": 1}] if rowid else [])
            m[t] = (nm, every)
            s.append({"op": "sch_add", "p": p, "db": list(db), "t": t, "name": nm, "cols": cols, "every": every, "rowid": rowid, "rowid_col": rc,
                      "view": r.randint(0, 1), "frags": r.randint(0, 5), "rows": r.randint(0, 1000)})
        elif x < 0.32 and alltabs():
            p, db, t = r.choice(alltabs())
            # before a merge a database keeps a table, so that whose schema it is stays clear
            if not merged and sum(len(m) for (pp, d), m in tabs.items() if pp == p and d[0] == db[0]) < 2:
                continue
            del tabs[(p, db)][t]
            gone.append((p, db, t))
            s.append({"op": "sch_drop", "p": p, "db": list(db), "t": t})
        elif x < 0.36:
            if any(not any(m for (pp, dd), m in tabs.items() if pp == p and dd[0] == d[0]) for (p, d) in tabs):
                continue
            ps = list(range(np))
            r.shuffle(ps)
            s.append({"op": "sch_merge", "ps": ps[:r.randint(1, np)]})
            merged = merged or not share
            if share and len(s[-1]["ps"]) == 1:
                merged = True
        else:
            c = look()
            if c:
                s.append(c)
    return s


def to_event(c, a):
    e = {k: v for k, v in c.items() if k not in ("every", "ref", "rowid_col")}
    if c["op"] == "sch_add":
        e["cols"] = c["every"]
        e.pop("rowid", None)
    e["a"] = a
    return e


def run(prop):
    ck = Check(prop, "model_checking")
    build("meta_driver")
    ck.model("CatalogueMC.tla", "CatalogueMC.cfg")
    r = ck.rng()
    sc = [scenario(r, r.choice([20, 60, 120])) for _ in range(900 if ck.thorough else 120)]
    ck.conform("meta_driver", "TraceMeta.tla", "TraceMeta.cfg", sc, to_event, "schema")
    return ck.finish()
