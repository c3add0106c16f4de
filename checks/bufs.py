"""Checks of the buffer pools (B01..B07)."""
import random

from lib import *

START = {"op": "start", "page": 8, "min": 1, "max": 4, "pool": 8, "levels": 1, "pool2": 0, "tier": 0}


class Gen:
    """Random users of a pool.  Handles are used only while they are pinned by their user, as the interface demands."""

    def __init__(self, r, two=False, tier=False, fails=False, sfails=False, zc=False, page=None, small=False):
        self.r = r
        self.page = page or r.choice([1, 4, 8, 16])
        mx = r.choice([2, 3, 4, 6])
        self.max = mx
        pool = r.choice([mx, mx + 1, 2 * mx, 2 * mx + 1, 3 * mx])
        if small:
            pool = r.choice([mx, mx + 1, 2 * mx - 1 if mx > 1 else mx])
        self.cmds = [dict(START, page=self.page, min=r.randint(1, mx), max=mx, pool=pool, levels=2 if two else 1,
                          pool2=r.choice([3 * mx, 4 * mx + 1]) if two else 0, tier=r.choice([mx, 2 * mx]) if tier else 0)]
        self.two = two
        self.fails = fails
        self.sfails = sfails
        self.par = {}
        self.h = {}         # handle -> dict(key, pins, size, kind)
        self.cnt = {}       # key -> pins held by us over all handles
        self.nh = 0
        self.nk = 0
        keys = []
        for db in (1, 2):
            for t in (1, 2, 3)[:r.randint(1, 3)]:
                for c in (1, 2)[:r.randint(1, 2)]:
                    keys.append([db, t, c, r.randint(1, 3)])
        r.shuffle(keys)
        for k in keys[:r.randint(3, 7)]:
            self.pset(k, zc and r.random() < 0.3)

    def pset(self, k, zc=False):
        top = self.max * self.page
        n = self.r.choice([self.r.randint(1, top), self.r.randint(1, top), self.r.randint(1, self.page), self.page * self.r.randint(1, self.max)])
        if self.r.random() < 0.05 and not zc and not self.two:
            n = top + self.r.randint(1, self.page)
        self.par[tuple(k)] = {"n": n, "zc": zc}
        self.cmds.append({"op": "pset", "key": list(k), "v": self.r.randint(0, 99), "n": n, "zc": 1 if zc else 0})

    def step(self, w):
        ops, ws = zip(*w.items())
        op = self.r.choices(ops, ws)[0]
        getattr(self, "do_" + op)()

    def live(self, own=False):
        return [h for h, x in self.h.items() if x["pins"] > 0 and not x.get("orphan")]

    def add(self, c):
        self.cmds.append(c)

    def do_get(self):
        k = self.r.choice(list(self.par))
        it = self.par[k]
        n = self.r.choice([it["n"], self.r.randint(1, it["n"]), self.r.randint(1, it["n"])])
        if not self.two and self.r.random() < 0.15:
            n = 0
        self.nh += 1
        self.add({"op": "get", "key": list(k), "n": n, "h": self.nh})
        self.h[self.nh] = {"key": k, "pins": 1, "kind": "zc" if it["zc"] else "get"}

    def do_create(self):
        self.nk += 1
        k = (self.r.randint(1, 2), self.r.randint(1, 3), 9, self.nk)
        n = self.r.choice([0, self.r.randint(1, self.max * self.page), self.page])
        self.nh += 1
        self.add({"op": "create", "key": list(k), "n": n, "h": self.nh})
        self.h[self.nh] = {"key": k, "pins": 1, "kind": "own"}

    def do_alloc(self):
        self.nh += 1
        self.add({"op": "alloc", "n": self.r.choice([self.r.randint(1, self.max * self.page), self.page, 2 * self.page, (self.max + 1) * self.page]), "h": self.nh})
        self.h[self.nh] = {"key": None, "pins": 1, "kind": "alloc"}

    def do_sequence(self):
        self.do_get()


def to_event(c, a):
    e = dict(c)
    e["a"] = {"k": a.get("k"), "r": a.get("r", []), "p": a.get("p", 0), "d": a.get("d", [])}
    if c["op"] == "conc":
        e["a"]["c"] = {k: a.get(k, -1) for k in ("bad", "oom", "failed", "other", "unpinned", "na", "mf")}
    return e


class Live:
    """Runs a generator against the driver's answers: the generator has to know which requests were refused, and it asks
    the driver (the answer is the driver's own; the specification judges it)."""


def interactive(binary, gens, timeout=8):
    """Scenarios that depend on the answers: one driver process per generator; the generator yields commands."""
    import subprocess
    res = []
    p = None
    deaths = 0
    for g in gens:
        if deaths > 3:
            break
        if p is None:
            p = subprocess.Popen([os.path.join(BIN, binary)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=BUILD)
        run = []
        it = g()
        ans = None
        dead = False
        while True:
            try:
                c = it.send(ans)
            except StopIteration:
                break
            import select
            try:
                p.stdin.write((json.dumps(c) + "\n").encode())
                p.stdin.flush()
                rd, _, _ = select.select([p.stdout], [], [], timeout)
                line = p.stdout.readline() if rd else None
            except BrokenPipeError:
                line = b""
            if line is None:
                ans = {"k": "hang"}
                p.kill()
                dead = True
            elif not line:
                p.wait()
                if p.returncode in (90, 91):
                    raise ToolFailure("driver %s: %s" % (binary, p.stderr.read().decode()[-300:]))
                ans = {"k": "crash", "m": "rc=%s %s" % (p.returncode, p.stderr.read().decode(errors="replace")[-300:])}
                dead = True
            else:
                ans = json.loads(line)
            run.append([c, ans])
            if dead:
                break
        res.append(run)
        if dead:
            deaths += 1
            p.wait()
            p = None
    if p is not None:
        p.stdin.close()
        p.stdout.read()
        p.wait()
        if p.returncode != 0 and res:
            res[-1].append([{"op": "end"}, {"k": "crash", "m": "rc=%s at exit" % p.returncode}])
    return res


def random_user(seed, weights, steps, **kw):
    """A generator function: random use of a pool, aware of refusals."""

    def run():
        r = random.Random(seed)
        g = Gen(r, **kw)
        for c in g.cmds:
            yield c
        held = {}     # handle -> [key, pins, kind, size]
        owners = {}   # key -> set of handles
        na = [0]

        def drop(h):
            owners.get(held[h][0], set()).discard(h)
            del held[h]

        for _ in range(steps):
            op = r.choices(list(weights), list(weights.values()))[0]
            mine = [h for h in held if held[h][2] != "orphan"]
            data = [h for h in mine if held[h][2] in ("get", "own")]
            if op in ("get", "create", "alloc"):
                n0 = len(g.cmds)
                getattr(g, "do_" + op)()
                c = g.cmds[n0]
                if op == "alloc":
                    key = (-1, na[0])
                    na[0] += 1
                else:
                    key = tuple(c["key"])
                a = yield c
                if a["k"] == "ok":
                    kind = "zc" if op == "get" and g.par[key]["zc"] else ("get" if op == "get" else "own")
                    held[c["h"]] = [key, 1, kind]
                    owners.setdefault(key, set()).add(c["h"])
            elif op == "pset":
                n0 = len(g.cmds)
                k = r.choice(list(g.par))
                old = g.par[k]
                g.pset(list(k), old["zc"])
                if g.par[k]["n"] < old["n"]:
                    g.par[k]["n"] = g.cmds[n0]["n"] = old["n"]
                yield g.cmds[n0]
            elif op == "pfail":
                ks = [k for k in g.par if not g.par[k]["zc"]]
                if ks:
                    k = r.choice(ks)
                    yield {"op": "pfail", "key": list(k), "times": r.choice([1, 1, 2])}
            elif op == "sfail":
                yield {"op": "sfail", "times": r.choice([1, 1, 2, 3, 8])}
            elif op == "clear":
                a = yield {"op": "clear"}
                if a["k"] == "ok" and a["d"] and not a["d"][0]["slabs"]:
                    for h in held:
                        if held[h][2] != "zc":
                            held[h][2] = "orphan"
                    owners.clear()
            elif op == "delp":
                k = r.choice([list(x) for x in g.par] + [[1], [2], [1, 1], [-1], [3], [1, 2]])
                yield {"op": "delp", "key": k[:r.randint(1, 4)]}
            elif op == "has":
                yield {"op": "has", "key": list(r.choice(list(g.par)))}
            elif not held:
                continue
            elif op == "unpin":
                h = r.choice(list(held))
                yield {"op": "unpin", "h": h}
                held[h][1] -= 1
                if held[h][1] == 0:
                    drop(h)
            elif not mine:
                continue
            elif op == "pin":
                h = r.choice(mine)
                yield {"op": "pin", "h": h}
                held[h][1] += 1
            elif op == "read":
                yield {"op": "read", "h": r.choice(mine)}
            elif not data:
                continue
            elif op in ("del", "free"):
                sole = [h for h in data if len(owners[held[h][0]]) == 1 and (held[h][2] == "own" or r.random() < 0.3)]
                if sole:
                    h = r.choice(sole)
                    yield {"op": "del", "key": list(held[h][0])} if op == "del" else {"op": "free", "h": h}
                    drop(h)
            elif op in ("write", "append", "reserve"):
                h = r.choice(data)
                a = yield {"op": "read", "h": h}
                size = len(a["r"])
                n = r.choice([r.randint(1, g.page), r.randint(1, 2 * g.page), g.page])
                if op == "write":
                    yield {"op": "write", "h": h, "off": r.randint(0, size), "n": n, "v": r.randint(0, 99)}
                elif op == "append":
                    yield {"op": "append", "h": h, "n": n, "v": r.randint(0, 99)}
                else:
                    yield {"op": "reserve", "h": h, "n": r.randint(0, size + 2 * g.page)}

    return run


def replay_of(hist, page, v):
    """A behaviour generated by BufferPoolGen, as commands: chunks come from the storage, growth is a larger request."""
    cmds = [dict(START, page=page, min=1, max=3, pool=6)]
    for a in (1, 2):
        for b in (1, 2):
            cmds.append({"op": "pset", "key": [a, b], "v": v + 10 * a + b, "n": 3 * page, "zc": 0})

    def run():
        for c in cmds:
            yield c
        hs = {}
        nh = 0
        for o in hist:
            k = tuple(o["key"])
            if o["op"] in ("get", "grow"):
                nh += 1
                n = o["n"] * page if o["n"] else 1
                a = yield {"op": "get", "key": list(k), "n": n, "h": nh}
                if a["k"] == "ok":
                    if o["op"] == "grow":
                        yield {"op": "unpin", "h": nh}
                    else:
                        hs.setdefault(k, []).append(nh)
            elif o["op"] == "unpin":
                if hs.get(k):
                    yield {"op": "unpin", "h": hs[k].pop()}
            elif o["op"] == "del":
                a = yield {"op": "has", "key": list(k)}
                if a.get("r") is True and not hs.get(k):
                    yield {"op": "del", "key": list(k)}
            else:
                yield {"op": "delp", "key": list(k)}

    return run


def conform_live(ck, makers, name, shards=NCPU):
    """makers: generator functions.  As Check.conform, for scenarios that depend on the answers."""
    parts = shard(makers, shards)

    def work(k):
        runs = interactive("buf_driver", parts[k])
        evs = [[to_event(c, a) for c, a in r] for r in runs]
        return runs, evs, *validate_one("TraceBufferPool.tla", "TraceBufferPool.cfg", evs, tag="%s%d" % (ck.prop, k))

    with cf.ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(work, range(shards)))
    ck.collect(results, "buf_driver", "TraceBufferPool.tla", "TraceBufferPool.cfg", name, to_event)


W = dict(get=10, unpin=9, read=2, pin=1, write=1, append=2, reserve=1, create=2, alloc=3, free=2, delp=1, has=1, pset=0.5, clear=0.3)
MIX = {
    "B01": (dict(W, read=4, write=4, append=4, pset=1, delp=1), [dict(), dict(two=True), dict(zc=True), dict(two=True, zc=True), dict(tier=True)]),
    "B02": (dict(W, pin=4, unpin=7, alloc=5, get=12, delp=2, clear=1), [dict(small=True), dict(small=True, zc=True), dict(two=True, small=True), dict()]),
    "B03": (dict(W, clear=1, create=4, free=3, delp=2, sfail=0.1), [dict(), dict(two=True), dict(tier=True), dict(small=True)]),
    "B04": (dict(W, get=14, unpin=13, alloc=4, create=0.5, write=0.5), [dict(small=True), dict(), dict(small=True, two=True)]),
    "B05": (dict(W, delp=6, get=14, clear=1), [dict(), dict(), dict(two=True)]),
    "B07": (dict(W, pfail=4, get=14, unpin=10, has=2, sfail=0.3), [dict(fails=True), dict(fails=True, small=True), dict(fails=True, zc=True)]),
}


def run(prop):
    ck = Check(prop, "model_checked_and_conformance")
    build("buf_driver")
    if prop == "B06":
        return run_conc(ck)
    ck.model("BufferPoolMC.tla", "BufferPoolMC4.cfg" if ck.thorough else "BufferPoolMC.cfg")
    weights, kinds = MIX[prop]
    r = ck.rng("users")
    n = 4000 if ck.thorough else 640
    makers = []
    for i in range(n):
        kw = kinds[i % len(kinds)]
        w = dict(weights)
        if kw.get("two"):
            w.pop("pfail", None)
        makers.append(random_user(r.random(), w, r.choice([15, 30, 60]), **kw))
    conform_live(ck, makers, "user")
    hists = generate("BufferPoolGen.tla", "BufferPoolGen.cfg", 1500 if ck.thorough else 300, 30, ck.seed)
    conform_live(ck, [replay_of(h, r.choice([1, 8]), r.randint(0, 50)) for h in hists], "generated")
    return ck.finish()


def conc_user(seed, iters):
    """Scenario with a crowd: a few chunks held, faults armed, many users at once, then use by a single user."""

    def run():
        r = random.Random(seed)
        page = r.choice([4, 16, 64])
        mx = r.choice([1, 2, 3])
        threads = r.choice([2, 4, 8])
        hold = r.choice([1, 1, 2, 3])
        roomy = r.random() < 0.4
        pool = mx * (threads * hold + 2) if roomy else mx * r.choice([1, 2, threads, threads + 1])
        yield dict(START, page=page, min=1, max=mx, pool=pool, levels=1)
        keys = []
        for i in range(r.choice([2, 3, 6, 12])):
            k = [1, r.randint(1, 2), r.randint(1, 3), i]
            n = r.randint(1, mx * page)
            yield {"op": "pset", "key": k, "v": r.randint(0, 99), "n": n, "zc": 1 if r.random() < 0.15 else 0}
            keys.append((k, n))
        held = []
        for h in range(r.choice([0, 0, 1])):
            k, n = r.choice(keys)
            a = yield {"op": "get", "key": k, "n": n, "h": h}
            if a["k"] == "ok":
                held.append(h)
        for rnd in range(r.choice([1, 2, 3])):
            if r.random() < 0.3:
                yield {"op": "pfail", "key": r.choice(keys)[0], "times": r.randint(1, 4)}
            yield {"op": "conc", "threads": threads, "iters": iters, "keys": len(keys), "hold": hold, "seed": r.randint(1, 10 ** 6),
                   "slow": r.randint(0, 1), "allocs": r.randint(0, 1), "dels": 1 if r.random() < 0.4 else 0, "roomy": 1 if roomy and not held else 0}
            for h in held:
                yield {"op": "read", "h": h}
            nh = 100
            for k, n in r.sample(keys, min(3, len(keys))):
                nh += 1
                a = yield {"op": "get", "key": k, "n": n, "h": nh}
                if a["k"] == "ok":
                    yield {"op": "unpin", "h": nh}

    return run


def run_conc(ck):
    ck.model("BufferPoolConc.tla", "BufferPoolConc3.cfg" if ck.thorough else "BufferPoolConc.cfg")
    r = ck.rng("conc")
    n = 6000 if ck.thorough else 900
    conform_live(ck, [conc_user(r.random(), r.choice([20, 100, 400])) for _ in range(n)], "crowd", shards=4)
    return ck.finish()
