"""Common machinery of the checks: build, run a driver on the real code, validate its trace with TLC, report."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(BUILD, "hdk", "harness")
SPECS = os.path.join(ROOT, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = os.path.join(BUILD, "work")
OUT = os.path.join(ROOT, "build", "replay")
NCPU = min(8, os.cpu_count() or 8)
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": os.environ.get("HOME", "/root"),
       "LANG": "C.UTF-8"}


class ToolFailure(Exception):
    """The machinery itself failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(*targets):
    t = time.time()
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(["bash", os.path.join(ROOT, "tools", "build.sh"), *targets], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=ENV)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolFailure("build of %s failed" % " ".join(targets))
    log("built %s in %.0f s" % (" ".join(targets), time.time() - t))


def run_driver(binary, commands, timeout=300, env=None, args=()):
    """Feeds commands (dicts) to a driver; returns its answers.  A crash or a hang is an answer of its own kind."""
    inp = "".join(json.dumps({k: v for k, v in c.items() if k[0] != "_"}, separators=(",", ":")) + "\n" for c in commands)
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run([os.path.join(BIN, binary), *args], input=inp.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=BUILD)
        out, rc, err = p.stdout, p.returncode, p.stderr
        hang = False
    except subprocess.TimeoutExpired as x:
        out, rc, err, hang = x.stdout or b"", None, x.stderr or b"", True
    if rc in (90, 91):
        raise ToolFailure("driver %s: %s" % (binary, err.decode(errors="replace")[-500:]))
    answers = []
    for line in out.decode("utf-8", errors="replace").split("\n"):
        if line:
            try:
                answers.append(json.loads(line))
            except ValueError:
                break
    if len(answers) < len(commands):
        if hang:
            answers.append({"k": "hang"})
        elif rc != 0:
            answers.append({"k": "crash", "m": "rc=%s %s" % (rc, err.decode(errors="replace")[-300:].strip())})
        else:
            raise ToolFailure("driver %s answered %d of %d commands" % (binary, len(answers), len(commands)))
    elif rc != 0 and not hang:
        # failed after the last answer (e.g. in the teardown): counts as a crash of the last event
        answers[-1] = {"k": "crash", "m": "rc=%s after last event %s" % (rc, err.decode(errors="replace")[-300:])}
    return answers


def run_scenarios(binary, scenarios, timeout=300, env=None, args=()):
    """scenarios: list of command lists, each starting with a command that resets the driver.  Returns for each a list of
    [command, answer]; after a crash the driver is restarted at the next scenario."""
    res = []
    i = 0
    while i < len(scenarios):
        flat = [c for s in scenarios[i:] for c in s]
        ans = run_driver(binary, flat, timeout, env, args)
        k = 0
        done = i
        for s in scenarios[i:]:
            if k >= len(ans):
                break
            part = ans[k:k + len(s)]
            res.append([[c, a] for c, a in zip(s, part)])
            k += len(part)
            done += 1
            if len(part) < len(s) or part[-1].get("k") in ("crash", "hang"):
                break
        if done == i:
            raise ToolFailure("driver %s made no progress" % binary)
        i = done
    return res


_tlc_n = 0


def tlc(spec, cfg, env=None, workers=1, timeout=800, xmx="2g", extra=(), tag=""):
    """Runs TLC in specs/; returns (rc, output)."""
    global _tlc_n
    _tlc_n += 1
    md = os.path.join(WORK, "tlc_%d_%d_%s" % (os.getpid(), _tlc_n, tag))
    os.makedirs(md, exist_ok=True)
    e = dict(ENV)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + xmx, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
           "-metadir", md, "-workers", str(workers), "-config", cfg, *extra, spec]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        raise ToolFailure("TLC timed out on %s" % spec)
    finally:
        shutil.rmtree(md, ignore_errors=True)


def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(spec, cfg, workers=NCPU, timeout=800, env=None, xmx="4g"):
    """Exhaustive check of a specification; it has to hold (a failure is one of the specification, not of the code)."""
    t = time.time()
    rc, out = tlc(spec, cfg, workers=workers, timeout=timeout, env=env, xmx=xmx, extra=("-deadlock",))
    if rc != 0 or "Model checking completed. No error" not in out:
        log(out[-5000:])
        raise ToolFailure("specification %s (%s) does not check" % (spec, cfg))
    gen, dist = counts(out)
    log("TLC %s: %d states generated, %d distinct, %.1f s" % (cfg, gen, dist, time.time() - t))
    return {"spec": spec, "cfg": cfg, "states": dist, "transitions": gen}


def generate(spec, cfg, num, depth, seed, env=None, drop_last=True, timeout=600):
    """Behaviours of a specification, as the histories it prints (<<"HIST", json>>)."""
    rc, out = tlc(spec, cfg, env=env, timeout=timeout, tag="gen", extra=("-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)))
    res, seen = [], set()
    for m in re.finditer(r'<<"HIST", "(.*)">>', out):
        h = json.loads(m.group(1).replace('\\"', '"'))
        key = json.dumps(h[:-1] if drop_last else h)
        if key not in seen:
            seen.add(key)
            res.append(h)
    if not res:
        log(out[-3000:])
        raise ToolFailure("%s generated no behaviours" % spec)
    return res


def validate_one(spec, cfg, scenarios, env=None, timeout=800, xmx="2g", max_reject=4, tag=""):
    """scenarios: list of lists of event dicts.  TLC has to accept their concatenation as a behaviour of the trace
    specification.  Returns (rejections [(scenario index, event index, expected text)], states)."""
    os.makedirs(WORK, exist_ok=True)
    rej = []
    states = trans = 0
    start = 0
    while start < len(scenarios) and len(rej) < max_reject:
        path = os.path.join(WORK, "trace_%d_%s_%s.ndjson" % (os.getpid(), tag, hashlib.md5(str((spec, start)).encode()).hexdigest()[:6]))
        offs = []
        n = 0
        with open(path, "w") as f:
            for s in scenarios[start:]:
                offs.append(n)
                for ev in s:
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
                    n += 1
        e = {"TRACE": path}
        e.update(env or {})
        if n == 0:
            break
        rc, out = tlc(spec, cfg, env=e, timeout=timeout, xmx=xmx, tag=tag, extra=("-deadlock",))
        m = re.search(r'<<\s*"PREFIX",\s*(\d+),\s*(\d+)\s*>>', out)
        if not m:
            log(out[-6000:])
            keep = os.path.join(WORK, "failed_trace.ndjson")
            shutil.copy(path, keep)
            raise ToolFailure("TLC gave no verdict on a trace of %s (kept as %s)" % (spec, keep))
        gen, dist = counts(out)
        states += dist
        trans += gen
        pre, tot = int(m.group(1)), int(m.group(2))
        os.unlink(path)
        if tot != n:
            raise ToolFailure("TLC read %d of %d events" % (tot, n))
        if pre == n:
            if rc != 0:
                log(out[-3000:])
                raise ToolFailure("TLC failed on an accepted trace")
            break
        # rejected at event number pre (0-based)
        si = max(i for i, o in enumerate(offs) if o <= pre)
        exp = "\n".join(re.findall(r'<<\s*"EXPECTED"[\s\S]*?>>\n(?=[^ ]|$)', out)[-3:])
        rej.append((start + si, pre - offs[si], exp[:3000]))
        start += si + 1
    return rej, states, trans


class Check:
    def __init__(self, prop, level, technique_note=""):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "models": []}
        self.violations = []
        self.samples = []
        self.known = []
        self.findings = load_findings(prop)
        self.thorough = self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

    def model(self, spec, cfg, **kw):
        r = model_check(spec, cfg, **kw)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["models"].append(r)
        return r

    def conform(self, binary, spec, cfg, scenarios, to_event, name="trace", shards=NCPU, timeout=300, env=None, args=(),
                recheck=True, tlc_env=None, xmx="2g"):
        """Runs the scenarios on the real code and has TLC validate the traces.  to_event(cmd, answer) -> event dict."""
        if not scenarios:
            return
        shards = max(1, min(shards, len(scenarios)))
        parts = [scenarios[i::shards] for i in range(shards)]

        def work(k):
            runs = run_scenarios(binary, parts[k], timeout, env, args)
            evs = [[to_event(c, a) for c, a in r] for r in runs]
            rej, st, tr = validate_one(spec, cfg, evs, env=tlc_env, tag="%s%d" % (self.prop, k), xmx=xmx)
            return runs, evs, rej, st, tr

        with cf.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(work, range(shards)))
        self.collect(results, binary, spec, cfg, name, to_event, timeout, env, args, recheck, tlc_env)

    def collect(self, results, binary, spec, cfg, name, to_event, timeout=300, env=None, args=(), recheck=True, tlc_env=None):
        kinds = {}
        for k, (runs, evs, rej, st, tr) in enumerate(results):
            self.cov["states"] += st
            self.cov["transitions"] += tr
            self.cov["traces_validated_against_impl"] += len(runs)
            self.cov["events_validated"] += sum(len(r) for r in runs)
            if runs and len(self.samples) < 4:
                self.samples.append(json.dumps(runs[len(runs) // 2])[:1500])
            for r in runs:
                for c, a in r:
                    kk = "%s/%s" % (c.get("op", "?"), a.get("k", "ok"))
                    kinds[kk] = kinds.get(kk, 0) + 1
            for si, ei, exp in rej:
                self._rejected(binary, spec, cfg, [c for c, _ in runs[si]], runs[si], ei, exp, to_event, name, timeout, env, args,
                               recheck, tlc_env)
        d = self.cov.setdefault("event_kinds", {})
        for a, b in kinds.items():
            d[a] = d.get(a, 0) + b

    def _rejected(self, binary, spec, cfg, scenario, run, ei, exp, to_event, name, timeout, env, args, recheck, tlc_env):
        cmd, ans = run[ei]
        for f in self.findings:
            if finding_matches(f, cmd, ans):
                self.known.append(f)
                return
        if len(self.violations) >= 10:
            return
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s_%s_%d.json" % (self.prop, name, len(self.violations)))
        doc = {"property": self.prop, "driver": binary, "spec": spec, "config": cfg, "commands": scenario, "rejected_event": ei,
               "command": cmd, "answer": ans, "specification_expected": exp,
               "trace": [[c, a] for c, a in run[:ei + 1]],
               "how_to_replay": "feed the commands, one JSON per line, to build/hdk/harness/%s; TLC rejects the event" % binary}
        if recheck and len(self.violations) < 3:
            again = run_scenarios(binary, [scenario], timeout, env, args)
            rej, _, _ = validate_one(spec, cfg, [[to_event(c, a) for c, a in again[0]]], env=tlc_env, tag=self.prop + "re")
            doc["reproduced"] = bool(rej)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        log("REJECTED by %s: event %d of a scenario: %s" % (spec, ei, json.dumps(cmd)[:700]))
        log("  answer: %s" % json.dumps(ans)[:400])
        log("  expected: %s" % exp[:600])
        self.violations.append(path)

    def fail(self, what, doc):
        """A violation found outside a driver scenario (e.g. in a concurrent history)."""
        for f in self.findings:
            if finding_matches(f, doc, doc):
                self.known.append(f)
                return
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s_%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        log("VIOLATED: %s" % what)
        self.violations.append(path)

    def finish(self):
        seen = set()
        for f in self.known:
            key = json.dumps(f, sort_keys=True)
            if key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        self.cov["samples"] = self.samples[:4]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d states, %d traces, %d events, %.0f s, %d violations" % (
            self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"],
            self.cov["events_validated"], time.time() - self.t0, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status") == "known"]


def finding_matches(f, cmd, ans):
    m = f["match"]
    for k, v in m.get("cmd", {}).items():
        if cmd.get(k) != v:
            return False
    if "cmd_re" in m and not re.search(m["cmd_re"], json.dumps(cmd, sort_keys=True)):
        return False
    if "ans_re" in m and not re.search(m["ans_re"], json.dumps(ans, sort_keys=True)):
        return False
    return True


def s2c(s):
    """str (latin-1 view of bytes) -> list of byte codes, the specification's strings."""
    return list(s.encode("utf-8"))


def shard(lst, n):
    return [lst[i::n] for i in range(n)]
