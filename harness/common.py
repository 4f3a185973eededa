"""Shared machinery: TLC runs, case execution, verdicts, evidence, exit codes.

A property module defines
    PID, LEVEL_NOTE..., CHECKER (TLA+ module that judges observation records)
    mc(chk)          -> runs the exhaustive TLC models (and collects generated behaviours)
    cases(chk)       -> list of JSON-able case dicts (TLC-generated and seeded random ones)
    run(case)        -> observation record (dict) from the real code in /repo
The verdict of every observation is computed by TLC evaluating the specification.
"""
import hashlib, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict)."""


# ----------------------------------------------------------------- encoding
def q(x):
    """Exact rational string of a number ("inf"/"-inf"/"nan" for specials)."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return str(x)
    try:
        f = float(x)
    except Exception:
        return "nan"
    if math.isnan(f):
        return "nan"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    return str(Fraction(f))


def qa(a):
    """Nested lists of rational strings from a (nested) array."""
    if hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [qa(v) for v in a]
    return q(a)


def ia(a):
    if hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [ia(v) for v in a]
    return int(a)


def num(s):
    """Float of a rational string."""
    if isinstance(s, (list, tuple)):
        return [num(v) for v in s]
    if s in ("inf", "-inf", "nan"):
        return float(s)
    return float(Fraction(s))


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def guarded(fn, *a, limit=120, **k):
    """Result of a call, or its failure as data: ("ok", value) / ("err", type, message)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return ("ok", fn(*a, **k))
    except CaseTimeout:
        return ("err", "Timeout", "no answer in %d s" % limit)
    except (Exception, SystemExit) as e:
        return ("err", type(e).__name__, str(e)[:300])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- TLC runs
def classes_dir():
    src = os.path.join(VERIF, "java", "Num.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build", "classes-" + h)
    if not os.path.exists(os.path.join(d, "Num.class")):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, "build"))
        r = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac failed: " + r.stderr[-2000:])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def tlc(module, cfg, scratch, env=None, workers=2, timeout=800, heap="2g", extra=()):
    """Run TLC; returns (stdout, states, distinct, ok)."""
    md = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-cp", classes_dir() + ":" + JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
           "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timeout on " + module)
    shutil.rmtree(md, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("Loading "))
    m = re.findall(r"(\d+) states generated(?:, | \()(\d+) distinct", out.replace(",", ",")) or re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    st, ds = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    ok = "No error has been found" in out
    return out + r.stderr, st, ds, ok


class Chk:
    def __init__(self, mod, tier, seed):
        self.mod, self.pid, self.tier, self.seed = mod, mod.PID, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % self.pid)
        self.states = self.transitions = self.validated = 0
        self.models, self.kinds, self.notes, self.samples = [], {}, [], []
        self.violations, self.known_hits = [], []

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, salt))

    # -- model checking of the specification itself
    def model(self, module, cfg=None, env=None, workers=4, timeout=800, out=None, extra=()):
        """Exhaustively check a model; `out` names a JSON file the model writes."""
        path = os.path.join(SPEC, cfg or module + ".cfg")
        e = dict(env or {})
        if out:
            out = os.path.join(self.scratch, out)
            e["OUT"] = out
        text, st, ds, ok = tlc(module, path, self.scratch, e, workers=workers, timeout=timeout, extra=extra)
        if not ok:
            raise Machinery("specification model %s/%s failed:\n%s" % (module, cfg, text[-4000:]))
        self.states += ds
        self.transitions += st
        self.models.append(dict(model=cfg or module, generated=st, distinct=ds))
        if out:
            if not os.path.exists(out):
                return []
            if out.endswith(".ndjson"):
                return [json.loads(l) for l in sorted(open(out)) if l.strip()]
            return json.load(open(out))
        return None

    # -- the specification judges observations
    def judge(self, records, chunk=None, timeout=800, module=None):
        module = module or self.mod.CHECKER
        if not records:
            return []
        n = len(records)
        nproc = 1 if n < 60 else min(6, max(2, n // 60))
        size = chunk or -(-n // nproc)
        parts = [records[i:i + size] for i in range(0, n, size)] if chunk else [records[i::nproc] for i in range(nproc)]
        cfg = os.path.join(self.scratch, module + ".judge.cfg")
        open(cfg, "w").write("INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n")

        def one(k):
            return some(parts[k], str(k), [24])

        def some(recs, tag, budget):
            """Verdicts of `recs`.  Where the specification cannot even be evaluated on an
            observation (a list too short, a missing field), the batch is halved until the
            observation that it cannot be evaluated on is alone: that one breaks the property."""
            obs = os.path.join(self.scratch, "%s-obs-%s.json" % (module, tag))
            out = os.path.join(self.scratch, "%s-out-%s.json" % (module, tag))
            json.dump(recs, open(obs, "w"))
            text, st, ds, ok = tlc(module, cfg, self.scratch, dict(OBS=obs, OUT=out), workers=1, timeout=timeout)
            budget[0] -= 1
            if not ok or not os.path.exists(out):
                evaluation = re.search(r"Evaluating assumption .* failed", text) and not re.search(r"OutOfMemory|StackOverflow|heap space", text)
                if not evaluation:
                    raise Machinery("TLC could not judge %s:\n%s" % (module, text[-4000:]))
                if len(recs) == 1:
                    why = [l.strip() for l in text.split("failed", 1)[1].splitlines() if l.strip()][:2]
                    return ["the observation does not have the shape the specification gives it (%s)" % " ".join(why)[:200]], 0, 0
                m = len(recs) // 2
                va, sa, da = some(recs[:m], tag + "a", budget)
                if budget[0] <= 0 and any(v != "ok" for v in va):
                    return va + ["ok"] * (len(recs) - m), sa, da
                vb, sb, db = some(recs[m:], tag + "b", budget)
                return va + vb, sa + sb, da + db
            v = json.load(open(out))
            if len(v) != len(recs):
                raise Machinery("verdict count mismatch")
            os.unlink(obs)
            os.unlink(out)
            return v, st, ds

        res = [None] * n
        with ThreadPoolExecutor(max_workers=6) as ex:
            for k, (v, st, ds) in enumerate(ex.map(one, range(len(parts)))):
                if chunk:
                    res[k * size:k * size + len(v)] = v
                else:
                    res[k::nproc] = v
                self.states += ds
                self.transitions += st
        return res

    def explore(self, cases, procs=6):
        """Run every case against the real code, let TLC judge, collect violations."""
        for i, c in enumerate(cases):
            c.setdefault("id", i)
        recs = run_all(self.mod, cases, procs)
        for c in cases:
            self.kinds[c.get("kind", "case")] = self.kinds.get(c.get("kind", "case"), 0) + 1
        live = []
        for c, r in zip(cases, recs):
            if r is None:
                continue
            if r.get("kind") == "driver_error":
                self.validated += 1
                self.report(c, r, "observation cannot be read: %s %s (%s)" % (r["err"], r["msg"], r["at"]))
            else:
                live.append((c, r))
        groups = {}
        for c, r in live:
            groups.setdefault(r.get("checker", getattr(self.mod, "CHECKER", None)), []).append((c, r))
        for checker, items in groups.items():
            verdicts = self.judge([r for _, r in items], module=checker)
            for (c, r), v in zip(items, verdicts):
                self.validated += 1
                if v != "ok":
                    self.report(c, r, v)
            for c, r in items[:2]:
                if len(self.samples) < 6:
                    self.samples.append(shorten(dict(case=c, observed=r)))
        return recs

    def report(self, case, rec, verdict):
        for k in known_findings():
            if k.get("status") == "known" and k["property"] == self.pid and re.search(k["match"], case.get("kind", "") + " | " + str(case.get("finding", "")) + " | " + verdict):
                self.known_hits.append((k["what"], verdict))
                return
        self.violations.append(dict(case=case, observed=rec, verdict=verdict))

    def finish(self, ok=True):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples or ["none"],
                   models=self.models, cases_by_kind=self.kinds)
        if self.notes:
            cov["notes"] = self.notes
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                       coverage=cov, assumptions=getattr(self.mod, "ASSUMPTIONS", []),
                       wall_s=round(wall, 2), violations=len(self.violations)),
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        for what in sorted({w for w, _ in self.known_hits}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.violations:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for v in self.violations:
                key = (v["case"].get("kind"), re.sub(r"[-\d./e]+", "#", v["verdict"])[:80])
                seen.setdefault(key, []).append(v)
            for n, (key, vs) in enumerate(sorted(seen.items(), key=str)):
                if n >= int(os.environ.get("VERIF_GROUPS", "8")):
                    break
                v = vs[0]
                path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
                json.dump(v, open(path, "w"), indent=1, default=str)
                print("  [%s] kind=%s x%d: %s" % (self.pid, key[0], len(vs), v["verdict"][:400]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: states=%d transitions=%d validated=%d violations=%d known=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.validated, len(self.violations), len(self.known_hits), wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:24]}
    if isinstance(x, (list, tuple)):
        return [shorten(v, depth + 1) for v in list(x)[:8]] + (["... %d more" % (len(x) - 8)] if len(x) > 8 else [])
    if isinstance(x, str) and len(x) > 120:
        return x[:120] + "..."
    return x


_MOD = None


def _run_one(case):
    try:
        r = _MOD.run(case)
    except Exception as e:  # a driver that trips over broken results still yields a verdict
        tb = traceback.extract_tb(e.__traceback__)
        r = dict(kind="driver_error", err=type(e).__name__, msg=str(e)[:300],
                 at="%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno))
    return r


def run_all(mod, cases, procs=6):
    global _MOD
    _MOD = mod
    if len(cases) < 12 or procs == 1 or getattr(mod, "SERIAL", False):
        return [_run_one(c) for c in cases]
    ctx = get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(_run_one, cases, chunksize=max(1, min(16, len(cases) // (procs * 4) or 1)))
