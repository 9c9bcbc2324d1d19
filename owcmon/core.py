"""Runtime-monitoring core: cases, boundary monitor, verdicts, evidence.

A check module (owcmon/checks/cXX.py) provides

    ID, RULE            property id and the rule by which cases are made / counted
    plan(tier, rng)     -> list of cases (JSON-able dicts with at least 'fam' and 'seed')
    run(case, rng, mon) -> drives the real code for one case through `mon`
    REQUIRE             {counter: minimum} that the whole run must have observed (else inconclusive)
    setup(scratch)      optional, run once in the parent before the workers are forked

Verdicts are three-valued: violated (exit 1, VIOLATION line, replay file), held on what was
observed (exit 0), inconclusive (exit 2: a counter of REQUIRE was not reached, a worker died,
a case ran into its watchdog, or the harness itself failed).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OWC_REPO", "/repo")
CASE_TIMEOUT = 400          # watchdog, seconds: firing is inconclusive, never a violation
WORKERS = 8


class Violated(Exception):
    """Raised by Monitor.fail to leave the case at once."""


class Watchdog(BaseException):
    """The case ran into its wall-clock limit."""


class Raised:
    """An exception of the code under test, returned by Monitor.call(..., catch=...)."""

    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]

    def __repr__(self):
        return f"Raised({self.kind}: {self.text})"


def fingerprint(obj):
    """Stable content hash of nested containers of arrays."""
    h = hashlib.sha1()

    def add(o):
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype.str, o.shape)).encode())
            if o.dtype == object:
                for x in o.ravel():
                    add(x)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in o:
                h.update(repr(k).encode())
                add(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(f"{type(o).__name__}{len(o)}".encode())
            for x in o:
                add(x)
        else:
            h.update(repr(o).encode())

    add(obj)
    return h.hexdigest()


class Monitor:
    """Observes one case: every call into the code under test goes through `call`."""

    def __init__(self, prop, case, scratch):
        self.prop = prop
        self.case = case
        self.scratch = scratch
        self.violations = []       # dicts
        self.known = {}            # finding id -> detail
        self.counters = collections.Counter()
        self.sigs = set()
        self.evaluations = 0
        self.calls = 0
        self.sample = None
        self.log = collections.deque(maxlen=40)

    # -- events ---------------------------------------------------------------------------
    def call(self, fn, *args, pure=False, catch=None, label=None, **kwargs):
        """Call the code under test, recording call and return; an exception is a violation
        unless its class is in `catch`, in which case a Raised is returned."""
        name = label or getattr(fn, "__name__", str(fn))
        before = fingerprint([args, kwargs]) if pure else None
        self.calls += 1
        self.counters["calls:" + name] += 1
        self.log.append(f"call {name}")
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ret = fn(*args, **kwargs)
        except Watchdog:
            raise
        except Exception as exc:  # noqa
            self.log.append(f"raised {name} {type(exc).__name__}: {exc}")
            if catch and isinstance(exc, catch):
                self.counters["raised:" + name] += 1
                return Raised(exc)
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if REPO in f.filename][-2:]
            self.fail(f"{name}:exception:{type(exc).__name__}",
                      f"{name} raised {type(exc).__name__}: {str(exc)[:160]} (in {' > '.join(where)})")
        self.log.append(f"return {name}")
        self.stdout = out.getvalue()
        if pure and fingerprint([args, kwargs]) != before:
            self.fail(f"{name}:mutates", f"{name} modified its inputs")
        return ret

    def count(self, key, n=1):
        self.counters[key] += int(n)

    def seen(self, *sig):
        """A distinct non-trivial observation."""
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def ev(self, n=1):
        self.evaluations += n

    # -- verdicts -------------------------------------------------------------------------
    def fail(self, key, msg, **detail):
        self.note(key, msg, **detail)
        raise Violated(key)

    def note(self, key, msg, **detail):
        """Record a violation and go on."""
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, msg=msg, detail=jsonable(detail), log=list(self.log)[-12:]))

    def check(self, cond, key, msg, **detail):
        self.evaluations += 1
        if not cond:
            self.fail(key, msg, **detail)

    def same(self, got, want, key, msg, rtol=0.0, atol=0.0, shape=True):
        """got equals want, NaN for NaN."""
        self.evaluations += 1
        got_a = np.asarray(got)
        want_a = np.asarray(want)
        if shape and got_a.shape != want_a.shape:
            self.fail(key, f"{msg}: shape {got_a.shape}, expected {want_a.shape}")
        try:
            g = got_a.astype(float)
            w = want_a.astype(float)
        except (TypeError, ValueError):
            if not np.array_equal(got_a, want_a):
                self.fail(key, f"{msg}: {str(got_a)[:120]} instead of {str(want_a)[:120]}")
            return
        with np.errstate(all="ignore"):
            ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= atol + rtol * np.abs(w))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            gb, wb = np.broadcast_arrays(np.atleast_1d(g), np.atleast_1d(w))
            self.fail(key, f"{msg}: {len(bad)} of {ok.size} differ, first at {list(map(int, i))}: "
                           f"{gb[i]!r} instead of {wb[i]!r}")

    def finding(self, fid, detail):
        """The behaviour matched the mechanism of a listed known finding."""
        if fid in load_findings(self.prop):
            self.known.setdefault(fid, str(detail)[:200])
            self.counters["known:" + fid] += 1
        else:
            self.fail("finding:" + fid, f"{fid}: {detail}")


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(x) for x in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 200 else f"array{o.shape}"
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:200]


_FINDINGS = {}


def load_findings(prop):
    """ids of the open (not 'fixed') findings of a property in KNOWN_FINDINGS.jsonl"""
    if prop not in _FINDINGS:
        res = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    rec = json.loads(line)
                    if rec.get("status") == "open" and rec["property"] == prop:
                        res[rec["id"]] = rec["what"]
        _FINDINGS[prop] = res
    return _FINDINGS[prop]


def case_rng(case):
    h = hashlib.sha256(f"{case['fam']}:{case['seed']}:{case.get('k', 0)}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def _alarm(signum, frame):
    raise Watchdog()


_STATE = {}


def run_case(case):
    mod, scratch = _STATE["mod"], _STATE["scratch"]
    wdir = tempfile.mkdtemp(prefix="case", dir=scratch)
    mon = Monitor(mod.ID, case, wdir)
    res = dict(case=case, error=None, timeout=False)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    np.random.seed(0)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, case_rng(case), mon)
    except Violated:
        pass
    except Watchdog:
        res["timeout"] = True
    except (MemoryError, OSError, ImportError):
        res["error"] = traceback.format_exc()
    except Exception as exc:  # noqa
        if mon.calls:
            # the oracle could not even interpret what the code under test returned
            mon.note(f"malformed:{type(exc).__name__}",
                     f"the output could not be interpreted: {type(exc).__name__}: {str(exc)[:200]}",
                     trace=traceback.format_exc()[-1500:])
        else:
            res["error"] = traceback.format_exc()
    finally:
        signal.alarm(0)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        shutil.rmtree(wdir, ignore_errors=True)
    res.update(violations=mon.violations, known=mon.known, counters=dict(mon.counters), sigs=mon.sigs,
               evaluations=mon.evaluations, calls=mon.calls, sample=mon.sample, wall=time.time() - t0)
    return res


def repo_import():
    """Import pyowc from the tree under test and make sure that it is that tree."""
    sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pyowc = importlib.import_module("pyowc")
    got = os.path.realpath(os.path.dirname(os.path.dirname(pyowc.__file__)))
    if got != os.path.realpath(REPO):
        raise ImportError(f"pyowc comes from {got}, not {REPO}")
    return pyowc


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    workers = WORKERS
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        elif a == "--workers":
            workers = int(next(it))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"owcmon-{prop}-")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.environ["TMPDIR"] = tempfile.tempdir = scratch
    try:
        return _main(prop, tier, seed, replay, workers, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, workers, scratch, t0):
    repo_import()
    mod = importlib.import_module("owcmon.checks." + prop.lower())
    assert mod.ID == prop
    _STATE.update(mod=mod, scratch=scratch)
    if hasattr(mod, "setup"):
        mod.setup(scratch)

    if replay:
        with open(replay, encoding="utf-8") as f:
            cases = [json.load(f)["case"]]
    else:
        rng = np.random.default_rng([seed, 7 if tier == "quick" else 11])
        cases = mod.plan(tier, rng)

    results = []
    broken = None
    if workers <= 1 or len(cases) == 1:
        results = [run_case(c) for c in cases]
    else:
        ctx = multiprocessing.get_context("fork")
        # long cases first
        cases = sorted(cases, key=lambda c: -c.get("cost", 1))
        pool = ProcessPoolExecutor(workers, mp_context=ctx)
        try:
            todo = iter(cases)
            running = {}
            for c in todo:
                running[pool.submit(run_case, c)] = c
                if len(running) >= 2 * workers:
                    done, _ = wait(running, return_when=FIRST_COMPLETED)
                    for d in done:
                        results.append(d.result())
                        running.pop(d)
                if sum(len(r["violations"]) > 0 for r in results) >= 12:
                    break
            for d in list(running):
                results.append(d.result())
        except BrokenProcessPool as exc:
            broken = f"a worker died: {exc}"
        finally:
            pool.shutdown(wait=True, cancel_futures=True)

    counters = collections.Counter()
    sigs, known, violations, errors = set(), {}, [], []
    timeouts = 0
    evaluations = 0
    samples = []
    for r in sorted(results, key=lambda r: (r["case"]["fam"], r["case"]["seed"], r["case"].get("k", 0))):
        counters.update(r["counters"])
        counters["cases:" + r["case"]["fam"]] += 1
        sigs |= r["sigs"]
        for k, v in r["known"].items():
            known.setdefault(k, v)
        evaluations += r["evaluations"]
        timeouts += r["timeout"]
        if r["error"]:
            errors.append((r["case"], r["error"]))
        for v in r["violations"]:
            violations.append((r["case"], v))
        if r["sample"] is not None and sum(s["fam"] == r["case"]["fam"] for s in samples) < 2 and len(samples) < 8:
            samples.append(dict(fam=r["case"]["fam"], case=r["case"], observed=jsonable(r["sample"])))
    for c in cases[:3]:
        if len(samples) < 1:
            samples.append(dict(fam=c["fam"], case=c))

    inconclusive = []
    if not replay:
        for key, minimum in getattr(mod, "REQUIRE", {}).items():
            if isinstance(minimum, tuple):
                minimum = minimum[0 if tier == "quick" else 1]
            if counters[key] < minimum:
                inconclusive.append(f"{key}: observed {counters[key]} < {minimum}")
    if broken:
        inconclusive.append(broken)
    if timeouts:
        inconclusive.append(f"{timeouts} case(s) ran into the {CASE_TIMEOUT} s watchdog")
    for case, err in errors[:3]:
        inconclusive.append(f"harness error in {case}: {err[-1500:]}")

    # one report per distinct way of failing
    seen_keys = {}
    for case, v in violations:
        seen_keys.setdefault(v["key"], (case, v))
    ev_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for old in os.listdir(rep_dir):
        if old.startswith(prop + "-") and not replay:
            os.unlink(os.path.join(rep_dir, old))
    shown = 0
    for key, (case, v) in seen_keys.items():
        name = f"{prop}-{hashlib.md5(key.encode()).hexdigest()[:8]}.json"
        path = os.path.join(rep_dir, name)
        with open(path, "w", encoding="utf-8") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=case, violation=v,
                           rerun=f"cd {VERIF} && ./check {prop} --replay {path}"), f, indent=1)
        if shown < 6:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"    [{key}] {v['msg']} (case {json.dumps(case)})")
        shown += 1

    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=int(evaluations), distinct_nontrivial=len(sigs), rule=mod.RULE,
                      samples=samples, cases=len(results), calls_observed=int(sum(
                          n for k, n in counters.items() if k.startswith("calls:"))),
                      observed={k: int(n) for k, n in sorted(counters.items())},
                      inconclusive=[s[:300] for s in inconclusive],
                      known_findings_observed=known),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(seen_keys))
    if not replay:
        with open(os.path.join(ev_dir, prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)

    for fid, what in load_findings(prop).items():
        if fid in known:
            print(f"KNOWN-FINDING: property={prop} {fid}: {what}")

    print(f"{prop} {tier} seed={seed}: {len(results)} cases, {evaluations} evaluations, {len(sigs)} distinct, "
          f"{len(seen_keys)} violation(s), {time.time() - t0:.1f} s")
    if seen_keys:
        return 1
    if inconclusive:
        for s in inconclusive:
            print("INCONCLUSIVE: " + s)
        return 2
    return 0
