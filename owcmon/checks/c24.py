"""C24 runs that fail"""
import contextlib
import copy
import errno
import io
import os
import shutil
import signal
import sys
import warnings

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c18, c22

ID = "C24"
RULE = ("A case is one float taken through mapping, preparation and calibration, with or without results of earlier runs. A clean run of "
        "every step lists the calls it makes into and out of the package before its last write; then the step fails again and again in one "
        "process (an error raised at some of those calls, an unreadable input), or is killed at one; after every failure the tree is "
        "compared with the one before, and at the end the step runs undisturbed. Distinct by (step, what failed, earlier results).")
REQUIRE = {"clean runs": (25, 270), "faults:error": (200, 2300), "faults:kill": (40, 450), "faults:file": (80, 950), "sites": (1500, 16000),
           "files watched": (2000, 23000), "recovered": (70, 800), "earlier results": (8, 110), "failed inputs": (55, 700)}
ASSUMPTIONS = ["no fault during the final write", "files that may be absent (earlier mapped data, settings, a climatology file) are made unreadable, "
               "never absent; numbers inside a readable file are not altered"]
STEPS = ("map", "series", "fit")


def setup(scratch):
    c12.setup(scratch)
    import pyowc.calibration  # noqa
    import pyowc.configuration  # noqa


def plan(tier, rng):
    k = 1 if tier == "quick" else 11
    return cases(rng, map=(9 * k, 6), saf=(3 * k, 6), calib=(9 * k, 5))


class Injected(Exception):
    pass


def error(kind):
    return {"error": Injected("injected"), "memory": MemoryError("injected"), "io": OSError(errno.EIO, "injected"),
            "runtime": RuntimeError("injected"), "interrupt": KeyboardInterrupt("injected")}[kind]


ERRORS = ("error", "memory", "io", "runtime", "interrupt")


class Tap:
    """Watches the calls between the package and the rest of the world, and makes one of them fail."""

    def __init__(self, site=None, nth=0, act=None, last=None):
        self.counts, self.window, self.writes = {}, {}, 0
        self.site, self.nth, self.act, self.last = site, nth, act, last
        self.delivered = False
        self.own = {}
        self.base = os.path.join(os.path.realpath(core.REPO), "pyowc") + os.sep

    def ours(self, frame):
        if frame is None:
            return False
        code = frame.f_code
        r = self.own.get(code)
        if r is None:
            r = self.own[code] = os.path.realpath(code.co_filename).startswith(self.base)
        return r

    def __call__(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_name == "savemat":
                self.writes += 1
                self.window = dict(self.counts)
                return
            if self.ours(frame):
                site = "to " + frame.f_code.co_name
            elif self.ours(frame.f_back):
                site = f"{frame.f_back.f_code.co_name} calls {frame.f_code.co_name}"
            else:
                return
        elif event == "c_call":
            if not self.ours(frame):
                return
            site = f"{frame.f_code.co_name} calls {getattr(arg, '__name__', '?')}"
        else:
            return
        n = self.counts[site] = self.counts.get(site, 0) + 1
        if self.act and not self.delivered and site == self.site and n == self.nth and self.writes < self.last:
            self.delivered = True
            if self.act == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            raise error(self.act)


class Step:
    """one step of one float"""

    def __init__(self, which, w, name, cfg):
        from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
        from pyowc.configuration import set_calseries
        self.which, self.w, self.name, self.cfg = which, w, name, cfg
        self.fn = {"map": update_salinity_mapping, "series": set_calseries, "fit": calc_piecewisefit}[which]
        self.args = (w.float_dir, cfg, name) if which == "map" else (w.float_dir, name, cfg)
        self.out = {"map": w.mapped_path, "series": w.series_path, "fit": w.calib_path}[which](name)

    def go(self, tap=None):
        """error text or None"""
        np.random.seed(11)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                if tap is not None:
                    sys.setprofile(tap)
                self.fn(*self.args)
                return None
            except BaseException as exc:  # noqa
                return f"{type(exc).__name__}: {str(exc)[:120]}"
            finally:
                sys.setprofile(None)

    def clean(self):
        tap = Tap()
        err = self.go(tap)
        return err, tap.window, tap.writes

    def put(self, before):
        """the earlier result, as it was"""
        if before is None:
            if os.path.exists(self.out):
                os.unlink(self.out)
        else:
            with open(self.out, "wb") as f:
                f.write(before)

    def attempts(self, faults, writes, before):
        """failing runs in one process, then an undisturbed one"""
        recs = []
        for f in faults:
            undo = damage(f) if f["kind"] == "file" else None
            s0 = state(self.w.root)
            tap = None
            if f["kind"] == "error":
                tap = Tap(f["site"], f["nth"], f["act"], writes)
            err = self.go(tap)
            s1 = state(self.w.root)
            rec = dict(err=err, delivered=tap.delivered if tap else True, changed=changes(s0, s1), result=None)
            if err is None:
                rec["result"] = loadmat(self.out) if os.path.exists(self.out) else None
                self.put(before)
            recs.append(rec)
            if undo:
                undo()
            if rec["changed"] and err is not None:
                break
        err = self.go()
        return recs, err, loadmat(self.out) if err is None and os.path.exists(self.out) else None

    def killed(self, f, writes):
        self.go(Tap(f["site"], f["nth"], "kill", writes))


def same(a, b):
    return world.mat_equal(a, b, rtol=1e-9, atol=1e-12)


def state(root):
    res = world.tree_state(root)
    for d, dirs, _ in os.walk(root):
        for x in dirs:
            res[os.path.relpath(os.path.join(d, x), root) + "/"] = "directory"
    return res


def changes(a, b):
    return [f"{p} {'appeared' if p not in a else 'has gone' if p not in b else 'changed'}" for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)]


def damage(f):
    """make an input unusable; returns the way back"""
    path, how = f["path"], f["how"]
    keep = path + ".kept"
    os.rename(path, keep)
    try:
        if how == "empty":
            open(path, "wb").close()
        elif how in ("garbage", "cut"):
            with open(path, "wb") as fh:
                fh.write(f["data"])
        elif how == "directory":
            os.mkdir(path)
    except BaseException:
        os.rename(keep, path)
        raise

    def undo():
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.unlink(path)
        os.rename(keep, path)
    return undo


def inputs(w, name, which, cfg):
    """(path, ways it can be unusable)"""
    bad = ("empty", "garbage", "cut", "directory")
    if which == "map":
        res = [(w.source_path(name), bad + ("missing", "incomplete")), (os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_WMO_BOXES"]), bad + ("missing",)),
               (os.path.join(cfg["CONFIG_DIRECTORY"], "tbase.int"), ("empty", "missing", "directory"))]
        if cfg["MAP_USE_SAF"]:
            res.append((os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_SAF"]), bad + ("missing",)))
        if os.path.exists(w.mapped_path(name)):
            res.append((w.mapped_path(name), bad))
        for k in ("HISTORICAL_CTD_PREFIX", "HISTORICAL_BOTTLE_PREFIX", "HISTORICAL_ARGO_PREFIX"):
            d = os.path.dirname(cfg["HISTORICAL_DIRECTORY"] + cfg[k])
            if os.path.isdir(d):
                res += [(os.path.join(d, f), bad) for f in sorted(os.listdir(d)) if f.endswith(".mat")]
        return res
    res = [(w.source_path(name), bad + ("missing", "incomplete"))]
    if which == "series":
        return res * 2 + [(w.series_path(name), bad)] * os.path.exists(w.series_path(name))
    return res + [(w.mapped_path(name), bad + ("missing",)), (w.series_path(name), bad + ("missing",))]


def file_fault(rng, ins):
    path, hows = ins[int(rng.integers(len(ins)))]
    how = str(rng.choice(hows))
    f = dict(kind="file", path=path, how=how)
    if how == "garbage":
        f["data"] = rng.bytes(int(rng.integers(1, 3000)))
    elif how == "cut":
        data = open(path, "rb").read()
        f["data"] = data[:int(rng.integers(1, len(data)))]
        try:
            loadmat(io.BytesIO(f["data"]))
            f["how"] = "empty"                     # cut between two variables: still a file
        except Exception:  # noqa
            pass
    elif how == "incomplete":
        d = {k: v for k, v in loadmat(path).items() if not k.startswith("__")}
        del d[str(rng.choice(sorted(d)))]
        b = io.BytesIO()
        savemat(b, d)
        f.update(how="cut", data=b.getvalue(), label="incomplete")
    return f


def label(f):
    return f"{f['act']} at call {f['nth']} of '{f['site']}'" if f["kind"] == "error" else \
        f"killed at call {f['nth']} of '{f['site']}'" if f["kind"] == "kill" else f"{f.get('label', f['how'])} {os.path.basename(f['path'])}"


def trial(mon, rng, st, before, fam, tries):
    """one step: a clean run, failures, a run after them"""
    which, w = st.which, st.w
    what = f"{fam}, {which}{' over earlier results' if before is not None else ''}"
    err, window, writes = c22.isolated(st.clean)
    mon.calls += 1
    mon.count("calls:" + st.fn.__name__)
    mon.check(err is None, "clean", f"{what}: fails without a fault: {err}")
    mon.check(writes >= 1, "clean", f"{what}: nothing is written")
    want = loadmat(st.out)
    mon.count("clean runs")
    mon.count("sites", len(window))
    mon.count("earlier results", before is not None)
    st.put(before)
    sites = sorted(window)

    def point():
        s = sites[int(rng.integers(len(sites)))]
        n = window[s]
        return dict(site=s, nth=int(rng.choice([1, n, rng.integers(1, n + 1)])))

    for _ in range(2):
        faults = []
        for i in range(tries):
            if rng.random() < 0.7:
                faults.append(dict(kind="error", act=str(rng.choice(ERRORS)), **point()))
            else:
                faults.append(file_fault(rng, inputs(w, st.name, which, st.cfg)))
        recs, err, got = c22.isolated(st.attempts, faults, writes, before)
        mon.calls += len(recs) + 1
        for f, r in zip(faults, recs):
            lab = f"{what}, {label(f)}"
            if not r["delivered"]:
                # the call was not made this time (results of an earlier attempt are cached)
                mon.check(r["err"] is None, "spurious", f"{lab}, not reached: {r['err']}")
                continue
            mon.count("faults:" + f["kind"])
            mon.count("files watched", len(os.listdir(w.root)))
            if r["err"] is None:
                mon.check(f["kind"] == "file", "swallowed", f"{lab}: the error does not reach the caller")
                d = "the result" if r["result"] is None else same(r["result"], want)
                mon.check(d is None, "silent", f"{lab}: goes through, but {d} differs from the undisturbed run")
                continue
            mon.count("failed inputs", f["kind"] == "file")
            mon.check(not r["changed"], "damage", f"{lab}: {r['changed'][:4]}")
            mon.seen(which, f.get("site"), f.get("act"), f.get("how"), os.path.basename(f.get("path", ""))[:6], before is None)
        mon.check(err is None, "recovery", f"{what}: after {[label(f) for f in faults]} the undisturbed run fails: {err}")
        mon.check(got is not None, "recovery", f"{what}: after failures the undisturbed run writes nothing")
        d = same(got, want)
        mon.check(d is None, "recovery", f"{what}: {d} differs from a run without failures before, {[label(f) for f in faults]}")
        mon.count("recovered")
        st.put(before)
    for _ in range(max(2, tries // 3)):
        f = dict(kind="kill", **point())
        s0 = state(w.root)
        died = False
        try:
            c22.isolated(st.killed, f, writes)
        except OSError as exc:
            died = "died" in str(exc)
            if not died:
                raise
        if not died:
            mon.count("kills not reached")
            st.put(before)
            continue
        s1 = state(w.root)
        # what a killed process could not tidy up: scratch files beside the output, under other names than any result
        left = [p for p in s1 if p not in s0 and os.path.dirname(p) == os.path.dirname(os.path.relpath(st.out, w.root))
                and p != os.path.relpath(st.out, w.root) and not p.endswith(".mat")]
        ch = changes(s0, {p: h for p, h in s1.items() if p not in left})
        mon.check(not ch, "damage", f"{what}, {label(f)}: {ch[:4]}")
        for p in left:
            os.unlink(os.path.join(w.root, p))
        mon.count("faults:kill")
        mon.seen(which, f["site"], "kill", before is None)
    mon.count("files watched", len(state(w.root)))
    # leave the result for the next step
    err, _, _ = c22.isolated(st.clean)
    mon.check(err is None, "recovery", f"{what}: after a kill: {err}")
    d = same(loadmat(st.out), want)
    mon.check(d is None, "recovery", f"{what}: {d} differs after a kill")
    mon.count("recovered")


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def run(case, rng, mon):
    fam = case["fam"]
    root = os.path.join(mon.scratch, "w")
    if fam == "calib":
        w, name, fl, *_ = c18.build(root, rng, n=int(rng.integers(4, 12)))
    else:
        kind = "front" if fam == "saf" else str(rng.choice(["plain", "pv", "capped", "seam", "sparse"]))
        w, name, fl = c12.build(root, kind, rng, c12._S["topo"], c12._S["path"])
        w.write_climatology()
        w.write_float(name, fl)
    cfg = copy.deepcopy(w.cfg)
    n = fl["PRES"].shape[1]
    # results of other floats
    for d in ("FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY"):
        for x in ("map_", "cal_", "calseries_"):
            with open(os.path.join(cfg[d], w.float_dir.strip("/"), f"{x}4900999.mat"), "wb") as fh:
                fh.write(rng.bytes(40))
    older = rng.random() < 0.6 and n > 2
    if fam != "calib":
        if older:
            k = int(rng.integers(1, n))
            w.write_float(name, world.subset_float(fl, np.arange(k)))
            err, _, _ = c22.isolated(Step("map", w, name, cfg).clean)
            if err is None:
                w.write_float(name, fl)
            else:                                          # none of the first profiles can be mapped
                w.write_float(name, fl)
                older = False
        trial(mon, rng, Step("map", w, name, cfg), read(w.mapped_path(name)), fam, 6)
    else:
        if older:
            k = int(rng.integers(2, n))
            savemat(w.series_path(name), c18.settings(world.subset_float(fl, np.arange(k)), use_pres_gt=float(rng.uniform(0, 200))))
        trial(mon, rng, Step("series", w, name, cfg), read(w.series_path(name)), fam, 8)
        two = n >= 6 and rng.random() < 0.4
        sets = c18.settings(fl, np.where(np.arange(n) < n // 2, 1, 2) if two else None, [[0, -1]] if two else int(rng.choice([-1, 0, 1])),
                            use_pres_gt=float(rng.uniform(0, 200)))
        if sets["max_breaks"].ravel()[0] == 1 and rng.random() < 0.7:
            sets["breaks"] = np.array([[fl["PROFILE_NO"].ravel()[n // 2] + 0.5]])
        if older:
            savemat(w.series_path(name), sets | dict(max_breaks=np.array([[-1]]), breaks=np.zeros((0, 0)), calseries=np.ones((1, n))))
            err, _, _ = c22.isolated(Step("fit", w, name, cfg).clean)
            mon.check(err is None, "clean", f"calibration with an offset fails: {err}")
        savemat(w.series_path(name), sets)
        trial(mon, rng, Step("fit", w, name, cfg), read(w.calib_path(name)), fam, 8)
    mon.sample = dict(fam=fam, profiles=n, earlier=bool(older), counters={k: v for k, v in mon.counters.items() if k.startswith("faults")})
