"""C28 what a step leaves behind in the process"""
import contextlib
import copy
import gc
import io
import locale
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import tracemalloc
import warnings

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c18, c20
from .c22 import isolated

ID = "C28"
RULE = ("A case is a fresh process in a state of its own (error handling, filters, styles, umask, directory, handlers) in which the steps run one "
        "after another, some of them failing at different places; the state of the process is taken before and after each. Distinct by "
        "(family, step, failure).")
REQUIRE = {"steps watched": (120, 1500), "failing steps": (40, 500), "state items": (1500, 20000), "plots": (6, 80), "maps": (12, 150), "fits": (12, 150),
           "repeated runs": (12, 150), "successful": (50, 600), "one place": (1, 20)}
ASSUMPTIONS = ["the global random state and open figures are not judged", "modules and caches loaded for the first time are not judged"]


def setup(scratch):
    c20.setup(scratch)
    import pyowc  # noqa
    import matplotlib.pyplot as plt
    plt.figure()
    plt.savefig(os.path.join(scratch, "warm.eps"))
    plt.close("all")


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, map=(7 * k, 8), fit=(7 * k, 6), plot=(4 * k, 12), repeat=(4 * k, 9))


# ------------------------------------------------------------------------------- the state of a process

def descriptors():
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            res.append((int(fd), os.readlink("/proc/self/fd/" + fd)))
        except OSError:
            pass
    return sorted(x for x in res if not x[1].startswith("/proc/") and "/matplotlib/" not in x[1])


def children():
    try:
        os.waitpid(-1, os.WNOHANG)
        return "children"
    except ChildProcessError:
        return "none"


def state(tmp):
    import matplotlib
    gc.collect()
    return {"open files": descriptors(), "threads": sorted(t.name for t in threading.enumerate()), "processes": children(),
            "active children": len(multiprocessing.active_children()), "directory": os.getcwd(), "environment": dict(os.environ),
            "floating-point errors": np.geterr(), "numpy printing": {k: str(v) for k, v in np.get_printoptions().items()},
            "warning filters": [tuple(str(x) for x in f) for f in warnings.filters], "showwarning": id(warnings.showwarning),
            "plotting style": {k: str(v) for k, v in matplotlib.rcParams.items()},
            "plotting backend": matplotlib.get_backend(), "locale": locale.setlocale(locale.LC_ALL), "module path": list(sys.path), "arguments": list(sys.argv),
            "signal handlers": [str(signal.getsignal(s)) for s in range(1, 32) if s not in (9, 19)], "stdout": id(sys.stdout), "stderr": id(sys.stderr),
            "excepthook": id(sys.excepthook), "random": hash(random.getstate()), "recursion limit": sys.getrecursionlimit(), "temporary files": sorted(os.listdir(tmp)),
            "umask": mask(), "alarm": signal.getitimer(signal.ITIMER_REAL), "interactive": matplotlib.is_interactive(),
            "default encoding": sys.getdefaultencoding(), "switch interval": sys.getswitchinterval()}


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def odd_state(seed, cwd):
    """a state that is not the default, so that a reset shows as well"""
    import matplotlib
    r = np.random.default_rng(seed)
    np.seterr(divide="ignore", over=str(r.choice(["ignore", "warn"])), invalid=str(r.choice(["ignore", "warn"])))
    np.set_printoptions(precision=int(r.integers(4, 9)), linewidth=int(r.integers(60, 150)))
    warnings.resetwarnings()
    warnings.filterwarnings("ignore")
    warnings.filterwarnings("default", category=DeprecationWarning, module="nobody")
    matplotlib.rcParams["lines.linewidth"] = 1.9
    matplotlib.rcParams["font.size"] = float(r.integers(7, 12))
    matplotlib.rcParams["axes.grid"] = bool(r.random() < 0.5)
    matplotlib.rcParams.update({
        "figure.max_open_warning": int(r.integers(30, 60)), "lines.markersize": 5.5, "lines.markeredgewidth": 0.9, "axes.linewidth": 0.9,
        "axes.titlesize": 11.0, "axes.labelsize": 9.5, "xtick.labelsize": 8.5, "ytick.labelsize": 8.5, "legend.fontsize": 8.0,
        "figure.figsize": [6.1, 4.7], "figure.dpi": 97.0, "image.cmap": "magma", "axes.unicode_minus": False, "axes.formatter.useoffset": False,
        "axes.facecolor": "0.98", "grid.linewidth": 0.7, "errorbar.capsize": 1.0, "mathtext.fontset": "cm"})
    os.umask(int(r.choice([0o022, 0o027, 0o077])))
    os.environ["OWC_USER"] = "x"
    signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    sys.argv = ["owc", "a"]
    random.seed(int(seed))
    os.chdir(cwd)


def watched(tasks, seed, cwd, tmp):
    """run the tasks here; -> [(name, error, {item: (before, after)}, new modules?)]"""
    res = []
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    import matplotlib.pyplot as plt
    sys.stdout = out = io.StringIO()
    odd_state(seed, cwd)
    for name, fn, args, prepare, undo in tasks:
        if prepare:
            prepare()
        np.random.seed(1)
        mods = len(sys.modules)
        before = state(tmp)
        err = None
        try:
            fn(*args)
        except Exception as exc:  # noqa
            err = f"{type(exc).__name__}: {str(exc)[:120]}"
        after = state(tmp)
        plt.close("all")
        grown = len(sys.modules) != mods
        diff = {k: (brief(before[k], after[k])) for k in before if before[k] != after[k]}
        if "stdout" in diff or sys.stdout is not out:
            sys.stdout = out
        if undo:
            undo()
        res.append((name, err, diff, grown, len(before)))
        # the next step starts from the same state again
        if diff:
            sys.stdout = out
            odd_state(seed, cwd)
    return res


def brief(a, b):
    if isinstance(a, dict):
        return str({k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})[:200]
    if isinstance(a, list):
        return f"-{[x for x in a if x not in b][:3]} +{[x for x in b if x not in a][:3]}"[:300]
    return f"{a} -> {b}"[:200]


class Nowhere(io.TextIOBase):
    def write(self, s):
        return len(s)


def grows(tasks, times, cwd):
    """memory allocated and still held after each repetition of the tasks"""
    os.chdir(cwd)
    held = []
    with contextlib.redirect_stdout(Nowhere()):
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        for i in range(times + 2):
            if i == 2:
                tracemalloc.start()
            for _, fn, args, _, _ in tasks:
                np.random.seed(1)
                fn(*args)
            gc.collect()
            if i >= 2:
                held.append(tracemalloc.get_traced_memory()[0])
    return held


# ------------------------------------------------------------------------------- worlds

def swap(path, data):
    """(prepare, undo) that replace a file for a while; data None: it is away"""
    keep = {}

    def prepare():
        keep["is"] = open(path, "rb").read() if os.path.exists(path) else None
        if os.path.exists(path):
            os.unlink(path)
        if data is not None:
            with open(path, "wb") as f:
                f.write(data if isinstance(data, bytes) else keep["is"][:int(len(keep["is"]) * data)])

    def undo():
        if os.path.exists(path):
            os.unlink(path)
        if keep["is"] is not None:
            with open(path, "wb") as f:
                f.write(keep["is"])
    return prepare, undo


def away(path):
    def prepare():
        shutil.move(path, path + ".away")

    def undo():
        shutil.move(path + ".away", path)
    return prepare, undo


def run(case, rng, mon):
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries, load, print_cfg
    from pyowc.plot.dashboard import plot_diagnostics
    fam = case["fam"]
    root = os.path.join(mon.scratch, "a")
    if fam in ("map", "repeat") and not (fam == "repeat" and rng.random() < 0.4):
        kind = str(rng.choice(["plain", "pv", "front", "capped", "station", "sparse"], p=[0.15, 0.2, 0.2, 0.15, 0.2, 0.1]))
        if fam == "map" and case["k"] % 5 == 0:
            kind = "station"
        w, name, fl = c12.build(root, kind, rng, c12._S["topo"], c12._S["path"])
        if kind == "station":
            # all at the very same place, near the float
            key = max(w.casts, key=lambda k: len(w.casts[k]))
            w.casts = {key: [c for cs in w.casts.values() for c in cs][:60]}
            at = {q: float(np.nanmedian(fl[v])) for q, v in (("long", "LONG"), ("lat", "LAT"))}
            for c in w.casts[key]:
                c["long"], c["lat"] = at["long"] % 360, at["lat"]
                c["source"] = "20000001"
            mon.count("one place")
        w.write_climatology()
        w.write_float(name, fl)
        mapping = True
    else:
        w, name, fl, _, _, _ = c18.build(root, rng, n=int(rng.integers(4, 9)))
        mapping = False
    for x in ("coastline", "bathymetry"):
        shutil.copytree(os.path.join(c20._S["shapes"], x), os.path.join(w.cfg["CONFIG_DIRECTORY"], x))
    w.cfg["FLOAT_PLOTS_FORMAT"] = str(rng.choice(["png", "eps"]))
    none = (None, None)
    a_map = (update_salinity_mapping, (w.float_dir, w.cfg, name))
    a_ser = (set_calseries, (w.float_dir, name, w.cfg))
    a_fit = (calc_piecewisefit, (w.float_dir, name, w.cfg))
    a_plot = (plot_diagnostics, (w.float_dir, name, w.cfg, 1))

    def simple():
        s = {k: v for k, v in loadmat(w.series_path(name)).items() if not k.startswith("__")}
        s["max_breaks"] = np.array([[0]])
        savemat(w.series_path(name), s)

    def odd_series():
        simple()
        s = {k: v for k, v in loadmat(w.series_path(name)).items() if not k.startswith("__")}
        s["max_breaks"] = np.array([[0], [0], [1]])
        savemat(w.series_path(name), s)

    def lacking(*keys):
        c = dict(w.cfg)
        for k in keys:
            c.pop(k)
        return c

    def fresh_map():
        if os.path.exists(w.mapped_path(name)):
            os.unlink(w.mapped_path(name))

    def fresh_and(pair):
        return (lambda: (fresh_map(), pair[0]()), pair[1])

    clim = sorted(os.path.join(d, f) for d, _, fs in os.walk(w.cfg["HISTORICAL_DIRECTORY"]) for f in fs)
    src, ser, cal, mpd = (p(name) for p in (w.source_path, w.series_path, w.calib_path, w.mapped_path))
    tbase = os.path.join(w.cfg["CONFIG_DIRECTORY"], "tbase.int")
    tasks = [("print_cfg", print_cfg, (w.cfg,)) + none, ("load", load, ()) + none]
    if mapping:
        tasks += [("map",) + a_map + (fresh_map, None)] * 2
        bad = [("map without source",) + a_map + swap(src, None), ("map of half a source",) + a_map + swap(src, 0.4),
               ("map without bathymetry",) + a_map + fresh_and(swap(tbase, None)), ("map with little bathymetry",) + a_map + fresh_and(swap(tbase, b"x" * 999)),
               ("map without boxes",) + a_map + fresh_and(swap(os.path.join(w.cfg["CONFIG_DIRECTORY"], "wmo_boxes.mat"), None)),
               ("map without output directory",) + a_map + fresh_and(away(os.path.dirname(mpd))),
               ("map without climatology",) + a_map + fresh_and(away(w.cfg["HISTORICAL_DIRECTORY"])),
               ("map without setting", update_salinity_mapping, (w.float_dir, lacking("MAP_P_DELTA"), name), fresh_map, None),
               ("map onto a damaged file",) + a_map + swap(mpd, b"MATLAB 5.0" + b"?" * 300)]
        if w.cfg["MAP_USE_SAF"]:
            bad.append(("map without front",) + a_map + fresh_and(swap(os.path.join(w.cfg["CONFIG_DIRECTORY"], "TypicalProfileAroundSAF.mat"), None)))
        for f in clim[:2]:
            bad.append(("map with a damaged climatology file", update_salinity_mapping, (w.float_dir, dict(w.cfg, HISTORICAL_DIRECTORY=w.cfg["HISTORICAL_DIRECTORY"] + "//"), name))
                       + fresh_and(swap(f, 0.5)))
        tasks += [bad[i] for i in rng.permutation(len(bad))[:4]]
        tasks += [("map",) + a_map + (fresh_map, None)]
    tasks += [("series",) + a_ser + (lambda: os.path.exists(ser) and os.unlink(ser), None), ("fit",) + a_fit + (simple, None), ("fit",) + a_fit + none,
              ("series",) + a_ser + none]
    bad = [("series without source",) + a_ser + swap(src, None), ("series of a damaged file",) + a_ser + swap(ser, b"MATLAB"),
           ("fit without settings",) + a_fit + swap(ser, None), ("fit without mapped data",) + a_fit + swap(mpd, None), ("fit of half a source",) + a_fit + swap(src, 0.4),
           ("fit without output directory", calc_piecewisefit, (w.float_dir, name, dict(w.cfg, FLOAT_CALIB_POSTFIX="/x.mat"))) + none,
           ("fit with odd settings",) + a_fit + (odd_series, simple), ("fit without setting", calc_piecewisefit, (w.float_dir, name, lacking("MAPSCALE_PHI_SMALL"))) + none,
           ("fit without bathymetry",) + a_fit + swap(tbase, None)]
    tasks += [bad[i] for i in rng.permutation(len(bad))[:5]] + [("fit",) + a_fit + none]
    if fam == "plot":
        tasks += [("plot",) + a_plot + none] * 2
        bad = [("plot without calibration",) + a_plot + swap(cal, None), ("plot without mapped data",) + a_plot + swap(mpd, None),
               ("plot without directory",) + a_plot + away(w.cfg["FLOAT_PLOTS_DIRECTORY"]),
               ("plot without coast line",) + a_plot + away(os.path.join(w.cfg["CONFIG_DIRECTORY"], "coastline")),
               ("plot in no format", plot_diagnostics, (w.float_dir, name, dict(w.cfg, FLOAT_PLOTS_FORMAT="xyz"), 1)) + none]
        tasks += [bad[i] for i in rng.permutation(len(bad))[:3]] + [("plot",) + a_plot + none]

    if fam == "repeat":
        steps = [("series",) + a_ser + none, ("fit",) + a_fit + none]
        if mapping:
            steps.insert(0, ("map", lambda *a: (fresh_map(), update_salinity_mapping(*a)), a_map[1]) + none)

        def once(tasks, n, cwd):
            with contextlib.redirect_stdout(io.StringIO()):
                if mapping:
                    update_salinity_mapping(*a_map[1])
                set_calseries(*a_ser[1])
            simple()
            return grows(tasks, n, cwd)

        held = isolated(once, steps, 5, mon.scratch)
        mon.calls += 15
        more = np.diff(held)
        # (what is held for the first time may be some cache)
        mon.check(np.median(more) < 20000, "memory", f"{[s[0] for s in steps]} over and over: {list(map(int, more))} more bytes are held after each time")
        mon.count("repeated runs", len(held))
        mon.seen(fam, mapping, len(held))
        mon.sample = dict(steps=[s[0] for s in steps], held=[int(x) for x in held])
        return
    got = isolated(watched, tasks, int(rng.integers(1, 10 ** 6)), mon.scratch, os.path.join(mon.scratch, "tmp"))
    known = set()
    for i, (tag, err, diff, grown, items) in enumerate(got):
        mon.calls += 1
        mon.count("calls:" + tag)
        mon.count("steps watched")
        mon.count("state items", items)
        mon.count("failing steps", err is not None)
        mon.count("successful", err is None)
        for k in ("plot", "map", "fit"):
            mon.count(k + "s", tag == k and err is None)
        if tag in ("map", "series", "fit", "plot", "load", "print_cfg"):
            mon.check(err is None, "works:" + tag, f"{tag} fails with {err}")
        for k, v in diff.items():
            if k == "warning filters" and grown:
                mon.count("filters with new modules")
                continue
            mon.fail("leaves:" + k, f"{tag}{' (fails with ' + err + ')' if err else ''} changes {k}: {v}")
        known.add((tag, err is None))
        mon.evaluations += items
        mon.seen(tag, err is None, err.split(":")[0] if err else "")
    mon.sample = dict(steps=[(t, e) for t, e, _, _, _ in got][:14])
