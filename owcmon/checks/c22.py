"""C22 floats processed together"""
import copy
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import traceback

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c18

ID = "C22"
RULE = ("A case is 3-4 floats over one climatology (each excludes its own casts from it), each taken through mapping, preparation and "
        "calibration alone in a fresh process, and then in several schedules: in sequence, step by step, repeatedly, between floats that fail, "
        "with the random generators disturbed, and in process pools. Distinct by (family, schedule, floats).")
REQUIRE = {"schedules": (30, 400), "results compared": (250, 3500), "capped": (3, 35), "pool runs": (6, 80), "failures between": (15, 200),
           "own casts": (10, 130), "seed states": (25, 350), "fits with breaks": (8, 110), "repeats": (5, 70), "pids": (12, 160), "shared configurations": (60, 800),
           "elevation files": (6, 80), "tables of boxes": (4, 60), "settings of their own": (2, 30), "climatologies": (2, 30), "relative": (8, 110)}
ASSUMPTIONS = ["floats have files of their own; no two runs of the same float at the same time"]
_S = {}
RANDOM = ("pcond_factor_err", "cal_SAL_err", "cal_COND_err", "time_deriv_err", "sta_rms", "sta_SAL_err")


def setup(scratch):
    c12.setup(scratch)
    _S["topo2"] = os.path.join(scratch, "tbase2.int")
    world.write_topo(_S["topo2"], world.make_topo("smooth", 99))
    import pyowc.calibration  # noqa
    import pyowc.configuration  # noqa


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, plain=(3 * k, 9), capped=(4 * k, 9), pv=(3 * k, 9), front=(2 * k, 9), seam=(2 * k, 9))


# ------------------------------------------------------------------------------- processes

def isolated(fn, *args):
    """fn in a forked child of its own; its value, or the text of what went wrong"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        os.close(r)
        try:
            data = pickle.dumps((True, fn(*args)))
        except BaseException:  # noqa
            data = pickle.dumps((False, traceback.format_exc()))
        with os.fdopen(wr, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise OSError("a child process died")
    ok, val = pickle.loads(data)
    if not ok:
        raise OSError("a child process failed:\n" + val)
    return val


def job(task):
    """one float, some steps; -> (float, {step: error or None}, pid)"""
    name, cfg, fdir, steps, series, seed, sets = task
    import contextlib
    import io
    import warnings
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    res = {}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for s in steps:
            if seed is not None:
                np.random.seed(seed)
                random.seed(seed)
            try:
                if s == "map":
                    update_salinity_mapping(fdir, cfg, name)
                elif s == "series":
                    set_calseries(fdir, name, cfg)
                    d = {k: v for k, v in loadmat(series).items() if not k.startswith("__")}
                    d.update(sets)
                    savemat(series, d)
                else:
                    calc_piecewisefit(fdir, name, cfg)
                res[s] = None
            except Exception as exc:  # noqa
                res[s] = f"{type(exc).__name__}: {str(exc)[:150]}"
    return name, res, os.getpid()


def in_sequence(tasks):
    return [job(t) for t in tasks]


def in_pool(tasks, n, method):
    """at the same time; method: how the tasks are handed out"""
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n) as pool:
        if method == "map":
            return pool.map(job, tasks, chunksize=1)
        return list(pool.imap_unordered(job, tasks))


# ------------------------------------------------------------------------------- worlds

def floats(rng, w, name, fl):
    """more floats around the first; some are those of climatology casts"""
    own = sorted({c["source"].split("_")[0] for (_, typ), cs in w.casts.items() if typ == 2 for c in cs})
    names = [name] + [x for x in own if x != name][:1]
    while len(names) < int(rng.integers(3, 5)):
        names.append(str(int(rng.integers(10 ** 6, 9 * 10 ** 6))))
    res = {name: fl}
    lon0, lat0 = float(np.nanmedian(fl["LONG"])), float(np.nanmedian(fl["LAT"]))
    from .. import mapmodel
    for x in names[1:]:
        n = int(rng.integers(3, 7))
        lon, lat, t = world.track(rng, n, lon0 + rng.normal(), lat0 + rng.normal())
        for j in range(n):
            if mapmodel.near_box_edge(lon[j], lat[j]):
                lon[j] += 0.06
                lat[j] += 0.06
        f = world.make_float(rng, w.water, lon % 360, lat, t, nlev=int(rng.integers(12, 26)), pmax=rng.uniform(900, 1900))
        res[x] = f
    return res, set(own)


def other_topo(root, w):
    """constants like those of the world, but with another elevation file"""
    d = os.path.join(root, "constants2")
    if not os.path.exists(d):
        shutil.copytree(w.cfg["CONFIG_DIRECTORY"], d, ignore=shutil.ignore_patterns("tbase.int"))
        os.link(_S["topo2"], os.path.join(d, "tbase.int"))
    return d


def other_climatology(root, w):
    """the casts of the world, a little saltier"""
    d = os.path.join(root, "climatology2")
    if not os.path.exists(d):
        shutil.copytree(w.cfg["HISTORICAL_DIRECTORY"], d)
        for sub, _, files in os.walk(d):
            for f in files:
                m = {k: v for k, v in loadmat(os.path.join(sub, f)).items() if not k.startswith("__")}
                m["sal"] = m["sal"] + 0.03
                savemat(os.path.join(sub, f), m)
    return d


def changed(a, b):
    return {k for k in a if a[k] != b.get(k)}


def other_table(w):
    """a table of boxes that leaves out the type with the fewest casts"""
    n = [sum(len(cs) for (row, typ), cs in w.casts.items() if typ == k and w.table[row, k + 1] == 1) for k in range(3)]
    table = w.table.copy()
    table[:, 1 + int(np.argmin([x or 10 ** 9 for x in n]))] = 0
    savemat(os.path.join(w.cfg["CONFIG_DIRECTORY"], "boxes2.mat"), {"la_wmo_boxes": table})
    return "boxes2.mat"


def other_front(w):
    """typical profiles about the front, a little colder"""
    m = {k: v for k, v in loadmat(os.path.join(w.cfg["CONFIG_DIRECTORY"], w.cfg["CONFIG_SAF"])).items() if not k.startswith("__")}
    for k in m:
        if k.upper().startswith("T"):
            m[k] = m[k] - 0.7
    savemat(os.path.join(w.cfg["CONFIG_DIRECTORY"], "front2.mat"), m)
    return "front2.mat"


def failing(rng, root, fl, k):
    """sources that make a step fail"""
    kind = ["missing", "corrupt", "nowhere", "incomplete", "shapes", "midway"][k % 6]
    src = copy.deepcopy(fl)
    if kind == "nowhere":
        src["LONG"] = (np.nan_to_num(src["LONG"], nan=100.0) + 180) % 360
    elif kind == "incomplete":
        del src["DATES"]
    elif kind == "shapes":
        src["LONG"] = src["LONG"][:, :-1]
    elif kind == "midway":                      # the last profiles cannot be dealt with
        src["LAT"] = src["LAT"].copy()
        src["LAT"][0, -1] = 250.0
    return kind, src


def run(case, rng, mon):
    home = os.getcwd()
    try:
        schedules(case, rng, mon)
    finally:
        os.chdir(home)


def schedules(case, rng, mon):
    fam = case["fam"]
    root = os.path.join(mon.scratch, "w")
    w, name, fl = c12.build(root, fam, rng, c12._S["topo"], c12._S["path"])
    w.write_climatology()
    fls, own = floats(rng, w, name, fl)
    cfgs, sets = {}, {}
    for i, (x, f) in enumerate(fls.items()):
        w.write_float(x, f)
        cfgs[x] = copy.deepcopy(w.cfg)
        if i and rng.random() < 0.5:             # settings of its own
            cfgs[x]["MAP_P_EXCLUDE"] = int(rng.choice([0, 80, 200]))
            cfgs[x]["MAPSCALE_LONGITUDE_SMALL"] = float(w.cfg["MAPSCALE_LONGITUDE_SMALL"] * rng.uniform(0.5, 1))
            cfgs[x]["MAPSCALE_LATITUDE_SMALL"] = 0.1
        if i and (fam == "pv" or rng.random() < 0.3):
            # another elevation file, or another climatology, in the same layout
            if fam == "pv" or rng.random() < 0.5:
                cfgs[x]["CONFIG_DIRECTORY"] = other_topo(root, w)
                mon.count("elevation files", 2)
            else:
                cfgs[x]["HISTORICAL_DIRECTORY"] = other_climatology(root, w)
                mon.count("climatologies", 2)
        if i and rng.random() < 0.4 and "CONFIG_DIRECTORY" not in changed(cfgs[x], w.cfg):
            cfgs[x]["CONFIG_WMO_BOXES"] = other_table(w)
            mon.count("tables of boxes", 2)
        if i and w.cfg["MAP_USE_SAF"] and rng.random() < 0.5 and "CONFIG_DIRECTORY" not in changed(cfgs[x], w.cfg):
            cfgs[x]["CONFIG_SAF"] = other_front(w)
            mon.count("front files", 2)
        if i and rng.random() < 0.3:
            for k, v in (("MAP_USE_PV", int(rng.integers(2))), ("CONFIG_MAX_CASTS", int(rng.integers(12, 90))), ("MAP_P_DELTA", int(rng.choice([100, 250, 400]))),
                         ("MAPSCALE_AGE_LARGE", float(rng.uniform(12, 25))), ("MAPSCALE_PHI_LARGE", 0.3)):
                if rng.random() < 0.5:
                    cfgs[x][k] = v
            mon.count("settings of their own")
        n = f["PRES"].shape[1]
        most = int(rng.choice([-1, 0, 1, 1]))
        sets[x] = dict(max_breaks=np.array([[most]]), use_pres_gt=np.array([[float(rng.choice([50, 200]))]]) if rng.random() < 0.4 else [])
        if most == 1 and n >= 4:
            sets[x]["breaks"] = np.array([[f["PROFILE_NO"].ravel()[n // 2] + 0.5]])
            mon.count("fits with breaks")
        mon.count("own casts", x in own)
    mon.count("capped", fam == "capped")
    bad = {}
    for k in range(6):
        kind, src = failing(rng, root, fl, k)
        x = f"890000{k}"
        bad[x] = kind
        if kind == "corrupt":
            with open(w.source_path(x), "wb") as fh:
                fh.write(open(w.source_path(name), "rb").read()[:300])
        elif kind != "missing":
            w.write_float(x, src)

    outs = {}

    def place(tag, relative=False):
        """configurations that write to a place of their own; floats with the same settings share the same object"""
        res, kinds = {}, {}
        for x in list(fls) + list(bad):
            c = copy.deepcopy(cfgs.get(x, w.cfg))
            for key in ("FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY"):
                c[key] = os.path.join(root, tag, key)
                os.makedirs(c[key], exist_ok=True)
            if relative:
                c.update({k: os.path.relpath(v, root) for k, v in c.items() if k.endswith("DIRECTORY")})
            res[x] = kinds.setdefault(core.fingerprint(c), c)
        mon.count("shared configurations", len(res) - len(kinds))
        return res

    def paths(c, x):
        return (os.path.join(c["FLOAT_MAPPED_DIRECTORY"], f"map_{x}.mat"), os.path.join(c["FLOAT_CALIB_DIRECTORY"], f"calseries_{x}.mat"),
                os.path.join(c["FLOAT_CALIB_DIRECTORY"], f"cal_{x}.mat"))

    def task(conf, x, steps, seed=None):
        return (x, conf[x], w.float_dir, steps, paths(conf[x], x)[1], seed, sets.get(x, {}))

    ALL = ("map", "series", "fit")
    alone = {}
    for x in fls:
        conf = place("alone" + x)
        _, errs, _ = isolated(job, task(conf, x, ALL, 3))
        mon.calls += 3
        alone[x] = (errs, [loadmat(p) if os.path.exists(p) else None for p in paths(conf[x], x)])
    mon.check(any(e["map"] is None for e, _ in alone.values()), "alone", f"no float can be mapped: {[e for e, _ in alone.values()]}")

    home = os.getcwd()
    order = list(fls)
    plans = ["sequence", "steps", "repeat", "pool"]
    for tag in plans:
        rel = rng.random() < 0.4
        mon.count("relative", rel)
        conf = place(tag, rel)
        os.chdir(root if rel else home)
        perm = [order[i] for i in rng.permutation(len(order))]
        fails = [str(x) for x in rng.permutation(list(bad))[:int(rng.integers(1, 5))]]
        seeds = [int(rng.integers(1, 2 ** 31)) if rng.random() < 0.7 else None for _ in range(40)]
        mon.count("seed states", sum(s is not None for s in seeds[:6]))
        if tag == "sequence":
            tasks = [task(conf, x, ALL, seeds[i]) for i, x in enumerate(perm)]
            for x in fails:
                tasks.insert(int(rng.integers(len(tasks) + 1)), task(conf, x, ALL))
            got = isolated(in_sequence, tasks)
        elif tag == "steps":
            tasks = []
            for s in ALL:
                tasks += [task(conf, perm[i], (s,), seeds[i]) for i in rng.permutation(len(perm))]
                tasks.insert(int(rng.integers(len(tasks) + 1)), task(conf, fails[0], ALL))
            got = isolated(in_sequence, tasks)
        elif tag == "repeat":
            # everything twice; the second time from scratch
            tasks = [task(conf, x, ALL, seeds[i]) for i, x in enumerate(perm)]
            other = place("repeat2", rel)
            tasks += [task(other, x, ALL, seeds[i + 5]) for i, x in enumerate(perm[::-1])]
            for x in fails:
                tasks.insert(int(rng.integers(len(tasks) + 1)), task(conf, x, ALL))
            got = isolated(in_sequence, tasks)
            conf2 = other
        else:
            tasks = [task(conf, x, ALL, seeds[i]) for i, x in enumerate(perm)]
            for x in fails:
                tasks.insert(int(rng.integers(len(tasks) + 1)), task(conf, x, ALL))
            method = str(rng.choice(["map", "unordered"]))
            got = isolated(in_pool, tasks, int(rng.integers(2, 5)), method)
            mon.count("pool runs")
        mon.calls += 3 * len(tasks)
        os.chdir(root)                           # (relative paths below)
        mon.count("calls:job", len(tasks))
        mon.count("pids", len({g[2] for g in got}))
        mon.count("failures between", sum(any(e for e in g[1].values()) for g in got if g[0] in bad))
        for place_, c in (("", conf),) + ((("again ", conf2),) if tag == "repeat" else ()):
            for x in fls:
                errs = {}
                for g in got:
                    if g[0] == x:
                        errs.update({s: e for s, e in g[1].items()})
                what = f"{fam}, {tag}{' ' + place_ if place_ else ''}, float {x} of {perm}, with {[bad[f] for f in fails]} failing"
                mon.check({s: e is None for s, e in errs.items()} == {s: e is None for s, e in alone[x][0].items()}, "errors",
                          f"{what}: {errs}, alone {alone[x][0]}")
                compare(mon, what, [loadmat(p) if os.path.exists(p) else None for p in paths(c[x], x)], alone[x][1])
                mon.count("repeats", bool(place_))
        mon.count("schedules")
        mon.seen(fam, tag, len(order), len(fails), [bad[f] for f in fails])
        shutil.rmtree(os.path.join(root, tag))
        os.chdir(home)
    mon.sample = dict(floats=order, own=sorted(own & set(order)), failing=[bad[f] for f in fails])


def compare(mon, what, got, want):
    for g, h, tag in zip(got, want, ("mapped file", "settings file", "calibration file")):
        mon.check((g is None) == (h is None), "exists", f"{what}: the {tag} {'is missing' if g is None else 'exists'}")
        if g is None:
            continue
        d = world.mat_equal(g, h, rtol=1e-9, atol=1e-9, skip=RANDOM)
        mon.check(d is None, "differs:" + tag.split()[0], f"{what}: {d} of the {tag} differs from the float processed alone")
        if tag.startswith("cal"):
            for k in RANDOM:
                mon.check(np.array_equal(np.isnan(g[k]), np.isnan(h[k])), "differs:calibration", f"{what}: {k} is missing elsewhere than alone")
        mon.count("results compared")
