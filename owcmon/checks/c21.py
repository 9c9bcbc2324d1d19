"""C21 files written by the steps"""
import copy
import os
import shutil
import sys

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c18, c20

ID = "C21"
RULE = ("A case is one float in the default layout and in another (nested float directory, other prefixes, postfixes, directory names, "
        "relative directories, look-alike files of other floats and runs all over the tree); the steps run in some order, some again, "
        "some too early. After every step: file-system events seen by an audit hook, hashes of the whole tree, and the results "
        "of both layouts. Distinct by (family, layout, steps).")
REQUIRE = {"steps": (150, 2000), "files watched": (2000, 30000), "write events": (150, 2000), "layouts compared": (50, 700), "nested": (8, 100),
           "relative": (4, 50), "too early": (8, 100), "plots": (3, 35), "again": (20, 250), "mapped": (20, 300), "inconsistent": (4, 50), "failed": (4, 50)}
ASSUMPTIONS = ["output directories exist", "libraries' own caches (matplotlib) are not files of the user"]
_LOG = {"on": False, "events": []}


def _hook(event, args):
    if not _LOG["on"]:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
                return
            paths = [path]
        elif event in ("os.rename", "os.link", "os.symlink", "shutil.move"):
            paths = list(args[:2]) if event in ("os.rename", "shutil.move") else [args[1]]
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.utime", "os.chown", "shutil.rmtree"):
            paths = [args[0]]
        elif event in ("shutil.copyfile", "shutil.copytree"):
            paths = [args[1]]
        elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
            _LOG["events"].append((event, str(args[0])[:100]))
            return
        else:
            return
        for p in paths:
            if isinstance(p, (str, bytes, os.PathLike)):
                _LOG["events"].append((event, os.path.abspath(os.fsdecode(p))))
    except Exception:  # noqa
        pass


def setup(scratch):
    c20.setup(scratch)
    sys.addaudithook(_hook)


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, map=(12 * k, 4), calib=(12 * k, 3), order=(8 * k, 3), plots=(3 * k, 9))


def snapshot(root):
    res = world.tree_state(root)
    for d, dirs, _ in os.walk(root):
        for x in dirs:
            res[os.path.relpath(os.path.join(d, x), root) + "/"] = "directory"
    return res


def step(mon, name, fn, root, outputs, cfg, *args, catch=None):
    """run one step and judge what it did to the files"""
    before = snapshot(root)
    conf = core.fingerprint(dict(cfg)), list(cfg)
    cwd = os.getcwd()
    _LOG["events"] = []
    _LOG["on"] = True
    try:
        r = mon.call(fn, *args, catch=catch)
    finally:
        _LOG["on"] = False
    events = list(_LOG["events"])
    after = snapshot(root)
    allowed = {os.path.relpath(p, root) for p in outputs}
    failed = isinstance(r, core.Raised)
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if a != b:
            verb = "created" if a is None else "removed" if b is None else "changed"
            mon.check(p in allowed and verb != "removed", "touched", f"{name} {verb} {p}; its output is {sorted(allowed)[:3]}")
    mon.check(failed or allowed <= set(after), "output", f"{name} did not write {sorted(allowed - set(after))[:4]}")
    tmp = os.path.realpath(os.environ["MPLCONFIGDIR"])
    for ev, p in events:
        if ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
            mon.fail("process", f"{name} started a process: {p}")
        real = os.path.realpath(p)
        rel = os.path.relpath(real, os.path.realpath(root))
        mon.count("write events")
        if rel in allowed or real.startswith(tmp) or real.startswith("/dev/"):
            continue
        existed = rel in before or rel + "/" in before or (rel.startswith("..") and os.path.lexists(p))
        mon.check(not existed and not os.path.lexists(p), "event", f"{name}: {ev} on {p}; its output is {sorted(allowed)[:3]}")
    mon.check(os.getcwd() == cwd, "cwd", f"{name} changed the working directory")
    mon.check((core.fingerprint(dict(cfg)), list(cfg)) == conf, "config", f"{name} changed the configuration")
    mon.count("steps")
    mon.count("files watched", len(before))
    return r


def plot_files(w, name, levels):
    names = ["trajectory", "uncalibrated_theta_sal", "calibrated_theta_sal", "salinity_profile", "salinity_curve"]
    names += [f"salinity_variance_{i + 1}" for i in range(levels)]
    names += [f"{t}_salinity_anomaly_{b}" for t in ("uncalibrated", "calibrated") for b in w.cfg["THETA_BOUNDS"]]
    return [os.path.join(w.cfg["FLOAT_PLOTS_DIRECTORY"], f"{name}_{x}.{w.cfg['FLOAT_PLOTS_FORMAT']}") for x in names]


def relocate(w, root, rng):
    """the same world in another layout, with look-alikes"""
    v = copy.copy(w)
    v.root = root
    v.cfg = copy.deepcopy(w.cfg)
    pick = lambda *a: a[int(rng.integers(len(a)))]  # noqa
    v.float_dir = pick("/", "", "run1", "a/b", "/coriolis/", "AOML/./x", "float_source")
    sub = v.float_dir.strip("/")
    for key, old in (("FLOAT_SOURCE_DIRECTORY", "source"), ("FLOAT_MAPPED_DIRECTORY", "mapped"), ("FLOAT_CALIB_DIRECTORY", "calib"),
                     ("FLOAT_PLOTS_DIRECTORY", "plots"), ("CONFIG_DIRECTORY", "constants"), ("HISTORICAL_DIRECTORY", "climatology")):
        v.cfg[key] = os.path.join(root, pick(f"float_{old}", f"data/{old}", f"{old} files", f"x/y/{old}")) + pick("", "/")
        if key.startswith("FLOAT") and rng.random() < 0.2 and key not in ("FLOAT_SOURCE_DIRECTORY", "FLOAT_PLOTS_DIRECTORY"):
            v.cfg[key] = os.path.join(root, "results")     # mapping and calibration side by side
        os.makedirs(os.path.join(v.cfg[key], sub), exist_ok=True)
    v.cfg["FLOAT_SOURCE_POSTFIX"] = pick(".mat", "_raw.mat", ".MAT.mat")
    v.cfg["FLOAT_MAPPED_PREFIX"] = pick("map_", "m-", "old/map_" if False else "MAP")
    v.cfg["FLOAT_MAPPED_POSTFIX"] = pick(".mat", "_v2.mat")
    v.cfg["FLOAT_CALIB_PREFIX"] = pick("cal_", "calib-", "c")
    v.cfg["FLOAT_CALSERIES_PREFIX"] = pick("calseries_", "series-", "cal_series_")
    v.cfg["FLOAT_CALIB_POSTFIX"] = pick(".mat", "_v3.mat")
    v.cfg["FLOAT_PLOTS_FORMAT"] = "png"
    # climatology and constants
    for key, d in (("HISTORICAL_CTD_PREFIX", "historical_ctd/ctd_"), ("HISTORICAL_BOTTLE_PREFIX", "historical_bot/bot_"),
                   ("HISTORICAL_ARGO_PREFIX", "historical_argo/argo_")):
        new = pick("/" + d, "/" + d.split("/")[1] + "x/" + d.split("/")[1], "/" + d.split("_")[1].split("/")[0] + "/v1/c_" + d.split("/")[1])
        src = os.path.dirname(w.cfg["HISTORICAL_DIRECTORY"] + w.cfg[key])
        pre = os.path.basename(w.cfg[key])
        v.cfg[key] = new
        for f in os.listdir(src):
            dst = v.cfg["HISTORICAL_DIRECTORY"] + "/" + new + f[len(pre):]
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(src, f), dst)
    v.cfg["CONFIG_WMO_BOXES"] = pick("wmo_boxes.mat", "boxes argo.mat")
    v.cfg["CONFIG_SAF"] = pick("TypicalProfileAroundSAF.mat", "saf.mat")
    for key in ("CONFIG_WMO_BOXES", "CONFIG_SAF"):
        a = os.path.join(w.cfg["CONFIG_DIRECTORY"], w.cfg[key])
        if os.path.exists(a):
            shutil.copy(a, os.path.join(v.cfg["CONFIG_DIRECTORY"], v.cfg[key]))
    os.link(c12._S["path"], os.path.join(v.cfg["CONFIG_DIRECTORY"], "tbase.int"))
    for x in ("coastline", "bathymetry"):
        shutil.copytree(os.path.join(c20._S["shapes"], x), os.path.join(v.cfg["CONFIG_DIRECTORY"], x))
    return v, sub


def decoys(w, name, rng):
    """files that look like those of the float, but are not the step's"""
    mine = {os.path.abspath(p) for p in (w.source_path(name), w.mapped_path(name), w.series_path(name), w.calib_path(name))}
    dirs = {os.path.join(w.cfg[k], s) for k in ("FLOAT_SOURCE_DIRECTORY", "FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY", "FLOAT_PLOTS_DIRECTORY")
            for s in ("", w.float_dir.strip("/"), "other")} | {w.cfg["CONFIG_DIRECTORY"], w.cfg["HISTORICAL_DIRECTORY"]}
    other = "4900299"
    for d in sorted(dirs):
        os.makedirs(d, exist_ok=True)
        for f in (f"map_{name}.mat", f"cal_{name}.mat", f"calseries_{name}.mat", f"{name}.mat", f"map_{other}.mat", f"cal_{other}.mat", f"{other}.mat",
                  f"{w.cfg['FLOAT_MAPPED_PREFIX']}{other}{w.cfg['FLOAT_MAPPED_POSTFIX']}", f"{w.cfg['FLOAT_CALIB_PREFIX']}{other}{w.cfg['FLOAT_CALIB_POSTFIX']}",
                  f"{w.cfg['FLOAT_CALSERIES_PREFIX']}{name}.mat.bak", f"{w.cfg['FLOAT_CALIB_PREFIX']}{name}.tmp", f"{name}_notes.txt"):
            p = os.path.join(d, f)
            if os.path.abspath(p) not in mine and not os.path.exists(p) and rng.random() < 0.7:
                with open(p, "wb") as fh:
                    fh.write(rng.bytes(int(rng.integers(1, 60))))


def run(case, rng, mon):
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    from pyowc.plot.dashboard import plot_diagnostics
    fam = case["fam"]
    if fam == "map":
        a, name, fl = c12.build(os.path.join(mon.scratch, "a"), str(rng.choice(["plain", "pv", "front", "sparse"])), rng, c12._S["topo"], c12._S["path"])
        a.write_climatology()
        a.write_float(name, fl)
    else:
        a, name, fl, mapped, err, _ = c18.build(os.path.join(mon.scratch, "a"), rng, n=int(rng.integers(4, 11)))
    b, sub = relocate(a, os.path.join(mon.scratch, "b", str(rng.choice(["home", "o w c"]))), rng)
    b.write_float(name, loadmat(a.source_path(name)) and {k: v for k, v in loadmat(a.source_path(name)).items() if not k.startswith("__")})
    if fam != "map":
        shutil.copy(a.mapped_path(name), b.mapped_path(name))
    if fam != "plots":                                # values of settings that mean the same
        v = copy.deepcopy({k: x for k, x in b.cfg.items() if not isinstance(x, str)})
        if rng.random() < 0.5 and a.cfg["MAP_P_EXCLUDE"] == 0 or fam != "map":
            v["MAP_P_EXCLUDE"] = a.cfg["MAP_P_EXCLUDE"] = float(-rng.integers(1, 50))
        for k in ("CONFIG_MAX_CASTS", "MAP_P_DELTA"):
            if rng.random() < 0.3:
                v[k] = np.int64(v[k])
        for k in [k for k in v if k.startswith("MAPSCALE") and rng.random() < 0.3]:
            v[k] = np.float64(v[k]) if v[k] != int(v[k]) or rng.random() < 0.5 else int(v[k])
        b.cfg.update(v)
    decoys(b, name, rng)
    decoys(a, name, rng)
    if sub:
        mon.count("nested")
    what = f"{fam}, float directory {b.float_dir!r}"
    home = os.getcwd()
    relative = rng.random() < 0.35
    if relative:
        os.chdir(b.root)
        for k in b.cfg:
            if k.endswith("DIRECTORY"):
                tail = "/" if b.cfg[k].endswith("/") else ""
                b.cfg[k] = os.path.relpath(b.cfg[k], b.root) + tail
        mon.count("relative")
    try:
        steps(mon, rng, fam, a, b, name, fl, what, update_salinity_mapping, set_calseries, calc_piecewisefit, plot_diagnostics)
    finally:
        os.chdir(home)
    mon.seen(fam, b.float_dir, relative, sorted((k, v) for k, v in b.cfg.items() if k.endswith("FIX")))
    mon.sample = dict(float_dir=b.float_dir, relative=relative, mapped=os.path.relpath(b.mapped_path(name), b.root), calib=os.path.relpath(b.calib_path(name), b.root))


def steps(mon, rng, fam, a, b, name, fl, what, mapping, prepare, fit, plots):
    root = mon.scratch
    todo = {"map": (mapping, lambda w: [w.mapped_path(name)]), "series": (prepare, lambda w: [w.series_path(name)]),
            "fit": (fit, lambda w: [w.calib_path(name)])}

    def go(which, w, catch=None):
        fn, outs = todo[which]
        np.random.seed(0)
        # the tree of both layouts is watched
        return step(mon, f"{what}: {fn.__name__}", fn, root, [os.path.abspath(p) for p in outs(w)], w.cfg,
                    *((w.float_dir, w.cfg, name) if which == "map" else (w.float_dir, name, w.cfg)), catch=catch)

    def both(which, path):
        go(which, a)
        go(which, b)
        d = world.mat_equal(loadmat(path(a)), loadmat(path(b)))
        mon.check(d is None, "layout", f"{what}: {d} of {which} depends on the layout")
        mon.count("layouts compared")

    def without_source(which):
        src = os.path.abspath(b.source_path(name))
        data = open(src, "rb").read()
        if rng.random() < 0.5:
            os.unlink(src)
        else:
            open(src, "wb").write(data[:len(data) // 3])
        r = go(which, b, catch=Exception)
        mon.check(isinstance(r, core.Raised), "early", f"{what}: {which} without a readable source went through")
        open(src, "wb").write(data)
        mon.count("failed")

    if rng.random() < 0.5:
        without_source(str(rng.choice(["map", "series"])))
    if fam == "map":
        if rng.random() < 0.5:
            r = go("fit", b, catch=Exception)
            mon.check(isinstance(r, core.Raised), "early", f"{what}: calibrating without mapped data went through")
            mon.count("too early")
        both("map", lambda w: w.mapped_path(name))
        mon.count("mapped", 2)
        if rng.random() < 0.6:
            both("map", lambda w: w.mapped_path(name))
            mon.count("again")
        both("series", lambda w: w.series_path(name))
        for w in (a, b):
            s = {k: v for k, v in loadmat(w.series_path(name)).items() if not k.startswith("__")}
            s["max_breaks"] = np.array([[0]])
            savemat(w.series_path(name), s)
        both("fit", lambda w: w.calib_path(name))
        return
    order = ["series", "fit"]
    if fam == "order":
        r = go("fit", b, catch=Exception)
        mon.check(isinstance(r, core.Raised), "early", f"{what}: calibrating without settings went through")
        mon.count("too early")
        order = ["series", "fit", "series", "fit", "fit", "series"][:int(rng.integers(3, 7))]
    for k, which in enumerate(order):
        if which == "series":
            both("series", lambda w: w.series_path(name))
            if k == 0 or rng.random() < 0.5:
                # the operator's settings (an offset or a line: no random part)
                s = c18.settings(fl, None, int(rng.choice([-1, 0])), use_pres_gt=float(rng.uniform(0, 300)))
                if fam != "plots" and rng.random() < 0.35:       # settings that fit no series
                    s["max_breaks"] = np.array([[0], [1]])
                    mon.count("inconsistent", "fit" in order[k:])
                for w in (a, b):
                    savemat(w.series_path(name), s)
                if rng.random() < 0.5:
                    both("series", lambda w: w.series_path(name))
        else:
            both("fit", lambda w: w.calib_path(name))
        mon.count("again", k > 1)
    if fam == "plots":
        levels = int(rng.integers(1, 3))
        with c20.Capture(rng.random() < 0.5) as cap:
            outs = [os.path.abspath(p) for p in plot_files(b, name, levels)]
            if not np.any(np.isfinite(loadmat(b.calib_path(name))["cal_SAL"])):
                outs = [p for p in outs if "_salinity_curve." not in p]
            step(mon, f"{what}: plot_diagnostics", plots, root, outs, b.cfg, b.float_dir, name, b.cfg, levels)
            c20.judge(mon, cap, b, name, levels, what)
        mon.count("plots")
