"""C29 the documented ways to run it"""
import json
import os
import re
import shutil
import subprocess
import sys

import numpy as np
from scipy.io import loadmat

from .. import core, world
from ..gen import cases
from . import c12, c20, c21, c22

ID = "C29"
RULE = ("A case is a project directory in the documented default layout with one to three floats, on which one of the documented workflows (the start "
        "script, the notebook, the profiling script, the public names) runs in a process of its own; its files are compared with those of the steps "
        "called one by one with the documented settings. Distinct by (workflow, floats, profiles).")
REQUIRE = {"start script": (2, 25), "notebook": (2, 25), "profiling script": (1, 12), "public names": (2, 25), "files compared": (16, 200),
           "figures": (40, 500), "several floats": (1, 12), "tree files watched": (200, 2500)}
ASSUMPTIONS = ["as C12 and C18", "errors estimated by Monte Carlo are compared in place only"]


def setup(scratch):
    c20.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, start=(3 * k, 30), notebook=(2 * k, 30), profiling=(1 * k, 15), names=(2 * k, 30))


def project(root, rng, n):
    """data/ in the default layout; all settings are the documented defaults"""
    w = world.World(os.path.join(root, "data"), topo_path=c12._S["path"], topo=c12._S["topo"])
    for x in ("coastline", "bathymetry"):
        shutil.copytree(os.path.join(c20._S["shapes"], x), os.path.join(w.cfg["CONFIG_DIRECTORY"], x))
    wat = world.Water(rng, t_surf=rng.uniform(10, 18))
    lon0, lat0 = float(rng.choice([rng.uniform(40, 140), rng.uniform(220, 330), 359.0])), float(rng.uniform(-50, 50))
    names = ["3901960"] + [str(x) for x in rng.choice(np.arange(4900000, 4999999), 2, replace=False)]
    fls = {}
    for x in names[:n]:
        k = int(rng.integers(5, 9))
        lon, lat, t = world.track(rng, k, lon0, lat0)
        lon, lat = (lon + 0.03 * (np.abs(lon / 10 - np.round(lon / 10)) < 0.003)) % 360, lat + 0.03 * (np.abs(lat / 10 - np.round(lat / 10)) < 0.003)
        fls[x] = world.make_float(rng, wat, lon, lat, t, nlev=int(rng.integers(16, 26)), pmax=1500)
        w.write_float(x, fls[x])
    world.surround(rng, w, wat, lon0, lat0, int(rng.integers(60, 110)), spread=(6, 3), own=names[0])
    w.write_climatology()
    return w, fls


MACHINE = r'''
import multiprocessing, os
os.cpu_count = lambda: int(os.environ["OWCMON_CPUS"])
if os.environ["OWCMON_START"] != multiprocessing.get_start_method(allow_none=True):
    multiprocessing.set_start_method(os.environ["OWCMON_START"], force=True)
'''
NAMES = r'''
import sys, json
import numpy as np
import pyowc as owc
floats = json.loads(sys.argv[1])
cfg = owc.configuration.load()
text = owc.configuration.print_cfg(cfg)
assert all(k in text for k in cfg)
assert owc.dashboard is owc.plot.dashboard
for sub in ("core", "data", "plot", "utilities", "helper", "calibration", "configuration"):
    assert hasattr(owc, sub), sub
for name in owc.__all__:
    assert hasattr(owc, name), name
for f in floats:
    owc.calibration.update_salinity_mapping("/", cfg, f)
for f in floats:
    owc.configuration.set_calseries("/", f, cfg)
    owc.calibration.calc_piecewisefit("/", f, cfg)
    owc.plot.dashboard("/", f, cfg)
'''


def workflow(fam, proj, names, rng):
    """-> (arguments, working directory, figures?)"""
    if fam == "start":
        src = open(os.path.join(core.REPO, "start_with_pycharm.py"), encoding="utf-8").read()
        if len(names) > 1 or names != ["3901960"]:
            new = re.sub(r"FLOAT_NAMES\s*=\s*\[[^\]]*\]", f"FLOAT_NAMES = {json.dumps(names)}", src)
            if new == src and names != ["3901960"]:
                raise OSError("no FLOAT_NAMES to edit")
            src = new
        path = os.path.join(proj, "start_with_pycharm.py")
        open(path, "w", encoding="utf-8").write(src)
        return [path], proj
    if fam == "notebook":
        nb = json.load(open(os.path.join(core.REPO, "docs", "Tryit.ipynb"), encoding="utf-8"))
        code = ["".join(c["source"]) for c in nb["cells"] if c["cell_type"] == "code"]
        code = "\n\n".join("\n".join(x for x in c.splitlines() if not x.lstrip().startswith(("%", "!"))) for c in code)
        d = os.path.join(proj, "docs")
        os.makedirs(d)
        path = os.path.join(d, "Tryit.py")
        open(path, "w", encoding="utf-8").write(code)
        return [path], d
    if fam == "profiling":
        d = os.path.join(proj, "utils")
        os.makedirs(d)
        shutil.copy(os.path.join(core.REPO, "utils", "profile_update_salinity_mapping.py"), d)
        return ["utils/profile_update_salinity_mapping.py"], proj
    path = os.path.join(proj, "names.py")
    open(path, "w", encoding="utf-8").write(NAMES)
    return [path, json.dumps(names)], proj


def run(case, rng, mon):
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    fam = case["fam"]
    proj = os.path.join(mon.scratch, "project")
    n = int(rng.integers(2, 4)) if fam in ("start", "names") and case["k"] % 2 == 0 else 1
    w, fls = project(proj, rng, n)
    names = list(fls)
    if fam == "start" and n > 1:
        names = [names[i] for i in rng.permutation(n)]
    # one by one
    ref = {}
    out = os.path.join(mon.scratch, "one by one")
    conf = dict(w.cfg, FLOAT_MAPPED_DIRECTORY=os.path.join(out, "mapped"), FLOAT_CALIB_DIRECTORY=os.path.join(out, "calib"))
    for k in ("FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY"):
        os.makedirs(conf[k])
    for x in names:
        mon.call(update_salinity_mapping, "/", conf, x)
        if fam != "profiling":
            mon.call(set_calseries, "/", x, conf)
            mon.call(calc_piecewisefit, "/", x, conf)
        ref[x] = [os.path.join(conf["FLOAT_MAPPED_DIRECTORY"], f"map_{x}.mat"), os.path.join(conf["FLOAT_CALIB_DIRECTORY"], f"calseries_{x}.mat"),
                  os.path.join(conf["FLOAT_CALIB_DIRECTORY"], f"cal_{x}.mat")]
    args, cwd = workflow(fam, proj, names, rng)
    before = c21.snapshot(proj)
    mon.count("tree files watched", len(before))
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    machine = ""
    if fam == "start":
        # computers of one to many processors, which start processes in either way
        cpus = [os.cpu_count(), 1, 2][case["k"] % 3] if case["k"] % 6 < 3 else int(rng.integers(1, 6))
        start = "spawn" if cpus < 4 and rng.random() < 0.4 else "fork"
        site = os.path.join(mon.scratch, "machine")
        os.makedirs(site)
        open(os.path.join(site, "sitecustomize.py"), "w", encoding="utf-8").write(MACHINE)
        env.update(PYTHONPATH=site + os.pathsep + core.REPO, OWCMON_CPUS=str(cpus), OWCMON_START=start)
        machine = f" on a computer of {cpus} processors ({start})"
        mon.count("one processor", cpus == 1)
        mon.count("more floats than processes", len(names) > cpus - 1)
    mon.calls += 1
    try:
        r = subprocess.run([sys.executable, "-W", "ignore"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=230,
                           check=False, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise core.Watchdog() from None
    what = f"{fam}, floats {names}{machine}"
    mon.check(r.returncode == 0, "fails", f"{what}: the workflow ends with {r.returncode}: {r.stdout[-400:]}")
    after = c21.snapshot(proj)
    mine = []
    for x in names:
        if fam == "profiling":
            continue
        got = [w.mapped_path(x), w.series_path(x), w.calib_path(x)]
        figs = c21.plot_files(w, x, 2)
        if not np.any(np.isfinite(loadmat(ref[x][2])["cal_SAL"])):
            figs = [p for p in figs if "_salinity_curve." not in p]
        mine += got + figs
        for p in got + figs:
            mon.check(os.path.exists(p) and os.path.getsize(p) > 0, "output", f"{what}: no {os.path.relpath(p, proj)}")
        mon.count("figures", len(figs))
        c22.compare(mon, f"{what}, float {x}", [loadmat(p) for p in got], [loadmat(p) for p in ref[x]])
        mon.count("files compared", 3)
    mine = {os.path.relpath(p, proj) for p in mine}
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            mon.check(p in mine, "touched", f"{what}: the workflow changed {p}")
    if fam == "profiling":
        mon.check(before == after, "touched", f"{what}: files changed")
    mon.check("CONFIGURATION PARAMETERS" in r.stdout, "display", f"{what}: the settings are not displayed")
    for x in names:
        mon.check(fam == "profiling" or x in r.stdout or fam == "start", "display", f"{what}: {x} is not named")
    tag = {"start": "start script", "notebook": "notebook", "profiling": "profiling script", "names": "public names"}[fam]
    mon.count(tag)
    mon.count("several floats", len(names) > 1)
    mon.seen(fam, len(names), [f["PRES"].shape for f in fls.values()])
    mon.sample = dict(workflow=tag, floats=names, profiles=[f["PRES"].shape[1] for f in fls.values()])
