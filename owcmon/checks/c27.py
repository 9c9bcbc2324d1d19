"""C27 what the results may depend on, and how"""
import copy
import os

import numpy as np
from scipy.io import savemat

from .. import core, world
from ..gen import cases
from . import c12, c22, c26

ID = "C27"
RULE = ("A case is a synthetic world taken through mapping and calibration, and changed worlds whose results follow from the first by a symmetry of "
        "the method (turned, mirrored, shifted in time, saltier, more contrasted, renumbered, another cell factor) or must not change at all "
        "(the float's own salinities, other levels, settings and data that are not used). Distinct by (family, changes, models, profiles).")
REQUIRE = {"variants": (80, 1000), "values": (50000, 600000), "turned": (4, 60), "mirrored": (2, 40), "years": (4, 60), "saltier": (4, 60), "contrast": (4, 60),
           "own salinity": (4, 60), "unused": (4, 60), "exclusion": (4, 60), "levels": (4, 60), "numbers": (4, 60), "cell factor": (3, 40),
           "calibrations": (20, 300), "capped": (4, 50), "factors compared": (50, 600), "vorticity": (5, 65)}
ASSUMPTIONS = ["as C12", "salinities well inside 30-40", "away from the poles"]
EQUAL = ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp") + c12.SCALES
CAL = ("cal_SAL", "cal_COND", "sta_SAL", "pcond_factor", "time_deriv", "sta_mean", "fcoef", "fbreaks", "PROFILE_NO")


def setup(scratch):
    c12.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, plain=(5 * k, 9), capped=(4 * k, 9), pv=(5 * k, 9), seam=(3 * k, 9), station=(2 * k, 9), sparse=(3 * k, 9))


# each: -> dict(cols/rows maps, expectation) ; expectation: function of (key, base value) -> (wanted, atol) or None if not compared

def turned(rng, w, name, fl, root, mon):
    lon = fl["LONG"][0]
    steps = 7
    for _ in range(60):
        steps = int(rng.integers(1, 36))
        c = (lon + 10 * steps) % 360
        if not np.any((c > 150) & (c < 210)):           # bathymetry at the date line is slow to read
            break
    topo = np.roll(w.topo, 120 * steps, axis=1)
    path = os.path.join(mon.scratch, f"tbase{mon.counters['variants']}.int")
    world.write_topo(path, topo)
    v, f = c12.turned(w, root, fl, steps, path, topo)
    return v, f, dict(note=f"turned by {10 * steps} degrees", hist=lambda h: np.column_stack(((h[:, 0] + 10 * steps) % 360, h[:, 1], h[:, 2])))


def mirrored(rng, w, name, fl, root, mon):
    topo = w.topo.copy()
    topo[1:] = w.topo[:0:-1]
    path = os.path.join(mon.scratch, f"tbase{mon.counters['variants']}.int")
    world.write_topo(path, topo)
    over = {k: v for k, v in w.cfg.items() if k.startswith(("MAP", "CONFIG_MAX"))}
    table = w.table.reshape(36, 18, 4)[:, ::-1].reshape(648, 4).copy()
    v = world.World(root, topo_path=path, topo=topo, table=table, **over)
    for (row, typ), cs in w.casts.items():
        new = [copy.deepcopy(c) for c in cs]
        for c in new:
            c["lat"] = -c["lat"]
        v.casts[row // 18 * 18 + 17 - row % 18, typ] = new
    f = copy.deepcopy(fl)
    f["LAT"] = -f["LAT"]
    return v, f, dict(note="mirrored at the equator", hist=None)


def years(rng, w, name, fl, root, mon):
    v = c26.again(w, root)
    k = int(rng.choice([-28, -9, -1, 1, 4, 17]))
    for cs in v.casts.values():
        for c in cs:
            c["date"] += k * 1e10
    f = copy.deepcopy(fl)
    f["DATES"] = f["DATES"] + k
    return v, f, dict(note=f"{k} years later")


def saltier(rng, w, name, fl, root, mon):
    v = c26.again(w, root)
    c0 = float(rng.uniform(-0.4, 0.4))
    for cs in v.casts.values():
        for c in cs:
            c["sal"] = c["sal"] + c0
    return v, fl, dict(note=f"climatology saltier by {c0:.3f}", uncal=True, sal=lambda s: s + c0)


def contrast(rng, w, name, fl, root, mon):
    v = c26.again(w, root)
    q, mid = float(rng.uniform(0.4, 1.8)), 34.9
    for cs in v.casts.values():
        for c in cs:
            c["sal"] = mid + q * (c["sal"] - mid)
    return v, fl, dict(note=f"climatology of {q:.3f} times the contrast", uncal=True, sal=lambda s: mid + q * (s - mid), fac=q)


def own_salinity(rng, w, name, fl, root, mon):
    f = copy.deepcopy(fl)
    how = int(rng.integers(3))
    f["SAL"] = f["SAL"] + [rng.normal(0, 3, f["SAL"].shape), 0.5 * rng.normal(size=(1, f["SAL"].shape[1])), 5.0][how]
    return c26.again(w, root), f, dict(note=f"the float's own salinities changed ({how})", uncal=True)


def unused(rng, w, name, fl, root, mon):
    over, note, path = {}, [], None
    skip = []
    if not w.cfg["MAP_USE_PV"]:
        over.update(MAPSCALE_PHI_LARGE=float(rng.uniform(0.001, 9)), MAPSCALE_PHI_SMALL=float(rng.uniform(0.001, 9)))
        skip = ["scale_phi_large", "scale_phi_small"]
        note += ["bathymetry", "scales of the vorticity"]
    v = c26.again(w, root, **over)
    if not w.cfg["MAP_USE_PV"]:
        path = os.path.join(mon.scratch, f"tbase{mon.counters['variants']}.int")
        v.topo = world.make_topo("smooth", int(rng.integers(1, 99)))
        world.write_topo(path, v.topo)
        os.unlink(os.path.join(root, "constants", "tbase.int"))
        os.link(path, os.path.join(root, "constants", "tbase.int"))
    v.cfg["THETA_BOUNDS"] = [[2.0, 3.0]]
    v.cfg["CONFIG_COASTLINES"] = "nothing.mat"
    v.cfg["CONFIG_SAF"] = "nothing either.mat"
    f = copy.deepcopy(fl)
    f["TEMP"] = np.where(rng.random(f["TEMP"].shape) < 0.2, np.nan, rng.normal(5, 40, f["TEMP"].shape))
    return v, f, dict(note=f"other {note + ['in-situ temperatures, coast line, front, theta bounds']}", skip=skip, junk=True)


def exclusion(rng, w, name, fl, root, mon):
    old = w.cfg["MAP_P_EXCLUDE"]
    p = fl["PRES"][np.isfinite(fl["PRES"])]
    new = float(rng.choice([rng.uniform(old, old + 600), p[p >= old][int(rng.integers(np.sum(p >= old)))] if np.any(p >= old) else old + 1]))
    v = c26.again(w, root, MAP_P_EXCLUDE=new)
    return v, fl, dict(note=f"exclusion pressure {old} raised to {new}", uncal=True, mask=~(fl["PRES"] >= new), skip=["p_exclude"])


def levels(rng, w, name, fl, root, mon):
    f = copy.deepcopy(fl)
    gone = rng.random(f["SAL"].shape) < rng.choice([0.1, 0.5, 0.9])
    gone[rng.integers(gone.shape[0]), :] = False
    f["SAL"][gone] = np.nan
    return c26.again(w, root), f, dict(note="the salinities of some levels taken out", uncal=True, mask=gone)


def numbers(rng, w, name, fl, root, mon):
    f = copy.deepcopy(fl)
    k, q = int(rng.integers(0, 400)), int(rng.choice([1, 1, 2, 3]))
    f["PROFILE_NO"] = q * f["PROFILE_NO"] + k
    return c26.again(w, root), f, dict(note=f"profile numbers times {q} plus {k}", num=(q, k), hist=lambda h: np.column_stack((h[:, :2], q * h[:, 2] + k)))


def cell_factor(rng, w, name, fl, root, mon):
    import gsw
    f = copy.deepcopy(fl)
    q = 1 + float(rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -3.3))
    with np.errstate(all="ignore"):
        s = gsw.SP_from_C(q * gsw.C_from_SP(f["SAL"], f["PTMP"], 0), f["PTMP"], 0)
        f["SAL"] = np.where(np.isnan(f["PTMP"]), f["SAL"], s)
    return c26.again(w, root), f, dict(note=f"conductivity of the float times {q}", cell=q)


VARIANTS = {"turned": turned, "mirrored": mirrored, "years": years, "saltier": saltier, "contrast": contrast, "own salinity": own_salinity, "unused": unused,
            "exclusion": exclusion, "levels": levels, "numbers": numbers, "cell factor": cell_factor}


def margin(x):
    """nothing near the limits of what is saved"""
    return x.size == 0 or (np.nanmin(x) > 30.2 and np.nanmax(x) < 39.8)


def judge_mapped(mon, what, a, b, r):
    fac, mask = r.get("fac", 1.0), r.get("mask")
    sal = r.get("sal", lambda s: s)
    gone = None
    for k in EQUAL:
        if k in r.get("skip", ()):
            continue
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        mon.check(x.shape == y.shape, "shape", f"{what}: {k} has shape {y.shape}, before {x.shape}")
        atol = 1e-8
        if k == "la_mapped_sal":
            x = sal(x)
            atol = 2e-7
        elif k == "la_mapsalerrors":
            x, y = (fac * x) ** 2, y ** 2
        elif k in ("la_noise_sal", "la_signal_sal"):
            x = fac ** 2 * x
        if mask is not None and x.shape == mask.shape:
            mon.check(np.all(np.isnan(y[mask])), "excluded", f"{what}: {k} has values where none may be")
            x, y = x[~mask], y[~mask]
        elif mask is not None:
            # a profile without any level left is not mapped
            gone = np.all(np.isnan(np.asarray(b["la_mapsalerrors"], float)), axis=0)
            x, y = x.ravel()[~gone], y.ravel()[~gone]
        mon.same(y, x, "map:" + k, f"{what}: {k}", rtol=2e-7, atol=atol)
        mon.count("values", x.size)
    num = r.get("num", (1, 0))
    mon.same(b["la_profile_no"].astype(float), num[0] * a["la_profile_no"].astype(float) + num[1], "map:la_profile_no", f"{what}: profile numbers")
    if "hist" in r and r["hist"] is not None or not ({"hist", "mask"} & set(r)):
        h, g = np.asarray(a["selected_hist"], float), np.asarray(b["selected_hist"], float)
        mon.check(h.shape == g.shape, "hist", f"{what}: {len(g)} reference positions, before {len(h)}")
        if h.size:
            h = r["hist"](h) if "hist" in r else h
            d = g - h
            d[:, 0] = (d[:, 0] + 180) % 360 - 180
            mon.check(np.all(np.abs(d) < 1e-9), "hist", f"{what}: reference positions {g[np.argmax(np.abs(d).sum(axis=1))]}")


def judge_fit(mon, what, a, b, r, fl):
    if isinstance(a, core.Raised) or isinstance(b, core.Raised):
        mon.check(isinstance(a, core.Raised) == isinstance(b, core.Raised), "fit:raises", f"{what}: calibrating gives {a if isinstance(a, core.Raised) else 'a result'}, then "
                  f"{b if isinstance(b, core.Raised) else 'a result'}")
        return
    q, k = r.get("num", (1, 0))
    cell = r.get("cell", 1.0)
    tol = 1e-8 if cell == 1 else 3e-6 * min(1.0, abs(cell - 1) / 1e-4 + 1e-3)
    per = ("pcond_factor", "time_deriv", "fcoef")
    for x in CAL:
        u, v = np.asarray(a[x], float), np.asarray(b[x], float)
        mon.check(u.shape == v.shape, "fit:shape", f"{what}: {x} has shape {v.shape}, before {u.shape}")
        if x in ("PROFILE_NO", "fbreaks"):
            mon.same(v, q * u + k, "fit:" + x, f"{what}: {x}", atol=1e-7)
            continue
        if x in ("pcond_factor", "sta_mean", "time_deriv", "fcoef"):
            u = u / cell
        if x == "time_deriv":
            u = u / q
        elif x == "fcoef" and u.size > 1:
            u = u.copy()
            u[:, 1:] = u[:, 1:] / q if u.shape[1] > 1 else u[:, 1:]
            if u.shape[1] == 1 and u.shape[0] > 1:
                u[1:] = u[1:] / q
        atol = tol * {"cal_COND": 60, "cal_SAL": 40, "sta_SAL": 40}.get(x, 1)
        mon.same(v, u, "fit:" + x, f"{what}: {x}", atol=atol)
        mon.count("values", u.size)
    mon.count("factors compared", np.sum(np.isfinite(b["pcond_factor"])))
    for x in c22.RANDOM:
        mon.check(np.array_equal(np.isnan(a[x]), np.isnan(b[x])), "fit:missing", f"{what}: {x} is missing elsewhere")


def thetas(d, fl, bound):
    from pyowc.core.finders import find_10thetas
    try:
        r = find_10thetas(*(np.array(x, float) for x in (fl["SAL"], fl["PTMP"], fl["PRES"], d["la_ptmp"])), [], [], [], bound, 0.5)
    except Exception:  # noqa
        return None
    return np.asarray(r[2], float)


def run(case, rng, mon):
    fam = case["fam"]
    w, name, fl = c12.build(os.path.join(mon.scratch, "a"), fam, rng, c12._S["topo"], c12._S["path"])
    c12.quantise(w, fl)
    for key, cs in w.casts.items():                    # the nearest of several casts at one position is the first of them
        seen = set()
        w.casts[key] = [c for c in cs if not ((c["long"], c["lat"]) in seen or seen.add((c["long"], c["lat"])))]
    w.write_climatology()
    w.write_float(name, fl)
    n = fl["PRES"].shape[1]
    most = int(rng.choice([-1, 0, 0]))
    bound = float(rng.choice([60, 150])) if rng.random() < 0.3 else None
    sets = dict(max_breaks=np.array([[most]]), use_percent_gt=0.5)
    if bound:
        sets["use_pres_gt"] = np.array([[bound]])
    base = c26.pipeline(mon, w, name, sets)
    mon.count("capped", fam == "capped")
    mon.count("vorticity", w.cfg["MAP_USE_PV"])
    todo = list(VARIANTS)
    if fam == "capped":
        todo.remove("mirrored")                        # another order of boxes, another choice
    start = 6 * case["k"] + int(rng.integers(len(todo)))
    pick = [todo[(start + i) % len(todo)] for i in range(6)]
    for i, kind in enumerate(pick):
        root = os.path.join(mon.scratch, f"v{i}")
        v, f, r = VARIANTS[kind](rng, w, name, fl, root, mon)
        v.write_climatology()
        if r.get("junk"):
            for p in c26.files(v):
                def change(d):
                    d["temp"] = rng.normal(3, 30, d["temp"].shape)
                    d["qclevel"] = rng.integers(0, 9, d["qclevel"].shape)
                c26.rewrite(p, change)
        v.write_float(name, f)
        what = f"{fam}, {r['note']}"
        sal = np.asarray(base[0]["la_mapped_sal"], float)
        err = np.asarray(base[0]["la_mapsalerrors"], float)
        if r.get("sal") and not (margin(sal[~np.isnan(err)]) and not np.any(np.isnan(sal) & ~np.isnan(err)) and margin(r["sal"](sal[~np.isnan(err)]))):
            mon.count("near the limits")
            continue
        got = c26.pipeline(mon, v, name, None if r.get("uncal") else sets)
        judge_mapped(mon, what, base[0], got[0], r)
        if not r.get("uncal"):
            same = True
            if "cell" in r:
                ta, tb = (thetas(base[0], x, [bound] if bound else []) for x in (fl, f))
                same = ta is not None and tb is not None and np.array_equal(ta, tb, equal_nan=True)
                mon.count("other theta levels", not same)
            if same:
                judge_fit(mon, what, base[2], got[2], r, f)
                mon.count("calibrations")
                mon.count(kind)
        else:
            mon.count(kind)
        mon.count("variants")
        core.shutil.rmtree(root)
    mon.seen(fam, tuple(pick), most, fl["PRES"].shape)
    mon.sample = dict(variants=pick, max_breaks=most, profiles=n, mapped=int(np.sum(~np.isnan(base[0]["la_mapped_sal"]))))
