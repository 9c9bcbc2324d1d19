"""C31 poor data cost only themselves"""
import copy
import os
import shutil

import numpy as np
from scipy.io import loadmat, savemat

from .. import core, world
from ..gen import cases
from . import c12, c18, c20, c22, c26

ID = "C31"
RULE = ("A case is a synthetic world and the same world with poor data in some of the float's profiles (missing, constant, reversed, repeated, wild or few "
        "levels, no position, no date, negative pressures) and with unusable casts put into the climatology, both taken through the steps; "
        "and, where profiles have become useless, the float's file without them. Distinct by (family, defects, profiles).")
REQUIRE = {"defects": (60, 900), "columns compared": (60, 900), "values compared": (4000, 60000), "levels beside": (100, 2500), "unusable casts": (150, 2000),
           "useless profiles": (15, 200), "calibrations without": (12, 160), "files": (30, 400), "values": (1500, 20000), "levels-compared": (1500, 20000),
           "no mapping left": (2, 20), "plotted": (3, 40)}
ASSUMPTIONS = ["as C12 and C18", "casts of the climatology have positions and dates", "one profile at least has data near the climatology"]
LEVEL = ("PRES", "PTMP", "SAL", "TEMP")
MAT = ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp")
# what makes a profile useless; without it the calibration of the others is the same
USELESS = ("blank", "no salinity", "no pressure", "no temperature", "no position", "all shallow")


def setup(scratch):
    c20.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, plain=(9 * k, 8), capped=(5 * k, 8), pv=(5 * k, 8), front=(4 * k, 8), seam=(4 * k, 8), sparse=(5 * k, 8), station=(3 * k, 8),
                 plot=(3 * k, 12), none=(2 * k, 10))


# ------------------------------------------------------------------------------- defects

def some(rng, v, k=None):
    """some of the levels there are"""
    i = np.flatnonzero(~np.isnan(v))
    return i if not len(i) else rng.choice(i, min(len(i), int(rng.integers(1, 5)) if k is None else k), replace=False)


def d_blank(rng, fl, j, w):
    for q in LEVEL:
        fl[q][:, j] = np.nan


def d_no_salinity(rng, fl, j, w):
    fl["SAL"][:, j] = np.nan


def d_no_pressure(rng, fl, j, w):
    fl["PRES"][:, j] = np.nan


def d_no_temperature(rng, fl, j, w):
    fl["PTMP"][:, j] = fl["TEMP"][:, j] = np.nan


def d_no_position(rng, fl, j, w):
    for q in ("LAT", "LONG") if rng.random() < 0.6 else (str(rng.choice(["LAT", "LONG"])),):
        fl[q][0, j] = np.nan


def d_no_date(rng, fl, j, w):
    fl["DATES"][0, j] = np.nan


def d_all_shallow(rng, fl, j, w):
    deep = fl["PRES"][:, j] >= w.cfg["MAP_P_EXCLUDE"]
    for q in LEVEL:
        fl[q][deep, j] = np.nan


def d_one_level(rng, fl, j, w):
    k = some(rng, fl["PRES"][:, j] + fl["SAL"][:, j], 1)
    for q in LEVEL:
        x = fl[q][:, j].copy()
        fl[q][:, j] = np.nan
        fl[q][k, j] = x[k]


def d_two_levels(rng, fl, j, w):
    for q in LEVEL:
        fl[q][2:, j] = np.nan


def d_holes(rng, fl, j, w):
    for q in LEVEL:
        fl[q][rng.random(len(fl[q])) < 0.3, j] = np.nan


def d_gaps_of_salinity(rng, fl, j, w):
    fl["SAL"][rng.random(len(fl["SAL"])) < 0.5, j] = np.nan


def d_constant_salinity(rng, fl, j, w):
    fl["SAL"][:, j] = np.where(np.isnan(fl["SAL"][:, j]), np.nan, 35.0)


def d_constant_temperature(rng, fl, j, w):
    fl["PTMP"][:, j] = np.where(np.isnan(fl["PTMP"][:, j]), np.nan, float(np.round(rng.uniform(1, 9), 1)))


def d_constant_pressure(rng, fl, j, w):
    fl["PRES"][:, j] = np.where(np.isnan(fl["PRES"][:, j]), np.nan, float(rng.choice([500, 900])))


def d_upside_down(rng, fl, j, w):
    for q in LEVEL:
        fl[q][:, j] = fl[q][::-1, j]


def d_shuffled(rng, fl, j, w):
    i = rng.permutation(len(fl["PRES"]))
    for q in LEVEL:
        fl[q][:, j] = fl[q][i, j]


def d_repeated(rng, fl, j, w):
    k = int(rng.integers(1, len(fl["PRES"])))
    for q in LEVEL:
        fl[q][k, j] = fl[q][k - 1, j]


def d_zero(rng, fl, j, w):
    fl["SAL"][some(rng, fl["SAL"][:, j]), j] = 0.0


def d_wild(rng, fl, j, w):
    k = some(rng, fl["SAL"][:, j])
    fl["SAL"][k, j] = rng.choice([99.999, -3.0, 41.5, 5.0], len(k))


def d_fresh(rng, fl, j, w):
    fl["SAL"][:, j] -= rng.uniform(2, 30)


def d_above_the_water(rng, fl, j, w):
    fl["PRES"][:2, j] = np.where(np.isnan(fl["PRES"][:2, j]), np.nan, [-1.5, -0.2])


def d_inverted(rng, fl, j, w):
    fl["PTMP"][:, j] += rng.normal(0, 0.6, len(fl["PTMP"]))


def d_too_warm(rng, fl, j, w):
    fl["PTMP"][:, j] += rng.uniform(8, 25)


def d_same_place(rng, fl, j, w):
    k = int(rng.integers(fl["LAT"].size))
    if np.isfinite(fl["LAT"][0, k] + fl["LONG"][0, k]):
        fl["LAT"][0, j], fl["LONG"][0, j] = fl["LAT"][0, k], fl["LONG"][0, k]


def d_too_deep(rng, fl, j, w):
    k = some(rng, fl["PRES"][:, j], 1)
    fl["PRES"][k, j] = 9000.0


DEFECTS = {k[2:].replace("_", " "): v for k, v in list(globals().items()) if k.startswith("d_")}
assert set(USELESS) <= set(DEFECTS)


def unusable(rng, c):
    c = copy.deepcopy(c)
    for q in ("pres", "ptmp", "sal"):
        c[q] = np.array(c[q], float)
    kind = int(rng.integers(5))
    if kind == 0:
        for q in ("pres", "ptmp", "sal"):
            c[q][:] = np.nan
    elif kind < 4:
        c[("pres", "ptmp", "sal")[kind - 1]][:] = np.nan
    else:                                             # at every level something else is missing
        i = rng.integers(0, 3, len(c["pres"]))
        for k, q in enumerate(("pres", "ptmp", "sal")):
            c[q][i == k] = np.nan
    c["lat"] = float(np.clip(c["lat"] + rng.uniform(-0.01, 0.01), -89, 89))
    return c


# ------------------------------------------------------------------------------- run

def near_some(w, fl, j):
    return np.isfinite(fl["LAT"][0, j] + fl["LONG"][0, j]) and np.any(np.isfinite(fl["PRES"][:, j]))


def steps(mon, v, name, most):
    """mapping, preparation, calibration; the mapped file, the settings and the calibration"""
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    np.random.seed(0)
    mon.call(update_salinity_mapping, v.float_dir, v.cfg, name)
    mon.call(set_calseries, v.float_dir, name, v.cfg)
    s = {k: x for k, x in loadmat(v.series_path(name)).items() if not k.startswith("__")}
    s["max_breaks"] = np.array([[most]])
    savemat(v.series_path(name), s)
    np.random.seed(0)
    mon.call(calc_piecewisefit, v.float_dir, name, v.cfg)
    return loadmat(v.mapped_path(name)), s, loadmat(v.calib_path(name))


def run(case, rng, mon):
    from pyowc.calibration import update_salinity_mapping
    from pyowc.core.finders import find_besthist
    from pyowc.plot.dashboard import plot_diagnostics
    fam = case["fam"]
    kind = fam if fam not in ("plot", "none") else str(rng.choice(["plain", "sparse", "seam"]))
    w, name, fl = c12.build(os.path.join(mon.scratch, "a"), kind, rng, c12._S["topo"], c12._S["path"], n=int(rng.integers(4, 9)))
    w.write_climatology()
    w.write_float(name, fl)
    m, n = fl["PRES"].shape
    mon.call(update_salinity_mapping, w.float_dir, w.cfg, name)
    base = loadmat(w.mapped_path(name))

    # the same with poor data
    v = c26.again(w, os.path.join(mon.scratch, "b"))
    bad = copy.deepcopy(fl)
    for q in LEVEL + ("LAT", "LONG", "DATES"):
        bad[q] = np.array(bad[q], float)
    hit = {}
    start = 5 * case["k"] + int(rng.integers(len(DEFECTS)))
    todo = list(DEFECTS)
    few = rng.random() < 0.8
    for i, j in enumerate(rng.permutation(n)[:n if fam == "none" else int(rng.integers(1, max(2, n // 2 + 1))) if few else n - 1]):
        d = todo[(start + i) % len(todo)] if rng.random() < 0.65 and fam != "none" else str(rng.choice(USELESS))
        DEFECTS[d](rng, bad, int(j), v)
        hit[int(j)] = d
        mon.count("defects")
        mon.count("defect:" + d)
    if kind not in ("capped",):
        for key, cs in v.casts.items():
            for _ in range(int(rng.integers(0, 4)) if cs else 0):
                cs.insert(int(rng.integers(len(cs) + 1)), unusable(rng, cs[int(rng.integers(len(cs)))]))
                mon.count("unusable casts")
    for x in ("coastline", "bathymetry"):
        shutil.copytree(os.path.join(c20._S["shapes"], x), os.path.join(v.cfg["CONFIG_DIRECTORY"], x))
    v.cfg["FLOAT_PLOTS_FORMAT"] = "png"
    v.write_climatology()
    v.write_float(name, bad)
    most = int(rng.choice([-1, 0, 0, 1]))
    what = f"{fam}, {', '.join(f'{d} ({j + 1} of {n})' for j, d in sorted(hit.items()))}"
    mapped, sets, cal = steps(mon, v, name, most)

    # the mapping of all the others, and of the levels that have not changed
    cols = [j for j in range(n) if j not in hit]
    for q in MAT:
        a, b = np.asarray(base[q], float), np.asarray(mapped[q], float)
        mon.check(a.shape == b.shape, "shape", f"{what}: {q} has shape {b.shape}, before {a.shape}")
        mon.same(b[:, cols], a[:, cols], "others", f"{what}: {q} of the profiles that have not changed", atol=1e-12, rtol=1e-9)
        mon.count("values compared", np.isfinite(a[:, cols]).sum())
        mon.check(not np.any(np.isinf(b)), "infinite", f"{what}: {q} has infinite values")
    mon.count("columns compared", len(cols))
    for q in c12.SCALES:
        a, b = np.ravel(base[q]), np.ravel(mapped[q])
        mon.same(b[cols], a[cols], "others", f"{what}: {q} of the profiles that have not changed")
    for j in hit:
        # (the side of the front that a profile is on depends on its temperatures around 300 dbar)
        if v.cfg["MAP_USE_SAF"] == 1 and not all(np.array_equal(fl[q][:, j], bad[q][:, j], equal_nan=True) for q in ("PRES", "TEMP", "PTMP")):
            continue
        if all(np.array_equal(fl[q][0, j], bad[q][0, j]) for q in ("LAT", "LONG", "DATES")) \
                and np.array_equal(np.nanmax(np.append(fl["PRES"][:, j], -1e9)), np.nanmax(np.append(bad["PRES"][:, j], -1e9))):
            same = (fl["PRES"][:, j] == bad["PRES"][:, j]) & (fl["PTMP"][:, j] == bad["PTMP"][:, j]) & (np.isnan(fl["SAL"][:, j]) == np.isnan(bad["SAL"][:, j]))
            for q in MAT:
                mon.same(np.asarray(mapped[q], float)[same, j], np.asarray(base[q], float)[same, j], "beside",
                         f"{what}: {q} at the levels of profile {j + 1} that have not changed", atol=1e-12, rtol=1e-9)
            mon.count("levels beside", same.sum())
    gone = np.isnan(bad["PRES"] + bad["PTMP"] + bad["SAL"]) | np.isnan(bad["LAT"] + bad["LONG"] + bad["DATES"])
    for q in MAT[:2]:
        mon.check(np.all(np.isnan(np.asarray(mapped[q], float)[gone])), "from-nothing", f"{what}: {q} at levels that lack something")
    mon.count("no mapping left", not np.any(np.isfinite(mapped["la_mapped_sal"])))

    # as the models have it
    c12.compare(mon, v, bad, name, mapped, lambda *a: mon.call(find_besthist, *a), what,
                skip=[j for j, d in hit.items() if d == "no date"])
    flags = np.ravel(sets["calseries"])
    drop = sorted(j for j, d in hit.items() if d in USELESS)
    keep = [j for j in range(n) if j not in drop]
    has = ~np.any([np.all(np.isnan(bad[q]), axis=0) for q in ("PRES", "SAL", "TEMP")], axis=0)
    mon.check(np.array_equal(flags, has.astype(float)), "flags", f"{what}: series {flags}")
    for k, x in cal.items():
        if not k.startswith("__") and np.asarray(x).dtype.kind == "f":
            mon.check(not np.any(np.isinf(x)), "infinite", f"{what}: {k} has infinite values")
    g, f = c18.check_file(mon, {q: np.asarray(x, float) for q, x in bad.items()}, cal, flags, what)
    mon.count("files")

    # and the calibration without the profiles that are of no use
    mon.count("useless profiles", len(drop))
    if drop and keep:
        u = c26.again(v, os.path.join(mon.scratch, "c"))
        u.write_climatology()
        u.write_float(name, world.subset_float(bad, keep))
        two, _, one = steps(mon, u, name, most)
        per = ("pcond_factor", "time_deriv", "sta_mean", "sta_rms") + ("pcond_factor_err", "time_deriv_err")
        for k in c18.OUT + per:
            if k in c22.RANDOM and most > 0:
                continue
            a, b = np.asarray(cal[k], float), np.asarray(one[k], float)
            a = a[:, keep]
            mon.same(a, b, "without", f"{what}: {k} of the other profiles, unlike that without the useless profiles", atol=1e-10, rtol=1e-7)
        for k in ("fcoef", "fbreaks"):
            mon.same(np.ravel(cal[k]).astype(float), np.ravel(one[k]).astype(float), "without", f"{what}: {k}, unlike that without the useless profiles", atol=1e-10, rtol=1e-7)
        for j in drop:
            if hit[j] != "no position":
                mon.check(not np.any(np.isfinite(np.asarray(cal["cal_SAL"], float)[gone[:, j], j]) & np.isnan(bad["SAL"][gone[:, j], j])), "from-nothing",
                          f"{what}: calibrated salinity where there is none")
        mon.count("calibrations without")
    if fam in ("plot", "none"):
        mon.call(plot_diagnostics, v.float_dir, name, v.cfg, 1)
        made = os.listdir(v.cfg["FLOAT_PLOTS_DIRECTORY"])
        mon.check(len(made) >= 8, "plots", f"{what}: only {made}")
        import matplotlib.pyplot as plt
        plt.close("all")
        mon.count("plotted")
    mon.seen(fam, tuple(sorted(hit.values())), n, most)
    mon.sample = dict(defects=hit, profiles=n, mapped=int(np.isfinite(mapped["la_mapped_sal"]).sum()), factor=np.ravel(cal["pcond_factor"])[:6])
