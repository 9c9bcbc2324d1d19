"""C19 covariance between float levels"""
import os

import numpy as np

from .. import core, refs, world
from ..gen import cases

ID = "C19"
RULE = ("A case is one float's theta levels (1-10 levels x 1-25 profiles, gaps, inversions, values on the scale boundaries) with its track, "
        "depths and scales, or one horizontal correlation query; distinct by (family, levels, profiles, vorticity, gaps).")
REQUIRE = {"matrices": (120, 1500), "entries": (300000, 4000000), "pv": (50, 600), "gaps": (30, 400), "boundary": (25, 300), "beyond": (12, 150), "rows": (60, 800),
           "symmetric": (60, 800), "decreasing": (40, 500), "real": 1, "large": (2, 25)}
ASSUMPTIONS = ["ocean depth not zero"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, cov=60 * k, boundary=30 * k, single=15 * k, gaps=25 * k, rows=40 * k, distance=40 * k, equator=8 * k, beyond=15 * k, real=1, long=2 * k)


def coords(rng, n, spread):
    lat = np.clip(rng.uniform(-75, 75) + np.cumsum(rng.normal(0, spread, n)), -85, 85)
    lon = (rng.uniform(10, 350) + np.cumsum(rng.normal(0, spread, n)))
    z = rng.uniform(200, 6000, n) * rng.choice([1, 1, 1, -1])
    return np.column_stack((lat, lon, z))


def cfg_of(rng, pv=None):
    return world.config("unused", MAPSCALE_LONGITUDE_SMALL=float(10 ** rng.uniform(-1, 1.2)), MAPSCALE_LATITUDE_SMALL=float(10 ** rng.uniform(-1, 1.2)),
                MAPSCALE_PHI_SMALL=float(10 ** rng.uniform(-2, 0.5)), MAP_USE_PV=int(rng.random() < 0.5) if pv is None else pv,
                # what the covariance must not look at
                MAPSCALE_LONGITUDE_LARGE=float(10 ** rng.uniform(-1, 1.2)), MAPSCALE_LATITUDE_LARGE=float(10 ** rng.uniform(-1, 1.2)),
                MAPSCALE_PHI_LARGE=float(10 ** rng.uniform(-2, 0.5)), MAPSCALE_AGE_SMALL=3.0, MAPSCALE_AGE_LARGE=9.0, MAP_USE_SAF=0)


def run(case, rng, mon):
    from pyowc.core.stats import build_cov, covarxy_pv
    fam = case["fam"]
    cfg = cfg_of(rng)
    if fam in ("rows", "distance"):
        n = int(rng.integers(1, 40))
        c = coords(rng, n, 10 ** rng.uniform(-2, 1))
        pv = cfg["MAP_USE_PV"]
        args = (cfg["MAPSCALE_LONGITUDE_SMALL"], cfg["MAPSCALE_LATITUDE_SMALL"], cfg["MAPSCALE_PHI_SMALL"])
        what = f"{fam}: {n} profiles, scales {[round(a, 2) for a in args]}, pv {pv}"
        want = refs.horizontal(c, args[1], args[0], args[2], pv)
        H = np.array([np.asarray(mon.call(covarxy_pv, c[i], c, *args, pv, pure=True), float).ravel() for i in range(n)])
        mon.same(H, want, "horizontal", what + ": horizontal correlation", rtol=1e-9, atol=1e-300)
        mon.check(np.all(np.diag(H) == 1), "self", what + ": a profile with itself")
        mon.same(H, H.T, "symmetry", what + ": symmetry", rtol=1e-9, atol=1e-300)
        mon.check(np.all((H >= 0) & (H <= 1)), "range", what + ": correlations out of [0, 1]")
        mon.count("rows", n)
        mon.count("symmetric")
        mon.count("pv", pv)
        if fam == "distance":
            # along a line, without vorticity, farther is less
            d = np.sort(rng.uniform(0, 5, 12))
            for axis in (0, 1):
                line = np.tile(c[0], (12, 1))
                line[:, axis] += d * args[1 - axis]
                h = np.asarray(mon.call(covarxy_pv, c[0], line, *args, 0), float).ravel()
                mon.check(np.all(np.diff(h) < 0) or np.any(h == 0), "decreasing", f"{what}: correlation at growing distance {h}")
                mon.same(h, np.exp(-d ** 2), "scale", f"{what}: correlation in units of the scale of axis {axis}", rtol=1e-7, atol=1e-12)
                mon.count("decreasing")
        mon.seen(fam, n, pv)
        return
    if fam == "real":
        from scipy.io import loadmat
        import glob
        files = sorted(glob.glob(os.path.join(core.REPO, "data", "test_data", "build_cov", "*.mat")))
        ptmp = None
        for f in files:
            d = loadmat(f)
            for k in d:
                if "ptmp" in k.lower():
                    ptmp = np.asarray(d[k], float)
        if ptmp is None:
            d = loadmat(os.path.join(core.REPO, "data", "float_source", "3901960.mat"))
            ptmp = d["PTMP"][10:60:5, :30]
        ptmp = np.clip(ptmp, -2, 30)
        m, n = ptmp.shape
        c = coords(rng, n, 0.3)
    else:
        m, n = int(rng.integers(1, 11)), int(rng.integers(1, 26))
        if fam == "long":
            m, n = int(rng.integers(2, 4)), int(rng.integers(258, 330))
        mon.count("large", fam == "long")
        if fam == "single":
            m, n = (1, n) if rng.random() < 0.5 else (m, 1)
        hi = rng.uniform(-1, 30)
        ptmp = np.sort(rng.uniform(-2, hi, (m, n)), axis=0)[::-1]
        if rng.random() < 0.5:
            ptmp = np.sort(rng.uniform(-2, hi, (m, 1)), axis=0)[::-1] + rng.normal(0, 0.05, (m, n))
            ptmp = np.clip(ptmp, -2, 30)
        if rng.random() < 0.4:
            ptmp = rng.permuted(ptmp, axis=0)
        if fam == "boundary":
            b = np.array([30, 24, 18, 12, 8, 4, 2.5, 1, -2])
            ptmp = np.where(rng.random((m, n)) < 0.5, rng.choice(b, (m, n)), ptmp)
            mon.count("boundary")
        if fam == "beyond":
            # the warmest and coldest water, and sensors out of order
            far = rng.random((m, n)) < rng.choice([0.1, 0.5])
            far[int(rng.integers(m)), int(rng.integers(n))] = True
            far = np.where(far, rng.choice([-2.5, -3.8, 30.01, 31.2, 34.0, 45.0], (m, n)) + rng.normal(0, 0.01, (m, n)), 0)
            ptmp = np.where(far != 0, far, ptmp)
            mon.count("beyond")
        if fam == "gaps" or rng.random() < 0.2:
            ptmp = ptmp.copy()
            ptmp[rng.random((m, n)) < 0.3] = np.nan
            if rng.random() < 0.4:
                ptmp[:, int(rng.integers(n))] = np.nan
        c = coords(rng, n, 10 ** rng.uniform(-2, 1))
        if fam == "equator":
            cfg["MAP_USE_PV"] = 1
            c[int(rng.integers(n)), 0] = 0.0
    what = f"{fam}: {m} levels x {n} profiles, pv {cfg['MAP_USE_PV']}"
    got = np.asarray(mon.call(build_cov, ptmp, c, cfg, pure=True), float)
    mon.check(got.shape == (m * n, m * n), "shape", f"{what}: {got.shape}")
    want = refs.level_covariance(ptmp, c, cfg["MAPSCALE_LATITUDE_SMALL"], cfg["MAPSCALE_LONGITUDE_SMALL"], cfg["MAPSCALE_PHI_SMALL"],
                                 cfg["MAP_USE_PV"])
    mon.same(got, want, "covariance", what + ": covariance", rtol=1e-9, atol=1e-300)
    mon.check(np.all((got >= 0) & (got <= 1)), "range", what + ": out of [0, 1]")
    mon.check(np.all(np.diag(got) == 1), "diagonal", what + ": diagonal")
    blocks = got.reshape(n, m, n, m)
    for a in range(n):
        h = np.array([blocks[a, 0, b, 0] for b in range(n)])
        tile = blocks[a, :, a, :]
        mon.check(np.allclose(blocks[a], tile[:, None, :] * h[None, :, None], rtol=1e-9, atol=0), "blocks",
                  f"{what}: blocks of profile {a} are not its vertical correlation times the horizontal ones")
    mon.count("matrices")
    mon.count("entries", got.size)
    mon.count("pv", cfg["MAP_USE_PV"])
    mon.count("gaps", np.any(np.isnan(ptmp)))
    mon.count("real", fam == "real")
    mon.seen(fam, m, n, cfg["MAP_USE_PV"], bool(np.any(np.isnan(ptmp))))
    mon.sample = dict(levels=m, profiles=n, row=got[0, :6], reference=want[0, :6])
