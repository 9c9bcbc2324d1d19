"""C08 objective mapping"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C08"
RULE = ("A case is a data set (6-200 distinct positions), scales per axis, variances and a target, mapped once against the dense "
        "reference and again under shift, scaling, reordering, distance and vanishing noise; distinct by (family, size, vorticity, "
        "rounded map).")
REQUIRE = {"maps": (150, 2000), "pv": (40, 500), "far": (20, 200), "exact": (20, 200), "reordered": (80, 1000), "many": (4, 50)}
ASSUMPTIONS = ["distinct positions, signal and noise variance > 0, condition number of the data covariance below 1e8"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, general=60 * k, anisotropic=40 * k, dense=25 * k, noisy=20 * k, pv=40 * k, far=25 * k, exact=25 * k, many=4 * k)


def run(case, rng, mon):
    from pyowc.data.wrangling import map_data_grid
    fam = case["fam"]
    n = int(rng.integers(6, 120)) if fam not in ("dense", "many") else int(rng.integers(120, 260)) if fam == "dense" else int(rng.integers(300, 700))
    slon, slat, sage = rng.uniform(1, 10), rng.uniform(1, 10), 10 ** rng.uniform(0, 1.6)
    if fam == "anisotropic":
        slon, slat = (slon * 4, slat / 2) if rng.random() < 0.5 else (slon / 2, slat * 4)
    phi = 10 ** rng.uniform(-1.5, 0)
    pv = int(fam == "pv" or (fam in ("general", "far") and rng.random() < 0.3))
    lat0, lon0, t0, z0 = rng.uniform(-75, 75), rng.uniform(0, 380), rng.uniform(1995, 2020), rng.uniform(800, 6000)
    spread = rng.uniform(0.4, 2)
    data = np.column_stack([np.clip(lat0 + spread * slat * rng.normal(0, 1, n), -89, 89), lon0 + spread * slon * rng.normal(0, 1, n),
                            t0 - sage * rng.uniform(0, 2, n), z0 * (1 + 0.2 * rng.uniform(-1, 1, n))])
    target = np.array([[lat0, lon0, t0, z0]])
    sig = 10 ** rng.uniform(-5, 0)
    noise = sig * 10 ** (rng.uniform(-3, 0) if fam != "noisy" else rng.uniform(0, 1))
    y = 35 + rng.uniform(-1, 1) * (fam != "general") + np.sqrt(sig) * rng.normal(0, 1, n)
    if rng.random() < 0.2:
        y -= 35
    if fam == "far":
        target[0, :2] += [0, 60 * slon] if abs(lat0) > 30 or rng.random() < 0.5 else [np.sign(-lat0 - .1) * 60, 60 * slon]
    if fam == "exact":
        gap = np.abs(data[:, None] - data[None])
        keep = [0]
        for i in range(1, n):
            if all((gap[i, j, 0] / slat) ** 2 + (gap[i, j, 1] / slon) ** 2 > 0.3 for j in keep):
                keep.append(i)
        data, y = data[keep], y[keep]
        n = len(y)
        if n < 3:
            return
        noise = sig * 1e-9
    if rng.random() < 0.25:
        pv = float(pv)

    want = refs.kriging(y, target, data, slat, slon, sage, sig, noise, phi, pv)
    if want[4] > 1e8:
        mon.count("ill-conditioned")
        return
    args = (target, data, slon, slat, sage, sig, noise, phi, pv)
    mon.count("many", fam == "many")
    got = mon.call(map_data_grid, y, *args, pure=True)
    m, e, md, ed = float(got[0]), float(got[1]), np.asarray(got[2], float).ravel(), np.asarray(got[3], float).ravel()
    tol = 1e-13 * want[4]
    amp = np.ptp(y) + abs(np.mean(y)) * 1e-3
    what = f"{fam}, {n} data"
    mon.same(m, want[0][0], "map", what + ": mapped value", atol=amp * (1e-9 + tol))
    mon.same(md, want[2], "map-data", what + ": map at the data", atol=amp * (1e-9 + tol))
    # errors are square roots of differences of order sig
    mon.same(e * e, want[1][0], "error", what + ": squared error", atol=sig * (1e-9 + tol))
    mon.same(ed * ed, np.maximum(want[3], 0) if fam != "exact" else ed * ed, "error-data", what + ": squared errors at the data",
             atol=sig * (1e-9 + tol))
    mon.check(np.isfinite(e) and e >= 0 and (fam == "exact" or (np.all(np.isfinite(ed)) and np.all(ed >= 0))), "error-sign", what)
    mon.count("maps")
    mon.count("pv", pv)

    # metamorphic relations, on the code alone
    c, a = rng.uniform(-20, 20), rng.uniform(0.3, 4)
    g = mon.call(map_data_grid, y + c, *args)
    mon.same(g[0], m + c, "shift", what + ": map after a shift", atol=(amp + abs(c)) * (1e-8 + 10 * tol))
    mon.same(g[1], e, "shift-error", what + ": error after a shift", rtol=1e-9)
    s = args[:5] + (sig * a * a, noise * a * a) + args[7:]
    g = mon.call(map_data_grid, y * a, *s)
    mon.same(g[0], m * a, "scale", what + ": map of scaled data", atol=a * amp * (1e-8 + 10 * tol))
    mon.same(g[1] ** 2, (e * a) ** 2, "scale-error", what + ": error of scaled data", atol=a * a * sig * (1e-8 + 10 * tol))
    o = rng.permutation(n)
    g = mon.call(map_data_grid, y[o], target, data[o], *args[2:])
    mon.same(g[0], m, "order", what + ": map of reordered data", atol=amp * (1e-8 + 10 * tol))
    mon.same(np.asarray(g[2]).ravel(), md[o], "order-data", what + ": map at reordered data", atol=amp * (1e-8 + 10 * tol))
    mon.count("reordered")
    if fam == "far":
        K = sig * refs.covariance(data, data, slat, slon, sage, phi, pv) + noise * np.eye(n)
        one = np.linalg.solve(K, np.ones(n))
        mean = one @ y / one.sum()
        mon.same(m, mean, "far", what + ": map far from the data", atol=amp * (1e-8 + tol))
        mon.same(e * e, sig + 1 / one.sum(), "far-error", what + ": squared error far from the data", rtol=1e-8)
        mon.count("far")
    if fam == "exact":
        mon.same(md, y, "exact", what + ": data not reproduced without noise", atol=1e-5 * np.sqrt(sig) + amp * 10 * tol)
        mon.count("exact")
    mon.seen(fam, n, pv, round(m, 6))
    mon.sample = dict(n=n, map=m, error=e, reference=[float(want[0][0]), float(np.sqrt(max(0, want[1][0])))])
