"""C07 selection of the historical casts"""
import math

import numpy as np

from .. import refs
from ..gen import cases

ID = "C07"
RULE = ("A case is a set of historical casts around a float (uniform, clustered, repeated positions, few, none in range), scales "
        "per axis, a cap and the vorticity switch; distinct by (family, in range, cap, vorticity, size of the drawn part).")
REQUIRE = {"capped": (100, 1500), "uncapped": (40, 500), "empty": (1, 60), "capped-pv": (30, 400), "reproduced": (100, 1500),
           "spread": (40, 600), "cap<=4": (15, 200), "crowd": (2, 30)}
ASSUMPTIONS = ["about a third: at least half of the number of distinct draws expected of a uniform generator"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 15
    return cases(rng, uniform=60 * k, cluster=40 * k, repeated=25 * k, tiny=40 * k, sparse=30 * k, edge=25 * k, crowd=2 * k)


def setting(fam, rng):
    n = int(rng.integers(30, 700)) if fam != "tiny" else int(rng.integers(3, 30))
    if fam == "crowd":
        n = 40000
    s = dict(lo_lat=rng.uniform(2, 6), lo_long=rng.uniform(2, 10))
    lat0, lon0 = rng.uniform(-70, 70), rng.uniform(0, 400)
    f = rng.uniform(0.3, 2.5) if fam != "crowd" else rng.uniform(0.2, 0.6)
    lat = lat0 + f * s["lo_lat"] * rng.normal(0, 1.4, n)
    lon = lon0 + f * s["lo_long"] * rng.normal(0, 1.4, n)
    if fam == "cluster":
        k = rng.integers(0, 6, n)
        lat = lat[k] + rng.normal(0, 0.2, n)
        lon = lon[k] + rng.normal(0, 0.2, n)
    if fam == "repeated":
        k = rng.integers(0, max(2, n // 3), n)
        lat, lon = lat[k], lon[k]
    if fam == "sparse":
        lat += rng.choice([-1, 1], n) * s["lo_lat"] * 3 * (rng.random() < 0.5)
        lon += rng.choice([-1, 1], n) * s["lo_long"] * rng.uniform(2, 4)
    if fam == "edge":                                       # just inside or outside three scales on one axis
        k = rng.random(n) < 0.5
        e = rng.choice([0.97, 0.999, 1.001, 1.03], n) * rng.choice([-1, 1], n)
        lat = np.where(k, lat0 + 3 * s["lo_lat"] * e, lat0 + rng.normal(0, 0.02, n))
        lon = np.where(k, lon0 + rng.normal(0, 0.02, n), lon0 + 3 * s["lo_long"] * e)
    lat = np.clip(lat, -89, 89)
    t0 = rng.uniform(1998, 2018)
    t = t0 - rng.uniform(0, 40, n)
    if fam == "repeated":
        t = t[rng.integers(0, n, n)]
    z0 = rng.uniform(1000, 6000)
    z = z0 * (1 + rng.uniform(0.02, 0.6) * rng.normal(0, 1, n))
    z[np.abs(z) < 20] = 300.0
    pv = int(rng.random() < 0.45)
    phi_l = 10 ** rng.uniform(-1.3, 0.3)
    args = dict(grid_lat=lat, grid_long=lon, grid_dates=t, grid_z_value=z, lat=lat0, long=lon0, date=t0, z_value=z0,
                latitude_large=s["lo_lat"], latitude_small=s["lo_lat"] * rng.uniform(0.2, 0.9),
                longitude_large=s["lo_long"], longitude_small=s["lo_long"] * rng.uniform(0.2, 0.9),
                phi_large=phi_l, phi_small=phi_l * rng.uniform(0.1, 0.9), age_large=10 ** rng.uniform(0, 1.7),
                age_small=10 ** rng.uniform(-0.3, 1.2), map_pv_use=pv)
    return args


def measures(a):
    dlat, dlon, dt = a["grid_lat"] - a["lat"], a["grid_long"] - a["long"], a["grid_dates"] - a["date"]
    tl = ts = 0.0
    if a["map_pv_use"]:
        pg, pf = refs.pot_vort(a["grid_lat"], a["grid_z_value"]), refs.pot_vort(a["lat"], a["z_value"])
        tl, ts = refs.pv_term(pg, pf, a["phi_large"]), refs.pv_term(pg, pf, a["phi_small"])
    e = refs.ellipse_measure(dlon, dlat, a["longitude_large"], a["latitude_large"], tl)
    big = refs.corr_distance(dlon, dlat, dt, a["longitude_large"], a["latitude_large"], a["age_large"], tl)
    small = refs.corr_distance(dlon, dlat, dt, a["longitude_small"], a["latitude_small"], a["age_small"], ts)
    return e, big, small


def best(chosen, pool, d):
    """chosen are the len(chosen) members of pool with the smallest d (ties in any way)"""
    a = np.sort(d[chosen])
    b = np.sort(d[pool])[:len(chosen)]
    return np.all(np.abs(a - b) <= 1e-9 + 1e-9 * b)


def run(case, rng, mon):
    from pyowc.core.finders import find_besthist
    fam = case["fam"]
    a = setting(fam, rng)
    e, big, small = measures(a)
    sure = np.abs(e - 1) > 1e-9
    for k in ("grid_lat", "grid_long", "grid_dates", "grid_z_value"):
        a[k] = a[k][sure]
    e, big, small = e[sure], big[sure], small[sure]
    if not len(e):
        return
    inside = np.flatnonzero(e < 1)
    n = len(inside)
    mon.count("crowd", fam == "crowd")
    for rep in range(2 - (fam == "crowd")):
        u = rng.random() if fam != "crowd" else 0.1
        if u < 0.65 and n > 1:
            cap = int(rng.integers(1, n)) if rng.random() < 0.7 else int(rng.integers(max(1, n - 4), n))
            if rng.random() < 0.25:
                cap = int(rng.integers(1, min(n, 5)))
            if fam == "crowd" and n > 1:
                cap = min(n - 1, int(rng.integers(30, 301)))
        elif u < 0.75 and n:
            cap = n
        else:
            cap = n + int(rng.integers(1, 50))
        a["max_casts"] = cap
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        out = np.asarray(mon.call(find_besthist, *a.values(), pure=True))
        what = f"{n} of {len(e)} casts in range, cap {cap}, pv {a['map_pv_use']}"
        mon.check(out.ndim == 1 and (out.size == 0 or out.dtype.kind in "iu"), "type", f"{what}: {out.dtype} {out.shape}")
        mon.check(len(set(out.tolist())) == len(out), "distinct", f"{what}: {len(out) - len(set(out.tolist()))} casts selected twice")
        mon.check(set(out.tolist()) <= set(inside.tolist()), "ellipse", f"{what}: a cast out of range is selected")
        size = None
        if n <= cap:
            mon.check(len(out) == n, "all", f"{what}: {len(out)} selected")
            mon.count("uncapped")
            mon.count("empty", n == 0)
        else:
            mon.check(len(out) == cap, "cap", f"{what}: {len(out)} selected")
            third = math.ceil(cap / 3)
            ok = []
            for r in range(0, third + 1):
                nl = min(2 * third - r, cap - r)
                rand, large, little = out[:r], out[r:r + nl], out[r + nl:]
                pool = np.setdiff1d(inside, rand)
                if not best(large, pool, big):
                    continue
                if best(little, np.setdiff1d(pool, large), small):
                    ok.append(r)
            mon.check(ok, "rule", f"{what}: no drawn third makes the rest the best correlated", out=out)
            size = max(ok)
            expect = n * (1 - (1 - 1 / n) ** third)
            mon.check(size >= 1 and size >= 0.5 * expect - 2, "third", f"{what}: only {size} casts are drawn, about {expect:.0f} expected")
            if third >= 20 and n >= 2 * third:
                rank = (np.searchsorted(inside, out[:size]) + 0.5) / n
                # (part of the drawn casts could also be among the best: their positions in the list are arbitrary)
                mon.check(abs(rank.mean() - 0.5) < 6 * math.sqrt(1 / 12 / size) + 0.5 / n, "spread",
                          f"{what}: the drawn casts sit at {rank.mean():.2f} of the list on average")
                mon.count("spread")
            mon.count("capped")
            mon.count("capped-pv", a["map_pv_use"])
            mon.count("cap<=4", cap <= 4)
        # again: other random state, other calls in between
        b = setting("uniform", rng)
        b["max_casts"] = int(rng.integers(1, 60))
        mon.call(find_besthist, *b.values())
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        np.random.rand(int(rng.integers(0, 50)))
        again = np.asarray(mon.call(find_besthist, *a.values()))
        mon.check(again.shape == out.shape and np.array_equal(again, out), "reproducible", f"{what}: another selection the second time")
        mon.count("reproduced")
        mon.seen(fam, n, cap, a["map_pv_use"], size)
    mon.sample = dict(inside=n, total=len(e), cap=cap, drawn=size, selected=out[:12])
