"""C16 selection of the ten theta levels"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C16"
RULE = ("A case is a series of profiles (smooth, inversions, gaps, few levels, single usable levels, nothing usable), mapped or "
        "unmapped levels, every combination of bounds and a coverage fraction; distinct by (family, shape, bounds, candidates, "
        "selected levels).")
REQUIRE = {"selected-levels": (600, 8000), "nothing": (10, 150), "lost": (15, 150), "bounded": (60, 800), "indices": (4000, 60000),
           "sparse-candidates": (20, 300), "short-range": (10, 120),
           "round-pressures": (15, 200), "homogeneous": (15, 200), "large": (5, 60)}
ASSUMPTIONS = ["candidates with equal variance may be taken in any order"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, smooth=25 * k, inversion=30 * k, gaps=40 * k, bounds=50 * k, short=20 * k, empty=15 * k, thin=15 * k, lost=15 * k, homog=25 * k, long=3 * k, deep=3 * k)


def arr(v):
    return np.array([[v]]) if v is not None else np.empty((0, 0))


def run(case, rng, mon):
    from pyowc.core.finders import find_10thetas
    fam = case["fam"]
    m, n = int(rng.integers(8, 60)), int(rng.integers(2, 30))
    if fam == "long":                                 # a float that has lived for years
        n = int(rng.integers(260, 420))
    if fam == "deep":                                 # a level every dbar or two
        m, n = int(rng.integers(500, 1300)), int(rng.integers(2, 12))
    mon.count("large", fam in ("long", "deep"))
    pmax = rng.uniform(900, 2000) if fam != "short" else rng.uniform(60, 480)
    if fam == "thin":
        pmax = rng.uniform(5, 40)
    pres, ptmp, sal = (np.full((m, n), np.nan) for _ in range(3))
    step = float(rng.choice([0, 1, 5, 10], p=[0.7, 0.1, 0.1, 0.1])) if fam not in ("thin", "short") else 0
    base, width = rng.uniform(-1, 15), rng.uniform(0.02, 0.3)
    h, top = rng.uniform(300, 800), rng.uniform(6, 22)
    for j in range(n):
        k = m if rng.random() < 0.6 else int(rng.integers(1, m + 1))
        p = np.sort(rng.uniform(3, pmax, k))
        if step:                                      # levels of a standard list
            p = np.sort(rng.permutation(np.arange(step, max(pmax, (k + 1) * step), step))[:k])
        t = 2.5 + top * np.exp(-(p + rng.normal(0, 20)) / h) + rng.normal(0, 0.03, k)
        if fam == "thin":
            t = 15 - p * rng.uniform(0.02, 0.3)
        if fam == "homog":                            # hardly any range of temperatures at all
            t = base + width * (0.8 * np.exp(-p / h) + 0.2 * rng.random(k))
        if fam == "inversion":
            t += rng.uniform(0, 1.5) * np.sin(p / rng.uniform(30, 200) + rng.uniform(0, 6))
        if rng.random() < 0.2 and fam != "homog":
            t = np.round(t, 1)
        pres[:k, j], ptmp[:k, j] = p, t
        sal[:k, j] = 34.5 + 0.05 * t + 0.05 * rng.normal(0, 1, k) * np.exp(-p / 400) + 0.005 * rng.normal()
    if fam in ("gaps", "empty", "bounds"):
        for v in (pres, ptmp, sal):
            v[rng.random((m, n)) < rng.uniform(0, 0.15)] = np.nan
        sal[:, rng.random(n) < 0.1] = np.nan
        ptmp[:, rng.random(n) < 0.1] = np.nan
    mapped = np.where(pres > rng.uniform(0, 200), ptmp, np.nan)
    mapped[rng.random((m, n)) < 0.1] = np.nan
    mapped[:, rng.random(n) < 0.1] = np.nan
    if fam == "thin":
        mapped = ptmp.copy()
    if fam == "empty":
        keep = np.zeros((m, n), bool)
        for _ in range(int(rng.integers(0, 4))):
            keep[int(rng.integers(m)), int(rng.integers(n))] = True
        mapped[~keep] = np.nan
    if fam == "lost":                                 # lost since the float was mapped, everywhere or where it was mapped
        v = [pres, sal, ptmp][int(rng.choice(3, p=[0.5, 0.25, 0.25]))]
        v[~np.isnan(mapped) | (rng.random() < 0.6)] = np.nan
        mon.count("lost")
    b = [None] * 4                                    # theta <, theta >, pressure <, pressure >
    if fam == "bounds" or rng.random() < 0.3:
        lo, hi = np.sort(rng.choice(ptmp[np.isfinite(ptmp)], 2)) if np.isfinite(ptmp).any() else (4, 9)
        pl, ph = np.sort(rng.uniform(0, pmax, 2))
        kind = rng.integers(0, 5, 2)
        b[0], b[1] = [(None, None), (hi, None), (None, lo), (hi, lo), (lo, hi)][kind[0]]
        b[2], b[3] = [(None, None), (ph, None), (None, pl), (ph, pl), (pl, ph)][kind[1]]
    frac = float(rng.choice([0.5, 0.0, 0.3, 0.8, 1.0]))
    s, t, p = refs.masked_series(sal, ptmp, pres, mapped, *b)
    what = f"{fam}, {m} levels x {n} profiles, bounds {[None if v is None else round(float(v), 2) for v in b]}, coverage {frac}"
    percent = frac if rng.random() < 0.5 else np.array([[frac]])
    out = mon.call(find_10thetas, sal.copy(), ptmp.copy(), pres.copy(), mapped.copy(), *(arr(v) for v in b), percent)
    tl, pl, idx = (np.asarray(x, float) for x in out[:3])
    tl, pl = tl.ravel(), pl.ravel()
    mon.check(tl.shape == pl.shape == (10,) and idx.shape == (10, n), "shape", f"{what}: {tl.shape}, {pl.shape}, {idx.shape}")
    ref = refs.ten_thetas(s, t, p, frac)
    mon.count("homogeneous", fam == "homog")
    mon.count("round-pressures", step > 0)
    mon.count("bounded", any(v is not None for v in b))
    chosen = np.flatnonzero(~np.isnan(tl))
    if ref is None:
        mon.check(len(chosen) == 0 and np.all(np.isnan(idx)), "nothing", what + f": {len(chosen)} levels from an unusable series")
        mon.count("nothing")
        mon.seen(fam, "nothing", n)
        return
    mon.count("short-range", fam == "short")
    cand = np.asarray(out[4], float).ravel()
    mon.same(cand, ref["cand_theta"], "candidates", what + ": candidate temperatures", rtol=1e-9, atol=1e-9)
    var = np.asarray(out[3], float).ravel()
    mon.same(var, ref["var"], "variance", what + ": salinity variances", rtol=1e-6, atol=1e-14)
    want = len(ref["order"])
    mon.check(list(chosen) == list(range(want)), "number", f"{what}: levels {list(chosen)} chosen, expected the first {want}")
    vs, used = [], []
    for i in chosen:
        k = [c for c in range(len(cand)) if abs(cand[c] - tl[i]) <= 1e-9 and abs(ref["cand_p"][c] - pl[i]) <= 1e-6]
        mon.check(len(k) == 1 and k[0] not in used, "candidate", f"{what}: level {i} ({tl[i]}, {pl[i]}) is no candidate or taken twice")
        k = k[0]
        used.append(k)
        vs.append(ref["var"][k])
        mon.check(ref["frac"][k] >= frac, "coverage", f"{what}: level {i} is sampled by {ref['frac'][k]:.2f} of the profiles")
        for j in range(n):
            a, w = idx[i, j], ref["idx"][k, j]
            mon.check(np.isnan(a) == np.isnan(w), "index-missing", f"{what}: index of level {i} in profile {j} is {a}, expected {w}")
            if not np.isnan(a):
                ok = a == int(a) and 0 <= a < m and abs(abs(t[int(a), j] - tl[i]) - abs(t[int(w), j] - tl[i])) <= 1e-12
                mon.check(ok, "index-nearest", f"{what}: level {i} in profile {j} is {a} instead of {w}")
                mon.count("indices")
    vs = np.array(vs)
    mon.check(np.all(np.diff(vs) >= -1e-9 * np.abs(vs[1:]) - 1e-15), "order", what + f": variances {vs}")
    best = ref["var"][ref["order"]]
    mon.same(np.sort(vs), best, "least", what + ": variances of the chosen levels", rtol=1e-6, atol=1e-14)
    mon.count("selected-levels", want)
    mon.count("sparse-candidates", want < 10)
    mon.seen(fam, m, n, tuple(v is not None for v in b), len(cand), want)
    mon.sample = dict(candidates=len(cand), chosen=tl, variances=vs)
