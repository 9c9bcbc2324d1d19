"""C09 interpolation of the climatology to the float's temperatures"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C09"
RULE = ("A case is a set of historical casts (smooth, inversions, plateaus, exact hits, gaps, infinite or missing variables, "
        "empty casts) and a float profile; every (level, cast) pair is judged; distinct by (family, shape, filled pairs, pairs "
        "with several crossings).")
REQUIRE = {"pairs": (20000, 300000), "filled": (6000, 90000), "multi": (300, 4000), "incomplete-levels": (300, 4000),
           "subset": (100, 1400), "exact-hit": (300, 4000), "large": (4, 50)}


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, smooth=25 * k, inversion=40 * k, plateau=25 * k, lattice=30 * k, gaps=35 * k, hostile=30 * k, single=10 * k, deep=2 * k, wide=2 * k)


def profile(fam, rng, m):
    p = np.sort(rng.uniform(2, 2000, m))
    th = 3 + rng.uniform(8, 20) * np.exp(-p / rng.uniform(300, 900))
    if fam in ("inversion", "hostile", "deep"):
        th = th + rng.uniform(0, 2.5) * np.sin(p / rng.uniform(40, 300) + rng.uniform(0, 6))
    if fam in ("plateau", "lattice"):
        th = np.round(th * 2) / 2
    if fam == "plateau" and m > 2:
        a = int(rng.integers(0, m - 1))
        th[a:a + int(rng.integers(2, 6))] = th[a]
    s = 34.5 + 0.06 * th + rng.normal(0, 0.02, m)
    if fam == "lattice":
        p = np.round(p / 50) * 50
    return p, th, s


def run(case, rng, mon):
    from pyowc.data.wrangling import interp_climatology
    fam = case["fam"]
    m, nc, nf = int(rng.integers(2, 40)), int(rng.integers(1, 25)), int(rng.integers(1, 40))
    if fam == "deep":                                   # 1-dbar CTD casts, a float that samples as often
        m, nc, nf = int(rng.integers(1500, 5000)), 3, 30
    if fam == "wide":                                   # as many casts as may be used, and more
        m, nc, nf = 12, int(rng.integers(300, 600)), 6
    mon.count("large", fam in ("deep", "wide"))
    if fam == "single":
        m = int(rng.choice([1, 2]))
    gs, gt, gp = (np.full((m, nc), np.nan) for _ in range(3))
    for c in range(nc):
        k = m if rng.random() < 0.5 else int(rng.integers(1, m + 1))
        p, th, s = profile(fam, rng, k)
        gp[:k, c], gt[:k, c], gs[:k, c] = p, th, s
    if fam in ("gaps", "hostile"):
        for v in (gs, gt, gp):
            v[rng.random(v.shape) < rng.uniform(0, 0.3)] = np.nan
    if fam == "hostile":
        (gs, gt, gp)[int(rng.integers(3))][rng.random(gs.shape) < 0.05] = rng.choice([np.inf, -np.inf])
        gs[:, rng.random(nc) < 0.2] = np.nan
        if rng.random() < 0.05:
            gt[:] = np.nan
    fp, ft, fs = profile(fam, rng, nf)
    if fam != "smooth":
        for v in (fp, ft, fs):
            v[rng.random(nf) < 0.08] = np.nan
    hit = rng.random(nf) < 0.15
    pool = gt[np.isfinite(gt)]
    if pool.size:
        ft[hit] = rng.choice(pool, int(hit.sum()))
    args = (gs, gt, gp, fs, ft, fp)
    got = mon.call(interp_climatology, *args, pure=True)
    s, p = (np.asarray(x, float) for x in got)
    mon.check(s.shape == p.shape == (nf, nc), "shape", f"{s.shape}, {p.shape} for {nf} levels and {nc} casts")
    ws, wp, amb = refs.interp_to_theta(*args)
    what = f"{fam}, {nf} levels x {nc} casts of {m}"
    mon.check(np.array_equal(np.isnan(s), np.isnan(ws)) and np.array_equal(np.isnan(p), np.isnan(wp)), "missing",
              f"{what}: {int(np.sum(np.isnan(s) != np.isnan(ws)))} pairs wrongly missing or filled")
    sel = ~amb
    mon.same(p[sel], wp[sel], "pressure", what + ": pressure", rtol=1e-9, atol=1e-7)
    mon.same(s[sel], ws[sel], "salinity", what + ": salinity", rtol=1e-9, atol=1e-8)
    for i, c in np.argwhere(amb)[:50]:
        x = refs.crossings(gs[:, c], gt[:, c], gp[:, c], ft[i])
        mon.check(any(abs(a - s[i, c]) < 1e-8 and abs(b - p[i, c]) < 1e-6 for a, b in x), "crossing",
                  f"{what}: level {i}, cast {c} is no crossing")
    multi = 0
    for i in range(0, nf, 3):
        for c in range(0, nc, 3):
            if not np.isnan(ws[i, c]):
                multi += len(refs.crossings(gs[:, c], gt[:, c], gp[:, c], ft[i])) > 1
    mon.count("pairs", s.size)
    mon.count("filled", int(np.sum(~np.isnan(s))))
    mon.count("multi", multi)
    mon.count("incomplete-levels", int(np.sum(~np.isfinite(fs + ft + fp))))
    mon.count("exact-hit", int(np.sum(hit)))
    # the answer for a cast does not depend on the others, nor that of a level
    cols = rng.choice(nc, int(rng.integers(1, nc + 1)), replace=False)
    rows = rng.choice(nf, int(rng.integers(1, nf + 1)), replace=False)
    g = mon.call(interp_climatology, gs[:, cols], gt[:, cols], gp[:, cols], fs[rows], ft[rows], fp[rows])
    mon.same(g[0], s[np.ix_(rows, cols)], "subset", what + ": salinity of a subset", rtol=1e-12)
    mon.same(g[1], p[np.ix_(rows, cols)], "subset", what + ": pressure of a subset", rtol=1e-12)
    mon.count("subset")
    mon.seen(fam, s.shape, int(np.sum(~np.isnan(s))), multi)
    mon.sample = dict(levels=nf, casts=nc, filled=int(np.sum(~np.isnan(s))), several=multi)
