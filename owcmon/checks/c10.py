"""C10 signal and noise variance"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C10"
RULE = ("A case is a vector of salinities with positions (scattered, on a lattice with ties, duplicated positions, clusters, "
        "all coincident, missing salinities); distinct by (family, size, rounded result).")
REQUIRE = {"noise": (100, 1500), "signal": (100, 1500), "duplicates": (20, 200), "ties": (10, 100), "coincident": (5, 50), "large": (5, 60)}


def plan(tier, rng):
    k = 1 if tier == "quick" else 15
    return cases(rng, scattered=60 * k, lattice=30 * k, duplicated=40 * k, cluster=20 * k, coincident=10 * k, missing=20 * k)


def run(case, rng, mon):
    from pyowc.core.stats import noise_variance, signal_variance
    fam = case["fam"]
    n = int(rng.choice([2, 3, 6, 30, 150])) if case["k"] % 12 != 3 else int(rng.choice([300, 301, 900]))
    mon.count("large", n >= 300)
    lat, lon = rng.uniform(-70, 70) + rng.normal(0, 4, n), rng.uniform(0, 360) + rng.normal(0, 7, n)
    sal = 35 + rng.normal(0, 10 ** rng.uniform(-4, 0), n)
    if rng.random() < 0.2:
        sal -= 35                       # residuals
    if fam == "lattice":
        lat, lon = rng.integers(-5, 5, n).astype(float), rng.integers(0, 9, n).astype(float)
    elif fam == "duplicated":
        pick = rng.integers(0, max(1, n // 2), n)
        lat, lon = lat[pick], lon[pick]
    elif fam == "cluster":
        pick = rng.integers(0, 3, n)
        lat, lon = lat[pick % n] + rng.normal(0, 1e-3, n), lon[pick % n] + rng.normal(0, 1e-3, n)
    elif fam == "coincident":
        lat, lon = np.full(n, lat[0]), np.full(n, lon[0])
    if fam == "missing" and n > 3:
        sal[rng.choice(n, n // 4 + 1, replace=False)] = np.nan

    sv = float(mon.call(signal_variance, sal, pure=True))
    mon.same(sv, refs.signal_var(sal), "signal", f"signal variance of {n} values", rtol=1e-9, atol=1e-18)
    mon.count("signal")
    col = float(mon.call(signal_variance, sal.reshape(-1, 1).tolist()))
    mon.same(col, sv, "signal-shape", "signal variance of a column", rtol=1e-9)

    nv = float(mon.call(noise_variance, sal, lat, lon, pure=True))
    want, amb = refs.noise_var(sal, lat, lon)
    if not amb:
        mon.same(nv, want, "noise", f"noise variance of {n} data ({fam})", rtol=1e-8, atol=1e-18)
    mon.count("noise")
    uniq = len(set(zip(lat, lon)))
    mon.count("duplicates", 1 < uniq < n)
    mon.count("ties", fam == "lattice" and n > 5)
    if uniq == 1:
        mon.check(nv == 0, "coincident", f"noise variance {nv} of coincident data")
        mon.count("coincident")
    # shift and scale
    c, a = rng.uniform(-5, 5), rng.uniform(0.2, 5)
    mon.same(float(mon.call(signal_variance, sal + c)), sv, "signal-shift", "signal variance after a shift", rtol=1e-6, atol=1e-13)
    mon.same(float(mon.call(noise_variance, sal + c, lat, lon)), nv, "noise-shift", "noise variance after a shift",
             rtol=1e-6, atol=1e-13)
    mon.same(float(mon.call(noise_variance, sal * a, lat, lon)), nv * a * a, "noise-scale", "noise variance of scaled data",
             rtol=1e-8, atol=1e-18)
    mon.same(float(mon.call(signal_variance, sal * a)), sv * a * a, "signal-scale", "signal variance of scaled data",
             rtol=1e-6, atol=1e-18)
    mon.seen(fam, n, round(nv, 10))
    mon.sample = dict(n=n, signal=sv, noise=nv)
    if n > 2 and case["k"] % 10 == 0:
        r = mon.call(signal_variance, [np.nan] * n, catch=(RuntimeError,))
        mon.check(getattr(r, "kind", "") == "RuntimeError", "signal-none", "no error without any valid salinity")
