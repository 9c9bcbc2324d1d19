"""C11 Subantarctic Front filter"""
import os

import numpy as np
from scipy.io import loadmat

from .. import core, refs
from ..gen import cases

ID = "C11"
RULE = ("A case is a float profile (north, south, between, inside an envelope, not reaching 300 dbar, repeated pressures, gaps, "
        "one to four levels, north of 30S) and 1-60 historical casts of all classes; distinct by (family, float class, kept, total).")
REQUIRE = {"north": (20, 300), "south": (20, 300), "undecided": (30, 400), "by-envelope": (6, 80), "tropical": (10, 150),
           "too few levels": (3, 40), "removed": (300, 4000), "kept": (500, 7000)}
ASSUMPTIONS = ["pressures increase (or repeat) with depth", "casts whose class depends on their last stored level may be judged either way",
               "a float with repeated pressures may be left undecided"]
SAF = {}


def setup(scratch):
    SAF.update(loadmat(os.path.join(core.REPO, "data", "constants", "TypicalProfileAroundSAF.mat")))


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, decided=60 * k, between=40 * k, envelope=50 * k, shallow=20 * k, repeated=20 * k, gaps=30 * k, tropical=15 * k, few=15 * k)


def temp_profile(rng, p, t300):
    h = rng.uniform(200, 900)
    deep = rng.uniform(0, min(2.5, t300))
    return deep + (t300 - deep) * np.exp(-(p - 300) / h)


def sides(p, t):
    """possible classes of one cast"""
    ok = ~(np.isnan(p) | np.isnan(t))
    res = set()
    with np.errstate(invalid="ignore"):
        d = np.diff(p) == 0
    for first in (np.r_[~d, True], np.r_[True, ~d]):          # of repeated pressures either level
        for cut in (len(p), len(p) - 1):
            k = ok & first
            k[cut:] = False
            q, u = p[k], t[k]
            if len(q) < 3 or not q.min() < 300 < q.max():
                res.add(0)
                continue
            v = np.interp(300, q, u)
            for e in (-1e-6, 1e-6):
                res.add(1 if v + e > 5 else -1 if v + e < 3 else 0)
    return res


def run(case, rng, mon):
    from pyowc.data.fetchers import frontal_constraint_saf
    fam = case["fam"]
    cfg = {'CONFIG_DIRECTORY': os.path.join(core.REPO, "data", "constants"), 'CONFIG_SAF': "TypicalProfileAroundSAF.mat"}
    nf = int(rng.integers(8, 60)) if fam != "few" else int(rng.integers(1, 5))
    lat = rng.uniform(-75, -30.01) if fam != "tropical" else float(rng.choice([rng.uniform(-30, 80), -30.0]))
    fp = np.sort(rng.uniform(3, 2000, nf))
    fp[0] = 5
    t300 = rng.choice([rng.uniform(5.05, 14), rng.uniform(0.2, 2.95)]) if fam not in ("between", "envelope") else rng.uniform(3.02, 4.98)
    ft = temp_profile(rng, fp, t300)
    fs = 34.0 + 0.05 * ft + 0.0002 * fp + rng.normal(0, 0.005, nf)
    if fam == "envelope":
        # a profile that follows one of the typical ones within its envelope
        z = SAF["Deph"].ravel()[2:]
        side, alo, ahi, blo, bhi = [("N", -1.9, -1.02, -3, -1.8), ("N", -1.15, -1.01, -0.7, 0), ("S", 1.25, 1.7, 1.4, 2.1),
                                    ("S", 1.25, 1.7, -3, -1), ("N", -1.9, -1.02, -1.5, 1)][int(rng.integers(5))]
        a, b = rng.uniform(alo, ahi), rng.uniform(blo, bhi)
        fp = np.sort(np.r_[5, rng.uniform(10, 1950, nf - 2), 1990])
        ft = np.interp(fp, z, SAF["T_mean" + side].ravel()[2:] + a * SAF["T_std" + side].ravel()[2:])
        fs = np.interp(fp, z, SAF["S_mean" + side].ravel()[2:] + b * SAF["S_std" + side].ravel()[2:])
    if fam == "shallow":
        fp = fp / fp.max() * rng.uniform(50, 299) if rng.random() < 0.6 else fp + 301
    if fam == "few":
        fp[-1] = rng.uniform(250, 1500)
    if fam == "repeated":
        fp[int(rng.integers(1, nf))] = fp[int(rng.integers(0, nf))]
        fp.sort()
    if fam == "gaps":
        for v in (fp, ft, fs):
            v[rng.random(nf) < 0.15] = np.nan

    nc, m = int(rng.integers(1, 60)), int(rng.integers(4, 40))
    gs, gt, gp = (np.full((m, nc), np.nan) for _ in range(3))
    for c in range(nc):
        k = m if rng.random() < 0.3 else int(rng.integers(2, (5 if fam == "few" else m + 1)))
        p = np.sort(rng.uniform(3, rng.choice([250, 400, 1500, 2500], p=[0.1, 0.1, 0.4, 0.4]), k))
        p[0] = 4 if rng.random() < 0.9 else p[0]
        p.sort()
        if rng.random() < 0.1 and k > 3:
            j = int(rng.integers(1, k))
            p[j] = p[j - 1]
        t = temp_profile(rng, p, rng.uniform(0.3, 9))
        gp[:k, c], gt[:k, c], gs[:k, c] = p, t, 34 + 0.04 * t + 0.0002 * p
        bad = rng.random(k) < 0.08 * (fam == "gaps")
        for v in (gs, gt, gp):
            v[:k, c][bad] = np.nan
    glat, glon = np.clip(lat + rng.normal(0, 4, nc), -80, 85), (rng.uniform(0, 360) + rng.normal(0, 8, nc)) % 360
    data = dict(grid_sal=gs, grid_ptmp=gt, grid_pres=gp, grid_lat=glat, grid_long=glon,
                grid_dates=2000 + rng.uniform(0, 20, nc), grid_z=rng.uniform(500, 6000, nc))
    fl = dict(float_lat=lat, float_pres=fp, float_tmp=ft, float_sal=fs, float_long=glon[0])
    got = mon.call(frontal_constraint_saf, cfg, data, fl, pure=True)
    keys = list(data)
    mon.check(set(keys) <= set(got), "keys", f"missing {set(keys) - set(got)}")

    # the float
    if lat >= -30:
        possible, via = {0}, None
        mon.count("tropical")
    else:
        ok = ~(np.isnan(fp) | np.isnan(ft))
        raw = refs.side_of_300(fp, ft)
        via = None
        if raw is None:
            possible = {0}
        elif raw == 0:
            possible = {refs.envelope_side(fp, ft, fs, SAF)}
            via = possible
            mon.count("by-envelope", possible != {0})
        else:
            possible = {raw}
        t = np.interp(300, fp[ok], ft[ok]) if ok.any() else np.nan
        if raw is not None and min(abs(t - 5), abs(t - 3)) < 1e-6:
            return
        if np.any(np.diff(fp[ok]) == 0):
            possible = possible | {0}
    # the casts
    tmp = refs.insitu_temperature(gs, gt, gp, glon, glat)
    classes = [sides(gp[:, c], tmp[:, c]) for c in range(nc)]
    n = np.asarray(got["grid_lat"]).shape[0] if np.ndim(got["grid_lat"]) else -1
    # which casts were kept: positions are distinct
    kept = [int(np.flatnonzero(data["grid_z"] == z)[0]) if np.any(data["grid_z"] == z) else -1 for z in np.asarray(got["grid_z"]).ravel()]
    what = f"{fam}: float class {sorted(possible)}, {len(kept)} of {nc} casts kept"
    mon.check(-1 not in kept and kept == sorted(set(kept)), "order", what + ": not a subset of the casts in their order")
    for k in keys:
        want = data[k][:, kept] if data[k].ndim == 2 else data[k][kept]
        mon.same(got[k], want, "together", f"{what}: {k} of the kept casts")
    good = False
    for side in possible:
        if side == 0:
            good |= kept == list(range(nc))
        else:
            must = {c for c in range(nc) if classes[c] == {side}}
            may = {c for c in range(nc) if side in classes[c]}
            good |= must <= set(kept) <= may
    mon.check(good, "side", what + f": classes {classes[:8]}, kept {kept[:8]}")
    side = list(possible)[0] if len(possible) == 1 else None
    mon.count("north", side == 1)
    mon.count("south", side == -1)
    mon.count("undecided", side == 0)
    mon.count("too few levels", fam == "few" and 0 < np.sum(~(np.isnan(fp) | np.isnan(ft))) < 3)
    mon.count("kept", len(kept))
    mon.count("removed", nc - len(kept))
    mon.seen(fam, sorted(possible), len(kept), nc, n)
    mon.sample = dict(float_class=sorted(possible), kept=len(kept), total=nc, by_envelope=via is not None)
