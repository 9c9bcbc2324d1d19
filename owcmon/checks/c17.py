"""C17 the calibration-series file"""
import os

import numpy as np
from scipy.io import savemat, loadmat

from .. import world
from ..gen import cases

ID = "C17"
RULE = ("A case is a history of 1-6 preparations of one float's calibration: profiles arriving (in order, late, singly), good and bad "
        "(no salinity, temperature or pressure at all), profiles removed, and an operator editing series and settings in between; the "
        "settings file after every preparation is compared with a model. Distinct by (family, steps, profiles, settings).")
REQUIRE = {"prepared": (150, 2000), "fresh": (25, 300), "edited": (40, 500), "arrived": (60, 800), "bad profiles": (60, 800),
           "dropped bounds": (10, 120), "no percent": (10, 120), "repeated": (40, 500), "removed": (10, 120), "unsorted": (5, 60), "large": (3, 30)}
ASSUMPTIONS = ["profile numbers ascend and are unique in the source file"]
BOUNDS = ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt")


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, fresh=20 * k, history=40 * k, late=15 * k, removed=12 * k, long=3 * k)


def source(rng, nums, bad, m):
    n = len(nums)
    sal, temp, pres = (rng.uniform(a, b, (m, n)) for a, b in ((34, 35), (1, 20), (0, 2000)))
    pres.sort(axis=0)
    for a in (sal, temp, pres):                               # gaps never make a profile bad
        a[1:][rng.random((m - 1, n)) < 0.2] = np.nan
    for j in range(n):
        if nums[j] in bad:
            k = bad[nums[j]]
            for q, a in enumerate((sal, temp, pres)):
                if k & (1 << q):
                    a[:, j] = np.nan
    return {"PROFILE_NO": np.array([nums]), "LAT": np.zeros((1, n)), "LONG": np.zeros((1, n)), "DATES": np.full((1, n), 2005.0),
            "PRES": pres, "PTMP": temp - 0.01 * pres / 100, "SAL": sal, "TEMP": temp}


def same_setting(mon, got, want, key, what):
    g, w = np.asarray(got), np.asarray(want)
    mon.check(g.size == w.size, "setting:" + key, f"{what}: {key} is {g}, was {w}")
    if w.size:
        mon.same(np.atleast_2d(g), np.atleast_2d(w), "setting:" + key, f"{what}: {key}")


def run(case, rng, mon):
    from pyowc.configuration import set_calseries
    fam = case["fam"]
    fdir = str(rng.choice(["/", "run1", "a/b"]))
    w = world.World(os.path.join(mon.scratch, "w"), float_dir=fdir)
    w.cfg["FLOAT_CALSERIES_PREFIX"] = str(rng.choice(["calseries_", "cs-"]))
    w.cfg["FLOAT_CALIB_POSTFIX"] = str(rng.choice([".mat", "_x.mat"]))
    name = "4900123"
    m = int(rng.integers(2, 8))
    n = int(rng.integers(1, 25))
    if fam == "long":                                 # a float that has lived for years
        n = int(rng.integers(260, 420))
    mon.count("large", fam == "long")
    nums = np.cumsum(rng.choice([1, 1, 1, 2, 5], n)) + int(rng.integers(-1, 3))
    if rng.random() < 0.3:
        nums = nums.astype(float)
    elif rng.random() < 0.4:
        nums = nums.astype(rng.choice([np.uint8 if nums[-1] < 256 else np.uint16, np.int16, np.int32]) if nums[0] >= 0 else np.int16)
    bad = {q: int(rng.choice([1, 2, 4, 7, 3])) for q in nums if rng.random() < 0.2}
    order = rng.permutation(n) if fam == "late" else np.arange(n)
    if fam == "fresh":
        steps = [np.arange(n)]
    else:
        cuts = np.unique(np.r_[rng.integers(1, n + 1, int(rng.integers(1, 4))), n])
        steps = [np.sort(order[:c]) for c in cuts]
        if fam == "removed" and n > 1:
            steps.append(np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False)))
            steps.append(np.arange(n))
    model = None                     # series by number and the settings
    path = w.series_path(name)
    for i, cols in enumerate(steps):
        have = nums[cols]
        w.write_float(name, source(rng, have, bad, m))
        what = f"{fam}, step {i + 1}, {len(cols)} profiles"
        if fam != "fresh" and rng.random() < 0.6:
            # the operator writes or edits the file
            if model is None:
                k = int(rng.integers(1, len(have) + 1))
                model = dict(series={float(q): 1.0 for q in (have[:k] if fam != "late" else np.sort(rng.choice(have, k, replace=False)))},
                             set=dict(breaks=np.zeros((0, 0)), max_breaks=np.array([[4]]), use_percent_gt=np.array([[0.5]]),
                                      **{b: np.zeros((0, 0)) for b in BOUNDS}))
            nser = int(rng.integers(1, 4))
            keys = sorted(model["series"])
            cut = np.sort(rng.integers(0, len(keys) + 1, nser - 1))
            for q, key in enumerate(keys):
                model["series"][key] = float(np.searchsorted(cut, q, side="right") + 1)
                if rng.random() < 0.1:
                    model["series"][key] = 0.0
            s = model["set"]
            s["max_breaks"] = rng.integers(-1, 5, (1, int(rng.choice([1, nser]))))
            s["breaks"] = np.zeros((0, 0)) if rng.random() < 0.5 else np.where(rng.random((nser, 2)) < 0.3, np.nan, rng.uniform(1, 50, (nser, 2)))
            s["use_percent_gt"] = np.array([[float(rng.choice([0, 0.3, 0.75, 1]))]])
            for b in BOUNDS:
                k = int(rng.choice([0, 1, 1, 2, 3]))
                s[b] = np.round(rng.uniform(0, 10, (1, k)), 3) if k else np.zeros((0, 0))
                if k > 1 and rng.random() < 0.4:
                    s[b] = s[b].T
            shuffle = rng.permutation(len(keys)) if rng.random() < 0.3 else np.arange(len(keys))
            out = dict(calseries=np.array([[model["series"][keys[q]] for q in shuffle]]),
                       calib_profile_no=np.array([[keys[q] for q in shuffle]]), **s)
            if rng.random() < 0.3:
                out["calseries"], out["calib_profile_no"] = out["calseries"].T, out["calib_profile_no"].T
            mon.count("unsorted", np.any(np.diff(shuffle) < 0))
            if rng.random() < 0.3:
                del out["use_percent_gt"]
                s["use_percent_gt"] = np.array([[0.5]])
                mon.count("no percent")
            savemat(path, out)
            mon.count("edited")
        # what the file must become
        free = []
        if model is None:
            ser = {float(q): 1.0 for q in have}
            settings = dict(breaks=np.zeros((0, 0)), max_breaks=np.array([[4]]), use_percent_gt=np.array([[0.5]]),
                            **{b: np.zeros((0, 0)) for b in BOUNDS})
            mon.count("fresh")
        else:
            settings = dict(model["set"])
            for b in BOUNDS:
                if np.size(settings[b]) > 1:
                    settings[b] = np.zeros((0, 0))
                    mon.count("dropped bounds")
            old = {q: s for q, s in model["series"].items() if q in set(map(float, have))}
            mon.count("removed", len(model["series"]) - len(old))
            ser = {}
            for j, q in enumerate(map(float, have)):
                if q in old:
                    ser[q] = old[q]
                elif j and ser[float(have[j - 1])] is not None:
                    ser[q] = ser[float(have[j - 1])]
                    mon.count("arrived")
                else:                                      # nothing precedes it
                    ser[q] = None
                    free.append(q)
            choice = set(old.values()) | {1.0}
        for q in ser:
            if q in bad:
                ser[q] = 0.0
                mon.count("bad profiles")
            elif model is not None and q not in model["series"] and q not in free:
                pass
        mon.call(set_calseries, fdir, name, w.cfg)
        mon.check(os.path.exists(path), "file", f"{what}: no settings file at {path}")
        got = loadmat(path)
        cal, num = np.asarray(got["calseries"], float).ravel(), np.asarray(got["calib_profile_no"], float).ravel()
        mon.same(num, have.astype(float), "profiles", f"{what}: profiles listed")
        mon.check(cal.shape == num.shape, "series-count", f"{what}: {len(cal)} series numbers for {len(num)} profiles")
        for j, q in enumerate(num):
            if ser[q] is None:
                mon.check(cal[j] in choice, "series", f"{what}: profile {q}, before all others, has series {cal[j]}")
            else:
                mon.check(cal[j] == ser[q], "series", f"{what}: profile {q} has series {cal[j]} instead of {ser[q]}: {cal}")
        for k, v in settings.items():
            same_setting(mon, got[k], v, k, what)
        mon.check(not [k for k in got if not k.startswith("__") and k not in settings and k not in ("calseries", "calib_profile_no")],
                  "extra", f"{what}: {sorted(got)}")
        mon.count("prepared")
        if rng.random() < 0.4:
            mon.call(set_calseries, fdir, name, w.cfg)
            d = world.mat_equal(got, loadmat(path))
            mon.check(d is None, "repeat", f"{what}: preparing again changes {d}")
            mon.count("repeated")
        model = dict(series=dict(zip(map(float, num), cal)), set={k: got[k] for k in settings})
        mon.seen(fam, i, len(cols), {k: np.shape(v) for k, v in settings.items()}, len(bad))
    mon.sample = dict(steps=[len(c) for c in steps], bad=sorted(map(float, bad)), series=cal, settings=settings)
