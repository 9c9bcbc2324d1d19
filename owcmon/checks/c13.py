"""C13 incremental mapping"""
import os
import shutil

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c26

ID = "C13"
RULE = ("A case is a history of 2-6 mapping runs of one float: profiles arriving in order or late, levels growing, settings or the "
        "source of old profiles changing, runs without news, a file of the older software in between; the file after every run is "
        "compared with the one before and with a mapping from scratch. Distinct by (family, steps, arrivals).")
REQUIRE = {"small-integers": (0, 10), "steps": (60, 700), "old-profiles-kept": (120, 1500), "scratch-compared": (20, 250), "no-news": (20, 250), "levels-grown": (3, 30),
           "old-format": (4, 40), "settings-changed": (4, 40), "source-changed": (4, 40), "late": (4, 40), "single-first": (4, 40),
           "real": 1, "long": 1, "one-position": (0, 6), "blank-kept": (3, 40)}
ASSUMPTIONS = ["profile numbers ascend in the source file", "the number of source levels does not shrink (in C30 it does)"]
PER = c12.SCALES
MAT = ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp")


def setup(scratch):
    c12.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 11
    return cases(rng, arrive=(8 * k, 3), single=(5 * k, 3), late=(5 * k, 3), grow=(7 * k, 3), settings=(5 * k, 3), source=(5 * k, 3),
                 oldformat=(5 * k, 3), holes=(6 * k, 3), station=(4 * k, 3), real=(1, 3), long=(1 if tier == "quick" else 4, 30))


def columns(out):
    """profile number -> its values and settings"""
    nums = np.asarray(out["la_profile_no"], float).ravel()
    res = {}
    for j, num in enumerate(nums):
        res[num] = ({k: np.asarray(out[k], float)[:, j] for k in MAT}, {k: float(np.asarray(out[k], float).ravel()[j]) for k in PER})
    return nums, res


def results(out, skip=()):
    """the documented variables (the file also holds a bookkeeping counter)"""
    return {k: out[k] for k in MAT + PER + ("la_profile_no", "selected_hist") if k not in skip}


def hist_of(out):
    h = np.asarray(out["selected_hist"], float)
    return h.reshape(-1, 3) if h.size else np.zeros((0, 3))


def kept(mon, before, after, what, saf0=False):
    """every column of before is in after, unaltered (apart from added levels)"""
    n0, old = before
    n1, new = after
    for num in n0:
        mon.check(num in new, "lost", f"{what}: profile {num} has gone")
        for k in MAT:
            a, b = old[num][0][k], new[num][0][k]
            mon.check(len(b) >= len(a), "levels", f"{what}: profile {num} has {len(b)} levels, had {len(a)}")
            mon.same(b[:len(a)], a, "altered", f"{what}: {k} of profile {num}, mapped before")
            mon.check(np.all(np.isnan(b[len(a):])), "added-levels", f"{what}: {k} of profile {num} has values at new levels")
        for k in PER:
            a = old[num][1][k]
            if saf0 and k == "use_saf":
                a = 0.0
            mon.same(new[num][1][k], a, "settings-altered", f"{what}: {k} of profile {num}, mapped before")
        mon.count("old-profiles-kept")
        mon.count("blank-kept", np.all(np.isnan(old[num][0]["la_mapped_sal"])))


def run(case, rng, mon):
    fam = case["fam"]
    if fam == "real":
        return real(case, rng, mon)
    kind = {"holes": "holes", "station": "station"}.get(fam, str(rng.choice(["plain", "pv", "capped", "seam", "sparse"])))
    if fam == "long":                                    # a float that has lived for years
        kind = "sparse"
    w, name, fl = c12.build(os.path.join(mon.scratch, "a"), kind, rng, c12._S["topo"], c12._S["path"], n=int(rng.integers(257, 264)) if fam == "long" else None)
    if fam == "long":
        rows = np.unique(np.linspace(0, fl["PRES"].shape[0] - 1, 5).astype(int))
        for v in ("PRES", "PTMP", "SAL", "TEMP"):
            fl[v] = fl[v][rows]
        for v in ("LAT", "LONG"):                        # around one place
            fl[v] = fl[v][:, :1] + (fl[v] - fl[v][:, :1]) % 0.7
        mon.count("long")
    w.write_climatology()
    m, n = fl["PRES"].shape
    if fam == "oldformat" and case["k"] % 2:             # numbers of one byte first, larger ones later
        nums = np.asarray(fl["PROFILE_NO"])
        fl["PROFILE_NO"] = nums + 255 - int(nums.ravel()[int(rng.integers(0, n - 1))])
    nums = np.asarray(fl["PROFILE_NO"]).ravel()
    if fam == "grow":                                    # the first profiles are shorter
        k = int(rng.integers(1, n))
        for v in ("PRES", "PTMP", "SAL", "TEMP"):
            fl[v][m - 4:, :k] = np.nan
    # what has arrived after each step
    if fam == "late":
        order = rng.permutation(n)
    else:
        order = np.arange(n)
    long = np.r_[rng.integers(100, 250, 1), n - 2, n]
    cuts = long if fam == "long" else np.unique(np.r_[1 if fam == "single" else rng.integers(1, n), rng.integers(1, n + 1, 2), n])
    if fam == "station":                                 # the station alone, then the others
        cuts = np.unique(np.r_[rng.integers(1, n // 2 + 1), cuts])
    steps = [np.sort(order[:c]) for c in cuts]
    prev = None
    prev_raw = None
    changed = False
    for i, cols in enumerate(steps):
        lev = m
        if fam == "grow":
            u = np.flatnonzero(~np.isnan(fl["PRES"][:, cols]).all(axis=1))
            lev = max(int(u[-1]) + 1 if len(u) else 2, 2, 0 if prev is None else len(prev[1][prev[0][0]][0]["la_ptmp"]))
            # the same of all later profiles
            mon.count("levels-grown", prev is not None and lev > len(prev[1][prev[0][0]][0]["la_ptmp"]))
        src = world.subset_float(fl, cols, lev)
        saf0 = False
        if i and fam == "settings":
            w.cfg["MAPSCALE_LONGITUDE_SMALL"] *= 1.25
            w.cfg["MAP_P_DELTA"] += 40
            changed = True
            mon.count("settings-changed")
        if i and fam == "source":
            for k in ("SAL", "PTMP"):
                src[k][:, :len(steps[i - 1])] += 0.01
            changed = True
            mon.count("source-changed")
        if i and fam == "oldformat":
            d = {k: v for k, v in w.read(w.mapped_path(name)).items() if not k.startswith("__") and k != "use_saf"}
            if rng.random() < 0.7:                       # as Matlab writes them
                small = {k: d[k] for k in ("la_profile_no", "use_pv", "p_delta", "p_exclude", "scale_age_large")}
                d.update(c26.small(small))
                mon.count("small-integers", np.asarray(d["la_profile_no"]).dtype == np.uint8 and np.max(nums[cols]) > 255)
            savemat(w.mapped_path(name), d)
            saf0 = changed = True
            mon.count("old-format")
        w.write_float(name, src)
        out = c12.do_map(mon, w, name)
        what = f"{fam}, step {i + 1} with {len(cols)} profiles" + (f" after {len(steps[i - 1])}" if i else "")
        now = columns(out)
        mon.same(now[0], np.sort(nums[cols]), "profiles", what + ": profiles in the mapped file")
        for k in MAT + PER:
            a = np.asarray(out[k])
            mon.check(a.shape[-1] == len(cols) or (len(cols) == 1 and a.size in (1, lev)), "shape", f"{what}: {k} has shape {a.shape}")
        if prev is not None:
            kept(mon, prev, now, what, saf0)
            h0, h1 = hist_of(prev_raw), hist_of(out)
            mon.count("one-position", len(h0) == 1 and len(h1) > 1)
            ok = all(np.any(np.all(np.abs(h1 - r) < 1e-9, axis=1)) for r in h0)
            mon.check(ok, "hist-lost", what + ": reference positions saved before are lost")
            fresh = set(nums[cols]) - set(prev[0])
            # new profiles carry the settings of this run
            for num in fresh:
                s = now[1][num][1]
                blank = np.all(np.isnan(now[1][num][0]["la_ptmp"]))
                if not blank:
                    mon.same([s["scale_long_small"], s["p_delta"], s["use_saf"]],
                             [w.cfg["MAPSCALE_LONGITUDE_SMALL"], w.cfg["MAP_P_DELTA"], w.cfg["MAP_USE_SAF"]], "new-settings",
                             f"{what}: settings of the new profile {num}")
        mon.count("steps")
        mon.count("late", fam == "late" and prev is not None)
        mon.count("single-first", i == 0 and len(cols) == 1 and n > 1)
        # without news
        if rng.random() < 0.6:
            again = c12.do_map(mon, w, name)
            d = world.mat_equal(results(out), results(again))
            mon.check(d is None, "no-news", f"{what}: mapping again without news changes {d}")
            mon.count("no-news")
        prev, prev_raw = now, out
    if not changed:
        # from scratch
        os.makedirs(os.path.join(mon.scratch, "keep"))
        shutil.move(w.mapped_path(name), os.path.join(mon.scratch, "keep"))
        two = c12.do_map(mon, w, name)
        skip = ("selected_hist",) if fam == "late" else ()
        d = world.mat_equal(results(prev_raw, skip), results(two, skip))
        mon.check(d is None, "scratch", f"{fam}: {len(steps)} steps give another {d} than one")
        mon.count("scratch-compared")
        if fam == "late":
            a, b = hist_of(prev_raw), hist_of(two)
            for x, y, tag in ((a, b, "steps"), (b, a, "scratch")):
                for r in x:
                    dd = (np.abs((y[:, 0] - r[0] + 180) % 360 - 180) < 1 / 60 + 1e-9) & (np.abs(y[:, 1] - r[1]) < 1 / 60 + 1e-9)
                    mon.check(dd.any(), "hist-late", f"late: a reference position of {tag} is missing in the other")
            mon.check(np.all(np.diff(a[:, 2]) >= 0), "hist-order", "late: reference positions are not in profile order")
    mon.seen(fam, kind, n, [len(c) for c in steps])
    mon.sample = dict(kind=kind, profiles=n, steps=[len(c) for c in steps])


def real(case, rng, mon):
    """the float that comes with the repository, mapped by the Matlab software"""
    sub = "float_mapped"
    w = world.World(os.path.join(mon.scratch, "r"), topo_path=c12._S["path"], topo=c12._S["topo"])
    shutil.copy(os.path.join(core.REPO, "data", "float_source", "3901960.mat"), w.source_path("3901960"))
    shutil.copy(os.path.join(core.REPO, "data", sub, "map_3901960.mat"), w.mapped_path("3901960"))
    before = loadmat(w.mapped_path("3901960"))
    if "la_mapsalerrors" not in before:
        before["la_mapsalerrors"] = before.pop("la_map_sal_errors")
    src = loadmat(w.source_path("3901960"))
    have = set(np.asarray(before["la_profile_no"]).ravel())
    if not set(src["PROFILE_NO"].ravel()) <= have:
        cols = [j for j, x in enumerate(src["PROFILE_NO"].ravel()) if x in have]
        w.write_float("3901960", world.subset_float(src, cols))
    out = c12.do_map(mon, w, "3901960")
    saf0 = "use_saf" not in before
    if saf0:
        before["use_saf"] = np.zeros(np.shape(before["use_pv"]))
    kept(mon, columns(before), columns(out), "the mapped file of float 3901960", saf0)
    mon.same(hist_of(out), hist_of(before)[np.argsort(hist_of(before)[:, 2], kind="stable")], "real-hist", "its reference positions")
    mon.count("real")
    mon.count("steps")
    mon.seen("real", sub)
