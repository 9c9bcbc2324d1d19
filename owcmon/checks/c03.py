"""C03 retrieval of the historical casts"""
import os

import numpy as np

from ..gen import cases
from . import climref

ID = "C03"
RULE = ("A case is a set of climatology files (1-9 boxes x 3 types with random flags, absent files, blank rows, single-cast "
        "files, gaps, files of single-level casts, files without casts, casts without usable levels), a listing call and several subset calls, and again after new editions of files or from the directory of another set of files under the same names; distinct by (family, boxes, listing "
        "size, subset size, casts dropped).")
REQUIRE = {"casts-compared": (2000, 30000), "casts-dropped": (60, 900), "missing-files": (30, 400), "wrapped": (10, 120), "shallow-files": (20, 280),
           "empty-files": (20, 280), "at-limit": (20, 280), "new editions": (60, 800), "directories": (20, 300), "casts-in-large-files": (65537, 260000)}
ASSUMPTIONS = ["longitudes 0 to 360", "at least one usable cast selected"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, plain=20 * k, gaps=25 * k, hostile=35 * k, meridian=25 * k, single=15 * k, shallow=20 * k) + cases(rng, large=1 if tier == "quick" else 4)


def again(mon, rng, clim, name, what, cfg=None):
    """list and take everything once more"""
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    lst = clim.listing(name)
    if not lst:
        return
    cfg = cfg or clim.cfg
    got = mon.call(get_region_hist_locations, clim.boxes.copy(), name, cfg, pure=True)
    climref.check_locations(mon, got, lst, "listing " + what)
    index = rng.permutation(len(lst))
    if any(np.any(~np.isnan(climref.kept_levels(c, 3000 + cfg['MAP_P_DELTA'])[0])) for c, _ in lst):
        got = mon.call(get_region_data, clim.boxes.copy(), name, cfg, index, np.array([10.0, 3000.0]), pure=True)
        climref.check_data(mon, got, lst, index, 3000 + cfg['MAP_P_DELTA'], "all " + what)


def run(case, rng, mon):
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    fam = case["fam"]
    nbox = int(rng.integers(1, 10)) if fam != "large" else 4
    clim = climref.Clim(mon.scratch, rng, nbox, sizes=(1, 1) if fam == "single" else (1, 14), straddle=fam == "meridian",
                        nan_frac=0.0 if fam == "plain" else 0.2, hostile=fam == "hostile",
                        missing=0.25 if fam != "plain" else 0.0, blank=0.15,
                        shallow=0.5 if fam == "shallow" else 0.0, empty=0.3 if fam == "shallow" else 0.05)
    name = "3900001"
    if fam == "large":                                      # as many casts as around a float in the North Atlantic
        clim.enlarge(rng, 23500)
    lst = clim.listing(name)
    mon.count("casts-in-large-files", len(lst) * (fam == "large"))
    if not lst:
        return
    mon.count("missing-files", 3 * nbox - len(clim.files))
    mon.count("empty-files", sum(not c for c in clim.files.values()))
    mon.count("shallow-files", sum(bool(c) and max(len(x["pres"]) for x in c) == 1 for c in clim.files.values()))
    boxes = clim.boxes.copy()
    got = mon.call(get_region_hist_locations, boxes, name, clim.cfg, pure=True)
    climref.check_locations(mon, got, lst, "listing")
    mon.count("wrapped", float(np.max(climref.expected_locations(lst)[1])) > 360)
    dropped = 0
    for rep in range(3):
        m = len(lst)
        k = int(rng.integers(1, m + 1)) if rep else m
        index = rng.choice(m, k, replace=False)
        if fam == "large":
            index = rng.permutation(np.append(rng.choice(m, 350, replace=False), [0, m - 1, m - 2, 32767, 32768, 32769]))
            index = index[np.sort(np.unique(index, return_index=True)[1])]
        deepest = float(rng.choice([400, 900, 2000, 3000]))
        pres = np.sort(rng.uniform(5, deepest, int(rng.integers(2, 30))))
        pres[rng.integers(0, len(pres) - 1)] = np.nan
        clim.cfg['MAP_P_DELTA'] = float(rng.choice([0, 50, 250]))
        if rng.random() < 0.3:                              # the deepest level taken may lie exactly at the limit
            q = np.concatenate([lst[i][0]["pres"] for i in index]) - clim.cfg['MAP_P_DELTA']
            q = q[(q > 10) & (q + clim.cfg['MAP_P_DELTA'] - clim.cfg['MAP_P_DELTA'] == q)]
            if len(q):
                q = float(rng.choice(q))
                pres = np.append(pres[~(pres >= q)], q)
        limit = np.nanmax(pres) + clim.cfg['MAP_P_DELTA']
        mon.count("at-limit", any(np.any(lst[i][0]["pres"] == limit) for i in index))
        usable = [i for i in index if np.any(~np.isnan(climref.kept_levels(lst[i][0], limit)[0]))]
        if not usable:
            continue
        got = mon.call(get_region_data, boxes, name, clim.cfg, index, pres, pure=True)
        n = climref.check_data(mon, got, lst, index, limit, f"subset of {k}")
        dropped += k - n
        mon.seen(fam, nbox, m, k, k - n)
    got = mon.call(get_region_hist_locations, boxes, name, clim.cfg)
    climref.check_locations(mon, got, lst, "listing after the subsets")
    if fam == "large":
        pass
    elif rng.random() < 0.4:
        mon.count("new editions", clim.deliver(rng))
        again(mon, rng, clim, name, "after new editions of files")
    elif rng.random() < 0.25:
        # two sets of files, each found by the same name from its own directory
        here = os.getcwd()
        two = climref.Clim(os.path.join(mon.scratch, "elsewhere"), rng, nbox, nan_frac=0.1, nums=boxes[:, 0])
        try:
            for c, root in ((clim, mon.scratch), (two, os.path.join(mon.scratch, "elsewhere"))) * 2:
                os.chdir(root)
                cfg = dict(c.cfg, HISTORICAL_DIRECTORY=os.path.relpath(c.cfg['HISTORICAL_DIRECTORY'], root))
                again(mon, rng, c, name, "from another directory", cfg)
                mon.count("directories")
        finally:
            os.chdir(here)
    mon.sample = dict(boxes=nbox, files=len(clim.files), casts=len(lst), dropped=dropped)
