"""C04 a float's own profiles are never used"""
import numpy as np

from ..gen import cases
from . import climref

ID = "C04"
RULE = ("A case is a history of 12-25 fetches by 3-5 floats over shared files in which their profiles are mixed, in random "
        "order and with repetitions; distinct by (family, floats, profiles excluded, order).")
REQUIRE = {"fetches": (300, 4000), "excluded": (1000, 15000), "kept-others": (1000, 15000), "repeats": (60, 800), "shallow": (40, 600)}
ASSUMPTIONS = ["float names are distinct 7-digit numbers; source labels contain the number of the float"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 14
    return cases(rng, mixed=20 * k, near=10 * k, dominated=10 * k)


def run(case, rng, mon):
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    fam = case["fam"]
    nf = int(rng.integers(3, 6))
    if fam == "near":                                   # numbers that differ in one digit or are shuffled digits
        names = ["4901234", "4901235", "4902134", "1490123", "9012344"][:nf]
    else:
        names = [str(int(x)) for x in rng.choice(9 * 10 ** 6, nf, replace=False) + 10 ** 6]
    labels = names + ([] if fam == "dominated" else [str(int(rng.integers(10 ** 6, 10 ** 7))) for _ in range(2)])
    if fam == "dominated":
        labels = [names[0]] * 6 + names[1:2]
    nbox = int(rng.integers(1, 5))
    clim = climref.Clim(mon.scratch, rng, nbox, names=labels, sizes=(1, 15), missing=0.1, blank=0.0, nan_frac=0.1)
    clim.boxes[:, 3] = 1                                # Argo data are listed everywhere
    for k in range(nbox):
        casts = None
        path = clim.cfg['HISTORICAL_DIRECTORY'] + "/" + clim.cfg['HISTORICAL_ARGO_PREFIX'] + f"{int(clim.boxes[k, 0])}.mat"
        if (k, 2) not in clim.files:
            casts = [clim.cast(rng, 100.0, 10.0, 2, labels, 0.0, False) for _ in range(int(rng.integers(2, 12)))]
            climref.world.write_casts(path, casts, "argo")
            clim.files[k, 2] = casts
    history = []
    for step in range(int(rng.integers(12, 26))):
        name = names[int(rng.integers(nf))]
        sub = np.sort(rng.choice(nbox, int(rng.integers(1, nbox + 1)), replace=False))
        boxes = clim.boxes[sub]
        part = climref.Clim.__new__(climref.Clim)
        part.boxes, part.files = boxes, {(i, t): clim.files[k, t] for i, k in enumerate(sub) for t in range(3) if (k, t) in clim.files}
        lst = part.listing(name)
        if not lst:
            continue
        history.append((name, tuple(sub)))
        what = f"step {step} ({name}, boxes {list(sub)})"
        if rng.random() < 0.6:
            got = mon.call(get_region_hist_locations, boxes, name, clim.cfg)
            climref.check_locations(mon, got, lst, what)
        else:
            index = rng.choice(len(lst), int(rng.integers(1, len(lst) + 1)), replace=False)
            # shallow profiles and deep ones share what has been read
            pres = np.array([5.0, 2600.0 if rng.random() < 0.5 else float(rng.uniform(20, 2000))])
            limit = pres[1] + clim.cfg["MAP_P_DELTA"]
            if not any(np.any(~np.isnan(climref.kept_levels(lst[i][0], limit)[0])) for i in index):
                continue
            got = mon.call(get_region_data, boxes, name, clim.cfg, index, pres)
            climref.check_data(mon, got, lst, index, limit, what)
            mon.count("shallow", pres[1] < 2000)
        mon.count("fetches")
        argo = [c for (i, t), cs in part.files.items() if t == 2 for c in cs]
        own = sum(name in c["source"] for c in argo)
        mon.count("excluded", own)
        mon.count("kept-others", len(argo) - own)
        mon.count("repeats", history.count(history[-1]) > 1)
    mon.seen(fam, nf, nbox, tuple(h[0] for h in history[:6]))
    mon.sample = dict(floats=names, history=history[:6])
