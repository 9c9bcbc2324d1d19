"""C02 the 25 boxes around a position"""
import numpy as np

from .. import refs, world
from ..gen import cases

ID = "C02"
RULE = ("A case is a box table with random flags and a sweep of positions (regular lattice offset at random, random, near "
        "seams, box edges and poles, unknown); distinct by the list of returned boxes.")
REQUIRE = {"positions": (4000, 60000), "polar": (400, 4000), "seam": (400, 4000), "unknown": (10, 50)}
ASSUMPTIONS = ["longitudes in [0, 360]; positions within 0.02 degrees of a box edge may resolve to either side"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, lattice=4 * k, random=4 * k, seam=3 * k, pole=4 * k, edge=3 * k)


def positions(fam, rng):
    n = 260
    if fam == "lattice":
        a, b = rng.uniform(0, 10, 2)
        return [(x, y) for x in np.arange(a, 360, 14.7) for y in np.arange(-90 + b, 90, 13.1)]
    lon, lat = rng.uniform(0, 360, n), rng.uniform(-90, 90, n)
    if fam == "seam":
        lon = np.where(rng.random(n) < 0.5, rng.uniform(0, 21, n), rng.uniform(339, 360, n))
        lon[:3] = 0, 360, 359.995
    if fam == "pole":
        lat = rng.choice([-1, 1], n) * rng.uniform(60, 90, n)
        lat[:4] = 90, -90, 89.999, -89.999
    if fam == "edge":
        lon = np.round(lon / 10) * 10 + rng.choice([0, 0.005, -0.005, 0.03, -0.03], n)
        lat = np.round(lat / 10) * 10 + rng.choice([0, 0.005, -0.005, 0.03, -0.03], n)
        lon, lat = np.clip(lon, 0, 360), np.clip(lat, -90, 90)
    return list(zip(lon.tolist(), lat.tolist()))


def run(case, rng, mon):
    from pyowc.core.finders import find_25boxes
    table = world.box_table(rng, (0.7, 0.6, 0.8))
    table[:, 0] = rng.permutation(9000)[:648] + 1000          # box numbers carry no geometry
    boxes = {"la_wmo_boxes": table.copy()}
    row_of = {int(b): i for i, b in enumerate(table[:, 0])}
    for lon, lat in positions(case["fam"], rng):
        if rng.random() < 0.3:
            lon, lat = np.float64(lon), np.float64(lat)
        out = np.asarray(mon.call(find_25boxes, lon, lat, boxes), float)
        mon.check(out.shape == (25, 4), "shape", f"{out.shape} for ({lon}, {lat})")
        cand = refs.box_candidates(lon, lat)
        rows = []
        for k in range(25):
            blank = bool(np.all(np.isnan(out[k])))
            if blank:
                mon.check(None in cand[k], "missing-box", f"row {k} is blank for ({lon}, {lat})")
                rows.append(None)
                continue
            r = row_of.get(int(out[k, 0]) if np.isfinite(out[k, 0]) else -1)
            mon.check(r is not None and r in cand[k], "wrong-box",
                      f"row {k} for ({lon}, {lat}) is table row {r}, expected one of {sorted(cand[k], key=str)}")
            mon.same(out[k], table[r], "flags", f"row {k} for ({lon}, {lat})")
            rows.append(r)
        real = [r for r in rows if r is not None]
        mon.check(len(real) == len(set(real)) or lat > 89.98, "twice", f"a box is listed twice for ({lon}, {lat})")
        mon.count("positions")
        mon.count("polar", len(real) < 25)
        mon.count("seam", lon < 20 or lon > 340)
        mon.seen(tuple(rows))
        mon.sample = dict(lon=lon, lat=lat, rows=rows)
    for lon, lat in ((np.nan, 10.0), (20.0, np.nan), (np.nan, np.nan)):
        out = np.asarray(mon.call(find_25boxes, lon, lat, boxes), float)
        mon.check(out.shape == (25, 4) and np.all(np.isnan(out)), "unknown", f"boxes for an unknown position ({lon}, {lat})")
        mon.count("unknown")
    mon.same(boxes["la_wmo_boxes"], table, "table", "the box table was modified")
