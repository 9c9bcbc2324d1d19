"""C01 bathymetry windows"""
import hashlib
import os

import numpy as np

from .. import refs, world
from ..gen import cases

ID = "C01"
RULE = ("A case is a process history of several window reads over a global grid of random 16-bit values (so that any "
        "misplaced node is visible); a window is non-trivial and distinct by (size, seam kind, pole kind, rounded corner).")
ASSUMPTIONS = ["elevation file of 2160 x 4320 native 16-bit integers from 90N to 90S-5', 0E to 360E-5'"]
REQUIRE = {"nodes": (200_000, 2_000_000), "seam": (20, 200), "pole": (10, 100), "repeat": (10, 100), "beyond": (30, 300)}
_S = {}


def setup(scratch):
    topo = world.make_topo("random", 17)
    d = os.path.join(scratch, "constants")
    os.makedirs(d)
    world.write_topo(os.path.join(d, "tbase.int"), topo)
    with open(os.path.join(d, "tbase.int"), "rb") as f:
        _S["hash"] = hashlib.sha1(f.read()).hexdigest()
    _S.update(topo=topo, cfg=world.config(scratch, CONFIG_DIRECTORY=d), path=os.path.join(d, "tbase.int"))


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, interior=30 * k, seam=40 * k, pole=24 * k, edge=30 * k, beyond=16 * k)


def window(fam, rng):
    w = 10 ** rng.uniform(-1.5, 1.2)
    h = 10 ** rng.uniform(-1.5, 1.0)
    lat = rng.uniform(-85, 85 - h)
    lon = rng.uniform(0, 359 - w)
    if rng.random() < 0.4:
        lon -= 180                                    # the callers' frame
    if fam == "seam":
        c = rng.choice([0, 0, 360])
        lon = c - w * rng.uniform(0.05, 0.95)
        if rng.random() < 0.2:
            lon = c - rng.choice([0, 1 / 12, 1 / 24, w])
    elif fam == "beyond":                             # positions kept contiguous across Greenwich lie beyond 360
        w = min(w, 3)
        lon = 360 + rng.choice([rng.uniform(0, 0.99), rng.uniform(0, 40), rng.uniform(0, 359 - w), 0, 1 / 12])
        w = min(w, rng.uniform(0.02, 1)) if rng.random() < 0.5 else w
    elif fam == "pole":
        if rng.random() < 0.5:
            lat = 90 - h * rng.uniform(0.1, 0.95) if rng.random() < 0.6 else 90 - h
        else:
            lat = -90 - h * rng.uniform(0, 0.5) if rng.random() < 0.6 else -90.0
        if rng.random() < 0.4:
            lon = -w * rng.uniform(0.1, 0.9)
    elif fam == "edge":                               # edges on nodes, in whole degrees or twelfths
        q = rng.choice([1, 12])
        lon, w = np.floor(lon * q) / q, max(1, np.floor(w * q)) / q
        lat, h = np.floor(lat * q) / q, max(1, np.floor(h * q)) / q
    return float(lon), float(lon + w), float(lat), float(lat + h)


def run(case, rng, mon):
    from pyowc.data.fetchers import get_topo_grid
    cfg = _S["cfg"]
    fds = len(os.listdir("/proc/self/fd"))
    seen = []
    for _ in range(4):
        x0, x1, y0, y1 = window(case["fam"], rng)
        topo, lon, lat = mon.call(get_topo_grid, x0, x1, y0, y1, cfg, pure=True)
        judge(mon, (x0, x1, y0, y1), topo, lon, lat, case["fam"])
        seen.append(((x0, x1, y0, y1), np.array(topo)))
        np.asarray(topo)[...] = -1                    # what a caller does with the result must not come back
    win, first = seen[int(rng.integers(len(seen)))]
    again = mon.call(get_topo_grid, *win, cfg)[0]
    mon.same(again, first, "history", f"window {win} read again after others")
    mon.count("repeat")
    mon.check(len(os.listdir("/proc/self/fd")) <= fds, "leak", "file handles left open")
    if case["k"] % 8 == 0:
        with open(_S["path"], "rb") as f:
            mon.check(hashlib.sha1(f.read()).hexdigest() == _S["hash"], "file", "the elevation file was modified")
    mon.sample = dict(windows=[w for w, _ in seen], shapes=[t.shape for _, t in seen])


def judge(mon, win, topo, lon, lat, fam):
    x0, x1, y0, y1 = win
    topo, lon, lat = np.asarray(topo, float), np.asarray(lon, float), np.asarray(lat, float)
    mon.check(topo.shape == lon.shape == lat.shape and topo.ndim == 2, "shape",
              f"shapes {topo.shape} {lon.shape} {lat.shape} for window {win}")
    i, j = np.round(lon * 12).astype(int), np.round(lat * 12).astype(int)
    mon.check(np.allclose(lon * 12, i, atol=1e-6) and np.allclose(lat * 12, j, atol=1e-6), "nodes",
              f"coordinates are not 5' nodes for window {win}")
    mon.check(np.all(np.diff(i, axis=1) == 1) and np.all(np.diff(i, axis=0) == 0), "order",
              f"longitudes do not increase along rows for {win}")
    mon.check(np.all(np.diff(j, axis=0) == -1) and np.all(np.diff(j, axis=1) == 0), "order",
              f"latitudes do not decrease down columns for {win}")
    tol = 1e-6
    mon.check(i[0, 0] <= x0 * 12 + tol and i[0, -1] >= x1 * 12 - tol and i[0, 0] > x0 * 12 - 2 and i[0, -1] < x1 * 12 + 2,
              "cover", f"longitudes {lon[0, 0]}..{lon[0, -1]} for window {win}")
    ya, yb = max(y0 * 12, -1079), min(y1 * 12, 1080)
    mon.check(j[-1, 0] <= ya + tol and j[0, 0] >= yb - tol and j[-1, 0] > ya - 2 and j[0, 0] < yb + 2,
              "cover", f"latitudes {lat[-1, 0]}..{lat[0, 0]} for window {win}")
    mon.same(topo, refs.node_elev(_S["topo"], i, j), "elevation", f"elevations in window {win}")
    mon.count("nodes", topo.size)
    if (i[0, 0] < 0 <= i[0, -1]) or (i[0, 0] < 4320 <= i[0, -1]):
        mon.count("seam")
    mon.count("beyond", i[0, 0] >= 4320)
    if j[0, 0] == 1080 or j[-1, 0] == -1079:
        mon.count("pole")
    mon.seen(topo.shape, fam, int(x0), int(y0), i[0, 0] < 0, j[0, 0])
