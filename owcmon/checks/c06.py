"""C06 longitude wrapping"""
import numpy as np

from ..gen import cases

ID = "C06"
RULE = ("A case is one array of longitudes (region across the meridian, global, one side only, thresholds, missing values); "
        "distinct by (family, size, whether anything was moved, sides present).")
REQUIRE = {"values": (15000, 150000), "moved": (2000, 20000), "unmoved-arrays": (30, 300), "contiguous": (60, 600), "on Greenwich": (2, 30)}


def plan(tier, rng):
    k = 1 if tier == "quick" else 15
    return cases(rng, region=80 * k, world=30 * k, east=40 * k, threshold=30 * k, missing=20 * k)


def run(case, rng, mon):
    from pyowc.utilities import wrap_longitude
    fam = case["fam"]
    n = int(rng.choice([1, 2, 3, 10, 100, 500]))
    frame = str(rng.choice(["0-360", "+-180"]))
    width = None
    if fam in ("region", "missing"):
        width = rng.uniform(1, 39.9)
        c = rng.uniform(-60, 60) if rng.random() < 0.6 else rng.uniform(0, 360)
        lon = (c + rng.uniform(-width / 2, width / 2, n)) % 360
    elif fam == "east":
        lon = rng.uniform(0, 319.9, n)
    else:
        lon = rng.uniform(0, 360, n)
    if frame == "+-180":
        lon = np.where(lon > 180, lon - 360, lon)
    if fam == "threshold":
        pick = np.array([0, 40, 40.0000001, 39.9999999, 320, 319.9999999, 320.0000001, 360, -0.0000001, -40, -180, 180])
        m = rng.random(n) < 0.7
        lon[m] = rng.choice(pick, int(m.sum()))
    if fam == "east" and frame == "0-360":
        lon[rng.random(n) < rng.choice([0.05, 0.5])] = rng.choice([0.0, -0.0, 40.0, 1e-12])
        mon.count("on Greenwich", np.any(lon == 0))
    if fam == "missing" and n > 1:
        lon[rng.random(n) < 0.3] = np.nan
    src = lon.copy()
    base = np.where(src < 0, src + 360, src)
    with np.errstate(invalid="ignore"):
        top = bool(np.any(base >= 320))
        want = np.where((base <= 40) & top, base + 360, base)
    got = np.asarray(mon.call(wrap_longitude, lon), float)
    mon.check(got.shape == src.shape, "shape", f"{got.shape} instead of {src.shape}")
    mon.same(got, want, "value", f"wrapped longitudes of {src[:6]}")
    with np.errstate(invalid="ignore"):
        turns = (got - src) / 360
        mon.check(np.all(np.isnan(turns) | (np.abs(turns - np.round(turns)) < 1e-9)), "turns", "moved by a part of a turn")
        if width is not None and np.sum(~np.isnan(src)) > 1:
            mon.check(np.nanmax(got) - np.nanmin(got) <= width + 1e-6, "jump",
                      f"a region {width:.1f} degrees wide spans {np.nanmax(got) - np.nanmin(got):.1f}")
            mon.count("contiguous")
    moved = int(np.nansum(got != src) - np.sum(np.isnan(src)))
    mon.count("values", n)
    mon.count("moved", max(0, moved))
    mon.count("unmoved-arrays", moved <= 0)
    mon.seen(fam, n, frame, moved > 0, top)
    mon.sample = dict(input=src[:5], output=got[:5])
