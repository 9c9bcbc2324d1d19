"""C26 equivalent descriptions of the same data"""
import collections
import copy
import os

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c22

ID = "C26"
RULE = ("A case is a synthetic world taken through mapping, preparation and calibration, and the same world described otherwise: the float's file, "
        "the configuration, the boxes or the climatology files are written in another way that says the same, or casts are added that may not "
        "matter. Distinct by (family, variants, models, profiles).")
REQUIRE = {"variants": (70, 900), "values": (60000, 800000), "blank levels": (4, 80), "types": (4, 80), "settings": (4, 80), "boxes renamed": (4, 80),
           "blank cast levels": (4, 80), "cast files": (4, 80), "far casts": (4, 80), "own casts": (4, 80), "outside casts": (4, 80), "order": (2, 40),
           "data type": (2, 40), "fewer profiles": (3, 70), "calibrations": (45, 600), "capped": (4, 50), "breaks": (4, 50), "small integers": (3, 40), "fits": (30, 400)}
ASSUMPTIONS = ["as C12", "NaN, not a fill value, marks missing data"]
PER_LEVEL = ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp", "cal_SAL", "cal_SAL_err", "cal_COND", "cal_COND_err",
             "sta_SAL", "sta_SAL_err")


def setup(scratch):
    c12.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, plain=(5 * k, 9), capped=(4 * k, 9), pv=(4 * k, 9), front=(3 * k, 9), seam=(3 * k, 9), station=(2 * k, 9), sparse=(3 * k, 9), whole=(4 * k, 7))


# ------------------------------------------------------------------------------- a world, again

def again(w, root, **over):
    """the same world in another directory"""
    cfg = {k: v for k, v in w.cfg.items() if k.startswith(("MAP", "CONFIG_MAX"))}
    cfg.update(over)
    v = world.World(root, topo_path=c12._S["path"], topo=w.topo, table=w.table.copy(), **cfg)
    saf = os.path.join(w.root, "constants", "TypicalProfileAroundSAF.mat")
    if os.path.exists(saf):
        core.shutil.copy(saf, os.path.join(root, "constants"))
    v.casts = {k: [copy.deepcopy(c) for c in cs] for k, cs in w.casts.items()}
    return v


def small(d):
    """whole numbers as the smallest integers that hold them, as Matlab stores them"""
    for k, v in d.items():
        v = np.asarray(v)
        if v.dtype.kind in "fiu" and v.size and np.all(np.isfinite(v)) and np.all(v == np.round(v)):
            for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.int64):
                if np.iinfo(t).min <= v.min() and v.max() <= np.iinfo(t).max:
                    d[k] = v.astype(t)
                    break
    return d


def pipeline(mon, w, name, sets, ints=False):
    """mapped, series, calibration; None where a step fails (ints: each step's file with small integers before the next one)"""
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    res = []
    np.random.seed(0)
    mon.call(update_salinity_mapping, w.float_dir, w.cfg, name)
    res.append(loadmat(w.mapped_path(name)))
    if ints:
        rewrite(w.mapped_path(name), small)
    if sets is None:
        return res
    mon.call(set_calseries, w.float_dir, name, w.cfg)
    s = {k: v for k, v in loadmat(w.series_path(name)).items() if not k.startswith("__")}
    res.append(dict(s))
    s.update(sets)
    savemat(w.series_path(name), small(s) if ints else s)
    np.random.seed(0)
    r = mon.call(calc_piecewisefit, w.float_dir, name, w.cfg, catch=Exception)
    res.append(r if isinstance(r, core.Raised) else loadmat(w.calib_path(name)))
    return res


def shaped(rng, v, at, m):
    """a matrix with missing rows put in; at: the new place of every old row"""
    out = np.full((m,) + v.shape[1:], np.nan)
    out[at] = v
    return out


def put_rows(rng, m, end):
    k = int(rng.integers(1, 5))
    at = np.arange(m) if end else np.sort(rng.choice(m + k, m, replace=False))
    return at, m + k


def rewrite(path, change, **opts):
    d = {k: v for k, v in loadmat(path).items() if not k.startswith("__")}
    change(d)
    savemat(path, d, **opts)


def files(w):
    for d, _, fs in sorted(os.walk(w.cfg["HISTORICAL_DIRECTORY"])):
        for f in sorted(fs):
            if f.endswith(".mat"):
                yield os.path.join(d, f)


# ------------------------------------------------------------------------------- variants
# each: (world, float) -> (rows of the old levels, columns kept, exact?, note)

def blank_levels(rng, w, name, fl, v, root):
    end = rng.random() < 0.6                    # between the levels they part neighbours, which matters to the choice of theta levels
    at, m = put_rows(rng, fl["PRES"].shape[0], end)
    f = {k: shaped(rng, x, at, m) if k in ("PRES", "PTMP", "SAL", "TEMP") else x for k, x in fl.items()}
    v.write_climatology()
    v.write_float(name, f)
    return dict(rows=at, uncal=not end, note=f"{m - len(at)} levels without data put in {'at the end' if end else 'between'}")


def types(rng, w, name, fl, v, root):
    f = dict(fl)
    top = int(np.max(fl["PROFILE_NO"]))
    t = str(rng.choice([t for t in ("uint8", "int16", "uint16", "int32", "int64", "float64") if t != "uint8" or top < 256]))
    f["PROFILE_NO"] = np.asarray(fl["PROFILE_NO"]).astype(t)
    for k in ("PRES", "PTMP", "SAL", "TEMP", "LAT", "LONG", "DATES"):
        if rng.random() < 0.5:
            f[k] = np.asfortranarray(f[k])
    extra = dict(JULD=np.arange(top), PLATFORM="APEX", NOTE=np.array([[1, 2], [3, 4]]), COND=fl["SAL"] * 1.2, cal_SAL=fl["SAL"] + 1,
                 la_profile_no=np.arange(3), max_breaks=np.array([[4]]), calseries=np.zeros((1, 2)))
    # what an Argo file has besides, more or less the same data
    shape = fl["SAL"].shape
    some = np.where(rng.random(shape) < 0.5, np.nan, 1.0)
    extra.update({f"{v}{a}": fl[k] * some + rng.normal() for v, k in (("PSAL", "SAL"), ("SAL", "SAL"), ("TEMP", "TEMP"), ("PTMP", "PTMP"), ("PRES", "PRES"))
                  for a in ("_ADJUSTED", "_ADJUSTED_ERROR", "_CORRECTED")})
    extra.update({f"{v}_QC": rng.integers(0, 5, shape).astype(float) for v in ("PSAL", "SAL", "TEMP", "PTMP", "PRES", "PSAL_ADJUSTED", "PRES_ADJUSTED")})
    extra.update({f"{v}_QC": rng.integers(0, 5, (1, shape[1])).astype(float) for v in ("POSITION", "JULD", "PROFILE_PSAL", "LAT", "LONG", "DATES")})
    extra.update(CYCLE_NUMBER=np.arange(shape[1])[::-1], CYCLE_NO=np.arange(shape[1])[::-1], DATA_MODE="RAD" * 5, DIRECTION="AD" * 5, STATION=np.arange(3.0),
                 LATITUDE=fl["LAT"] + 5, LONGITUDE=fl["LONG"] + 5, COND_RATIO=fl["SAL"] / 35, PSAL=fl["SAL"] + 1, SALINITY=fl["SAL"] + 1, THETA=fl["PTMP"] - 1,
                 Z=np.full((1, shape[1]), 100.0), GRND=np.ones((1, shape[1])), FLAG=np.zeros((1, shape[1])))
    few = rng.random() < 0.3
    for k in rng.permutation(list(extra)):
        if rng.random() < (0.1 if few else 0.8):
            f[str(k)] = extra[str(k)]
    v.write_climatology()
    opts = [dict(), dict(do_compression=True), dict(format="4")][int(rng.integers(3))]
    f = {k: f[k] for k in rng.permutation(list(f))}
    if opts.get("format") == "4":
        f = {k: (x if not isinstance(x, np.ndarray) or x.dtype not in (np.int64, np.uint32) else x.astype(float)) for k, x in f.items()}
    savemat(v.source_path(name), f, **opts)
    return dict(note=f"PROFILE_NO as {t}, written {opts}, with {sorted(set(f) - set(fl))}")


def settings(rng, w, name, fl, v, root):
    note = []
    c = dict(v.cfg)
    for k in list(c):
        x = c[k]
        if isinstance(x, (int, float)) and not isinstance(x, bool) and rng.random() < 0.5:
            c[k] = (np.float64(x) if not isinstance(x, int) else [np.int64(x), np.int32(x), float(x) if k.startswith("MAPSCALE") else x][int(rng.integers(3))])
            note.append(f"{k}={type(c[k]).__name__}")
        elif k.endswith("DIRECTORY") and rng.random() < 0.4:
            c[k] = x + "/" if rng.random() < 0.5 else x.replace(root, root + "/.")
            note.append(k)
    if rng.random() < 0.6:
        c.update({"MY_SETTING": [1, 2], "float_name": "1234567", "FLOAT_CORRECTED": None, "THETA": np.arange(3)})
    if rng.random() < 0.4:
        c["THETA_BOUNDS"] = [[1.0, 3.0]]
        c["FLOAT_PLOTS_FORMAT"] = "tiff"
    keys = [str(k) for k in rng.permutation(list(c))]
    kind = int(rng.integers(3))
    v.cfg = [dict, collections.OrderedDict, lambda z: collections.defaultdict(lambda: "nothing", z)][kind]({k: c[k] for k in keys})
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note=f"settings in another order and container {type(v.cfg).__name__}, {note[:6]}")


def boxes_renamed(rng, w, name, fl, v, root):
    new = rng.permutation(np.arange(1, 9000))[:648]
    v.table[:, 0] = new
    for i in range(648):                         # a type without a file is as good as one not to be used
        for t in range(3):
            if (i, t) not in v.casts or not v.casts[i, t]:
                v.table[i, t + 1] = rng.integers(2)
    opts = dict(do_compression=bool(rng.random() < 0.5))
    savemat(os.path.join(root, "constants", "wmo_boxes.mat"),
            {"la_wmo_boxes": v.table if rng.random() < 0.5 else v.table.astype(np.int32), "comment": "boxes"}, **opts)
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note="other box numbers and file names, other flags of what there is not")


def blank_cast_levels(rng, w, name, fl, v, root):
    v.write_climatology()
    v.write_float(name, fl)
    n = 0
    for p in files(v):
        def change(d):
            at, m = put_rows(rng, d["pres"].shape[0], rng.random() < 0.5)
            for k in ("pres", "ptmp", "sal", "temp"):
                d[k] = shaped(rng, d[k], at, m)
        if rng.random() < 0.6:
            rewrite(p, change)
            n += 1
    return dict(note=f"levels without data put in {n} climatology files")


def cast_files(rng, w, name, fl, v, root):
    v.write_climatology()
    v.write_float(name, fl)
    for p in files(v):
        def change(d):
            for k in ("lat", "long", "dates", "source", "qclevel"):
                if rng.random() < 0.4:
                    d[k] = np.asarray(d[k]).T
            if rng.random() < 0.5:
                d["dates"] = np.asarray(d["dates"]).astype(np.int64)
            for k in ("lat", "long", "pres", "ptmp", "sal", "temp"):
                if d[k].dtype == np.float32 and rng.random() < 0.5:
                    d[k] = d[k].astype(float)
            n = np.asarray(d["lat"]).size
            if rng.random() < 0.7:
                lev = np.empty((1, n), dtype=object)
                lev[0, :] = [str(x) for x in rng.choice(["COR", "NCD", "SCD", "BAD", "OBS", "4", ""], n)]
                d["qclevel"] = lev
            for k, x in (("oxy", np.zeros(d["pres"].shape)), ("float_long", np.array([[1.0]])), ("README", "a cast"), ("casts", np.arange(5)),
                         ("qc", rng.integers(0, 5, (1, n)).astype(float)), ("sal_qc", rng.integers(0, 5, d["pres"].shape).astype(float)),
                         ("sal_adjusted", d["sal"] + 1.0), ("depth", rng.uniform(100, 5000, (1, n))), ("z", rng.uniform(100, 5000, (1, n))),
                         ("cond", d["sal"] * 1.2), ("theta", d["ptmp"] - 1.0), ("age", rng.uniform(0, 30, (1, n))), ("flag", np.zeros((1, n)))):
                if rng.random() < 0.3:
                    d[k] = x
            for k in rng.permutation(list(d)):
                d[str(k)] = d.pop(str(k))
        rewrite(p, change, do_compression=bool(rng.random() < 0.5))
    return dict(note="climatology as columns, compressed, with other variables, in other types")


def windows(w, fl):
    """rows of the boxes that any profile may look at, and some around them"""
    res = set()
    for x, y in zip(np.ravel(fl["LONG"]), np.ravel(fl["LAT"])):
        if not np.isnan(x + y):
            for dy in (-30, -20, -10, 0, 10, 20, 30):
                for dx in (-30, -20, -10, 0, 10, 20, 30):
                    res.add(world.box_row((x + dx) % 360, float(np.clip(y + dy, -89.9, 89.9))))
    return res


def far_casts(rng, w, name, fl, v, root):
    """casts in boxes that nobody looks at"""
    used = windows(w, fl)
    wat, n = w.water, 0
    for _ in range(60):
        lon, lat = float(rng.uniform(0.01, 359.99)), float(np.clip(rng.normal(np.nanmean(fl["LAT"]), 25), -85, 85))
        if world.box_row(lon, lat) in used:
            continue
        v.add(int(rng.choice([0, 2])), world.make_cast(rng, wat, lon, lat, rng.uniform(1985, 2012)))
        n += 1
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note=f"{n} casts in boxes out of reach")


def own_casts(rng, w, name, fl, v, root):
    n = 0
    for key in [k for k in list(v.casts) if k[1] == 2] + [(world.box_row(float(np.nanmedian(fl["LONG"])), float(np.nanmedian(fl["LAT"]))), 2)]:
        row = key[0]
        lon, lat = 10.0 * (row // 18) + 5, 90 - 10.0 * (row % 18) - 5
        cs = v.casts.setdefault(key, [])
        for _ in range(int(rng.integers(0, 5))):
            c = world.make_cast(rng, w.water, lon + rng.uniform(-4.9, 4.9), lat + rng.uniform(-4.9, 4.9), rng.uniform(2001, 2008),
                                source=f"{name}_{int(rng.integers(1, 200)):03d}.ABC" if rng.random() < 0.8 else f"D{name}")
            c["sal"] = c["sal"] + rng.normal() * 0.3
            cs.insert(int(rng.integers(len(cs) + 1)), c)
            n += 1
        if not cs:
            del v.casts[key]
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note=f"{n} casts of the float itself added to the climatology")


def outside_casts(rng, w, name, fl, v, root):
    """casts in the boxes, but outside the ellipse of every profile whatever their depth"""
    a, b = w.cfg["MAPSCALE_LONGITUDE_LARGE"], w.cfg["MAPSCALE_LATITUDE_LARGE"]
    pos = [(x, y) for x, y in zip(np.ravel(fl["LONG"]), np.ravel(fl["LAT"])) if not np.isnan(x + y)]
    n = 0
    for _ in range(200):
        x, y = pos[int(rng.integers(len(pos)))] if pos else (100.0, 0.0)
        lon, lat = (x + rng.normal() * 4 * a + rng.choice([-1, 1]) * 3 * a) % 360, float(np.clip(y + rng.normal() * 3 * b, -85, 85))
        near = [((((lon - p + 180) % 360) - 180) / a / 3) ** 2 + ((lat - q) / b / 3) ** 2 < 1.02 for p, q in pos]
        near += [world.box_row(lon, lat) not in windows(w, fl)]
        if any(near):
            continue
        # if the longitudes are not unwrapped the distance is taken the long way round: outside all the same
        cs = v.casts.setdefault((world.box_row(lon, lat), int(rng.choice([0, 2]))), [])
        cs.insert(int(rng.integers(len(cs) + 1)), world.make_cast(rng, w.water, lon, lat, rng.uniform(1985, 2012)))
        n += 1
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note=f"{n} casts added outside three scales of every profile", close=True)


def order(rng, w, name, fl, v, root):
    for cs in v.casts.values():
        perm = rng.permutation(len(cs))
        cs[:] = [cs[i] for i in perm]
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note="casts in another order", close=True, reordered=True)


def data_type(rng, w, name, fl, v, root):
    """CTD casts filed as Argo ones and the other way round"""
    v.table[:, 1:] = 1
    new = {}
    for (row, typ), cs in v.casts.items():
        used = w.table[row, typ + 1] == 1
        for c in cs:
            own = typ == 2 and name in c["source"]
            if not used or own:
                continue
            t = typ if typ == 1 else int(rng.choice([0, 2]))
            new.setdefault((row, t), []).append(c)
    v.casts = new
    savemat(os.path.join(root, "constants", "wmo_boxes.mat"), {"la_wmo_boxes": v.table})
    v.write_climatology()
    v.write_float(name, fl)
    return dict(note="casts filed under another type", close=True, reordered=True)


def fewer_profiles(rng, w, name, fl, v, root):
    n = fl["PRES"].shape[1]
    keep = np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False))
    v.write_climatology()
    v.write_float(name, world.subset_float(fl, keep))
    return dict(note=f"only profiles {keep}", cols=keep)


def small_integers(rng, w, name, fl, v, root):
    v.write_climatology()
    v.write_float(name, fl)
    for p in files(v):
        rewrite(p, small)
    rewrite(v.source_path(name), small)
    savemat(os.path.join(root, "constants", "wmo_boxes.mat"), small({"la_wmo_boxes": v.table}))
    kinds = sorted({x.dtype.name for x in loadmat(v.source_path(name)).values() if isinstance(x, np.ndarray) and x.dtype.kind in "iu"})
    return dict(note=f"whole numbers as integers ({' '.join(kinds)} in the float's file)", ints=True)


def whole(rng, w, fl):
    """the world with whole pressures at as many levels everywhere, and some whole positions and dates"""
    ok = [np.flatnonzero(np.isfinite(fl["PRES"][:, j] + fl["PTMP"][:, j] + fl["SAL"][:, j])) for j in range(fl["PRES"].shape[1])]
    m = min(len(k) for k in ok)
    top = 250 if rng.random() < 0.2 else 1e9                   # (pressures that fit into a byte)
    if min(np.sum(fl["PRES"][k, j] < top) for j, k in enumerate(ok)) >= 3:
        ok = [k[fl["PRES"][k, j] < top] for j, k in enumerate(ok)]
        m = min(len(k) for k in ok)
    for v in ("PTMP", "SAL", "TEMP", "PRES"):
        fl[v] = np.column_stack([fl[v][k[:m], j] for j, k in enumerate(ok)])
    fl["PRES"] = np.round(fl["PRES"])

    def off(x):
        x = np.round(x)
        return x + (x % 10 == 0)
    for k in ("LAT", "LONG"):
        if rng.random() < 0.6 and not np.any(np.isnan(fl[k])):
            fl[k] = off(fl[k])
    if rng.random() < 0.4:
        fl["DATES"] = np.round(fl["DATES"])
    some = [c for cs in w.casts.values() for c in cs]
    n = max(min(len(c["pres"]) for c in some), 12)
    place = rng.random() < 0.5
    for (row, typ), cs in list(w.casts.items()):
        for c in cs:
            lo, hi = np.ceil(c["pres"].min()), np.floor(c["pres"].max())
            p = np.unique(np.round(np.linspace(lo, max(hi, lo + n), n)))
            assert len(p) == n
            for v in ("ptmp", "sal"):
                c[v] = np.interp(p, c["pres"], c[v])
            c["pres"] = p
            if place:
                la, lo = float(off(c["lat"])), float(off(c["long"]) % 360)
                if world.box_row(lo, la) == row:
                    c["lat"], c["long"] = la, lo


VARIANTS = {"blank levels": blank_levels, "types": types, "settings": settings, "boxes renamed": boxes_renamed, "blank cast levels": blank_cast_levels,
            "cast files": cast_files, "far casts": far_casts, "own casts": own_casts, "outside casts": outside_casts, "order": order,
            "data type": data_type, "fewer profiles": fewer_profiles, "small integers": small_integers}


# ------------------------------------------------------------------------------- judge

def compare(mon, what, tag, one, two, r, n):
    rows, cols, close = r.get("rows"), r.get("cols"), r.get("close")
    skip = () if not (rows is not None or close) else c22.RANDOM
    if isinstance(one, core.Raised) or isinstance(two, core.Raised):
        mon.check(isinstance(one, core.Raised) == isinstance(two, core.Raised), "raises:" + tag, f"{what}: {tag} gives {one if isinstance(one, core.Raised) else 'a result'} "
                  f"for the one and {two if isinstance(two, core.Raised) else 'a result'} for the other")
        return
    ka, kb = ({k for k in d if not k.startswith("__")} for d in (one, two))
    mon.check(ka == kb, "variables:" + tag, f"{what}: variables of {tag} {sorted(ka ^ kb)}")
    for k in sorted(ka):
        a, b = np.asarray(one[k]), np.asarray(two[k])
        if a.dtype == object or a.dtype.kind in "US":
            mon.check(a.shape == b.shape and np.array_equal(a, b), "text:" + tag, f"{what}: {k} of {tag}")
            continue
        if k == "selected_hist" and (cols is not None or r.get("reordered")):
            continue
        a, b = a.astype(float), b.astype(float)
        if k in PER_LEVEL and rows is not None:
            mon.check(b.shape == (rows.max() + 1 if b.shape[0] == rows.max() + 1 else b.shape[0], a.shape[1]), "shape:" + tag, f"{what}: {k} of {tag} has shape {b.shape}")
            rest = np.setdiff1d(np.arange(b.shape[0]), rows)
            mon.check(np.all(np.isnan(b[rest])), "blank:" + tag, f"{what}: {k} of {tag} has values at levels without data")
            b = b[rows]
        if k == "profile_index" and cols is not None:
            continue
        if cols is not None and k != "selected_hist":
            mon.check(a.ndim == 2 and a.shape[1] == n, "shape:" + tag, f"{what}: {k} of {tag} has shape {a.shape}")
            a = a[:, cols]
        if k in skip:
            mon.check(a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)), "missing:" + tag, f"{what}: {k} of {tag} is missing elsewhere")
            continue
        if close:
            atol = 1e-7
            if k == "la_mapsalerrors":
                a, b = a ** 2, b ** 2
        else:
            atol = 1e-10
        mon.same(b, a, "differs:" + tag, f"{what}: {k} of {tag}", atol=atol, rtol=1e-6 if close else 1e-9)
        mon.count("values", a.size)


def run(case, rng, mon):
    fam = case["fam"]
    w, name, fl = c12.build(os.path.join(mon.scratch, "a"), "capped" if fam == "whole" and case["k"] % 3 == 2 else "pv" if fam == "whole" else fam, rng,
                            c12._S["topo"], c12._S["path"])
    if fam == "whole":
        whole(rng, w, fl)
    n = fl["PRES"].shape[1]
    todo = [x for x in VARIANTS if (x == "small integers") == (fam == "whole")]
    if fam == "whole":
        pass
    elif fam == "capped":
        todo = [x for x in todo if x not in ("order", "data type", "fewer profiles")]
    elif case["k"] % 2 == 0 and fam != "station":
        # the nearest neighbour of a cast is one of several at one position: the first
        for key, cs in w.casts.items():
            seen = set()
            w.casts[key] = [c for c in cs if not ((c["long"], c["lat"]) in seen or seen.add((c["long"], c["lat"])))]
    else:
        todo = [x for x in todo if x not in ("order", "data type")]
    w.write_climatology()
    w.write_float(name, fl)
    most = int(rng.choice([-1, 0, 0, 1]))
    sets = dict(max_breaks=np.array([[most]]), use_percent_gt=0.5)
    if rng.random() < 0.3:
        sets["use_pres_gt"] = np.array([[float(rng.choice([60, 150]))]])
    if most == 1 and n >= 4 and rng.random() < 0.7:
        sets["breaks"] = np.array([[np.ravel(fl["PROFILE_NO"])[n // 2] + 0.5]])
    base = pipeline(mon, w, name, sets)
    mon.count("capped", fam == "capped")
    start = 6 * case["k"] + int(rng.integers(len(todo)))
    pick = [todo[(start + i) % len(todo)] for i in range(min(6, len(todo)))]
    for i, kind in enumerate(pick):
        root = os.path.join(mon.scratch, f"v{i}")
        v = again(w, root)
        r = VARIANTS[kind](rng, w, name, fl, v, root)
        what = f"{fam}, {r['note']}"
        cal = r.get("cols") is None and not r.get("uncal") and not (r.get("close") and most == 1)
        got = pipeline(mon, v, name, sets if cal else None, r.get("ints"))
        for tag, a, b in zip(("the mapped file", "the settings file", "the calibration file"), base, got):
            compare(mon, what, tag, a, b, r, n)
        mon.count(kind)
        mon.count("variants")
        mon.count("calibrations", cal)
        if cal:
            mon.count("fits", not isinstance(base[2], core.Raised) and np.any(np.isfinite(base[2]["pcond_factor"])))
            mon.count("breaks", most == 1)
        core.shutil.rmtree(root)
    mon.seen(fam, tuple(pick), most, fl["PRES"].shape)
    mon.sample = dict(variants=pick, max_breaks=most, profiles=n, mapped=int(np.sum(~np.isnan(base[0]["la_mapped_sal"]))))
