"""C12 mapping end to end"""
import copy
import os

import numpy as np

from .. import core, mapmodel, refs, world
from ..gen import cases

ID = "C12"
RULE = ("A case is a synthetic world (bathymetry, boxes, climatology, one float of 3-8 profiles) mapped by update_salinity_mapping "
        "and compared level by level with the reference model; or the same world mapped again after a turn by a multiple of 10 "
        "degrees. Distinct by (family, profiles, mapped levels, vorticity, front, capped).")
REQUIRE = {"levels-compared": (2500, 25000), "levels-unmapped": (1000, 10000), "capped": (6, 70), "busy": (1, 10), "shared in two frames": (2, 20), "pv": (400, 4000), "front": (8, 80), "front-too-few": (0, 10), "front-five-or-six": (2, 20), "at-exclusion": (40, 400), "qc-both": (0, 4),
           "outliers": (50, 500), "all at one place": (2, 40), "blank-profiles": (4, 40), "rotated": (3, 30), "seam": (6, 60), "across the meridian": (1, 10), "one level": (2, 20), "qc": (20, 200),
           "selected": (300, 3000), "few": (60, 600), "dry-casts": (8, 80), "dry-profiles": (0, 12), "real": (200, 2000)}
ASSUMPTIONS = ["positions at least 0.025 degrees away from box edges", "condition number of the data covariance below 1e7",
               "some climatology in the boxes around every positioned profile"]
SCALES = ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small", "scale_phi_large", "scale_phi_small",
          "scale_age_large", "scale_age_small", "use_pv", "use_saf", "p_delta", "p_exclude")
_S = {}


def setup(scratch):
    _S["topo"] = world.make_topo("ocean", 3)
    _S["path"] = os.path.join(scratch, "tbase.int")
    world.write_topo(_S["path"], _S["topo"])
    from scipy.io import loadmat
    _S["saf"] = os.path.join(core.REPO, "data", "constants", "TypicalProfileAroundSAF.mat")
    _S["saf_data"] = loadmat(_S["saf"])


def plan(tier, rng):
    k = 1 if tier == "quick" else 9
    return cases(rng, plain=(8 * k, 3), capped=(6 * k, 3), pv=(6 * k, 3), front=(8 * k, 3), **{"front-side": (8 * k, 2)}, seam=(6 * k, 3), holes=(9 * k, 3), **{"seam-west": (2 * k, 3), "seam-east": (2 * k, 3)},
                 fresh=(8 * k, 2), outlier=(4 * k, 3), sparse=(8 * k, 2), dry=(4 * k, 2), rotate=(4 * k, 6), real=(5 * k, 8), station=(5 * k, 2),
                 busy=(2 * k, 8), frames=(4 * k, 3))


def real_casts():
    """the climatology that comes with the repository (two boxes south of Africa), thinned"""
    if "real" not in _S:
        from scipy.io import loadmat
        res = []
        for typ, f in ((0, "ctd/ctd_3505"), (0, "ctd/ctd_3506"), (2, "argo/argo_3505"), (2, "argo/argo_3506")):
            d = loadmat(os.path.join(core.REPO, "data", "climatology", f"historical_{f}.mat"))
            for j in range(d["lat"].shape[1]):
                p, t, q = (np.asarray(d[k][:, j], float) for k in ("pres", "ptmp", "sal"))
                ok = ~np.isnan(p + t + q)
                if ok.sum() < 12:
                    continue
                k = np.flatnonzero(ok & (p < 2100))
                k = k[np.unique(np.linspace(0, len(k) - 1, 45).astype(int))]
                res.append((typ, world.Cast(lat=float(d["lat"][0, j]), long=float(d["long"][0, j]), date=float(d["dates"][0, j]),
                                            pres=p[k], ptmp=t[k], sal=q[k], source=str(d["source"].ravel()[j].ravel()[0]))))
        _S["real"] = res
    return _S["real"]


def build_real(root, rng, topo, path):
    cs = real_casts()
    over = dict(MAP_USE_PV=int(rng.random() < 0.5), MAP_USE_SAF=int(rng.random() < 0.6), CONFIG_MAX_CASTS=int(rng.choice([40, 120, 300])),
                MAP_P_EXCLUDE=int(rng.choice([100, 500])), MAP_P_DELTA=int(rng.choice([100, 250])),
                MAPSCALE_LONGITUDE_LARGE=float(rng.uniform(1.5, 4)), MAPSCALE_LATITUDE_LARGE=float(rng.uniform(0.8, 2)),
                MAPSCALE_LONGITUDE_SMALL=float(rng.uniform(0.7, 1.5)), MAPSCALE_LATITUDE_SMALL=float(rng.uniform(0.4, 0.8)))
    w = world.World(root, topo_path=path, topo=topo, **over)
    core.shutil.copy(_S["saf"], os.path.join(root, "constants", "TypicalProfileAroundSAF.mat"))
    # the float is one that contributed to the climatology
    by = {}
    for typ, c in cs:
        if typ == 2:
            by.setdefault(c["source"][:7], []).append(c)
    name = str(rng.choice([k for k, v in by.items() if len(v) >= 8 and k.isdigit()]))
    own = by[name]
    pick = [own[i] for i in np.sort(rng.choice(len(own), int(rng.integers(3, 6)), replace=False))]
    near = [(typ, c) for typ, c in cs if abs(c["lat"] - pick[0]["lat"]) < 7 and abs(c["long"] - pick[0]["long"]) < 14]
    keep = rng.random(len(near)) < 350 / max(len(near), 350)
    for k, (typ, c) in zip(keep, near):
        if k or c["source"].startswith(name):
            w.add(typ, copy.deepcopy(c))
    m = max(len(c["pres"]) for c in pick)
    fl = {k: np.full((m, len(pick)), np.nan) for k in ("PRES", "PTMP", "SAL")}
    for j, c in enumerate(pick):
        k = len(c["pres"])
        fl["PRES"][:k, j], fl["PTMP"][:k, j], fl["SAL"][:k, j] = c["pres"], c["ptmp"], c["sal"]
    fl.update(TEMP=world.in_situ(fl["PTMP"], fl["PRES"]), PROFILE_NO=np.arange(1, len(pick) + 1).reshape(1, -1),
              LAT=np.array([[c["lat"] for c in pick]]), LONG=np.array([[c["long"] for c in pick]]),
              DATES=np.array([[refs.parse_date(c["date"]) for c in pick]]))
    return w, name, fl


def build(root, fam, rng, topo=None, path=None, n=None):
    if fam == "real":
        return build_real(root, rng, topo, path)
    cfg = dict(MAPSCALE_LONGITUDE_LARGE=float(rng.uniform(3, 8)), MAPSCALE_LATITUDE_LARGE=float(rng.uniform(1.5, 5)),
               MAPSCALE_AGE_LARGE=float(rng.uniform(5, 25)), MAPSCALE_PHI_LARGE=float(10 ** rng.uniform(-0.8, 0.2)),
               MAP_P_EXCLUDE=int(rng.choice([0, 50, 100, 300, 700])), MAP_P_DELTA=int(rng.choice([60, 120, 250, 400])))
    for a in ("LONGITUDE", "LATITUDE", "AGE", "PHI"):
        cfg[f"MAPSCALE_{a}_SMALL"] = float(cfg[f"MAPSCALE_{a}_LARGE"] * rng.uniform(0.25, 0.7))
    if fam in ("pv", "dry") or (fam in ("capped", "rotate", "seam") and rng.random() < 0.5):
        cfg["MAP_USE_PV"] = 1
    if fam in ("front", "front-side"):
        cfg["MAP_USE_SAF"] = 1
    few = int(rng.integers(3, 8))
    n = few if n is None else n
    if fam == "front":
        fam = str(rng.choice(["front", "front-few"], p=[0.7, 0.3]))
    ncast = {"capped": 130, "front-few": int(rng.integers(8, 17)), "sparse": 18, "rotate": 80, "busy": 800, "frames": 160}.get(fam, int(rng.integers(40, 110)))
    if fam == "busy":                                           # as many casts as may be used, and more
        cfg["CONFIG_MAX_CASTS"] = int(rng.choice([300, 300, 310]))
        n = int(rng.integers(1, 3))
    if fam == "capped" or (fam == "rotate" and rng.random() < 0.5):
        cfg["CONFIG_MAX_CASTS"] = int(rng.integers(15, 50))
    lon0 = float(rng.uniform(25, 155) if rng.random() < 0.5 else rng.uniform(205, 320))
    lat0 = float(rng.uniform(-60, 60)) if cfg.get("MAP_USE_SAF") != 1 else float(rng.uniform(-55, -33))
    if fam == "seam":
        lon0 = float(rng.choice([rng.uniform(340, 359.9), rng.uniform(0, 25)]))
    if fam in ("seam-west", "seam-east"):                       # the float on one side of the meridian, its casts on the other
        lon0 = float(rng.uniform(358, 359.8) if fam == "seam-west" else rng.uniform(0.2, 2))
    if fam == "frames":                                         # casts shared by profiles near the meridian and away from it
        cfg.update(MAPSCALE_LONGITUDE_LARGE=5.0, MAPSCALE_LATITUDE_LARGE=4.0, MAPSCALE_LONGITUDE_SMALL=2.5)
        lon0, n = 15.0, max(n, 3)
    if fam == "station":
        cfg.update(MAPSCALE_LONGITUDE_LARGE=1.0, MAPSCALE_LATITUDE_LARGE=1.0, MAPSCALE_LONGITUDE_SMALL=0.5, MAPSCALE_LATITUDE_SMALL=0.5)
        n = max(n, 4)
    w = world.World(root, topo_path=path, topo=topo,
                    table=world.box_table(rng, p_type=rng.choice([0.8, 1.0], 3)) if fam in ("plain", "holes") else None, **cfg)
    if cfg.get("MAP_USE_SAF") == 1:
        core.shutil.copy(_S["saf"], os.path.join(root, "constants", "TypicalProfileAroundSAF.mat"))
        wat = world.Water(rng, t_deep=rng.uniform(0.5, 1.5), noise_t=rng.uniform(0.3, 1))
        t300 = rng.choice([rng.uniform(4.8, 5.8), rng.uniform(2.3, 3.2)])
        if fam == "front-side":                                 # few casts on the float's side, many on the other
            wat.noise_t, t300 = 0.1, 2.0
        wat.t_surf = wat.t_deep + (t300 - wat.t_deep) * np.exp(300 / wat.h)
    else:
        wat = world.Water(rng)
    if fam == "fresh":
        bound = rng.choice([30.0, 40.0])
        if rng.random() < 0.5:                                  # out of range above and below
            at = wat.theta(np.array([rng.uniform(250, 450), rng.uniform(700, 900)]), lon0, lat0, 2004)
            wat.ds = rng.choice([-10, 10]) / (at[0] - at[1])
            bound = 40.0 if wat.ds > 0 else 30.0
            wat.s0 = bound - wat.ds * (at[0] - wat.t_deep)
        else:
            wat.s0 = bound - wat.ds * (wat.theta(np.array([rng.uniform(400, 800)]), lon0, lat0, 2004)[0] - wat.t_deep)
        wat.noise_s = 0.03
    if fam == "outlier":
        wat.noise_s = 0.01
    name = str(int(rng.integers(10 ** 6, 9 * 10 ** 6)))
    spread = (cfg["MAPSCALE_LONGITUDE_LARGE"] * rng.uniform(0.6, 1.6), cfg["MAPSCALE_LATITUDE_LARGE"] * rng.uniform(0.6, 1.4))
    if fam == "frames":
        spread = (11.0, 3.0)
    if fam in ("capped", "busy"):
        spread = (spread[0] * 0.6, spread[1] * 0.6)
    p_type = (0.35, 0.2, 0.45) if fam != "rotate" else (0.5, 0.0, 0.5)
    if fam == "front-side":
        north = copy.copy(wat)
        north.t_surf = wat.t_deep + (rng.uniform(7, 9) - wat.t_deep) * np.exp(300 / wat.h)
        spread = (spread[0] * 0.3, spread[1] * 0.3)
        world.surround(rng, w, wat, lon0, lat0, int(rng.choice([4, 5, 5, 6, 6, 7])), spread=spread, p_type=p_type, pmax=1900)
        world.surround(rng, w, north, lon0, lat0, int(rng.integers(6, 12)), spread=spread, p_type=p_type, pmax=1900)
    else:
        world.surround(rng, w, wat, lon0, lat0, ncast, spread=spread, own=name, p_type=p_type)
    if fam in ("seam-west", "seam-east"):
        for key in w.casts:
            w.casts[key] = [c for c in w.casts[key] if (c["long"] < 180) == (lon0 > 180)]
    if fam == "outlier":
        for cs in w.casts.values():
            for c in cs:
                if rng.random() < 0.08:
                    c["sal"] += rng.choice([-1, 1]) * rng.uniform(0.1, 0.4)
    if fam in ("holes", "plain"):
        for cs in w.casts.values():
            for c in cs:
                u = rng.random()
                if u < 0.15:
                    for v in ("pres", "ptmp", "sal"):
                        c[v][rng.random(len(c[v])) < 0.15] = np.nan
                elif u < 0.2 and fam == "holes":
                    c[str(rng.choice(["pres", "ptmp", "sal"]))][:] = np.nan
                elif u < 0.3 and fam == "holes":               # a cast deep below the float
                    c["pres"] += 3000
    if rng.random() < 0.6:                                      # repeated casts at one position
        for key, cs in w.casts.items():
            if len(cs) > 3:
                cs[1]["lat"], cs[1]["long"] = cs[0]["lat"], cs[0]["long"]
                if rng.random() < 0.5:
                    cs[2]["lat"], cs[2]["long"] = cs[0]["lat"] + 0.004, cs[0]["long"] + 0.004
                    if world.box_row(cs[2]["long"], cs[2]["lat"]) != key[0]:
                        cs[2]["lat"], cs[2]["long"] = cs[0]["lat"], cs[0]["long"]
    lon, lat, t = world.track(rng, n, lon0, lat0)
    if fam == "frames":
        lon = rng.permutation(np.r_[11.0, 26.0, rng.uniform(11, 26, n - 2)]) + rng.uniform(-0.5, 0.5, n)
    fl = world.make_float(rng, wat, lon, lat, t, nlev=int(rng.integers(12, 30)), pmax=rng.uniform(900, 1900),
                          numbers=np.cumsum(rng.integers(1, 4, n)))
    if fam == "station":                                        # the first profiles near a time-series station, the others away from it
        w.casts.clear()
        k = n // 2
        fl["LAT"][0, k:] += 7.0 * (-1 if lat0 > 0 else 1)
        slon, slat = fl["LONG"][0, 0], fl["LAT"][0, 0]
        one = rng.random() < 0.7                                # at the very same place every time
        for q in range(25):
            x, y, t1 = slon + 0.1 + rng.uniform(0, 0.012), slat + 0.1 + rng.uniform(0, 0.012), rng.uniform(1990, 2010)
            if one:
                x, y, t1 = slon + 0.105, slat + 0.105, t1 if q % 4 else 2001.5
            w.add(0, world.make_cast(rng, wat, x, y, t1, pmax=1900))
        world.surround(rng, w, wat, fl["LONG"][0, k], fl["LAT"][0, k], 60, spread=(1.0, 0.6), own=name, p_type=p_type, pmax=1900)
    for j in range(n):                                          # a level exactly at the exclusion pressure
        p, pe = fl["PRES"][:, j], cfg["MAP_P_EXCLUDE"]
        if rng.random() < 0.5 and np.nanmin(p) < pe < np.nanmax(p):
            p[np.nanargmin(np.abs(p - pe))] = pe
    if fam in ("holes", "plain"):
        for j in range(n):
            u = rng.random()
            if u < 0.12:
                fl["LAT"][0, j] = np.nan
            elif u < 0.2:
                fl["LONG"][0, j] = np.nan
            elif u < 0.28:
                fl["PRES"][:, j] = np.nan
            elif u < 0.36:
                fl["SAL"][:, j] = np.nan
            elif u < 0.44:
                fl["PTMP"][:, j] = np.nan
            elif u < 0.56:                                      # one level, often in the first row
                k = rng.choice(np.flatnonzero(np.isfinite(fl["PRES"][:, j] + fl["SAL"][:, j] + fl["PTMP"][:, j])))
                one = {v: fl[v][k, j] for v in ("PRES", "SAL", "PTMP", "TEMP")}
                at = 0 if rng.random() < 0.7 else k
                for v in one:
                    fl[v][:, j] = np.nan
                    fl[v][at, j] = one[v]
    if fam == "sparse" or (fam == "holes" and rng.random() < 0.5):                 # a profile away from everything but in the boxes
        j = int(rng.integers(n))
        for f in (4, 3, 2, 1, 0):
            y = float(np.clip(lat0 + np.sign(-lat0) * (3 * cfg["MAPSCALE_LATITUDE_LARGE"] + f * spread[1]), -80, 80))
            if np.isnan(fl["LONG"][0, j]) or mapmodel.listing(w, fl["LONG"][0, j], y, name):
                fl["LAT"][0, j] = y
                break
    for j in range(n):
        if not np.isnan(fl["LONG"][0, j] + fl["LAT"][0, j]) and mapmodel.near_box_edge(fl["LONG"][0, j], fl["LAT"][0, j]):
            fl["LONG"][0, j] += 0.06
            fl["LAT"][0, j] += 0.06
    w.water = wat
    return w, name, fl


def dry(rng, w, fl, mon):
    """no water at some casts (nearly always) and at a profile (sometimes)"""
    topo = w.topo.copy()
    near = [c for cs in w.casts.values() for c in cs if abs(c["lat"] - np.nanmean(fl["LAT"])) < 4]
    spots = [(c["long"], c["lat"]) for c in (near[i] for i in rng.choice(len(near), min(len(near), int(rng.integers(1, 9))), replace=False))]
    mon.count("dry-casts", len(spots))
    if rng.random() < 0.6:
        j = int(rng.integers(fl["LAT"].shape[1]))
        spots.append((fl["LONG"][0, j], fl["LAT"][0, j]))
        mon.count("dry-profiles")
    for x, y in spots:
        r, c = int(np.floor((90 - y) * 12)), int(np.floor((x % 360) * 12))
        for a in (r, r + 1):
            for b in (c, c + 1):
                topo[a, b % topo.shape[1]] = 0
    path = os.path.join(w.root, "constants", "tbase.int")
    os.remove(path)
    world.write_topo(path, topo)
    w.topo = topo


def quantise(w, fl):
    """positions on a 1/1024 grid: a turn is then exact"""
    for k in ("LONG", "LAT"):
        fl[k] = np.round(fl[k] * 1024) / 1024
    for (row, _), cs in w.casts.items():
        for c in cs:
            la, lo = round(c["lat"] * 1024) / 1024, round(c["long"] * 1024) / 1024 % 360
            if world.box_row(lo, la) == row:
                c["lat"], c["long"] = la, lo
            else:
                c["lat"], c["long"] = np.floor(c["lat"] * 1024) / 1024 + 1 / 1024 * (world.box_row(lo, np.floor(c["lat"] * 1024) / 1024) != row), \
                    np.floor(c["long"] * 1024) / 1024
                assert world.box_row(c["long"], c["lat"]) == row


def turned(w, root, fl, steps, path, topo):
    """the same world, turned by steps * 10 degrees to the east"""
    over = {k: v for k, v in w.cfg.items() if k.startswith(("MAP", "CONFIG_MAX"))}
    table = np.roll(w.table.reshape(36, 18, 4), steps, axis=0).reshape(648, 4)
    w2 = world.World(root, topo_path=path, topo=topo, table=table, **over)
    for (row, typ), cs in w.casts.items():
        r2 = (row // 18 + steps) % 36 * 18 + row % 18
        new = []
        for c in cs:
            d = copy.deepcopy(c)
            d["long"] = (c["long"] + 10 * steps) % 360
            new.append(d)
        w2.casts[r2, typ] = new
    f2 = copy.deepcopy(fl)
    f2["LONG"] = np.where(np.isnan(fl["LONG"]), np.nan, (fl["LONG"] + 10 * steps) % 360)
    return w2, f2


def compare(mon, w, fl, name, out, select, what, skip=()):
    """the mapped file against the model; returns (levels compared, blank profiles)"""
    m, n = fl["PRES"].shape
    cfg = w.cfg
    nums = np.asarray(fl["PROFILE_NO"]).ravel()
    need = {"la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp", "la_profile_no", "selected_hist"} | set(SCALES)
    mon.check(need <= set(out), "variables", f"{what}: the mapped file lacks {sorted(need - set(out))}")
    mon.same(np.asarray(out["la_profile_no"], float).ravel(), nums, "profile-order", what + ": profile numbers")
    g = {k: np.asarray(out[k], float) for k in ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp")}
    for k, v in g.items():
        mon.check(v.shape == (m, n), "shape", f"{what}: {k} has shape {v.shape}, expected {(m, n)}")
    s = g["la_mapped_sal"]
    mon.check(np.all(np.isnan(s) | ((s >= 30) & (s <= 40))), "range", f"{what}: saved salinity out of 30-40")
    setting = dict(zip(SCALES, (cfg["MAPSCALE_LONGITUDE_LARGE"], cfg["MAPSCALE_LATITUDE_LARGE"], cfg["MAPSCALE_LONGITUDE_SMALL"],
                                cfg["MAPSCALE_LATITUDE_SMALL"], cfg["MAPSCALE_PHI_LARGE"], cfg["MAPSCALE_PHI_SMALL"],
                                cfg["MAPSCALE_AGE_LARGE"], cfg["MAPSCALE_AGE_SMALL"], cfg["MAP_USE_PV"], cfg["MAP_USE_SAF"],
                                cfg["MAP_P_DELTA"], cfg["MAP_P_EXCLUDE"])))
    hist = np.asarray(out["selected_hist"], float)
    hist = hist.reshape(-1, 3) if hist.size else np.zeros((0, 3))
    compared = blank = 0
    models = []
    for j in range(n):
        r = mapmodel.map_profile(w, fl, j, name, cfg, select, _S["saf_data"])
        if j in skip:
            r.status, r.why = "undecided", "skipped"
        models.append(r)
        tag = f"{what}, profile {nums[j]}"
        sc = {k: float(np.asarray(out[k], float).ravel()[j]) for k in SCALES}
        if r.status == "undecided":
            mon.count("undecided:" + r.why)
            continue
        mon.count("all at one place", r.one_place)
        if r.status == "blank":
            for k, v in g.items():
                mon.check(np.all(np.isnan(v[:, j])), "blank", f"{tag} ({r.why}): {k} is not missing")
            mon.check(all(np.isnan(x) for x in sc.values()), "blank-settings", f"{tag} ({r.why}): settings {sc}")
            mon.count("blank-profiles")
            mon.count("blank:" + r.why)
            mon.count("levels-unmapped", m)
            blank += 1
            continue
        for k, v in setting.items():
            mon.same(sc[k], v, "settings", f"{tag}: saved {k}")
        mon.count("capped", r.capped)
        mon.count("busy", r.capped and cfg["CONFIG_MAX_CASTS"] >= 300)
        mon.count("outliers", r.outliers)
        if r.front:
            mon.count("front", r.front[1] < r.front[2])
            mon.count("front-too-few", r.front[1] <= 5)
            mon.count("front-five-or-six", r.front[1] in (5, 6) and r.front[1] < r.front[2])
        for k in range(m):
            if r.maybe[k]:
                mon.count("levels-undecided")
                continue
            lv = f"{tag}, level {k} ({r.counts[k]} points)"
            if np.isnan(r.sal[k]):
                for q, v in g.items():
                    mon.check(np.isnan(v[k, j]), "unmapped", f"{lv}: {q} is {v[k, j]} where nothing may be mapped")
                mon.count("levels-unmapped")
                mon.count("few", 0 < r.counts[k] <= 5)
                continue
            a, tol = r.amp[k], 1e-8 + 1e-13 * r.cond[k]
            want = r.sal[k]
            mon.count("at-exclusion", fl["PRES"][k, j] == cfg["MAP_P_EXCLUDE"])
            if not 30 <= want <= 40:
                if min(abs(want - 30), abs(want - 40)) > 1e-6:
                    mon.check(np.isnan(s[k, j]), "qc", f"{lv}: {s[k, j]} saved, the estimate is {want}")
                    mon.count("qc")
            elif min(abs(want - 30), abs(want - 40)) > 1e-6:
                mon.same(s[k, j], want, "sal", f"{lv}: mapped salinity", atol=a * tol + 1e-11)
            mon.same(g["la_mapsalerrors"][k, j] ** 2, r.err[k] ** 2, "error", f"{lv}: squared error", atol=r.sig[k] * tol, rtol=1e-8)
            mon.same(g["la_signal_sal"][k, j], r.sig[k], "signal", f"{lv}: signal", rtol=1e-8, atol=1e-15)
            mon.same(g["la_noise_sal"][k, j], r.noi[k], "noise", f"{lv}: noise", rtol=1e-7, atol=1e-15)
            mon.same(g["la_ptmp"][k, j], r.ptmp[k], "ptmp", f"{lv}: potential temperature")
            compared += 1
        mon.count("pv", cfg["MAP_USE_PV"] * np.sum(~np.isnan(r.sal)))
    mon.count("levels-compared", compared)
    est = np.concatenate([r.sal for r in models if r.status not in ("undecided", "blank")] or [np.zeros(0)])
    mon.count("qc-both", bool(np.any(est < 30) and np.any(est > 40)))
    # the reference positions
    if all(r.status != "undecided" for r in models):
        check_hist(mon, hist, models, nums, what)
    return compared, blank, models


def check_hist(mon, hist, models, nums, what):
    used = [(nums[j], u[1]) for j, r in enumerate(models) for u in r.used]
    full = all(not r.maybe.any() for r in models)
    mon.check(np.all(np.diff(hist[:, 2]) >= 0), "hist-order", f"{what}: reference positions are not in profile order")
    for i in range(len(hist)):
        d = np.abs(np.column_stack(((hist[i + 1:, 0] - hist[i, 0] + 180) % 360 - 180, hist[i + 1:, 1] - hist[i, 1]))) < 1 / 60 - 1e-9
        mon.check(not np.any(d.all(axis=1)), "hist-spacing", f"{what}: reference positions {hist[i]} nearly repeated")
    if full:
        for num in np.unique(hist[:, 2]):
            pos = [u for k, u in used if k == num]
            mon.check(len(pos) > 0, "hist-profile", f"{what}: positions of profile {num}, which used none")
            pos = np.vstack(pos)
            h = hist[hist[:, 2] == num]
            d = np.abs((h[:, None, 0] - pos[None, :, 0] + 180) % 360 - 180) + np.abs(h[:, None, 1] - pos[None, :, 1])
            mon.check(np.all(d.min(axis=1) < 1e-9), "hist-used", f"{what}: a saved reference position was not used for profile {num}")
        x = np.concatenate([u[:, 0] for _, u in used]) if used else np.zeros(0)
        mon.count("shared in two frames", len(x) and np.any(np.isin(np.round(x[x > 360] - 360, 6), np.round(x[x < 40], 6))))
        mon.count("selected", len(hist))
        mon.count("one-position", len(np.unique(hist[:, 2])) > 1 and np.sum(hist[:, 2] == hist[0, 2]) == 1)
    for num, pos in used:
        if len(pos) == 0:
            continue
        if len(hist) == 0:
            mon.fail("hist-missing", f"{what}: no reference positions are saved")
        d = (np.abs((hist[:, None, 0] - pos[None, :, 0] + 180) % 360 - 180) < 1 / 60 + 1e-9) \
            & (np.abs(hist[:, None, 1] - pos[None, :, 1]) < 1 / 60 + 1e-9)
        mon.check(np.all(d.any(axis=0)), "hist-complete", f"{what}: a position used for profile {num} is not saved")


def do_map(mon, w, name):
    from pyowc.calibration import update_salinity_mapping
    mon.call(update_salinity_mapping, w.float_dir, w.cfg, name)
    mon.check(os.path.exists(w.mapped_path(name)), "file", "no mapped file was written")
    return w.read(w.mapped_path(name))


def run(case, rng, mon):
    from pyowc.core.finders import find_besthist
    fam = case["fam"]
    w, name, fl = build(os.path.join(mon.scratch, "a"), fam, rng, _S["topo"], _S["path"])
    if fam == "rotate":
        quantise(w, fl)
    if fam == "dry":
        dry(rng, w, fl, mon)
    w.write_climatology()
    w.write_float(name, fl)
    out = do_map(mon, w, name)
    what = fam

    def select(*a):
        return mon.call(find_besthist, *a)

    compared, blank, models = compare(mon, w, fl, name, out, select, what)
    lon = fl["LONG"][0]
    mon.count("seam", np.sum((lon > 339) | (lon < 21)))
    sides = {c["long"] % 360 < 180 for cs in w.casts.values() for c in cs}
    mon.count("across the meridian", fam.startswith("seam-") and len(sides) == 1 and compared and np.any((lon % 360 > 180) == sides.pop()))
    mon.count("real", compared * (fam == "real"))
    first = np.isfinite(fl["PRES"]).sum(0) == np.isfinite(fl["PRES"][0])
    mon.count("one level", sum(bool(a) and r.status == "mapped" for a, r in zip(first & np.isfinite(fl["PRES"][0]), models)))
    mon.seen(fam, fl["PRES"].shape, compared, w.cfg["MAP_USE_PV"], w.cfg["MAP_USE_SAF"], tuple(r.capped for r in models))
    if fam == "rotate":
        steps = int(rng.integers(1, 36)) if rng.random() < 0.5 else int(round((360 - lon[0]) / 10)) % 36
        # away from the date line, whose bathymetry is slow to read
        for _ in range(40):
            c = (lon + 10 * steps) % 360
            if steps % 36 and np.all((c < 150) | (c > 210)):
                break
            steps = int(rng.integers(1, 36))
        topo = np.roll(_S["topo"], 120 * steps, axis=1)
        path = os.path.join(mon.scratch, "tbase.int")
        world.write_topo(path, topo)
        w2, f2 = turned(w, os.path.join(mon.scratch, "b"), fl, steps, path, topo)
        w2.write_climatology()
        w2.write_float(name, f2)
        two = do_map(mon, w2, name)
        msg = f"after a turn by {10 * steps} degrees (float at {lon[0]:.2f})"
        for k in ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp", "la_profile_no") + SCALES:
            mon.same(two[k], out[k], "turn", f"{msg}: {k}", rtol=1e-6, atol=1e-9)
        a, b = np.asarray(out["selected_hist"], float), np.asarray(two["selected_hist"], float)
        mon.check(a.shape == b.shape, "turn-hist", f"{msg}: {a.shape[0]} reference positions, then {b.shape[0]}")
        if a.size:
            mon.same(b[:, 1:], a[:, 1:], "turn-hist", f"{msg}: reference latitudes and profiles", atol=1e-9)
            mon.same((b[:, 0] - a[:, 0] - 10 * steps + 180) % 360, np.full(len(a), 180.0), "turn-hist", f"{msg}: reference longitudes", atol=1e-9)
        mon.count("rotated")
    mon.sample = dict(profiles=int(fl["PRES"].shape[1]), levels=compared, blank=blank,
                      casts=[getattr(r, "hist", 0) for r in models], use_pv=w.cfg["MAP_USE_PV"], front=[r.front for r in models])
