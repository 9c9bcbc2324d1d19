"""Synthetic worlds: bathymetry, box table, climatology, float, configuration, in a scratch directory."""
import collections
import copy
import os

import numpy as np
from scipy.io import savemat, loadmat

from .refs import NLAT, NLON

TYPES = ("ctd", "bot", "argo")


# --------------------------------------------------------------------------- bathymetry

def make_topo(kind, seed=0):
    """(NLAT, NLON) int16"""
    rng = np.random.default_rng(seed)
    if kind == "random":
        return rng.integers(-9000, 5000, size=(NLAT, NLON), dtype=np.int16)
    lat = np.deg2rad(90 - np.arange(NLAT) / 12)[:, None]
    lon = np.deg2rad(np.arange(NLON) / 12)[None, :]
    z = -3600 + 700 * np.sin(3 * lat + 2 * np.cos(2 * lon)) + 500 * np.cos(9 * lon + 4 * lat)
    z = z + rng.integers(-350, 350, size=(NLAT, NLON))
    return z.astype(np.int16)


def write_topo(path, topo):
    topo.astype(np.int16).tofile(path)


# --------------------------------------------------------------------------- boxes

def box_table(rng=None, p_type=(1.0, 1.0, 1.0)):
    """648 x 4: unique box number and flags; row = lon_index * 18 + lat_index"""
    t = np.zeros((648, 4))
    for i in range(36):
        for j in range(18):
            t[i * 18 + j, 0] = 1000 + i * 100 + j
    for k in range(3):
        t[:, k + 1] = 1 if rng is None else (rng.random(648) < p_type[k])
    return t


def box_row(lon, lat):
    """row of the box that holds a position"""
    return int((lon % 360) // 10) * 18 + min(17, int((90 - lat) // 10))


# --------------------------------------------------------------------------- water

class Water:
    """A smooth stratified ocean with weak horizontal structure."""

    def __init__(self, rng, t_deep=None, t_surf=None, noise_s=0.004, noise_t=0.05):
        self.t_deep = rng.uniform(0.5, 3) if t_deep is None else t_deep
        self.t_surf = rng.uniform(10, 22) if t_surf is None else t_surf
        self.h = rng.uniform(350, 800)
        self.s0 = rng.uniform(34.3, 35.2)
        self.ds = rng.uniform(0.03, 0.09)
        self.ph = rng.uniform(0, 6, 4)
        self.noise_s, self.noise_t = noise_s, noise_t
        self.lon0 = 0.0

    def theta(self, p, lon, lat, t):
        x = np.deg2rad(lon - self.lon0)
        lift = 60 * np.sin(6 * x + self.ph[0]) + 40 * np.cos(np.deg2rad(lat) * 8 + self.ph[1])
        return self.t_deep + (self.t_surf - self.t_deep) * np.exp(-(p + lift) / self.h) - 0.0001 * p

    def sal(self, th, lon, lat, t):
        x = np.deg2rad(lon - self.lon0)
        return (self.s0 + self.ds * (th - self.t_deep) + 0.02 * np.sin(5 * x + self.ph[2])
                + 0.02 * np.cos(np.deg2rad(lat) * 7 + self.ph[3]) + 0.0005 * (t - 2000))

    def cast(self, rng, p, lon, lat, t, ns=None):
        """theta, sal at pressures p"""
        ns = self.noise_s if ns is None else ns
        th = self.theta(p, lon, lat, t) + self.noise_t * rng.standard_normal() * np.exp(-p / 500) \
            + 0.002 * rng.standard_normal(len(p))
        s = self.sal(th, lon, lat, t) + ns * rng.standard_normal() + 0.3 * ns * rng.standard_normal(len(p))
        return th, s


def in_situ(ptmp, pres):
    """cheap stand-in of the in-situ temperature (only the frontal filter looks at it)"""
    return ptmp + 0.0001 * pres


def to_date(decyear):
    """YYYYMMDDhhmmss of a decimal (365-day) year"""
    y = int(np.floor(decyear))
    doy = (decyear - y) * 365
    cum = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])
    m = int(np.searchsorted(cum, doy, side="right"))
    d = int(doy - cum[m - 1]) + 1
    h = int((doy % 1) * 24)
    mi = int(((doy * 24) % 1) * 60)
    return float(f"{y:04d}{m:02d}{d:02d}{h:02d}{mi:02d}00")


class Cast(dict):
    """lat, long, date (YYYYMMDDhhmmss), pres, ptmp, sal (1-d), source"""


def make_cast(rng, water, lon, lat, t, pmax=None, nlev=None, source="0000000_001.AAA"):
    pmax = rng.uniform(800, 2000) if pmax is None else pmax
    nlev = int(rng.integers(12, 40)) if nlev is None else nlev
    p = np.sort(rng.uniform(3, pmax, nlev))
    p = np.unique(np.round(p, 1))
    th, s = water.cast(rng, p, lon, lat, t)
    return Cast(lat=float(lat), long=float(lon), date=to_date(t), pres=p, ptmp=th, sal=s, source=source)


def write_casts(path, casts, typ="ctd"):
    n = len(casts)
    m = max([len(c["pres"]) for c in casts], default=0)
    arr = {k: np.full((m, n), np.nan) for k in ("pres", "ptmp", "sal", "temp")}
    for j, c in enumerate(casts):
        k = len(c["pres"])
        arr["pres"][:k, j] = c["pres"]
        arr["ptmp"][:k, j] = c["ptmp"]
        arr["sal"][:k, j] = c["sal"]
        arr["temp"][:k, j] = in_situ(c["ptmp"], c["pres"])
    f = np.float32 if typ == "bot" else np.float64
    src = np.empty((1, n), object)
    for j, c in enumerate(casts):
        src[0, j] = c["source"]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, {"lat": np.array([[c["lat"] for c in casts]], f),
                   "long": np.array([[c["long"] for c in casts]], f),
                   "dates": np.array([[c["date"] for c in casts]], float),
                   "source": src, "qclevel": np.zeros((1, n)), **arr})


def stored_pos(cast, typ):
    """position as the file stores it (bottle files hold single precision)"""
    if typ == "bot":
        return float(np.float32(cast["lat"])), float(np.float32(cast["long"]))
    return cast["lat"], cast["long"]


# --------------------------------------------------------------------------- the world

def config(root, **over):
    cfg = {
        'HISTORICAL_DIRECTORY': os.path.join(root, "climatology"),
        'HISTORICAL_CTD_PREFIX': "/historical_ctd/ctd_", 'HISTORICAL_BOTTLE_PREFIX': "/historical_bot/bot_",
        'HISTORICAL_ARGO_PREFIX': "/historical_argo/argo_",
        'FLOAT_SOURCE_DIRECTORY': os.path.join(root, "float_source"), 'FLOAT_SOURCE_POSTFIX': ".mat",
        'FLOAT_MAPPED_DIRECTORY': os.path.join(root, "float_mapped"), 'FLOAT_MAPPED_PREFIX': "map_",
        'FLOAT_MAPPED_POSTFIX': ".mat",
        'FLOAT_CALIB_DIRECTORY': os.path.join(root, "float_calib"), 'FLOAT_CALIB_PREFIX': "cal_",
        'FLOAT_CALSERIES_PREFIX': "calseries_", 'FLOAT_CALIB_POSTFIX': ".mat",
        'FLOAT_PLOTS_DIRECTORY': os.path.join(root, "float_plots"), 'FLOAT_PLOTS_FORMAT': "eps",
        'CONFIG_DIRECTORY': os.path.join(root, "constants"), 'CONFIG_COASTLINES': "coastdat.mat",
        'CONFIG_WMO_BOXES': "wmo_boxes.mat", 'CONFIG_SAF': "TypicalProfileAroundSAF.mat",
        'CONFIG_MAX_CASTS': 300, 'MAP_USE_PV': 0, 'MAP_USE_SAF': 0,
        'MAPSCALE_LONGITUDE_LARGE': 8, 'MAPSCALE_LONGITUDE_SMALL': 4,
        'MAPSCALE_LATITUDE_LARGE': 4, 'MAPSCALE_LATITUDE_SMALL': 2,
        'MAPSCALE_PHI_LARGE': 0.1, 'MAPSCALE_PHI_SMALL': 0.02,
        'MAPSCALE_AGE_LARGE': 20, 'MAPSCALE_AGE_SMALL': 10,
        'MAP_P_EXCLUDE': 100, 'MAP_P_DELTA': 250, 'THETA_BOUNDS': [[0, 5], [5, 20]],
    }
    cfg.update(over)
    return collections.OrderedDict(sorted(cfg.items()))


class World:
    """Directory tree of one synthetic world."""

    def __init__(self, root, topo_path=None, topo=None, table=None, float_dir="/", **over):
        self.root = root
        self.cfg = config(root, **over)
        self.float_dir = float_dir
        self.topo = topo
        self.table = box_table() if table is None else table
        self.casts = {}            # (row, type index 0..2) -> list of Cast
        sub = float_dir.strip("/")
        for d in ("climatology/historical_ctd", "climatology/historical_bot", "climatology/historical_argo",
                  "constants", "float_plots"):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for d in ("float_source", "float_mapped", "float_calib"):
            os.makedirs(os.path.join(root, d, sub), exist_ok=True)
        savemat(os.path.join(root, "constants", "wmo_boxes.mat"), {"la_wmo_boxes": self.table})
        if topo_path:
            os.link(topo_path, os.path.join(root, "constants", "tbase.int"))

    # -- climatology
    def add(self, typ, cast):
        row = box_row(cast["long"], cast["lat"])
        self.casts.setdefault((row, typ), []).append(cast)

    def write_climatology(self):
        pre = ('HISTORICAL_CTD_PREFIX', 'HISTORICAL_BOTTLE_PREFIX', 'HISTORICAL_ARGO_PREFIX')
        for (row, typ), casts in self.casts.items():
            path = (self.cfg['HISTORICAL_DIRECTORY'] + "/" + self.cfg[pre[typ]]
                    + str(int(self.table[row, 0])) + ".mat")
            write_casts(path, casts, TYPES[typ])

    # -- paths
    def _p(self, d, name):
        return os.path.join(self.cfg[d], self.float_dir.strip("/"), name)

    def source_path(self, name):
        return self._p('FLOAT_SOURCE_DIRECTORY', name + self.cfg['FLOAT_SOURCE_POSTFIX'])

    def mapped_path(self, name):
        return self._p('FLOAT_MAPPED_DIRECTORY', self.cfg['FLOAT_MAPPED_PREFIX'] + name
                       + self.cfg['FLOAT_MAPPED_POSTFIX'])

    def series_path(self, name):
        return self._p('FLOAT_CALIB_DIRECTORY', self.cfg['FLOAT_CALSERIES_PREFIX'] + name
                       + self.cfg['FLOAT_CALIB_POSTFIX'])

    def calib_path(self, name):
        return self._p('FLOAT_CALIB_DIRECTORY', self.cfg['FLOAT_CALIB_PREFIX'] + name
                       + self.cfg['FLOAT_CALIB_POSTFIX'])

    def write_float(self, name, fl):
        savemat(self.source_path(name), fl)

    def read(self, path):
        return loadmat(path)


def subset_float(fl, cols, levels=None):
    """the source file with some of the profiles"""
    res = {}
    for k, v in fl.items():
        if k.startswith("_"):
            continue
        res[k] = v[:levels, cols] if v.shape[0] > 1 else v[:, cols]
    return res


def make_float(rng, water, lon, lat, date, nlev=40, pmax=1900, drift=None, numbers=None, dtype=None, gaps=True):
    """lon/lat/date: arrays per profile. drift: multiplicative conductivity factor per profile."""
    import gsw
    n = len(lon)
    pres = np.full((nlev, n), np.nan)
    ptmp = np.full((nlev, n), np.nan)
    sal = np.full((nlev, n), np.nan)
    for j in range(n):
        k = nlev if not gaps or rng.random() < 0.6 else int(rng.integers(max(6, nlev // 2), nlev + 1))
        p = np.unique(np.round(np.linspace(5, pmax, k) + rng.uniform(-4, 4, k), 1))
        th, s = water.cast(rng, p, lon[j], lat[j], date[j], ns=0.001)
        if drift is not None:
            s = gsw.SP_from_C(gsw.C_from_SP(s, th, 0) * drift[j], th, 0)
        pres[:len(p), j], ptmp[:len(p), j], sal[:len(p), j] = p, th, s
        if gaps and rng.random() < 0.3:
            bad = rng.integers(0, len(p), size=int(rng.integers(1, 4)))
            which = rng.integers(0, 3)
            sal[bad, j] = np.nan
            if which:
                ptmp[bad, j] = np.nan
            if which == 2:
                pres[bad, j] = np.nan
    num = np.arange(1, n + 1) if numbers is None else np.asarray(numbers)
    if dtype is not None:
        num = num.astype(dtype)
    return {"PROFILE_NO": num.reshape(1, -1), "LAT": np.array([lat], float), "LONG": np.array([lon], float),
            "DATES": np.array([date], float), "PRES": pres, "PTMP": ptmp, "SAL": sal, "TEMP": in_situ(ptmp, pres)}


def track(rng, n, lon0, lat0, step=0.25, t0=2004.0, dt=10 / 365):
    lon = (lon0 + np.cumsum(rng.normal(0, step, n))) % 360
    lat = np.clip(lat0 + np.cumsum(rng.normal(0, step * 0.6, n)), -85, 85)
    return lon, lat, t0 + dt * np.arange(n)


def surround(rng, world, water, lon0, lat0, n, spread=(8, 5), t=(1990, 2010), pmax=None, nlev=None,
             own=None, own_frac=0.1, p_type=(0.3, 0.2, 0.5), other="4901001"):
    """n casts scattered around a place"""
    for _ in range(n):
        lon = (lon0 + rng.normal(0, spread[0])) % 360
        lat = float(np.clip(lat0 + rng.normal(0, spread[1]), -89, 89))
        typ = int(rng.choice(3, p=p_type))
        if typ == 1:
            # the box must be that of the position as the (single precision) file stores it
            lat, lon = float(np.float32(lat)), float(np.float32(lon))
            if lon >= 360:
                lon = 0.0
        src = f"{other}_{int(rng.integers(1, 999)):03d}.ABC"
        if typ == 2 and own and rng.random() < own_frac:
            src = f"{own}_{int(rng.integers(1, 999)):03d}.ABC"
        world.add(typ, make_cast(rng, water, lon, lat, rng.uniform(*t), pmax=pmax, nlev=nlev, source=src))


def tree_state(root):
    """relative path -> content hash (links to the shared bathymetry by size and mtime only)"""
    import hashlib
    res = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            st = os.stat(p)
            if f == "tbase.int":
                res[os.path.relpath(p, root)] = (st.st_size, st.st_mtime_ns)
            else:
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, root)] = hashlib.sha1(fh.read()).hexdigest()
    return res


def mat_equal(a, b, rtol=0.0, atol=0.0, skip=()):
    """None, or the name of the first variable that differs between two .mat dictionaries"""
    ka = {k for k in a if not k.startswith("__")} - set(skip)
    kb = {k for k in b if not k.startswith("__")} - set(skip)
    if ka != kb:
        return f"variables {sorted(ka ^ kb)}"
    for k in sorted(ka):
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return f"{k} (shape {x.shape} / {y.shape})"
        if x.dtype == object or x.dtype.kind in "US":
            if not np.array_equal(x, y):
                return k
            continue
        x, y = x.astype(float), y.astype(float)
        with np.errstate(all="ignore"):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= atol + rtol * np.abs(y))
        if not np.all(ok):
            return f"{k} ({int(np.sum(~ok))} of {x.size} values)"
    return None


clone = copy.deepcopy
