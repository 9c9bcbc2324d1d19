"""Reference listing of a synthetic climatology (used by C03 and C04)."""
import copy
import os
import time

import numpy as np

from .. import refs, world


def wrap(lon):
    """0..360; values up to 40 a turn later if some lie at or beyond 320"""
    lon = np.asarray(lon, float)
    lon = np.where(lon < 0, lon + 360, lon)
    return np.where((lon <= 40) & np.any(lon >= 320), lon + 360, lon)


class Clim:
    """Files for a list of boxes. files[(k, typ)] = list of casts of row k of `boxes`"""

    def __init__(self, root, rng, nbox, names=("4901001",), sizes=(1, 12), straddle=False, nan_frac=0.0, hostile=False,
                 missing=0.1, blank=0.1, shallow=0.0, empty=0.0, nums=None):
        self.cfg = world.config(root)
        self.boxes = np.full((nbox, 4), np.nan)
        self.files = {}
        nums = rng.permutation(8000)[:nbox] + 1000 if nums is None else np.where(np.isnan(nums), np.arange(nbox) + 100, nums).astype(int)
        lon0 = (rng.integers(0, 36, nbox) * 10 if not straddle else rng.choice([320, 330, 340, 350, 0, 10, 20, 30], nbox)).astype(float)
        lat0 = rng.integers(-9, 9, nbox) * 10.0
        pre = ('HISTORICAL_CTD_PREFIX', 'HISTORICAL_BOTTLE_PREFIX', 'HISTORICAL_ARGO_PREFIX')
        for k in range(nbox):
            if rng.random() < blank and k:
                continue
            self.boxes[k, 0] = nums[k]
            for typ in range(3):
                flag = rng.random() < 0.75
                self.boxes[k, typ + 1] = flag
                if rng.random() < missing:
                    continue                                  # the file is not there, whatever the flag says
                n = 1 if rng.random() < 0.15 else int(rng.integers(sizes[0], sizes[1] + 1))
                casts = [self.cast(rng, lon0[k], lat0[k], typ, names, nan_frac, hostile) for _ in range(n)]
                if rng.random() < shallow:
                    for c in casts:                           # a file of casts with one level each
                        for v in ("pres", "ptmp", "sal"):
                            c[v] = c[v][:1]
                if rng.random() < empty:
                    casts = []
                world.write_casts(self.cfg['HISTORICAL_DIRECTORY'] + "/" + self.cfg[pre[typ]] + f"{int(nums[k])}.mat",
                                  casts, world.TYPES[typ])
                if flag:
                    self.files[k, typ] = casts

    @staticmethod
    def cast(rng, lon0, lat0, typ, names, nan_frac, hostile):
        m = int(rng.integers(2, 20))
        p = np.sort(rng.uniform(2, 2500, m)).round(1)
        th = 20 * np.exp(-p / 600) + rng.normal(0, 0.1, m)
        s = 34.5 + 0.05 * th + rng.normal(0, 0.01, m)
        if nan_frac and rng.random() < 0.6:
            for v in (p, th, s):
                v[rng.random(m) < nan_frac] = np.nan
        if rng.random() < 0.15:               # an up-cast, or bottles in the order they were written down
            o = np.arange(m)[::-1] if rng.random() < 0.6 else rng.permutation(m)
            p, th, s = p[o], th[o], s[o]
        if hostile:
            u = rng.random()
            if u < 0.15:
                (p, th, s)[int(rng.integers(3))][:] = np.nan                  # nothing usable
            elif u < 0.25:
                p += 6000                                                     # far too deep
            elif u < 0.35:
                k = int(rng.integers(0, m))
                p[:k], s[k:] = np.nan, np.nan                                 # nothing usable at any level
        num, prof = names[int(rng.integers(len(names)))], f"{int(rng.integers(1, 999)):03d}"
        # the labels of the reference data, and others that name the float as clearly
        src = (f"{num}_{prof}.ABC", f"{num}_{prof}.ABC", f"{num}_{prof}.ABC", f"D{num}_{prof}.nc", f"abc/{num}/profiles/R{num}_{prof}.nc",
               f"{num}")[int(rng.integers(6))] if typ == 2 else str(int(rng.integers(10 ** 7, 10 ** 8)))
        lon, lat = lon0 + rng.uniform(0, 9.99), lat0 + rng.uniform(0.01, 9.99)
        if rng.random() < 0.05:
            lon = lon0
        y, mo, d = int(rng.integers(1950, 2021)), int(rng.integers(1, 13)), int(rng.integers(1, 29))
        date = float(f"{y:04d}{mo:02d}{d:02d}{int(rng.integers(24)):02d}{int(rng.integers(60)):02d}{int(rng.integers(60)):02d}")
        return world.Cast(lat=float(lat), long=float(lon), date=date, pres=p, ptmp=th, sal=s, source=src)

    def enlarge(self, rng, n):
        """at least n casts of a few levels in each of up to three files, and one of thousands of levels"""
        pre = ('HISTORICAL_CTD_PREFIX', 'HISTORICAL_BOTTLE_PREFIX', 'HISTORICAL_ARGO_PREFIX')
        for u, (k, typ) in enumerate(list(self.files)[:3]):
            box, some = int(self.boxes[k, 0]), [c for c in self.files[k, typ]] or [self.cast(rng, 100.0, 10.0, typ, ["4900001"], 0, False)]
            casts = []
            for i in range(n):
                c = copy.copy(some[i % len(some)])
                p = np.array([5.0 + (i % 50), 80.0 + i / 20, 900.0 + i / 30])[:1 + i % 3]
                th = 20 * np.exp(-p / 600) + i * 1e-4
                c.update(lat=float(c["lat"] + 1e-4 * (i % 7)), date=float(19500101000000 + (i % 68) * 10 ** 10 + (i % 12) * 10 ** 8 + (i % 28) * 10 ** 6),
                         pres=p, ptmp=th, sal=34.5 + 0.05 * th)
                casts.append(c)
            if u == 1:
                p = np.linspace(1, 2000, 120)
                casts[-1].update(pres=p, ptmp=20 - p / 200, sal=35 - p / 2000)
            self.files[k, typ] = casts
            world.write_casts(self.cfg['HISTORICAL_DIRECTORY'] + "/" + self.cfg[pre[typ]] + f"{box}.mat", casts, world.TYPES[typ])

    def deliver(self, rng):
        """a new edition of some of the files; returns how many"""
        pre = ('HISTORICAL_CTD_PREFIX', 'HISTORICAL_BOTTLE_PREFIX', 'HISTORICAL_ARGO_PREFIX')
        time.sleep(0.03)                      # no two editions within the resolution of the file times
        done = 0
        for (k, typ), casts in list(self.files.items()):
            if rng.random() < 0.4 or not casts:
                continue
            path = self.cfg['HISTORICAL_DIRECTORY'] + "/" + self.cfg[pre[typ]] + f"{int(self.boxes[k, 0])}.mat"
            casts = [copy.deepcopy(c) for c in casts]
            u = rng.random()
            if u < 0.15:
                os.unlink(path)
                del self.files[k, typ]
                done += 1
                continue
            if u < 0.35 and len(casts) > 1:
                del casts[int(rng.integers(len(casts)))]
            elif u < 0.55:
                casts.append(copy.deepcopy(casts[int(rng.integers(len(casts)))]))
                casts[-1]["lat"] = float(np.clip(casts[-1]["lat"] + 0.005, -90, 90))
            for c in casts:                   # (otherwise the file is as long as it was)
                c["sal"] = c["sal"] + 0.01
            old = os.stat(path)
            new = path + ".new" if rng.random() < 0.5 else path
            world.write_casts(new, casts, world.TYPES[typ])
            if new != path:                   # put in its place, as old as it was where it comes from
                os.utime(new, ns=(old.st_atime_ns, old.st_mtime_ns))
                os.replace(new, path)
            self.files[k, typ] = casts
            done += 1
        return done

    def listing(self, name):
        """[(cast, type)] in box order, then CTD, bottle, Argo; without the float's own profiles"""
        out = []
        for k in range(len(self.boxes)):
            for typ in range(3):
                for c in self.files.get((k, typ), ()):
                    if typ == 2 and name in c["source"]:
                        continue
                    out.append((c, typ))
        return out


def expected_locations(lst):
    pos = np.array([world.stored_pos(c, world.TYPES[t]) for c, t in lst], float).reshape(-1, 2)
    return pos[:, 0], wrap(pos[:, 1]), np.array([refs.parse_date(c["date"]) for c, _ in lst])


def kept_levels(c, limit):
    """levels down to the limit, incomplete ones missing in all variables"""
    ok = ~np.isnan(c["pres"])
    with np.errstate(invalid="ignore"):
        ok &= ~(c["pres"] > limit)
    p, th, s = c["pres"][ok].copy(), c["ptmp"][ok].copy(), c["sal"][ok].copy()
    bad = np.isnan(p) | np.isnan(th) | np.isnan(s)
    for v in (p, th, s):
        v[bad] = np.nan
    return p, th, s


def check_locations(mon, got, lst, what):
    lat, lon, dates = (np.asarray(x, float).ravel() for x in got)
    wlat, wlon, wdat = expected_locations(lst)
    mon.check(len(lat) == len(lon) == len(dates) == len(lst), "listing-size",
              f"{what}: {len(lat)} casts listed, expected {len(lst)}")
    mon.same(lat, wlat, "listing-lat", what + " latitudes", rtol=1e-12)
    mon.same(lon, wlon, "listing-lon", what + " longitudes", rtol=1e-12)
    mon.same(dates, wdat, "listing-date", what + " dates", rtol=1e-12)


def check_data(mon, got, lst, index, limit, what):
    want = []
    for i in sorted(set(int(x) for x in index)):
        c, t = lst[i]
        lv = kept_levels(c, limit)
        if np.any(~np.isnan(lv[0])):
            want.append((c, t, lv))
    s, th, p = (np.asarray(got[k], float) for k in ("grid_sal", "grid_ptmp", "grid_pres"))
    lat, lon, dates = (np.asarray(got[k], float).ravel() for k in ("grid_lat", "grid_long", "grid_dates"))
    n = len(want)
    mon.check(s.ndim == 2 and s.shape == th.shape == p.shape and s.shape[1] == len(lat) == len(lon) == len(dates) == n,
              "data-size", f"{what}: shapes {s.shape}, {th.shape}, {p.shape}, {lat.shape}, {lon.shape}, {dates.shape}, expected {n} casts")
    wlat, wlon, wdat = expected_locations([(c, t) for c, t, _ in want])
    mon.same(lat, wlat, "data-lat", what + " latitudes", rtol=1e-12)
    # the extension past 360 may also be due to a selected cast that has then been dropped
    alt = expected_locations([lst[int(i)] for i in index])[1]
    if np.any(alt > 360) and not np.any(wlon > 360) and np.any(lon > 360):
        wlon = np.where(wlon <= 40, wlon + 360, wlon)
    mon.same(lon, wlon, "data-lon", what + " longitudes", rtol=1e-12)
    mon.same(dates, wdat, "data-date", what + " dates", rtol=1e-12)
    for j, (c, t, (wp, wt, ws)) in enumerate(want):
        for name, arr, w in (("pressure", p, wp), ("temperature", th, wt), ("salinity", s, ws)):
            mon.check(arr.shape[0] >= len(w), "data-levels", f"{what}: {arr.shape[0]} rows for a cast with {len(w)} levels")
            mon.same(arr[:len(w), j], w, "data-" + name, f"{what}: {name} of cast {j}", rtol=1e-12)
            mon.check(np.all(np.isnan(arr[len(w):, j])), "data-tail", f"{what}: {name} of cast {j} goes on after its last level")
    mon.count("casts-compared", n)
    mon.count("casts-dropped", len(set(map(int, index))) - n)
    return n
