"""Reference model of the mapping of one float: written from the documented procedure, on numpy only.

The capped selection of casts (pseudo-random by design) is taken from the code under test, whose rule is
decided by C07; everything else is computed here. What cannot be decided within rounding (a cast on the rim of
the ellipse, an interpolated pressure on the edge of the window, a datum at three sigma, an ill-conditioned
covariance) is reported as undecided and not compared."""
import numpy as np

from . import refs, world

TINY = 1e-9


def listing(w, lon, lat, name):
    """casts in the 25 boxes around a position: box order, then CTD, bottle, Argo"""
    out = []
    for cand in refs.box_candidates(lon, lat, eps=0.01):
        # .01 north-east of the position, as the procedure has it
        pass
    rows = []
    for dy in refs.BOX_OFFSETS:
        for dx in refs.BOX_OFFSETS:
            y = lat + dy + 0.01
            if abs(lat + dy) >= 90 or abs(y) >= 90:
                continue
            rows.append(world.box_row((lon + dx + 0.01) % 360, y))
    for r in rows:
        for typ in range(3):
            if w.table[r, typ + 1] != 1:
                continue
            for c in w.casts.get((r, typ), ()):
                if typ == 2 and name in c["source"]:
                    continue
                out.append((c, typ))
    return out


def near_box_edge(lon, lat):
    return any(abs(v / 10 - round(v / 10)) < 0.0025 for v in (lon, lat)) or abs(lat) > 89.9


def wrap(lon):
    lon = np.asarray(lon, float)
    lon = np.where(lon < 0, lon + 360, lon)
    return np.where((lon <= 40) & np.any(lon >= 320), lon + 360, lon)


def cast_sides(p, t):
    """possible sides of a cast (see C11)"""
    res = set()
    ok = ~(np.isnan(p) | np.isnan(t))
    for cut in (len(p), len(p) - 1):
        k = ok.copy()
        k[cut:] = False
        q, u = p[k], t[k]
        if len(q) < 3 or not q.min() < 300 < q.max():
            res.add(0)
            continue
        v = np.interp(300, q, u)
        for e in (-1e-6, 1e-6):
            res.add(1 if v + e > 5 else -1 if v + e < 3 else 0)
    return res


class Profile:
    """what the model says about one profile"""
    status = "mapped"       # or blank (nothing may be mapped), undecided
    why = ""


def map_profile(w, fl, j, name, cfg, select, saf=None):
    """select(args) -> indices, for the capped case"""
    r = Profile()
    m = fl["PRES"].shape[0]
    r.sal, r.err, r.sig, r.noi, r.ptmp = (np.full(m, np.nan) for _ in range(5))
    r.maybe = np.zeros(m, bool)           # levels not decided
    r.cond = np.zeros(m)
    r.amp = np.ones(m)
    r.used = []                           # positions used, in order
    r.counts = np.zeros(m, int)
    r.outliers = r.one_place = 0
    r.capped = False
    r.front = None
    lon, lat, date = (float(fl[k][0, j]) for k in ("LONG", "LAT", "DATES"))
    pres, sal, th, tmp = (np.asarray(fl[k], float)[:, j] for k in ("PRES", "SAL", "PTMP", "TEMP"))
    if np.isnan(lon) or np.isnan(lat) or np.all(np.isnan(pres)):
        r.status, r.why = "blank", "no position or pressure"
        return r
    if near_box_edge(lon, lat):
        r.status, r.why = "undecided", "box edge"
        return r
    z0 = -float(refs.elev_at(w.topo, lon, lat))
    lst = listing(w, lon, lat, name)
    if not lst:
        r.status, r.why = "undecided", "no data in the boxes"
        return r
    pos = np.array([world.stored_pos(c, world.TYPES[t]) for c, t in lst], float)
    glat, glon = pos[:, 0], wrap(pos[:, 1])
    gdat = np.array([refs.parse_date(c["date"]) for c, _ in lst])
    gz = -refs.elev_at(w.topo, glon, glat)
    pv = cfg["MAP_USE_PV"]
    ll, ls = cfg["MAPSCALE_LONGITUDE_LARGE"], cfg["MAPSCALE_LONGITUDE_SMALL"]
    al, as_ = cfg["MAPSCALE_LATITUDE_LARGE"], cfg["MAPSCALE_LATITUDE_SMALL"]

    def turn(x, ref):
        return x + 360 * np.round((ref - x) / 360)
    flon = turn(lon, np.median(glon))
    dl = np.abs(glon - flon)
    if np.any(dl > 180):
        r.status, r.why = "undecided", "region wider than half the globe"
        return r
    e = refs.ellipse_measure(glon - flon, glat - lat, ll, al,
                             refs.pv_term(refs.pot_vort(glat, gz), refs.pot_vort(lat, z0), cfg["MAPSCALE_PHI_LARGE"]) if pv else 0.0)
    if np.any(np.abs(e - 1) < TINY):
        r.status, r.why = "undecided", "rim of the ellipse"
        return r
    inside = np.flatnonzero(e < 1)
    r.inside = len(inside)
    if not len(inside):
        r.status, r.why = "blank", "no data in the ellipse"
        return r
    if len(inside) > cfg["CONFIG_MAX_CASTS"]:
        r.capped = True
        inside = np.sort(np.asarray(select(
            glat, glon, gdat, gz, lat, flon, date, z0, al, as_, ll, ls, cfg["MAPSCALE_PHI_LARGE"], cfg["MAPSCALE_PHI_SMALL"],
            cfg["MAPSCALE_AGE_LARGE"], cfg["MAPSCALE_AGE_SMALL"], pv, cfg["CONFIG_MAX_CASTS"])).astype(int))
    # the data, down to the deepest float pressure and the margin
    limit = np.nanmax(pres) + cfg["MAP_P_DELTA"]
    data = []
    for i in inside:
        c = lst[i][0]
        k = ~(c["pres"] > limit)
        p, t, s = c["pres"][k], c["ptmp"][k], c["sal"][k]
        ok = ~(np.isnan(p) | np.isnan(t) | np.isnan(s))
        if ok.any():
            p, t, s = (np.where(ok, v, np.nan) for v in (p, t, s))
            data.append((i, p, t, s))
    if not data:
        r.status, r.why = "undecided", "no usable cast"
        return r
    sel = np.array([d[0] for d in data])
    hlon, hlat, hdat = wrap(pos[sel, 1]), glat[sel], gdat[sel]
    hz = gz[sel]
    flon = turn(lon, np.median(hlon))
    L = max(len(d[1]) for d in data)
    gp, gt, gs = (np.full((L, len(data)), np.nan) for _ in range(3))
    for n, (_, p, t, s) in enumerate(data):
        gp[:len(p), n], gt[:len(p), n], gs[:len(p), n] = p, t, s
    if cfg["MAP_USE_SAF"] == 1 and lat < -30:
        ok = ~(np.isnan(pres) | np.isnan(tmp))
        side = refs.side_of_300(pres, tmp)
        if side is not None:
            t300 = np.interp(300, pres[ok], tmp[ok])
            if min(abs(t300 - 5), abs(t300 - 3)) < 1e-6 or np.any(np.diff(pres[ok]) <= 0):
                r.status, r.why = "undecided", "float side"
                return r
            if side == 0:
                side = refs.envelope_side(pres, tmp, sal, saf)
        if side:
            tt = refs.insitu_temperature(gs, gt, gp, hlon, hlat)
            cl = [cast_sides(gp[:, n], tt[:, n]) for n in range(len(data))]
            if any(len(x) > 1 and side in x for x in cl):
                r.status, r.why = "undecided", "cast side"
                return r
            keep = np.array([side in x for x in cl])
            r.front = (side, int(keep.sum()), len(keep))
            if keep.sum() > 5:
                gp, gt, gs = gp[:, keep], gt[:, keep], gs[:, keep]
                hlon, hlat, hdat, hz = hlon[keep], hlat[keep], hdat[keep], hz[keep]
    r.hist = len(hlon)
    isal, ipres, amb = refs.interp_to_theta(gs, gt, gp, sal, th, pres)
    target = np.array([[lat, flon, date, z0]])
    for k in range(m):
        if np.isnan(sal[k]) or not pres[k] >= cfg["MAP_P_EXCLUDE"]:
            continue
        if amb[k].any():
            r.maybe[k] = True
            continue
        with np.errstate(invalid="ignore"):
            d = np.abs(ipres[k] - pres[k])
            use = ~np.isnan(isal[k]) & (d < cfg["MAP_P_DELTA"])
        if np.any(np.abs(d[~np.isnan(d)] - cfg["MAP_P_DELTA"]) < 1e-7):
            r.maybe[k] = True
            continue
        if use.sum() <= 5:
            r.counts[k] = use.sum()
            continue
        s = isal[k][use]
        sd = np.sqrt(refs.signal_var(s))
        if sd < 1e-7:
            r.maybe[k] = True
            continue
        dev = np.abs(s - s.mean()) / sd
        if np.any(np.abs(dev - 3) < 1e-7):
            r.maybe[k] = True
            continue
        keep = np.flatnonzero(use)[dev <= 3]
        r.outliers += int(np.sum(dev > 3))
        s = isal[k][keep]
        r.counts[k] = len(s)
        noi, tie = refs.noise_var(s, hlat[keep], hlon[keep])
        if noi == 0 and not tie:
            r.one_place += 1
            continue
        sig = refs.signal_var(s)
        X = np.column_stack([hlat[keep], hlon[keep], hdat[keep], hz[keep]])
        r.used.append((k, np.column_stack([hlon[keep], hlat[keep]])))
        if tie:
            r.maybe[k] = True
            continue
        r.sig[k], r.noi[k], r.ptmp[k] = sig, noi, th[k]
        try:
            a = refs.kriging(s, target, X, al, ll, cfg["MAPSCALE_AGE_LARGE"], sig, noi, cfg["MAPSCALE_PHI_LARGE"], pv)
            res = s - a[2]
            sig2 = refs.signal_var(res)
            b = refs.kriging(res, target, X, as_, ls, cfg["MAPSCALE_AGE_SMALL"], sig2, noi, cfg["MAPSCALE_PHI_SMALL"], pv)
        except np.linalg.LinAlgError:
            r.maybe[k] = True
            continue
        r.sal[k] = a[0][0] + b[0][0]
        r.err[k] = np.sqrt(a[1][0] + b[1][0])
        r.cond[k] = max(a[4], b[4])
        r.amp[k] = np.ptp(s)
        if not r.cond[k] < 1e7:
            r.maybe[k] = True
    if not r.used:
        r.why = "too few points at every level"
        r.status = "blank" if not r.maybe.any() else "undecided"
    return r
