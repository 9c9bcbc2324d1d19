"""Reference models, written from the documentation and not from the code.

All of them work on plain numpy arrays; none imports the package under test.
"""
import numpy as np

NLAT, NLON = 2160, 4320
OMEGA2 = 2 * 7.292 * 10 ** -5

# --------------------------------------------------------------------------- bathymetry


def node_elev(topo, ilon, ilat):
    """Stored elevation of the node at longitude ilon/12, latitude ilat/12."""
    return topo[90 * 12 - np.asarray(ilat), np.mod(ilon, NLON)]


def elev_at(topo, lon, lat):
    """Bilinear interpolation of the global grid."""
    lon = np.asarray(lon, dtype=float)
    lat = np.asarray(lat, dtype=float)
    x, y = lon * 12, lat * 12
    i0, j0 = np.floor(x).astype(int), np.floor(y).astype(int)
    fx, fy = x - i0, y - j0
    res = 0.0
    for di in (0, 1):
        for dj in (0, 1):
            w = (fx if di else 1 - fx) * (fy if dj else 1 - fy)
            res = res + w * node_elev(topo, i0 + di, np.clip(j0 + dj, -1079, 1080)).astype(float)
    return res


# --------------------------------------------------------------------------- boxes

BOX_OFFSETS = (0, 10, -10, 20, -20)


def box_candidates(lon, lat, eps=0.02):
    """For each of the 25 rows the set of admissible table rows (0-based); None = blank."""
    out = []
    for dy in BOX_OFFSETS:
        for dx in BOX_OFFSETS:
            cand = set()
            for ey in (-eps, 0, eps):
                for ex in (-eps, 0, eps):
                    y = lat + dy + ey
                    if abs(y) >= 90:
                        if dy == 0:
                            y = np.clip(y, -89.99, 89.99)
                        else:
                            cand.add(None)
                            continue
                    x = (lon + dx + ex) % 360
                    cand.add(int(x // 10) % 36 * 18 + int((90 - y) // 10) % 18)
            out.append(cand)
    return out


# --------------------------------------------------------------------------- dates

CUM = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])


def decimal_year(y, m, d, hh=0, mm=0):
    return y + (CUM[m - 1] + d - 1 + hh / 24 + mm / 1440) / 365


def parse_date(value):
    """YYYYMMDD[hh[mm[ss]]] held in a number"""
    s = str(int(value))
    y, m, d = int(s[:4]), int(s[4:6]), int(s[6:8])
    hh = int(s[8:10]) if len(s) >= 10 else 0
    mm = int(s[10:12]) if len(s) >= 12 else 0
    return decimal_year(y, m, d, hh, mm)


# --------------------------------------------------------------------------- measures


def pot_vort(lat, z):
    lat, z = np.broadcast_arrays(np.asarray(lat, float), np.asarray(z, float))
    pv = OMEGA2 * np.sin(np.deg2rad(lat)) / z
    return np.where(pv == 0, 1e-5, pv)


def pv_term(pv1, pv2, phi):
    """squared scaled relative difference; not applied where either is zero (= not given)"""
    pv1, pv2 = np.broadcast_arrays(np.asarray(pv1, float), np.asarray(pv2, float))
    with np.errstate(all="ignore"):
        t = (pv1 - pv2) ** 2 / (pv1 ** 2 + pv2 ** 2) / phi ** 2
    return np.where((pv1 == 0) | (pv2 == 0), 0.0, t)


def ellipse_measure(dlon, dlat, slon, slat, pvt):
    return np.sqrt((dlon / (3 * slon)) ** 2 + (dlat / (3 * slat)) ** 2 + pvt)


def corr_distance(dlon, dlat, dt, slon, slat, sage, pvt):
    return (dlon / slon) ** 2 + (dlat / slat) ** 2 + (dt / sage) ** 2 + pvt


# --------------------------------------------------------------------------- objective mapping


def covariance(p1, p2, slat, slon, sage, phi, use_pv):
    """p: columns latitude, longitude, date, depth"""
    d = lambda k: p1[:, None, k] - p2[None, :, k]  # noqa
    q = (d(0) / slat) ** 2 + (d(1) / slon) ** 2
    if sage:
        q = q + (d(2) / sage) ** 2
    if use_pv:
        v1, v2 = pot_vort(p1[:, 0], p1[:, 3]), pot_vort(p2[:, 0], p2[:, 3])
        q = q + (v1[:, None] - v2[None, :]) ** 2 / (v1[:, None] ** 2 + v2[None, :] ** 2) / phi ** 2
    return np.exp(-q)


def kriging(y, target, data, slat, slon, sage, sig, noise, phi, use_pv):
    """GLS mean plus optimal interpolation at the target and at the data; error standard deviations"""
    K = sig * covariance(data, data, slat, slon, sage, phi, use_pv)
    k = sig * covariance(target, data, slat, slon, sage, phi, use_pv)
    A = K + noise * np.eye(len(y))
    one = np.ones(len(y))
    Ai1 = np.linalg.solve(A, one)
    s = one @ Ai1
    mean = (Ai1 @ y) / s
    w = np.linalg.solve(A, y - mean)

    def est(c):
        z = np.linalg.solve(A, c.T)
        var = sig - np.sum(c.T * z, axis=0) + (1 - c @ Ai1) ** 2 / s
        return mean + c @ w, var

    m, v = est(k)
    md, vd = est(K)
    return m, v, md, vd, np.linalg.cond(A)


# --------------------------------------------------------------------------- interpolation to theta


def crossings(gs, gt, gp, t):
    """All (salinity, pressure) where one cast crosses potential temperature t."""
    ok = np.isfinite(gs) & np.isfinite(gt) & np.isfinite(gp)
    s, th, p = gs[ok].astype(float), gt[ok].astype(float), gp[ok].astype(float)
    res = []
    for a in range(len(s) - 1):
        lo, hi = th[a], th[a + 1]
        if lo == hi:
            continue
        if min(lo, hi) <= t <= max(lo, hi):
            w = (t - lo) / (hi - lo)
            res.append((s[a] + w * (s[a + 1] - s[a]), p[a] + w * (p[a + 1] - p[a])))
    return res


def interp_to_theta(gs, gt, gp, fs, ft, fp):
    """(sal, pres, ambiguous) on float levels x casts"""
    n, m = len(fs), gs.shape[1]
    sal = np.full((n, m), np.nan)
    pres = np.full((n, m), np.nan)
    amb = np.zeros((n, m), bool)
    for c in range(m):
        ok = np.isfinite(gs[:, c]) & np.isfinite(gt[:, c]) & np.isfinite(gp[:, c])
        s, th, p = (x[ok, c].astype(float) for x in (gs, gt, gp))
        if len(s) < 2:
            continue
        lo, hi = th[:-1], th[1:]
        mn, mx = np.minimum(lo, hi), np.maximum(lo, hi)
        for i in range(n):
            if not (np.isfinite(fs[i]) and np.isfinite(ft[i]) and np.isfinite(fp[i])):
                continue
            k = np.nonzero((mn <= ft[i]) & (ft[i] <= mx) & (mn < mx))[0]
            if k.size == 0:
                continue
            w = (ft[i] - lo[k]) / (hi[k] - lo[k])
            pp = p[k] + w * (p[k + 1] - p[k])
            ss = s[k] + w * (s[k + 1] - s[k])
            dist = np.abs(pp - fp[i])
            j = int(np.argmin(dist))
            sal[i, c], pres[i, c] = ss[j], pp[j]
            close = dist <= dist[j] + 1e-7
            amb[i, c] = np.ptp(ss[close]) > 1e-9 or np.ptp(pp[close]) > 1e-6
    return sal, pres, amb


# --------------------------------------------------------------------------- variances


def signal_var(s):
    s = np.asarray(s, float)
    s = s[~np.isnan(s)]
    return np.mean((s - s.mean()) ** 2)


def noise_var(s, lat, lon):
    """(value, ambiguous)"""
    d = (lat[:, None] - lat[None, :]) ** 2 + (lon[:, None] - lon[None, :]) ** 2
    if np.all(d == 0):
        return 0.0, False
    d = np.where(d == 0, np.inf, d)
    j = np.argmin(d, axis=1)
    mn = d[np.arange(len(s)), j]
    tie = (d <= mn[:, None] * (1 + 1e-9)) & (d != mn[:, None])
    return np.nanmean((s - s[j]) ** 2) / 2, bool(np.any(tie))


# --------------------------------------------------------------------------- frontal filter


def insitu_temperature(sal, ptmp, pres, lon, lat):
    import gsw
    sa = gsw.SA_from_SP(sal, pres, lon, lat)
    return gsw.t_from_CT(sa, gsw.CT_from_pt(sa, ptmp), pres)


def side_of_300(pres, temp):
    """+1 north, -1 south, 0 between; None if 300 dbar is not reached"""
    ok = ~(np.isnan(pres) | np.isnan(temp))
    p, t = pres[ok], temp[ok]
    if len(p) < 3 or not p.min() < 300 < p.max():
        return None
    t300 = np.interp(300, p, t)
    return 1 if t300 > 5 else -1 if t300 < 3 else 0


def envelope_side(pres, temp, sal, saf):
    """the float's side by the envelopes of typical profiles"""
    ok = ~(np.isnan(pres) | np.isnan(temp))
    p, t, s = pres[ok], temp[ok], sal[ok]
    g = {k: np.asarray(v, float).ravel()[2:] for k, v in saf.items() if not k.startswith("_")}
    z = g["Deph"]
    s_i = np.interp(z, p, s, left=np.nan, right=np.nan)
    t_i = np.interp(z, p, t, left=np.nan, right=np.nan)

    def rev(x, xp, fp):
        return np.interp(x, xp[::-1], fp[::-1], left=np.nan, right=np.nan)

    n_lo = rev(t_i, g["T_meanN"] - g["T_stdN"], g["S_meanN"] - g["S_stdN"])
    n_hi = rev(t_i, g["T_meanN"] + g["T_stdN"], g["S_meanN"] + g["S_stdN"])
    s_lo = np.interp(s_i, g["S_meanS"] - g["S_stdS"], g["T_meanS"] - g["T_stdS"], left=np.nan, right=np.nan)
    s_hi = np.interp(s_i, g["S_meanS"] + g["S_stdS"], g["T_meanS"] + g["T_stdS"], left=np.nan, right=np.nan)
    use = (z > 150) & (z < 1700) & ~np.isnan(s_i + n_lo + n_hi + s_lo + s_hi)
    if not use.any():
        return 0
    south = np.all((t_i[use] > s_lo[use]) & (t_i[use] < s_hi[use]))
    north = np.all((s_i[use] > n_lo[use]) & (s_i[use] < n_hi[use]))
    return 0 if south == north else (1 if north else -1)


# --------------------------------------------------------------------------- theta levels


def masked_series(sal, ptmp, pres, mapped, theta_lt, theta_gt, pres_lt, pres_gt):
    """The usable part of the series under the operator's bounds (None = not given)."""
    sal, ptmp, pres = (np.array(x, float) for x in (sal, ptmp, pres))

    def blank(m):
        for x in (sal, ptmp, pres):
            x[m] = np.nan

    blank(np.isnan(mapped))
    with np.errstate(invalid="ignore"):
        for which, lt, gt in ((1, theta_lt, theta_gt), (2, pres_lt, pres_gt)):
            v = ptmp if which == 1 else pres
            if lt is not None and gt is None:
                blank(v > lt)
            elif lt is None and gt is not None:
                blank(v < gt)
            elif lt is not None and gt is not None:
                blank((v > lt) & (v < gt) if lt < gt else (v > lt) | (v < gt))
    return sal, ptmp, pres


def level_value(x, y, k, t):
    """y at potential temperature t around the nearest level k: linear towards the neighbour (k-1 or k+1)
    on the other side of t that is nearest in temperature; the level's own y otherwise"""
    if x[k] == t:
        return y[k]
    side = 1 if x[k] > t else -1
    best = None
    for j in (k - 1, k + 1):
        if 0 <= j < len(x) and not np.isnan(x[j]):
            d = side * (x[k] - x[j])
            if d > 0 and (best is None or d < best[0]):
                best = (d, j)
    if best is None:
        return y[k]
    j = best[1]
    if np.isnan(y[k]) or np.isnan(y[j]):
        return y[k]
    lo, hi = min(x[k], x[j]), max(x[k], x[j])
    if not lo <= t <= hi:
        raise OutOfReach()
    return y[k] + (t - x[k]) / (x[j] - x[k]) * (y[j] - y[k])


class OutOfReach(Exception):
    """the neighbour does not reach the theta level"""


def ten_thetas(sal, ptmp, pres, percent, levels=10):
    """Candidates and selection on an already masked series.

    Returns dict(theta, plev, index, var, cand_theta, cand_p) or None if there is no range."""
    m, n = ptmp.shape
    if np.all(np.isnan(ptmp)):
        return None
    lo, hi = np.ceil(np.nanmin(ptmp) * 10) / 10, np.floor(np.nanmax(ptmp) * 10) / 10
    if not lo < hi or np.all(np.isnan(pres)):
        return None
    p0, p1 = np.nanmin(pres), np.nanmax(pres)
    grid = np.arange(p0, p1, 50)
    if len(grid) < levels:
        step = np.floor((p1 - p0) / levels)
        if step == 0:
            return None
        grid = np.arange(p0, p1, step)
    t = np.full((len(grid), n), np.nan)
    for j in range(n):
        ok = ~(np.isnan(pres[:, j]) | np.isnan(ptmp[:, j]))
        p = pres[ok, j]
        if len(p) < 2:
            continue
        o = np.argsort(p, kind="stable")
        inside = (grid > p.min()) & (grid < p.max())
        t[inside, j] = np.interp(grid[inside], p[o], ptmp[ok, j][o])
    with np.errstate(all="ignore"):
        cand = np.array([np.nanmean(r) if np.any(~np.isnan(r)) else np.nan for r in t])
    idx = np.full((len(grid), n), np.nan)
    on = np.full((len(grid), n), np.nan)
    for j in range(n):
        if np.all(np.isnan(ptmp[:, j])):
            continue
        a, b = np.nanmin(ptmp[:, j]), np.nanmax(ptmp[:, j])
        for i, th in enumerate(cand):
            if a < th < b:
                k = int(np.nanargmin(np.abs(ptmp[:, j] - th)))
                idx[i, j] = k
                on[i, j] = level_value(ptmp[:, j], sal[:, j], k, th)
    num = np.sum(~np.isnan(on), axis=1)
    var = np.array([np.var(r[~np.isnan(r)], ddof=1) if np.sum(~np.isnan(r)) > 1 else np.nan for r in on])
    frac = num / num.max() if num.max() else np.full(len(num), np.nan)
    var = np.where(frac < percent, np.nan, var)
    order = [i for i in np.argsort(np.where(np.isnan(var), np.inf, var), kind="stable") if not np.isnan(var[i])]
    return dict(var=var, cand_theta=cand, cand_p=grid, idx=idx, on=on, frac=frac, order=order[:levels],
                all_order=order)


# --------------------------------------------------------------------------- covariances between float levels

BOUND = np.array([30, 24, 18, 12, 8, 4, 2.5, 1, -2])
DOWN = np.array([6, 6, 6, 4, 4, 1.5, 1.5, 1, 1])
UP = np.array([6, 6, 6, 6, 4, 4, 1.5, 1.5, 1])


def vertical_tile(t):
    """correlation of levels i (row) and j (column) of one profile"""
    m = len(t)
    down = np.interp(t, BOUND[::-1], DOWN[::-1])
    up = np.interp(t, BOUND[::-1], UP[::-1])
    res = np.ones((m, m))
    for i in range(m):
        for j in range(m):
            if i != j:
                v = np.exp(-((t[j] - t[i]) / (down[i] if i < j else up[i])) ** 2)
                res[i, j] = 1 if np.isnan(v) else v
    return res


def horizontal(coords, slat, slon, phi, use_pv):
    """coords: columns latitude, longitude, depth"""
    d = lambda k: coords[:, None, k] - coords[None, :, k]  # noqa
    q = (d(0) / slat) ** 2 + (d(1) / slon) ** 2
    if use_pv:
        v = OMEGA2 * np.sin(np.deg2rad(coords[:, 0])) / coords[:, 2]
        # the term is left out for a profile whose vorticity is zero, or if all the others are
        with np.errstate(all="ignore"):
            t = (v[:, None] - v[None, :]) ** 2 / (v[:, None] ** 2 + v[None, :] ** 2) / phi ** 2
        for i in range(len(v)):
            if v[i] != 0 and np.any(v != 0):
                q[i] += t[i]
    return np.exp(-q)


def level_covariance(ptmp, coords, slat, slon, phi, use_pv):
    m, n = ptmp.shape
    h = horizontal(coords, slat, slon, phi, use_pv)
    res = np.empty((m * n, m * n))
    for a in range(n):
        tile = vertical_tile(ptmp[:, a])
        for b in range(n):
            res[a * m:(a + 1) * m, b * m:(b + 1) * m] = h[a, b] * tile
    return res


# --------------------------------------------------------------------------- piecewise fits


def pw_design(x, x0, breaks):
    """continuous piecewise line: intercept at x0 and one slope per interval"""
    edges = np.concatenate(([x0], np.asarray(breaks, float)))
    E = np.ones((len(x), len(edges) + 1))
    for j, e in enumerate(edges):
        hi = edges[j + 1] if j + 1 < len(edges) else np.inf
        # extrapolation to the left of the first edge goes with the first interval
        E[:, j + 1] = np.minimum(x, hi) - e if j == 0 else np.clip(np.minimum(x, hi) - e, 0, None)
    return E


def wls(E, y, w):
    """(coefficients, weighted rss) for a diagonal weight vector"""
    r = np.sqrt(w)
    c, *_ = np.linalg.lstsq(E * r[:, None], y * r, rcond=None)
    return c, float(np.sum(w * (y - E @ c) ** 2))


def aicc(rss, npts, ndf, nbr):
    """criterion of the fit with nbr breaks (-1: offset, 0: line); rss is weighted by the inverse variances"""
    p = 1 if nbr == -1 else 2 * (nbr + 1)
    return ndf * np.log(rss / npts) + ndf * (ndf + p) / (ndf - p - 2)
