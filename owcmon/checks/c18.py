"""C18 the calibrated salinities"""
import os
import shutil

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, refs, world
from ..gen import cases
from . import c12, c14

ID = "C18"
RULE = ("A case is one float (source, mapped file, calibration settings) calibrated by calc_piecewisefit: synthetic mapped data over any "
        "settings, several series, flagged or unmapped profiles, prescribed breaks, inconsistent settings, the float of the repository, "
        "or a float with a known drift taken through the whole pipeline. Distinct by (family, series, model, profiles, bounds).")
REQUIRE = {"no position known": (1, 15), "left the source": (8, 100), "files": (60, 700), "series": (70, 800), "values": (8000, 90000), "fits": (18, 250), "independent": (8, 100), "flagged": (20, 250),
           "inconsistent": (6, 70), "unusable series": (2, 25), "prescribed": (3, 40), "drift": (2, 20), "garbage": (4, 50), "pv": (4, 50),
           "seam": (2, 25), "real": 1, "water:warm": (2, 40), "water:cold": (2, 40), "taken out": (100, 1500), "prescribed in a series": (1, 40), "bounded": (8, 100), "model:line": (1, 30), "model:breaks": (3, 60)}
ASSUMPTIONS = ["profile numbers ascend in the source file", "a series has as many prescribed breaks as its maximum, or none (fewer is a known finding)",
               "ocean depth is not zero at any profile"]
BOUNDS = ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt")
OUT = ("cal_SAL", "cal_SAL_err", "cal_COND", "cal_COND_err", "sta_SAL", "sta_SAL_err")
PER = ("pcond_factor", "pcond_factor_err", "time_deriv", "time_deriv_err", "sta_mean", "sta_rms")


def setup(scratch):
    c12.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, single=(26 * k, 4), series=(16 * k, 6), set=(6 * k, 3), fewer=(2 * k, 2), inconsistent=(8 * k, 1), bounds=(16 * k, 4),
                 garbage=(5 * k, 5), none=(4 * k, 1), drift=(3 * k, 12), real=(1, 20), long=(1 if tier == "quick" else 6, 20))


# ------------------------------------------------------------------------------- inputs

def build(root, rng, n=None, seam=False, **over):
    """a world with a float and a mapped file made up from the truth"""
    n = int(rng.integers(5, 24)) if n is None else n
    lon0 = float(rng.uniform(30, 150) if not seam else rng.choice([359.8, 0.2]))
    over = dict(MAPSCALE_LONGITUDE_SMALL=float(10 ** rng.uniform(-1.3, 0.7)), MAPSCALE_LATITUDE_SMALL=float(10 ** rng.uniform(-1.3, 0.7)),
                MAPSCALE_PHI_SMALL=float(10 ** rng.uniform(-1.5, 0)), MAP_USE_PV=int(rng.random() < 0.4)) | over
    w = world.World(root, topo_path=c12._S["path"], topo=c12._S["topo"], **over)
    w.gone = {}
    wat = world.Water(rng, t_surf=rng.uniform(10, 20))
    w.water = "usual"
    if rng.random() < 0.15:
        w.water, wat.t_deep, wat.t_surf = [("warm", rng.uniform(24, 29.5), rng.uniform(33, 36)), ("cold", rng.uniform(-3, -2.1), rng.uniform(0, 3))][int(rng.integers(2))]
    lon, lat, t = world.track(rng, n, lon0, float(rng.uniform(-60, 60)))
    if seam:
        lon[:2] = [359.7, 0.3]
    drift = 1 + np.cumsum(rng.normal(0, 10 ** rng.uniform(-6, -3.5), n)) + rng.normal() * 2e-4
    drift = drift + rng.choice([0, 1, 1]) * rng.normal() * 5e-5 * np.arange(n)
    fl = world.make_float(rng, wat, lon, lat, t, nlev=int(rng.integers(14, 30)), drift=drift, numbers=np.cumsum(rng.choice([1, 1, 1, 2], n)))
    m = fl["PRES"].shape[0]
    import gsw
    true = gsw.SP_from_C(gsw.C_from_SP(fl["SAL"], fl["PTMP"], 0) / drift[None, :], fl["PTMP"], 0)
    noise = 10 ** rng.uniform(-4, -2.3)
    mapped = true + noise * rng.normal(size=true.shape)
    err = noise * rng.uniform(0.5, 3, true.shape)
    off = (fl["PRES"] < rng.uniform(100, 400)) | np.isnan(fl["SAL"] + fl["PTMP"] + fl["PRES"]) | (rng.random(true.shape) < 0.05)
    mapped[off] = err[off] = np.nan
    for j in range(n):
        if rng.random() < 0.06:                        # a profile that could not be mapped
            mapped[:, j] = err[:, j] = np.nan
            if rng.random() < 0.5 and (np.isfinite(fl["LAT"]).sum() > 1 or rng.random() < 0.4):
                fl["LAT"][0, j] = fl["LONG"][0, j] = np.nan
    # salinities taken out after they were mapped (out of range): the temperature stays
    w.bare = np.zeros(mapped.shape, bool)
    if rng.random() < 0.35:
        w.bare = rng.random(mapped.shape) < 0.5
        for _ in range(int(rng.integers(1, 4))):
            j, k = int(rng.integers(n)), rng.integers(m // 3, m, 2)
            w.bare[:, j] |= rng.random() < 0.3
            mapped[k, j] = err[k, j] = np.nan
            w.bare[k, j] = True
        j = int(rng.integers(n))
        if rng.random() < 0.5:
            mapped[:, j] = err[:, j] = np.nan
            w.bare[:, j] = True
    # profiles that have been taken out of the source file since they were mapped
    nums = fl["PROFILE_NO"].ravel()
    if rng.random() < 0.3:
        free = [k for k in range(1, int(nums[-1]) + 3) if k not in nums]
        for k in rng.permutation(free)[:int(rng.integers(1, 4))]:
            w.gone[int(k)] = dict(zip(("la_mapped_sal", "la_mapsalerrors", "la_ptmp"), np.where(rng.random((3, m)) < 0.2, np.nan, rng.uniform(1, 40, (3, m)))))
    put_mapped(w, "4900200", fl, mapped, err)
    w.write_float("4900200", fl)
    return w, "4900200", fl, mapped, err, drift


def put_mapped(w, name, fl, mapped, err):
    m, n = fl["PRES"].shape
    ptmp = np.where(np.isnan(mapped) & ~getattr(w, "bare", np.zeros((m, n), bool)), np.nan, fl["PTMP"])
    nums = np.asarray(fl["PROFILE_NO"]).ravel()
    for k, col in sorted(getattr(w, "gone", {}).items()):
        at = int(np.searchsorted(nums, k))
        nums = np.insert(nums, at, k)
        mapped, err, ptmp = (np.insert(a, at, col[q], axis=1) for q, a in (("la_mapped_sal", mapped), ("la_mapsalerrors", err), ("la_ptmp", ptmp)))
    one = np.ones((1, len(nums)))
    savemat(w.mapped_path(name), {
        "la_mapped_sal": mapped, "la_mapsalerrors": err, "la_noise_sal": err, "la_signal_sal": err,
        "la_ptmp": ptmp, "la_profile_no": nums,
        "selected_hist": np.column_stack((np.nan_to_num(fl["LONG"].ravel()), np.nan_to_num(fl["LAT"].ravel()), fl["PROFILE_NO"].ravel())),
        **{k: one for k in c12.SCALES}})


def settings(fl, series=None, max_breaks=-1, breaks=None, percent=0.5, **bounds):
    n = fl["PROFILE_NO"].size
    d = dict(breaks=np.zeros((0, 0)) if breaks is None else np.atleast_2d(breaks), max_breaks=np.atleast_2d(max_breaks),
             calseries=np.atleast_2d(np.ones(n) if series is None else series).astype(float), calib_profile_no=fl["PROFILE_NO"],
             use_percent_gt=percent, **{b: [] for b in BOUNDS})
    d.update(bounds)
    return d


def calibrate(mon, w, name, sets, seed=0, catch=None):
    from pyowc.calibration import calc_piecewisefit
    if sets is not None:
        savemat(w.series_path(name), sets)
    if os.path.exists(w.calib_path(name)):
        os.unlink(w.calib_path(name))
    np.random.seed(seed)
    r = mon.call(calc_piecewisefit, w.float_dir, name, w.cfg, catch=catch)
    if isinstance(r, core.Raised):
        return r
    mon.check(os.path.exists(w.calib_path(name)), "file", "no calibration file")
    mon.count("files")
    return loadmat(w.calib_path(name))


# ------------------------------------------------------------------------------- judge

def near(mon, got, want, key, msg, atol, rtol=0.0):
    mon.same(got, want, key, msg, atol=atol, rtol=rtol)


def check_file(mon, fl, out, series, what):
    """the relations that hold for every file, whatever the fit"""
    import gsw
    m, n = fl["PRES"].shape
    need = set(OUT) | set(PER) | {"PROFILE_NO", "fcoef", "fbreaks"}
    mon.check(need <= set(out), "variables", f"{what}: the calibration file lacks {sorted(need - set(out))}")
    for k in OUT:
        mon.check(np.shape(out[k]) == (m, n), "shape", f"{what}: {k} has shape {np.shape(out[k])}")
    for k in PER:
        mon.check(np.size(out[k]) == n, "shape", f"{what}: {k} has shape {np.shape(out[k])}")
    mon.same(np.asarray(out["PROFILE_NO"], float).ravel(), fl["PROFILE_NO"].ravel().astype(float), "profile-numbers", f"{what}: profile numbers")
    g = {k: np.asarray(out[k], float) for k in OUT}
    f = {k: np.asarray(out[k], float).ravel() for k in PER}
    cond = gsw.C_from_SP(fl["SAL"], fl["PTMP"], 0)
    for fac, err, c, ce, s, se, tag in ((f["pcond_factor"], f["pcond_factor_err"], g["cal_COND"], g["cal_COND_err"], g["cal_SAL"], g["cal_SAL_err"], "calibrated"),
                                        (f["sta_mean"], f["sta_rms"], None, None, g["sta_SAL"], g["sta_SAL_err"], "station")):
        want = cond * fac[None, :]
        wsal = gsw.SP_from_C(want, fl["PTMP"], 0)
        werr = np.abs(gsw.SP_from_C(want + cond * err[None, :], fl["PTMP"], 0) - wsal)
        if c is not None:
            near(mon, c, want, "conductivity", f"{what}: calibrated conductivity", 1e-9)
            near(mon, ce, cond * err[None, :], "conductivity-error", f"{what}: error of the calibrated conductivity", 1e-12, 1e-9)
        near(mon, s, wsal, tag + "-salinity", f"{what}: {tag} salinity", 1e-9)
        near(mon, se, werr, tag + "-salinity-error", f"{what}: error of the {tag} salinity", 1e-9)
    mon.check(np.all(np.isnan(f["pcond_factor"][series == 0])) and np.all(np.isnan(g["cal_SAL"][:, series == 0])), "outside",
              f"{what}: profiles outside the series are calibrated")
    mon.count("flagged", np.sum(series == 0))
    mon.count("values", np.sum(np.isfinite(g["cal_SAL"])))
    return g, f


def fit_input(mon, w, name, fl, mapped, err, sets, cols):
    """what the fit of the profiles `cols` must be given, or None without usable level"""
    import gsw
    from pyowc.core.finders import find_10thetas
    b = [np.atleast_2d(sets[q]) if np.size(sets[q]) else np.zeros((0, 0)) for q in BOUNDS]
    s, t, p = (fl[q][:, cols].copy() for q in ("SAL", "PTMP", "PRES"))
    mf = loadmat(w.mapped_path(name))
    at = [int(np.flatnonzero(mf["la_profile_no"].ravel() == q)[0]) for q in fl["PROFILE_NO"].ravel()[cols]]
    mp = np.asarray(mf["la_ptmp"], float)[:, at]
    mon.count("taken out", np.sum(np.isnan(mapped[:, cols]) & ~np.isnan(mp)))
    idx = np.asarray(mon.call(find_10thetas, s.copy(), t.copy(), p.copy(), mp, *b, sets["use_percent_gt"])[2], float)
    if np.all(np.isnan(idx)):
        return None
    k = len(cols)
    ts, tt, tm, te = (np.full((10, k), np.nan) for _ in range(4))
    for j in range(k):
        q = idx[:, j][~np.isnan(idx[:, j])].astype(int)
        ts[:len(q), j], tt[:len(q), j] = s[q, j], t[q, j]
        tm[:len(q), j], te[:len(q), j] = mapped[q, cols[j]], err[q, cols[j]]
    c = gsw.C_from_SP(ts, tt, 0)
    cm = gsw.C_from_SP(tm, tt, 0)
    y = cm / c
    e = 100 * np.abs(gsw.C_from_SP(tm + te / 100, tt, 0) - cm) / c
    lon, lat = fl["LONG"].ravel()[cols].astype(float), fl["LAT"].ravel()[cols].astype(float)
    ref = lon[np.flatnonzero(~np.isnan(lon))[0]] if np.any(~np.isnan(lon)) else 0.0
    dl = (lon - ref + 180) % 360 - 180
    z = np.array([np.nan if np.isnan(a + o) else -float(refs.elev_at(w.topo, o, a)) for a, o in zip(lat, lon)])
    cfg = w.cfg
    L = refs.level_covariance(tt, np.column_stack((lat, dl, z)), cfg["MAPSCALE_LATITUDE_SMALL"], cfg["MAPSCALE_LONGITUDE_SMALL"],
                              cfg["MAPSCALE_PHI_SMALL"], cfg["MAP_USE_PV"])
    x = np.tile(fl["PROFILE_NO"].ravel()[cols].astype(float), (10, 1))
    return x, y, e, L


def judge_series(mon, w, name, fl, mapped, err, sets, out, f, cols, what, most, setb=None):
    """the factors of one series, the only one of the file"""
    args = fit_input(mon, w, name, fl, mapped, err, sets, cols)
    mon.count("series")
    mon.count("bounded", any(np.size(sets[b]) for b in BOUNDS))
    if args is None:
        for k in PER:
            mon.check(np.all(np.isnan(f[k][cols])), "unusable", f"{what}: {k} without usable levels is {f[k][cols]}")
        mon.count("unusable series")
        return None
    x, y, e, L = args
    ft = c14.Fit(x, y, e, L)
    coef, brk = np.asarray(out["fcoef"], float).ravel(), np.asarray(out["fbreaks"], float).ravel()
    ret = (x[0], f["pcond_factor"][cols], f["pcond_factor_err"][cols], f["time_deriv"][cols], f["time_deriv_err"][cols],
           f["sta_mean"][cols], f["sta_rms"][cols], ft.ndf if ft.n else [], coef, brk)
    res = c14.judge(mon, "C18", x, y, e, L, ret, most, setb, what, mc=200)
    if ft.n:
        ok = ~np.isnan(fl["SAL"][:, cols] + fl["PTMP"][:, cols])
        mon.check(np.array_equal(ok, ~np.isnan(np.asarray(out["cal_SAL"])[:, cols])), "complete",
                  f"{what}: a profile of the series is not calibrated everywhere it has data")
    return res


def run(case, rng, mon):
    fam = case["fam"]
    if fam == "real":
        return real(rng, mon)
    if fam == "drift":
        return drifted(rng, mon)
    seam = rng.random() < 0.15
    n = int(rng.integers(9, 18)) if fam in ("series", "set", "fewer") else int(rng.integers(258, 280)) if fam == "long" else None
    w, name, fl, mapped, err, _ = build(os.path.join(mon.scratch, "w"), rng, n, seam)
    mon.count("seam", seam)
    mon.count("left the source", bool(w.gone))
    mon.count("water:" + w.water)
    mon.count("pv", w.cfg["MAP_USE_PV"])
    m, n = fl["PRES"].shape
    mon.count("long", fam == "long")
    series = np.ones(n)
    what = f"{fam}, {n} profiles"
    if fam in ("single", "bounds", "garbage", "set", "none", "long"):
        for j in range(n):
            if rng.random() < 0.12 and np.sum(series > 0) > 2:
                series[j] = 0
    cols = np.flatnonzero(series)
    nums = fl["PROFILE_NO"].ravel()
    if fam in ("single", "bounds", "garbage", "long"):
        most = int(rng.choice([-1, -1, 0, 0, 1, 2])) if fam not in ("bounds", "long") else int(rng.integers(-1, 1))
        bounds = {}
        if fam == "bounds":
            t, p = fl["PTMP"], fl["PRES"]
            for b, a in zip(BOUNDS, (t, t, p, p)):
                if rng.random() < 0.45:
                    bounds[b] = float(np.nanquantile(a, rng.uniform(0.1, 0.9)))
        s = settings(fl, series, most, percent=float(rng.choice([0.5, 0.5, 0.2, 0.9])), **bounds)
        what += f", at most {most} breaks, bounds {bounds}"
        out = calibrate(mon, w, name, s)
        g, f = check_file(mon, fl, out, series, what)
        judge_series(mon, w, name, fl, mapped, err, s, out, f, cols, what, most)
        mon.seen(fam, n, most, sorted(bounds), len(np.ravel(out["fcoef"])))
        mon.sample = dict(profiles=n, max_breaks=most, bounds=bounds, factor=f["pcond_factor"][:4], error=f["pcond_factor_err"][:4],
                          breaks=out["fbreaks"])
        if fam == "garbage":
            # what flagged profiles hold is of no consequence
            f2 = {k: v.copy() for k, v in fl.items()}
            k = np.flatnonzero(series == 0)
            if not len(k):
                k = np.array([0])
                series[0] = 0
                s = settings(fl, series, most, **bounds)
                out = calibrate(mon, w, name, s)
                g, f = check_file(mon, fl, out, series, what)
            f2["SAL"][:, k] = rng.uniform(30, 40, (m, len(k)))
            f2["PTMP"][:, k] = rng.uniform(-1, 25, (m, len(k)))
            f2["PRES"][:, k] = np.sort(rng.uniform(0, 6000, (m, len(k))), axis=0)
            mp2, e2 = mapped.copy(), err.copy()
            mp2[:, k] = rng.uniform(30, 40, (m, len(k)))
            e2[:, k] = rng.uniform(0, 1, (m, len(k)))
            put_mapped(w, name, f2, mp2, e2)
            w.write_float(name, f2)
            out2 = calibrate(mon, w, name, s)
            d = world.mat_equal(out, out2)
            mon.check(d is None, "flagged-profiles", f"{what}: {d} depends on what flagged profiles hold")
            mon.count("garbage")
    elif fam == "series":
        ns = int(rng.integers(2, 4))
        cut = np.sort(rng.choice(np.arange(2, n - 1), ns - 1, replace=False))
        lab = np.sort(rng.choice(np.arange(1, 6), ns, replace=False)) if rng.random() < 0.8 else rng.permutation(ns) + 1
        series = lab[np.searchsorted(cut, np.arange(n), side="right")].astype(float)
        if rng.random() < 0.3:                            # a series that is taken up again
            series[-1] = series[0]
        series[rng.random(n) < 0.08] = 0
        ids = np.unique(series[series > 0])
        # each in its own way (or all alike)
        mosts = rng.integers(-1, 2, len(ids)) if rng.random() < 0.6 else np.full(1, int(rng.integers(-1, 2)))
        if rng.random() < 0.3:
            k = np.flatnonzero(series == ids[-1])
            mapped[:, k] = err[:, k] = np.nan             # a series that was not mapped
            put_mapped(w, name, fl, mapped, err)
        if rng.random() < 0.5:
            mosts = mosts.reshape(-1, 1)
        rows = None
        if rng.random() < 0.7:                            # breaks prescribed for one series, or several
            rows = np.full((len(ids), 2), np.nan)
            mosts = np.full(len(ids), -1) if mosts.size == 1 else mosts.ravel()
            for i, q in enumerate(ids):
                u = nums[(series == q) & np.any(~np.isnan(mapped), axis=0)]
                if len(u) >= 5 and rng.random() < 0.7:
                    rows[i, 0] = u[2] + 0.25
                    mosts[i] = 1
                    mon.count("prescribed in a series")
        s = settings(fl, series, mosts, rows)
        what += f", series {series.astype(int).tolist()}, at most {np.ravel(mosts).tolist()} breaks"
        out = calibrate(mon, w, name, s)
        g, f = check_file(mon, fl, out, series, what)
        total = []
        for i, q in enumerate(ids):
            cols = np.flatnonzero(series == q)
            most = int(np.ravel(mosts)[i if mosts.size > 1 else 0])
            s1 = settings(fl, np.where(series == q, q, 0), most, None if rows is None else rows[i])
            setb = None if rows is None or np.isnan(rows[i, 0]) else rows[i, :1]
            out1 = calibrate(mon, w, name, s1)
            g1, f1 = check_file(mon, fl, out1, s1["calseries"].ravel(), what + f", series {q:g} alone")
            judge_series(mon, w, name, fl, mapped, err, s1, out1, f1, cols, what + f", series {q:g} alone", most, setb)
            for k in ("pcond_factor", "time_deriv", "time_deriv_err", "sta_mean", "sta_rms"):
                near(mon, f[k][cols], f1[k][cols], "independent", f"{what}: {k} of series {q:g} is not that of the series alone", 1e-12, 1e-9)
            a, b = f["pcond_factor_err"][cols], f1["pcond_factor_err"][cols]
            mon.check(np.array_equal(np.isnan(a), np.isnan(b)), "independent-error", f"{what}: errors {a}, alone {b}")
            with np.errstate(all="ignore"):
                mon.check(np.all(np.isnan(a) | (np.abs(np.log(a / b)) < np.log(2))), "independent-error", f"{what}: errors {a}, alone {b}")
            total.append(np.ravel(out1["fcoef"]))
            mon.count("independent")
        near(mon, np.ravel(out["fcoef"]), np.concatenate(total), "coefficients", f"{what}: coefficients of all series", 1e-12, 1e-7)
        mon.seen(fam, n, len(ids), np.ravel(mosts))
    elif fam in ("set", "fewer"):
        usable = cols[np.any(~np.isnan(mapped[:, cols]), axis=0)]
        k = int(rng.integers(1, 3))
        inside = usable[2:-2][::2]
        if len(inside) < k:
            mon.count("too few to prescribe")
            return
        b = np.sort(nums[rng.choice(inside, k, replace=False)] + rng.uniform(0.1, 0.9, k).round(2))
        if len(np.unique(np.searchsorted(nums[usable], b))) < k:
            return
        most = k + (int(rng.integers(1, 3)) if fam == "fewer" else 0)
        row = np.concatenate((b, np.full(int(rng.integers(0, 3)), np.nan)))
        s = settings(fl, series, most, row)
        what += f", breaks at {b}, at most {most}"
        out = calibrate(mon, w, name, s, catch=(TypeError, IndexError, AttributeError, ValueError) if fam == "fewer" else None)
        if isinstance(out, core.Raised):
            mon.finding("fewer-prescribed-breaks", f"{what}: {out}")
            return
        g, f = check_file(mon, fl, out, series, what)
        if fam == "set" or np.size(out["fbreaks"]) == k:
            judge_series(mon, w, name, fl, mapped, err, s, out, f, cols, what, k, b)
        mon.seen(fam, n, k, most)
    elif fam == "none":
        mapped[:, cols] = err[:, cols] = np.nan
        put_mapped(w, name, fl, mapped, err)
        if case["k"] % 2:                                   # the profiles that had positions have left
            fl["LAT"][:] = fl["LONG"][:] = np.nan
            w.write_float(name, fl)
            mon.count("no position known")
        if rng.random() < 0.5 and not case["k"] % 2:
            d = {k: v for k, v in loadmat(w.mapped_path(name)).items() if not k.startswith("__")}
            d["selected_hist"] = np.zeros((0, 0))
            savemat(w.mapped_path(name), d)
        s = settings(fl, series if rng.random() < 0.7 else np.zeros(n), 4)
        out = calibrate(mon, w, name, s)
        g, f = check_file(mon, fl, out, series, what)
        for k in OUT + PER:
            mon.check(np.all(np.isnan(np.asarray(out[k], float))), "unmapped", f"{what}: {k} without mapped data")
        mon.count("unusable series")
        mon.count("series")
        mon.seen(fam, n)
    else:
        inconsistent(rng, mon, w, name, fl)


def inconsistent(rng, mon, w, name, fl):
    m, n = fl["PRES"].shape
    kind = str(rng.choice(["max", "max-single", "sets", "many"]))
    series = np.where(np.arange(n) < n // 2, 1.0, 2.0)
    if kind == "max":
        s = settings(fl, np.where(np.arange(n) == n - 1, 3.0, series), [4, 2])
    elif kind == "max-single":
        s = settings(fl, None, [1, 0])
    elif kind == "sets":
        s = settings(fl, series, 1, [[2.5]] if rng.random() < 0.5 else [[2.5], [3.5], [4.5]])
    else:
        a, nan = int(rng.integers(0, 2)), np.nan
        # more than the maximum of its own series, though perhaps not of another
        s = settings(fl, series, *[([1, a], [[2.5, 3.5], [nan, nan]]), ([1, a], [[2.5, nan], [3.5, 4.5]]), ([int(rng.integers(-1, 1)), 2], [[2.5, nan], [n - 2.6, n - 1.5]]),
                                   ([2, 0], [[2.5, 3.5], [n - 1.5, nan]]), ([0, 4], [[2.5, nan], [nan, nan]])][int(rng.integers(5))])
    out = calibrate(mon, w, name, s)
    what = f"inconsistent settings ({kind})"
    check_file(mon, fl, out, np.zeros(n), what)
    for k in OUT + PER:
        mon.check(np.all(np.isnan(np.asarray(out[k], float))), "inconsistent", f"{what}: {k} is not missing")
    mon.count("inconsistent")
    mon.seen("inconsistent", kind, n)


def real(rng, mon):
    """the float of the repository, mapped by the Matlab software"""
    d = os.path.join(core.REPO, "data")
    w = world.World(os.path.join(mon.scratch, "r"), topo_path=c12._S["path"], topo=c12._S["topo"])
    shutil.copy(os.path.join(d, "float_source", "3901960.mat"), w.source_path("3901960"))
    shutil.copy(os.path.join(d, "float_mapped", "map_3901960.mat"), w.mapped_path("3901960"))
    fl = {k: np.asarray(v, float) for k, v in loadmat(w.source_path("3901960")).items() if not k.startswith("__")}
    mp = loadmat(w.mapped_path("3901960"))
    if "la_mapsalerrors" not in mp:
        mp["la_mapsalerrors"] = mp.pop("la_map_sal_errors")
        savemat(w.mapped_path("3901960"), {k: v for k, v in mp.items() if not k.startswith("__")})
    from pyowc.configuration import set_calseries
    mon.call(set_calseries, w.float_dir, "3901960", w.cfg)
    s = loadmat(w.series_path("3901960"))
    out = calibrate(mon, w, "3901960", None)
    series = s["calseries"].ravel()
    what = "float 3901960"
    g, f = check_file(mon, fl, out, series, what)
    judge_series(mon, w, "3901960", fl, np.asarray(mp["la_mapped_sal"], float), np.asarray(mp["la_mapsalerrors"], float), s, out, f, np.flatnonzero(series),
                 what, 4)
    mon.count("real")
    mon.seen("real")
    mon.sample = dict(profiles=len(series), factor=f["pcond_factor"][:5], breaks=out["fbreaks"])


def drifted(rng, mon):
    """a float with a known conductivity drift through mapping, preparation and calibration"""
    import gsw
    from pyowc.configuration import set_calseries
    root = os.path.join(mon.scratch, "d")
    w = world.World(root, topo_path=c12._S["path"], topo=c12._S["topo"], MAPSCALE_LONGITUDE_LARGE=8.0, MAPSCALE_LATITUDE_LARGE=4.0,
                    MAPSCALE_LONGITUDE_SMALL=0.08, MAPSCALE_LATITUDE_SMALL=0.08, MAP_P_EXCLUDE=300)
    lon0, lat0 = float(rng.uniform(40, 150)), float(rng.uniform(-55, 55))
    wat = world.Water(rng, noise_s=0.0008, t_surf=rng.uniform(8, 14))
    world.surround(rng, w, wat, lon0, lat0, 110, spread=(4, 2.5), nlev=45, pmax=2000, t=(2000, 2009))
    n = int(rng.integers(9, 13))
    lon, lat, t = world.track(rng, n, lon0, lat0, step=0.2)
    lon = lon + 0.12 * np.arange(n)                  # no two profiles within the small scale
    kind = str(rng.choice(["offset", "line"]))
    drift = np.full(n, 1 + rng.choice([-1, 1]) * rng.uniform(8e-4, 2e-3))
    if kind == "line":
        drift = 1 + (drift[0] - 1) * np.linspace(0.2, 1.6, n)
    fl = world.make_float(rng, wat, lon, lat, t, nlev=35, drift=drift, gaps=False)
    w.write_climatology()
    w.write_float("4900777", fl)
    c12.do_map(mon, w, "4900777")
    mon.call(set_calseries, w.float_dir, "4900777", w.cfg)
    s = loadmat(w.series_path("4900777"))
    s = {k: v for k, v in s.items() if not k.startswith("__")}
    s["max_breaks"] = np.array([[-1 if kind == "offset" else 0]])
    out = calibrate(mon, w, "4900777", s)
    g, f = check_file(mon, fl, out, np.ones(n), "drift")
    true = gsw.SP_from_C(gsw.C_from_SP(fl["SAL"], fl["PTMP"], 0) / drift[None, :], fl["PTMP"], 0)
    deep = fl["PRES"] > 800
    raw, cal = np.abs(fl["SAL"] - true)[deep], np.abs(g["cal_SAL"] - true)[deep]
    mon.sample = dict(kind=kind, drift=drift[:3], raw_error=float(raw.mean()), calibrated_error=float(cal.mean()), stated=float(g["cal_SAL_err"][deep].mean()))
    mon.check(np.all(np.isfinite(cal)), "drift", "drift: calibrated salinity is missing")
    mon.check(cal.max() <= 0.006 + 3 * g["cal_SAL_err"][deep].max() and cal.mean() < 0.5 * raw.mean(), "drift",
              f"drift ({kind}): mean error {raw.mean():.4f} is {cal.mean():.4f} after calibration (stated {g['cal_SAL_err'][deep].mean():.4f})")
    mon.count("drift")
    mon.seen("drift", kind, n)
