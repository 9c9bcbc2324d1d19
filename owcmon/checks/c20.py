"""C20 the diagnostic plots"""
import logging
import os
import shutil

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, refs, world
from ..gen import cases
from . import c12, c18

ID = "C20"
RULE = ("A case is one calibrated float (any bounds, flagged or unmapped profiles, inversions, one profile only, several series, nothing "
        "mapped, crossing Greenwich, a second float in the same process, the float of the repository) taken through plot_diagnostics; "
        "every figure is looked into at the moment it is saved. Distinct by (family, format, levels, profiles, bounds).")
REQUIRE = {"left the source": (4, 50), "no reference positions": (2, 25), "figures": (150, 2000), "curves": (1500, 20000), "points": (5000, 70000), "gaps": (100, 1500), "level plots": (30, 400),
           "level points": (150, 2000), "anomaly plots": (60, 800), "nothing on levels": (2, 25), "one profile": (1, 12), "seam": (2, 25),
           "two floats": (2, 25), "real": 1, "error bars": (500, 7000), "named": (300, 4000), "middle band": (2, 40),
           "not mapped on level": (5, 100)}
ASSUMPTIONS = ["coastline and bathymetry files are stand-ins", "two levels of a profile never have the same potential temperature"]
BOUNDS = c18.BOUNDS
MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "eps": b"%!PS", "svg": b"<?xml", "ps": b"%!PS"}
_S = {}


def setup(scratch):
    import matplotlib
    matplotlib.use("Agg")
    import shapefile
    import pyowc.plot.dashboard  # noqa  (once, before the workers are forked)
    matplotlib.rcParams["savefig.dpi"] = 40
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    matplotlib.rcParams["figure.max_open_warning"] = 0
    c12.setup(scratch)
    _S["shapes"] = d = os.path.join(scratch, "shapes")
    os.makedirs(d + "/coastline")
    os.makedirs(d + "/bathymetry")
    with shapefile.Writer(d + "/coastline/ne_10m_coastline", shapeType=3) as s:
        s.field("n", "C")
        s.line([[[-10, 10], [20, 30], [30, -20]], [[100, -20], [120, -10]]])
        s.record("a")
    for n in "L_0 K_200 J_1000 I_2000 H_3000 G_4000 F_5000 E_6000 D_7000 C_8000 B_9000".split():
        with shapefile.Writer(d + "/bathymetry/ne_10m_bathymetry_" + n, shapeType=5) as s:
            s.field("n", "C")
            s.poly([[[0, 0], [0, 10], [10, 10], [0, 0]]])
            s.record("a")


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, plain=(4 * k, 5), bounds=(10 * k, 6), flagged=(4 * k, 5), unmapped=(3 * k, 3), nothing=(5 * k, 3), single=(2 * k, 4), seam=(3 * k, 5),
                 inversion=(4 * k, 5), series=(2 * k, 5), two=(2 * k, 9), real=(1, 20), long=(1 if tier == "quick" else 4, 30))


# ------------------------------------------------------------------------------- capture

class Capture:
    """records what every figure holds at the moment it is saved"""

    def __init__(self, close):
        self.saved = []
        self.close = close

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.fig, self.axes, self.plt = matplotlib.figure.Figure, matplotlib.axes.Axes, plt
        self.old = self.fig.savefig, self.axes.contourf, plt.show
        me = self

        def savefig(fig, fname, *a, **k):
            r = me.old[0](fig, fname, *a, **k)
            me.saved.append((os.path.abspath(str(fname)), look(fig)))
            return r

        def contourf(ax, *a, **k):
            r = me.old[1](ax, *a, **k)
            if len(a) >= 3:
                ax.__dict__.setdefault("_seen_contours", []).append([np.ma.filled(np.ma.array(x, dtype=float, copy=True), np.nan) for x in a[:3]])
            return r

        def show(*a, **k):
            if me.close:                       # as an interactive window or a notebook does
                plt.close("all")

        self.fig.savefig, self.axes.contourf, plt.show = savefig, contourf, show
        return self

    def __exit__(self, *exc):
        self.fig.savefig, self.axes.contourf, self.plt.show = self.old
        self.plt.close("all")


def look(fig):
    res = []
    for ax in fig.axes:
        spec = ax.get_subplotspec()
        lines = [dict(label=str(ln.get_label()), x=num(ln.get_xdata()), y=num(ln.get_ydata())) for ln in ax.lines]
        bars = []
        for c in ax.containers:
            if not hasattr(c, "has_yerr"):
                continue
            segs = [np.array(s, float) for coll in c.lines[2] for s in coll.get_segments()]
            d = c.lines[0]
            bars.append(dict(label=str(c.get_label()), segs=segs, x=None if d is None else num(d.get_xdata()), y=None if d is None else num(d.get_ydata()),
                             xerr=c.has_xerr, yerr=c.has_yerr))
        fills = [p.vertices.copy() for coll in ax.collections if type(coll).__name__ in ("PolyCollection", "FillBetweenPolyCollection")
                 for p in coll.get_paths()]
        res.append(dict(lines=lines, bars=bars, fills=fills, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(),
                        xlim=ax.get_xlim(), ylim=ax.get_ylim(), cell=None if spec is None else (spec.get_gridspec().nrows, spec.num1),
                        contours=list(ax.__dict__.get("_seen_contours", [])), texts=[(t.get_text(), *map(float, t.xy)) for t in ax.texts if hasattr(t, "xy")]))
    return res


def num(v):
    return np.ma.filled(np.ma.array(v, dtype=float), np.nan).ravel()


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def line(mon, ax, label, x, y, key, what, tol=1e-9):
    """the axes hold the curve y(x), under its label"""
    cand = [ln for ln in ax["lines"] if label is None or ln["label"] == label]
    mon.check(cand, key + "-label", f"{what}: nothing is labelled {label!r}")
    ok = any(near(ln["x"], x, tol) and near(ln["y"], y, tol) for ln in cand)
    if not ok:
        c = cand[0]
        y = np.asarray(y, float).ravel()
        d = f"y {c['y'][:6]} for {y[:6]}, x {c['x'][:4]} for {np.ravel(x)[:4]}"
        if len(c["y"]) == len(y):
            k = np.flatnonzero(~((np.abs(c["y"] - y) <= tol) | (np.isnan(c["y"]) & np.isnan(y))))
            d += f"; {len(k)} of {len(y)} differ" + (f", first {c['y'][k[0]]!r} for {y[k[0]]!r}" if len(k) else "")
        mon.fail(key, f"{what}: the curve {label!r} is not that of the data: {d}")
    mon.ev()
    mon.count("curves")
    mon.count("points", np.sum(np.isfinite(np.asarray(y, float))))
    mon.count("gaps", np.sum(~np.isfinite(np.asarray(y, float))))


def bars(mon, group, x, y, e, key, what):
    """vertical error bars y +- e at x"""
    want = {round(float(a), 6): (b - c, b + c) for a, b, c in zip(x, y, e) if np.isfinite(b + c)}
    got = {}
    for s in group["segs"]:
        if s.size and np.all(np.isfinite(s)):
            got[round(float(s[0, 0]), 6)] = (float(s[:, 1].min()), float(s[:, 1].max()))
    mon.check(set(want) == set(got), key, f"{what}: error bars at profiles {sorted(got)[:8]}, expected at {sorted(want)[:8]}")
    for k in want:
        mon.check(near(got[k], want[k]), key, f"{what}: error bar of profile {k} spans {got[k]}, expected {want[k]}")
    mon.count("error bars", len(want))


def only(mon, axs, n, what):
    mon.check(len(axs) == n, "axes", f"{what}: {len(axs)} axes in the figure, expected {n} ({[a['title'][:40] for a in axs]})")


def named(mon, ax, name, what, **want):
    """what the axes say they show"""
    for k, v in want.items():
        for t in np.atleast_1d(v):
            mon.check(str(t).lower() in ax[k].lower(), "words", f"{what}: the {k} is {ax[k]!r}, without {t!r}")
    mon.check(name is None or name in ax["title"], "words", f"{what}: the title {ax['title']!r} does not name the float {name}")
    mon.count("named")


# ------------------------------------------------------------------------------- judge

def levels_of(fl, mp, sets):
    """the selected levels, from the function that selects them (property C16)"""
    from pyowc.core.finders import find_10thetas
    b = [np.atleast_2d(sets[q]) if np.size(sets[q]) else np.zeros((0, 0)) for q in BOUNDS]
    s, t, p = (np.array(fl[q], float) for q in ("SAL", "PTMP", "PRES"))
    return find_10thetas(s, t, p, np.array(mp["la_ptmp"], float), *b, sets["use_percent_gt"])


def on_level(x, y, t):
    """y at potential temperature t of the profile x"""
    if not np.isfinite(t) or np.all(np.isnan(x)) or not np.nanmin(x) < t < np.nanmax(x):
        return np.nan
    return refs.level_value(x, y, int(np.nanargmin(np.abs(x - t))), t)


def judge(mon, cap, w, name, levels, what):
    """every figure of one float"""
    cfg = w.cfg
    fl, mp, cal, sets = (loadmat(p) for p in (w.source_path(name), w.mapped_path(name), w.calib_path(name), w.series_path(name)))
    # the mapped file may hold profiles that have been taken out of the source file
    cols = [int(np.flatnonzero(mp["la_profile_no"].ravel() == k)[0]) for k in fl["PROFILE_NO"].ravel()]
    mon.count("left the source", len(cols) < mp["la_profile_no"].size)
    for k in ("la_mapped_sal", "la_mapsalerrors", "la_ptmp"):
        mp[k] = mp[k][:, cols]
    fmt = cfg["FLOAT_PLOTS_FORMAT"]
    out = os.path.abspath(cfg["FLOAT_PLOTS_DIRECTORY"])
    sal, ptmp, pres = (np.asarray(fl[k], float) for k in ("SAL", "PTMP", "PRES"))
    nums = fl["PROFILE_NO"].ravel().astype(float)
    n = len(nums)
    csal, cerr = np.asarray(cal["cal_SAL"], float), np.asarray(cal["cal_SAL_err"], float)
    msal, merr, mptmp = (np.asarray(mp[k], float) for k in ("la_mapped_sal", "la_mapsalerrors", "la_ptmp"))
    names = ["trajectory", "uncalibrated_theta_sal", "calibrated_theta_sal", "salinity_profile"]
    names += [f"salinity_variance_{i + 1}" for i in range(levels)]
    names += [f"{t}_salinity_anomaly_{b}" for t in ("uncalibrated", "calibrated") for b in cfg["THETA_BOUNDS"]]
    if np.any(np.isfinite(csal)):
        names.append("salinity_curve")
    figs = {}
    for path, axs in cap.saved:
        figs[path] = axs
    want = {os.path.join(out, f"{name}_{x}.{fmt}"): x for x in names}
    mine = {p for p in figs if os.path.basename(p).startswith(name)}
    mon.check(mine == set(want), "files", f"{what}: figures {sorted(os.path.basename(p) for p in mine ^ set(want))} are missing or not documented")
    for p in want:
        mon.check(os.path.exists(p), "files", f"{what}: {p} does not exist")
        with open(p, "rb") as f:
            head = f.read(8)
        mon.check(head.startswith(MAGIC[fmt]), "format", f"{what}: {os.path.basename(p)} is not in format {fmt}: {head}")
        mon.count("figures")
    fig = {x: figs[p] for p, x in want.items()}
    tlev, plev, idx, var, cand = levels_of(fl, mp, sets)
    tlev = np.asarray(tlev, float).ravel()

    # trajectory
    axs = fig["trajectory"]
    wh = what + ", trajectory"
    only(mon, axs, 1, wh)
    named(mon, axs[0], name, wh, xlabel="Longitude", ylabel="Latitude")
    hist = np.asarray(mp["selected_hist"], float).reshape(-1, 3)
    for label, lon, lat in (("Float Profiles", fl["LONG"].ravel(), fl["LAT"].ravel()), ("Climatology", hist[:, 0], hist[:, 1])):
        c = [ln for ln in axs[0]["lines"] if ln["label"] == label]
        mon.check(len(c) == 1, "trajectory", f"{wh}: {len(c)} curves labelled {label}")
        c = c[0]
        lon, lat = np.asarray(lon, float), np.asarray(lat, float)
        mon.check(len(c["x"]) == len(lon) and near(c["y"], lat), "trajectory", f"{wh}: {label} latitudes {c['y'][:5]}, stored {lat[:5]}")
        d = (c["x"] - lon + 180) % 360 - 180
        mon.check(near(d[np.isfinite(lon)], 0 * d[np.isfinite(lon)], 1e-6) and np.array_equal(np.isnan(c["x"]), np.isnan(lon)), "trajectory",
                  f"{wh}: {label} longitudes {c['x'][:5]}, stored {lon[:5]}")
        mon.check(np.all(np.isnan(c["x"]) | (np.abs(c["x"]) <= 180)), "trajectory-range", f"{wh}: {label} longitudes beyond 180 degrees: {c['x'][:5]}")
        mon.count("curves")
        mon.count("points", len(lon))
        mon.count("no reference positions", label == "Climatology" and not len(lon))
        if (label == "Climatology" and len(lon)) or (not len(hist) and np.any(np.isfinite(lon))):
            c = {q: c[q][np.isfinite(lon)] for q in "xy"}
            (a, b), (e, f) = axs[0]["xlim"], axs[0]["ylim"]
            mon.check(np.all((c["x"] >= a) & (c["x"] <= b) & (c["y"] >= e) & (c["y"] <= f)), "trajectory-window", f"{wh}: {label} positions outside the map")
    texts = axs[0]["texts"]
    xy = np.column_stack((fl["LONG"].ravel(), fl["LAT"].ravel())).astype(float)
    for k in range(n):
        if (k % 3 == 0 or k == n - 1) and np.all(np.isfinite(xy[k])):
            hit = [t for t in texts if near([(t[1] - xy[k, 0] + 180) % 360 - 180, t[2]], [0, xy[k, 1]], 1e-6) and near(float(t[0]), nums[k])]
            mon.check(hit, "annotation", f"{wh}: profile {nums[k]:g} is not marked at its position")
    for t in texts:
        k = np.flatnonzero(nums == float(t[0]))
        mon.check(len(k) == 1 and (np.isnan(t[1]) or near([(t[1] - xy[k[0], 0] + 180) % 360 - 180, t[2]], [0, xy[k[0], 1]], 1e-6)), "annotation",
                  f"{wh}: {t} does not mark that profile")

    # theta / salinity
    for title, s in (("uncalibrated", sal), ("calibrated", csal)):
        axs = fig[f"{title}_theta_sal"]
        wh = f"{what}, {title} theta/salinity"
        only(mon, axs, 1, wh)
        named(mon, axs[0], None, wh, xlabel="salinity", ylabel="theta")
        mon.check(title in axs[0]["title"].split(), "theta-sal-title", f"{wh}: title {axs[0]['title']!r}")
        for j in range(n):
            hit = [ln for ln in axs[0]["lines"] if near(ln["x"], s[:, j]) and near(ln["y"], ptmp[:, j])]
            mon.check(hit, "theta-sal", f"{wh}: no curve for profile {nums[j]:g}")
            for ln in hit:
                if not ln["label"].startswith("_") and np.any(np.isfinite(s[:, j])):
                    mon.check(near(float(ln["label"]), nums[j]), "theta-sal-label", f"{wh}: profile {nums[j]:g} is labelled {ln['label']}")
            mon.count("curves")
            mon.count("points", np.sum(np.isfinite(s[:, j])))
        exp = []
        for j in range(n):
            for k in idx[:, j][~np.isnan(idx[:, j])].astype(int):
                exp.append((msal[k, j] - merr[k, j], msal[k, j] + merr[k, j], mptmp[k, j]))
        got = []
        for b in axs[0]["bars"]:
            for q in b["segs"]:
                if q.size and b["xerr"] and np.all(np.isfinite(q)):
                    got.append((q[:, 0].min(), q[:, 0].max(), q[0, 1]))
        exp = np.array([e for e in exp if np.all(np.isfinite(e))]).reshape(-1, 3)
        got = np.array(got, float).reshape(-1, 3)
        mon.check(len(exp) == len(got), "theta-sal-mapped", f"{wh}: {len(got)} mapped salinities with error, expected {len(exp)}")
        if len(exp):
            r = [a[np.lexsort((np.round(a[:, 0], 8), np.round(a[:, 2], 8)))] for a in (exp, got)]
            mon.check(near(r[0], r[1], 1e-7), "theta-sal-mapped", f"{wh}: mapped salinities {r[1][:2].tolist()}, expected {r[0][:2].tolist()}")
        mon.count("error bars", len(exp))

    # correction
    if "salinity_curve" in fig:
        axs = fig["salinity_curve"]
        wh = what + ", correction"
        only(mon, axs, 2, wh)
        mon.check([a["cell"] for a in axs] in ([(2, 0), (2, 1)], [(2, 1), (2, 0)]), "curve-axes", f"{wh}: {[a['cell'] for a in axs]}")
        top, low = sorted(axs, key=lambda a: a["cell"][1])
        named(mon, top, name, wh, title="potential conductivity", ylabel="r")
        named(mon, low, name, wh, title="salinity", ylabel="S", xlabel="Profile number")
        f, fe, sta = (np.asarray(cal[k], float).ravel() for k in ("pcond_factor", "pcond_factor_err", "sta_mean"))
        ssal = np.asarray(cal["sta_SAL"], float)
        mean, mean_e, smean = (np.array([np.nanmean(a[:, j]) if np.any(~np.isnan(a[:, j])) else np.nan for j in range(n)])
                               for a in (csal - sal, cerr, ssal - sal))
        for ax, y, e, st, tag in ((top, f, fe, sta, "factor"), (low, mean, mean_e, smean, "mean offset")):
            line(mon, ax, None, nums, y, "curve-" + tag, f"{wh}, {tag}")
            ok = np.isfinite(st)
            c = [ln for ln in ax["lines"] if ln["label"] == "1-1 profile fit"]
            mon.check(len(c) == 1, "curve-station", f"{wh}, {tag}: {len(c)} station curves")
            g = np.isfinite(c[0]["y"])
            mon.check(near(c[0]["x"][g], nums[ok]) and near(c[0]["y"][g], st[ok]), "curve-station",
                      f"{wh}, {tag}: station values {c[0]['y'][:5]} at {c[0]['x'][:5]}, expected {st[ok][:5]} at {nums[ok][:5]}")
            mon.count("curves")
            for k in (1, 2):
                grp = [b for b in ax["bars"] if b["label"] == f"{k} x cal error"]
                mon.check(len(grp) == 1, "curve-bars", f"{wh}, {tag}: {len(grp)} groups of {k} x cal error")
                bars(mon, grp[0], nums, y, k * e, "curve-bars", f"{wh}, {tag}, {k} x error")
            a, b = ax["xlim"]
            mon.check(np.all((nums >= a - 1e-9) & (nums <= b + 1e-9)), "curve-window", f"{wh}, {tag}: profiles outside the axes {ax['xlim']}")

    # salinity on theta levels
    one = [float(np.ravel(sets[b])[0]) if np.size(sets[b]) else None for b in BOUNDS]
    ms, mt, _ = refs.masked_series(sal, ptmp, pres, mptmp, *one)
    for i in range(levels):
        axs = fig[f"salinity_variance_{i + 1}"]
        wh = f"{what}, level {i + 1} of {levels} ({tlev[i]:.4f} degrees)"
        only(mon, axs, 1, wh)
        named(mon, axs[0], name, wh, xlabel="Profile number", ylabel="PSS-78", title=[] if np.isnan(tlev[i]) else str(np.round(tlev[i], 5)))
        v = np.array([[on_level(mt[:, j], y[:, j], tlev[i]) for j in range(n)] for y in (sal, msal, merr, csal, cerr)])
        line(mon, axs[0], "uncalibrated float", nums, v[0], "level-raw", wh)
        line(mon, axs[0], "mapped salinity", nums, v[1], "level-mapped", wh)
        line(mon, axs[0], "calibrated float w/ 1xerr", nums, v[3], "level-calibrated", wh)
        grp = axs[0]["bars"]
        mon.check(len(grp) == 1, "level-bars", f"{wh}: {len(grp)} groups of error bars")
        bars(mon, grp[0], nums, v[1], v[2], "level-bars", wh)
        ok = np.isfinite(v[3] + v[4])
        edge = {round(float(a), 6): (lo, hi) for a, lo, hi in zip(nums[ok], (v[3] - v[4])[ok], (v[3] + v[4])[ok])}
        seen = {}
        for p in axs[0]["fills"]:
            for x, y in p:
                k = round(float(x), 6)
                lo, hi = seen.get(k, (np.inf, -np.inf))
                seen[k] = (min(lo, y), max(hi, y))
        mon.check(set(seen) == set(edge) and all(near(seen[k], edge[k]) for k in edge), "level-band",
                  f"{wh}: the error band spans {dict(list(seen.items())[:2])}, expected {dict(list(edge.items())[:2])}")
        mon.count("level plots")
        mon.count("level points", np.sum(np.isfinite(v[0])))
        mon.count("not mapped on level", np.sum(np.isnan(v[1]) & np.isfinite(v[3])))
        mon.count("nothing on levels", np.all(np.isnan(v[0])))

    # anomalies
    grid = np.arange(0.1, 30.1, 0.1)
    for title, s in (("uncalibrated", sal), ("calibrated", csal)):
        on = np.full((len(grid), n), np.nan)
        for j in range(n):
            ok = ~np.isnan(ptmp[:, j] + s[:, j])
            if ok.sum() >= 3:
                o = np.argsort(ptmp[ok, j])
                on[:, j] = np.interp(grid, ptmp[ok, j][o], s[ok, j][o], left=np.nan, right=np.nan)
        med = np.array([np.nanmedian(r) if np.any(~np.isnan(r)) else np.nan for r in on])
        anom = on - med[:, None]
        for b in cfg["THETA_BOUNDS"]:
            axs = fig[f"{title}_salinity_anomaly_{b}"]
            wh = f"{what}, {title} anomaly {b}"
            mon.check(len(axs) in (1, 2), "axes", f"{wh}: {len(axs)} axes")
            mon.check(near(axs[0]["ylim"], b), "anomaly-bounds", f"{wh}: axis spans {axs[0]['ylim']}")
            named(mon, axs[0], name, wh, xlabel="Profile number", ylabel="theta", title=[str(b[0]), str(b[1])])
            mon.check(title in axs[0]["title"].split(), "anomaly-title", f"{wh}: title {axs[0]['title']!r}")
            mon.count("anomaly plots")
            if n < 2:
                mon.count("one profile")
                continue
            mon.check(axs[0]["contours"], "anomaly", f"{wh}: no contours")
            for x, y, z in axs[0]["contours"]:
                mon.check(near(x, nums) and near(y, grid), "anomaly-axes", f"{wh}: contours over {x[:4]}, {y[:4]}")
                mon.same(z, anom, "anomaly", wh, atol=1e-7)
            mon.count("gaps", np.sum(np.all(np.isnan(anom), axis=0)))

    # profiles and levels
    axs = fig["salinity_profile"]
    wh = what + ", profiles"
    only(mon, axs, 4, wh)
    cell = {a["cell"]: a for a in axs}
    mon.check(set(cell) == {(2, 0), (2, 1), (2, 2), (2, 3)}, "profile-axes", f"{wh}: {sorted(cell)}")
    named(mon, cell[2, 0], None, wh, xlabel="variance", ylabel="potential temp", title="variance")
    named(mon, cell[2, 1], name, wh, xlabel="PSS-78")
    named(mon, cell[2, 2], name, wh, xlabel="C", ylabel="pressure")
    named(mon, cell[2, 3], name, wh, xlabel="PSS-78")
    ok = np.isfinite(tlev)
    pl = np.asarray(plev, float).ravel()[ok]
    for q, x, y, marks in (((2, 1), sal, ptmp, tlev[ok]), ((2, 2), ptmp, -pres, -pl), ((2, 3), sal, -pres, -pl), ((2, 0), var, cand, tlev[ok])):
        x, y = (np.asarray(a, float) for a in (x, y))
        if q == (2, 0):
            x, y = x.reshape(-1, 1), y.reshape(-1, 1)
        for j in range(x.shape[1]):
            if x.shape[0]:
                hit = [ln for ln in cell[q]["lines"] if near(ln["x"], x[:, j]) and near(ln["y"], y[:, j])]
                mon.check(hit, "profile-curve", f"{wh}, panel {q[1] + 1}: no curve for column {j + 1}")
                mon.count("curves")
                mon.count("points", np.sum(np.isfinite(x[:, j])))
        hl = sorted(float(ln["y"][0]) for ln in cell[q]["lines"] if len(ln["x"]) == 2 and near(ln["x"], [0, 1]) and np.isfinite(ln["y"][0]))
        mon.check(near(hl, sorted(marks)), "profile-levels", f"{wh}, panel {q[1] + 1}: levels drawn at {hl[:4]}, selected {sorted(marks)[:4]}")
        mon.check(near(sorted(ln["y"][1] for ln in cell[q]["lines"] if len(ln["x"]) == 2 and near(ln["x"], [0, 1]) and np.isfinite(ln["y"][1])), sorted(marks)),
                  "profile-levels", f"{wh}, panel {q[1] + 1}: slanted levels")


# ------------------------------------------------------------------------------- run

def prepare(mon, root, rng, fam):
    n = 1 if fam == "single" else int(rng.integers(2, 14)) if fam != "long" else int(rng.integers(258, 275))
    mon.count("long", fam == "long")
    w, name, fl, mapped, err, _ = c18.build(root, rng, n=n, seam=fam == "seam")
    shutil.copytree(_S["shapes"], os.path.join(root, "constants"), dirs_exist_ok=True)
    m = fl["PRES"].shape[0]
    bounds = {}
    series = np.ones(n)
    most = int(rng.choice([-1, 0]))
    if fam == "inversion":
        # a layer of inversions; the mapped temperature is that of the float
        t = fl["PTMP"]
        fl["PTMP"] = np.round(t + rng.uniform(0.2, 1.2) * np.sin(fl["PRES"] / rng.uniform(30, 150) + rng.uniform(0, 6, n)), 6)
        w.write_float(name, fl)
    if fam in ("unmapped", "nothing"):
        mapped[:] = err[:] = np.nan
    elif rng.random() < 0.4 and n > 3:
        mapped[:, int(rng.integers(n))] = np.nan
        err[np.isnan(mapped)] = np.nan
    c18.put_mapped(w, name, fl, mapped, err)
    # reference positions on both sides of Greenwich and the date line
    d = {k: v for k, v in loadmat(w.mapped_path(name)).items() if not k.startswith("__")}
    k = int(rng.integers(3, 30))
    lon = float(np.nanmean(fl["LONG"])) if fam != "seam" else 0.0
    if np.isnan(lon):
        lon = 10.0
    d["selected_hist"] = np.column_stack(((lon + rng.normal(0, 6, k)) % 360, rng.uniform(-60, 60, k), np.sort(rng.choice(fl["PROFILE_NO"].ravel(), k))))
    h = d["selected_hist"]
    if rng.random() < 0.5:                # longitudes as they are where profiles and casts lie on both sides of Greenwich
        h[h[:, 0] < 40, 0] += 360
        mon.count("beyond 360", np.any(h[:, 0] > 360))
    if fam == "nothing":          # no reference data have been used at all
        d["selected_hist"] = []
        lost = [("LAT", "LONG"), ("PTMP",), ("SAL",), ("PRES",), ()][int(rng.integers(5))]
        for k in lost:
            fl[k] = fl[k] * np.nan
        w.write_float(name, fl)
        if lost not in ((), ("LAT", "LONG")):
            mon.count("nothing measured")
    savemat(w.mapped_path(name), d)
    if fam == "bounds":
        # one of each kind: single bounds, outside of two, the band between two
        def value(key, q):
            v = fl[key][~np.isnan(fl[key])]
            v = float(np.quantile(v, q))
            if rng.random() < 0.75:              # exactly that of a level
                v = float(fl[key].flat[np.nanargmin(np.abs(fl[key] - v))])
            return v

        for key, pre in (("PTMP", "use_theta_"), ("PRES", "use_pres_")):
            kind = str(rng.choice(["", "lt", "gt", "inner", "band"], p=[0.15, 0.2, 0.2, 0.15, 0.3]))
            lo, hi = np.sort(rng.uniform(0.05, 0.95, 2))
            if kind == "lt":
                bounds[pre + "lt"] = value(key, rng.uniform(0.4, 0.95))
            elif kind == "gt":
                bounds[pre + "gt"] = value(key, rng.uniform(0.05, 0.6))
            elif kind in ("inner", "band"):
                # data below gt and above lt are left out, or those in between when lt is the lower one
                lo, hi = value(key, lo), value(key, hi)
                bounds[pre + "lt"], bounds[pre + "gt"] = (lo, hi) if kind == "band" else (hi, lo)
                mon.count("middle band", kind == "band" and lo < hi)
    if fam == "flagged":
        series[rng.random(n) < 0.4] = 0
    if fam == "series" and n > 5:
        series[n // 2:] = 2
        most = -1
    out = c18.calibrate(mon, w, name, c18.settings(fl, series, most, percent=float(rng.choice([0.2, 0.5])), **bounds))
    w.cfg["FLOAT_PLOTS_FORMAT"] = str(rng.choice(["png", "eps", "pdf", "svg"], p=[0.4, 0.3, 0.15, 0.15]))
    w.cfg["THETA_BOUNDS"] = [[0, 5], [5, 20]] if rng.random() < 0.5 else [[float(np.round(rng.uniform(0, 4), 1)), int(rng.integers(5, 25))]]
    sub = str(rng.choice(["float_plots", "plots/run 2/", "float_plots/"]))
    os.makedirs(os.path.join(root, sub), exist_ok=True)
    w.cfg["FLOAT_PLOTS_DIRECTORY"] = os.path.join(root, sub)
    return w, name, n, sorted(bounds)


def run(case, rng, mon):
    from pyowc.plot.dashboard import plot_diagnostics
    fam = case["fam"]
    close = rng.random() < 0.5
    if fam == "real":
        d = os.path.join(core.REPO, "data")
        root = os.path.join(mon.scratch, "r")
        w = world.World(root, topo_path=c12._S["path"], topo=c12._S["topo"], FLOAT_PLOTS_FORMAT="png")
        name = "3901960"
        shutil.copy(os.path.join(d, "float_source", name + ".mat"), w.source_path(name))
        shutil.copytree(_S["shapes"], os.path.join(root, "constants"), dirs_exist_ok=True)
        mp = {k: v for k, v in loadmat(os.path.join(d, "float_mapped", f"map_{name}.mat")).items() if not k.startswith("__")}
        if "la_mapsalerrors" not in mp:
            mp["la_mapsalerrors"] = mp.pop("la_map_sal_errors")
        savemat(w.mapped_path(name), mp)
        fl = loadmat(w.source_path(name))
        c18.calibrate(mon, w, name, c18.settings(fl, None, 0))
        with Capture(close) as cap:
            mon.call(plot_diagnostics, w.float_dir, name, w.cfg, 4)
        judge(mon, cap, w, name, 4, "float 3901960")
        mon.count("real")
        mon.seen("real")
        return
    worlds = [prepare(mon, os.path.join(mon.scratch, f"w{i}"), rng, fam) for i in range(2 if fam == "two" else 1)]
    levels = int(rng.choice([1, 2, 2, 3, 5, 10]))
    with Capture(close) as cap:
        for i, (w, name, n, bounds) in enumerate(worlds):
            cfg = dict(w.cfg)
            k = len(cap.saved)
            if levels == 2 and rng.random() < 0.5:
                mon.call(plot_diagnostics, w.float_dir, name, w.cfg)
            else:
                mon.call(plot_diagnostics, w.float_dir, name, w.cfg, levels)
            mon.check(cfg == dict(w.cfg), "config", "the configuration was changed by plotting")
            one = Capture(close)
            one.saved = cap.saved[k:]
            judge(mon, one, w, name, levels, f"{fam}, {n} profiles, {w.cfg['FLOAT_PLOTS_FORMAT']}, figures {'closed' if close else 'kept'} when shown"
                  + (f", float {i + 1}" if len(worlds) > 1 else "") + (f", bounds {bounds}" if bounds else ""))
            mon.seen(fam, w.cfg["FLOAT_PLOTS_FORMAT"], levels, n, bounds, close)
            mon.sample = dict(figures=[os.path.basename(p) for p, _ in one.saved][:12], levels=levels, profiles=n)
    mon.count("two floats", len(worlds) > 1)
    mon.count("seam", fam == "seam")
