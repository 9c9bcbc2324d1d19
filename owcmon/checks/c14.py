"""C14 the calibration fit"""
import os
import re

import numpy as np
from scipy.optimize import least_squares

from .. import core, refs
from ..gen import cases

ID = "C14"
RULE = ("A case is one series (1-60 profiles, 1-10 levels, gaps, error sizes, a covariance matrix that need not be symmetric, a maximum "
        "number of breaks or prescribed ones) given to the fit; distinct by (family, model chosen, number of profiles and points).")
REQUIRE = {"fits": (90, 900), "model:offset": (12, 120), "model:line": (12, 120), "model:breaks": (12, 120), "prescribed": (8, 80),
           "limited by ndf": (6, 60), "missing points": (20, 200), "mc errors": (4, 30), "free mc errors": (1, 6), "no data": (3, 30),
           "few profiles": (10, 100), "permuted": (6, 60), "long series": (3, 16)}
ASSUMPTIONS = ["finite positive errors at every finite point", "covariance matrix with a unit diagonal and entries within [0, 1]",
               "prescribed breaks inside the series and as many as the maximum allowed (fewer is a known finding)",
               "the 'initial_breaks' and 'number_breaks' options, which the pipeline never uses, are not exercised"]
TOL = 1e-6


def plan(tier, rng):
    k = 2 if tier == "quick" else 20
    return cases(rng, offset=12 * k, line=12 * k, free=(16 * k, 4), steps=(10 * k, 4), set=12 * k, lowndf=14 * k, few=16 * k,
                 first=8 * k, none=4 * k, permuted=(8 * k, 2), mcline=(3 * k, 3), mcset=(3 * k, 3),
                 mcfree=(2 if tier == "quick" else 10, 20), fewer=4 * k, long=((3 if tier == "quick" else 16), 4), real=(1 if tier == "quick" else 3, 10))


# ------------------------------------------------------------------------------- the model of the fit

class Fit:
    """The documented fit of one series, by the reference implementation."""

    def __init__(self, x, y, err, L):
        x, y, e = x.T.ravel(), y.T.ravel(), err.T.ravel()
        good = np.flatnonzero(np.isfinite(x) & np.isfinite(y))
        good = good[np.argsort(x[good], kind="stable")]
        self.x, self.y, self.e, self.L = x[good], y[good], e[good], L[np.ix_(good, good)]
        self.n = len(good)
        if not self.n:
            return
        self.x0 = (self.x[0] + self.x[-1]) / 2
        self.xs = (self.x[-1] - self.x[0]) / 2 or 1.0
        self.y0, self.ys = np.mean(self.y), np.std(self.y) or 1.0
        self.t, self.u, self.var = (self.x - self.x0) / self.xs, (self.y - self.y0) / self.ys, (self.e / self.ys) ** 2
        self.w = np.mean(self.var) / self.var
        self.ndf = float(np.sum(1 / (self.L @ np.ones(self.n))))
        p = np.unique(self.t)
        self.profiles = len(p)
        self.lim = (p[1], p[-2]) if len(p) > 3 else (1.0, 1.0)

    def design(self, breaks, t=None):
        return refs.pw_design(self.t if t is None else t, self.t[0], breaks)

    def solve(self, breaks, u=None):
        """coefficients and residuals of a line with breaks (None: offset)"""
        u = self.u if u is None else u
        if breaks is not None and not np.all(np.isfinite(breaks)):
            return np.zeros(len(breaks) + 2), u.copy()
        E = np.ones((self.n, 1)) if breaks is None else self.design(breaks)
        r = np.sqrt(self.w)
        c, _, rank, _ = np.linalg.lstsq(E * r[:, None], u * r, rcond=None)
        if rank < E.shape[1]:
            return np.zeros(E.shape[1]), u.copy()
        return c, u - E @ c

    def aic(self, res, nbr):
        return refs.aicc(float(np.sum(res ** 2 / self.var)), self.n, self.ndf, nbr)

    def breaks_of(self, v):
        f = np.cumsum(np.exp(v))
        b = self.lim[0] + (self.lim[1] - self.lim[0]) * f / (1 + f[-1])
        for i in np.flatnonzero(np.diff(b) == 0):
            b[i + 1] += 1e-5
        return b

    def search(self, nbr, u=None, start=None, jitter=None):
        """free breaks by non-linear least squares from evenly spaced ones (or from `start`)"""
        g = -1 + 2 * np.arange(1, nbr + 1) / (nbr + 1) if start is None else np.asarray(start)
        b = np.concatenate(([-1], g))
        v = np.log(np.diff(b) / (1 - b[-1]))
        if jitter is not None:
            v = v + 10 ** jitter.uniform(-9, -1.5) * jitter.normal(size=nbr)
        with np.errstate(all="ignore"):
            o = least_squares(lambda q: self.solve(self.breaks_of(q), u)[1], v, method="lm", ftol=1e-6, max_nfev=1000)
            if not np.all(np.isfinite(self.breaks_of(o.x))):
                return np.full(nbr, self.lim[1]), (self.u if u is None else u).copy()
        return self.breaks_of(o.x), o.fun

    def allowed(self, most):
        """the numbers of breaks tried (-1 offset, 0 line), or None if on the edge of a threshold"""
        nd = self.ndf
        edges = [2 * (most + 2) + 1, 3]
        if any(abs(nd - q) < 1e-6 for q in edges):
            return None
        if nd >= edges[0]:
            return list(range(-1, most + 1))
        if nd <= 3:
            return [-1]
        top = (nd - 1) / 2 - 2
        if abs(top - round(top)) < 1e-6:
            return None
        return list(range(-1, int(np.floor(top)) + 1))

    def variances(self, E):
        """diagonals of the coefficient covariance without and with correlated errors"""
        wE = E * self.w[:, None]
        B = np.linalg.inv(E.T @ wE)
        H = B @ wE.T
        P1 = H @ (self.var[:, None] * H.T)
        P2 = H @ (self.var[:, None] * (self.L @ H.T))
        return P1, np.diag(P2)


# ------------------------------------------------------------------------------- inputs

def covariance(rng, m, n, vert, horiz, asym):
    prof = np.arange(n)
    h = np.exp(-((prof[:, None] - prof[None, :]) / horiz) ** 2) if horiz > 0 else np.eye(n)
    q = np.sort(rng.uniform(0, 1, m))
    v = np.exp(-((q[:, None] - q[None, :]) / vert) ** 2) if vert > 0 else np.eye(m)
    L = np.zeros((m * n, m * n))
    for a in range(n):
        va = v
        if asym:
            va = v ** np.where(np.tri(m, k=-1) > 0, rng.uniform(0.3, 3), 1)
        for b in range(n):
            L[a * m:(a + 1) * m, b * m:(b + 1) * m] = h[a, b] * va
    return L


def series(rng, fam, long=False):
    m = int(rng.choice([10, 10, 10, 1, 2, 5]))
    n = int(rng.integers(8, 36))
    if long:                                            # a float that has lived for years
        m, n = int(rng.choice([1, 2])), int(rng.integers(258, 330))
    vert, horiz, asym = rng.choice([0, 0.1, 0.5]), rng.choice([0, 0.7, 1.5]), rng.random() < 0.5
    if fam == "few":
        n = int(rng.integers(1, 7))
        horiz = 0 if rng.random() < 0.7 else horiz
    if fam in ("mcline", "mcset", "mcfree"):
        m, n, vert, horiz = 4, int(rng.integers(12, 20)), 0.5, 1.5
    if fam in ("steps", "mcfree", "permuted", "fewer"):
        m, n = max(m, 4), int(rng.integers(18, 36))
        vert, horiz = (rng.choice([0, 0.05]), rng.choice([0, 0.5]))
    if fam == "lowndf":
        vert, horiz = rng.choice([0.5, 5, 100]), rng.choice([1.5, 5, 30, 1000])
    if fam == "set":
        m, n = max(m, 2), max(n, 12)
    x = np.cumsum(rng.choice([1, 1, 1, 1, 2, 5], n)).astype(float)
    size = 10 ** rng.uniform(-5, -3)
    t = (x - x[0]) / max(1, x[-1] - x[0])
    trend = np.full(n, 1 + rng.normal() * 1e-3)
    kind = {"offset": 0, "line": 1, "mcline": 1, "steps": 2, "mcfree": 2, "permuted": 2}.get(fam, int(rng.integers(3)))
    true = []
    if kind >= 1:
        trend = trend + rng.normal() * 8 * size * t
    if kind == 2:
        true = np.sort(rng.choice(np.linspace(0.2, 0.8, 4), int(rng.integers(1, 4)), replace=False)) if fam != "mcfree" else [0.5]
        for b in true:
            trend = trend + rng.choice([-1, 1]) * rng.uniform(20, 60) * size * np.maximum(0, t - b)
    y = trend[None, :] + size * rng.normal(size=(m, n))
    err = size * (rng.uniform(0.5, 2, (m, n)) if rng.random() < 0.7 else 10 ** rng.uniform(-1, 1, (m, n)))
    L = covariance(rng, m, n, vert, horiz, asym)
    X = np.tile(x, (m, 1))
    if fam == "first":
        y[:, :int(rng.integers(1, 4))] = np.nan
    if fam == "none":
        y[:] = np.nan
    elif fam not in ("mcline", "mcset", "mcfree") and rng.random() < 0.5:
        y[rng.random(y.shape) < rng.uniform(0, 0.5)] = np.nan
        if rng.random() < 0.4:
            y[:, rng.integers(0, n, max(1, n // 6))] = np.nan
        if rng.random() < 0.3 and fam not in ("few",):
            y[:, -int(rng.integers(1, 4)):] = np.nan
    if fam in ("few", "offset", "line", "free") and rng.random() < 0.15:
        err[~np.isfinite(y)] = np.nan
    return X, y, err, L, size, x[0] + np.asarray(true) * (x[-1] - x[0])


# ------------------------------------------------------------------------------- judge

def judge(mon, fam, X, y, err, L, ret, most, setb, what, mc=None):
    mon.check(isinstance(ret, tuple) and len(ret) == 10, "return", f"{what}: ten results")
    xfit, val, verr, der, derr, smean, srms, ndf, coef, brk = ret
    f = Fit(X, y, err, L)
    prof = np.unique(X)
    n = len(prof)
    xfit, val, verr, der, derr, smean, srms = (np.asarray(q, float).ravel() for q in (xfit, val, verr, der, derr, smean, srms))
    mon.same(xfit, prof, "profiles", f"{what}: profiles", rtol=1e-12)
    for name, q in (("fit", val), ("fit error", verr), ("slope", der), ("slope error", derr), ("sta_mean", smean), ("sta_rms", srms)):
        mon.check(q.shape == (n,), "size", f"{what}: {name} has {q.shape} values for {n} profiles")
    if not f.n:
        for q in (val, verr, der, derr, smean, srms):
            mon.check(np.all(np.isnan(q)), "no-data", f"{what}: results without data {q[:3]}")
        mon.count("no data")
        mon.seen(fam, "none", n)
        return None
    mon.same(float(np.asarray(ndf)), f.ndf, "ndf", f"{what}: degrees of freedom", rtol=1e-9)
    mon.check(np.all(np.isfinite(val)), "fit-finite", f"{what}: fit {val}")
    coef, brk = np.asarray(coef, float).ravel(), np.asarray(brk, float).ravel()
    nbr = len(brk) if len(coef) > 1 else -1
    mon.check(len(coef) == nbr + 2, "model", f"{what}: {len(coef)} coefficients with {len(brk)} breaks")
    said = re.findall(r"(?:with|evaluated)\s+(?:(\d+) break ?points?|(linear)|(offset))", mon.stdout)
    if said:
        told = int(said[-1][0]) if said[-1][0] else 0 if said[-1][1] else -1
        mon.check(told == nbr, "told", f"{what}: {nbr} breaks were fitted, the user is told {''.join(said[-1])!r}")
        mon.count("told")
    tb = (brk - f.x0) / f.xs
    tt = (prof - f.x0) / f.xs

    # ---- the model is an admissible one, and the best of these by the criterion
    if setb is not None:
        mon.same(brk, setb, "prescribed", f"{what}: prescribed breaks", rtol=1e-9, atol=1e-9)
        mon.count("prescribed")
    else:
        allowed = f.allowed(most)
        if allowed is None:
            mon.count("on an edge")
        else:
            if allowed[-1] < most:
                mon.count("limited by ndf")
            mon.check(nbr in allowed, "admissible", f"{what}: {nbr} breaks, allowed {allowed} with {f.ndf:.2f} degrees of freedom")
            if nbr > 0:
                mon.check(np.all(np.diff(brk) > 0) and np.all(tb >= f.lim[0] - 1e-6) and np.all(tb <= f.lim[1] + 2e-5 * nbr), "break-range",
                          f"{what}: breaks {brk} outside the second to second last profile, or not increasing")
            mine = f.aic(f.solve(None if nbr == -1 else tb)[1], nbr)
            scale = 1e-5 * f.ndf + 1e-9
            for other in (-1, 0):
                if other in allowed and other != nbr:
                    a = f.aic(f.solve(None if other == -1 else [])[1], other)
                    mon.check(mine <= a + scale, "criterion", f"{what}: {nbr} breaks have {mine}, {other} would have {a}")
            tried = {}
            for other in (q for q in allowed if q > 0):
                b, res = f.search(other)
                tried[other] = f.aic(res, other)
            if tried and min(tried.values()) < mine - scale:
                best = min(tried, key=tried.get)
                rng = np.random.default_rng(1)
                # a search may end elsewhere for differences at rounding level: only what is always found counts
                again = [f.aic(f.search(best, jitter=rng)[1], best) for _ in range(20)]
                # and a search may stop within a percent of the sum of squares of where it would have ended
                mon.check(max(again) >= mine - scale or best == nbr and tried[best] > mine - 0.01 * f.ndf, "criterion",
                          f"{what}: {nbr} breaks have {mine}, the search finds {tried[best]} with {best}")
                mon.count("search ambiguous")
    mon.count("fits")
    mon.count("model:" + ("offset" if nbr == -1 else "line" if nbr == 0 else "breaks"))
    mon.count("missing points", f.n < y.size)
    mon.count("few profiles", f.profiles <= 6)
    mon.seen(fam, nbr, n, f.n)

    # ---- the fit is the weighted least-squares solution of that model, per profile in profile order
    c, res = f.solve(None if nbr == -1 else tb)
    E = np.ones((f.n, 1)) if nbr == -1 else f.design(tb)
    Ep = np.ones((n, 1)) if nbr == -1 else f.design(tb, tt)
    cond = np.linalg.cond(E * np.sqrt(f.w)[:, None])
    # a fit may extrapolate beyond the data if the first or last profiles have none
    amp = f.ys * (np.abs(f.u).max() + np.abs(Ep @ c).max())
    tol = 1e-9 + 1e-13 * cond ** 2
    mon.same(val, f.y0 + f.ys * (Ep @ c), "fit", f"{what}: {nbr} breaks, fitted values", atol=amp * tol * 10)
    slopes = np.zeros(1) if nbr == -1 else c[1:] * f.ys / f.xs
    mon.same(coef[0], f.y0 + f.ys * c[0], "coefficients", f"{what}: value at the first good point", atol=amp * tol * 10)
    if nbr >= 0:
        mon.same(coef[1:], slopes, "coefficients", f"{what}: slopes", atol=amp / f.xs * tol * 100 / max(1e-3, np.min(np.diff(np.concatenate(([-1], tb, [1]))))))
    if n:
        seg = np.searchsorted(brk, prof + 1e-9 * f.xs, side="right") if nbr > 0 else np.zeros(n, int)
        seg2 = np.searchsorted(brk, prof - 1e-9 * f.xs, side="left") if nbr > 0 else seg
        want, want2 = slopes[seg], slopes[seg2]
        sl_tol = amp / f.xs * tol * 100 / max(1e-3, np.min(np.diff(np.concatenate(([-1], tb, [1]))))) if nbr > 0 else amp / f.xs * tol * 100
        ok = (np.abs(der - want) <= sl_tol) | (np.abs(der - want2) <= sl_tol)
        i = int(np.argmin(ok))
        mon.check(np.all(ok), "slope", f"{what}: slope of profile {prof[i]} {der[i]}, its segment has {want[i]} (breaks {brk})")

    # ---- errors
    if cond < 1e6:
        P1, P2 = f.variances(E)
        if nbr == -1:
            mon.check(np.all(np.isnan(derr)), "slope-error", f"{what}: slope error of an offset {derr[:2]}")
        else:
            with np.errstate(all="ignore"):
                se = np.sqrt(P2[1:]) * f.ys / f.xs
            ok = (np.abs(derr - se[seg]) <= 1e-6 * se[seg] + 1e-12 * amp) | (np.abs(derr - se[seg2]) <= 1e-6 * se[seg2] + 1e-12 * amp) | \
                np.isnan(se[seg])
            i = int(np.argmin(ok))
            mon.check(np.all(ok), "slope-error", f"{what}: slope error of profile {prof[i]} {derr[i]}, expected {se[seg][i]}")
        with np.errstate(all="ignore"):
            P3 = np.abs(Ep) @ P2 / (np.abs(Ep) @ np.diag(P1))
        if np.all(P3 >= 0):
            mon.check(np.all(np.isfinite(verr)) and np.all(verr >= 0), "error-finite", f"{what}: errors {verr}")
        if nbr == -1:
            if P2[0] >= 0:
                mon.same(verr, np.full(n, np.sqrt(P2[0]) * f.ys), "offset-error", f"{what}: error of the offset", rtol=1e-7)
        elif mc and (nbr == 0 or setb is not None) and np.all(P3 > 0):
            e2 = np.einsum("ij,jk,ik->i", Ep, P1, Ep) * P3 * f.ys ** 2
            rel = verr ** 2 / e2 - 1
            i = int(np.argmax(np.abs(rel)))
            mon.check(abs(rel[i]) <= 6 * np.sqrt(2 / mc), "mc-error",
                      f"{what}: error of profile {prof[i]} is {verr[i]}, expected {np.sqrt(e2[i])} from {mc} draws")
            mon.count("mc errors")
        elif mc and nbr > 0 and np.all(P3 > 0):
            rng = np.random.default_rng(5)
            loops = 150
            fit0 = Ep @ c
            acc = np.zeros(n)
            for _ in range(loops):
                u = f.u + np.sqrt(f.var) * rng.normal(size=f.n)
                b, _ = f.search(nbr, u, start=tb)
                cc, _ = f.solve(b, u)
                acc += (fit0 - f.design(b, tt) @ cc) ** 2
            e2 = acc / loops * P3 * f.ys ** 2
            rel = np.log(verr ** 2 / e2)
            i = int(np.argmax(np.abs(rel)))
            # the draws are not Gaussian at a break, and one that lands in another minimum weighs much in a single profile
            mon.check(abs(np.median(rel)) <= np.log(2.2) and np.log(1 / 6) <= rel.min() and rel.max() <= np.log(40), "mc-error",
                      f"{what}: error of profile {prof[i]} is {verr[i]}, {loops} draws give {np.sqrt(e2[i])}")
            mon.count("free mc errors")
    else:
        mon.count("ill-conditioned")

    # ---- statistics per profile
    def stats(groups):
        mean, rms = np.full(n, np.nan), np.full(n, np.nan)
        for j, g in groups.items():
            if len(g):
                wj = f.w[g]
                mean[j] = np.sum(wj * f.y[g]) / np.sum(wj)
                rms[j] = np.sqrt(np.sum(wj * (f.y[g] - mean[j]) ** 2) / np.sum(wj))
        return mean, rms

    right = stats({j: np.flatnonzero(f.x == prof[j]) for j in range(n)})
    if not (np.allclose(smean, right[0], rtol=1e-9, equal_nan=True)
            and np.allclose(srms, right[1], rtol=1e-6, atol=1e-8 * f.ys, equal_nan=True)):
        # known: the points of a profile are taken from after the first of the previous to the first of its own
        has = np.unique(f.x)
        first = np.searchsorted(f.x, has)
        prev = np.concatenate(([-1], first))
        groups = {}
        for j in range(n):
            q = np.flatnonzero(has == prof[j])
            groups[j] = np.arange(prev[q[0]] + 1, first[q[0]] + 1) if len(q) else []
        wrong = stats(groups)
        mon.check(np.allclose(smean, wrong[0], rtol=1e-9, equal_nan=True)
                  and np.allclose(srms, wrong[1], rtol=1e-6, atol=1e-8 * f.ys, equal_nan=True), "station-statistics",
                  f"{what}: mean and rms of the profiles {smean[:4]} {srms[:4]}, data have {right[0][:4]} {right[1][:4]}")
        mon.finding("station-statistics", "sta_mean and sta_rms of a profile are taken over the points that follow the first "
                                          "point of the previous profile, up to the first of its own")
    return f, nbr, tb


def run(case, rng, mon):
    from pyowc.core.stats import fit_cond
    fam = case["fam"]
    if fam == "real":
        from scipy.io import loadmat
        d = loadmat(os.path.join(core.REPO, "data", "test_data", "fit_cond", "fit_cond_input.mat"))
        k = int(rng.integers(-1, 5)) if case["k"] else 4
        args = (d["x"].astype(float), d["y"], d["n_err"], d["lvcov"])
        ret = mon.call(fit_cond, *args, "max_no_breaks", k, pure=True)
        judge(mon, fam, *args, ret, k, None, f"stored example, at most {k} breaks", mc=200)
        return
    long = fam == "long"
    if long:
        fam = str(rng.choice(["line", "set", "free", "lowndf"]))
        mon.count("long series")
    X, y, err, L, size, true = series(rng, fam, long)
    m, n = X.shape
    most = {"offset": int(rng.choice([-1, -1, 0])), "line": 0, "mcline": 0, "first": int(rng.integers(-1, 3)),
            "mcfree": 1}.get(fam, int(rng.integers(1, 5)))
    if fam in ("lowndf", "few"):
        most = int(rng.integers(-1, 5))
    setb = None
    loops = int(rng.choice([1, 5, 20]))
    mc = None
    if fam in ("set", "mcset", "fewer"):
        f = Fit(X, y, err, L)
        have = np.unique(f.x)
        inside = np.arange(2, len(have) - 2)
        if len(inside) < 3:
            mon.count("too few to prescribe")
            return
        q = np.sort(rng.choice(inside[::2], min(len(inside[::2]), int(rng.integers(1, 4))), replace=False))
        setb = np.array([have[i] + rng.choice([0, 0.5, rng.uniform(0.05, 0.95)]) for i in q])
        most = len(setb)
    if fam in ("mcline", "mcset"):
        loops = mc = 3000
    if fam == "mcfree":
        loops = mc = 200
    opts = []
    if setb is not None:
        opts += ["breaks", setb]
    if fam == "fewer":
        most = len(setb) + int(rng.integers(1, 3))
    kind = rng.random()
    if setb is None or fam == "fewer" or kind < 0.6:
        opts += ["max_no_breaks", float(most) if kind < 0.3 else most]
    if rng.random() < 0.3:
        opts = opts[2:] + opts[:2]
    what = f"{fam}: {n} profiles of {m} levels, at most {most} breaks" + ("" if setb is None else f", breaks at {setb}")
    if fam == "permuted":
        order = rng.permutation(n)
        lev = rng.permutation(m)
        flat = (order[:, None] * m + lev[None, :]).ravel()
        X2, y2, err2, L2 = X[lev][:, order], y[lev][:, order], err[lev][:, order], L[np.ix_(flat, flat)]
        ret = mon.call(fit_cond, X2, y2, err2, L2, *opts, "nloops", loops, pure=True)
        judge(mon, fam, X2, y2, err2, L2, ret, most, setb, what + ", permuted")
        mon.count("permuted")
        return
    if fam == "fewer":
        ret = mon.call(fit_cond, X, y, err, L, *opts, "nloops", 3, catch=(TypeError, IndexError, AttributeError, ValueError))
        if isinstance(ret, core.Raised):
            mon.finding("fewer-prescribed-breaks", f"{what}: {ret}")
            return
        got = np.asarray(ret[9], float).ravel()
        mon.check(all(np.min(np.abs(got - b), initial=np.inf) < 1e-6 for b in setb), "prescribed", f"{what}: breaks {got}")
        if len(got) == len(setb):
            judge(mon, fam, X, y, err, L, ret, len(setb), setb, what)
        return
    ret = mon.call(fit_cond, X, y, err, L, *opts, "nloops", loops, pure=True)
    out = judge(mon, fam, X, y, err, L, ret, most, setb, what, mc=mc)
    if out:
        mon.sample = dict(profiles=n, points=out[0].n, ndf=out[0].ndf, breaks=ret[9], true=true, max_breaks=most,
                          fit=np.ravel(ret[1])[:4], error=np.ravel(ret[2])[:4])
