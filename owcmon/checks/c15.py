"""C15 piecewise line at given breaks"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C15"
RULE = ("A case is a sorted data set (distinct or repeated abscissae, points on breaks, gaps between breaks), weights (none, "
        "diagonal, between observations) and 0-5 breaks, or a degenerate one, or a sort-into-intervals query; distinct by (family, size, breaks, weights).")
REQUIRE = {"fits": (150, 2000), "unweighted": (40, 500), "correlated": (20, 300), "on-break": (12, 200), "degenerate": (20, 200), "sorted": (60, 800)}
ASSUMPTIONS = ["abscissae sorted, breaks increasing and inside the data"]


def plan(tier, rng):
    k = 1 if tier == "quick" else 15
    return cases(rng, general=70 * k, repeated=50 * k, onbreak=40 * k, weights=40 * k, correlated=30 * k, degenerate=25 * k, sorter=60 * k)


def run(case, rng, mon):
    from pyowc.core.stats import brk_pt_fit
    from pyowc.utilities import sorter
    fam = case["fam"]
    if fam == "sorter":
        m, n = int(rng.integers(1, 8)), int(rng.integers(1, 60))
        edges = np.unique(np.round(rng.uniform(-1, 1, m), 2))
        x = np.sort(np.round(rng.uniform(-1.2, 1.2, n), 2))
        got = np.asarray(mon.call(sorter, edges, x, pure=True)).ravel()
        mon.same(got, np.searchsorted(edges, x, side="right") - 1, "interval", f"intervals of {n} points in {len(edges)} edges")
        mon.count("sorted")
        mon.seen(fam, len(edges), n)
        return
    nb = int(rng.integers(0, 6))
    n = int(rng.integers(nb + 4, 120))
    scale = 10 ** rng.uniform(-1, 2)
    x = np.sort(rng.uniform(-1, 1, n)) * scale
    if fam == "repeated":
        x = np.sort(np.tile(np.unique(np.round(rng.uniform(-1, 1, max(nb + 4, n // 5)), 3)), int(rng.integers(2, 8)))) * scale
        n = len(x)
    u = np.unique(x)
    nb = min(nb, max(0, (len(u) - 2) // 2))
    # at least one abscissa strictly inside every interval (else the design is degenerate)
    pick = np.sort(rng.choice(np.arange(1, len(u) - 1)[::2], nb, replace=False)) if nb and len(u) > 3 else []
    nb = len(pick)
    breaks = np.array([u[i] if fam == "onbreak" else u[i] + rng.uniform(0.05, 0.95) * (u[i + 1] - u[i]) for i in pick])
    y = rng.normal(0, 1, n) + 5 * rng.normal() * x / scale
    for b in breaks:
        y = y + rng.normal() * 4 * np.maximum(0, x - b) / scale
    weighted = fam == "weights" or rng.random() < 0.6
    w = 10 ** rng.uniform(-2, 2, n) if fam == "weights" else rng.uniform(0.2, 3, n)
    W = np.diag(w) if weighted else []
    R = np.diag(np.sqrt(w)) if weighted else np.eye(n)           # W = R'R
    if fam == "correlated":
        weighted = True
        R = R + rng.uniform(0.02, 0.5) * rng.normal(0, 1, (n, n)) / np.sqrt(n) * np.sqrt(w)[:, None]
        W = R.T @ R
    what = f"{fam}: {n} points, {nb} breaks, {'weights' if weighted else 'no weights'}"
    if fam == "degenerate":
        kind = int(rng.integers(2))
        if kind == 0:
            y = y[:-int(rng.integers(1, n))]
        else:
            x = np.full(n, x[0])
            breaks = np.array([])
        a, r = mon.call(brk_pt_fit, x, y, W, breaks)
        mon.check(np.asarray(a).size == len(breaks) + 2 and np.all(np.asarray(a) == 0), "degenerate-coefficients", what + f": {a}")
        mon.same(np.asarray(r).ravel(), y, "degenerate-residual", what + ": residuals")
        mon.count("degenerate")
        return
    E = refs.pw_design(x, x[0], breaks)
    R = R if weighted else np.eye(n)
    F = R @ E
    cond = np.linalg.cond(F)
    if cond > 1e5:
        mon.count("ill-conditioned")
        return
    args = (x, y, W, breaks) if nb or rng.random() < 0.5 else (x, y, W)
    a, r = mon.call(brk_pt_fit, *args, pure=True)
    a, r = np.asarray(a, float).ravel(), np.asarray(r, float).ravel()
    mon.check(a.shape == (nb + 2,) and r.shape == (n,), "shape", what + f": {a.shape}, {r.shape}")
    want, rss = refs.wls(F, R @ y, np.ones(n))
    amp = np.abs(y).max()
    tol = 1e-14 * cond ** 2 + 1e-11
    mon.same(E @ a, E @ want, "fit", what + ": fitted values", atol=amp * tol * 10)
    mon.same(r, y - E @ a, "residual", what + ": residuals", atol=amp * (1e-11 + tol))
    got = np.sum((R @ r) ** 2)
    mon.check(got <= rss * (1 + 1e-7) + 1e-12 * amp ** 2 * np.sum(R ** 2), "optimum",
              what + f": weighted sum of squares {got}, attainable {rss}")
    # stationarity: no continuous piecewise line with these breaks is left in the residuals
    g = F.T @ (R @ r)
    mon.check(np.all(np.abs(g) <= 1e-7 * amp * np.sum(np.abs(R.T @ R) @ np.abs(E), axis=0) + 1e-9), "gradient", what + f": {g}")
    mon.count("fits")
    mon.count("unweighted", not weighted)
    mon.count("correlated", fam == "correlated")
    mon.count("on-break", fam == "onbreak" and nb > 0)
    mon.seen(fam, n, nb, weighted)
    mon.sample = dict(n=n, breaks=breaks, coefficients=a, reference=want)
