"""C25 distance measures"""
import numpy as np

from .. import refs
from ..gen import cases

ID = "C25"
RULE = ("A case is a set of random pairs of points, scales and vorticities (with and without vorticity, coincident points, "
        "points on the rim); distinct by (family, vorticity on, inside/outside, sign of latitudes).")
REQUIRE = {"ellipse": (4000, 60000), "inside": (800, 10000), "outside": (800, 10000), "correlation": (4000, 60000),
           "pv": (4000, 60000), "with-pv": (1500, 20000), "rim": (200, 2000), "pv-dry": (200, 3000)}


def plan(tier, rng):
    k = 1 if tier == "quick" else 15
    return cases(rng, random=10 * k, vorticity=10 * k, coincident=4 * k, rim=6 * k)


def run(case, rng, mon):
    from pyowc.core.finders import find_ellipse
    from pyowc.utilities import spatial_correlation, potential_vorticity
    fam = case["fam"]
    for _ in range(300):
        x1, x2 = rng.uniform(0, 400, 2)
        y1, y2 = rng.uniform(-80, 80, 2)
        sx, sy, sa = 10 ** rng.uniform(-0.5, 1.5, 3)
        if rng.random() < 0.6:
            x2, y2 = x1 + rng.normal(0, 2 * sx), y1 + rng.normal(0, 2 * sy)
        t1, t2 = rng.uniform(1950, 2020, 2)
        phi = 10 ** rng.uniform(-2.5, 0.5)
        pv1 = pv2 = 0.0
        if fam == "vorticity" or rng.random() < 0.3:
            pv1, pv2 = 10 ** rng.uniform(-9, -7, 2) * rng.choice([-1, 1], 2)
            if rng.random() < 0.6:
                pv2 = pv1 * rng.uniform(0.8, 1.2)
            if rng.random() < 0.1:
                pv2 = 0.0
        if fam == "coincident":
            x2, y2, t2, pv2 = x1, y1, t1, pv1
        if fam == "rim":
            a, r = rng.uniform(0, 2 * np.pi), 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1)
            x2, y2 = x1 + 3 * sx * r * np.cos(a), y1 + 3 * sy * r * np.sin(a)
            pv1 = pv2 = 0.0
        pvt = float(refs.pv_term(pv1, pv2, phi))
        e = mon.call(find_ellipse, x1, x2, sx, y1, y2, sy, phi, pv1, pv2)
        want = float(refs.ellipse_measure(x1 - x2, y1 - y2, sx, sy, pvt))
        mon.same(e, want, "ellipse", f"ellipse measure (vorticities {pv1:.3g}, {pv2:.3g})", rtol=1e-9, atol=1e-12)
        mon.count("ellipse")
        mon.count("inside" if e < 1 else "outside")
        if fam == "rim":
            mon.check((e < 1) == (r < 1), "rim", f"a point at {r!r} of the rim measures {e!r}")
            mon.count("rim")
        c = mon.call(spatial_correlation, x1, x2, sx, y1, y2, sy, t1, t2, sa, phi, pv1, pv2)
        want = float(refs.corr_distance(x1 - x2, y1 - y2, t1 - t2, sx, sy, sa, pvt))
        mon.same(c, want, "correlation", f"correlation distance (vorticities {pv1:.3g}, {pv2:.3g})", rtol=1e-9, atol=1e-12)
        back = mon.call(spatial_correlation, x2, x1, sx, y2, y1, sy, t2, t1, sa, phi, pv2, pv1)
        mon.same(back, c, "symmetry", "correlation distance of exchanged points", rtol=1e-9, atol=1e-12)
        back = mon.call(find_ellipse, x2, x1, sx, y2, y1, sy, phi, pv2, pv1)
        mon.same(back, e, "symmetry", "ellipse measure of exchanged points", rtol=1e-9, atol=1e-12)
        if fam == "coincident":
            mon.check(c == 0 and e == 0, "zero", f"coincident points at {c}, {e}")
        elif (x1, y1, t1) != (x2, y2, t2):
            mon.check(c > 0, "zero", "different points at distance zero")
        mon.count("correlation")
        mon.count("with-pv", pv1 != 0 and pv2 != 0)
        lat = rng.choice([rng.uniform(-90, 90), 0.0, 10 ** rng.uniform(-9, -1), -30.0])
        z = 10 ** rng.uniform(1, 4) * rng.choice([1, 1, 1, -1])
        v = mon.call(potential_vorticity, lat, z)
        mon.same(v, refs.pot_vort(lat, z), "pv", f"potential vorticity at {lat}, depth {z}", rtol=1e-9)
        mon.check(v != 0, "pv-zero", "vorticity of exactly zero")
        mon.count("pv")
        if rng.random() < 0.1:                                  # over no water: unlike any other place, whatever it is given as
            lat = rng.uniform(1, 80) * rng.choice([-1, 1])
            v0 = mon.call(potential_vorticity, lat, rng.choice([0.0, -0.0]) if rng.random() < 0.5 else float(0))
            mon.check(not np.isfinite(v0), "pv-dry", f"potential vorticity {v0!r} over no water at {lat}")
            other = v if rng.random() < 0.7 else v0
            for a, b in ((v0, other), (other, v0)):
                d = mon.call(find_ellipse, x1, x2, sx, y1, y2, sy, phi, a, b)
                mon.check(not d < 1, "ellipse-dry", f"ellipse measure {d!r} with vorticities {a!r}, {b!r}")
            mon.count("pv-dry")
        mon.seen(fam, pv1 != 0, pv2 != 0, e < 1, np.sign(lat), int(np.log10(abs(v))))
    # without vorticities they default to none
    mon.same(mon.call(find_ellipse, 10.0, 12.0, 4.0, 5.0, 4.0, 2.0, 0.5),
             float(refs.ellipse_measure(2, 1, 4, 2, 0)), "ellipse-default", "ellipse measure without vorticities", rtol=1e-9)
    mon.sample = dict(points=[x1, y1, x2, y2], ellipse=e, correlation=c, pv=v)
