"""C30 the whole life of a float's files"""
import copy
import os
import shutil

import numpy as np
from scipy.io import savemat, loadmat

from .. import core, world
from ..gen import cases
from . import c12, c13, c17, c18, c20, c21

ID = "C30"
RULE = ("A case is the life of one float: 9-16 random operations (profiles arriving in order or late, leaving, being corrected, mapping, preparation, "
        "the operator's edits, calibration, plotting, other settings, new climatology, files lost, steps that fail, another float in the same "
        "directories), each judged by a model of what the files must hold then and by the same step in a directory without history. "
        "Distinct by (family, operations).")
REQUIRE = {"operations": (250, 8000), "mapped": (60, 1800), "columns kept": (150, 4500), "columns new": (90, 2700), "prepared": (50, 1600), "calibrated": (40, 1300),
           "late": (3, 150), "left": (2, 150), "corrected": (4, 250), "edited": (4, 300), "settings": (4, 250), "climatology": (3, 200), "lost": (3, 200),
           "failed": (4, 300), "other float": (3, 200), "plotted": (0, 60), "mapped under other settings": (4, 250), "no longer in the source": (2, 120),
           "levels grown": (2, 120), "levels shrunk": (4, 100)}
ASSUMPTIONS = ["as C12, C13, C17 and C18", "a float is mapped and prepared before it is calibrated, and calibrated before it is plotted"]
BOUNDS = c17.BOUNDS
LEVEL = ("PRES", "PTMP", "SAL", "TEMP")


def setup(scratch):
    c20.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 36
    return cases(rng, plain=(7 * k, 10), capped=(4 * k, 10), pv=(4 * k, 10), seam=(4 * k, 10), holes=(4 * k, 10), front=(2 * k, 10), shrink=(4 * k, 10), plot=(3 * k, 25))


class Life:
    def __init__(self, rng, mon, fam):
        self.rng, self.mon, self.fam = rng, mon, fam
        kind = fam if fam not in ("plot", "shrink") else str(rng.choice(["plain", "capped", "pv"]))
        self.w, self.name, self.all = c12.build(os.path.join(mon.scratch, "a"), kind, rng, c12._S["topo"], c12._S["path"], n=int(rng.integers(6, 11)))
        w = self.w
        for x in ("coastline", "bathymetry"):
            shutil.copytree(os.path.join(c20._S["shapes"], x), os.path.join(w.cfg["CONFIG_DIRECTORY"], x))
        w.cfg["FLOAT_PLOTS_FORMAT"] = "png"
        w.write_climatology()
        self.nums = [float(q) for q in np.ravel(self.all["PROFILE_NO"])]
        n = len(self.nums)
        # a second float in the same directories
        self.other = "4900901"
        k = int(rng.integers(1, 4))
        w.write_float(self.other, world.subset_float(self.all, np.sort(rng.choice(n, k, replace=False))))
        self.lev, self.grow = 0, fam == "shrink" or rng.random() < 0.5
        if self.grow:                        # later profiles go deeper, or some do
            rank = np.arange(n) if fam != "shrink" and rng.random() < 0.5 else rng.permutation(n)
            for j in range(n):
                k = max(8, int(self.all["PRES"].shape[0] * min(1, 0.5 + 0.6 * rank[j] / n)))
                for q in LEVEL:
                    self.all[q][k:, j] = np.nan
        self.have = []                       # profile numbers in the source
        self.cols = {}                       # what is mapped: number -> (values, settings)
        self.when = {}                       # settings and climatology a profile was mapped with
        self.hist = None
        self.series = None
        self.epoch = 0
        self.ready = set()                   # which steps are up to date
        self.done = []
        self.casts = sum(len(c) for c in w.casts.values())
        first = int(rng.integers(1, max(2, n // 2 + 1))) if fam != "shrink" else n // 2 + 1
        late = rng.random() < 0.4
        self.pool = list(rng.permutation(n)) if late else list(range(n))
        self.arrive(first)

    # -- helpers
    def paths(self):
        w = self.w
        return dict(source=w.source_path(self.name), mapped=w.mapped_path(self.name), series=w.series_path(self.name), calib=w.calib_path(self.name))

    def write(self):
        cols = sorted(self.have)
        used = np.flatnonzero(~np.isnan(self.all["PRES"][:, cols]).all(axis=1))
        was = self.lev
        self.lev = (int(used[-1]) + 1 if len(used) else 2) if self.grow else self.all["PRES"].shape[0]
        self.mon.count("levels grown", 0 < was < self.lev)
        self.mon.count("levels shrunk", 0 < self.lev < was)
        self.fl = world.subset_float(self.all, cols, self.lev)
        self.w.write_float(self.name, self.fl)
        self.ready.clear()

    def tag(self, what):
        return f"{self.fam}, operation {len(self.done)} ({what}) after {', '.join(self.done[-7:])}"

    def step(self, what, fn, args, outputs, fails=False):
        """run a step; only its own output may be touched; a failing one touches nothing"""
        mon, root = self.mon, self.w.root
        before = c21.snapshot(root)
        conf = core.fingerprint(dict(self.w.cfg))
        np.random.seed(5)
        r = mon.call(fn, *args, catch=Exception if fails else None)
        after = c21.snapshot(root)
        if fails:
            mon.check(isinstance(r, core.Raised), "fails", f"{self.tag(what)}: the step goes on without {fails}")
            outputs = []
        allowed = {os.path.relpath(p, root) for p in outputs}
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                verb = "creates" if p not in before else "removes" if p not in after else "changes"
                mon.check(p in allowed and verb != "removes", "touched", f"{self.tag(what)}: {verb} {p}")
        mon.check(core.fingerprint(dict(self.w.cfg)) == conf, "config", f"{self.tag(what)}: the configuration is changed")
        return r

    def elsewhere(self, **kinds):
        """the configuration with outputs in an empty directory"""
        root = os.path.join(self.mon.scratch, f"fresh{len(self.done)}{'-'.join(kinds)}")
        cfg = dict(self.w.cfg)
        for k in kinds:
            cfg[k] = os.path.join(root, k)
            os.makedirs(os.path.join(cfg[k], self.w.float_dir.strip("/")))
        return cfg, root

    # -- what happens to the float
    def arrive(self, k=None):
        k = int(self.rng.integers(1, 4)) if k is None else k
        new, self.pool = self.pool[:k], self.pool[k:]
        if not new:
            return False
        self.mon.count("late", bool(self.have) and min(new) < max(self.have))
        self.have += new
        self.write()

    def leave(self):
        if len(self.have) < 3:
            return False
        i = int(self.rng.integers(len(self.have)))
        if self.grow and (self.fam == "shrink" or self.rng.random() < 0.6):            # the deepest one
            i = int(np.argmax(np.isfinite(self.all["PRES"][:, self.have]).sum(0)))
        k = self.have.pop(i)
        if self.rng.random() < (0.8 if self.fam == "shrink" else 0.4):                          # to return some day
            self.pool.append(k)
        self.write()
        self.mon.count("left")

    def correct(self):
        j = int(self.rng.choice(self.have))
        if self.rng.random() < 0.7:
            self.all["SAL"][:, j] += self.rng.choice([-1, 1]) * 0.004
        else:
            k = self.rng.integers(min(2, self.lev - 1), self.lev, 2)
            self.all["SAL"][k, j] = np.nan
        ready = set(self.ready)
        self.write()
        self.ready = ready - {"fit"}
        self.mon.count("corrected")

    def settings(self):
        cfg, rng = self.w.cfg, self.rng
        for k in rng.permutation(["LONGITUDE", "LATITUDE", "AGE", "delta", "exclude", "pv"])[:int(rng.integers(1, 4))]:
            if k == "delta":
                cfg["MAP_P_DELTA"] = int(rng.choice([60, 90, 250, 380]))
            elif k == "exclude":
                cfg["MAP_P_EXCLUDE"] = int(rng.choice([0, 60, 120, 320]))
            elif k == "pv":
                cfg["MAP_USE_PV"] = 1 - cfg["MAP_USE_PV"]
            else:
                f = float(rng.choice([0.8, 1.25]))
                cfg[f"MAPSCALE_{k}_LARGE"] *= f
                cfg[f"MAPSCALE_{k}_SMALL"] *= f
        self.epoch += 1
        self.ready.discard("fit")
        self.mon.count("settings")

    def climatology(self):
        """a delivery: some casts more, in boxes that there are"""
        w, rng = self.w, self.rng
        keys = [k for k, c in w.casts.items() if len(c) > 2]
        if not keys:
            return False
        for _ in range(int(rng.integers(2, 9))):
            cs = w.casts[keys[int(rng.integers(len(keys)))]]
            c = copy.deepcopy(cs[int(rng.integers(len(cs)))])
            c["date"] = float(c["date"]) + rng.uniform(0.01, 0.9)
            c["sal"] = np.asarray(c["sal"]) + rng.normal(0, 0.004)
            c["source"] = "4901002_001.ABC"
            cs.append(c)
        w.write_climatology()
        self.epoch += 1
        self.mon.count("climatology")

    def lose(self):
        p = self.paths()
        what = str(self.rng.choice([k for k in ("mapped", "series", "calib") if os.path.exists(p[k])] or [""]))
        if not what:
            return False
        os.unlink(p[what])
        if what == "mapped":
            self.cols, self.hist, self.when = {}, None, {}
            self.ready -= {"map"}
        if what == "series":
            self.series = None
            self.ready -= {"series"}
        self.ready -= {"fit"}
        self.mon.count("lost")

    def edit(self):
        """the operator"""
        if self.series is None:
            return False
        rng, s = self.rng, self.series
        keys = sorted(s["flag"])
        cut = int(rng.integers(0, len(keys) + 1)) if rng.random() < 0.4 else 0
        for q, k in enumerate(keys):
            s["flag"][k] = 1.0 + (cut > 0 and q >= cut)
            if rng.random() < 0.1:
                s["flag"][k] = 0.0
        s["set"]["max_breaks"] = np.array([[int(rng.integers(-1, 2))]])
        s["set"]["use_percent_gt"] = np.array([[float(rng.choice([0.2, 0.5]))]])
        for b in BOUNDS:
            s["set"][b] = np.zeros((0, 0))
        if rng.random() < 0.5:
            s["set"]["use_pres_gt"] = np.array([[float(rng.uniform(200, 700))]])
        savemat(self.paths()["series"], dict(calseries=np.array([[s["flag"][k] for k in keys]]), calib_profile_no=np.array([keys]), **s["set"]))
        self.ready.discard("fit")
        self.mon.count("edited")

    # -- the steps
    def map(self):
        from pyowc.calibration import update_salinity_mapping
        mon, w, tag = self.mon, self.w, self.tag("map")
        self.step("map", update_salinity_mapping, (w.float_dir, w.cfg, self.name), [w.mapped_path(self.name)])
        out = loadmat(w.mapped_path(self.name))
        now = c13.columns(out)
        have = [self.nums[j] for j in self.have]
        mon.check(len(now[0]) == len(set(now[0])), "twice", f"{tag}: {now[0]}")
        mon.same(now[0], np.array(sorted(set(have) | set(self.cols))), "profiles", tag + ": profiles in the mapped file")
        mon.count("no longer in the source", len(set(self.cols) - set(have)))
        c13.kept(mon, (sorted(self.cols), self.cols), now, tag)
        mon.count("columns kept", len(self.cols))
        new = sorted(set(have) - set(self.cols))
        h1 = c13.hist_of(out)
        if self.hist is not None:
            mon.check(all(np.any(np.all(np.abs(h1 - r) < 1e-9, axis=1)) for r in self.hist), "hist-lost", f"{tag}: reference positions saved before are lost")
        if new:
            cfg, root = self.elsewhere(FLOAT_MAPPED_DIRECTORY=1)
            cfg["HISTORICAL_DIRECTORY"] = os.path.join(root, "climatology")       # (nor with files read before)
            shutil.copytree(w.cfg["HISTORICAL_DIRECTORY"], cfg["HISTORICAL_DIRECTORY"])
            np.random.seed(5)
            mon.call(update_salinity_mapping, w.float_dir, cfg, self.name)
            two = loadmat(os.path.join(cfg["FLOAT_MAPPED_DIRECTORY"], w.float_dir.strip("/"), os.path.basename(w.mapped_path(self.name))))
            ref = c13.columns(two)[1]
            for k in new:
                for part in (0, 1):
                    for q, v in ref[k][part].items():
                        if part == 0:
                            v = np.concatenate((v, np.full(max(0, len(now[1][k][0][q]) - len(v)), np.nan)))
                        mon.same(now[1][k][part][q], v, "new", f"{tag}: {q} of the new profile {k:g}, unlike that of a fresh mapping", atol=1e-12, rtol=1e-9)
                self.when[k] = self.epoch
                mon.count("columns new")
            h2 = c13.hist_of(two)
            for r in h2[np.isin(h2[:, 2], new)] if len(h2) else []:
                d = np.abs(h1[:, :2] - r[:2]) if len(h1) else np.ones((1, 2))
                d[:, 0] = np.minimum(d[:, 0], 360 - d[:, 0])
                mon.check(np.any(np.all(d < 1 / 60 + 1e-9, axis=1)), "hist-new", f"{tag}: the reference position {r} of a fresh mapping is not saved")
            shutil.rmtree(root)
        mon.count("mapped under other settings", len(set(self.when.values())) > 1)
        self.cols, self.hist = now[1], h1
        self.ready.add("map")
        self.ready.discard("fit")
        mon.count("mapped")

    def prepare(self):
        from pyowc.configuration import set_calseries
        mon, w, tag = self.mon, self.w, self.tag("prepare")
        have = sorted(self.nums[j] for j in self.have)
        self.step("prepare", set_calseries, (w.float_dir, self.name, w.cfg), [w.series_path(self.name)])
        got = loadmat(w.series_path(self.name))
        cal, num = np.asarray(got["calseries"], float).ravel(), np.asarray(got["calib_profile_no"], float).ravel()
        mon.same(num, np.array(have), "series-profiles", f"{tag}: profiles listed")
        bad = {q for j, q in enumerate(have) if any(np.all(np.isnan(self.fl[k][:, j])) for k in ("SAL", "TEMP", "PRES"))}
        old = {} if self.series is None else {k: v for k, v in self.series["flag"].items() if k in have}
        want = {}
        for j, q in enumerate(have):
            if not old:
                want[q] = 1.0
            elif q in old:
                want[q] = old[q]
            else:
                want[q] = want[have[j - 1]] if j else None
        for q, c in zip(num, cal):
            v = 0.0 if q in bad else want[q]
            if v is None:                                    # nothing precedes it
                mon.check(c in set(old.values()) | {1.0}, "series", f"{tag}: the first profile {q:g} gets series {c:g}")
                continue
            if v is not None and want[q] is not None:
                mon.check(c == v, "series", f"{tag}: profile {q:g} has series {c:g} instead of {v:g}")
        if any(v is None for v in want.values()):
            pass
        sets = dict(breaks=np.zeros((0, 0)), max_breaks=np.array([[4]]), use_percent_gt=np.array([[0.5]]), **{b: np.zeros((0, 0)) for b in BOUNDS})
        if self.series is not None:
            sets = self.series["set"]
        for k, v in sets.items():
            c17.same_setting(mon, got[k], v, k, tag)
        self.series = dict(flag=dict(zip(map(float, num), cal)), set={k: got[k] for k in sets})
        self.ready.add("series")
        self.ready.discard("fit")
        mon.count("prepared")

    def fit(self):
        from pyowc.calibration import calc_piecewisefit
        mon, w, tag = self.mon, self.w, self.tag("fit")
        if not {"map", "series"} <= self.ready:
            return False
        if np.size(self.series["set"]["max_breaks"]) == 1 and np.ravel(self.series["set"]["max_breaks"])[0] > 1:      # (quicker)
            self.series["set"]["max_breaks"] = np.array([[int(self.rng.integers(-1, 2))]])
            d = {k: v for k, v in loadmat(w.series_path(self.name)).items() if not k.startswith("__")}
            savemat(w.series_path(self.name), dict(d, max_breaks=self.series["set"]["max_breaks"]))
        self.step("fit", calc_piecewisefit, (w.float_dir, self.name, w.cfg), [w.calib_path(self.name)])
        out = loadmat(w.calib_path(self.name))
        have = sorted(self.nums[j] for j in self.have)
        flags = np.array([self.series["flag"][q] for q in have])
        fl = {k: np.asarray(v, float) for k, v in self.fl.items()}
        c18.check_file(mon, fl, out, flags, tag)
        # without history: mapped data of these profiles only, settings and calibration in an empty directory
        cfg, root = self.elsewhere(FLOAT_MAPPED_DIRECTORY=1, FLOAT_CALIB_DIRECTORY=1)
        v = copy.copy(w)
        v.cfg = cfg
        mp = {q: np.column_stack([self.cols[k][0][q] for k in have]) for q in c13.MAT}
        mp |= {q: np.array([[self.cols[k][1][q] for k in have]]) for q in c13.PER}
        h = self.hist[np.isin(self.hist[:, 2], have)]
        if not len(h) and len(self.hist):
            h = self.hist[:1]
        savemat(v.mapped_path(self.name), dict(mp, la_profile_no=np.array([have]), selected_hist=h if len(h) else np.zeros((0, 0))))
        savemat(v.series_path(self.name), dict(calseries=np.array([flags]), calib_profile_no=np.array([have]), **self.series["set"]))
        np.random.seed(5)
        mon.call(calc_piecewisefit, w.float_dir, self.name, cfg)
        d = world.mat_equal(out, loadmat(v.calib_path(self.name)), rtol=1e-9, atol=1e-12)
        mon.check(d is None, "history", f"{tag}: {d} of the calibration is not that of the same data without history")
        self.ready.add("fit")
        mon.count("calibrated")
        self.keep = (v, root)
        if self.fam != "plot":
            shutil.rmtree(root)

    def plot(self):
        from pyowc.plot.dashboard import plot_diagnostics
        import matplotlib.pyplot as plt
        mon, w, tag = self.mon, self.w, self.tag("plot")
        if "fit" not in self.ready or not np.any(np.isfinite(loadmat(w.calib_path(self.name))["cal_SAL"])):
            return False
        files = c21.plot_files(w, self.name, 1)
        self.step("plot", plot_diagnostics, (w.float_dir, self.name, w.cfg, 1), files)
        for p in files:
            mon.check(os.path.exists(p), "figures", f"{tag}: {os.path.basename(p)} is missing")
        plt.close("all")
        mon.count("plotted")

    def fails(self):
        """a step without something it needs"""
        from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
        from pyowc.configuration import set_calseries
        w, rng, p = self.w, self.rng, self.paths()
        tb = os.path.join(w.cfg["CONFIG_DIRECTORY"], "tbase.int")
        new = [j for j in self.have if self.nums[j] not in self.cols and np.isfinite(self.all["LAT"][0, j] + self.all["LONG"][0, j])
               and np.any(np.isfinite(self.all["PRES"][:, j]))]
        todo = [("source", p["source"], update_salinity_mapping, (w.float_dir, w.cfg, self.name)), ("source", p["source"], set_calseries, (w.float_dir, self.name, w.cfg)),
                ("source", p["source"], calc_piecewisefit, (w.float_dir, self.name, w.cfg)), ("mapped data", p["mapped"], calc_piecewisefit, (w.float_dir, self.name, w.cfg)),
                ("settings", p["series"], calc_piecewisefit, (w.float_dir, self.name, w.cfg))]
        if new:
            todo += [("bathymetry", tb, update_salinity_mapping, (w.float_dir, w.cfg, self.name))] * 3
        what, path, fn, args = todo[int(rng.integers(len(todo)))]
        away = os.path.join(self.mon.scratch, "away")
        if os.path.exists(path):
            shutil.move(path, away)
        try:
            self.step(f"{fn.__name__} without {what}", fn, args, [], fails=what)
        finally:
            if os.path.exists(away):
                shutil.move(away, path)
        self.mon.count("failed")

    def foreign(self):
        """another float is processed"""
        from pyowc.calibration import update_salinity_mapping
        from pyowc.configuration import set_calseries
        w = self.w
        if self.rng.random() < 0.6:
            self.step("other float mapped", update_salinity_mapping, (w.float_dir, w.cfg, self.other), [w.mapped_path(self.other)])
        else:
            self.step("other float prepared", set_calseries, (w.float_dir, self.other, w.cfg), [w.series_path(self.other)])
        self.mon.count("other float")


def run(case, rng, mon):
    fam = case["fam"]
    f = Life(rng, mon, fam)
    n = int(rng.integers(9, 17))
    weights = dict(arrive=4, leave=2, correct=2, settings=2, climatology=1.5, lose=1.3, edit=2, map=3, prepare=2, fit=3, fails=1.7, foreign=1.5, round=5,
                   plot=1 if fam == "plot" else 0)
    names, p = list(weights), np.array(list(weights.values()))
    todo = ["round"] + [str(x) for x in rng.choice(names, n, p=p / p.sum())] + ["arrive", "round"] + (["plot"] if fam == "plot" else [])
    if fam == "shrink":                                      # the deepest profile leaves, and perhaps returns
        todo[1:1] = ["leave", "leave"] + [str(x) for x in rng.permutation(["round", "arrive", "map"])] + ["round", "arrive", "arrive", "round"]
    for op in todo:
        for one in ("map", "prepare", "fit") if op == "round" else (op,):
            if getattr(f, one)() is not False:
                f.done.append(one)
                mon.count("operations")
    mon.seen(fam, f.done)
    mon.sample = dict(operations=f.done, profiles=len(f.have), mapped=len(f.cols), epochs=sorted(set(f.when.values())))
