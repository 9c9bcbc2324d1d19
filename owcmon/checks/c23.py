"""C23 the default configuration"""
import copy
import os
import re

import numpy as np

from .. import core, world
from ..gen import cases
from . import c18

ID = "C23"
RULE = ("A case is a history of 4-14 loads, modifications by the user (any value type, entries of list values, added, removed and reordered "
        "parameters) and displays of several configurations held at the same time; after every operation each configuration is compared "
        "with a model of it. Distinct by (family, operation, parameter, type of value).")
REQUIRE = {"loads": (150, 2000), "displays": (150, 2000), "modifications": (300, 4000), "nested": (80, 1000), "values displayed": (5000, 70000),
           "used": (2, 10)}
ASSUMPTIONS = ["text values hold no line break"]
# the documented defaults
DEFAULTS = {
    'HISTORICAL_DIRECTORY': "data/climatology/", 'HISTORICAL_CTD_PREFIX': "/historical_ctd/ctd_",
    'HISTORICAL_BOTTLE_PREFIX': "/historical_bot/bot_", 'HISTORICAL_ARGO_PREFIX': "/historical_argo/argo_",
    'FLOAT_SOURCE_DIRECTORY': "data/float_source/", 'FLOAT_SOURCE_POSTFIX': ".mat",
    'FLOAT_MAPPED_DIRECTORY': "data/float_mapped/", 'FLOAT_MAPPED_PREFIX': "map_", 'FLOAT_MAPPED_POSTFIX': ".mat",
    'FLOAT_CALIB_DIRECTORY': "data/float_calib", 'FLOAT_CALIB_PREFIX': "cal_", 'FLOAT_CALSERIES_PREFIX': "calseries_",
    'FLOAT_CALIB_POSTFIX': ".mat", 'FLOAT_PLOTS_DIRECTORY': "data/float_plots/", 'FLOAT_PLOTS_FORMAT': "eps",
    'CONFIG_DIRECTORY': "data/constants/", 'CONFIG_COASTLINES': "coastdat.mat", 'CONFIG_WMO_BOXES': "wmo_boxes.mat",
    'CONFIG_SAF': "TypicalProfileAroundSAF.mat", 'CONFIG_MAX_CASTS': 300, 'MAP_USE_PV': 0, 'MAP_USE_SAF': 0,
    'MAPSCALE_LONGITUDE_LARGE': 8, 'MAPSCALE_LONGITUDE_SMALL': 4, 'MAPSCALE_LATITUDE_LARGE': 4, 'MAPSCALE_LATITUDE_SMALL': 2,
    'MAPSCALE_PHI_LARGE': 0.1, 'MAPSCALE_PHI_SMALL': 0.02, 'MAPSCALE_AGE_LARGE': 20, 'MAPSCALE_AGE_SMALL': 10,
    'MAP_P_EXCLUDE': 100, 'MAP_P_DELTA': 250, 'THETA_BOUNDS': [[0, 5], [5, 20]],
}


def setup(scratch):
    c18.setup(scratch)


def plan(tier, rng):
    k = 1 if tier == "quick" else 13
    return cases(rng, history=70 * k, modify=30 * k, used=(2 if tier == "quick" else 10, 4))


def value(rng, old):
    """what a user might set"""
    kind = str(rng.choice(["int", "float", "negative", "text", "odd text", "empty", "none", "bool", "list", "nested", "array", "same type", "dict", "tuple"]))
    return kind, {
        "int": int(rng.integers(0, 10 ** 6)), "float": float(rng.normal()) * 10 ** int(rng.integers(-12, 12)), "negative": -int(rng.integers(1, 900)),
        "text": "/scratch/run_%d/" % rng.integers(1000), "odd text": str(rng.choice(["a: b", "{x}", "100%", "%s %d", "{0}", "\\n", "é°", " MAP_USE_PV: 9", "{{}}"])),
        "empty": "", "none": None, "bool": bool(rng.random() < 0.5), "list": [int(rng.integers(9)), 0.5], "nested": [[1, int(rng.integers(9))], []],
        "array": np.arange(int(rng.integers(1, 60))) * 1.5, "same type": old * 2 if isinstance(old, (int, float, str)) else old, "dict": {"a": [1]},
        "tuple": (1, "x")}[kind]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def judge_display(mon, text, cfg, what):
    mon.check(isinstance(text, str), "display-type", f"{what}: {type(text).__name__} instead of text")
    marks = []
    for k in cfg:
        hits = [m for m in re.finditer(r"(?m)^[ \t]*" + re.escape(k) + r"[ \t]*:", text)]
        mon.check(len(hits) == 1, "display-count", f"{what}: parameter {k} is displayed {len(hits)} times")
        marks.append((hits[0].start(), hits[0].end(), k))
    marks.sort()
    for (_, end, k), nxt in zip(marks, marks[1:] + [(len(text), 0, "")]):
        got = text[end:nxt[0]].strip()
        v = cfg[k]
        mon.check(got in (str(v).strip(), repr(v).strip()), "display-value", f"{what}: {k} is displayed as {got[:80]!r}, is {str(v)[:80]!r}")
        mon.count("values displayed")
    mon.check(text[:marks[0][0]].strip() == "" if marks else True, "display-extra", f"{what}: {text[:60]!r} is displayed ahead of the parameters")


def judge_load(mon, cfg, what):
    keys = list(cfg)
    mon.check(keys == sorted(keys), "sorted", f"{what}: parameters are not sorted by name: {keys}")
    mon.check(set(keys) == set(DEFAULTS), "parameters", f"{what}: parameters {sorted(set(keys) ^ set(DEFAULTS))} are missing or new")
    for k, v in DEFAULTS.items():
        got = cfg[k]
        mon.check(got == v and isinstance(got, str) == isinstance(v, str), "default", f"{what}: {k} is {got!r}, documented {v!r}")
        if isinstance(v, list):
            mon.check(isinstance(got, list) and all(isinstance(x, list) for x in got), "default-type", f"{what}: {k} is {got!r}")


def run(case, rng, mon):
    import pyowc
    from pyowc.configuration import load, print_cfg
    fam = case["fam"]
    if fam == "used":
        return used(rng, mon)
    held = []                          # (configuration, model)
    home = os.getcwd()
    for step in range(int(rng.integers(4, 15))):
        op = str(rng.choice(["load", "set", "nested", "show", "show", "structure"])) if held else "load"
        if fam == "modify" and held and rng.random() < 0.5:
            op = "nested"
        what = f"step {step + 1} ({op})"
        if op == "load":
            if rng.random() < 0.3:
                os.chdir(mon.scratch)
            cfg = mon.call(load)
            os.chdir(home)
            judge_load(mon, cfg, what)
            mon.check(all(cfg is not c for c, _ in held), "fresh", f"{what}: the same object as an earlier configuration")
            held.append((cfg, copy.deepcopy(cfg)))
            mon.count("loads")
            mon.seen(fam, op, len(held))
        else:
            cfg, model = held[int(rng.integers(len(held)))]
            k = str(rng.choice(list(cfg))) if cfg else None
            if op == "show":
                text = mon.call(print_cfg, cfg, pure=True)
                judge_display(mon, text, cfg, what)
                mon.check(mon.call(print_cfg, cfg) == text, "display-again", f"{what}: displayed differently the second time")
                mon.count("displays")
            elif op == "set" and k:
                kind, v = value(rng, cfg[k])
                cfg[k], model[k] = v, copy.deepcopy(v)
                mon.count("modifications")
                mon.seen(fam, op, k, kind)
            elif op == "nested":
                tb = cfg.get("THETA_BOUNDS")
                if isinstance(tb, list) and tb and isinstance(tb[0], list) and tb[0]:
                    how = int(rng.integers(4))
                    for c in (cfg, model):
                        t = c["THETA_BOUNDS"]
                        if how == 0:
                            t[0][-1] = 77 + step
                        elif how == 1:
                            t.append([20, 30 + step])
                        elif how == 2:
                            t[-1] = [step, step + 1]
                        else:
                            t[0].append(step)
                    mon.count("nested")
                    mon.count("modifications")
                    mon.seen(fam, op, how)
            elif op == "structure" and k:
                how = int(rng.integers(3))
                for c in (cfg, model):
                    if how == 0:
                        c[f"MY_PARAMETER_{step}"] = step
                    elif how == 1:
                        c.pop(k)
                    else:
                        c[k] = c.pop(k)            # moves to the end
                mon.count("modifications")
                mon.seen(fam, op, how)
        for j, (c, m) in enumerate(held):
            mon.check(list(c) == list(m) and all(same(c[k], m[k]) for k in m), "shared",
                      f"{what}: configuration {j + 1} of {len(held)} has changed: "
                      f"{[(k, c.get(k)) for k in m if k not in c or not same(c[k], m[k])][:3]}")
        mon.ev()
    mon.check(pyowc.configuration.load() == DEFAULTS, "defaults-changed", "the defaults have changed at the end of the history")
    mon.sample = dict(configurations=len(held), last={k: core.jsonable(v) for k, v in list(held[-1][0].items())[:5]})


def used(rng, mon):
    """a step of the pipeline neither changes the configuration nor the defaults"""
    from pyowc.configuration import load, set_calseries
    from pyowc.calibration import calc_piecewisefit
    w, name, fl, mapped, err, drift = c18.build(os.path.join(mon.scratch, "w"), rng, n=8)
    cfg = mon.call(load)
    mine = {k: v for k, v in w.cfg.items() if "DIRECTORY" in k or "SCALE" in k}
    cfg.update(mine)
    want = copy.deepcopy(cfg)
    mon.call(set_calseries, w.float_dir, name, cfg)
    sets = c18.settings(fl, max_breaks=0)
    from scipy.io import savemat
    savemat(w.series_path(name), sets)
    mon.call(calc_piecewisefit, w.float_dir, name, cfg)
    mon.check(list(cfg) == list(want) and all(same(cfg[k], want[k]) for k in want), "step-changes", "preparing and calibrating changed the configuration")
    judge_load(mon, mon.call(load), "after calibrating")
    mon.count("used")
    mon.count("loads")
    mon.seen("used", int(rng.integers(9)))
