"""C05 calendar dates to decimal years"""
import datetime

import numpy as np

from .. import refs
from ..gen import cases

ID = "C05"
RULE = ("A case is one array of dates (random, every day of a year, month ends, every minute of a day, with malformed "
        "elements mixed in) in one number type and resolution; distinct by (family, type, resolution, year, malformed pattern).")
REQUIRE = {"dates": (20000, 300000), "bad": (300, 3000), "ordered-pairs": (10000, 100000)}


def plan(tier, rng):
    k = 1 if tier == "quick" else 12
    return cases(rng, random=24 * k, year=16 * k, day=6 * k, mixed=30 * k, strings=4 * k)


BAD = ["month0", "month13", "day0", "day32", "short", "zero", "text", "negative"]


def bad_value(kind, rng):
    y = int(rng.integers(1950, 2030))
    m, d = int(rng.integers(1, 13)), int(rng.integers(1, 29))
    return {"month0": f"{y}00{d:02d}1200", "month13": f"{y}{int(rng.integers(13, 99)):02d}{d:02d}0000",
            "day0": f"{y}{m:02d}000000", "day32": f"{y}{m:02d}{int(rng.integers(32, 99)):02d}0000",
            "short": str(y), "zero": "0", "text": "notadate", "negative": "-19990101"}[kind]


def digits(y, m, d, hh, mm, ss, res):
    return f"{y:04d}{m:02d}{d:02d}{hh:02d}{mm:02d}{ss:02d}"[:{"day": 8, "hour": 10, "minute": 12, "second": 14}[res]]


def run(case, rng, mon):
    from pyowc.utilities import change_dates
    fam = case["fam"]
    res = str(rng.choice(["day", "hour", "minute", "second"]))
    parts = []
    if fam == "year":
        y = int(rng.integers(1900, 2101))
        day = datetime.date(y, 1, 1)
        while day.year == y:
            parts.append((y, day.month, day.day, int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60))))
            day += datetime.timedelta(1)
    elif fam == "day":
        res = str(rng.choice(["minute", "second"]))
        y, m, d = int(rng.integers(1900, 2101)), int(rng.integers(1, 13)), int(rng.integers(1, 29))
        parts = [(y, m, d, h, mi, 0) for h in range(24) for mi in range(60)]
    else:
        for _ in range(300):
            m = int(rng.integers(1, 13))
            d = int(rng.integers(1, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1] + 1))
            if rng.random() < 0.1:
                d = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
            parts.append((int(rng.integers(1900, 2101)), m, d, int(rng.integers(24)), int(rng.integers(60)),
                          int(rng.integers(60))))
    text = [digits(*p, res) for p in parts]
    want = np.array([refs.parse_date(t) for t in text])
    kinds = []
    if fam in ("mixed", "strings"):
        pool = BAD if fam == "strings" else BAD[:6]
        for i in rng.choice(len(text), 25, replace=False):
            k = str(rng.choice(pool))
            text[i], want[i] = bad_value(k, rng), 0.0
            kinds.append(k)
    typ = "str" if fam == "strings" else str(rng.choice(["float", "int", "npint", "npfloat"]))
    if typ == "str":
        arg = list(text)
    elif typ == "int":
        arg = [int(t) for t in text]
    elif typ == "npint":
        arg = np.array([int(t) for t in text], dtype=np.int64)
    elif typ == "float":
        arg = [float(t) for t in text]
    else:
        arg = np.array([float(t) for t in text])
    got = np.asarray(mon.call(change_dates, arg, pure=True), float)
    mon.check(got.shape == (len(text),), "length", f"{got.shape} for {len(text)} dates")
    i = int(np.nanargmax(np.abs(got - want))) if len(want) else 0
    mon.same(got, want, "value", f"{typ} dates at {res} resolution (e.g. {text[i]})", atol=2e-9)
    good = want > 0
    o = np.argsort(want[good], kind="stable")
    w = want[good][o]
    g = got[good][o]
    step = np.diff(w) > 1e-7
    mon.check(np.all(np.diff(g)[step] > 0), "order", "chronological order is lost")
    mon.count("dates", len(text))
    mon.count("bad", len(kinds))
    mon.count("ordered-pairs", int(np.sum(step)))
    mon.seen(fam, typ, res, parts[0][0], tuple(sorted(set(kinds))))
    mon.sample = dict(type=typ, resolution=res, first=text[:4], result=got[:4])
    # an element does not influence another
    j = int(rng.integers(len(text)))
    one = np.asarray(mon.call(change_dates, arg[j:j + 1]), float)
    mon.same(one, got[j:j + 1], "alone", f"{text[j]} alone")
