"""C09-C11, C21: time conversion, time points and resampling grids"""
import calendar
import datetime as dt

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import (
    ExtrapolationType,
    InterpolationType,
    TimePoints,
    TimeseriesConverter,
    create_time_points,
)
from openscm.errors import InsufficientDataError
from openscm.scmdataframe.offsets import generate_range, to_offset

from . import oracle
from .base import Kind, close, expect, raises, runs

EXTRA = {"none": ExtrapolationType.NONE, "constant": ExtrapolationType.CONSTANT, "linear": ExtrapolationType.LINEAR}
PTYPE = {"average": ParameterType.AVERAGE_TIMESERIES, "point": ParameterType.POINT_TIMESERIES}


def times(rng, n, lo=None, hi=None):
    if lo is not None:
        s = set()
        k = 0
        while len(s) < n and k < 1000:
            s.add(rng.randint(lo, hi))
            k += 1
        return sorted(s)
    t = rng.choice([0, 631152000, -2208988800, rng.randint(-(10 ** 10), 10 ** 10), -62135596800])
    steps = [rng.choice([31536000, 31622400, 86400, 3600, 1, 2, 7, 10 * 31536000, rng.randint(1, 10 ** 8)]) for _ in range(n - 1)]
    k = rng.random()
    if k < 0.3 and steps:
        steps = [steps[0]] * (n - 1)
    elif k < 0.6:
        steps = [rng.randint(20, 40) * 10 ** 6 for _ in steps]
    res = [t]
    for s in steps:
        res.append(res[-1] + s)
    return res


def as_dt(ts):
    return np.array(ts, dtype=np.int64).astype("datetime64[s]")


def value(rng):
    return rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10 ** rng.randint(-15, 15)])


def target_times(rng, src, inside, n):
    lo, hi = src[0], src[-1]
    if not inside:
        w = hi - lo
        a, b = rng.choice([(lo - w, hi), (lo, hi + w), (lo - w, hi + w), (lo - 1, hi), (lo, hi + 1)])
    else:
        a, b = lo, hi
    out = set(rng.sample(src, min(len(src), rng.randint(0, len(src)))))
    if not inside:
        out |= {a, b}
    k = 0
    while len(out) < n and k < 200:
        out.add(rng.randint(a, b))
        k += 1
    return sorted(out)


def converter(kind, src, tgt, extra):
    return TimeseriesConverter(as_dt(src), as_dt(tgt), PTYPE[kind], InterpolationType.LINEAR, EXTRA[extra])


class ThroughViews:
    """The same conversion by views of a parameter; types given as members, as texts or, if they are the default, not at all."""

    def __init__(self, rng, kind, src, tgt, extra):
        words = [extra, extra.upper(), extra.capitalize(), EXTRA[extra]]
        self.kw = {"extrapolation": rng.choice(words), "timeseries_type": rng.choice([kind, kind.upper(), PTYPE[kind]])}
        if extra == "none" and rng.random() < 0.3:
            del self.kw["extrapolation"]
        if kind == "point" and rng.random() < 0.3:
            del self.kw["timeseries_type"]
        if rng.random() < 0.7:
            self.kw["interpolation"] = rng.choice(["linear", "LINEAR", "Linear", InterpolationType.LINEAR])
        self.src, self.tgt = src, tgt

    def views(self):
        ps = ParameterSet()
        return [ps.timeseries("a", "K", as_dt(t), **self.kw) for t in (self.src, self.tgt)]

    def convert_from(self, vs):
        s, t = self.views()
        s.values = vs
        return np.array(t.values)

    def convert_to(self, vs):
        s, t = self.views()
        t.values = vs
        return np.array(s.values)


def ok_ctor(src, tgt):
    return len(tgt) > 1 and src[0] <= tgt[1]


def point(rng):
    src = times(rng, rng.randint(3, 9))
    inside = rng.random() < 0.5
    tgt = target_times(rng, src, inside, rng.randint(3, 8))
    if not ok_ctor(src, tgt):
        return None
    extra = rng.choice(list(EXTRA))
    scale = 10.0 ** rng.randint(-6, 6)
    vs = np.array([value(rng) if rng.random() < 0.3 else rng.uniform(-1, 1) * scale for _ in src])
    if rng.random() < 0.2:
        vs = np.round(vs).astype(int)
    if vs.dtype == float and rng.random() < 0.25:
        c = ThroughViews(rng, "point", src, tgt, extra)
    else:
        c = runs(lambda: converter("point", src, tgt, extra), "TimeseriesConverter")
    back = rng.random() < 0.4
    f, s, t = (c.convert_from, src, tgt)
    if back:
        f, s, t = (c.convert_to, tgt, src)
        vs = np.array([rng.uniform(-1, 1) * scale for _ in tgt])
    out = t[0] < s[0] or t[-1] > s[-1]
    v0 = vs.copy()
    if len(s) < 3 or (out and extra == "none"):
        raises(InsufficientDataError, lambda: f(vs), "conversion of {} values at {} to {} ({})".format(len(s), s, t, extra))
        return ("refused", len(s), extra)
    got = runs(lambda: f(vs), "conversion")
    want = oracle.convert_times("point", s, vs, t, extra)
    tol = 1e-9 * max(np.abs(want).max(), np.abs(vs).max()) + 0
    # float rounding of large times relative to short segments
    expect(len(got) == len(want), "{} values instead of {}", len(got), len(want))
    expect(bool(np.all(np.abs(got - want) <= tol * 10)), "point timeseries {} at {} to {} ({}): {} instead of {}", list(vs), s, t, extra, list(got), list(want))
    for i, x in enumerate(t):
        if x in s:
            expect(abs(got[i] - vs[s.index(x)]) <= tol, "value at source time {} is {} instead of {}", x, got[i], vs[s.index(x)])
    expect(bool(np.all(vs == v0)), "conversion changes its input")
    again = f(vs)
    expect(bool(np.all(again == got)), "converting again gives something else")
    return (tuple(s), tuple(t), extra)


def short(rng):
    kind = rng.choice(["point", "average"])
    n = rng.randint(1, 2)
    src = times(rng, n + (kind == "average"))
    if len(src) < 2:
        src = src + [src[0] + 10]
        vs = np.array([1.0])
    else:
        vs = np.array([rng.uniform(-1, 1) for _ in range(n)])
    c = TimeseriesConverter(as_dt(src), as_dt(src), PTYPE[kind], InterpolationType.LINEAR, EXTRA[rng.choice(list(EXTRA))])
    raises(InsufficientDataError, lambda: rng.choice([c.convert_from, c.convert_to])(vs), "conversion of {} values".format(n))
    return (kind, n)


def outside(rng):
    """just outside without extrapolation"""
    kind = rng.choice(["point", "average"])
    src = times(rng, rng.randint(4, 7))
    d = rng.choice([1, 2, 1000, 10 ** 7])
    tgt = list(src)
    k = rng.randrange(3)
    if k != 1:
        tgt[0] = src[0] - d
    if k != 0:
        tgt[-1] = src[-1] + d
    c = converter(kind, src, tgt, "none")
    vs = np.array([rng.uniform(-1, 1) for _ in range(len(src) - (kind == "average"))])
    raises(InsufficientDataError, lambda: c.convert_from(vs), "conversion {} to {} without extrapolation".format(src, tgt))
    got = runs(lambda: c.convert_to(vs), "conversion to source inside")
    want = oracle.convert_times(kind, tgt, vs, src, "none")
    expect(close(got, want, rtol=1e-6, scale=1.0), "convert_to {} instead of {}", list(got), list(want))
    return (kind, k, d)


def average(rng):
    src = times(rng, rng.randint(4, 9))
    inside = rng.random() < 0.6
    tgt = target_times(rng, src, inside, rng.randint(2, 8))
    if rng.random() < 0.3:
        tgt = list(src)
    if not ok_ctor(src, tgt):
        return None
    extra = rng.choice(list(EXTRA))
    scale = 10.0 ** rng.randint(-15, 6)
    vs = np.array([rng.uniform(-1, 1) * scale for _ in src[1:]])
    c = runs(lambda: converter("average", src, tgt, extra), "TimeseriesConverter")
    out = tgt[0] < src[0] or tgt[-1] > src[-1]
    if out and extra == "none":
        raises(InsufficientDataError, lambda: c.convert_from(vs), "averages {} to {}".format(src, tgt))
        return "refused"
    v0 = vs.copy()
    got = np.asarray(runs(lambda: c.convert_from(vs), "conversion"), dtype=float)
    expect(bool(np.all(vs == v0)), "conversion changes its input")
    expect(len(got) == len(tgt) - 1, "{} values instead of {}", len(got), len(tgt) - 1)
    # the function may be any whose means over the source periods are the values; check
    # through finer target periods that one function describes everything
    fine = sorted(set(src) | set(tgt) | {rng.randint(tgt[0], tgt[-1]) for _ in range(3)})
    fine = [t for t in fine if t >= min(src[0], tgt[0])]
    if not ok_ctor(src, fine):
        return None
    cf = converter("average", src, fine, extra)
    gf = np.asarray(cf.convert_from(vs), dtype=float)
    w = np.diff(np.array(fine, dtype=float))

    def total(a, b):
        return sum(g * l for g, l, s, e in zip(gf, w, fine, fine[1:]) if a <= s and e <= b)

    big = max(np.abs(vs).max(), np.abs(gf).max(), np.abs(got).max())

    def agree(x, y, length):
        return abs(x - y) <= 2e-7 * big * max(length, 1)

    for i, (a, b) in enumerate(zip(src, src[1:])):
        expect(agree(total(a, b), vs[i] * (b - a), b - a), "source period {}..{} with mean {} has mean {} after conversion", a, b, vs[i], total(a, b) / (b - a))
    for i, (a, b) in enumerate(zip(tgt, tgt[1:])):
        expect(agree(total(a, b), got[i] * (b - a), b - a), "target period {}..{}: {} instead of mean {} of the function", a, b, got[i], total(a, b) / (b - a))
    # total amounts over spans of whole source and target periods
    both = [t for t in src if t in tgt]
    for a, b in zip(both, both[1:]):
        st = sum(v * (e - s) for v, s, e in zip(vs, src, src[1:]) if a <= s and e <= b)
        tt = sum(v * (e - s) for v, s, e in zip(got, tgt, tgt[1:]) if a <= s and e <= b)
        expect(agree(st, tt, b - a), "total over {}..{}: {} becomes {}", a, b, st, tt)
    if tgt == src:
        expect(close(got, vs, rtol=2e-7, scale=big), "conversion onto the same periods: {} becomes {}", list(vs), list(got))
    # the documented linearization
    want = oracle.convert_times("average", src, vs, tgt, extra)
    expect(close(got, want, rtol=1e-6, scale=big), "averages {} at {} to {} ({}): {} instead of {}", list(vs), src, tgt, extra, list(got), list(want))
    return (tuple(src), tuple(tgt), extra)


# --------------------------------------------------------------------------- C11
def grid(rng):
    kind = rng.choice(["point", "average"])
    n = rng.choice([1, 2, 3, 10, 100, rng.randint(1, 400)])
    start = rng.randint(-62135596800, 60 * 10 ** 9)
    step = rng.choice([1, 60, 3600, 86400, 365 * 86400, 31556926, 31557600, rng.randint(1, 10 ** 9), 7])
    if n == 1 and kind == "point":
        n = 2
    s0 = np.datetime64(start, "s")
    p = np.timedelta64(step, "s")
    if step % 86400 == 0 and rng.random() < 0.5:
        p = np.timedelta64(step // 86400, "D")
    if start % 86400 == 0:
        s0 = s0.astype("datetime64[D]")
    tt = rng.choice([kind, PTYPE[kind]])
    g = runs(lambda: create_time_points(s0, p, n, tt), "create_time_points({}, {}, {}, {})".format(s0, p, n, kind))
    m = n + (kind == "average")
    expect(len(g) == m, "{} time points instead of {}", len(g), m)
    got = np.asarray(g).astype("datetime64[s]").astype(np.int64)
    want = start + step * np.arange(m, dtype=np.int64)
    bad = np.nonzero(got != want)[0]
    expect(not len(bad), "create_time_points({}, {}, {}, {})[{}] is {} instead of {}", s0, p, n, kind, bad[:1], got[bad[:1]], want[bad[:1]])
    return (start, step, m)


EPOCH = dt.datetime(1970, 1, 1)


def instant(rng):
    k = rng.random()
    if k < 0.3:
        y = rng.choice([1, 4, 100, 400, 1582, 1600, 1677, 1678, 1899, 1900, 1904, 1969, 1970, 1972, 2000, 2100, 2262, 2263, 2400, 9998, rng.randint(1, 9998)])
        return dt.datetime(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 28]), rng.choice([0, 12, 23]))
    y = rng.randint(1, 9998)
    m = rng.randint(1, 12)
    return dt.datetime(y, m, rng.randint(1, calendar.monthrange(y, m)[1]), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def secs(d):
    return int((d - EPOCH).total_seconds()) if False else (d - EPOCH).days * 86400 + (d - EPOCH).seconds


def points(rng):
    n = rng.randint(1, 6)
    ds = [instant(rng) for _ in range(n)]
    form = rng.choice(["year", "npyear", "intlike", "float", "floatlist", "dt", "dtarr", "np64", "np64D", "np64list", "str", "strT", "yearstr", "floatstr", "date", "iso"])
    tol = 0
    if form in ("year", "npyear", "yearstr", "intlike"):
        ds = [dt.datetime(d.year, 1, 1) for d in ds]
        vals = [d.year for d in ds]
        if form == "npyear":
            vals = np.array(vals, dtype=rng.choice([np.int64, np.int32, np.int16]))
        elif form == "yearstr":
            vals = [str(v) for v in vals]
        elif form == "intlike":
            vals = [float(v) for v in vals]
    elif form in ("float", "floatlist", "floatstr"):
        fr = []
        for d in ds:
            y0, y1 = dt.datetime(d.year, 1, 1), dt.datetime(d.year + 1, 1, 1)
            fr.append(d.year + (d - y0).total_seconds() / (y1 - y0).total_seconds())
        vals = fr if form == "floatlist" else np.array(fr)
        if form == "floatstr":
            vals = [repr(float(f)) for f in fr]
        tol = 1
    elif form == "dt":
        vals = ds
    elif form == "date":
        ds = [dt.datetime(d.year, d.month, d.day) for d in ds]
        vals = [d.date() for d in ds]
    elif form == "dtarr":
        vals = np.array(ds, dtype=object)
    elif form == "np64":
        vals = np.array([np.datetime64(d, "s") for d in ds])
    elif form == "np64list":
        vals = np.array([np.datetime64(d, "s") for d in ds], dtype=object)
    elif form == "np64D":
        ds = [dt.datetime(d.year, d.month, d.day) for d in ds]
        vals = np.array([np.datetime64(d.date(), "D") for d in ds])
    else:
        ds = [d.replace(year=max(d.year, 1000)) if d.day < 29 else d.replace(year=max(d.year, 1000), day=28) for d in ds]
        fmt = {"str": "%Y-%m-%d %H:%M:%S", "strT": "%Y-%m-%dT%H:%M:%S", "iso": "%Y/%m/%d %H:%M"}[form]
        if form == "iso":
            ds = [d.replace(second=0) for d in ds]
        vals = [d.strftime(fmt) for d in ds]
        if rng.random() < 0.3:
            vals = np.array(vals, dtype=object)
    tp = runs(lambda: TimePoints(vals), "TimePoints({!r})".format(vals))
    v = np.asarray(tp.values)
    expect(v.dtype == np.dtype("datetime64[s]"), "time points of type {}", v.dtype)
    got = v.astype(np.int64)
    for g, d, x in zip(got, ds, vals):
        expect(abs(int(g) - secs(d)) <= tol, "time point {!r} is {} instead of {}", x, EPOCH + dt.timedelta(seconds=int(g)), d)
    real = [EPOCH + dt.timedelta(seconds=int(g)) for g in got]
    for name, attr in (("years", "year"), ("months", "month"), ("days", "day"), ("hours", "hour")):
        a = runs(getattr(tp, name), name)
        expect([int(x) for x in a] == [getattr(d, attr) for d in real], "{} of {} are {}", name, real, list(a))
    a = runs(tp.weekdays, "weekdays")
    expect([int(x) for x in a] == [d.weekday() for d in real], "weekdays of {} are {}", real, list(a))
    i = runs(tp.to_index, "to_index")
    expect(list(i) == real and i.name == "time", "index of {} is {}", real, list(i))
    return (form, tuple(ds))


# --------------------------------------------------------------------------- C21
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


def regular(rule, day):
    """is midnight of this day a regular time?"""
    last = calendar.monthrange(day.year, day.month)[1]
    base, _, anchor = rule.partition("-")
    if base in ("W",):
        return day.weekday() == ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"].index(anchor or "SUN")
    if base == "MS":
        return day.day == 1
    if base == "M":
        return day.day == last
    if base == "SMS":
        return day.day in (1, 15)
    if base == "SM":
        return day.day in (15, last)
    if base in ("AS", "YS"):
        return day.day == 1 and day.month == MONTHS.index(anchor or "JAN") + 1
    if base in ("A", "Y"):
        return day.day == last and day.month == MONTHS.index(anchor or "DEC") + 1
    if base == "QS":
        return day.day == 1 and (day.month - 1 - MONTHS.index(anchor or "JAN")) % 3 == 0
    if base == "Q":
        return day.day == last and (day.month - 1 - MONTHS.index(anchor or "DEC")) % 3 == 0
    raise AssertionError(rule)


RULES = (
    ["AS", "A", "YS", "Y", "MS", "M", "QS", "Q", "AS", "MS", "SM", "SMS", "W"]
    + ["AS-" + m for m in MONTHS] + ["A-" + m for m in MONTHS] + ["QS-" + m for m in MONTHS[:12]] + ["Q-" + m for m in MONTHS]
    + ["W-" + d for d in ("MON", "WED", "SAT")]
)


def resample_grid(rng):
    rule = rng.choice(RULES)
    start = instant(rng)
    start = start.replace(year=min(max(start.year, 4), 9980), day=min(start.day, 28))
    if rng.random() < 0.4:
        start = start.replace(hour=0, minute=0, second=0)
    if rng.random() < 0.3:
        d = start.replace(hour=0, minute=0, second=0)
        while not regular(rule, d):
            d += dt.timedelta(days=1)
        start = d + dt.timedelta(seconds=rng.choice([0, 0, 1, 43200, -1]))
    span = rng.choice([0, 1, 86399, 86400, 86400 * 31, rng.randint(0, 86400 * 400), rng.randint(0, 86400 * 365 * 8)])
    end = start + dt.timedelta(seconds=span)
    if rng.random() < 0.3:
        d = end.replace(hour=0, minute=0, second=0)
        while not regular(rule, d):
            d += dt.timedelta(days=1)
        end = max(start, d + dt.timedelta(seconds=rng.choice([0, 0, 1, 43200, -1])))
    got = runs(lambda: list(generate_range(start, end, to_offset(rule))), "generate_range({}, {}, {})".format(start, end, rule))
    d = start.replace(hour=0, minute=0, second=0)
    while not regular(rule, d):
        d -= dt.timedelta(days=1)
    want = [d]
    while want[-1] < end:
        d += dt.timedelta(days=1)
        while not regular(rule, d):
            d += dt.timedelta(days=1)
        want.append(d)
    expect(list(got) == want, "grid of {} for {} to {}: {}.. {} ({}) instead of {}.. {} ({})", rule, start, end, list(got)[:3], list(got)[-2:], len(got), want[:3], want[-2:], len(want))
    return (rule, start, end)


def business(rng):
    rule = rng.choice(["B", "C", "BM", "BMS", "CBM", "CBMS", "BQ", "BQS", "BA", "BAS", "BH", "CBH", "BA-JUN", "BQS-FEB", "BY", "BAS-MAR", "2B"])
    raises(ValueError, lambda: to_offset(rule), "to_offset({})".format(rule))
    return rule


KINDS = {
    "C09": [Kind("point", point, 5), Kind("short", short, 0.3), Kind("outside", outside, 0.5)],
    "C10": [Kind("average", average, 6), Kind("short", short, 0.2), Kind("outside", outside, 0.5)],
    "C11": [Kind("grid", grid, 1), Kind("points", points, 3)],
    "C21": [Kind("grid", resample_grid, 5), Kind("business", business, 0.1)],
}
