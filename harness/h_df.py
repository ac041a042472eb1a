"""C14-C20, C22, C23: data frames"""
import calendar
import datetime as dt
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import ExtrapolationType, InterpolationType, TimeseriesConverter
from openscm.core.units import UnitConverter
from openscm.scmdataframe import ScmDataFrame, convert_openscm_to_scmdataframe, df_append
from openscm.scmdataframe import filters as flt
from openscm.scmdataframe.pyam_compat import LongDatetimeIamDataFrame
from openscm.scmdataframe.parameter_type import guess_parameter_type

from .base import Kind, Stop, close, expect, raises, runs

REQ = ["model", "scenario", "region", "variable", "unit"]
EPOCH = dt.datetime(1970, 1, 1)
MODELS = ["m1", "m2"]
SCENARIOS = ["rcp26", "rcp 45", "a.b", "a+b"]
REGIONS = ["World", "World|R5ASIA", "World|R5ASIA|China", "World|R5OECD"]
VARIABLES = [
    "Emissions|CO2",
    "Emissions|CO2|MAGICC AFOLU",
    "Emissions|CO2|MAGICC Fossil",
    "Emissions|CO2b",
    "Emissions|CH4",
    "Emissions|CH4|Emissions|CO2",
    "Temperature",
    "T",
    "T|T",
    "Primary Energy|Coal (x)",
]
UNITS = ["kg", "g", "t", "lb", "GtC / yr", "MtCO2 / yr", "gCO2 / s", "K", "degC", "W / m^2", "mW / m^2", "dimensionless"]


# ------------------------------------------------------------------ frames


def secs(t):
    if isinstance(t, np.datetime64):
        return int(t.astype("datetime64[s]").astype(int))
    d = t - EPOCH
    return d.days * 86400 + d.seconds


def as_dt64(ts):
    return np.array(ts, dtype=np.int64).astype("datetime64[s]")


def as_pydt(s):
    return EPOCH + dt.timedelta(seconds=int(s))


def norm(v):
    """metadata value in a comparable form"""
    if v is None:
        return None
    if isinstance(v, (float, np.floating)):
        if math.isnan(v):
            return None
        return float(v)
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, np.integer)):
        return float(v)
    return v


def nrow(row, cols=None):
    return tuple(sorted((c, norm(row[c])) for c in (cols or row)))


class Model:
    """times (sorted seconds), rows: list of (metadata dict, list of values)"""

    def __init__(self, times, rows):
        self.times = list(times)
        self.rows = [(dict(m), list(v)) for m, v in rows]

    def cells(self):
        return {
            nrow(m): {t: v for t, v in zip(self.times, vals)} for m, vals in self.rows
        }


def observe(df):
    """what a user sees of a data frame"""
    meta = df.meta
    ts = df.timeseries() if len(df) else None
    cols = list(meta.columns)
    times = [secs(t) for t in df.time_points]
    rows = []
    if ts is not None:
        expect(list(ts.index.names) == cols, "timeseries() has metadata {} instead of {}", ts.index.names, cols)
        expect([secs(t) for t in ts.columns] == times, "time_points and times of timeseries() differ")
        expect([secs(t) for t in df["time"]] == times, "time_points and ['time'] differ")
        vals = ts.values
        for i, key in enumerate(ts.index):
            key = key if isinstance(key, tuple) else (key,)
            m = dict(zip(cols, key))
            expect(
                nrow(m) == nrow(dict(zip(cols, meta.iloc[i]))),
                "timeseries() and meta list timeseries in different order",
            )
            rows.append((m, [float(x) for x in vals[i]]))
    return Model(times, rows)


def same(a, b, what, tol=0.0, order=True):
    """models equal"""
    expect(a.times == b.times, "{}: times {} instead of {}", what, a.times[:8], b.times[:8])
    ka = [nrow(m) for m, _ in a.rows]
    kb = [nrow(m) for m, _ in b.rows]
    expect(sorted(map(repr, ka)) == sorted(map(repr, kb)), "{}: metadata {} instead of {}", what, ka, kb)
    db = {repr(k): v for k, (_, v) in zip(kb, b.rows)}
    for k, (_, v) in zip(ka, a.rows):
        w = db[repr(k)]
        for t, x, y in zip(a.times, v, w):
            ok = (x == y) or (math.isnan(x) and math.isnan(y))
            if not ok and tol:
                ok = abs(x - y) <= tol * max(1e-300, max(abs(z) for z in w if not math.isnan(z)))
            expect(ok, "{}: value of {} at {} is {} instead of {}", what, k, as_pydt(t), x, y)


def gen_times(rng, lo=1, hi=6):
    n = rng.randint(lo, hi)
    k = rng.random()
    if k < 0.4:
        y0 = rng.choice([1, 1500, 1750, 1990, 2000, 2290, 9000])
        ys = sorted(rng.sample(range(y0, y0 + 12), n))
        out = [secs(dt.datetime(y, 1, 1)) for y in ys]
    elif k < 0.7:
        y0 = rng.choice([1600, 1990, 2020, 2299])
        ms = sorted(rng.sample(range(0, 30), n))
        out = [secs(dt.datetime(y0 + m // 12, m % 12 + 1, 1)) for m in ms]
    else:
        base = secs(dt.datetime(rng.choice([1000, 1999, 2500]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23)))
        out = sorted({base + rng.choice([3600, 86400, 7 * 86400, 1, 31536000]) * i + rng.randint(0, 50) * 3600 for i in range(n)})
    return out


def val(rng, nan=0.0):
    if rng.random() < nan:
        return float("nan")
    return rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10 ** rng.randint(-8, 12)])


def gen_rows(rng, times, n=None, nan=0.15, units=None, extra=None, metanan=True, variables=None):
    n = n or rng.randint(1, 6)
    if extra is None:
        extra = []
        if rng.random() < 0.6:
            extra.append("climate_model")
        if rng.random() < 0.4:
            extra.append("ensemble")
        if rng.random() < 0.3:
            extra.append("note")
    seen, rows = set(), []
    k = 0
    # few values per column so that groups and collisions occur
    pool_v = rng.sample(variables or VARIABLES, min(len(variables or VARIABLES), rng.randint(1, 4)))
    pool_u = rng.sample(units or UNITS, min(len(units or UNITS), rng.randint(1, 3)))
    while len(rows) < n and k < 100:
        k += 1
        m = {
            "model": rng.choice(MODELS),
            "scenario": rng.choice(SCENARIOS),
            "region": rng.choice(REGIONS),
            "variable": rng.choice(pool_v),
            "unit": rng.choice(pool_u),
        }
        for c in extra:
            if c == "climate_model":
                m[c] = rng.choice(["unspecified", "MAGICC6", float("nan") if metanan else "x"])
            elif c == "ensemble":
                m[c] = rng.choice([0, 1, 2, float("nan") if metanan else 3])
            else:
                m[c] = rng.choice(["", "a", "a*b", float("nan") if metanan else "b"])
        key = repr(nrow(m))
        if key in seen:
            continue
        seen.add(key)
        rows.append((m, [val(rng, nan) for _ in times]))
    return rows, extra


def make(rng, times, rows):
    """a data frame from a model, by any constructor"""
    cols = {c: [m[c] for m, _ in rows] for c in rows[0][0]}
    arr = np.array([v for _, v in rows], dtype=float).T
    k = rng.random()
    if k < 0.5:
        df = ScmDataFrame(arr, index=as_dt64(times), columns=cols)
    elif k < 0.8:
        wide = pd.DataFrame(arr.T, columns=[as_pydt(t) for t in times])
        for i, c in enumerate(cols):
            wide.insert(0, c, cols[c])
        df = ScmDataFrame(wide)
    else:
        df = ScmDataFrame(ScmDataFrame(arr, index=as_dt64(times), columns=cols))
    if rng.random() < 0.3:
        # a frame with gaps in its row labels
        cols2 = {c: v + v for c, v in cols.items()}
        cols2["scenario"] = ["drop"] * len(rows) + cols["scenario"]
        both = ScmDataFrame(np.concatenate([arr * 0 + 1, arr], axis=1), index=as_dt64(times), columns=cols2)
        alive = [any(not math.isnan(x) for x in v) for _, v in rows]
        if all(alive) and all(any(not math.isnan(v[i]) for _, v in rows) for i in range(len(times))):
            df = both.filter(scenario="drop", keep=False)
    return df


def frame(rng, **kw):
    tk = {k: kw.pop(k) for k in ("lo", "hi") if k in kw}
    times = gen_times(rng, **tk)
    rows, extra = gen_rows(rng, times, **kw)
    m = Model(times, rows)
    return make(rng, times, rows), m


def unchanged(df, before, what):
    same(observe(df), before, what + " changed the data frame")
    expect(len(df._data.index) == len(df.time_points), "{}: index and time points differ", what)


# ------------------------------------------------------------------ patterns


def star(pattern, value):
    """`pattern` matches all of `value`, * stands for any text"""
    parts = pattern.split("*")
    if len(parts) == 1:
        return pattern == value
    if not value.startswith(parts[0]):
        return False
    pos = len(parts[0])
    for p in parts[1:-1]:
        i = value.find(p, pos)
        if i < 0:
            return False
        pos = i + len(p)
    return len(value) - pos >= len(parts[-1]) and value.endswith(parts[-1])


def depth_ok(pattern, value, level, sep="|"):
    """pattern: literal or literal prefix with one * at the end"""
    lit = pattern.rstrip("*")
    rest = value[len(lit):] if value.startswith(lit) else value
    d = rest.count(sep)
    if isinstance(level, str):
        n = int(level[:-1])
        return d <= n if level.endswith("-") else d >= n
    return d == level


def match_value(values, v):
    v = "" if norm(v) is None else v
    vals = [values] if isinstance(values, str) or not isinstance(values, (list, tuple, set, np.ndarray)) else values
    for p in vals:
        if isinstance(p, str):
            if isinstance(v, str) and star(p, v):
                return True
        elif not isinstance(v, str) and norm(v) == norm(p):
            return True
    return False


def rnd_pattern(rng, values):
    v = rng.choice(values)
    k = rng.random()
    if k < 0.3 or not v:
        return v
    if k < 0.4:
        return "*"
    i, j = sorted((rng.randint(0, len(v)), rng.randint(0, len(v))))
    return rng.choice([v[:i] + "*", "*" + v[i:], v[:i] + "*" + v[j:], v[:i], v[i:], "*" + v[i:j] + "*", v[:i] + "**"])


ALPHA = list("abAB|.*+?()[]{}^$\\-#& ,é\t'\"/01_<>=!:~%@;`") + ["|", "a", "a", "b", "CO2", "|a", "a|", "\u0394", "ß"]


def c15_pattern(rng):
    n = rng.randint(1, 5)
    base = ["".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 5))) for _ in range(3)]
    vals = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            vals.append(rng.choice(base))
        elif k < 0.7:
            b = rng.choice(base)
            i = rng.randint(0, len(b))
            vals.append(b[:i] + rng.choice(ALPHA) + b[i:])
        else:
            vals.append("".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 6))))
    pats = [rnd_pattern(rng, vals) for _ in range(rng.randint(1, 3))]
    arg = pats[0] if len(pats) == 1 and rng.random() < 0.7 else pats
    before = list(arg) if isinstance(arg, list) else arg
    ser = pd.Series(vals, name="c", index=rng.sample(range(20), n))
    got = list(np.asarray(flt.pattern_match(ser, arg)))
    exp = [match_value(arg, v) for v in vals]
    expect(got == exp, "pattern {!r} on {!r}: {} instead of {}", arg, vals, got, exp)
    expect(arg == before, "list of patterns changed")
    expect(list(ser) == vals, "metadata column changed by matching")
    return repr((arg, vals))


def c15_mixed(rng):
    """numeric columns and missing values"""
    n = rng.randint(1, 5)
    if rng.random() < 0.5:
        vals = [rng.choice([0, 1, 2, 1.5, -3]) for _ in range(n)]
        arg = rng.choice([1, 0, [1, 2], [1.5], 2.0, [0, 7], (1, 0)])
        ser = pd.Series(vals)
    else:
        vals = [rng.choice(["a", "b", float("nan"), "", None]) for _ in range(n)]
        arg = rng.choice(["a", "*", "", ["a", ""], ["b", "a"], "a*"])
        ser = pd.Series([float("nan") if v is None else v for v in vals], dtype=object)
    got = list(np.asarray(flt.pattern_match(ser, arg)))
    exp = [match_value(arg, v) for v in vals]
    expect(got == exp, "filter {!r} on {!r}: {} instead of {}", arg, vals, got, exp)
    return repr((arg, vals))


def c15_level(rng):
    words = ["A", "B", "AB", "CO2", "Emissions", "a.b"]

    def path():
        return "|".join(rng.choice(words) for _ in range(rng.randint(1, 5)))

    vals = [path() for _ in range(rng.randint(1, 5))]
    base = rng.choice(vals)
    cut = base.split("|")
    cut = "|".join(cut[: rng.randint(0, len(cut))])
    pat = rng.choice([cut + "|*" if cut else "*", cut + "*", cut, "*", path()])
    n = rng.randint(0, 4)
    level = rng.choice([n, "%d-" % n, "%d+" % n])
    ser = pd.Series(vals)
    got = list(np.asarray(flt.pattern_match(ser, pat, level)))
    exp = [star(pat, v) and depth_ok(pat, v, level) for v in vals]
    expect(got == exp, "pattern {!r} level {!r} on {!r}: {} instead of {}", pat, level, vals, got, exp)
    if rng.random() < 0.2:
        raises(ValueError, lambda: flt.find_depth(ser, pat, rng.choice(["1", "x", "1*", "-+x"])), "level not understood")
    return repr((pat, level, vals))


MON = [calendar.month_name[i] for i in range(1, 13)]
MON3 = [calendar.month_abbr[i] for i in range(1, 13)]
DAY = [calendar.day_name[i] for i in range(7)]
DAY3 = [calendar.day_abbr[i] for i in range(7)]


def name_filter(rng, names, first):
    """(filter, set of numbers)"""
    out, exp = [], set()
    for _ in range(rng.randint(1, 4)):
        i, j = sorted((rng.randrange(len(names)), rng.randrange(len(names))))
        if rng.random() < 0.5:
            out.append(rng.choice([names[i], names[i].lower(), names[i].upper()]))
            exp.add(i + first)
        else:
            out.append(names[i] + "-" + names[j])
            exp |= set(range(i + first, j + first + 1))
    if len(out) == 1 and rng.random() < 0.7:
        return out[0], exp
    return out, exp


def time_filter(rng, times):
    """(key, filter, predicate on seconds)"""
    d = [as_pydt(t) for t in times] or [dt.datetime(2000, 1, 1)]
    k = rng.choice(["year", "month", "monthname", "day", "dayname", "hour", "time"])
    pick = rng.choice(d)
    if k == "year":
        ys = sorted({x.year for x in d})
        f = rng.choice([pick.year, [pick.year], list(ys), [pick.year, 1], range(ys[0], ys[-1]), [ys[0] - 1]])
        s = {f} if isinstance(f, int) else set(f)
        return "year", f, lambda t: as_pydt(t).year in s
    if k == "month":
        f = rng.choice([pick.month, [pick.month, rng.randint(1, 12)], rng.randint(1, 12), list(range(1, 7))])
        s = {f} if isinstance(f, int) else set(f)
        return "month", f, lambda t: as_pydt(t).month in s
    if k == "monthname":
        f, s = name_filter(rng, rng.choice([MON, MON3]), 1)
        return "month", f, lambda t: as_pydt(t).month in s
    if k == "day":
        f = rng.choice([pick.day, [pick.day, rng.randint(1, 31)], rng.randint(1, 31), list(range(1, 16))])
        s = {f} if isinstance(f, int) else set(f)
        return "day", f, lambda t: as_pydt(t).day in s
    if k == "dayname":
        f, s = name_filter(rng, rng.choice([DAY, DAY3]), 0)
        return "day", f, lambda t: as_pydt(t).weekday() in s
    if k == "hour":
        f = rng.choice([pick.hour, [pick.hour, rng.randint(0, 23)], rng.randint(0, 23), list(range(0, 12))])
        s = {f} if isinstance(f, int) else set(f)
        return "hour", f, lambda t: as_pydt(t).hour in s
    others = [x for x in d if rng.random() < 0.5]
    f = rng.choice([pick, [pick], others + [pick], [pick + dt.timedelta(seconds=1)]])
    s = {secs(x) for x in ([f] if isinstance(f, dt.datetime) else f)}
    return "time", f, lambda t: t in s


def c15_time(rng):
    times = gen_times(rng, 3, 9)
    df = ScmDataFrame(
        np.arange(len(times), dtype=float)[:, None],
        index=as_dt64(times),
        columns=dict(model=["m"], scenario=["s"], region=["World"], variable=["v"], unit=["kg"]),
    )
    key, f, pred = time_filter(rng, times)
    if rng.random() < 0.02:
        f, pred = [], lambda t: False
    before = list(f) if isinstance(f, list) else f
    got = [secs(t) for t in df.filter(**{key: f}).time_points]
    exp = [t for t in times if pred(t)]
    expect(got == exp, "filter {}={!r} on {}: {} instead of {}", key, f, [str(as_pydt(t)) for t in times],
           [str(as_pydt(t)) for t in got], [str(as_pydt(t)) for t in exp])
    expect(not isinstance(f, list) or f == before, "list {} passed as filter changed to {}", before, f)
    return repr((key, str(f), times[:3]))


def c15_badtime(rng):
    df = ScmDataFrame(
        np.arange(3.0)[:, None],
        index=as_dt64([0, 86400, 40 * 86400]),
        columns=dict(model=["m"], scenario=["s"], region=["World"], variable=["v"], unit=["kg"]),
    )
    k = rng.randrange(5)
    if k == 0:
        i, j = sorted(rng.sample(range(12), 2))
        names = rng.choice([MON, MON3])
        f = names[j] + "-" + names[i]
        raises(ValueError, lambda: df.filter(month=rng.choice([f, [f]])), "decreasing range of months")
    elif k == 1:
        f = rng.choice(["foo", "J", "13"])
        raises(ValueError, lambda: df.filter(month=f), "unknown month")
    elif k == 2:
        raises(TypeError, lambda: df.filter(year=rng.choice([2000.5, "2000", [1970, "1971"], [2000.0]])), "wrong type of year")
    elif k == 3:
        raises(TypeError, lambda: df.filter(time=rng.choice([1970, [1970], [dt.datetime(1970, 1, 1), 3]])), "wrong type of time")
    else:
        raises(ValueError, lambda: df.filter(day=rng.choice(["Foo", ["Mon-Foo"], "Sun-Mon"])), "unknown day")
    return str(k)


# ------------------------------------------------------------------ C14


def rnd_filters(rng, m, times_ok=True):
    cols = list(m.rows[0][0])
    filters, preds_m, preds_t = {}, [], []
    for _ in range(rng.randint(0, 3)):
        k = rng.random()
        if k < 0.25 and times_ok:
            key, f, pred = time_filter(rng, m.times)
            if key in filters:
                continue
            filters[key] = f
            preds_t.append(pred)
        elif k < 0.4:
            if "level" in filters or "variable" in filters:
                continue
            n = rng.randint(0, 3)
            level = rng.choice([n, "%d-" % n, "%d+" % n])
            filters["level"] = level
            if rng.random() < 0.6:
                v = rng.choice(m.rows)[0]["variable"].split("|")
                pat = "|".join(v[: rng.randint(0, len(v))])
                pat = rng.choice([pat + "*", pat + "|*" if pat else "*", pat])
                if rng.random() < 0.5:
                    filters["variable"] = pat
                else:
                    filters = {"variable": pat, **filters}
                preds_m.append(lambda r, p=pat, l=level: star(p, r["variable"]) and depth_ok(p, r["variable"], l))
            else:
                preds_m.append(lambda r, l=level: depth_ok("*", r["variable"], l))
        else:
            c = rng.choice(cols)
            if c in filters or (c == "variable" and "level" in filters):
                continue
            vals = [r[c] for r, _ in m.rows]
            if all(isinstance(v, str) or norm(v) is None for v in vals):
                sv = [v for v in vals if isinstance(v, str)] or [""]
                f = rng.choice([rnd_pattern(rng, sv), [rnd_pattern(rng, sv) for _ in range(rng.randint(1, 3))]])
                f = [] if rng.random() < 0.01 else f
            else:
                f = rng.choice([0, 1, [1, 2], [0], [7], 2])
            filters[c] = f
            preds_m.append(lambda r, c=c, f=f: match_value(f, r[c]))
    return filters, (lambda r: all(p(r) for p in preds_m)), (lambda t: all(p(t) for p in preds_t))


def apply_filter(m, pm, pt, keep):
    rows = []
    for r, vals in m.rows:
        sel = pm(r)
        rows.append((r, [v if (sel and pt(t)) == keep else float("nan") for t, v in zip(m.times, vals)]))
    rows = [(r, v) for r, v in rows if any(not math.isnan(x) for x in v)]
    ti = [i for i in range(len(m.times)) if any(not math.isnan(v[i]) for _, v in rows)]
    return Model([m.times[i] for i in ti], [(r, [v[i] for i in ti]) for r, v in rows])


def c14(rng):
    df, m = frame(rng)
    m = observe(df)
    filters, pm, pt = rnd_filters(rng, m)
    keep = rng.random() < 0.6
    exp = apply_filter(m, pm, pt, keep)
    args = {k: (list(v) if isinstance(v, list) else v) for k, v in filters.items()}
    what = "filter({}, keep={})".format(filters, keep)
    if rng.random() < 0.5:
        res = runs(lambda: df.filter(keep=keep, **args), what)
        unchanged(df, m, what)
    else:
        r = runs(lambda: df.filter(keep=keep, inplace=True, **args), what)
        expect(r is None, "{} in place returned something", what)
        res = df
    same(observe(res), exp, what)
    expect(args == filters, "{} changed its arguments", what)
    expect(len(res) == len(exp.rows), "{}: len", what)
    if exp.rows and rng.random() < 0.3:
        # results can be filtered and converted on
        f2, pm2, pt2 = rnd_filters(rng, exp)
        same(observe(res.filter(**f2)), apply_filter(exp, pm2, pt2, True), what + " and " + str(f2))
    return repr((what, len(m.rows), len(exp.rows), len(exp.times)))


def c14_unknown(rng):
    df, m = frame(rng)
    m = observe(df)
    raises(ValueError, lambda: df.filter(**{rng.choice(["foo", "vars", "Model"]): "x"}), "unknown filter")
    unchanged(df, m, "refused filter")
    return "unknown"


# ------------------------------------------------------------------ C16


def c16(rng):
    n = rng.randint(2, 3)
    base_t = gen_times(rng, 2, 6)
    base_rows, extra = gen_rows(rng, base_t, n=4)
    dfs, ms = [], []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            times = sorted(rng.sample(base_t, rng.randint(1, len(base_t))))
        else:
            times = gen_times(rng, 1, 4)
        rows = []
        drop = [c for c in extra if rng.random() < 0.3]
        k = rng.random()
        src = rng.sample(base_rows, rng.randint(1, len(base_rows)))
        if k < 0.4:
            src = src[:1] + gen_rows(rng, times, extra=extra, n=2)[0]
        seen = set()
        for r, _ in src:
            r = {c: v for c, v in r.items() if c not in drop}
            if repr(nrow(r)) in seen:
                continue
            seen.add(repr(nrow(r)))
            rows.append((r, [val(rng, 0.2) for _ in times]))
        dfs.append(make(rng, times, rows))
        ms.append(observe(dfs[-1]))
    cols = sorted({c for m in ms for r, _ in m.rows for c in r})
    cells, order, dup = {}, [], False
    times = sorted({t for m in ms for t in m.times})
    for m in ms:
        for r, vals in m.rows:
            full = {c: r.get(c) for c in cols}
            k = repr(nrow(full))
            if k not in cells:
                cells[k] = (full, {})
            for t, v in zip(m.times, vals):
                if not math.isnan(v):
                    cells[k][1].setdefault(t, []).append(v)
    rows = []
    for full, c in cells.values():
        vals = []
        for t in times:
            x = c.get(t, [])
            dup = dup or len(x) > 1
            vals.append(sum(x) / len(x) if x else float("nan"))
        rows.append((full, vals))
    exp = Model(times, rows)
    what = "appending {} frames".format(n)
    inplace = rng.random() < 0.4
    one = n == 2 and rng.random() < 0.5
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if one:
            res = runs(lambda: dfs[0].append(dfs[1], inplace=inplace), what)
        else:
            res = runs(lambda: df_append(dfs, inplace=inplace), what)
    warned = any("Duplicate time points" in str(w.message) for w in rec)
    expect(warned == dup, "{}: duplicates {} but {}", what, "exist" if dup else "do not exist", "reported" if warned else "not reported")
    if inplace:
        expect(res is None, "append in place returned something")
        res = dfs[0]
    got = observe(res)
    same(got, exp, what, tol=1e-12)
    expect(got.times == sorted(got.times), "times not sorted")
    for i, (d, m) in enumerate(zip(dfs, ms)):
        if not (inplace and i == 0):
            unchanged(d, m, what)
    if dup and not inplace and rng.random() < 0.3:
        raises(ValueError, lambda: df_append(dfs, duplicate_msg="foo"), "unknown duplicate_msg")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            r2 = df_append(dfs, duplicate_msg=False)
        expect(not any("Duplicate time points" in str(w.message) for w in rec), "reported duplicates though asked not to")
        same(observe(r2), exp, what + " with duplicate_msg=False", tol=1e-12)
    return repr((what, dup, inplace, cols, len(times), sorted(cells)[:2]))


# ------------------------------------------------------------------ C17

GROUPS = [
    ["kg", "g", "t", "lb", "Mt"],
    ["GtC / yr", "MtCO2 / yr", "gCO2 / s", "tC / day"],
    ["K", "degC", "degF"],
    ["W / m^2", "mW / m^2"],
]
CTX = {
    "AR4GWP100": ["MtCO2 / yr", "GtC / yr", "MtCH4 / yr", "MtN2O / yr"],
    "AR5GWP100": ["MtCO2 / yr", "GtC / yr", "MtCH4 / yr", "MtN2O / yr"],
    "SARGWP100": ["MtCO2", "MtCH4", "MtN2O"],
}


def c17(rng):
    ctx = None
    if rng.random() < 0.3:
        ctx = rng.choice(sorted(CTX))
        grp = CTX[ctx]
    else:
        grp = rng.choice(GROUPS)
    others = rng.choice(GROUPS)
    mixed = rng.random() < 0.5
    df, _ = frame(rng, units=grp + (others if mixed else []))
    m0 = observe(df)
    m = Model(m0.times, [(r, v) for r, v in m0.rows if any(not math.isnan(x) for x in v)])
    if len(m.rows) != len(m0.rows):
        raise Stop()  # timeseries without values are not selected
    target = rng.choice(grp)
    filters, pm, pt = rnd_filters(rng, m) if rng.random() < 0.7 else ({}, lambda r: True, lambda t: True)
    if "unit" in filters:
        raise Stop()  # not available as filter for convert_unit
    if mixed and rng.random() < 0.7 and "note" not in m.rows[0][0]:
        df["note"] = ["sel" if r["unit"] in grp else "other" for r, _ in m.rows]
        m = Model(m.times, [({**r, "note": "sel" if r["unit"] in grp else "other"}, v) for r, v in m.rows])
        filters["note"] = "sel"
        pm = lambda r, p=pm: p(r) and r["note"] == "sel"
    prev = None
    if rng.random() < 0.3:
        prev = rng.choice(["AR4GWP100", None])
        df["unit_context"] = prev
        m = Model(m.times, [({**r, "unit_context": prev}, v) for r, v in m.rows])
        if "unit_context" in filters:
            raise Stop()
    exp, bad, count = [], False, 0
    for r, vals in m.rows:
        r2 = dict(r)
        r2.setdefault("unit_context", None)
        selected = pm(r) and any(pt(t) and not math.isnan(v) for t, v in zip(m.times, vals))
        if selected:
            count += 1
            try:
                uc = UnitConverter(r["unit"], target, context=ctx)
                vals = [float(uc.convert_from(v)) for v in vals]
            except Exception:  # pylint: disable=broad-except
                bad = True
            r2["unit"] = target
            r2["unit_context"] = ctx
        exp.append((r2, vals))
    keys = [repr(nrow(r)) for r, _ in exp]
    if len(set(keys)) != len(keys):
        raise Stop()  # ambiguous metadata afterwards
    inplace = rng.random() < 0.5
    what = "convert_unit({!r}, context={}, inplace={}, {})".format(target, ctx, inplace, filters)
    if "keep" in filters:
        raise Stop()
    before = observe(df)
    f = lambda: df.convert_unit(target, context=ctx, inplace=inplace, **filters)
    if bad:
        raises(Exception, f, what)
        if not inplace:
            unchanged(df, before, what)
        return repr((what, "refused"))
    res = runs(f, what)
    if inplace:
        expect(res is None, "{} returned something", what)
        res = df
    else:
        unchanged(df, before, what)
    same(observe(res), Model(m.times, exp), what, tol=1e-12)
    got = observe(res)
    expect(
        [nrow({c: r[c] for c in REQ if c != "unit"}) for r, _ in got.rows]
        == [nrow({c: r[c] for c in REQ if c != "unit"}) for r, _ in m.rows],
        "{}: order of timeseries changed", what,
    )
    return repr((what, count, len(m.rows)))


# ------------------------------------------------------------------ C18


def c18(rng):
    times = gen_times(rng, 3, 7)
    if len(times) < 3:
        raise Stop()
    rows, extra = gen_rows(rng, times, nan=0.0)
    mode = rng.choice(["none", "all", "some"])
    for i, (r, _) in enumerate(rows):
        if mode == "all":
            r["parameter_type"] = rng.choice(["average", "point"])
        elif mode == "some":
            r["parameter_type"] = rng.choice(["average", "point", None])
    df = make(rng, times, rows)
    m = observe(df)
    lo, hi = times[0], times[-1]
    extrapolation = rng.choice(["constant", "linear", "none"])
    span = hi - lo
    if rng.random() < 0.6 and extrapolation != "none":
        a, b = lo - span // 2, hi + span // 2
    else:
        a, b = lo, hi
    n = rng.randint(2, 6)
    target = sorted({rng.randint(a, b) for _ in range(n)} | set(rng.sample(times, rng.randint(0, 2))))
    if len(target) < 2 or b > 250000000000 or a < -62000000000:
        raise Stop()
    types, outs, fail = [], [], False
    for r, vals in m.rows:
        t = r.get("parameter_type")
        if norm(t) is None:
            g = guess_parameter_type(r["variable"], r["unit"])
            t = "average" if g == ParameterType.AVERAGE_TIMESERIES else "point"
        types.append(t)
        src, tgt = list(times), list(target)
        if t == "average":
            src = src + [2 * src[-1] - src[-2]]
            tgt = tgt + [2 * tgt[-1] - tgt[-2]]
        try:
            conv = TimeseriesConverter(
                as_dt64(src), as_dt64(tgt),
                ParameterType.AVERAGE_TIMESERIES if t == "average" else ParameterType.POINT_TIMESERIES,
                InterpolationType.LINEAR, ExtrapolationType.from_extrapolation_type(extrapolation),
            )
            outs.append([float(x) for x in conv.convert_from(np.array(vals))])
        except Exception:  # pylint: disable=broad-except
            fail = True
            break
    what = "interpolate to {} ({}) of types {}".format([str(as_pydt(t)) for t in target], extrapolation, types)
    tt = rng.choice([as_dt64(target), [as_pydt(t) for t in target]])
    if fail:
        raises(Exception, lambda: df.interpolate(tt, extrapolation_type=extrapolation), what)
        unchanged(df, m, what)
        return repr(("refused", what))
    res = runs(lambda: df.interpolate(tt, extrapolation_type=extrapolation), what)
    exp = Model(target, [({**r, "parameter_type": t}, o) for (r, _), t, o in zip(m.rows, types, outs)])
    keys = [repr(nrow(r)) for r, _ in exp.rows]
    if len(set(keys)) != len(keys):
        raise Stop()
    same(observe(res), exp, what, tol=1e-7)
    unchanged(df, m, what)
    return repr((what, mode, len(m.rows)))


# ------------------------------------------------------------------ C19


def c19(rng):
    times = gen_times(rng, 3, 7)
    if len(times) < 3:
        raise Stop()
    variables = rng.sample(
        ["Emissions|CO2|A", "Emissions|CO2|B", "Emissions|CH4", "Temperature", "Forcing|CO2|X|Y", "Forcing|CH4"], rng.randint(1, 4)
    )
    regions = rng.sample(["World", "World|N", "World|N|A", "World|S", "World|S|B|C"], rng.randint(1, 3))
    common = {"model": rng.choice(["unspecified", "IMAGE"]), "scenario": rng.choice(["rcp26", "unspecified"])}
    if rng.random() < 0.5:
        common["climate_model"] = "unspecified"
    if rng.random() < 0.4:
        common["climate sensitivity (kelvin)"] = rng.choice([3.2, 0.5])
    if rng.random() < 0.4:
        common["note"] = rng.choice(["a", 3, 2.5, True])
    rows, seen = [], set()
    typed = rng.random() < 0.6
    for _ in range(rng.randint(1, 7)):
        v, g = rng.choice(variables), rng.choice(regions)
        if (v, g) in seen:
            continue
        seen.add((v, g))
        r = dict(common, variable=v, region=g, unit=rng.choice(["GtC / yr", "K", "W / m^2", "kg", "MtCO2 / yr", "g"]))
        if typed:
            r["parameter_type"] = rng.choice(["average", "point"])
        rows.append((r, [val(rng) for _ in times]))
    df = make(rng, times, rows)
    m = observe(df)
    k = rng.random()
    if k < 0.12:
        bad = df.copy()
        bad["scenario"] = ["s%d" % i for i in range(len(rows))]
        if len(rows) > 1:
            raises(ValueError, bad.to_parameterset, "ambiguous metadata")
        bad = df.copy()
        bad["climate_model"] = "MAGICC6"
        raises(ValueError, bad.to_parameterset, "model output")
        return "refused"
    given = ParameterSet() if rng.random() < 0.4 else None
    ps = runs(lambda: df.to_parameterset(given) if given is not None else df.to_parameterset(), "to_parameterset")
    if given is not None:
        expect(ps is given, "to_parameterset does not use the parameter set passed in")
    unchanged(df, m, "to_parameterset")
    delta = times[-1] - times[-2]
    types = []
    for r, vals in m.rows:
        t = r.get("parameter_type")
        if norm(t) is None:
            g = guess_parameter_type(r["variable"], r["unit"])
            t = "average" if g == ParameterType.AVERAGE_TIMESERIES else "point"
        types.append(t)
        tp = list(times) + ([times[-1] + delta] if t == "average" else [])
        got = ps.timeseries(tuple(r["variable"].split("|")), r["unit"], as_dt64(tp), region=tuple(r["region"].split("|")), timeseries_type=t).values
        expect(close(got, vals, rtol=1e-7), "to_parameterset: {} is {} instead of {}", r, list(got), vals)
    if "note" in common:
        expect(ps.generic("note").value == common["note"], "generic metadata lost")
    back = runs(lambda: convert_openscm_to_scmdataframe(ps, as_dt64(times)), "convert_openscm_to_scmdataframe")
    exp = []
    for (r, vals), t in zip(m.rows, types):
        exp.append(({**r, "parameter_type": t, "climate_model": "unspecified"}, vals))
    same(observe(back), Model(times, exp), "conversion to a parameter set and back", tol=1e-7)
    return repr((len(times), [r for r, _ in m.rows][:2], typed))


# ------------------------------------------------------------------ C20


def c20_rename(rng):
    df, m = frame(rng)
    m = observe(df)
    cols = list(m.rows[0][0])
    mapping = {}
    for c in rng.sample(cols, rng.randint(1, 2)):
        vals = [r[c] for r, _ in m.rows if norm(r[c]) is not None]
        if not vals:
            continue
        mp = {}
        for v in rng.sample(vals, rng.randint(1, min(2, len(vals)))):
            new = rng.choice([str(v) + "x", rng.choice(vals), "new"]) if isinstance(v, str) else rng.choice([5, 6, rng.choice(vals)])
            mp[v] = new
        if rng.random() < 0.2 and isinstance(vals[0], str):
            mp["not there"] = "z"
        mapping[c] = mp
    if not mapping:
        raise Stop()
    if any(set(map(norm, mp)) & set(map(norm, mp.values())) for mp in mapping.values()):
        raise Stop()  # chains and swaps: see c20_swap
    unknown = rng.random() < 0.15
    if unknown:
        mapping["foo"] = {"a": "b"}
    rows = []
    for r, v in m.rows:
        r2 = dict(r)
        for c, mp in mapping.items():
            if c in r2:
                for old, new in mp.items():
                    if norm(r[c]) == norm(old):
                        r2[c] = new
        rows.append((r2, v))
    # refused if ambiguous after any of the columns
    amb = False
    cur = [dict(r) for r, _ in m.rows]
    for c, mp in mapping.items():
        for i, r in enumerate(cur):
            for old, new in mp.items():
                if c in r and norm(m.rows[i][0][c]) == norm(old):
                    r[c] = new
        keys = [repr(nrow(r)) for r in cur]
        amb = amb or len(set(keys)) != len(keys)
    what = "rename({})".format(mapping)
    inplace = rng.random() < 0.5
    keep = {c: dict(x) for c, x in mapping.items()}
    if unknown or amb:
        raises(ValueError, lambda: df.rename(mapping, inplace=inplace), what)
        unchanged(df, m, what + " (refused)")
        return repr(("refused", what))
    res = runs(lambda: df.rename(mapping, inplace=inplace), what)
    expect(mapping == keep, "rename changes the mapping")
    if inplace:
        expect(res is None, "rename in place returned something")
        res = df
    else:
        unchanged(df, m, what)
    same(observe(res), Model(m.times, rows), what)
    return repr((what, inplace))


def c20_set(rng):
    df, m = frame(rng)
    m = observe(df)
    n = len(m.rows)
    cols = list(m.rows[0][0])
    name = rng.choice(["new", "zz"] + [c for c in cols if c not in REQ])
    k = rng.randrange(6)
    rows = [(dict(r), v) for r, v in m.rows]
    what = "set_meta"
    if k == 0:
        v = rng.choice(["x", 3, 2.5, True])
        f = rng.choice([lambda: df.set_meta(v, name=name), lambda: df.__setitem__(name, v)])
        for r, _ in rows:
            r[name] = v
    elif k == 1:
        vs = [rng.choice(["x", "y"]) for _ in rows] if rng.random() < 0.5 else [rng.randint(0, 3) for _ in rows]
        f = rng.choice([lambda: df.set_meta(vs, name=name), lambda: df.__setitem__(name, vs)])
        for (r, _), v in zip(rows, vs):
            r[name] = v
    elif k == 2:
        # own metadata column
        s = df.meta["variable"].apply(lambda x: x + "!")
        if rng.random() < 0.5:
            s = s.sample(frac=1, random_state=rng.randint(0, 1000))
        f = lambda: df.set_meta(s, name=name)
        for r, _ in rows:
            r[name] = r["variable"] + "!"
    else:
        keys = rng.sample([c for c in REQ if c != name], rng.randint(1, 3))
        avail = []
        for r, _ in rows:
            t = tuple(r[c] for c in keys)
            if t not in avail:
                avail.append(t)
        sel = rng.sample(avail, rng.randint(1, len(avail)))
        vs = [rng.choice(["x", "y"]) for _ in sel] if rng.random() < 0.5 else [rng.randint(0, 3) for _ in sel]
        missing = rng.random() < 0.15
        idx = sel + ([tuple("nope" for _ in keys)] if missing else [])
        vv = vs + ([vs[0]] if missing else [])
        if k == 3 and not missing:
            table = pd.DataFrame(idx, columns=keys)
            vs = [vs[0]] * len(sel)
            f = lambda: df.set_meta(vs[0], name=name, index=table)
        elif len(keys) == 1 and rng.random() < 0.5:
            ix = pd.Index([i[0] for i in idx], name=keys[0])
            f = lambda: df.set_meta(pd.Series(vv, index=ix, name=name))
        else:
            ix = pd.MultiIndex.from_tuples(idx, names=keys)
            f = rng.choice([lambda: df.set_meta(pd.Series(vv, index=ix), name=name), lambda: df.set_meta(list(vv), name=name, index=ix)])
        what = "set_meta({}) by {}".format(name, list(zip(idx, vv)))
        if missing:
            raises(ValueError, f, what)
            unchanged(df, m, what + " (refused)")
            return repr(what)
        for r, _ in rows:
            t = tuple(r[c] for c in keys)
            if t in sel:
                r[name] = vs[sel.index(t)]
            else:
                r.setdefault(name, None)
    names = [repr(nrow(r)) for r, _ in rows]
    runs(f, what)
    if len(set(names)) != len(names):
        raise Stop()
    got = observe(df)
    same(got, Model(m.times, rows), what)
    expect(
        [repr(nrow({c: v for c, v in r.items() if c != name})) for r, _ in got.rows]
        == [repr(nrow({c: v for c, v in r.items() if c != name})) for r, _ in rows],
        "{}: timeseries reordered", what,
    )
    return repr((what, k, n, name))


def c20_source(rng):
    df, m = frame(rng)
    m = observe(df)
    k = rng.randrange(6)
    if k == 0:
        new = ScmDataFrame(df) if rng.random() < 0.5 else df.copy()
        same(observe(new), m, "copy")
        new["scenario"] = "changed"
        new.convert_unit  # noqa
        new.filter(region="World", inplace=True)
        new._data.iloc[:, :] = 7.0 if len(new) else new._data
        unchanged(df, m, "changing a copy")
    elif k == 1:
        meta = df.meta
        meta["model"] = "changed"
        meta.drop(meta.index[0], inplace=True)
        unchanged(df, m, "changing .meta")
    elif k == 2:
        ts = df.timeseries()
        ts.iloc[:, :] = 5.0
        v = df.values
        v[:] = 3.0
        unchanged(df, m, "changing timeseries() and .values")
    elif k == 3:
        rows = m.rows
        wide = pd.DataFrame([v for _, v in rows], columns=[as_pydt(t) for t in m.times])
        for c in reversed(list(rows[0][0])):
            wide.insert(0, c.upper() if rng.random() < 0.1 else c, [r[c] for r, _ in rows])
        if all(isinstance(c, str) and c.islower() or not isinstance(c, str) for c in wide.columns):
            wide = wide.set_index(list(wide.columns[:2]))
        before = wide.copy(deep=True)
        new = runs(lambda: ScmDataFrame(wide), "data frame from a table")
        new.rename({"region": {"World": "a new name"}}, inplace=True)
        new["scenario"] = "changed"
        expect(list(wide.columns) == list(before.columns) and wide.index.equals(before.index) and wide.equals(before), "creating a data frame changed the table")
        expect(wide.index.names == before.index.names, "creating a data frame changed the table")
    elif k == 4:
        arr = np.array([v for _, v in m.rows], dtype=float).T
        data = rng.choice([arr, pd.DataFrame(arr)])
        before = data.copy()
        cols = {c: [r[c] for r, _ in m.rows] for c in m.rows[0][0]}
        cb = {c: list(v) for c, v in cols.items()}
        new = runs(lambda: ScmDataFrame(data, index=as_dt64(m.times), columns=cols), "data frame from an array")
        new["scenario"] = "changed"
        new["time"] = as_dt64([t + 5 for t in m.times])
        ok = data.equals(before) if isinstance(data, pd.DataFrame) else np.array_equal(data, before, equal_nan=True)
        expect(ok, "creating a data frame changed the array")
        if isinstance(data, pd.DataFrame):
            expect(data.index.equals(before.index) and data.index.name == before.index.name, "creating a data frame changed the index of the table")
        expect(repr(cols) == repr(cb), "creating a data frame changed the columns")
    else:
        # times
        new_t = [t + 86400 for t in m.times]
        other = df.copy()
        arg = as_dt64(new_t)
        other["time"] = arg
        same(observe(other), Model(new_t, m.rows), "setting time")
        unchanged(df, m, "setting time of a copy")
    return repr((k, len(m.rows), m.times[:1]))


def c20_apart(rng):
    """a frame made of another one and its source do not follow each other's later changes"""
    df, _ = frame(rng, units=["K", "mK"], metanan=False)
    m = observe(df)
    r0 = m.rows[0][0]
    makers = [
        ("copy", lambda: df.copy()),
        ("ScmDataFrame", lambda: ScmDataFrame(df)),
        ("rename", lambda: df.rename({"region": {r0["region"]: "a new name"}})),
        ("rename", lambda: df.rename({"model": {"nothing": "a new name"}})),
        ("filter", lambda: df.filter(region="*")),
        ("filter", lambda: df.filter(region=r0["region"])),
        ("convert_unit", lambda: df.convert_unit("K")),
        ("append", lambda: df.append(df.rename({"scenario": {r["scenario"]: r["scenario"] + " 2" for r, _ in m.rows}}))),
    ]
    if any(norm(r["scenario"]) is None for r, _ in m.rows):
        makers.pop()

    def retime(x):
        x["time"] = as_dt64([secs(dt.datetime(2000, 1, 1)) + 86400 * i for i in range(len(x.time_points))])

    def column(x):
        x["scenario"] = "another one"

    changes = [
        ("convert_unit", lambda x: x.convert_unit("mK", inplace=True)),
        ("convert_unit", lambda x: x.convert_unit("K", inplace=True)),
        ("convert_unit", lambda x: x.convert_unit("mK", inplace=True, region=r0["region"])),
        ("rename", lambda x: x.rename({"variable": {r0["variable"]: "a new variable"}}, inplace=True)),
        ("time", retime),
        ("column", column),
        ("set_meta", lambda x: x.set_meta(3, name="number")),
        ("filter", lambda x: x.filter(region=r0["region"], inplace=True)),
        ("filter", lambda x: x.filter(year=[], inplace=True)),
        ("append", lambda x: x.append(make(rng, m.times[:1], [(dict(r0, scenario="another one"), [1.0])]), inplace=True)),
    ]
    how, f = rng.choice(makers)
    try:
        new = f()
    except ValueError:  # (ambiguous: refused)
        raise Stop()
    try:
        n = observe(new)
    except ValueError:
        if how == "convert_unit":  # (timeseries which differed in their units only)
            raise Stop()
        raise
    first, second, before = rng.choice([(new, df, m), (df, new, n)])
    what = how
    for name, g in rng.sample(changes, rng.randint(1, 3)):
        what += ", " + name
        try:
            g(first)
        except Exception:  # pylint: disable=broad-except  (other properties say when)
            pass
        unchanged(second, before, what + " in place on the %s frame" % ("new" if first is new else "source") + ", which")
    return repr((what, first is new, len(m.rows), m.times[:1]))


def c20_access(rng):
    """reading metadata gives the metadata"""
    df, m = frame(rng)
    m = observe(df)
    c = rng.choice(list(m.rows[0][0]))
    expect([repr(norm(x)) for x in df[c]] == [repr(norm(r[c])) for r, _ in m.rows], "['{}']", c)
    expect([int(y) for y in df["year"]] == [as_pydt(t).year for t in m.times], "['year']")
    raises(KeyError, lambda: df["not there"], "unknown column")
    unchanged(df, m, "reading metadata")
    return repr((c, len(m.rows)))


# ------------------------------------------------------------------ C22


def c22_process(rng):
    df, _ = frame(rng)
    m = observe(df)
    cols = list(m.rows[0][0])
    over = rng.sample(cols, rng.randint(1, len(cols) - 1))
    rest = [c for c in cols if c not in over]
    op = rng.choice(["mean", "median", "quantile"])
    kw = {"q": rng.choice([0.0, 0.1, 0.5, 0.83, 1.0])} if op == "quantile" else {}
    groups = {}
    for r, vals in m.rows:
        groups.setdefault(repr(nrow(r, rest)), []).append(vals)
    arg = over[0] if len(over) == 1 and rng.random() < 0.5 else list(over)
    what = "process_over({}, {}, {})".format(arg, op, kw)
    res = runs(lambda: df.process_over(arg, op, **kw), what)
    unchanged(df, m, what)
    expect(sorted(res.index.names) == sorted(rest), "{}: index {}", what, res.index.names)
    got = {}
    for key, row in zip(res.index, res.values):
        key = key if isinstance(key, tuple) else (key,)
        k = repr(nrow(dict(zip(res.index.names, key))))
        expect(k not in got, "{}: group {} twice", what, k)
        got[k] = row
    # a time without any value may be left out by pandas
    expect(set(got) == set(groups), "{}: groups {} instead of {}", what, sorted(got), sorted(groups))
    expect([secs(t) for t in res.columns] == m.times, "{}: times", what)
    for k, members in groups.items():
        for i in range(len(m.times)):
            x = sorted(v[i] for v in members if not math.isnan(v[i]))
            if not x:
                e = float("nan")
            elif op == "mean":
                e = math.fsum(x) / len(x)
            else:
                q = kw.get("q", 0.5)
                p = q * (len(x) - 1)
                j = int(math.floor(p))
                e = x[j] if j + 1 >= len(x) else x[j] + (x[j + 1] - x[j]) * (p - j)
            sc = max([abs(y) for y in x] or [1])
            g = float(got[k][i])
            expect((math.isnan(e) and math.isnan(g)) or abs(e - g) <= 1e-9 * max(sc, 1e-300), "{}: group {} at {}: {} instead of {}", what, k, m.times[i], g, e)
    if rng.random() < 0.1:
        raises(ValueError, lambda: df.process_over(arg, "sum"), "unknown operation")
    return repr((what, len(groups), len(m.rows)))


def c22_ref(rng):
    df, _ = frame(rng, hi=8)
    m = observe(df)
    ys = sorted({as_pydt(t).year for t in m.times})
    i, j = sorted((rng.randrange(len(ys)), rng.randrange(len(ys))))
    k = rng.random()
    if k < 0.7:
        kw = {"year": rng.choice([list(range(ys[i], ys[j] + 1)), range(ys[i], ys[j] + 1), [ys[i]]])}
        pred = lambda t: as_pydt(t).year in set(kw["year"])
    else:
        mo = sorted({as_pydt(t).month for t in m.times})
        kw = {"month": mo[: rng.randint(1, len(mo))]}
        pred = lambda t: as_pydt(t).month in kw["month"]
    app = rng.choice([None, "rel", "(x)"])
    what = "relative_to_ref_period_mean({}, {})".format(app, kw)
    res = runs(lambda: df.relative_to_ref_period_mean(append_str=app, **kw), what)
    unchanged(df, m, what)
    (key, v), = kw.items()
    suffix = app if app is not None else "(ref. period {}: {} - {})".format(key, v[0], v[-1])
    exp = {}
    for r, vals in m.rows:
        sel = [x for t, x in zip(m.times, vals) if pred(t) and not math.isnan(x)]
        mean = math.fsum(sel) / len(sel) if sel else float("nan")
        exp[repr(nrow({**r, "variable": r["variable"] + " " + suffix}))] = ([x - mean for x in vals], max([abs(x) for x in vals if not math.isnan(x)] or [1]))
    names = list(res.index.names)
    expect(names == list(df.meta.columns), "{}: index {}", what, names)
    expect(len(res) == len(m.rows), "{}: {} timeseries instead of {}", what, len(res), len(m.rows))
    expect([secs(t) for t in res.columns] == m.times, "{}: times", what)
    for keyv, row in zip(res.index, res.values):
        k = repr(nrow(dict(zip(names, keyv))))
        expect(k in exp, "{}: unexpected timeseries {}", what, k)
        e, sc = exp.pop(k)
        for a, b in zip(row, e):
            expect((math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(sc, 1e-300), "{}: {} is {} instead of {}", what, k, a, b)
    return repr((what, len(m.rows)))


# ------------------------------------------------------------------ C23


def c23(rng):
    times = gen_times(rng, 1, 6)
    style = rng.choice(["datetime", "year", "float", "npdt"])
    if style in ("year", "float"):
        ys = sorted({as_pydt(t).year for t in times})
        times = [secs(dt.datetime(y, 1, 1)) for y in ys]
    rows, extra = gen_rows(rng, times, nan=0.0)
    if rng.random() < 0.3:
        for i, (r, v) in enumerate(rows):
            j = rng.randrange(len(v))
            if len(v) > 1:
                v[j] = float("nan")
    exp = Model(times, rows)
    lab = {
        "datetime": as_pydt,
        "npdt": lambda t: np.datetime64(t, "s"),
        "year": lambda t: as_pydt(t).year,
        "float": lambda t: float(as_pydt(t).year),
    }[style]
    cols = list(rows[0][0])
    layout = rng.choice(["wide", "long", "array", "index", "series"])
    if style == "npdt" and layout in ("wide", "index"):
        style, lab = "datetime", as_pydt
    if layout in ("long",) and style == "npdt":
        style, lab = "datetime", as_pydt
    what = "{} table with times as {}".format(layout, style)
    perm = rng.sample(range(len(rows)), len(rows))
    up = rng.random() < 0.2 and layout == "wide"
    if layout in ("wide", "index"):
        tperm = rng.sample(range(len(times)), len(times))
        tab = pd.DataFrame({lab(times[i]): [rows[p][1][i] for p in perm] for i in tperm}, columns=[lab(times[i]) for i in tperm])
        for c in rng.sample(cols, len(cols)):
            tab.insert(rng.randint(0, len(tab.columns)), c.title() if up else c, [rows[p][0][c] for p in perm])
        if layout == "index":
            tab = tab.set_index([c.title() if up else c for c in rng.sample(cols, rng.randint(1, len(cols)))])
        elif rng.random() < 0.3:
            tab.index = [rng.randint(0, 2) for _ in perm]
        df = runs(lambda: ScmDataFrame(tab), what)
    elif layout in ("long", "series"):
        tcol = "year" if style in ("year",) else "time"
        recs = []
        for r, v in rows:
            for t, x in zip(times, v):
                if not math.isnan(x):
                    recs.append({**r, tcol: lab(t) if style != "float" else as_pydt(t), "value": x})
        rng.shuffle(recs)
        cs = rng.sample(cols + [tcol, "value"], len(cols) + 2)
        tab = pd.DataFrame(recs, columns=cs)
        if layout == "series" and not any(norm(r[c]) is None for r, _ in rows for c in cols):
            tab = tab.set_index([c for c in cs if c != "value"])["value"]
        # times and timeseries without any value do not occur in the table
        exp = apply_filter(exp, lambda r: True, lambda t: True, True)
        df = runs(lambda: ScmDataFrame(tab), what)
    else:
        arr = np.array([v for _, v in rows], dtype=float).T
        colarg = {}
        for c in cols:
            vs = [r[c] for r, _ in rows]
            colarg[c] = [vs[0]] if len({repr(v) for v in vs}) == 1 and rng.random() < 0.7 else vs
            if len(colarg[c]) == 1 and rng.random() < 0.5:
                colarg[c] = vs[0]
        idx = {
            "datetime": lambda: [as_pydt(t) for t in times],
            "npdt": lambda: as_dt64(times),
            "year": lambda: np.array([as_pydt(t).year for t in times]),
            "float": lambda: np.array([float(as_pydt(t).year) for t in times]),
        }[style]()
        if rng.random() < 0.3 and style != "npdt":
            df = runs(lambda: ScmDataFrame(pd.DataFrame(arr, index=idx), columns=colarg), what)
        else:
            df = runs(lambda: ScmDataFrame(arr, index=idx, columns=colarg), what)
    got = observe(df)
    same(got, exp, what)
    expect(got.times == sorted(got.times), "{}: times not sorted", what)
    expect(list(df.meta.columns) == REQ + sorted(set(cols) - set(REQ)), "{}: metadata columns {}", what, list(df.meta.columns))
    return repr((what, len(rows), len(times), cols))


def c23_bad(rng):
    times = gen_times(rng, 2, 4)
    if len(times) < 2:
        raise Stop()
    rows, _ = gen_rows(rng, times, n=3, nan=0.0, extra=[])
    cols = list(rows[0][0])
    arr = np.array([v for _, v in rows], dtype=float).T
    colarg = {c: [r[c] for r, _ in rows] for c in cols}
    k = rng.randrange(5)
    if k == 0:
        c = rng.choice(REQ)
        del colarg[c]
        raises(ValueError, lambda: ScmDataFrame(arr, index=as_dt64(times), columns=colarg), "array without " + c)
    elif k == 1:
        c = rng.choice(REQ)
        wide = pd.DataFrame({**{x: v for x, v in colarg.items() if x != c}, **{as_pydt(t): arr[i] for i, t in enumerate(times)}})
        raises(ValueError, lambda: ScmDataFrame(wide), "wide table without " + c)
    elif k == 2:
        if len(rows) < 3:
            raise Stop()
        c = rng.choice(REQ)
        colarg[c] = rng.choice([["a", "b"], ["a"] * 4, []])
        raises(ValueError, lambda: ScmDataFrame(arr, index=as_dt64(times), columns=colarg), "wrong number of metadata values")
    elif k == 3:
        wide = pd.DataFrame(dict(colarg, foo=["x"] * len(rows)))
        raises(ValueError, lambda: ScmDataFrame(wide), "table without times")
    else:
        long = pd.DataFrame(dict(colarg, value=[1.0] * len(rows)))
        if rng.random() < 0.5:
            long["year"] = 2000
            long["time"] = as_pydt(0)
        raises(ValueError, lambda: ScmDataFrame(long), "long table without proper time axis")
    return str(k)


# ------------------------------------------------------------------ C24


def near_equal(got, exp, what):
    """models equal, values as precisely as pandas reads them"""
    same(got, exp, what, tol=1e-9)
    db = {repr(nrow(m)): v for m, v in exp.rows}
    for m, v in got.rows:
        for t, x, y in zip(got.times, v, db[repr(nrow(m))]):
            ok = (math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-13 * abs(y)
            expect(ok, "{}: value of {} at {} is {!r} instead of {!r}", what, m, as_pydt(t), x, y)


def written(rng):
    """a frame that can be written: no missing metadata, a value for each timeseries and time"""
    times = gen_times(rng, 1, 6)
    rows, extra = gen_rows(rng, times, nan=0.15, metanan=False)
    for m, v in rows:
        if m.get("note") == "":
            m["note"] = rng.choice(["b", "two words, and more", 'a "quoted" note'])
    if len({repr(nrow(m)) for m, _ in rows}) < len(rows):
        raise Stop()
    if any(all(math.isnan(x) for x in v) for _, v in rows) or any(all(math.isnan(v[i]) for _, v in rows) for i in range(len(times))):
        raise Stop()
    m = Model(times, rows)
    return make(rng, times, rows), m


def c24(rng):
    df, m = written(rng)
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        p = os.path.join(d, rng.choice(["data.csv", "some data.csv", "a.b.csv", "x.xls.csv"]))
        if rng.random() < 0.2:
            with open(p, "w") as f:
                f.write("something else")
        what = "writing and reading"
        runs(lambda: df.to_csv(p), "to_csv")
        unchanged(df, m, "to_csv")
        expect(os.path.exists(p), "to_csv wrote no file")
        expect(os.listdir(d) == [os.path.basename(p)], "to_csv wrote other files")
        k = rng.random()
        if k < 0.5:
            again = runs(lambda: ScmDataFrame(p), "reading")
        elif k < 0.75:
            q = os.path.join(d, "shifted.csv")
            with open(p, newline="") as f:
                txt = f.read()
            with open(q, "w", newline="") as f:
                f.write("a comment\nand another\n" + txt)
            again = runs(lambda: ScmDataFrame(q, skiprows=2), "reading with options")
        else:
            q = os.path.join(d, "semi.csv")
            runs(lambda: df.to_csv(q, sep=";"), "to_csv(sep)")
            again = runs(lambda: ScmDataFrame(q, sep=";"), "reading with options")
        near_equal(observe(again), m, what)
        expect(observe(again).times == sorted(m.times), "{}: times in another order", what)
    finally:
        shutil.rmtree(d)
    return repr(m.rows)


def c24_years(rng):
    """a file with years as columns"""
    ys = sorted(rng.sample(range(1000, 3000), rng.randint(1, 6)))
    times = [secs(dt.datetime(y, 1, 1)) for y in ys]
    rows, extra = gen_rows(rng, times, nan=0.15, metanan=False)
    rows = [({**m, **({"note": "b"} if m.get("note") == "" else {})}, v) for m, v in rows]
    if len({repr(nrow(m)) for m, _ in rows}) < len(rows):
        raise Stop()
    cols = list(rows[0][0])
    up = rng.random() < 0.5
    order = rng.sample(range(len(ys)), len(ys))
    tab = pd.DataFrame([[m[c] for c in cols] + [v[i] for i in order] for m, v in rows], columns=[c.capitalize() if up else c for c in cols] + [str(ys[i]) for i in order])
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        p = os.path.join(d, "years.csv")
        tab.to_csv(p, index=False)
        df = runs(lambda: ScmDataFrame(p), "reading years")
    finally:
        shutil.rmtree(d)
    near_equal(observe(df), Model(times, rows), "reading years")
    return repr(ys)


def c24_book(rng):
    """workbooks: which sheet is read, by stand-ins of the reading functions of pandas"""
    df, m = written(rng)
    tab = df.timeseries().reset_index()
    sheets = rng.choice([["data"], ["other"], ["meta", "data"], ["data", "meta", "notes"], ["a", "b", "c"]])
    opts = rng.choice([{}, {}, {"sheet_name": rng.choice(sheets)}, {"sheet_name": 0}, {"header": 2}])
    asked = []

    class Book:
        def __init__(self, path, **kw):
            self.sheet_names = list(sheets)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def parse(self, *a, **kw):
            return read_excel(self, *a, **kw)

    def read_excel(io, *a, **kw):
        asked.append((io, a, dict(kw)))
        return tab.copy()

    d = tempfile.mkdtemp(prefix="c24-")
    olds = pd.ExcelFile, pd.read_excel
    try:
        p = os.path.join(d, rng.choice(["book.xls", "book.xlsx", "csv.xlsx"]))
        there = rng.random() < 0.8
        if there:
            with open(p, "w") as f:
                f.write("x")
        pd.ExcelFile, pd.read_excel = Book, read_excel
        given = dict(opts)
        if not there:
            raises(OSError, lambda: ScmDataFrame(p, **opts), "a file that does not exist")
            return "missing"
        again = runs(lambda: ScmDataFrame(p, **opts), "reading a workbook")
    finally:
        pd.ExcelFile, pd.read_excel = olds
        shutil.rmtree(d)
    expect(opts == given, "the options given were changed")
    expect(len(asked) == 1, "{} tables read", len(asked))
    io, a, kw = asked[0]
    sheet = kw.pop("sheet_name", a[0] if a else 0)
    first = sheets.index(sheet) if sheet in sheets else sheet
    want = opts.get("sheet_name", "data" if len(sheets) > 1 else 0)
    expect(sheet == want or (len(sheets) == 1 and first == 0), "sheet {!r} of {} read instead of {!r}", sheet, sheets, want)
    expect(kw == {k: x for k, x in opts.items() if k != "sheet_name"}, "options {} instead of {}", kw, opts)
    near_equal(observe(again), m, "workbook")
    return repr((sheets, opts))


def c24_pyam(rng):
    """to pyam and back, times as texts or as times"""
    df, m = written(rng)
    if LongDatetimeIamDataFrame is None:
        raise Stop()
    if rng.random() < 0.5:
        iam = runs(df.to_iamdataframe, "to_iamdataframe")
        unchanged(df, m, "to_iamdataframe")
    else:
        f = rng.choice(["{:%Y-%m-%d %H:%M:%S}", "{:%Y-%m-%dT%H:%M:%S}"])
        if any(as_pydt(t).year < 1000 for t in m.times):
            raise Stop()
        recs = [{**r, "time": f.format(as_pydt(t)), "value": x} for r, v in m.rows for t, x in zip(m.times, v) if not math.isnan(x)]
        iam = runs(lambda: LongDatetimeIamDataFrame(pd.DataFrame(recs)), "LongDatetimeIamDataFrame of texts")
    before = iam.data.copy()
    back = runs(lambda: ScmDataFrame(iam), "a frame from pyam")
    near_equal(observe(back), m, "to pyam and back")
    expect(before.equals(iam.data), "the data of pyam were changed")
    return repr(m.rows)


def c24_missing(rng):
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        raises(OSError, lambda: ScmDataFrame(os.path.join(d, rng.choice(["no.csv", "no.xls", "no"]))), "a file that does not exist")
    finally:
        shutil.rmtree(d)
    return "missing"


KINDS = {
    "C24": [Kind("roundtrip", c24, 5), Kind("years", c24_years, 2), Kind("workbook", c24_book, 2), Kind("pyam", c24_pyam, 2), Kind("missing", c24_missing, 0.2)],
    "C14": [Kind("filter", c14, 10), Kind("unknown", c14_unknown, 0.3)],
    "C15": [
        Kind("pattern", c15_pattern, 6),
        Kind("mixed", c15_mixed, 2),
        Kind("level", c15_level, 4),
        Kind("time", c15_time, 3),
        Kind("badtime", c15_badtime, 0.5),
    ],
    "C16": [Kind("append", c16)],
    "C17": [Kind("convert_unit", c17)],
    "C18": [Kind("interpolate", c18)],
    "C19": [Kind("roundtrip", c19)],
    "C20": [Kind("rename", c20_rename, 3), Kind("set_meta", c20_set, 4), Kind("source", c20_source, 3), Kind("apart", c20_apart, 3), Kind("access", c20_access, 0.5)],
    "C22": [Kind("process_over", c22_process), Kind("ref_period", c22_ref)],
    "C23": [Kind("table", c23, 5), Kind("refused", c23_bad, 1)],
}
