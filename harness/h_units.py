"""C06-C08: unit conversion"""
import json
import os
import warnings

import numpy as np
import pint
from pint.errors import DimensionalityError, UndefinedUnitError

from openscm.core.units import UnitConverter

from . import oracle
from .base import Kind, close, expect, raises, runs

HERE = os.path.dirname(os.path.abspath(__file__))
GASES = json.load(open(os.path.join(HERE, "gases_pinned.json")))
GWP = json.load(open(os.path.join(HERE, "gwp_pinned.json")))
PLAIN = pint.UnitRegistry()

# --------------------------------------------------------------------------- C06
GROUPS = {
    "length": ["m", "km", "cm", "mm", "foot", "mile", "inch", "yard", "nautical_mile", "um"],
    "energy": ["J", "kJ", "EJ", "GWh", "calorie", "BTU", "toe"],
    "power": ["W", "kW", "TW", "horsepower"],
    "pressure": ["Pa", "hPa", "bar", "atm", "psi", "torr", "mmHg"],
    "time": ["s", "minute", "hour", "day", "week", "year", "month", "century"],
    "temperature": ["K", "degC", "degF", "degR", "mK", "kelvin", "celsius", "fahrenheit"],
    "mass": ["kg", "g", "t", "lb", "ounce", "Gt", "Mt", "metric_ton", "stone"],
    "angle": ["radian", "degree", "arcminute", "turn"],
    "delta": ["delta_degC", "delta_degF"],
    "none": ["", "dimensionless", "percent" if "percent" in PLAIN else "count"],
}
GROUPS["none"] = ["", "dimensionless"]


def compound(rng):
    """two units of equal dimension and the plain registry's quantities"""
    gs = rng.sample([g for g in GROUPS if g not in ("temperature", "none", "delta")], rng.randint(1, 3))
    u, v = [], []
    for g in gs:
        e = rng.choice([1, 1, -1, 2, -2])
        for l in (u, v):
            n = rng.choice(GROUPS[g])
            l.append(n if e == 1 else "{}{}{}".format(n, rng.choice(["**", "^"]), e))
    sep = rng.choice([" * ", " ", "*"])
    return sep.join(u), " * ".join(v)


def affine(rng):
    """C06 main case"""
    if rng.random() < 0.45:
        dim = rng.choice(list(oracle.UNITS))
        u, v = rng.choice(list(oracle.UNITS[dim])), rng.choice(list(oracle.UNITS[dim]))
        a, b = oracle.UNITS[dim][u]
        c, d = oracle.UNITS[dim][v]
        scale, off = a / c, (b - d) / c
    else:
        if rng.random() < 0.5:
            g = rng.choice(list(GROUPS))
            u, v = rng.choice(GROUPS[g]), rng.choice(GROUPS[g])
        else:
            u, v = compound(rng)
        q = PLAIN.Quantity(0.0, PLAIN.Unit(u)).to(PLAIN.Unit(v)).m
        q1 = PLAIN.Quantity(1.0, PLAIN.Unit(u)).to(PLAIN.Unit(v)).m
        scale, off = q1 - q, q
    uc = runs(lambda: UnitConverter(u, v), "UnitConverter({!r}, {!r})".format(u, v))
    expect(uc.source == u and uc.target == v, "source and target")
    xs = np.array([0.0, 1.0, -1.0, 273.15, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10 ** rng.randint(-8, 12)])
    want = xs * scale + off
    tol = [1e-9 * (abs(w) + abs(off) + abs(scale) * (273.15 if off else 0)) for w in want]
    for x, w, t in zip(xs, want, tol):
        got = runs(lambda: uc.convert_from(float(x)), "convert_from")
        expect(abs(got - w) <= t, "{} {} is {} {} but convert_from gives {}", x, u, w, v, got)
        back = uc.convert_to(float(w))
        expect(abs(back - x) <= 1e-9 * (abs(x) + abs(off / scale) + (300 if off else 0)), "convert_to({}) [{} to {}] gives {} instead of {}", w, v, u, back, x)
        if u == v:
            expect(got == x or abs(got - x) <= 1e-12 * abs(x), "conversion of {} to same unit {} gives {}", x, u, got)
    arr = runs(lambda: uc.convert_from(xs.copy()), "convert_from of array")
    expect(all(abs(g - w) <= t for g, w, t in zip(arr, want, tol)), "array conversion {} to {}: {} instead of {}", u, v, arr, want)
    src = xs.copy()
    uc.convert_from(src)
    uc.convert_to(src)
    expect((src == xs).all(), "conversion changes its input")
    back = uc.convert_to(arr)
    expect(close(back, xs, rtol=1e-9, scale=np.abs(xs).max() + abs(off / scale) + (300 if off else 0)), "round trip of array {} to {}", u, v)
    return (u, v)


def via(rng):
    """converting via a third unit"""
    g = rng.choice(list(GROUPS) + list(oracle.UNITS))
    names = GROUPS[g] if g in GROUPS and rng.random() < 0.6 else list(oracle.UNITS.get(g, GROUPS.get(g)))
    u, v, w = (rng.choice(names) for _ in range(3))
    a, b, c = UnitConverter(u, w), UnitConverter(u, v), UnitConverter(v, w)
    for x in (0.0, 1.0, rng.uniform(-1e4, 1e4)):
        y, z = a.convert_from(x), c.convert_from(b.convert_from(x))
        t = 1e-9 * (abs(y) + abs(c._scaling if hasattr(c, "_scaling") else 1) * abs(b.convert_from(x)) + (600 if g == "temperature" else 0) * (1 + abs(a.convert_from(1.0) - a.convert_from(0.0))))
        expect(abs(y - z) <= t, "{} {} via {}: {} instead of {} {}", x, u, v, z, y, w)
    return (u, v, w)


def refused(rng):
    """different dimensions or unknown units raise"""
    k = rng.random()
    if k < 0.6:
        g, h = rng.sample([g for g in GROUPS if g not in ("delta", "none", "angle")], 2)
        u, v = rng.choice(GROUPS[g]), rng.choice(GROUPS[h])
        if rng.random() < 0.3 and "temperature" not in (g, h):
            s = rng.choice(GROUPS["time"])
            u, v = u + " / " + s, v + " / " + s
        raises(DimensionalityError, lambda: UnitConverter(u, v).convert_from(1.0), "{} to {}".format(u, v))
        return (u, v)
    bad = rng.choice(["junk", "CO3", "GtXyz", "not_a_unit", "W / junk"])
    u = rng.choice(["m", "CO2", "K"])
    a = (bad, u) if rng.random() < 0.5 else (u, bad)
    if rng.random() < 0.3:
        a = (bad, bad)
    raises(UndefinedUnitError, lambda: UnitConverter(*a).convert_from(1.0), "{} to {}".format(*a))
    return a


# --------------------------------------------------------------------------- C07
MASSES = {"g": 1e-3, "kg": 1.0, "t": 1e3, "kt": 1e6, "Mt": 1e9, "Gt": 1e12, "Pg": 1e12, "Tg": 1e9, "mg": 1e-6, "ug": 1e-9, "Eg": 1e15}
TIMES = {"s": 1.0, "day": 86400.0, "d": 86400.0, "h": 3600.0, "hour": 3600.0, "a": oracle.YEAR, "yr": oracle.YEAR, "year": oracle.YEAR, "annum": oracle.YEAR, "month": oracle.YEAR / 12, "min": 60.0}


def spellings():
    out = []
    for s, (base, r, aliases) in GASES.items():
        for n in dict.fromkeys([s, s.upper()] + aliases):
            out.append((n, base, r, n in (s, s.upper())))
    return out


SPELL = spellings()
# joint mass prefixes which also read as something else are left out (e.g. "mN")
JOINT = {"g": 1e-3, "t": 1e3, "kg": 1.0, "kt": 1e6, "Mt": 1e9, "Gt": 1e12, "Tg": 1e9, "Pg": 1e12, "mg": 1e-6}


def emission_unit(rng, name, joint, mass, tm):
    """spelling of an emission unit and its value in kg base / s"""
    val, txt = 1.0, name
    if mass:
        if joint:
            p = rng.choice(list(JOINT))
            txt = p + name
            val *= JOINT[p]
        else:
            p = rng.choice(list(MASSES))
            txt = rng.choice(["{} {}", "{} * {}", "{1} {0}", "{1}*{0}"]).format(p, name)
            val *= MASSES[p]
    if tm:
        t = rng.choice(list(TIMES))
        txt = rng.choice(["{}/{}", "{} / {}", "{} {}**-1", "{} {}^-1"]).format(txt, t)
        val /= TIMES[t]
    return txt, val


def same(rng):
    n, base, r, j = rng.choice(SPELL)
    m, _, q, k = rng.choice([s for s in SPELL if s[1] == base])
    mass, tm = rng.random() < 0.7, rng.random() < 0.5
    u, a = emission_unit(rng, n, j and rng.random() < 0.7, mass, tm)
    v, b = emission_unit(rng, m, k and rng.random() < 0.7, mass, tm)
    f = a * r / (b * q)
    uc = runs(lambda: UnitConverter(u, v), "UnitConverter({!r}, {!r})".format(u, v))
    for x in (0.0, 1.0, rng.uniform(-1e5, 1e5)):
        got = uc.convert_from(x)
        expect(abs(got - x * f) <= 1e-9 * abs(x * f), "{} {} is {} {} instead of {}", x, u, got, v, x * f)
    return (u, v)


def sweep_same(rng):
    """every spelling of one substance against its base, all plain and joint forms"""
    base = rng.choice(sorted({s[1] for s in SPELL}))
    for n, b, r, j in SPELL:
        if b != base:
            continue
        forms = [("{}", 1.0)] + ([("g{}", 1e-3), ("t{}", 1e3)] if j else [])
        for form, m in forms:
            tgt = base if m == 1.0 and form == "{}" else "kg * " + base
            u = form.format(n)
            got = runs(lambda: UnitConverter(u, tgt).convert_from(1.0), "{} to {}".format(u, tgt))
            expect(abs(got - m * r) <= 1e-9 * m * r, "1 {} is {} {} instead of {}", u, got, tgt, m * r)
    return base


def different(rng):
    n, base, r, j = rng.choice(SPELL)
    m, b2, q, k = rng.choice([s for s in SPELL if s[1] != base])
    mass, tm = rng.random() < 0.5, rng.random() < 0.5
    u, _ = emission_unit(rng, n, j and rng.random() < 0.7, mass, tm)
    v, _ = emission_unit(rng, m, k and rng.random() < 0.7, mass, tm)
    raises(DimensionalityError, lambda: UnitConverter(u, v).convert_from(1.0), "{} to {}".format(u, v))
    return (u, v)


def sweep_different(rng):
    """one spelling against the bases of all other substances"""
    n, base, r, j = rng.choice(SPELL)
    for b in sorted({s[1] for s in SPELL}):
        if b != base:
            raises(DimensionalityError, lambda: UnitConverter(n, b).convert_from(1.0), "{} to {}".format(n, b))
    return n


# --------------------------------------------------------------------------- C08
FORMS = ["{}", "{m} * {}", "{} / {t}", "{m} * {} / {t}"]


def with_context(ctx, u, v):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        uc = UnitConverter(u, v, context=ctx)
        return uc, any("No conversion" in str(x.message) or "nan" in str(x.message) for x in w)


def metric_case(rng, ctx, sp, form=None, back=None):
    f = GWP[ctx][sp]
    form = form or rng.choice(FORMS)
    m1, m2 = rng.choice(list(MASSES)), rng.choice(list(MASSES))
    t1, t2 = rng.choice(list(TIMES)), rng.choice(list(TIMES))
    u = form.format(sp if rng.random() < 0.8 else sp.upper(), m=m1, t=t1)
    v = form.format("CO2", m=m2, t=t2)
    k = 1.0
    if "{m}" in form:
        k *= MASSES[m1] / MASSES[m2]
    if "{t}" in form:
        k *= TIMES[t2] / TIMES[t1]
    if f is None:
        uc, warned = runs(lambda: with_context(ctx, u, v), "{} to {} in {}".format(u, v, ctx))
        x = uc.convert_from(2.0)
        expect(np.isnan(x), "{} to {} in {} gives {} although there is no factor", u, v, ctx, x)
        expect(warned, "{} to {} in {}: no warning", u, v, ctx)
        uc, warned = runs(lambda: with_context(ctx, v, u), "{} to {} in {}".format(v, u, ctx))
        x = uc.convert_from(2.0)
        expect(np.isnan(x), "{} to {} in {} gives {} although there is no factor", v, u, ctx, x)
        expect(warned, "{} to {} in {}: no warning", v, u, ctx)
        return
    x = rng.choice([1.0, rng.uniform(-100, 100)])
    w = x * f * k
    uc, warned = runs(lambda: with_context(ctx, u, v), "{} to {} in {}".format(u, v, ctx))
    expect(not warned, "warning although {} has a factor in {}", sp, ctx)
    got = uc.convert_from(x)
    expect(abs(got - w) <= 1e-9 * abs(w), "{} {} is {} {} in {} instead of {}", x, u, got, v, ctx, w)
    uc, _ = runs(lambda: with_context(ctx, v, u), "{} to {} in {}".format(v, u, ctx))
    got = uc.convert_from(x)
    w = x / (f * k)
    expect(abs(got - w) <= 1e-9 * abs(w), "{} {} is {} {} in {} instead of {}", x, v, got, u, ctx, w)


def metric(rng):
    ctx = rng.choice(sorted(GWP))
    sp = rng.choice(sorted(GWP[ctx]))
    metric_case(rng, ctx, sp)
    return (ctx, sp)


def sweep_metric(rng):
    ctx = rng.choice(sorted(GWP))
    form = rng.choice(FORMS)
    for sp in rng.sample(sorted(GWP[ctx]), 20):
        metric_case(rng, ctx, sp, form)
    return (ctx, form)


RATIOS = [
    ("CH4_conversions", "C", "CH4", 16 / 12), ("CH4_conversions", "CO2", "CH4", 16 / 44),
    ("NOx_conversions", "N", "NOx", 46 / 14), ("NOx_conversions", "N2O", "NOx", 46 / 44),
    ("NOx_conversions", "NH3", "NOx", 46 / 17), ("NOx_conversions", "N2ON", "NOx", 46 / 28),
]


def ratio(rng):
    ctx, a, b, f = rng.choice(RATIOS)
    uc = runs(lambda: UnitConverter(a, b, context=ctx), "{} to {} in {}".format(a, b, ctx))
    expect(abs(uc.convert_from(3.0) - 3.0 * f) <= 1e-9, "3 {} is {} {} in {}", a, uc.convert_from(3.0), b, ctx)
    uc = runs(lambda: UnitConverter(b, a, context=ctx), "{} to {} in {}".format(b, a, ctx))
    expect(abs(uc.convert_from(3.0) - 3.0 / f) <= 1e-9, "3 {} is {} {} in {}", b, uc.convert_from(3.0), a, ctx)
    return (ctx, a, b)


def leak(rng):
    """histories: conversions without (or with another) context are still refused"""
    hist = []
    old = []
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        ctx = rng.choice(sorted(GWP) + ["CH4_conversions", "NOx_conversions"])
        if k < 0.35:
            if ctx in GWP:
                sp = rng.choice(sorted(GWP[ctx]))
                metric_case(rng, ctx, sp)
                hist.append((ctx, sp))
                f = GWP[ctx][sp]
                if f is not None:
                    old.append((UnitConverter("t" + sp, "tCO2", context=ctx), f, sp, ctx))
            else:
                ratio(rng)
                hist.append(ctx)
        elif k < 0.5:
            # refused within the context: error must leave no trace
            a, b = rng.choice([("OC", "CO2"), ("m", "CO2"), ("BC", "NOx"), ("SO2", "CH4"), ("kg", "K")])
            raises(DimensionalityError, lambda: UnitConverter(a, b, context=ctx), "{} to {} in {}".format(a, b, ctx))
            hist.append(("refused", ctx))
        elif k < 0.9:
            sp = rng.choice(sorted(GWP["AR4GWP100"]) + ["NOx"])
            a, b = sp, "N" if sp == "NOx" else "CO2"
            form = rng.choice(FORMS)
            u, v = form.format(a, m="t", t="a"), form.format(b, m="t", t="a")
            if rng.random() < 0.5:
                u, v = v, u
            raises(DimensionalityError, lambda: UnitConverter(u, v), "{} to {} without context".format(u, v))
            hist.append(("none", sp))
        else:
            # a context does not allow what only another one allows
            ctx = rng.choice(sorted(GWP))
            raises(DimensionalityError, lambda: UnitConverter("NOx", "N", context=ctx), "NOx in " + ctx)
            a = rng.choice(sorted(set(GWP[ctx]) - {"N2O", "CH4"}))
            c2 = rng.choice(["CH4_conversions", "NOx_conversions"])
            raises(DimensionalityError, lambda: UnitConverter(a, "CO2", context=c2), "{} in {}".format(a, c2))
            hist.append("other")
    for uc, f, sp, ctx in old:
        expect(abs(uc.convert_from(2.0) - 2.0 * f) <= 1e-9 * f, "earlier converter of {} in {} changed", sp, ctx)
    return tuple(hist)


KINDS = {
    "C06": [Kind("affine", affine, 4), Kind("via", via, 1), Kind("refused", refused, 1)],
    "C07": [Kind("same", same, 5), Kind("sweep_same", sweep_same, 0.3), Kind("different", different, 3), Kind("sweep_different", sweep_different, 0.3)],
    "C08": [Kind("metric", metric, 4), Kind("sweep", sweep_metric, 0.6), Kind("ratio", ratio, 0.5), Kind("leak", leak, 1.5)],
}
