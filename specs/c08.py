"""C08: metric conversions apply the published factors and only in their context."""
from fractions import Fraction

import z3

from pyvc import core
from pyvc.core import NAN, NONE_STR, SStr, Unsupported, num, real
from pyvc.pintm import CTXDEF, DEF, ISNAN, NOCTX, OK, A, Bo
from pyvc.speclib import attempt, exc_name
from specs import unitdefs
from specs.unitdefs import Q, dims, mul

U = "openscm.core.units:"
C = U + "UnitConverter"
R = U + "ScmUnitRegistry."
B = z3.BoolVal
METRICS = ("SARGWP100", "AR4GWP100", "AR5GWP100")
# The published factors (None: the metric has none for this species).
FACTORS = {
    "C10F18": (None, None, 7190),
    "C2F6": (9200, 12200, 11100),
    "C3F8": (7000, 8830, 8900),
    "C4F10": (7000, 8860, 9200),
    "C5F12": (7500, 9160, 8550),
    "C6F14": (7400, 9300, 7910),
    "CCl4": (1400, 1400, 1730),
    "CF4": (6500, 7390, 6630),
    "CFC11": (3800, 4750, 4660),
    "CFC113": (4800, 6130, 5820),
    "CFC114": (None, 10000, 8590),
    "CFC115": (None, 7370, 7670),
    "CFC12": (8100, 10900, 10200),
    "CFC13": (None, 14400, 13900),
    "CH2Cl2": (9, '8.7', 9),
    "CH3Br": (None, 5, 2),
    "CH3CCl3": (100, 146, 160),
    "CH3Cl": (None, 13, 12),
    "CH4": (21, 25, 28),
    "CHCl3": (4, None, 16),
    "HCFC123": (90, 77, 79),
    "HCFC124": (470, 609, 527),
    "HCFC141b": (600, 725, 782),
    "HCFC142b": (1800, 2310, 1980),
    "HCFC21": (None, None, 148),
    "HCFC22": (1500, 1810, 1760),
    "HCFC225ca": (None, 122, 127),
    "HCFC225cb": (None, 595, 525),
    "HCFE235da2": (350, 491, None),
    "HFC125": (2800, 3500, 3170),
    "HFC134": (1000, None, 1120),
    "HFC134a": (1300, 1430, 1300),
    "HFC143": (300, None, 328),
    "HFC143a": (3800, 4470, 4800),
    "HFC152": (None, None, 16),
    "HFC152a": (140, 124, 138),
    "HFC161": (None, None, 4),
    "HFC227ea": (2900, 3220, 3350),
    "HFC23": (11700, 14800, 12400),
    "HFC236cb": (None, None, 1210),
    "HFC236ea": (None, None, 1330),
    "HFC236fa": (6300, 9810, 8060),
    "HFC245ca": (560, None, 716),
    "HFC245fa": (None, 1030, 858),
    "HFC32": (650, 675, 677),
    "HFC365mfc": (None, 794, 804),
    "HFC41": (150, None, 116),
    "HFC4310mee": (1300, 1640, 1650),
    "HFE125": (14900, 12400, None),
    "HFE134": (6320, 5560, None),
    "HFE143a": (756, 523, None),
    "HFE227ea": (None, None, 6450),
    "HFE236ca12": (2800, 5350, None),
    "HFE236ea2": (None, None, 1790),
    "HFE236fa": (None, None, 979),
    "HFE245cb2": (708, 654, None),
    "HFE245fa1": (None, None, 828),
    "HFE245fa2": (659, 812, None),
    "HFE263fb2": (None, None, 1),
    "HFE329mcc2": (None, None, 3070),
    "HFE338mcf2": (None, None, 929),
    "HFE338pcc13": (None, 1500, 2910),
    "HFE347mcc3": (575, 530, None),
    "HFE347mcf2": (None, None, 854),
    "HFE347pcf2": (580, 889, None),
    "HFE356mec3": (None, None, 387),
    "HFE356pcc3": (110, 413, None),
    "HFE356pcf2": (None, None, 719),
    "HFE356pcf3": (None, None, 446),
    "HFE365mcf3": (None, None, None),
    "HFE374pc2": (None, None, 627),
    "HFE4310pccc124": (1870, 2820, None),
    "HFE449sl": (297, 421, None),
    "HFE569sf2": (59, 57, None),
    "Halon1201": (None, None, 376),
    "Halon1202": (None, None, None),
    "Halon1211": (None, 1890, 1750),
    "Halon1301": (5400, 7140, 6290),
    "Halon2402": (None, 1640, 1470),
    "N2O": (310, 298, 265),
    "NF3": (None, 17200, 16100),
    "PFPMIE": (None, 10300, 9710),
    "SF5CF3": (None, 17700, 17400),
    "SF6": (23900, 22800, 23500),
    "cC3F6": (None, None, 9200),
    "cC4F8": (8700, 10300, 9540),
}
# units of the same substance a factor applies to as well: ratio to the listed species
FORMS = {"plain": {}, "mass": {"gram": 1}, "rate": {"second": -1}, "mass rate": {"gram": 1, "second": -1}}
RATIOS = {"CH4_conversions": ("C", "CH4", Fraction(16, 12)), "NOx_conversions": ("N", "NOx", Fraction(46, 14))}


def build(v):
    v.trust("pint: contract of definitions and contexts in specs/unitdefs.py and pyvc/pintm.py (a context converts between two dimensions by the transformation registered last for them; it is active exactly within the with block)")
    v.trust("pandas.read_csv, iloc: rows and columns of the file (specs/unitdefs.py)")
    v.assume("floating point numbers are treated as mathematical reals; the published factors are those in this file")

    def loaded(it):
        o, reg = unitdefs.standards(it)
        _, e = attempt(it, lambda: it.call(it.getattr(o, "enable_contexts"), ["AR4GWP100"], {}))
        return o, reg, e

    def through(it, reg, o, c, q, to):
        """q converted within context c to the dimensions of the unit to: number of base units, or None."""
        src, dst = reg.dimensionality(q), reg.dimensionality(to)
        f = c.tr.get((dims(src), dims(dst)))
        if f is None:
            return None
        r = it.call(f, [o, q.base()], {})
        if not isinstance(r, Q):
            raise Unsupported("result of a transformation")
        b, w = r.base(), to.base()
        if b.u != w.u:
            return None
        return unitdefs.over(b.m, w.m)

    def check(it, ctx, reg, o, c, a, b, factor, name, extra):
        """1 a is factor b."""
        x = ctx.real("x")
        for s, t, f, way in ((a, b, factor, "to"), (b, a, None if factor is None else 1 / factor, "from")):
            q = Q(reg, x, mul({s: 1}, extra))
            r = through(it, reg, o, c, q, Q(reg, 1, mul({t: 1}, extra)))
            if r is None:
                return "no transformation of %s to %s" % (s, t)
            if factor is None:
                if r is not NAN:
                    return "%s to %s is not nan" % (s, t)
            elif r is NAN:
                return "%s to %s is nan" % (s, t)
            else:
                yield_.append(real(r) == x * z3.RealVal(f))
        return ""

    yield_ = []
    names = {"gram": "g", "second": "s"}
    for metric in METRICS:
        @v.unit("factors of " + metric, functions=[R + f for f in ("enable_contexts", "_load_contexts", "_load_metric_conversions")], covers=["end"])
        def factors(it, ctx, metric=metric):
            o, reg, e = loaded(it)
            if e is not None or metric not in reg.contexts:
                ctx.fail("the context is defined", exc_name(e) if e is not None else "missing")
                return
            c = reg.contexts[metric]
            for sp, fs in FACTORS.items():
                f = fs[METRICS.index(metric)]
                f = None if f is None else Fraction(f)
                for form, extra in FORMS.items():
                    del yield_[:]
                    bad = check(it, ctx, reg, o, c, sp, "CO2", f, form, {names[k]: e for k, e in extra.items()})
                    nm = "%s (%s) to CO2 and back" % (sp, form)
                    if bad:
                        ctx.fail(nm, bad)
                    else:
                        ctx.oblige(nm, z3.And([B(True)] + yield_))
            ctx.cover("end")

    @v.unit("ratios of the CH4 and NOx contexts", functions=[R + "_load_contexts"], covers=["end"])
    def ratios(it, ctx):
        o, reg, e = loaded(it)
        for n, (a, b, f) in RATIOS.items():
            if e is not None or n not in reg.contexts:
                ctx.fail(n + " is defined", "missing")
                continue
            del yield_[:]
            bad = check(it, ctx, reg, o, reg.contexts[n], a, b, f, "plain", {})
            if bad:
                ctx.fail(n, bad)
            else:
                ctx.oblige(n + ": documented ratio in both directions", z3.And(yield_))
            ctx.oblige(n + ": converts nothing else", B(len(reg.contexts[n].tr) == 2))
        ctx.cover("end")

    @v.unit("contexts are there before they are enabled", functions=[R + "enable_contexts"], covers=["end"])
    def enabling(it, ctx):
        o, reg = unitdefs.standards(it)
        for k, names_ in enumerate((["AR5GWP100"], ["CH4_conversions"], ["SARGWP100", "NOx_conversions"], [])):
            _, e = attempt(it, lambda: it.call(it.getattr(o, "enable_contexts"), list(names_), {}))
            ctx.oblige("enabling (call %d)" % (k + 1), B(e is None and reg.active == [(tuple(names_), {})]))
            reg.active = []
        _, e = attempt(it, lambda: it.call(it.getattr(o, "enable_contexts"), ["unknown context"], {}))
        ctx.oblige("unknown contexts are refused", B(e is not None and exc_name(e) == "KeyError" and not reg.active))
        ctx.cover("end")

    @v.unit("a context affects only its converter", functions=[C + ".__init__", C + ".convert_from", C + ".convert_to"], covers=["made", "refused", "without"])
    def leak(it, ctx):
        """Histories of conversions: any converter, then another without context."""
        s, t, c = [ctx.fresh(n, core.Str) for n in ("source", "target", "context")]
        ctx.assume(z3.And(c != NOCTX, c != NONE_STR))
        make = lambda *a: attempt(it, lambda: it.instantiate(it.cls(C), [SStr(x) for x in a], {}))
        first = None
        u, w = [ctx.fresh(n, core.Str) for n in ("source2", "target2")]
        before = ctx.choose(2)
        if before:
            first, _ = make(u, w)
            if first is None:
                raise core.PathAbort()
            y0 = real(it.call(it.getattr(first, "convert_from"), [z3.RealVal(3)], {}))
        o, e = make(s, t, c)
        ctx.cover("refused" if e is not None else "made")
        ctx.oblige("no context is active afterwards", B(not ctx.ghost.get("pint contexts")))
        if e is None:
            x = ctx.real("x")
            ctx.oblige("conversion by the factor of the context", z3.Or(ISNAN(s, t, c), real(it.call(it.getattr(o, "convert_from"), [x], {})) == A(s, t, c) * x + Bo(s, t, c)))
            ctx.oblige("back by its inverse", z3.Or(ISNAN(s, t, c), A(s, t, c) * real(it.call(it.getattr(o, "convert_to"), [x], {})) + Bo(s, t, c) == x))
            warned = any(l[0] == "warn" for l in ctx.log)
            ctx.oblige("warns if and only if there is no factor", ISNAN(s, t, c) == B(warned))
        if before:
            ctx.oblige("converters made before are not affected", real(it.call(it.getattr(first, "convert_from"), [z3.RealVal(3)], {})) == y0)
            return
        o2, e2 = make(u, w)
        if e2 is None:
            ctx.cover("without")
            x = ctx.real("x")
            ctx.oblige("afterwards: known units of one dimension only", OK(u, w, NOCTX))
            ctx.oblige("afterwards: conversion without context", real(it.call(it.getattr(o2, "convert_from"), [x], {})) == A(u, w, NOCTX) * x + Bo(u, w, NOCTX))
        else:
            ctx.oblige("afterwards: refused only if not convertible without context", z3.Not(z3.And(DEF(u), DEF(w), OK(u, w, NOCTX))))
