"""C11: time grids and time points are exact."""
import z3

from pyvc import builtins, core, dtm, npm
from pyvc.core import SStr, num, real
from pyvc.npm import Dt, Td, YEAR_START
from pyvc.speclib import attempt, exc_name, ptype

T = "openscm.core.time:"


def build(v):
    v.trust("numpy: contract in pyvc/npm.py (arrays, linspace, datetime64 in whole seconds)")
    v.assume("floating point numbers are treated as mathematical reals (seconds since 1970 below 2^53)")
    v.assume("dateutil.parser.parse (uninterpreted: which texts are dates, and the instant each says), datetime and numpy's own conversions between datetime types are not verified (bounded part)")

    @v.unit("create_time_points", functions=[T + "create_time_points", "openscm.core.parameters:ParameterType.from_timeseries_type"], covers=["point", "average"])
    def grid(it, ctx):
        f = it.load("openscm.core.time").lookup("create_time_points")
        s, p, n = ctx.int("start"), ctx.int("period"), ctx.int("points")
        kinds = [(ptype(it, "POINT_TIMESERIES"), 0), (ptype(it, "AVERAGE_TIMESERIES"), 1), ("point", 0), ("average", 1), ("Average", 1)]
        tt, extra = kinds[ctx.choose(len(kinds))]
        ctx.assume(z3.And(p > 0, n >= 1))
        r, e = attempt(it, lambda: it.call(f, [Dt(s), Td(p), n, tt], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("average" if extra else "point")
        ctx.oblige("times", z3.BoolVal(r.kind == "M"))
        ctx.oblige("one point per value, one more for averages", num(r.length) == n + extra)
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n + extra))
        for st in ctx.ghost.get("linspace steps", ()):
            lemma = z3.Or(n + extra <= 1, st == p)  # used once it is proved
            if ctx.proves(lemma, 8000):
                ctx.assume(lemma)
        ctx.oblige("starts at the start time", num(r.at(0).e) == s)
        ctx.oblige("neighbouring points are one period apart", num(r.at(i).e) == s + i * p)

    @v.unit("create_time_points: other types are refused", functions=[T + "create_time_points"], covers=["end"])
    def refuse(it, ctx):
        f = it.load("openscm.core.time").lookup("create_time_points")
        for x in (ptype(it, "SCALAR"), ptype(it, "GENERIC"), "other"):
            _, e = attempt(it, lambda: it.call(f, [Dt(ctx.int("s")), Td(ctx.int("p")), 5, x], {}))
            ctx.oblige("ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        ctx.cover("end")

    @v.unit("_float_year_to_datetime", functions=[T + "_float_year_to_datetime"], covers=["end"])
    def floats(it, ctx):
        f = it.load("openscm.core.time").lookup("_float_year_to_datetime")
        y = ctx.real("year")
        ctx.assume(z3.And(y >= 1, y < 9999))
        r, e = attempt(it, lambda: it.call(f, [y], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        k = z3.ToInt(y)
        a, b = YEAR_START(k), YEAR_START(k + 1)
        x = a + (y - k) * (b - a)
        ctx.assume(b > a)
        ctx.oblige("the instant at that fraction of the year, to the second", z3.And(num(r.e) <= x, x < num(r.e) + 1))
        ctx.cover("end")

    @v.unit("TimePoints", functions=[T + "_format_datetime", T + "TimePoints.__init__", T + "TimePoints.values"], covers=["i", "f", "M", "datetime"])
    def points(it, ctx):
        C = it.cls(T + "TimePoints")
        kind = ["i", "f", "M", "datetime"][ctx.choose(4)]
        n = ctx.int("n")
        ctx.assume(n >= 1)
        a = npm.fresh_arr(ctx, "times", kind, n)
        i, q = ctx.int("i"), z3.Int("q!t")
        ctx.assume(z3.And(i >= 0, i < n))
        if kind in "if":
            ctx.assume(z3.ForAll([q], z3.And(num(a.at(q)) >= 1, num(a.at(q)) < 9999)))
            ctx.assume(z3.And(num(a.at(i)) >= 1, num(a.at(i)) < 9999))
        r, e = attempt(it, lambda: it.getattr(it.instantiate(C, [a], {}), "values"))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover(kind)
        ctx.oblige("one time per value", num(r.length) == n)
        ctx.oblige("times", z3.BoolVal(r.kind == "M"))
        x = a.at(i)
        if kind in ("M", "datetime"):
            ctx.oblige("times are kept", num(r.at(i).e) == num(x.e))
        elif kind == "i":
            ctx.oblige("a year is its first second", num(r.at(i).e) == YEAR_START(x))
        else:
            k = z3.ToInt(x)
            ctx.assume(YEAR_START(k + 1) > YEAR_START(k))
            t = YEAR_START(k) + (x - k) * (YEAR_START(k + 1) - YEAR_START(k))
            ctx.oblige("fractional years, to the second", z3.And(num(r.at(i).e) <= t, t < num(r.at(i).e) + 1))

    @v.unit("TimePoints of texts", functions=[T + "_format_datetime", T + "_parse_datetime", T + "TimePoints.__init__", T + "TimePoints.values"],
            covers=["numbers", "dates", "refused"])
    def texts(it, ctx):
        C = it.cls(T + "TimePoints")
        n, i, q = ctx.int("n"), ctx.int("i"), z3.Int("q!t")
        ctx.assume(z3.And(n >= 1, i >= 0, i < n))
        a = npm.fresh_arr(ctx, "times", "U", n)
        e = lambda j: core.sstr(a.at(j))
        NUM, VAL, ISD, DATE = builtins.STRNUM, builtins.STRVAL, dtm.IS_DATE, dtm.DATE_IN
        ctx.assume(z3.ForAll([q], z3.Implies(NUM(e(q)), z3.And(VAL(e(q)) >= 1, VAL(e(q)) < 9999))))
        ctx.assume(z3.Implies(NUM(e(i)), z3.And(VAL(e(i)) >= 1, VAL(e(i)) < 9999)))
        r, ex = attempt(it, lambda: it.getattr(it.instantiate(C, [a], {}), "values"))
        inr = lambda j: z3.And(j >= 0, j < n)
        nums = z3.ForAll([q], z3.Implies(inr(q), NUM(e(q))))
        dates = z3.ForAll([q], z3.Implies(inr(q), ISD(e(q))))
        if ex is not None:
            ctx.cover("refused")
            ctx.oblige("ValueError, only if a text is no date and not all are years", z3.And(z3.BoolVal(exc_name(ex) == "ValueError"), z3.Not(nums), z3.Not(dates)))
            return
        ctx.oblige("one time per value", num(r.length) == n)
        ctx.oblige("times", z3.BoolVal(r.kind == "M"))
        t = num(r.at(i).e)
        k = z3.ToInt(VAL(e(i)))
        x = YEAR_START(k) + (VAL(e(i)) - k) * (YEAR_START(k + 1) - YEAR_START(k))
        ctx.assume(YEAR_START(k + 1) > YEAR_START(k))
        isnum = z3.And(t <= x, x < t + 1)
        if ctx.proves(NUM(e(i))):
            ctx.cover("numbers")
            ctx.oblige("fractional years, to the second", isnum)
        else:
            ctx.cover("dates")
            ctx.oblige("the date in the text", z3.Or(z3.And(NUM(e(i)), isnum), t == DATE(e(i))))

    @v.unit("years, months, days, hours and weekdays", functions=[T + "TimePoints." + m for m in ("years", "months", "days", "hours", "weekdays")], covers=["end"])
    def parts(it, ctx):
        n, i = ctx.int("n"), ctx.int("i")
        ctx.assume(z3.And(n >= 1, i >= 0, i < n))
        a = npm.fresh_arr(ctx, "times", "M", n)
        o = it.instantiate(it.cls(T + "TimePoints"), [a], {})
        e = num(a.at(i).e)
        exp = {"years": dtm.YEAR_OF(e), "months": dtm.MONTH_OF(e), "days": dtm.DAY_OF(e), "hours": (e % 86400) / 3600, "weekdays": dtm.weekday(e)}
        for m, x in exp.items():
            r = it.call(it.getattr(o, m), [], {})
            ctx.oblige(m + ": one per time", num(r.length) == n)
            ctx.oblige(m + " of that instant", num(r.at(i)) == x)
        ctx.cover("end")
