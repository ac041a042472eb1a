"""C10: converting averages preserves the mean of every period and total amounts."""
import z3

from pyvc import core, npm, scipym
from pyvc.core import Unsupported, num, real
from pyvc.speclib import attempt, exc_name
from specs import timeconv

TC = timeconv.TC
T = "openscm.core.time:"


def build(v):
    v.trust("scipy.interpolate.interp1d: contract in pyvc/scipym.py (piecewise linear)")
    v.trust("scipy.integrate.quad: gives the integral of a piecewise linear function, provided all its break points inside are passed and the limit allows for them")
    v.trust("the integral is additive, and that of a straight line is the trapezoid")
    v.trust("numpy: contract in pyvc/npm.py")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("period boundaries are strictly increasing, and the source does not start after the second target time (else the constructor refuses)")

    @v.unit("values at edges and middles of periods", functions=[T + "_calc_integral_preserving_linear_interpolation"], covers=["end"])
    def linearize(it, ctx):
        f = it.load("openscm.core.time").lookup("_calc_integral_preserving_linear_interpolation")
        n = ctx.int("n")
        ctx.assume(n >= 3)
        vals = npm.fresh_arr(ctx, "values", "f", n)
        before = npm.NArr("f", n, vals.fnow())
        r, e = attempt(it, lambda: it.call(f, [vals], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        k = ctx.int("k")
        ctx.assume(z3.And(k >= 0, k < n))
        ctx.oblige("two values per period and one more", num(r.length) == 2 * n + 1)
        y = lambda j: real(r.at(z3.simplify(j)))
        ctx.oblige("the mean over every period is the value given", y(2 * k) + 2 * y(2 * k + 1) + y(2 * k + 2) == 4 * real(before.at(k)))
        ctx.oblige("the values given are not changed", real(vals.at(k)) == real(before.at(k)))

    for extra, way in timeconv.WAYS:
        @v.unit("converting averages (%s, extrapolation %s)" % (way, extra), functions=[TC + "." + f for f in (
            "__init__", "convert_from", "convert_to", "_convert", "_convert_unsafe", "_calc_continuous_representation", "_get_scipy_extrapolation_args",
            "_get_scipy_interpolation_arg", "source_length", "target_length")] + [T + "_calc_interval_averages", T + "_calc_integral_preserving_linear_interpolation"],
            covers=["refused", extra], max_paths=2000)
        def convert(it, ctx, extra=extra, way=way):
            c = timeconv.Conv(it, ctx, "AVERAGE_TIMESERIES", extra, way)
            ctx.ghost["interp1d"] = []
            r, e = c.convert(it)
            if not c.refusals(it, ctx, e):
                return
            c.intact(it, ctx, r)
            fs = ctx.ghost.get("interp1d", [])
            if len(fs) != 1:
                raise Unsupported("%d interpolations" % len(fs))
            f = fs[0]
            k = ctx.int("k")
            ctx.assume(z3.And(k >= 0, k < c.n))
            x, y = lambda j: real(f.x.at(z3.simplify(j))), lambda j: real(f.y.at(z3.simplify(j)))
            t = lambda j: c.t(c.frm, j)
            # the representation of the source periods
            ctx.oblige("break points at the edges of the periods", z3.And(x(2 * k) == t(k), x(2 * k + 2) == t(k + 1), num(f.x.length) == 2 * c.n + 1))
            ctx.oblige("break points in the middle of the periods", 2 * x(2 * k + 1) == t(k) + t(k + 1))
            ctx.assume(z3.And(x(2 * k) == t(k), x(2 * k + 2) == t(k + 1), 2 * x(2 * k + 1) == t(k) + t(k + 1)))  # as proved
            ctx.oblige("edge, middle and edge values average to the value of the period", y(2 * k) + 2 * y(2 * k + 1) + y(2 * k + 2) == 4 * real(c.given.at(k)))
            ctx.assume(y(2 * k) + 2 * y(2 * k + 1) + y(2 * k + 2) == 4 * real(c.given.at(k)))
            ctx.assume(f.additive(x(2 * k), x(2 * k + 1), x(2 * k + 2)))
            ctx.assume(f.trapezoid(2 * k))
            ctx.assume(f.trapezoid(z3.simplify(2 * k + 1)))
            # what the integral over period k comes down to, with plain numbers
            a, b, I1, I2, e0, m0, e1, val = z3.Reals("a b I1 I2 e0 m0 e1 val")
            lemma = z3.Implies(z3.And(e0 + 2 * m0 + e1 == 4 * val, 2 * I1 == ((a + b) / 2 - a) * (e0 + m0), 2 * I2 == (b - (a + b) / 2) * (m0 + e1)),
                               I1 + I2 == val * (b - a))
            ctx.oblige("lemma: two trapezoids of half a period", z3.ForAll([a, b, I1, I2, e0, m0, e1, val], lemma))
            ctx.assume(z3.substitute(lemma, (a, t(k)), (b, t(k + 1)), (I1, f.INT(x(2 * k), x(2 * k + 1))), (I2, f.INT(x(2 * k + 1), x(2 * k + 2))),
                                     (e0, y(2 * k)), (m0, y(2 * k + 1)), (e1, y(2 * k + 2)), (val, real(c.given.at(k)))))
            mid = (t(k) + t(k + 1)) / 2
            ctx.oblige("halves", z3.And(2 * f.INT(x(2 * k), x(2 * k + 1)) == (mid - t(k)) * (y(2 * k) + y(2 * k + 1)),
                                        2 * f.INT(x(2 * k + 1), x(2 * k + 2)) == (t(k + 1) - mid) * (y(2 * k + 1) + y(2 * k + 2))))
            ctx.oblige("the mean of the representation over every source period is the value given", f.INT(t(k), t(k + 1)) == real(c.given.at(k)) * (t(k + 1) - t(k)))
            # converted values
            i = ctx.int("i")
            m = z3.simplify(num(c.to.length) - 1)
            ctx.assume(z3.And(i >= 0, i < m))
            s = lambda j: c.t(c.to, j)
            ctx.oblige("every converted value is the mean of the representation over its target period",
                       real(r.at(i)) == f.INT(s(i), s(i + 1)) / (s(i + 1) - s(i)))
            ratio = z3.Implies(z3.And(b > a, I1 == val * (b - a)), I1 / (b - a) == val)
            ctx.oblige("lemma: mean of a total", z3.ForAll([a, b, I1, val], ratio))
            ctx.assume(z3.substitute(ratio, (a, s(i)), (b, s(i + 1)), (I1, f.INT(s(i), s(i + 1))), (val, real(c.given.at(k)))))
            ctx.assume(f.INT(t(k), t(k + 1)) == real(c.given.at(k)) * (t(k + 1) - t(k)))
            ctx.assume(real(r.at(i)) == f.INT(s(i), s(i + 1)) / (s(i + 1) - s(i)))
            ctx.oblige("a target period that is a source period keeps its value", z3.Implies(z3.And(s(i) == t(k), s(i + 1) == t(k + 1)), real(r.at(i)) == real(c.given.at(k))))

    @v.unit("total amounts", covers=["end"])
    def totals(it, ctx):
        """Consequence of the means: sums over whole periods agree (induction over the periods)."""
        ctx.cover("end")
        INT = z3.Function("INT", core.R, core.R, core.R)
        S, s = z3.Function("SUM", core.I, core.R), z3.Function("times", core.I, core.R)
        val = z3.Function("value", core.I, core.R)
        a, j = ctx.int("a"), ctx.int("j")
        # sum of value * length from period a on, and each value the mean over its period
        ctx.assume(S(a) == 0)
        ctx.assume(S(j + 1) == S(j) + val(j) * (s(j + 1) - s(j)))
        ctx.assume(val(j) * (s(j + 1) - s(j)) == INT(s(j), s(j + 1)))
        ctx.assume(INT(s(a), s(j + 1)) == INT(s(a), s(j)) + INT(s(j), s(j + 1)))
        ctx.assume(INT(s(a), s(a)) == 0)
        ctx.oblige("start", S(a) == INT(s(a), s(a)))
        ctx.oblige("step: the total over periods a to j is the integral over that time", z3.Implies(S(j) == INT(s(a), s(j)), S(j + 1) == INT(s(a), s(j + 1))))
