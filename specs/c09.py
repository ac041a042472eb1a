"""C09: point timeseries are interpolated and extrapolated exactly as requested."""
import z3

from pyvc import core, npm, scipym
from pyvc.core import num, real
from pyvc.scipym import LINE
from specs import timeconv

TC = timeconv.TC


def build(v):
    v.trust("scipy.interpolate.interp1d: contract in pyvc/scipym.py (straight line between neighbouring points; bounds_error, fill_value)")
    v.trust("numpy: contract in pyvc/npm.py")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("source times are strictly increasing, and the source does not start after the second target time (else the constructor refuses)")

    for extra, way in timeconv.WAYS:
        @v.unit("converting point timeseries (%s, extrapolation %s)" % (way, extra), functions=[TC + "." + f for f in (
            "__init__", "convert_from", "convert_to", "_convert", "_convert_unsafe", "_calc_continuous_representation", "_get_scipy_extrapolation_args",
            "_get_scipy_interpolation_arg", "source_length", "target_length")], covers=["refused", extra, "inside"], max_paths=2000)
        def convert(it, ctx, extra=extra, way=way):
            c = timeconv.Conv(it, ctx, "POINT_TIMESERIES", extra, way)
            r, e = c.convert(it)
            if not c.refusals(it, ctx, e):
                return
            c.intact(it, ctx, r)
            for f in scipym.line_axioms():
                ctx.assume(f, heavy=True)
            i, k = ctx.int("i"), ctx.int("k")
            ctx.assume(z3.And(i >= 0, i < num(c.to.length)))
            x = c.t(c.to, i)
            X, Y = lambda j: c.t(c.frm, j), lambda j: real(c.given.at(j))
            last, prev = z3.simplify(c.n - 1), z3.simplify(c.n - 2)
            y = real(r.at(i))
            line = lambda a, b: LINE(X(a), Y(a), X(b), Y(b), x)
            for a, b in ((k, k + 1), (z3.IntVal(0), z3.IntVal(1)), (prev, last)):
                ctx.assume(scipym.line_definition(X(a), Y(a), X(b), Y(b), x))
            between = z3.And(k >= 0, k < last, X(k) <= x, x <= X(k + 1))
            ctx.cover("inside")
            ctx.oblige("inside the range: on the straight line between the neighbouring source points", z3.Implies(between, y == line(k, k + 1)))
            ctx.oblige("at source times: the source values", z3.Implies(z3.And(k >= 0, k <= last, x == X(k)), y == Y(k)))
            if c.extra == "LINEAR":
                ctx.oblige("linear extrapolation continues the first segment", z3.Implies(x < X(0), y == line(z3.IntVal(0), z3.IntVal(1))))
                ctx.oblige("linear extrapolation continues the last segment", z3.Implies(x > X(last), y == line(prev, last)))
            if c.extra == "CONSTANT":
                ctx.oblige("constant extrapolation repeats the first value", z3.Implies(x < X(0), y == Y(0)))
                ctx.oblige("constant extrapolation repeats the last value", z3.Implies(x > X(last), y == Y(last)))


    requested(v)


def requested(v):
    """A parameter set hands the types asked for (as members, as texts or left out) to the view."""
    from pyvc.core import SStr
    from pyvc.speclib import attempt
    from specs import c01, hier

    TIME = "openscm.core.time:"

    @v.unit("types asked for, through a parameter set", functions=[c01.S + ".timeseries", TIME + "InterpolationType.from_interpolation_type",
            TIME + "ExtrapolationType.from_extrapolation_type", "openscm.core.parameters:ParameterType.from_timeseries_type"],
            covers=["member", "text", "default"], max_paths=2000)
    def types(it, ctx):
        o, h0 = hier.new_set(it, ctx)
        hier.use(it, *hier.ALL)
        c01.stub_views(it)
        how = ["member", "text", "default"][ctx.choose(3)]
        e = ["LINEAR", "CONSTANT", "NONE"][ctx.choose(3)] if how != "default" else "NONE"
        y = ["point", "average"][ctx.choose(2)]
        t = npm.fresh_arr(ctx, "time_points", "M", ctx.int("n_times"))
        ctx.assume(num(t.length) >= 2)
        E, I, P = it.cls(TIME + "ExtrapolationType"), it.cls(TIME + "InterpolationType"), it.cls("openscm.core.parameters:ParameterType")
        kw = {"timeseries_type": P.members[{"point": "POINT_TIMESERIES", "average": "AVERAGE_TIMESERIES"}[y]]}
        if how == "member":
            kw.update(interpolation=I.members["LINEAR"], extrapolation=E.members[e])
        elif how == "text":
            lower = ctx.choose(2) == 0
            kw.update(timeseries_type=y, interpolation="linear" if lower else "Linear", extrapolation=e.lower() if lower else e)
        w, err = attempt(it, lambda: it.call(it.getattr(o, "timeseries"), [hier.any_name(ctx, "parts"), SStr(ctx.fresh("unit", core.Str)), t], kw))
        if err is not None:
            return  # refused (C01, C02)
        ctx.cover(how)
        if not isinstance(w, c01.ViewStub):
            ctx.fail("gives a view", repr(w))
            return
        nm = lambda x: getattr(x, "name", x)
        ctx.oblige("the type of timeseries asked for", z3.BoolVal(nm(w.args[3]) == y.upper() + "_TIMESERIES"))
        ctx.oblige("the interpolation asked for", z3.BoolVal(w.args[4] is I.members["LINEAR"]))
        ctx.oblige("the extrapolation asked for", z3.BoolVal(w.args[5] is E.members[e]))
