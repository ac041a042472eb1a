"""C18: interpolating a data frame is the timeseries conversion of each timeseries by its own type."""
import z3

from pyvc import core, framem, npm, rem
from pyvc.core import Obj, PyExc, PyList, SStr, Unsupported, ite, lit, num, real, sbool, sstr
from pyvc.framem import DataM, FloatCol, MetaM
from pyvc.builtins import LOWER
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import FnContract, attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE, REQUIRED, frame

TC = "openscm.core.time:TimeseriesConverter"
GUESS = "openscm.scmdataframe.parameter_type:guess_parameter_type"
R = z3.RealSort()
B = z3.BoolSort()
CONVERTED = z3.Function("converted_to", B, core.I, core.I, R)  # average?, timeseries, target time
REFUSED = z3.Function("not_enough_data", B, B)
AVERAGE = z3.Function("guessed_average", core.Str, core.Str, B)


def setup(it):
    framem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()
    for x in ("average", "point"):
        it.ctx.assume(LOWER(lit(x)) == lit(x))


class World:
    pass


def world(it, ctx, o, b, nx, X, extra, w):
    """Contracts of the time series converter (C09, C10) and of the guess of the type."""
    PT = it.cls("openscm.core.parameters:ParameterType").members
    linear = it.cls("openscm.core.time:InterpolationType").members["LINEAR"]
    extrap = it.cls("openscm.core.time:ExtrapolationType").members[extra]
    w.n = 0

    def extended(label, a, n, at):
        """a is the grid with one more point, by the last step."""
        ctx.oblige(label + ": number of points", num(a.length) == n + 1)
        i = it.ctx.int("i!grid")
        f = a.fnow()
        ctx.oblige(label + ": the points", z3.Implies(z3.And(i >= 0, i < n), num(f(i).e) == at(i)))
        ctx.oblige(label + ": a last period as long as the one before", num(f(n).e) == 2 * at(n - 1) - at(n - 2))

    def plain(label, a, n, at):
        ctx.oblige(label + ": number of points", num(a.length) == n)
        i = it.ctx.int("i!grid")
        ctx.oblige(label + ": the points", z3.Implies(z3.And(i >= 0, i < n), num(a.at(i).e) == at(i)))

    def init(it, self, source_time_points, target_time_points, timeseries_type, interpolation_type, extrapolation_type):
        s, t = npm.as_array(it, source_time_points), npm.as_array(it, target_time_points)
        if s.kind != "M" or t.kind != "M":
            raise Unsupported("kind of times")
        if timeseries_type not in (PT["AVERAGE_TIMESERIES"], PT["POINT_TIMESERIES"]):
            raise Unsupported("type of timeseries %r" % (timeseries_type,))
        avg = timeseries_type is PT["AVERAGE_TIMESERIES"]
        check = extended if avg else plain
        check("times converted from", s, num(b.nt), b.T)
        check("times converted to", t, num(nx), X)
        ctx.oblige("the interpolation asked for", z3.BoolVal(interpolation_type is linear))
        ctx.oblige("the extrapolation asked for", z3.BoolVal(extrapolation_type is extrap))
        if it.truth(REFUSED(z3.BoolVal(avg))):
            w.n += 1
            it.throw("ValueError", "not enough data")
        self.f["average"] = avg

    def convert(it, self, values):
        avg = self.f["average"]
        src = getattr(values, "source", None)
        if not isinstance(values, NArr) or src is None:
            raise Unsupported("values of another origin")
        d, j = src
        c = d.cols.pos(j, b.cols)
        i = it.ctx.int("i!val")
        ctx.oblige("values converted: one for each time", num(values.length) == num(b.nt))
        ctx.oblige("values converted: those of the timeseries", z3.Implies(z3.And(i >= 0, i < b.nt), real(values.at(i)) == b.V(i, c)))
        r = FloatCol("f", nx, lambda k: CONVERTED(z3.BoolVal(avg), c, num(k)))
        r.axis, r.source = None, None
        return NArr("f", nx, lambda k: CONVERTED(z3.BoolVal(avg), c, num(k)))

    def guess(it, variable_name, unit):
        txt = lambda v: v.text if isinstance(v, Cell) else sstr(v)
        avg = AVERAGE(txt(variable_name), txt(unit))
        return PT["AVERAGE_TIMESERIES"] if it.truth(avg) else PT["POINT_TIMESERIES"]

    it.contracts[TC + ".__init__"] = FnContract(init)
    it.contracts[TC + ".convert_from"] = FnContract(convert)
    it.contracts[GUESS] = FnContract(guess)


def build(v):
    v.trust("pandas.DataFrame: construction, selection by labels, assignment to selected columns and rows, groupby over one column, apply by column, iterrows, assign, copy.deepcopy: contract in pyvc/framem.py")
    v.trust("loop over groups: pyvc/framem.py GroupBy.loop (an arbitrary group; each group touches its own timeseries only, as the obligations of the body require)")
    v.assume("TimeseriesConverter: contract proved in C09 and C10 (conversion of values from source to target times); TimePoints: C11")
    v.assume("at least two times and two target times; no missing values; variable and unit are texts, the parameter type (where given) \"average\" or \"point\"")

    for had in (False, True):
        for extra in ("CONSTANT", "LINEAR", "NONE"):
            @v.unit("interpolate(%s)%s" % (extra.lower(), ", types given" if had else ""), functions=[BASE + ".interpolate"], contracts=[TC + ".__init__", TC + ".convert_from", GUESS, fs.TP + ".__init__"], covers=["end"])
            def interpolate(it, ctx, had=had, extra=extra):
                setup(it)
                names = REQUIRED + ["extra"] + (["parameter_type"] if had else [])
                o, b = frame(it, ctx, names, missing=False, kinds={"variable": (0, 0), "unit": (0, 0), "parameter_type": (0, 1)})
                ctx.assume(b.nt >= 2)
                nx = ctx.int("targets")
                ctx.assume(nx >= 2)
                X = z3.Function("target", core.I, core.I)
                if had:
                    q = z3.Int("q!type")
                    P = b.meta["parameter_type"]
                    ctx.assume(z3.ForAll([q], z3.Or(num(P(q).kind) == 1, P(q).text == lit("average"), P(q).text == lit("point")), patterns=[P(q).text]))
                w = World()
                world(it, ctx, o, b, nx, X, extra, w)
                grid = NArr("M", nx, lambda i: Dt(X(num(i))))
                ext = it.cls("openscm.core.time:ExtrapolationType").members[extra]
                args = [grid]
                form = ctx.choose(3)
                kw = {}
                if form == 0:
                    kw = {"extrapolation_type": ext}
                elif form == 1:
                    kw = {"extrapolation_type": extra.lower(), "interpolation_type": "linear"}
                elif extra != "CONSTANT":
                    return
                r, e = attempt(it, lambda: it.call(it.getattr(o, "interpolate"), args, kw))
                t, c = fs.cell_of(ctx, b)
                if e is not None:
                    ctx.oblige("no exception but the converter's", z3.BoolVal(w.n > 0 and exc_name(e) == "ValueError"))
                    return
                ctx.cover("end")
                ctx.oblige("another frame", z3.BoolVal(isinstance(r, Obj) and r is not o and r.cls is o.cls))
                if not isinstance(r, Obj):
                    return
                d, m = r.f["_data"], r.f["_meta"]
                if not isinstance(d, DataM) or not isinstance(m, MetaM) or d.cols is not b.cols or m.idx is not b.cols:
                    raise Unsupported("another representation of the frame")
                i = ctx.int("target_time")
                ctx.assume(z3.And(i >= 0, i < nx))
                u, vn = b.meta["unit"](c).text, b.meta["variable"](c).text
                avg = AVERAGE(vn, u)
                if had:
                    p = b.meta["parameter_type"](c)
                    avg = z3.If(num(p.kind) == 1, avg, p.text == lit("average"))
                ctx.oblige("as many times as targets", num(d.rows.n) == nx)
                ctx.oblige("each timeseries converted by its own type", d.val(i, c) == CONVERTED(avg, c, i))
                ctx.oblige("no value is missing", z3.Not(d.nan(i, c)))
                tv = r.f["_time_points"].f["_values"]
                ctx.oblige("the target times are the new times", z3.And(num(d.rows.label(i).e) == X(i), num(tv.length) == nx, num(tv.at(i).e) == X(i)))
                if set(m.data) != set(b.meta) | {"parameter_type"}:
                    ctx.fail("metadata columns are kept and the type recorded", "columns %s" % sorted(m.data))
                    return
                for key in b.meta:
                    if key != "parameter_type":
                        ctx.oblige("other metadata are unchanged (%s)" % key, framem.same_cell(m.data[key](c), b.meta[key](c)))
                x = m.data["parameter_type"](c)
                ctx.oblige("the type is recorded", z3.And(num(x.kind) == 0, x.text == z3.If(avg, lit("average"), lit("point"))))
                fs.unchanged(ctx, b, t, c)
