"""C17: converting units changes exactly the selected timeseries, by the unit converter."""
import z3

from pyvc import core, framem, rem
from pyvc.core import Obj, PyDict, PyExc, PyList, SStr, Unsupported, lit, num, real, sbool, sstr
from pyvc.framem import Axis, DataM, MetaM, select
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import FnContract, attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE, REQUIRED, frame

U = "openscm.core.units:UnitConverter"
R = z3.RealSort()
CONV = z3.Function("converted", core.Str, core.Str, core.I, core.Str, R, R)  # from, to, context given?, context
POSSIBLE = z3.Function("convertible", core.Str, core.Str, core.I, core.Str, z3.BoolSort())


def ctxkey(c):
    return (z3.IntVal(0), lit("")) if c is None else (z3.IntVal(1), sstr(c))


def setup(it):
    framem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()

    def init(it, self, source, target, context=None):
        k, x = ctxkey(context)
        if hasattr(source, "plain"):
            source = SStr(source.e)
        s, t = sstr(source), sstr(target)
        if not it.truth(POSSIBLE(s, t, k, x)):
            it.throw("ValueError", "not convertible")
        self.f["conversion"] = (SStr(s), SStr(t), k, SStr(x))

    def convert(it, self, v):
        s, t, k, x = self.f["conversion"]
        s, t, x = s.e, t.e, x.e
        if isinstance(v, NArr):
            f = v.fnow()
            if isinstance(v, framem.FloatCol):
                r = framem.FloatCol("f", v.length, lambda i: CONV(s, t, k, x, real(f(i))))
                r.axis, r.source = v.axis, v.source
                return r
            return NArr("f", v.length, lambda i: CONV(s, t, k, x, real(f(i))))
        if isinstance(v, DataM):
            val, nan = v.content()
            return DataM(v.rows, v.cols, lambda a, c: CONV(s, t, k, x, val(a, c)), nan)
        return CONV(s, t, k, x, real(v))

    it.contracts[U + ".__init__"] = FnContract(init)
    it.contracts[U + ".convert_from"] = FnContract(convert)
    it.contracts[U + ".source"] = FnContract(lambda it, self: self.f["conversion"][0])
    it.contracts[U + ".target"] = FnContract(lambda it, self: self.f["conversion"][1])


def filtered(it, ctx, b, asked, hide=False):
    """Contract of filter (C14): some of the timeseries and times of the frame, as they are there."""
    S = z3.Function("selected", core.I, z3.BoolSort())
    ST = z3.Function("time_selected", core.I, z3.BoolSort())
    HIDE = z3.Function("hidden", core.I, core.I, z3.BoolSort())

    def fn(it, self, keep=True, inplace=False, has_nan=True, **kw):
        for k in list(kw):
            if isinstance(kw[k], PyDict):
                kw.update(kw.pop(k).items)
        asked.append((dict(kw), keep, has_nan))
        if inplace is not False:
            raise Unsupported("filter in place")
        d, m = self.f["_data"], self.f["_meta"]
        if not isinstance(d, DataM) or not isinstance(m, MetaM) or d.cols is not b.cols or m.idx is not b.cols:
            raise Unsupported("another representation of the frame")
        t, c = fs.cell_of(ctx, b)
        ctx.oblige("selected before anything is converted", z3.And(d.val(t, c) == b.V(t, c), *[framem.same_cell(m.data[k](c), b.meta[k](c)) for k in b.meta if k in m.data]))
        rows = select(ctx, d.rows, lambda t: ST(num(t)))
        cols = select(ctx, d.cols, lambda c: S(num(c)))
        r = Obj(self.cls)
        x = d.sub(rows, cols)
        na = x.nan
        r.f["_data"] = DataM(rows, cols, x.val, lambda t, c: z3.Or(na(t, c), HIDE(rows.pos(t, d.rows), cols.pos(c, d.cols))))
        r.f["_meta"] = m.at_axis(cols)
        tp = Obj(it.cls(fs.TP))
        tp.f["_values"] = NArr("M", rows.n, lambda i: Dt(b.T(rows.pos(num(i), d.rows))))
        tp.f["_values"].axis = rows
        r.f["_time_points"] = tp
        return r

    it.contracts[BASE + ".filter"] = FnContract(fn)
    if hide:
        return lambda t, c: z3.And(ST(t), S(c), z3.Not(HIDE(t, c)))
    return S


def build(v):
    v.trust("pandas.DataFrame: selection by labels, assignment to selected columns and rows, groupby over one column, apply by column, assign, copy.deepcopy: contract in pyvc/framem.py (groupby: each value once with the rows equal to it)")
    v.trust("loop over groups: pyvc/framem.py GroupBy.loop (an arbitrary group; each group touches its own timeseries only, as the obligations of the body require)")
    v.assume("filter: contract proved in C14; UnitConverter: contract proved in C05 (refusal) and C06 (map)")
    v.assume("timeseries have a unit (not missing)")

    for inplace in (False, True):
        for had in (False, True):
            for context in (False, True):
                @v.unit("convert_unit(inplace=%s)%s%s" % (inplace, ", context given" if context else "", ", converted before" if had else ""), functions=[BASE + ".convert_unit"], contracts=[BASE + ".filter", U + ".__init__", U + ".convert_from"], covers=["end", "refused"])
                def convert(it, ctx, inplace=inplace, had=had, context=context):
                    setup(it)
                    o, b = frame(it, ctx, REQUIRED + ["extra"] + (["unit_context"] if had else []), kinds={"unit": (0, 0), "unit_context": (0, 1)})
                    asked = []
                    S = filtered(it, ctx, b, asked)
                    to = SStr(ctx.fresh("new_unit", core.Str))
                    ct = SStr(ctx.fresh("context", core.Str)) if context else None
                    kw = {"inplace": inplace, "variable": "pattern", "year": 2000}
                    if context or ctx.choose(2):
                        kw["context"] = ct
                    r, e = attempt(it, lambda: it.call(it.getattr(o, "convert_unit"), [to], kw))
                    t, c = fs.cell_of(ctx, b)
                    unit = lambda c: b.meta["unit"](c).text
                    k, x = ctxkey(ct)
                    if e is not None:
                        ctx.cover("refused")
                        q = z3.Int("q!bad")
                        ctx.oblige("refused only if a selected unit cannot be converted", z3.Exists([q], z3.And(q >= 0, q < b.nc, S(q), z3.Not(POSSIBLE(unit(q), to.e, k, x)))))
                        if not inplace:
                            fs.unchanged(ctx, b, t, c)
                        return
                    ctx.cover("end")
                    ctx.oblige("by the filters given", z3.BoolVal(len(asked) == 1 and asked[0] == ({"variable": "pattern", "year": 2000}, True, True)))
                    if inplace:
                        ctx.oblige("nothing returned", z3.BoolVal(r is None))
                        res = o
                    else:
                        ctx.oblige("another frame", z3.BoolVal(isinstance(r, Obj) and r is not o and r.cls is o.cls))
                        res = r
                        if not isinstance(r, Obj):
                            return
                    d, m = res.f["_data"], res.f["_meta"]
                    if not isinstance(d, DataM) or not isinstance(m, MetaM) or d.cols is not b.cols or m.idx is not b.cols or framem.same_rows(d.rows, b.rows) is False:
                        raise Unsupported("another representation of the frame")
                    ctx.oblige("a unit that cannot be converted is refused", z3.Implies(S(c), POSSIBLE(unit(c), to.e, k, x)))
                    ctx.oblige("selected timeseries are converted from their own unit", z3.Implies(S(c), d.val(t, c) == CONV(unit(c), to.e, k, x, b.V(t, c))))
                    ctx.oblige("other timeseries keep their values", z3.Implies(z3.Not(S(c)), d.val(t, c) == b.V(t, c)))
                    ctx.oblige("missing values stay missing", d.nan(t, c) == b.nan(t, c))
                    ctx.oblige("times are unchanged", fs.times_ok(res, b, t))
                    want = {k: b.meta[k] for k in b.meta}
                    if set(m.data) != set(b.meta) | {"unit_context"}:
                        ctx.fail("metadata columns are kept and unit_context is recorded", "columns %s" % sorted(m.data))
                        return
                    same = framem.same_cell
                    for key in b.meta:
                        if key not in ("unit", "unit_context"):
                            ctx.oblige("other metadata are unchanged (%s)" % key, same(m.data[key](c), b.meta[key](c)))
                    ctx.oblige("the new unit is recorded", z3.Implies(S(c), same(m.data["unit"](c), framem.cell(to))))
                    ctx.oblige("the context is recorded", z3.Implies(S(c), same(m.data["unit_context"](c), framem.cell(ct))))
                    ctx.oblige("units of others are unchanged", z3.Implies(z3.Not(S(c)), same(m.data["unit"](c), b.meta["unit"](c))))
                    old = b.meta["unit_context"](c) if had else framem.cell(None)
                    ctx.oblige("contexts of others are unchanged", z3.Implies(z3.Not(S(c)), same(m.data["unit_context"](c), old)))
                    if not inplace:
                        fs.unchanged(ctx, b, t, c)
