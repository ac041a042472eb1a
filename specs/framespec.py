"""Arbitrary data frames, as the methods of ScmDataFrameBase find them."""
import z3

from pyvc import builtins, core, dtm, framem
from pyvc.core import Obj, num
from pyvc.framem import Axis, DataM, IndexM, MetaM
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import FnContract

BASE = "openscm.scmdataframe.base:ScmDataFrameBase"
TP = "openscm.core.time:TimePoints"
REQUIRED = ["model", "scenario", "region", "variable", "unit", "climate_model"]


FYEAR = z3.Function("time_of_fractional_year", z3.RealSort(), core.I)


class Table:
    """The arbitrary frame: base axes and cell functions."""


def time_points(it):
    """Contract of TimePoints (C11, C12): the times it was given; their parts."""

    def init(it, self, values):
        from pyvc import npm

        a = values.as_narr() if isinstance(values, IndexM) else npm.as_array(it, values)
        f = a.fnow()
        if a.kind in ("i", "f"):  # years, fractional years (C11)
            Y = npm.YEAR_START if a.kind == "i" else FYEAR
            self.f["_values"] = r = NArr("M", a.length, lambda i: Dt(Y(num(f(num(i))))))
            r.axis = None
            return None
        if a.kind == "U":  # texts: all numbers, or all dates (C11)
            i = it.ctx.int("i!text")
            e = core.sstr(f(i))
            inr = z3.And(i >= 0, i < num(a.length))
            if it.ctx.proves(z3.Implies(inr, builtins.STRNUM(e)), 2000):
                g = lambda x: Dt(FYEAR(builtins.STRVAL(core.sstr(f(num(x))))))
            elif it.ctx.proves(z3.Implies(inr, z3.And(dtm.IS_DATE(e), z3.Not(builtins.STRNUM(e)))), 2000):
                g = lambda x: Dt(dtm.DATE_IN(core.sstr(f(num(x)))))
            else:
                raise core.Unsupported("times in texts of more than one kind")
            self.f["_values"] = r = NArr("M", a.length, g)
            r.axis = None
            return None
        if a.kind != "M":
            raise core.Unsupported("times of another kind")
        r = NArr("M", a.length, f)
        r.axis = getattr(a, "axis", None) or (values.axis if isinstance(values, IndexM) else None)
        self.f["_values"] = r
        return None

    def vals(it, self):
        v = self.f["_values"]
        r = NArr("M", v.length, v.fnow())
        r.axis = v.axis
        return r

    it.contracts[TP + ".__init__"] = FnContract(init)
    it.contracts[TP + ".values"] = FnContract(vals)

    def to_index(it, self):
        v = self.f["_values"]
        if v.axis is not None:
            return IndexM(v.axis, True)
        f = v.fnow()
        return IndexM(Axis(v.length, lambda i: f(num(i))), True)

    it.contracts[TP + ".to_index"] = FnContract(to_index)
    for name in ("years", "months", "days", "hours", "weekdays"):
        PART = part(name)
        it.contracts[TP + "." + name] = FnContract(lambda it, self, PART=PART: NArr("i", self.f["_values"].length, lambda i: PART(num(self.f["_values"].at(i).e))))


def part(name):
    return z3.Function(name + "_of_time", core.I, core.I)


def frame(it, ctx, names=REQUIRED, nm="df", missing=True, kinds=None):
    """An arbitrary frame: any numbers of times and timeseries, any values, missing ones included."""
    b = Table()
    b.nt, b.nc = ctx.int("times"), ctx.int("timeseries")
    ctx.assume(z3.And(b.nt >= 0, b.nc >= 0))
    b.T = z3.Function(nm + "_time", core.I, core.I)
    b.L = z3.Function(nm + "_label", core.I, core.I)
    b.V = z3.Function(nm + "_value", core.I, core.I, z3.RealSort())
    b.N = z3.Function(nm + "_missing", core.I, core.I, z3.BoolSort())
    b.rows = Axis(b.nt, lambda i: Dt(b.T(num(i))))
    b.cols = Axis(b.nc, lambda i: b.L(num(i)))
    b.meta = {}
    for k in names:
        K = z3.Function("%s_%s_kind" % (nm, k), core.I, core.I)
        X = z3.Function("%s_%s" % (nm, k), core.I, core.Str)
        V = z3.Function("%s_%s_number" % (nm, k), core.I, z3.RealSort())
        i = z3.Int("i!" + k)
        lo, hi = (kinds or {}).get(k, (0, 2) if k not in REQUIRED else (0, 1))
        ctx.assume(z3.ForAll([i], z3.And(K(i) >= lo, K(i) <= hi), patterns=[K(i)]))
        b.meta[k] = lambda i, K=K, X=X, V=V: Cell(K(num(i)), X(num(i)), V(num(i)))
    nan = (lambda t, c: b.N(num(t), num(c))) if missing else (lambda t, c: z3.BoolVal(False))
    b.nan = nan
    cls = it.cls(BASE)
    o = Obj(cls)
    o.f["_data"] = DataM(b.rows, b.cols, lambda t, c: b.V(num(t), num(c)), nan)
    o.f["_meta"] = MetaM(b.cols, b.meta)
    tp = Obj(it.cls(TP))
    tp.f["_values"] = NArr("M", b.nt, lambda i: Dt(b.T(num(i))))
    tp.f["_values"].axis = b.rows
    o.f["_time_points"] = tp
    time_points(it)
    b.obj = o
    return o, b


def cell_of(ctx, b):
    """An arbitrary cell of the frame."""
    t, c = ctx.int("t"), ctx.int("c")
    ctx.assume(z3.And(t >= 0, t < b.nt, c >= 0, c < b.nc))
    return t, c


def unchanged(ctx, b, t, c, label="the original"):
    """Obligations: the frame is as it was."""
    o = b.obj
    d, m = o.f["_data"], o.f["_meta"]
    if not isinstance(d, DataM) or not isinstance(m, MetaM):
        raise core.Unsupported("another representation of the frame")
    same = d.cols is b.cols and getattr(d.rows, "same", d.rows) is getattr(b.rows, "same", b.rows) and m.idx is b.cols and d.colindex is None and not m.multi
    ctx.oblige(label + " keeps its timeseries and times", z3.BoolVal(same))
    if not same:
        return
    ctx.oblige(label + " keeps its values", z3.And(d.val(t, c) == b.V(t, c), d.nan(t, c) == b.nan(t, c)))
    ctx.oblige(label + " keeps its times", times_ok(o, b, t))
    meta_as(ctx, label + " keeps its metadata", m, c, b, c)


def times_ok(o, b, t):
    d, tp = o.f["_data"], o.f["_time_points"]
    v = tp.f["_values"]
    return z3.And(num(d.rows.label(t).e) == b.T(t), num(v.length) == num(d.rows.n), num(v.at(t).e) == b.T(t))


def meta_as(ctx, label, m, i, b, c, skip=()):
    """Row i of m is row c of the original, in all columns."""
    if set(m.data) - set(skip) != set(b.meta) - set(skip):
        ctx.oblige(label, z3.BoolVal(False))
        return
    ctx.oblige(label, z3.And(z3.BoolVal(True), *[framem.same_cell(m.data[k](i), b.meta[k](c)) for k in b.meta if k not in skip]))
