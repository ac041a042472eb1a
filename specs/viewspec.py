"""
Contracts of views on the heap of parameters (C02, C04, C05): what a view of a leaf reads,
the list of leaves below a parameter, and conversions between time points.
"""
import ast

import z3

from pyvc import core, npm, pintm
from pyvc.core import Ext, Obj, SEnum, SRef, SStr, SymList, Unsupported, num, real, sbool, sstr
from pyvc.pintm import A, Bo, DEF, NOCTX, OK
from pyvc.speclib import FnContract, arbitrary, attempt, exc_name
from specs.hier import Heap, P

V = "openscm.core.views:"
TC = "openscm.core.time:TimeseriesConverter"
F, I = z3.Function, core.I


class TConv(Ext):
    """
    Contract of a TimeseriesConverter (C09, C10): attributes as given; converting to or from
    gives a new array of the right length or refuses short series; the argument is not changed.
    """

    name = "TimeseriesConverter"

    def __init__(self, source, target, ttype, interp, extrap, short=True):
        self.source, self.target, self.ttype = source, target, ttype
        self.interp, self.extrap = interp, extrap
        self.short = short  # may refuse short series

    def length(self, it, pts):
        avg = it.truth(it.eq(self.ttype, it.cls("openscm.core.parameters:ParameterType").members["AVERAGE_TIMESERIES"]))
        if not isinstance(pts, npm.NArr):
            return it.ctx.ghost.setdefault(("length", str(core.sbool(True)), id(self)), it.ctx.int("n_source"))
        return z3.simplify(num(pts.length) - (1 if avg else 0))

    def getattr(self, it, name):
        if name in ("_target", "target"):
            return self.target
        if name in ("_source", "source"):
            return self.source
        if name in ("_timeseries_type", "timeseries_type"):
            return self.ttype
        if name == "_interpolation_type":
            return self.interp
        if name == "_extrapolation_type":
            return self.extrap
        if name == "target_length":
            return self.length(it, self.target)
        if name == "source_length":
            return self.length(it, self.source)
        if name in ("convert_to", "convert_from"):
            return core.Builtin(name, lambda it, values: self.convert(it, name, values))
        raise Unsupported("timeseries converter." + name)

    def convert(self, it, name, values):
        ctx = it.ctx
        if self.short and ctx.choose(2) == 1:
            ctx.ghost["short"] = ctx.ghost.get("short", 0) + 1
            it.throw(it.cls("openscm.errors:InsufficientDataError"))
        n = self.length(it, self.source if name == "convert_to" else self.target)
        r = npm.fresh_arr(ctx, "converted", "f", n)
        arg = values
        if isinstance(values, npm.NArr):
            arg = npm.NArr(values.kind, values.length, values.fnow())
        r.origin = (name, self, arg)
        ctx.ghost.setdefault("conversions", []).append((name, self, arg, npm.NArr("f", n, r.fnow())))
        return r


def converter_contract(it, short=True):
    def make(it, source, target, ttype, interp, extrap):
        return TConv(source, target, ttype, interp, extrap, short)

    c = FnContract(make)
    names = ["source_time_points", "target_time_points", "timeseries_type", "interpolation_type", "extrapolation_type"]

    def invoke(it, args, kw):
        f, _ = it.cls(TC).find("__init__")
        vals = it.bind_args(f, [None] + list(args), kw)
        vals = list(vals.values())[1:]
        if len(vals) != 5:
            raise Unsupported("arguments of TimeseriesConverter")
        return make(it, *vals)

    c.invoke = invoke
    it.contracts[TC] = c


# ---------------------------------------------------------------- leaves of the hierarchy

NL = F("NLEAVES", I, I)  # number of leaves below a parameter (1 for a leaf)
LF = F("LEAF", I, I, I)  # the leaves in order
OFF = F("OFFSET", I, I, I)  # leaves below the first children


def leaf_definition(h):
    """Definition of the leaves below a parameter (recursion over the hierarchy)."""
    p, j, k = z3.Ints("p? j? k?")
    cnt = lambda x: h.cnt("children", x)
    child = lambda x, j: h.m("children", x, h.key("children", x, j))
    return [
        z3.ForAll([p], z3.Implies(z3.And(h.p_ok(p), cnt(p) == 0), z3.And(NL(p) == 1, LF(p, 0) == p)), patterns=[NL(p)]),
        z3.ForAll([p], z3.Implies(z3.And(h.p_ok(p), cnt(p) > 0), z3.And(OFF(p, 0) == 0, NL(p) == OFF(p, cnt(p)))), patterns=[NL(p)]),
        z3.ForAll([p], z3.Implies(h.p_ok(p), NL(p) >= 1), patterns=[NL(p)]),
        z3.ForAll([p], z3.Implies(z3.And(h.p_ok(p), cnt(p) > 0), OFF(p, 0) == 0), patterns=[OFF(p, 0)]),
        z3.ForAll([p, j], z3.Implies(z3.And(h.p_ok(p), j >= 0, j < cnt(p)), OFF(p, j + 1) == OFF(p, j) + NL(child(p, j))),
                  patterns=[z3.MultiPattern(OFF(p, j), NL(child(p, j)))]),
        z3.ForAll([p, j, k], z3.Implies(z3.And(h.p_ok(p), j >= 0, j < cnt(p), k >= 0, k < NL(child(p, j))),
                                        LF(p, OFF(p, j) + k) == LF(child(p, j), k)), patterns=[LF(child(p, j), k)]),
        z3.ForAll([p, j], z3.Implies(z3.And(h.p_ok(p), j >= 0, j < NL(p)), z3.And(h.p_ok(LF(p, j)), cnt(LF(p, j)) == 0)), patterns=[LF(p, j)]),
    ]


def leaf_instance(h, p, j, k):
    """The definition for one parameter, child and leaf."""
    c = h.m("children", p, h.key("children", p, j))
    return z3.Implies(z3.And(h.p_ok(p), j >= 0, j < h.cnt("children", p), k >= 0, k < NL(c)), LF(p, OFF(p, j) + k) == LF(c, k))


def leaf_step(h, p, j):
    c = h.m("children", p, h.key("children", p, j))
    return z3.Implies(z3.And(h.p_ok(p), j >= 0, j < h.cnt("children", p)), OFF(p, j + 1) == OFF(p, j) + NL(c))


class LeafView(Ext):
    """Contract of a view of a parameter without children."""

    name = "view of a leaf"

    def __init__(self, kind, e, unit, extra=()):
        self.kind, self.e, self.unit, self.extra = kind, e, unit, tuple(extra)

    def exprs(self):
        return [self.e, self.unit]

    def subst(self, pairs):
        return LeafView(self.kind, z3.substitute(self.e, *pairs), z3.substitute(self.unit, *pairs), self.extra)

    def pack(self):
        return [self.e]

    def unpack(self, ts):
        return LeafView(self.kind, ts[0], self.unit, self.extra)

    def same_family(self, o):
        return isinstance(o, LeafView) and o.kind == self.kind and o.unit.eq(self.unit) and len(o.extra) == len(self.extra) and all(
            a is b for a, b in zip(self.extra, o.extra))

    def isinstance_of(self, it, c):
        return getattr(c, "name", None) in (self.kind + "View", "ParameterInfo", "object")

    def getattr(self, it, name):
        ctx = it.ctx
        if name == "_parameter":
            return SRef("_Parameter", self.e)
        if name == "unit":
            return SStr(self.unit)
        h = Heap(ctx)
        if name == "empty":
            return z3.Not(h.f("has_been_written_to", self.e))
        if name == "value" and self.kind == "Scalar" or name == "values" and self.kind == "Timeseries":
            if not ctx.branch(h.f("has_been_written_to", self.e)):
                it.throw(it.cls("openscm.errors:ParameterEmptyError"))
            return scalar_value(h, self.e, self.unit) if self.kind == "Scalar" else series_value(h, self)
        if name in ("version", "parameter_type", "region", "name"):
            return it.getattr(SRef("_Parameter", self.e), name)
        raise Unsupported("view of a leaf." + name)


def scalar_value(h, e, unit):
    """What a scalar view of leaf e in a unit reads (C03)."""
    pu = h.f("unit", e)
    return A(pu, unit, NOCTX) * core.unbox_real(h.f("data", e)) + Bo(pu, unit, NOCTX)


SERIES = F("series_value", core.AnyS, core.AnyS, core.Str, core.Str, I, core.R)  # data, its times, its unit, unit, index


def series_value(h, w):
    """What a timeseries view of a leaf reads: an uninterpreted function of stored data and view (C05)."""
    e = w.e
    d, t, u = h.f("data", e), h.f("time_points", e), h.f("unit", e)
    tp, tt = w.extra[0], w.extra[1]
    return npm.NArr("f", z3.simplify(num(tp.length) - (1 if "AVERAGE" in tt.name else 0)), lambda i: SERIES(d, t, u, w.unit, num(i)))


def unit_trouble(h, e, unit):
    pu = h.f("unit", e)
    return z3.Not(z3.And(DEF(pu), DEF(unit), OK(pu, unit, NOCTX)))


def recursive_functions(it, module="openscm.core.views"):
    """Qualified names of the functions of the views module that call themselves."""
    m = it.load(module)
    out = []

    def walk(node, path):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                walk(n, path + [n.name])
            elif isinstance(n, ast.FunctionDef):
                calls = {c.func.id for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)}
                if n.name in calls:
                    out.append((module + ":" + ".".join(path + [n.name]), n))
                walk(n, path + [n.name, "<locals>"])
            else:
                walk(n, path)

    walk(m.tree, [])
    return out


def children_views(it):
    """
    Contract of the function that collects views of the leaves below a parameter (proved in
    C04): one view per leaf in the unit of the view, or refused; nothing changes.
    """
    for qual, node in recursive_functions(it):
        kind = "Scalar" if ":ScalarView" in qual else "Timeseries" if ":TimeseriesView" in qual else None
        if kind is None:
            continue
        it.contracts[qual] = Leaves(kind, qual)


class Leaves:
    def __init__(self, kind, qual):
        self.kind, self.qual = kind, qual

    def view(self, it, f):
        """The view under construction (from the enclosing function)."""
        env = f.env
        while env is not None:
            o = env.vars.get("self")
            if isinstance(o, Obj):
                return o
            env = env.parent
        raise Unsupported("view under construction")

    def invoke_func(self, it, f, args, kw):
        ctx = it.ctx
        vals = list(it.bind_args(f, args, kw).values())
        if len(vals) != 1 or not isinstance(vals[0], SRef):
            raise Unsupported("arguments of " + self.qual)
        e = vals[0].e
        o = self.view(it, f)
        unit, extra = family(it, o, self.kind)
        if ctx.branch(BAD(self.kind)(e)):
            it.throw(it.cls("openscm.errors:ParameterTypeError"))
        if ctx.branch(TROUBLE(e, unit)):
            it.throw("DimensionalityError")
        return SymList(NL(e), lambda i: LeafView(self.kind, LF(e, num(i)), unit, extra), "list")


def BAD(kind):
    """Some leaf below the parameter is of another type."""
    return F("bad_leaf_" + kind, I, core.B)


TROUBLE = F("unit_trouble", I, core.Str, core.B)  # the unit of some leaf does not fit


def family(it, o, kind):
    """Unit (and time points, types) of a view."""
    unit = sstr(it.getattr(o.f["_unit_converter"], "target"))
    if kind == "Scalar":
        return unit, ()
    c = o.f["_timeseries_converter"]
    return unit, (c.target, c.ttype, c.interp, c.extrap)


def trouble_definition(h, kind, code, unit):
    """Leaves of another type, and leaves whose unit does not fit."""
    p, j = z3.Ints("p? j?")
    cnt = lambda x: h.cnt("children", x)
    child = lambda x, j: h.m("children", x, h.key("children", x, j))
    out = []
    for nm, Q, leaf in (("type", BAD(kind), lambda x: h.f("parameter_type", x) != code), ("unit", lambda x: TROUBLE(x, unit), lambda x: unit_trouble(h, x, unit))):
        W = F("witness_" + nm, I, I)
        out += [
            z3.ForAll([p], z3.Implies(z3.And(h.p_ok(p), cnt(p) == 0), Q(p) == leaf(p)), patterns=[Q(p)]),
            z3.ForAll([p, j], z3.Implies(z3.And(h.p_ok(p), j >= 0, j < cnt(p), Q(child(p, j))), Q(p)), patterns=[Q(child(p, j))]),
            z3.ForAll([p], z3.Implies(z3.And(h.p_ok(p), cnt(p) > 0, Q(p)), z3.And(W(p) >= 0, W(p) < cnt(p), Q(child(p, W(p))))), patterns=[Q(p)]),
        ]
    return out


class LeafClass:
    """Contract of the constructor of a view of a parameter without children (C03, C05)."""

    def __init__(self, kind, qual, h):
        self.kind, self.qual, self.h = kind, qual, h

    def invoke(self, it, args, kw):
        ctx = it.ctx
        f, _ = it.cls(self.qual).find("__init__")
        vals = list(it.bind_args(f, [None] + list(args), kw).values())[1:]
        x, unit = vals[0], sstr(vals[1])
        ctx.oblige("views are collected of parameters without children", self.h.cnt("children", x.e) == 0)
        if ctx.branch(unit_trouble(self.h, x.e, unit)):
            it.throw("DimensionalityError")
        return LeafView(self.kind, x.e, unit, vals[2:])


class Capture:
    """Keeps the function called; its result does not matter."""

    def __init__(self):
        self.f = None

    def invoke_func(self, it, f, args, kw):
        self.f = f
        return core.PyList([])


class Sum:
    """A sum over the elements of a list of symbolic length (its value is fresh)."""

    def __init__(self, v, value):
        self.length, self.get, self.value = num(v.length), v.get, value


def sum_hook(it, v, start):
    """sum() over a symbolic number of numbers or arrays of one length."""
    ctx = it.ctx
    v = it.as_seq(v)
    if not (isinstance(start, int) and start == 0):
        return NotImplemented
    j = z3.Int("j!sum")
    x = v.get(j)
    if isinstance(x, npm.NArr):
        val = npm.fresh_arr(ctx, "sum", "f", x.length)
        snap = npm.NArr("f", val.length, val.fnow())
        s = Sum(v, snap)
        val.origin = s
    elif core.is_num(x):
        val = ctx.real("sum")
        s = Sum(v, val)
    else:
        return NotImplemented
    ctx.ghost.setdefault("sums", []).append(s)
    return val
