"""C04: a view of a parent is always the sum over all leaves below it."""
import z3

from pyvc import core, npm
from pyvc.core import Obj, PyList, SRef, SStr, SymList, Unsupported, num, real, sbool, sstr
from pyvc.speclib import KEEP, arbitrary, attempt, exc_name
from specs import hier, viewspec
from specs.hier import Heap, P, unchanged
from specs.viewspec import BAD, LF, NL, OFF, SERIES, TROUBLE, LeafView

V = "openscm.core.views:"


def build(v):
    v.trust("pint: contract in pyvc/pintm.py")
    v.trust("sum() over lists concatenates them in order; sum() over numbers or arrays is their sum")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("no parameter comes into existence below a viewed one, and leaves keep type and unit (C02)")
    v.assume("views of leaves read as proved in C03 and C05")

    def setup(it, ctx, kind):
        o, h0 = hier.new_set(it, ctx)
        x = hier.any_ref(ctx, "_Parameter", "parameter")
        ctx.assume(h0.p_ok(x.e))
        tn = {"Scalar": "SCALAR"}.get(kind)
        if tn is None:
            tn = ["AVERAGE_TIMESERIES", "POINT_TIMESERIES"][ctx.choose(2)]
        t = it.cls("openscm.core.parameters:ParameterType").members[tn]
        ctx.assume(z3.And(h0.f("parameter_type", x.e) == t.code, h0.f("has_been_read_from", x.e), h0.f("unit", x.e) != core.NONE_STR))
        unit = SStr(ctx.fresh("unit", core.Str))
        ctx.assume(z3.Not(viewspec.unit_trouble(h0, x.e, unit.e)))
        args = [x, unit]
        if kind == "Timeseries":
            viewspec.converter_contract(it)
            tp = npm.fresh_arr(ctx, "time_points", "M", ctx.int("n_times"))
            ctx.assume(num(tp.length) >= 2)
            interp = it.cls("openscm.core.time:InterpolationType").members["LINEAR"]
            extrap = it.cls("openscm.core.time:ExtrapolationType").members[["NONE", "LINEAR", "CONSTANT"][ctx.choose(3)]]
            args += [tp, t, interp, extrap]
        for f in viewspec.leaf_definition(h0) + viewspec.trouble_definition(h0, kind, t.code, unit.e):
            ctx.assume(f, heavy=True)
        return h0, x, t, unit, args

    def make(it, kind, args):
        """Runs the constructor itself (others by contract)."""
        o = Obj(it.cls(V + kind + "View"))
        f, _ = o.cls.find("__init__")
        it.call(f, [o] + args, {})
        return o

    def collector(it, kind):
        qs = [q for q, _ in viewspec.recursive_functions(it) if (":%sView" % kind) in q]
        if len(qs) != 1:
            raise Unsupported("function that collects the leaves")
        return qs[0]

    def is_leaf_views(it, ctx, what, r, x, kind, unit, extra):
        """r is the list of views of the leaves below x."""
        if isinstance(r, PyList):
            r = r.value()
        if not isinstance(r, SymList):
            ctx.fail(what + ": a list", repr(r))
            return
        if hasattr(r, "off"):  # a concatenation: its offsets are those of the definition
            h, n, j = Heap(ctx), num(r.parts.length), ctx.int("j")
            ctx.oblige(what + ": one list per child", n == h.cnt("children", x))
            ctx.assume(r.step(j))
            ctx.assume(viewspec.leaf_step(h, x, j))
            same = lambda j: r.off(j) == OFF(x, j)
            ctx.oblige(what + ": offsets (start)", same(z3.IntVal(0)))
            ctx.oblige(what + ": offsets (step)", z3.Implies(z3.And(j >= 0, j < n, same(j)), same(j + 1)))
            q = z3.Int("q?")
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= n), same(q)), patterns=[r.off(q), OFF(x, q)]))
        ctx.oblige(what + ": as many views as leaves below", num(r.length) == NL(x))
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < NL(x)))
        if hasattr(r, "off"):
            sg = r.seg(i)
            ctx.assume(r.step(sg))
            ctx.assume(viewspec.leaf_instance(h, x, sg, i - r.off(sg)))
            ctx.oblige(what + ": leaf i is a leaf of one child", z3.And(OFF(x, sg) == r.off(sg), LF(x, i) == LF(
                h.m("children", x, h.key("children", x, sg)), i - r.off(sg))))
            ctx.assume(LF(x, i) == LF(h.m("children", x, h.key("children", x, sg)), i - r.off(sg)))
        w = r.get(i)
        if not isinstance(w, LeafView) or w.kind != kind:
            ctx.fail(what + ": views of leaves", repr(w))
            return
        ctx.oblige(what + ": view i is of leaf i", w.e == LF(x, i))
        ctx.oblige(what + ": in the unit of the view", w.unit == unit)
        ctx.oblige(what + ": for its time points, type, inter- and extrapolation", z3.BoolVal(
            len(w.extra) == len(extra) and all(a is b or (isinstance(a, npm.NArr) and same_arr(a, b)) for a, b in zip(w.extra, extra))))

    def same_arr(a, b):
        return isinstance(b, npm.NArr) and a.kind == b.kind and a.fnow() is b.fnow() and z3.simplify(num(a.length) == num(b.length)).eq(z3.BoolVal(True))

    for kind in ("Scalar", "Timeseries"):

        @v.unit("leaves below a parameter (%s view)" % kind.lower(), functions=[V + kind + "View.__init__"], covers=["leaf", "parent", "type", "unit"])
        def leaves(it, ctx, kind=kind):
            h0, q, t, unit, args = setup(it, ctx, kind)
            # the view under construction is of a parent q; its collecting function is called for any x
            ctx.assume(h0.cnt("children", q.e) > 0)
            qual = collector(it, kind)
            cap = viewspec.Capture()
            it.contracts[qual] = cap
            w = make(it, kind, args)
            if cap.f is None:
                raise Unsupported("no collection of leaves")
            it.contracts[qual] = viewspec.Leaves(kind, qual)
            it.contracts[V + kind + "View"] = viewspec.LeafClass(kind, V + kind + "View", h0)
            x = hier.any_ref(ctx, "_Parameter", "x")
            ctx.assume(h0.p_ok(x.e))
            it.verifying, it.verifying_entered = qual, False
            r, e = attempt(it, lambda: it.call_func(cap.f, [x], {}))
            it.verifying = None
            ctx.oblige("nothing changes", unchanged(h0, Heap(ctx)))
            if e is not None:
                n = exc_name(e)
                if n == "ParameterTypeError":
                    ctx.cover("type")
                    ctx.oblige("ParameterTypeError only if some leaf is of another type", BAD(kind)(x.e))
                elif n in ("DimensionalityError", "UndefinedUnitError"):
                    ctx.cover("unit")
                    ctx.oblige("unit errors only if the unit of some leaf does not fit", TROUBLE(x.e, unit.e))
                else:
                    ctx.fail("no other exception", n)
                return
            ctx.cover("parent" if not ctx.proves(h0.cnt("children", x.e) == 0) else "leaf")
            ctx.oblige("leaves of another type are refused", z3.Not(BAD(kind)(x.e)))
            ctx.oblige("leaves of unfitting units are refused", z3.Not(TROUBLE(x.e, unit.e)))
            is_leaf_views(it, ctx, "views of leaves", r, x.e, kind, unit.e, args[2:])

        def made(it, ctx, kind):
            """A view of a parent, after any later history of writes to leaves."""
            h0, x, t, unit, args = setup(it, ctx, kind)
            ctx.assume(h0.cnt("children", x.e) > 0)
            viewspec.children_views(it)
            w, e = attempt(it, lambda: make(it, kind, args))
            if e is not None:
                n = exc_name(e)
                ctx.cover("refused")
                ctx.oblige("creation refused only for another type or unit below", z3.Or(BAD(kind)(x.e), TROUBLE(x.e, unit.e)))
                ctx.oblige("refused as documented", z3.BoolVal(n in ("ParameterTypeError", "DimensionalityError", "UndefinedUnitError")))
                raise core.PathAbort()
            ctx.oblige("creating a view changes nothing", unchanged(h0, Heap(ctx)))
            ctx.oblige("the view is of this parameter", it.getattr(w, "_parameter").e == x.e)
            is_leaf_views(it, ctx, "the view", w.f["_child_data_views"], x.e, kind, unit.e, args[2:])
            for fl in ("data", "version", "has_been_written_to", "has_been_read_from"):
                it.heap_fresh(ctx, "_Parameter", fl, it.schema.cls["_Parameter"][fl], "later")
            h1 = Heap(ctx)
            for n, f in hier.inv(h1):
                ctx.assume(f, heavy=True)
            it.sum_hook = viewspec.sum_hook
            ctx.ghost["sums"] = []
            return h1, x, t, unit, args, w

        def check_sum(it, ctx, h1, x, unit, kind, s, what):
            n = NL(x.e)
            ctx.oblige(what + ": as many terms as leaves", s.length == n)
            j = ctx.int("j")
            ctx.assume(z3.And(j >= 0, j < n))
            term = s.get(j)
            e = LF(x.e, j)
            if kind == "Scalar":
                ctx.oblige(what + ": term j is the value of leaf j in the unit of the view", real(term) == viewspec.scalar_value(h1, e, unit.e))
            else:
                i = ctx.int("i")
                ctx.assume(z3.And(i >= 0, i < num(s.value.length)))
                ctx.oblige(what + ": term j are the values of leaf j", real(term.at(i)) == SERIES(
                    h1.f("data", e), h1.f("time_points", e), h1.f("unit", e), unit.e, i))

        def empty_iff(it, ctx, h1, x, e, what):
            i = z3.Int("i?")
            some = z3.Exists([i], z3.And(i >= 0, i < NL(x.e), z3.Not(h1.f("has_been_written_to", LF(x.e, i)))))
            if e is not None:
                if exc_name(e) != "ParameterEmptyError":
                    ctx.fail(what + ": no other exception", exc_name(e))
                    return False
                ctx.cover("empty")
                ctx.oblige(what + ": ParameterEmptyError only while a leaf is empty", some)
                ctx.oblige(what + ": reading changes nothing", unchanged(h1, Heap(ctx)))
                return False
            ctx.cover("value")
            ctx.oblige(what + ": refused while a leaf is empty", z3.Not(some))
            ctx.oblige(what + ": reading changes nothing", unchanged(h1, Heap(ctx)))
            return True

    @v.unit("scalar view of a parent", functions=[V + "ScalarView.__init__", V + "ScalarView.value"], covers=["refused", "empty", "value"])
    def scalar(it, ctx):
        h1, x, t, unit, args, w = made(it, ctx, "Scalar")
        y, e = attempt(it, lambda: it.getattr(w, "value"))
        if empty_iff(it, ctx, h1, x, e, "value"):
            s = sums(ctx)
            ctx.oblige("value: the sum of the terms", real(y) == s.value)
            check_sum(it, ctx, h1, x, unit, "Scalar", s, "value")

    def sums(ctx):
        s = ctx.ghost.get("sums", [])
        if len(s) != 1:
            raise Unsupported("%d sums" % len(s))
        return s[0]

    @v.unit("timeseries view of a parent", functions=[V + "TimeseriesView.__init__", V + "TimeseriesView.values", V + "TimeseriesView._read",
                                                      V + "TimeseriesView._get_values", V + "TimeseriesView._update_data", V + "_Timeseries.__getitem__"],
            covers=["refused", "empty", "value"])
    def series(it, ctx):
        h1, x, t, unit, args, w = made(it, ctx, "Timeseries")
        n = z3.simplify(num(args[2].length) - (1 if "AVERAGE" in t.name else 0))
        used = ctx.choose(2)  # has it been read before?
        fs = {k: KEEP for k in ("_parameter", "_unit_converter", "_timeseries_converter", "_child_data_views", "_writable", "_locked", "_pending")}
        # a view of a parent is never written (C02), so it is not writable and has nothing pending
        fs["_locked"] = ctx.bool("locked")
        fs["_data"] = fs["_timeseries"] = None
        if used:
            fs["_data"] = npm.fresh_arr(ctx, "cache", "f", n)
            fs["_version"] = ctx.int("version")
            w.f["_version"] = None
        arbitrary(w, **fs)
        if used:
            w.f["_timeseries"] = it.instantiate(it.cls(V + "_Timeseries"), [w.f["_data"], w], {})
        handle = w.f["_timeseries"]
        via = ["values", "handle"][ctx.choose(2)] if used else "values"
        if via == "values":
            y, e = attempt(it, lambda: it.getattr(w, "values"))
        else:
            k = ctx.int("k")
            ctx.assume(z3.And(k >= 0, k < n))
            y, e = attempt(it, lambda: it.getitem(handle, k))
        if not empty_iff(it, ctx, h1, x, e, via):
            return
        s = sums(ctx)
        check_sum(it, ctx, h1, x, unit, "Timeseries", s, via)
        ctx.oblige(via + ": as many values as the view has", num(s.value.length) == n)
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n))
        if via == "handle":
            ctx.oblige("an element read through an older handle is the sum", real(y) == real(s.value.at(k)))
        else:
            d = it.getattr(y, "_ndarray")
            ctx.oblige("values: the sum of the terms", z3.And(num(d.length) == n, real(d.at(i)) == real(s.value.at(i))))
        if used:
            d = it.getattr(handle, "_ndarray")
            ctx.oblige("handles obtained earlier show the sum", z3.And(num(d.length) == n, real(d.at(i)) == real(s.value.at(i))))
