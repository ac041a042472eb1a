"""C05: timeseries views read the latest published values; writes publish exactly what was written."""
import z3

from pyvc import core, npm, pintm
from pyvc.core import Ext, Obj, SStr, num, real, sbool
from pyvc.pintm import A, Bo, DEF, NOCTX, OK
from pyvc.speclib import KEEP, arbitrary, attempt, exc_name, fields_of, new_parameter, new_region, ptype, same_fields
from specs import viewspec

V = "openscm.core.views:"
TV = V + "TimeseriesView"
TS = V + "_Timeseries"


class UFunc(Ext):
    """Any elementwise numpy function of two arguments."""

    name = "ufunc"

    def __init__(self):
        self.fn = z3.Function("ufunc", core.R, core.R, core.R)

    def getattr(self, it, name):
        if name == "nout":
            return 1
        if name == "nin":
            return 2
        if name == "__name__":
            return "ufunc"
        raise core.Unsupported("ufunc." + name)

    def apply(self, it, args):
        n, f, g = npm._pair(it, args[0], args[1])
        fn = self.fn
        return npm.NArr("f", n, lambda i: fn(real(f(i)), real(g(i))))


def build(v):
    v.trust("pint: contract in pyvc/pintm.py")
    v.trust("numpy: arrays hold what was stored; slices are views; copyto, asarray, copy, elementwise functions with out as documented (pyvc/npm.py)")
    v.assume("floating point numbers are treated as mathematical reals; the views hold floating point arrays")
    v.assume("conversion between time points returns a new array of the right length or refuses short series (C09, C10)")
    v.assume("a conversion that was refused in the middle of a write is not followed by further use of that view")

    # ------------------------------------------------------------ states

    def state(it, ctx, short=False):
        """A timeseries parameter without children after any history."""
        viewspec.converter_contract(it, short)
        tn = ["AVERAGE_TIMESERIES", "POINT_TIMESERIES"][ctx.choose(2)]
        t = ptype(it, tn)
        region = new_region(it, ctx)
        out = []
        for nm in "pq":
            p = new_parameter(it, ctx, nm, region)
            tp = npm.fresh_arr(ctx, "times_" + nm, "M", ctx.int("n_" + nm))
            ctx.assume(num(tp.length) >= 2)
            u = ctx.fresh("unit_" + nm, core.Str)
            ctx.assume(u != core.NONE_STR)
            it.call(it.getattr(p, "attempt_read"), [t, SStr(u), tp], {})
            n = z3.simplify(num(tp.length) - (1 if "AVERAGE" in tn else 0))
            arbitrary(p, children=KEEP, name=KEEP, parent=KEEP, region=KEEP, parameter_type=KEEP, unit=KEEP, time_points=KEEP,
                      has_been_read_from=KEEP, has_been_written_to=ctx.bool("written_" + nm), data=npm.fresh_arr(ctx, "data_" + nm, "f", n),
                      version=ctx.int("version_" + nm))
            ctx.assume(num(p.f["version"]) >= 0)
            out.append((p, u, tp))
        return t, out

    def fresh_view(it, ctx, p, t, nm, any_type=False):
        u = ctx.fresh("unit_" + nm, core.Str)
        tp = npm.fresh_arr(ctx, "times_" + nm, "M", ctx.int("n_" + nm))
        ctx.assume(num(tp.length) >= 2)
        interp = it.cls("openscm.core.time:InterpolationType").members["LINEAR"]
        extrap = it.cls("openscm.core.time:ExtrapolationType").members[["LINEAR", "CONSTANT", "NONE"][ctx.choose(3)] if any_type else "LINEAR"]
        ctx.ghost["extrapolation"] = extrap
        w, e = attempt(it, lambda: it.instantiate(it.cls(TV), [p, SStr(u), tp, t, interp, extrap], {}))
        if e is not None:
            raise core.PathAbort()  # units that do not fit are refused (C06)
        return w, u, tp

    def view(it, ctx, p, t, nm, used=None, handle=True):
        """A view of p after any history (representation invariant assumed, see 'invariant')."""
        w, u, tp = fresh_view(it, ctx, p, t, nm)
        n = z3.simplify(num(tp.length) - (1 if "AVERAGE" in t.name else 0))
        used = ctx.choose(2) if used is None else used
        writ = sbool(it.getattr(p, "has_been_written_to"))
        wr, locked = ctx.bool("writable_" + nm), ctx.bool("locked_" + nm)
        ctx.assume(z3.Implies(wr, writ))
        fs = dict(_parameter=KEEP, _unit_converter=KEEP, _timeseries_converter=KEEP, _writable=wr, _locked=locked, _data=None, _pending=False, _timeseries=None)
        if "_version" in w.f:
            fs["_version"] = KEEP
        if used:
            ctx.assume(writ)
            fs["_data"] = npm.fresh_arr(ctx, "cache_" + nm, "f", n)
            pend = bool(ctx.choose(2))
            fs["_pending"] = pend
            if pend:
                ctx.assume(wr)
                ctx.assume(locked)
        arbitrary(w, **fs)
        if used:
            ver = ctx.int("cached_" + nm)
            ctx.assume(ver <= num(p.f["version"]))
            w.f["_version"] = ver
            if handle:
                w.f["_timeseries"] = it.instantiate(it.cls(TS), [w.f["_data"], w], {})
        ctx.ghost["conversions"] = []
        return w, u, tp, n, used

    def freeze(a):
        return npm.NArr(a.kind, a.length, a.fnow())

    def snap(it, o):
        """Fields and contents of a parameter or view."""
        d = {}
        for k, x in o.f.items():
            d[k] = (x, freeze(x)) if isinstance(x, npm.NArr) else x
        return d

    def same_arr(ctx, a, b):
        i = ctx.int("i!same")
        return z3.And(num(a.length) == num(b.length), z3.Implies(z3.And(i >= 0, i < num(a.length)), eq_elem(a.at(i), b.at(i))))

    def eq_elem(x, y):
        if isinstance(x, npm.Dt):
            return num(x.e) == num(y.e)
        return real(x) == real(y)

    def kept(it, ctx, o, before, skip=()):
        cs = []
        if set(o.f) - set(skip) != set(before) - set(skip):
            return z3.BoolVal(False)
        for k, x in before.items():
            if k in skip:
                continue
            if isinstance(x, tuple):
                cs.append(same_arr(ctx, o.f[k], x[1]) if isinstance(o.f[k], npm.NArr) else z3.BoolVal(False))
            elif o.f[k] is not x:
                r = it.eq(o.f[k], x)
                cs.append(sbool(r))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def invariant(it, ctx, what, w, p, n):
        d = w.f["_data"]
        if d is None:
            ctx.oblige(what + ": nothing pending before the first access", z3.Not(sbool(w.f["_pending"])))
            return
        ctx.oblige(what + ": invariant: length", num(d.length) == n)
        ts = w.f["_timeseries"]
        if ts is not None:
            ctx.oblige(what + ": invariant: the values handed out are those of the view", same_store(it, ctx, ts.f["_ndarray"], d))
        ctx.oblige(what + ": invariant: pending writes only in locked, writable views", z3.Implies(sbool(w.f["_pending"]), z3.And(sbool(w.f["_writable"]), sbool(w.f["_locked"]))))
        ctx.oblige(what + ": invariant: written", sbool(it.getattr(p, "has_been_written_to")))
        if "_version" in w.f and w.f["_version"] is not None:
            ctx.oblige(what + ": invariant: version", num(w.f["_version"]) <= num(p.f["version"]))
        else:
            ctx.oblige(what + ": invariant: version", sbool(w.f["_pending"]))

    def same_store(it, ctx, a, b):
        """Two arrays over the same memory (what one stores the other one shows)."""
        return z3.BoolVal(isinstance(a, npm.NArr) and isinstance(b, npm.NArr) and a.root() is b.root()
                          and z3.simplify(num(a.off) == num(b.off)).eq(z3.BoolVal(True)) and z3.simplify(num(a.length) == num(b.length)).eq(z3.BoolVal(True)))

    def conversions(ctx, name):
        return [c for c in ctx.ghost.get("conversions", []) if c[0] == name]

    def expected(it, ctx, w, u, tp, t, p, pu, ptp, what, data=None, before=None):
        """The content a read of the published data has to show: the conversion made."""
        cs = conversions(ctx, "convert_from")
        if not cs:
            if before is not None and isinstance(w.f["_data"], npm.NArr) and (before["_data"] is None or z3.simplify(sbool(
                    same_arr(ctx, w.f["_data"], before["_data"][1]))).eq(z3.BoolVal(True)) or ctx.proves(same_arr(ctx, w.f["_data"], before["_data"][1]))):
                ctx.fail(what + ": the published data is read", "the view keeps what it had")
                return None
            raise core.Unsupported("published data is not converted")
        name, conv, arg, res = cs[-1]
        i = ctx.int("i!arg")
        data = freeze(p.f["data"]) if data is None else data
        ctx.oblige(what + ": the published data in the unit of the view is converted", z3.And(
            num(arg.length) == num(data.length),
            z3.Implies(z3.And(i >= 0, i < num(data.length)), real(arg.at(i)) == A(pu, u, NOCTX) * real(data.at(i)) + Bo(pu, u, NOCTX))))
        ctx.oblige(what + ": from the time points of the parameter to those of the view", right_times(it, ctx, conv, ptp, tp, t))
        return res

    def right_times(it, ctx, conv, ptp, tp, t):
        return z3.And(same_arr(ctx, conv.source, ptp), same_arr(ctx, conv.target, tp), sbool(it.eq(conv.ttype, t)))

    def published(it, ctx, what, w, u, tp, t, p, pu, ptp, before, values):
        """p now holds the conversion of the given values, under the next version."""
        cs = conversions(ctx, "convert_to")
        if not cs:
            d = p.f["data"]
            if not isinstance(d, npm.NArr) or d is before["data"][0]:
                ctx.fail(what + ": published", "the parameter keeps its data")
                return
            if w.f["_data"] is not None and d.root() is w.f["_data"].root():
                ctx.fail(what + ": the parameter has data of its own", "shared with the view")
                return
            raise core.Unsupported("published without conversion")
        name, conv, arg, res = cs[-1]
        i = ctx.int("i!pub")
        ctx.assume(pintm.instance(pu, u, NOCTX))
        ctx.oblige(what + ": the values written, in the unit of the parameter, are converted", z3.And(
            num(arg.length) == num(values.length),
            z3.Implies(z3.And(i >= 0, i < num(values.length)), A(pu, u, NOCTX) * real(arg.at(i)) + Bo(pu, u, NOCTX) == real(values.at(i)))))
        ctx.oblige(what + ": from the time points of the view to those of the parameter", right_times(it, ctx, conv, ptp, tp, t))
        ctx.oblige(what + ": the parameter holds the converted values", same_arr(ctx, p.f["data"], res))
        ctx.oblige(what + ": version increases by one", num(p.f["version"]) == num(before["version"]) + 1)
        ctx.oblige(what + ": counts as written", sbool(p.f["has_been_written_to"]))
        ctx.oblige(what + ": the view is up to date", num(w.f["_version"]) == num(p.f["version"]))
        ctx.oblige(what + ": nothing is pending", z3.Not(sbool(w.f["_pending"])))
        ctx.oblige(what + ": nothing else of the parameter changes", kept(it, ctx, p, before, ("data", "version", "has_been_written_to", "has_been_read_from")))

    # what a view shows before an operation: (content, converted?)
    def shown(it, ctx, w, u, tp, t, p, pu, ptp, before, pbefore, what):
        """Content w must show before the operation (None: has to be converted during it)."""
        if before["_data"] is None:
            return None
        own = before["_data"][1]
        if before["_pending"] is True:
            return own
        if ctx.branch(num(before["_version"]) == num(pbefore["version"])):
            return own
        return None

    # ------------------------------------------------------------ reading

    @v.unit("creating a view", functions=[TV + ".__init__", V + "_Timeseries.__init__"], covers=["made"])
    def create(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx)
        before = snap(it, p)
        w, u, tp = fresh_view(it, ctx, p, t, "w", any_type=True)
        ctx.cover("made")
        c = it.getattr(w, "_timeseries_converter")
        ctx.oblige("creating a view changes nothing", kept(it, ctx, p, before))
        ctx.oblige("unit of the view", it.getattr(w, "unit").e == u)
        ctx.oblige("converts between the time points of the parameter and those of the view", right_times(it, ctx, c, ptp, tp, t))
        ctx.oblige("inter- and extrapolation as given", z3.BoolVal(c.interp.name == "LINEAR" and c.extrap.name == ctx.ghost["extrapolation"].name))
        ctx.oblige("length", num(it.getattr(w, "length")) == num(tp.length) - (1 if "AVERAGE" in t.name else 0))
        n = z3.simplify(num(tp.length) - (1 if "AVERAGE" in t.name else 0))
        ctx.oblige("not locked, nothing pending, nothing cached", z3.BoolVal(
            w.f["_locked"] is False and w.f["_pending"] is False and w.f["_data"] is None and w.f["_writable"] is False))
        # the time points given may change later
        it.setitem(tp, 0, npm.Dt(ctx.int("changed")))
        d = p.f["time_points"]
        ctx.oblige("time points of the parameter", same_arr(ctx, d, ptp))

    ways = ["values", "element", "slice", "array", "iteration", "arithmetic"]

    @v.unit("reading", functions=[TV + ".values", TV + "._read", TV + "._get_values", TV + "._update_data", TS + ".__getitem__", TS + ".__iter__",
                                  TS + ".__array__", TS + ".__read__", TS + "._create_arithmetic_method", TS + ".__len__", TS + ".shape", TS + ".ndim"],
            covers=["empty", "value", "short"] + ways, max_paths=3000)
    def read(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx, short=True)
        w, u, tp, n, used = view(it, ctx, p, t, "w")
        o, ou, otp, on, oused = view(it, ctx, p, t, "o", used=used)
        way = ways[ctx.choose(len(ways))] if used else "values"
        before, pb, ob, qb = [snap(it, x) for x in (w, p, o, q)]
        k = ctx.int("k")
        ctx.assume(z3.And(k >= 0, k < n))
        other = ctx.real("y")
        uf = UFunc()
        h = w.f["_timeseries"]

        def go():
            if way == "values":
                return it.getattr(w, "values")
            if way == "element":
                return it.getitem(h, k)
            if way == "slice":
                return it.getitem(h, slice(k, None))
            if way == "array":
                return it.call(it.getattr(h, "__array__"), [], {})
            if way == "iteration":
                return it.call(it.getattr(h, "__iter__"), [], {})
            op = core.Builtin("op", lambda it, a, b: uf.apply(it, [a, b]))
            m = it.call(it.getattr(it.cls(TS), "_create_arithmetic_method"), [op], {})
            return it.call(m, [h, other], {})

        r, e = attempt(it, go)
        ctx.cover(way)
        ctx.oblige("reading changes neither the parameter", kept(it, ctx, p, pb))
        ctx.oblige("reading changes no other parameter", kept(it, ctx, q, qb))
        ctx.oblige("reading changes no other view", kept(it, ctx, o, ob))
        writ = sbool(pb["has_been_written_to"])
        if e is not None:
            nm = exc_name(e)
            if nm == "ParameterEmptyError":
                ctx.cover("empty")
                ctx.oblige("ParameterEmptyError only before the first write", z3.Not(writ))
            elif nm == "InsufficientDataError":
                ctx.cover("short")
                ctx.oblige("refused in the conversion only", z3.BoolVal(ctx.ghost.get("short", 0) > 0))
            else:
                ctx.fail("no other exception", nm)
                return
            ctx.oblige("the view stays as it was", kept(it, ctx, w, before))
            return
        ctx.cover("value")
        ctx.oblige("values only after the first write", writ)
        want = shown(it, ctx, w, u, tp, t, p, pu, ptp, before, pb, "read")
        if want is None:
            want = expected(it, ctx, w, u, tp, t, p, pu, ptp, "read", None, before)
            if want is None:
                return
            ctx.oblige("read: up to date afterwards", num(w.f["_version"]) == num(p.f["version"]))
            want = freeze(want)
        else:
            ctx.oblige("read: nothing is converted when up to date or pending", z3.BoolVal(True))
        if way == "element":
            ctx.oblige("element: value", real(r) == real(want.at(k)))
        elif way == "slice":
            d = it.getattr(r, "_ndarray")
            i = ctx.int("i!slice")
            ctx.oblige("slice: values", z3.And(num(d.length) == n - k, z3.Implies(z3.And(i >= 0, i < n - k), real(d.at(i)) == real(want.at(i + k)))))
        elif way == "arithmetic":
            i = ctx.int("i!arith")
            ctx.oblige("arithmetic: on the values", z3.And(num(r.length) == n, z3.Implies(z3.And(i >= 0, i < n), real(r.at(i)) == uf.fn(real(want.at(i)), other))))
        else:
            d = r
            if isinstance(r, Obj):
                d = it.getattr(r, "_ndarray")
            elif way == "iteration":
                d = it.as_seq(r)
                d = npm.NArr("f", d.length, d.get)
            ctx.oblige(way + ": values", same_arr(ctx, d, want))
            if way == "values" and isinstance(r, Obj):
                ctx.oblige("values: their number", num(it.call(it.getattr(r, "__len__"), [], {})) == n)
                s = it.getattr(r, "shape")
                ctx.oblige("values: their shape", z3.And(num(s[0]) == n, z3.BoolVal(it.getattr(r, "ndim") == 1)) if isinstance(s, tuple) and len(s) == 1 else z3.BoolVal(False))
        if w.f["_timeseries"] is not None:
            ctx.oblige("handles obtained earlier show the same", same_arr(ctx, w.f["_timeseries"].f["_ndarray"], want))
        ctx.oblige("pending and lock as before", z3.And(sbool(w.f["_pending"]) == sbool(before["_pending"]), sbool(w.f["_locked"]) == sbool(before["_locked"])))
        invariant(it, ctx, "read", w, p, n)

    # ------------------------------------------------------------ writing

    def after_write(it, ctx, what, w, u, tp, n, t, p, pu, ptp, pb, values, locked):
        """Effects of a write that leaves w showing the given values."""
        invariant(it, ctx, what, w, p, n)
        if locked:
            ctx.cover("locked")
            ctx.oblige(what + ": a locked view publishes nothing", kept(it, ctx, p, pb, ("has_been_written_to", "has_been_read_from")))
            ctx.oblige(what + ": pending", sbool(w.f["_pending"]))
            ctx.oblige(what + ": counts as written", sbool(p.f["has_been_written_to"]))
        else:
            ctx.cover("published")
            published(it, ctx, what, w, u, tp, t, p, pu, ptp, pb, values)
        ctx.oblige(what + ": the view shows the values written", same_arr(ctx, w.f["_data"], values))
        r, e = attempt(it, lambda: it.getattr(w, "values"))
        if e is not None:
            ctx.fail(what + ": reading back is possible", exc_name(e))
            return
        ctx.oblige(what + ": the view that wrote reads exactly what it wrote", same_arr(ctx, it.getattr(r, "_ndarray"), values))

    def other_reads(it, ctx, what, o, ou, otp, t, p, pu, ptp):
        """Another view (nothing pending) reads the newly published values."""
        ob = snap(it, o)
        ctx.ghost["conversions"] = []
        r, e = attempt(it, lambda: it.getattr(o, "values"))
        if e is not None:
            ctx.fail(what + ": reading through another view is possible", exc_name(e))
            return
        res = expected(it, ctx, o, ou, otp, t, p, pu, ptp, what, None, ob)
        if res is not None:
            ctx.oblige(what + ": another view reads the converted values", same_arr(ctx, it.getattr(r, "_ndarray"), res))

    def frame(it, ctx, what, pairs):
        for nm, x, b in pairs:
            ctx.oblige("%s: %s is not touched" % (what, nm), kept(it, ctx, x, b))

    def refused(it, ctx, e, w, before, p, pb, rest, n, m=None):
        nm = exc_name(e)
        ctx.oblige("refused: the parameter stays as it was", kept(it, ctx, p, pb, ("has_been_written_to",) if nm == "InsufficientDataError" else ()))
        frame(it, ctx, "refused", rest)
        if nm == "TimeseriesPointsValuesMismatchError" and m is not None:
            ctx.cover("length")
            ctx.oblige("refused for the length only", num(m) != n)
            ctx.oblige("refused: the view stays as it was", kept(it, ctx, w, before))
        elif nm == "ParameterEmptyError":
            ctx.cover("empty")
            ctx.oblige("ParameterEmptyError only before the first write", z3.Not(sbool(pb["has_been_written_to"])))
        elif nm == "InsufficientDataError":
            ctx.oblige("refused in the conversion only", z3.BoolVal(ctx.ghost.get("short", 0) > 0))
        else:
            ctx.fail("no other exception", nm)

    @v.unit("writing all values", functions=[TV + ".values#set", TV + "._check_write", TV + "._write", TV + "._update_data", TS + ".__init__"],
            covers=["length", "locked", "published"], max_paths=3000)
    def write(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx)
        w, u, tp, n, used = view(it, ctx, p, t, "w")
        o, ou, otp, on, oused = view(it, ctx, p, t, "o", used=1)
        if o.f["_pending"] is True:
            raise core.PathAbort()
        before, pb, ob, qb = [snap(it, x) for x in (w, p, o, q)]
        m = ctx.int("m")
        ctx.assume(m >= 0)
        new = npm.fresh_arr(ctx, "new", "f", m)
        want = freeze(new)
        rest = [("another view", o, ob), ("another parameter", q, qb)]
        handle = w.f["_timeseries"]
        _, e = attempt(it, lambda: it.setattr(w, "values", new))
        if e is not None:
            refused(it, ctx, e, w, before, p, pb, rest, n, m)
            return
        ctx.oblige("other lengths are refused", num(m) == n)
        frame(it, ctx, "write", rest)
        ctx.oblige("the argument stays as it was", same_arr(ctx, new, want))
        k = ctx.int("k")
        ctx.assume(z3.And(k >= 0, k < n))
        it.setitem(new, k, ctx.real("later"))  # later changes of the argument are not writes
        locked = ctx.branch(sbool(before["_locked"]))
        after_write(it, ctx, "write", w, u, tp, n, t, p, pu, ptp, pb, want, locked)
        if handle is not None:
            ctx.oblige("values obtained earlier show what was written", same_arr(ctx, handle.f["_ndarray"], want))
        if not locked:
            other_reads(it, ctx, "write", o, ou, otp, t, p, pu, ptp)

    def base_then(it, ctx, w, u, tp, t, p, pu, ptp, before, pb, what):
        """Content the write starts from: what a read would have shown."""
        want = shown(it, ctx, w, u, tp, t, p, pu, ptp, before, pb, what)
        if want is None:
            d = pb["data"][1]
            want = expected(it, ctx, w, u, tp, t, p, pu, ptp, what, d, dict(before, _data=None))
            return freeze(want) if want is not None else None
        return want

    kinds = ["element", "slice", "element of a slice", "out", "out of a slice"]

    @v.unit("writing through values", functions=[TS + ".__setitem__", TS + ".__array_ufunc__", TS + ".__write__", TS + ".__read__", TS + ".__getitem__",
                                                 TV + "._check_write", TV + "._write", TV + "._read"],
            covers=["locked", "published"] + kinds, max_paths=3000)
    def element(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx)
        w, u, tp, n, used = view(it, ctx, p, t, "w", used=1)
        o, ou, otp, on, oused = view(it, ctx, p, t, "o", used=1)
        if o.f["_pending"] is True:
            raise core.PathAbort()
        kind = kinds[ctx.choose(len(kinds))]
        h = w.f["_timeseries"]
        k, l = ctx.int("k"), ctx.int("l")
        ctx.assume(z3.And(k >= 0, k < n, l > k, l <= n))
        x = ctx.real("x")
        uf = UFunc()
        y = npm.fresh_arr(ctx, "y", "f", n)
        sub = None
        if "of a slice" in kind:
            # a slice taken earlier
            sub, e = attempt(it, lambda: it.getitem(h, slice(k, l)))
            if e is not None:
                raise core.PathAbort()
            ctx.ghost["conversions"] = []
            if ctx.choose(2):  # published elsewhere since
                p.f["data"] = npm.fresh_arr(ctx, "data_later", "f", p.f["data"].length)
                later = ctx.int("version_later")
                ctx.assume(later > num(p.f["version"]))
                p.f["version"] = later
        before, pb, ob, qb = [snap(it, z) for z in (w, p, o, q)]
        rest = [("another view", o, ob), ("another parameter", q, qb)]
        ctx.cover(kind)

        def go():
            if kind == "element":
                it.setitem(h, k, x)
            elif kind == "slice":
                it.setitem(h, slice(k, l), x)
            elif kind == "element of a slice":
                it.setitem(sub, 0, x)
            elif kind == "out of a slice":
                y2 = y.getitem(it, slice(k, l))
                return it.call(it.getattr(sub, "__array_ufunc__"), [uf, "__call__", y2, y2], {"out": (sub,)})
            else:
                return it.call(it.getattr(h, "__array_ufunc__"), [uf, "__call__", h, y], {"out": (h,)})

        r, e = attempt(it, go)
        if e is not None:
            refused(it, ctx, e, w, before, p, pb, rest, n)
            return
        frame(it, ctx, kind, rest)
        base = base_then(it, ctx, w, u, tp, t, p, pu, ptp, before, pb, kind)
        if base is None:
            return
        if kind == "element" or kind == "element of a slice":
            want = npm.NArr("f", n, lambda i: core.ite(num(i) == k, x, base.at(i)))
        elif kind == "slice":
            want = npm.NArr("f", n, lambda i: core.ite(z3.And(num(i) >= k, num(i) < l), x, base.at(i)))
        elif kind == "out of a slice":
            want = npm.NArr("f", n, lambda i: core.ite(z3.And(num(i) >= k, num(i) < l), uf.fn(real(y.at(i)), real(y.at(i))), base.at(i)))
            ctx.oblige("out of a slice: returns the values written to", z3.BoolVal(r is sub))
        else:
            want = npm.NArr("f", n, lambda i: uf.fn(real(base.at(i)), real(y.at(i))))
            ctx.oblige("out: returns the values written to", z3.BoolVal(r is h))
        locked = ctx.branch(sbool(before["_locked"]))
        after_write(it, ctx, kind, w, u, tp, n, t, p, pu, ptp, pb, want, locked)
        ctx.oblige(kind + ": values obtained earlier show what was written", same_arr(ctx, h.f["_ndarray"], want))
        if not locked:
            other_reads(it, ctx, kind, o, ou, otp, t, p, pu, ptp)

    @v.unit("numpy functions without out", functions=[TS + ".__array_ufunc__"], covers=["value"], max_paths=2000)
    def ufunc(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx)
        w, u, tp, n, used = view(it, ctx, p, t, "w", used=1)
        o, ou, otp, on, oused = view(it, ctx, p, t, "o", used=1)
        before, pb, ob = [snap(it, z) for z in (w, p, o)]
        uf = UFunc()
        y = npm.fresh_arr(ctx, "y", "f", n)
        h = w.f["_timeseries"]
        args = [[h, y], [y, h]][ctx.choose(2)]
        r, e = attempt(it, lambda: it.call(it.getattr(h, "__array_ufunc__"), [uf, "__call__"] + args, {}))
        if e is not None:
            ctx.fail("possible", exc_name(e))
            return
        ctx.cover("value")
        frame(it, ctx, "ufunc", [("the parameter", p, pb), ("another view", o, ob)])
        base = base_then(it, ctx, w, u, tp, t, p, pu, ptp, before, pb, "ufunc")
        if base is None:
            return
        i = ctx.int("i!uf")
        a, b = [(base.at(i) if z is h else y.at(i)) for z in args]
        ctx.oblige("ufunc: elementwise of the up-to-date values", z3.And(num(r.length) == n, z3.Implies(z3.And(i >= 0, i < n), real(r.at(i)) == uf.fn(real(a), real(b)))))
        it.setitem(r, 0, ctx.real("later"))
        ctx.oblige("ufunc: the result is a new array", same_arr(ctx, w.f["_data"], base))
        invariant(it, ctx, "ufunc", w, p, n)

    # ------------------------------------------------------------ locking

    @v.unit("locking and unlocking", functions=[TV + ".lock", TV + ".unlock", TV + "._write"], covers=["lock", "unlock", "publish"], max_paths=2000)
    def locking(it, ctx):
        t, [(p, pu, ptp), (q, qu, qtp)] = state(it, ctx)
        w, u, tp, n, used = view(it, ctx, p, t, "w")
        o, ou, otp, on, oused = view(it, ctx, p, t, "o", used=1)
        if o.f["_pending"] is True:
            raise core.PathAbort()
        before, pb, ob, qb = [snap(it, z) for z in (w, p, o, q)]
        rest = [("another view", o, ob), ("another parameter", q, qb)]
        what = ["lock", "unlock"][ctx.choose(2)]
        _, e = attempt(it, lambda: it.call(it.getattr(w, what), [], {}))
        if e is not None:
            ctx.fail(what + " is possible", exc_name(e))
            return
        ctx.cover(what)
        frame(it, ctx, what, rest)
        ctx.oblige(what + ": locked afterwards", sbool(w.f["_locked"]) == z3.BoolVal(what == "lock"))
        if what == "unlock" and before["_pending"] is True:
            ctx.cover("publish")
            published(it, ctx, what, w, u, tp, t, p, pu, ptp, pb, before["_data"][1])
            ctx.oblige("unlock: the view keeps its values", same_arr(ctx, w.f["_data"], before["_data"][1]))
            other_reads(it, ctx, what, o, ou, otp, t, p, pu, ptp)
        else:
            frame(it, ctx, what, [("the parameter", p, pb)])
            ctx.oblige(what + ": values, version and pending as before", kept(it, ctx, w, before, ("_locked",)))
        invariant(it, ctx, what, w, p, n)
