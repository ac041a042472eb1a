"""C02: viewed parameters keep their type and stay closed; parents are read-only."""
import z3

from pyvc import core, npm, pintm
from pyvc.core import Ext, Obj, SEnum, SRef, SStr, Unsupported, num, sbool, sstr
from pyvc.speclib import KEEP, FnContract, arbitrary, attempt, exc_name
from specs import c01, hier, viewspec
from specs.hier import P, Heap, unchanged

PQ = hier.PQ
V = "openscm.core.views:"
p = z3.Int("p?")


def only_this(ctx, h0, h1, x, but, what):
    """Of all parameters and regions only the given fields of x may differ."""
    for a in h0.h:
        cls, fl = a.split(".")
        if cls == "_Parameter" and fl in but:
            ctx.oblige(what + ": other parameters keep " + fl, z3.ForAll([p], z3.Implies(p != x, h1.h[a][p] == h0.h[a][p])))
        else:
            ctx.oblige(what + ": nothing else changes (%s)" % a, h1.h[a] == h0.h[a])
    ctx.oblige(what + ": no parameter or region is created", z3.And([h1.next[c] == h0.next[c] for c in h0.next]))


def inv_kept(ctx, h1, what):
    for n, f in hier.inv(h1):
        ctx.oblige(what + ": invariant: " + n, f)


def scan_frame(v):
    """Where the hierarchy and the data of parameters are assigned (syntactic frame condition)."""
    import ast
    import os

    fields = set(hier.FIELDS["_Parameter"]) | set(hier.FIELDS["_Region"])
    fields -= {"name"}
    allowed = {
        "core/parameters.py": {"_Parameter.__init__", "_Parameter.get_or_create_child_parameter", "_Parameter.attempt_read", "_Parameter.attempt_write"},
        "core/regions.py": {"_Region.__init__", "_Region.get_or_create_parameter", "_Region.get_or_create_subregion",
                            "_Region.attempt_aggregate"},
        "core/views.py": {"ScalarView.value", "GenericView.value", "TimeseriesView._write"},
    }
    bad = []
    for d, _, fs in os.walk(os.path.join(v.repo, "openscm")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, os.path.join(v.repo, "openscm"))
            tree = ast.parse(open(path).read())

            def targets(t):
                """Attributes assigned, or whose items are assigned."""
                if isinstance(t, (ast.Tuple, ast.List)):
                    return [y for x in t.elts for y in targets(x)]
                while isinstance(t, (ast.Subscript, ast.Starred)):
                    t = t.value
                return [t] if isinstance(t, ast.Attribute) else []

            def walk(n, q):
                for c in ast.iter_child_nodes(n):
                    qq = q + [c.name] if isinstance(c, (ast.ClassDef, ast.FunctionDef)) else q
                    tg = []
                    if isinstance(c, ast.Assign):
                        tg = c.targets
                    elif isinstance(c, (ast.AugAssign, ast.AnnAssign)) and getattr(c, "value", None) is not None:
                        tg = [c.target]
                    elif isinstance(c, ast.Delete):
                        tg = c.targets
                    elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("setattr", "delattr"):
                        o = c.args[0] if c.args else None
                        own = isinstance(o, ast.Attribute) and isinstance(o.value, ast.Name) and o.value.id == "self" and rel.startswith("adapters/")
                        if not own:
                            bad.append((rel, ".".join(qq), "setattr"))
                    elif isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in (
                            "pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__", "__setattr__") \
                            and isinstance(c.func.value, ast.Attribute) and c.func.value.attr in ("children", "_children", "_parameters"):
                        if not (rel in allowed and ".".join(qq) in allowed[rel]):
                            bad.append((rel, ".".join(qq), c.func.attr))
                    for t in tg:
                        for x in targets(t):
                            if x.attr not in fields or rel in allowed and any(".".join(qq).startswith(a) for a in allowed[rel]):
                                continue
                            # an object's own attribute of that name
                            own = isinstance(x.value, ast.Name) and x.value.id == "self" and qq and qq[0] not in ("_Parameter", "_Region")
                            if not own:
                                bad.append((rel, ".".join(qq), x.attr))
                    walk(c, qq)

            walk(tree, [])
    return bad


def build(v):
    v.trust("str.split: an uninterpreted function of string and separator")
    v.trust("pint: contract in pyvc/pintm.py")
    v.assume("hierarchy, type, data, version and flags of parameters are assigned by functions under contract only (checked syntactically on every run; elsewhere: undecided)")
    v.assume("a view is used after it has been requested from a parameter set (its parameter has its type and counts as viewed)")
    hier.units(v, [hier.CHILD, hier.ROOT_PARAMETER, hier.SUBREGION, hier.GOC_PARAMETER, hier.GOC_REGION])
    c01.requests(v)

    @v.unit("parameters are assigned in functions under contract only", covers=["end"])
    def frame(it, ctx):
        bad = scan_frame(v)
        if bad:
            raise Unsupported("assigned elsewhere: %s" % (bad,))
        ctx.oblige("no other assignment", z3.BoolVal(True))
        ctx.cover("end")

    @v.unit("attempt_aggregate", functions=[hier.RQ + ".attempt_aggregate"], covers=["end"])
    def aggregate(it, ctx):
        o, h0 = hier.new_set(it, ctx)
        x = hier.any_ref(ctx, "_Region", "self")
        ctx.assume(h0.r_ok(x.e))
        it.call(it.getattr(x, "attempt_aggregate"), [], {})
        ctx.oblige("no parameter changes, nothing is created", unchanged(h0, Heap(ctx), ("_Region._has_been_aggregated",)))
        ctx.cover("end")

    def any_args(it, ctx):
        o, h0 = hier.new_set(it, ctx)
        x = hier.any_ref(ctx, "_Parameter", "self")
        ctx.assume(h0.p_ok(x.e))
        T = it.cls("openscm.core.parameters:ParameterType")
        names = ["SCALAR", "AVERAGE_TIMESERIES", "POINT_TIMESERIES", "GENERIC"]
        t = T.members[names[ctx.choose(4)]]
        args = [t]
        if t.name != "GENERIC":
            u = SStr(ctx.fresh("unit", core.Str))
            ctx.assume(u.e != core.NONE_STR)
            args.append(u)
        if "TIMESERIES" in t.name:
            tp = npm.fresh_arr(ctx, "time_points", "M", ctx.int("n_times"))
            ctx.assume(num(tp.length) >= 2)
            args.append(tp)
        return h0, x, t, args

    def read_post(ctx, h0, h1, x, t, args, what):
        typed = h0.f("parameter_type", x.e) != 0
        ctx.oblige(what + ": of this type afterwards", h1.f("parameter_type", x.e) == t.code)
        ctx.oblige(what + ": a type once set is kept", z3.Implies(typed, h1.f("parameter_type", x.e) == h0.f("parameter_type", x.e)))
        for fl in ("unit", "data", "time_points"):
            ctx.oblige(what + ": %s is kept once the type is set" % fl, z3.Implies(typed, h1.f(fl, x.e) == h0.f(fl, x.e)))
        if len(args) > 1:
            ctx.oblige(what + ": unit of the first view", z3.Implies(z3.Not(typed), h1.f("unit", x.e) == args[1].e))
        ctx.oblige(what + ": counts as viewed", h1.f("has_been_read_from", x.e))
        ctx.oblige(what + ": same version", h1.f("version", x.e) == h0.f("version", x.e))

    @v.unit("attempt_read", functions=[PQ + ".attempt_read"], covers=["viewed", "ParameterTypeError", "ParameterAggregationError"])
    def read(it, ctx):
        h0, x, t, args = any_args(it, ctx)
        _, e = attempt(it, lambda: it.call(it.getattr(x, "attempt_read"), args, {}))
        h1 = Heap(ctx)
        typed = h0.f("parameter_type", x.e)
        if e is not None:
            n = exc_name(e)
            ctx.cover(n)
            ctx.oblige("nothing changes when refused", unchanged(h0, h1))
            if n == "ParameterTypeError":
                ctx.oblige("ParameterTypeError only for another type", z3.And(typed != 0, typed != t.code))
            elif n == "ParameterAggregationError":
                ctx.oblige("ParameterAggregationError only for generic parents", z3.And(typed == 0, z3.BoolVal(t.name == "GENERIC"), h0.cnt("children", x.e) > 0))
            else:
                ctx.fail("no other exception", n)
            return
        ctx.cover("viewed")
        ctx.oblige("another type is refused", z3.Or(typed == 0, typed == t.code))
        read_post(ctx, h0, h1, x, t, args, "viewed")
        only_this(ctx, h0, h1, x.e, ("parameter_type", "unit", "data", "time_points", "has_been_read_from"), "viewed")
        inv_kept(ctx, h1, "viewed")

    @v.unit("attempt_write", functions=[PQ + ".attempt_write"], covers=["written", "ParameterReadonlyError", "ParameterTypeError"])
    def write(it, ctx):
        h0, x, t, args = any_args(it, ctx)
        _, e = attempt(it, lambda: it.call(it.getattr(x, "attempt_write"), args, {}))
        h1 = Heap(ctx)
        typed = h0.f("parameter_type", x.e)
        if e is not None:
            n = exc_name(e)
            ctx.cover(n)
            ctx.oblige("nothing changes when refused", unchanged(h0, h1))
            if n == "ParameterTypeError":
                ctx.oblige("ParameterTypeError only for another type", z3.And(typed != 0, typed != t.code))
            elif n == "ParameterReadonlyError":
                ctx.oblige("ParameterReadonlyError only for parents", h0.cnt("children", x.e) > 0)
            else:
                ctx.fail("no other exception", n)
            return
        ctx.cover("written")
        ctx.oblige("parents are refused", h0.cnt("children", x.e) == 0)
        ctx.oblige("another type is refused", z3.Or(typed == 0, typed == t.code))
        read_post(ctx, h0, h1, x, t, args, "written")
        ctx.oblige("counts as written", h1.f("has_been_written_to", x.e))
        only_this(ctx, h0, h1, x.e, ("parameter_type", "unit", "data", "time_points", "has_been_read_from", "has_been_written_to"), "written")
        inv_kept(ctx, h1, "written")

    # ------------------------------------------------------------ writing through views

    def viewed(it, ctx, tname):
        """A viewed parameter of a type, anywhere in an arbitrary hierarchy."""
        o, h0 = hier.new_set(it, ctx)
        x = hier.any_ref(ctx, "_Parameter", "parameter")
        t = it.cls("openscm.core.parameters:ParameterType").members[tname]
        ctx.assume(z3.And(h0.p_ok(x.e), h0.f("parameter_type", x.e) == t.code, h0.f("has_been_read_from", x.e)))
        if tname != "GENERIC":
            ctx.assume(h0.f("unit", x.e) != core.NONE_STR)
        return h0, x, t

    def written_once(ctx, h0, x, w):
        """A view only becomes writable by writing."""
        wr = ctx.bool("writable")
        ctx.assume(z3.Implies(wr, h0.f("has_been_written_to", x.e)))
        return wr

    def usable(it, f):
        r, e = attempt(it, f)
        if e is not None:
            raise core.PathAbort()
        return r

    def check_write(it, ctx, h0, x, w, f, once=True):
        """A write through a view: refused for parents; else only this parameter is written."""
        wr0 = w.f["_writable"]
        _, e = attempt(it, f)
        h1 = Heap(ctx)
        parent = h0.cnt("children", x.e) > 0
        if e is not None:
            n = exc_name(e)
            if n == "ParameterReadonlyError":
                ctx.cover("refused")
                ctx.oblige("refused for parents only", parent)
                ctx.oblige("nothing changes when refused", unchanged(h0, h1))
                return None
            if not n in ("InsufficientDataError", "TimeseriesPointsValuesMismatchError", "ParameterEmptyError"):
                ctx.fail("no other exception", n)
                return None
        else:
            ctx.cover("written")
        ctx.oblige("a parent is never written", z3.Or(z3.Not(parent), unchanged(h0, h1)))
        only_this(ctx, h0, h1, x.e, ("data", "version", "has_been_written_to"), "write")
        ctx.oblige("writable only after writing", z3.Implies(sbool(w.f["_writable"]), h1.f("has_been_written_to", x.e)))
        ctx.oblige("data change only with a new version", z3.Implies(h1.f("data", x.e) != h0.f("data", x.e), h1.f("version", x.e) != h0.f("version", x.e)))
        ctx.oblige("versions never decrease", h1.f("version", x.e) >= h0.f("version", x.e))
        if e is None:
            inv_kept(ctx, h1, "write")
        return h1

    @v.unit("scalar write", functions=[V + "ScalarView.value#set"], covers=["written", "refused"])
    def scalar(it, ctx):
        h0, x, t = viewed(it, ctx, "SCALAR")
        parent = ctx.choose(2)
        ctx.assume((h0.cnt("children", x.e) > 0) if parent else (h0.cnt("children", x.e) == 0))
        viewspec.children_views(it)
        w = usable(it, lambda: it.instantiate(it.cls(V + "ScalarView"), [x, SStr(ctx.fresh("unit", core.Str))], {}))
        f = dict(_parameter=KEEP, _unit_converter=KEEP, _writable=written_once(ctx, h0, x, None))
        if parent:
            f["_child_data_views"] = KEEP
        arbitrary(w, **f)
        check_write(it, ctx, h0, x, w, lambda: it.setattr(w, "value", ctx.real("x")))

    @v.unit("generic write", functions=[V + "GenericView.value#set"], covers=["written", "refused"])
    def generic(it, ctx):
        h0, x, t = viewed(it, ctx, "GENERIC")
        w = it.instantiate(it.cls(V + "GenericView"), [x], {})
        arbitrary(w, _parameter=KEEP, _writable=written_once(ctx, h0, x, None))
        check_write(it, ctx, h0, x, w, lambda: it.setattr(w, "value", core.SAny(ctx.fresh("x", core.AnyS))))

    def series(it, ctx):
        tname = ["AVERAGE_TIMESERIES", "POINT_TIMESERIES"][ctx.choose(2)]
        h0, x, t = viewed(it, ctx, tname)
        parent = ctx.choose(2)
        ctx.assume((h0.cnt("children", x.e) > 0) if parent else (h0.cnt("children", x.e) == 0))
        viewspec.converter_contract(it)
        viewspec.children_views(it)
        it.sum_hook = viewspec.sum_hook
        tp = npm.fresh_arr(ctx, "time_points", "M", ctx.int("n_times"))
        ctx.assume(num(tp.length) >= 2)
        u = SStr(ctx.fresh("unit", core.Str))
        w = usable(it, lambda: it.instantiate(it.cls(V + "TimeseriesView"), [
            x, u, tp, t, it.cls("openscm.core.time:InterpolationType").members["LINEAR"], it.cls("openscm.core.time:ExtrapolationType").members["NONE"]], {}))
        n = z3.simplify(num(tp.length) - (1 if "AVERAGE" in tname else 0))
        wr = written_once(ctx, h0, x, None)
        used = ctx.choose(2)
        pend = ctx.bool("pending")
        ctx.assume(z3.Implies(pend, wr))  # pending writes have been writes
        data = npm.fresh_arr(ctx, "data", "f", n) if used else None
        fs = dict(_parameter=KEEP, _unit_converter=KEEP, _timeseries_converter=KEEP, _writable=wr, _locked=ctx.bool("locked"), _pending=pend, _data=data,
                  _timeseries=KEEP)
        if "_version" in w.f:
            fs["_version"] = ctx.int("version")
        if parent:
            fs["_child_data_views"] = KEEP
        arbitrary(w, **fs)
        if used:
            w.f["_version"] = ctx.int("version")
            w.f["_timeseries"] = it.instantiate(it.cls(V + "_Timeseries"), [data, w], {})
        return h0, x, w, n, used

    @v.unit("timeseries write", functions=[V + "TimeseriesView.values#set", V + "TimeseriesView._write", V + "TimeseriesView._check_write"], covers=["written", "refused"])
    def values(it, ctx):
        h0, x, w, n, used = series(it, ctx)
        m = ctx.int("m")
        ctx.assume(m >= 0)
        new = npm.fresh_arr(ctx, "values", "f", m)
        check_write(it, ctx, h0, x, w, lambda: it.setattr(w, "values", new))

    @v.unit("element write", functions=[V + "_Timeseries.__setitem__"], covers=["written", "refused"])
    def element(it, ctx):
        h0, x, w, n, used = series(it, ctx)
        if not used:
            raise core.PathAbort()
        k = ctx.int("k")
        ctx.assume(z3.And(k >= 0, k < n))
        ts = w.f["_timeseries"]
        check_write(it, ctx, h0, x, w, lambda: it.setitem(ts, k, ctx.real("x")))

    @v.unit("unlocking", functions=[V + "TimeseriesView.unlock", V + "TimeseriesView.lock"], covers=["written"])
    def unlock(it, ctx):
        h0, x, w, n, used = series(it, ctx)
        if not used:
            ctx.assume(z3.Not(w.f["_pending"]))
        check_write(it, ctx, h0, x, w, lambda: it.call(it.getattr(w, ["unlock", "lock"][ctx.choose(2)]), [], {}))
