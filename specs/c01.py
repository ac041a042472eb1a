"""C01: a hierarchical name and region address exactly one parameter."""
import z3

from pyvc import core
from pyvc.core import Ext, Obj, SRef, SStr, SymList, Unsupported, num, sstr
from pyvc.speclib import FnContract, attempt, exc_name
from specs import hier
from specs.hier import P, R, REGION, ROOT, Heap, named, parts, unchanged

S = "openscm.core.parameterset:ParameterSet"
V = "openscm.core.views:"
INFO = "openscm.core.parameters:ParameterInfo"


class ViewStub(Ext):
    """Contract of a view constructor: a view of the parameter given (proved in C03, C04, C05)."""

    name = "view"

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


def stub_views(it):
    for k in ("ScalarView", "TimeseriesView", "GenericView"):
        c = FnContract(None)

        def invoke(it, args, kw, k=k):
            f, _ = it.cls(V + k).find("__init__")
            return ViewStub(k, list(it.bind_args(f, [None] + list(args), kw).values())[1:])

        c.invoke = invoke
        it.contracts[V + k] = c


def i_fa(n, f):
    i = z3.Int("i?")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i)))


def name_is(it, ctx, what, value, G, x):
    """A tuple of names equals the ghost name of object x."""
    n, el = parts(it, value)
    ctx.oblige(what + ": as many parts", n == G.LEN(x))
    ctx.oblige(what + ": the same parts", i_fa(n, lambda i: el(i) == G.AT(x, i)))


def build(v):
    v.trust("str.split: an uninterpreted function of string and separator (proofs hold for whatever parts a joined name has)")
    v.assume("the hierarchy is only changed through the functions under contract (fields of parameters and regions are not assigned elsewhere; otherwise undecided)")
    v.assume("objects are never removed from the hierarchy")
    hier.units(v, hier.ALL)

    @v.unit("a new parameter set", functions=[S + ".__init__", "openscm.core.regions:_Region.__init__"], covers=["end"])
    def new_set(it, ctx):
        hier.install(it)
        it.heap_init(ctx)
        ctx.assume(z3.And(ctx.next["_Region"] == 1, ctx.next["_Parameter"] == 1))
        nm = SStr(ctx.fresh("root_name", core.Str))
        o, e = attempt(it, lambda: it.instantiate(it.cls(S), [nm], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        h = hier.link_new(ctx, None)
        root = it.getattr(o, "_root")
        ctx.assume(ROOT == root.e)
        for n, f in hier.inv(h):
            ctx.oblige("establishes the invariant: " + n, f)
        ctx.oblige("a region of that name", R.NAME(ROOT) == nm.e)
        ctx.oblige("without parameters", h.next["_Parameter"] == 1)
        ctx.cover("end")

    for cls, G, mod in (("_Parameter", P, "parameters"), ("_Region", R, "regions")):

        @v.unit(cls + ".full_name", functions=["openscm.core.%s:%s.full_name" % (mod, cls)], covers=["end"])
        def full_name(it, ctx, cls=cls, G=G):
            o, h0 = hier.new_set(it, ctx)
            x = hier.any_ref(ctx, cls, "self")
            ctx.assume(h0.p_ok(x.e) if cls == "_Parameter" else h0.r_ok(x.e))
            it.inv_gens = [hier.ancestor_invariants]
            r, e = attempt(it, lambda: it.getattr(x, "full_name"))
            if e is not None:
                ctx.fail("no exception", exc_name(e))
                return
            ctx.cover("end")
            name_is(it, ctx, "the hierarchical name", r, G, x.e)
            ctx.oblige("nothing changes", unchanged(h0, Heap(ctx)))

    def full_name_contract(it):
        """Contract of full_name (proved above)."""
        def c(G):
            return FnContract(lambda it, self, **kw: SymList(G.LEN(self.e), lambda i: SStr(G.AT(self.e, num(i))), "tuple"))

        it.contracts["openscm.core.parameters:_Parameter.full_name"] = c(P)
        it.contracts["openscm.core.regions:_Region.full_name"] = c(R)

    @v.unit("ParameterInfo", functions=[INFO + ".__init__", INFO + ".name", INFO + ".region"], covers=["end"])
    def info_name(it, ctx):
        o, h0 = hier.new_set(it, ctx)
        full_name_contract(it)
        x = hier.any_ref(ctx, "_Parameter", "parameter")
        ctx.assume(h0.p_ok(x.e))
        i = it.instantiate(it.cls(INFO), [x], {})
        name_is(it, ctx, "name of the parameter", it.getattr(i, "name"), P, x.e)
        name_is(it, ctx, "name of its region", it.getattr(i, "region"), R, REGION(x.e))
        for f in ("parameter_type", "unit", "version"):
            a, b = it.getattr(i, f), it.getattr(x, f)
            ctx.oblige(f, core.sbool(it.eq(a, b)) if a is not None else z3.BoolVal(b is None))
        ctx.oblige("empty", core.sbool(it.getattr(i, "empty")) == z3.Not(core.sbool(it.getattr(x, "has_been_written_to"))))
        ctx.oblige("nothing changes", unchanged(h0, Heap(ctx)))
        ctx.cover("end")

    @v.unit("information", functions=[S + ".info"], covers=["found", "nothing"])
    def info(it, ctx):
        o, h0 = hier.new_set(it, ctx)
        hier.use(it, *hier.ALL)
        nm = hier.any_name(ctx, ["parts", "joined"][ctx.choose(2)])
        rg = hier.any_name(ctx, ["parts", "joined"][ctx.choose(2)])
        n, el = parts(it, nm)
        m, rl = parts(it, rg)
        ctx.assume(m >= 1)
        r, e = attempt(it, lambda: it.call(it.getattr(o, "info"), [nm, rg], {}))
        ctx.oblige("nothing changes", unchanged(h0, Heap(ctx)))
        if e is not None:
            none = nm.e == core.EMPTY_STR if isinstance(nm, SStr) else n == 0
            ctx.oblige("ValueError only without a name", z3.And(z3.BoolVal(exc_name(e) == "ValueError"), none))
            return
        q, i = z3.Int("q?"), z3.Int("i?")
        here = lambda x: z3.And(h0.p_ok(x), P.LEN(x) >= n, R.LEN(REGION(x)) == m, i_fa(n, lambda i: P.AT(x, i) == el(i)),
                                i_fa(m, lambda i: R.AT(REGION(x), i) == rl(i)))
        if r is None:
            ctx.cover("nothing")
            ctx.oblige("nothing only if neither it nor a parameter below has been requested", z3.ForAll([q], z3.Not(here(q)), patterns=[P.LEN(q), REGION(q)]))
            return
        ctx.cover("found")
        x = it.getattr(r, "_parameter")
        ctx.oblige("an existing parameter", h0.p_ok(x.e))
        ctx.oblige("of that name", named(P, x.e, z3.IntVal(0), n, el))
        ctx.oblige("in that region", named(R, REGION(x.e), z3.IntVal(0), m, rl))

    requests(v)


def requests(v):
    for kind in ("scalar", "timeseries", "generic"):

        @v.unit("request a %s view" % kind, functions=[S + "." + kind], covers=["view", "refused"], max_paths=600)
        def request(it, ctx, kind=kind):
            o, h0 = hier.new_set(it, ctx)
            hier.use(it, *hier.ALL)
            stub_views(it)
            from pyvc import npm

            nm = hier.any_name(ctx, "parts")
            rg = hier.any_name(ctx, "parts")
            n, el = parts(it, nm)
            m, rl = parts(it, rg)
            unit = SStr(ctx.fresh("unit", core.Str))
            args = {"scalar": [unit], "generic": [], "timeseries": []}[kind]
            kw = {"region": rg}
            want = {"scalar": "SCALAR", "generic": "GENERIC"}.get(kind)
            if kind == "timeseries":
                tt = ["average", "point"][ctx.choose(2)]
                want = {"average": "AVERAGE_TIMESERIES", "point": "POINT_TIMESERIES"}[tt]
                t = npm.fresh_arr(ctx, "time_points", "M", ctx.int("n_times"))
                ctx.assume(num(t.length) >= 2)
                args = [unit, t]
                kw["timeseries_type"] = tt
            w, e = attempt(it, lambda: it.call(it.getattr(o, kind), [nm] + args, kw))
            h1 = Heap(ctx)
            if e is not None:
                ctx.cover("refused")
                ctx.oblige("only documented errors", z3.BoolVal(exc_name(e) in (
                    "ValueError", "ParameterReadError", "ParameterWrittenError", "ParameterTypeError", "ParameterAggregationError", "RegionAggregatedError")))
                for a, f in hier.state_kept(h0, h1):
                    ctx.oblige("refused: " + a, f)
                return
            ctx.cover("view")
            if not isinstance(w, ViewStub):
                ctx.fail("gives a view", repr(w))
                return
            x = w.args[0]
            ctx.oblige("view of an existing parameter", z3.And(h1.p_ok(x.e)))
            ctx.oblige("of the name requested", named(P, x.e, z3.IntVal(0), n, el))
            ctx.oblige("in the region requested", named(R, REGION(x.e), z3.IntVal(0), m, rl))
            code = it.cls("openscm.core.parameters:ParameterType").members[want].code
            ctx.oblige("of the type requested", h1.f("parameter_type", x.e) == code)
            ctx.oblige("the parameter counts as viewed", h1.f("has_been_read_from", x.e))
            ctx.oblige("in the unit requested", sstr(w.args[1]) == unit.e if kind != "generic" else z3.BoolVal(True))
            if kind == "timeseries":
                i, s = ctx.int("i!times"), w.args[2]
                ctx.oblige("at the time points requested", z3.BoolVal(True) if s is t else z3.And(
                    num(s.length) == num(t.length), z3.Implies(z3.And(i >= 0, i < num(t.length)), num(s.at(i).e) == num(t.at(i).e))))
            ctx.oblige("the kind of view requested", z3.BoolVal(w.kind.lower().startswith(kind)))
            p = z3.Int("p?")
            for fl in hier.KEPT:
                ctx.oblige("other parameters keep " + fl, z3.ForAll([p], z3.Implies(z3.And(h0.p_ok(p), p != x.e), h1.f(fl, p) == h0.f(fl, p))))
            for fl in ("has_been_written_to", "version"):
                ctx.oblige("viewing keeps " + fl, z3.Implies(h0.p_ok(x.e), h1.f(fl, x.e) == h0.f(fl, x.e)))
            typed = z3.And(h0.p_ok(x.e), h0.f("parameter_type", x.e) != 0)
            for fl in ("parameter_type", "unit", "data", "time_points"):
                ctx.oblige("viewing keeps " + fl + " once known", z3.Implies(typed, h1.f(fl, x.e) == h0.f(fl, x.e)))
