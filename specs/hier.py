"""
The hierarchy of regions and parameters: heap, ghost state, representation invariant and the
contracts of the functions that find or create regions and parameters (C01, C02).

Ghost state, given to every object when it is linked into the hierarchy:
  LEN(p), AT(p, i)   its hierarchical name (AT(p, 0) first)
  REGION(p)          its region
  PARENT(p), NAME(p) its parent (0: none) and last part of the name
  ANC(p, k)          its ancestor at depth k (ANC(p, LEN(p)) is p itself)
  DIFF(p, q)         for different parameters of a region with names of equal length: where these differ
and the same for regions (R...).  The invariant links them to the fields of the objects.
"""
import z3

from pyvc import core
from pyvc.core import I, PathAbort, PyExc, PyList, SRef, SStr, SymList, Str, Unsupported, num, sbool, sstr
from pyvc.speclib import FnContract, attempt, exc_name

PQ = "openscm.core.parameters:_Parameter"
RQ = "openscm.core.regions:_Region"
SQ = "openscm.core.parameterset:ParameterSet"
F = z3.Function


class Ghost:
    def __init__(self, pre):
        self.LEN = F(pre + "LEN", I, I)
        self.AT = F(pre + "AT", I, I, Str)
        self.PARENT = F(pre + "PARENT", I, I)
        self.NAME = F(pre + "NAME", I, Str)
        self.ANC = F(pre + "ANC", I, I, I)
        self.DIFF = F(pre + "DIFF", I, I, I)


P, R = Ghost("P"), Ghost("R")
REGION = F("REGION", I, I)
ROOT = z3.Int("root region")
POS = F("POS", I, I)  # position of a parameter among the children of its parent

FIELDS = {
    "_Parameter": dict(
        children="dict:_Parameter", has_been_read_from="bool", has_been_written_to="bool", name="str",
        parameter_type="enum:openscm.core.parameters:ParameterType", parent="oref:_Parameter",
        region="ref:_Region", unit="ostr", version="int", data="any", time_points="any",
    ),
    "_Region": dict(
        _children="dict:_Region", _has_been_aggregated="bool", _name="str", _parameters="dict:_Parameter",
        _parent="oref:_Region",
    ),
}


def install(it):
    for c, f in FIELDS.items():
        it.schema.add(c, **f)
    it.ref_classes["_Parameter"] = it.cls(PQ)
    it.ref_classes["_Region"] = it.cls(RQ)


class Heap:
    """The heap at one moment."""

    def __init__(self, ctx):
        self.h, self.next = dict(ctx.heap), dict(ctx.next)

    def f(self, field, p):
        c = "_Region" if field.startswith("_") else "_Parameter"
        return z3.Select(self.h[c + "." + field], p)

    def m(self, field, p, s):
        c = "_Region" if field.startswith("_") else "_Parameter"
        return z3.Select(z3.Select(self.h[c + "." + field + "#map"], p), s)

    def cnt(self, field, p):
        c = "_Region" if field.startswith("_") else "_Parameter"
        return z3.Select(self.h[c + "." + field + "#cnt"], p)

    def key(self, field, p, i):
        c = "_Region" if field.startswith("_") else "_Parameter"
        return z3.Select(z3.Select(self.h[c + "." + field + "#key"], p), i)

    def p_ok(self, p):
        return z3.And(p >= 1, p < self.next["_Parameter"])

    def r_ok(self, r):
        return z3.And(r >= 1, r < self.next["_Region"])


p, q, r, k, i, s = z3.Int("p?"), z3.Int("q?"), z3.Int("r?"), z3.Int("k?"), z3.Int("i?"), z3.Const("s?", Str)


def has_ite(e):
    return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in e.children()))


def fa(vs, body, *pats):
    """Universal statement (patterns only guide the solver; those z3 cannot use are left out)."""
    pats = [x for x in pats if isinstance(x, z3.PatternRef) or not has_ite(x)]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


MP = z3.MultiPattern


def tree_inv(h, G, ok, name, parent, children, bound):
    """Names, parents and children of parameters or regions fit together."""
    N = G.NAME
    PA = G.PARENT(p)
    return [
        ("names stay", fa([p], z3.Implies(ok(p), z3.And(h.f(name, p) == N(p), G.LEN(p) >= 1, G.AT(p, G.LEN(p) - 1) == N(p))),
            G.LEN(p), h.f(name, p), N(p))),
        ("parents stay", fa([p], z3.Implies(ok(p), z3.And(
            h.f(parent, p) == PA, PA >= 0, PA < p, (PA == 0) == (G.LEN(p) == 1))), PA, h.f(parent, p))),
        ("names of parents", fa([p], z3.Implies(z3.And(ok(p), PA != 0), z3.And(
            ok(PA), G.LEN(p) == G.LEN(PA) + 1, h.m(children, PA, N(p)) == p)), PA)),
        ("names extend names of parents", fa([p, i], z3.Implies(z3.And(ok(p), i >= 0, i < G.LEN(p) - 1),
            G.AT(p, i) == G.AT(PA, i)), MP(G.AT(p, i), PA))),
        ("children belong to their parent", fa([p, s], z3.Implies(z3.And(ok(p), h.m(children, p, s) != 0), z3.And(
            ok(h.m(children, p, s)), G.PARENT(h.m(children, p, s)) == p, N(h.m(children, p, s)) == s)),
            h.m(children, p, s))),
        ("numbers of children", fa([p], z3.Implies(ok(p), z3.And(
            h.cnt(children, p) >= 0, z3.Implies(h.cnt(children, p) > 0, h.m(children, p, h.key(children, p, 0)) != 0))),
            h.cnt(children, p))),
        ("no children without number", fa([p, s], z3.Implies(z3.And(ok(p), h.m(children, p, s) != 0), h.cnt(children, p) > 0),
            h.m(children, p, s))),
        ("ancestors", fa([p, k], z3.Implies(z3.And(ok(p), k >= 1, k <= G.LEN(p)), z3.And(
            ok(G.ANC(p, k)), G.ANC(p, k) <= p, G.LEN(G.ANC(p, k)) == k)), G.ANC(p, k))),
        ("parents of ancestors", fa([p, k], z3.Implies(z3.And(ok(p), k > 1, k <= G.LEN(p)),
            G.PARENT(G.ANC(p, k)) == G.ANC(p, k - 1)), MP(G.ANC(p, k), G.PARENT(G.ANC(p, k))))),
        ("the last ancestor is the object itself", fa([p], z3.Implies(ok(p), G.ANC(p, G.LEN(p)) == p), G.LEN(p))),
        ("names of ancestors", fa([p, k, i], z3.Implies(z3.And(ok(p), k >= 1, k <= G.LEN(p), i >= 0, i < k),
            G.AT(G.ANC(p, k), i) == G.AT(p, i)), G.AT(G.ANC(p, k), i), MP(G.ANC(p, k), G.AT(p, i)))),
    ]


HINT = F("hint", I, z3.BoolSort())  # true; puts a term before the solver
HINTS = z3.ForAll([p], HINT(p), patterns=[HINT(p)])


def differ(G, a, b):
    return z3.And(G.DIFF(a, b) >= 0, G.DIFF(a, b) < G.LEN(a), G.AT(a, G.DIFF(a, b)) != G.AT(b, G.DIFF(a, b)))


def inv(h, goal=False):
    """Representation invariant of the hierarchy."""
    see = lambda G: [HINT(G.PARENT(p)), HINT(G.PARENT(q))] if goal else []
    out = [(n + " (parameters)", f) for n, f in tree_inv(h, P, h.p_ok, "name", "parent", "children", None)]
    out += [(n + " (regions)", f) for n, f in tree_inv(h, R, h.r_ok, "_name", "_parent", "_children", None)]
    out += [
        ("regions of parameters stay", fa([p], z3.Implies(h.p_ok(p), z3.And(
            h.f("region", p) == REGION(p), h.r_ok(REGION(p)))), REGION(p), h.f("region", p))),
        ("regions of parents", fa([p], z3.Implies(h.p_ok(p), z3.And(
            z3.Implies(P.PARENT(p) != 0, REGION(P.PARENT(p)) == REGION(p)),
            z3.Implies(P.PARENT(p) == 0, h.m("_parameters", REGION(p), P.NAME(p)) == p))), P.PARENT(p))),
        ("regions of ancestors", fa([p, k], z3.Implies(z3.And(h.p_ok(p), k >= 1, k <= P.LEN(p)), REGION(P.ANC(p, k)) == REGION(p)), P.ANC(p, k))),
        ("parameters of regions", fa([r, s], z3.Implies(z3.And(h.r_ok(r), h.m("_parameters", r, s) != 0), z3.And(
            h.p_ok(h.m("_parameters", r, s)), P.PARENT(h.m("_parameters", r, s)) == 0,
            REGION(h.m("_parameters", r, s)) == r, P.NAME(h.m("_parameters", r, s)) == s)), h.m("_parameters", r, s))),
        ("different parameters have different names", fa([p, q], z3.Implies(z3.And(
            h.p_ok(p), h.p_ok(q), p != q, REGION(p) == REGION(q), P.LEN(p) == P.LEN(q), *see(P)), differ(P, p, q)), MP(P.LEN(p), P.LEN(q)))),
        ("different regions have different names", fa([p, q], z3.Implies(z3.And(
            h.r_ok(p), h.r_ok(q), p != q, R.LEN(p) == R.LEN(q), *see(R)), differ(R, p, q)), MP(R.LEN(p), R.LEN(q)))),
        ("one root region", z3.And(h.r_ok(ROOT), R.PARENT(ROOT) == 0)),
        ("all other regions are below it", fa([r], z3.Implies(z3.And(h.r_ok(r), R.PARENT(r) == 0), r == ROOT), R.PARENT(r))),
        ("only parameters without children are written", fa([p], z3.Implies(z3.And(
            h.p_ok(p), h.f("has_been_written_to", p)), h.cnt("children", p) == 0), h.f("has_been_written_to", p))),
        # C04
        ("children at each position", fa([p, i], z3.Implies(z3.And(h.p_ok(p), i >= 0, i < h.cnt("children", p)), z3.And(
            h.m("children", p, h.key("children", p, i)) != 0, POS(h.m("children", p, h.key("children", p, i))) == i)),
            h.key("children", p, i))),
        ("every child has a position", fa([p], z3.Implies(z3.And(h.p_ok(p), P.PARENT(p) != 0), z3.And(
            POS(p) >= 0, POS(p) < h.cnt("children", P.PARENT(p)), h.key("children", P.PARENT(p), POS(p)) == P.NAME(p))), POS(p))),
        # C02
        ("no parameter above another is written", fa([p, k], z3.Implies(z3.And(
            h.p_ok(p), k >= 1, k < P.LEN(p), HINT(P.PARENT(P.ANC(p, k + 1)))), z3.Not(h.f("has_been_written_to", P.ANC(p, k)))), MP(P.ANC(p, k), h.f("has_been_written_to", P.ANC(p, k))))),
        ("read or written parameters have a type", fa([p], z3.Implies(z3.And(
            h.p_ok(p), z3.Or(h.f("has_been_written_to", p), h.f("has_been_read_from", p))), h.f("parameter_type", p) != 0),
            h.f("parameter_type", p))),
    ]
    return out


def start(it, ctx):
    """An arbitrary hierarchy (after any history)."""
    install(it)
    it.heap_init(ctx)
    h = Heap(ctx)
    for _, f in inv(h):
        ctx.assume(f, heavy=True)
    ctx.assume(HINTS)
    return h


# ---------------------------------------------------------------- linking new objects


def link(ctx, G, new, parent, name, nxt, region=None):
    """Ghost state of a new object (number `new`) below parent (0: none)."""
    facts = [
        G.PARENT(new) == parent, G.NAME(new) == name,
        G.LEN(new) == z3.If(parent == 0, 1, G.LEN(parent) + 1),
        G.AT(new, G.LEN(new) - 1) == name,
        fa([i], z3.Implies(z3.And(i >= 0, i < G.LEN(new) - 1), G.AT(new, i) == G.AT(parent, i)), G.AT(new, i)),
        G.ANC(new, G.LEN(new)) == new,
        fa([k], z3.Implies(z3.And(k >= 1, k < G.LEN(new)), G.ANC(new, k) == G.ANC(parent, k)), G.ANC(new, k)),
    ]
    for a, b in ((new, p), (p, new)):
        facts.append(fa([p], z3.Implies(z3.And(p >= 1, p < new), G.DIFF(a, b) == z3.If(
            z3.And(parent != 0, G.PARENT(p) != parent), G.DIFF(*( (parent, G.PARENT(p)) if a is new else (G.PARENT(p), parent))),
            G.LEN(new) - 1)), G.DIFF(a, b)))
    if region is not None:
        facts.append(REGION(new) == region)
    for f in facts:
        ctx.assume(f)


def link_new(ctx, h0):
    """Gives ghost state to what has been created since h0 (at most one object per kind)."""
    h1 = Heap(ctx)
    made = {"_Parameter": 0, "_Region": 0}
    for _, c, e in [x for x in ctx.log if x[0] == "new"]:
        made[c] += 1
        if made[c] > 1:
            raise Unsupported("several objects created at once")
        if c == "_Parameter":
            link(ctx, P, e, h1.f("parent", e), h1.f("name", e), e, h1.f("region", e))
            ctx.assume(z3.Implies(h1.f("parent", e) != 0, POS(e) == h0.cnt("children", h1.f("parent", e))))
        else:
            link(ctx, R, e, h1.f("_parent", e), h1.f("_name", e), e)
    ctx.log[:] = [x for x in ctx.log if x[0] != "new"]
    return h1


# ---------------------------------------------------------------- relations between heaps

KEPT = ("has_been_read_from", "has_been_written_to", "parameter_type", "unit", "version", "data", "time_points")


def unchanged(h0, h1, but=()):
    """No object created, no field of any object changed."""
    cs = [h1.next[c] == h0.next[c] for c in h0.next]
    for a in h0.h:
        if not any(a == x for x in but):
            cs.append(h1.h[a] == h0.h[a])
    return z3.And(cs)


def state_kept(h0, h1):
    """Existing parameters and regions keep their type, unit, data, version and flags; entries stay."""
    return [
        *[("existing parameters keep " + x, fa([p], z3.Implies(h0.p_ok(p), h1.f(x, p) == h0.f(x, p)), h1.f(x, p), h0.f(x, p))) for x in KEPT],
        ("existing regions keep their state", fa([r], z3.Implies(h0.r_ok(r), h1.f("_has_been_aggregated", r) == h0.f("_has_been_aggregated", r)), h1.f("_has_been_aggregated", r), h0.f("_has_been_aggregated", r))),
        ("nothing disappears", z3.And(h1.next["_Parameter"] >= h0.next["_Parameter"], h1.next["_Region"] >= h0.next["_Region"])),
    ]


def same_arrays(h0, h1, prefix, but="!"):
    return z3.And([h1.h[y] == h0.h[y] for y in h0.h if y.startswith(prefix) and but not in y])


def fresh_regions(h0, h1):
    return ("new regions have not been aggregated", fa([r], z3.Implies(
        z3.And(r >= h0.next["_Region"], r < h1.next["_Region"]), z3.Not(h1.f("_has_been_aggregated", r))), h1.f("_has_been_aggregated", r)))


def fresh_params(h0, h1):
    """What is known of parameters created between h0 and h1."""
    new = lambda x: z3.And(x >= h0.next["_Parameter"], x < h1.next["_Parameter"])
    return new, [
        *[("new parameters are blank: " + x, fa([p], z3.Implies(new(p), g(h1.f(x, p))), h1.f(x, p))) for x, g in (
            ("has_been_read_from", z3.Not), ("has_been_written_to", z3.Not), ("parameter_type", lambda y: y == 0),
            ("version", lambda y: y == 0), ("unit", lambda y: y == core.NONE_STR))],
        ("no parameter above a new one has been viewed or written", fa([p, k], z3.Implies(z3.And(new(p), k >= 1, k < P.LEN(p)), z3.And(
            z3.Not(h1.f("has_been_read_from", P.ANC(p, k))), z3.Not(h1.f("has_been_written_to", P.ANC(p, k))))), P.ANC(p, k))),
    ]


def parts(it, name):
    """(length, element function of sort Str) of a hierarchical name."""
    from pyvc.builtins import split_symbolic

    if isinstance(name, (str, SStr)):
        name = split_symbolic(it, name if isinstance(name, SStr) else SStr(sstr(name)), "|") if isinstance(name, SStr) else tuple(name.split("|"))
    if isinstance(name, tuple):
        name = core.list_of(name)
    if isinstance(name, PyList):
        name = name.value()
    if not isinstance(name, SymList):
        raise Unsupported("hierarchical name %r" % (name,))
    g = name.get
    n = num(name.length)
    z = z3.simplify(n)
    if z3.is_int_value(z) and z.as_long() == 0:
        return z, lambda j: core.EMPTY_STR
    return n, lambda j: sstr(g(j))


def named(G, x, off, n, a):
    """The name of x from position off on consists of the n parts a."""
    return z3.And(
        G.LEN(x) == off + n,
        fa([i], z3.Implies(z3.And(i >= off, i < off + n), G.AT(x, i) == a(i - off)), G.AT(x, i)),
    )


def not_named(G, x, off, n, a, w):
    """The name of x differs from the parts a between off and off + n (at w)."""
    return z3.And(w >= off, w < off + n, G.AT(x, w) != a(w - off))


# ---------------------------------------------------------------- contracts

ERRORS = ["openscm.errors:ParameterReadError", "openscm.errors:ParameterWrittenError"]


class Contract(FnContract):
    """
    pre(it, h0, args) -> [(name, formula)];
    outcomes: list of (exception name or None, post(it, h0, h1, args, result) -> [(name, formula)]);
    modifies: whether anything on the heap may change.
    """

    def __init__(self, qual, result, pre, normal, raises=(), modifies=True):
        self.qual, self.result, self.pre, self.normal, self.raises, self.modifies = qual, result, pre, normal, dict(raises), modifies

    # use
    def invoke_func(self, it, f, args, kw):
        ctx = it.ctx
        a = it.bind_args(f, args, kw)
        h0 = Heap(ctx)
        for n, g in self.pre(it, h0, a):
            ctx.oblige("precondition of %s: %s" % (self.qual.split(".")[-1], n), g)
        if it.store_recorder is not None:
            raise Unsupported("contract call in a summarised loop")
        c = ctx.choose(1 + len(self.raises))
        if c > 0:
            name, post = list(self.raises.items())[c - 1]
            for _, g in post(it, h0, h0, a, None):
                ctx.assume(g)
            if not ctx.feasible():
                raise PathAbort()
            it.throw(name if ":" not in name else it.cls(name))
        if self.modifies:
            for cls, fields in it.schema.cls.items():
                for fl, kind in fields.items():
                    it.heap_fresh(ctx, cls, fl, kind, str(ctx.int("h")))
                ctx.next[cls] = ctx.int("next_" + cls)
            h1 = Heap(ctx)
            for _, g in inv(h1):
                ctx.assume(g, heavy=True)
        else:
            h1 = h0
        res = SRef(self.result, ctx.int("res"))
        for _, g in self.normal(it, h0, h1, a, res):
            ctx.assume(g)
        return res

    # proof
    def verify(self, it, ctx, f, args):
        """Runs the body once on arbitrary arguments and states all obligations."""
        h0 = Heap(ctx)
        a = dict(args)
        for _, g in self.pre(it, h0, a):
            ctx.assume(g)
        it.verifying, it.verifying_entered = self.qual, False
        res, e = attempt(it, lambda: it.call_func(f, list(a.values()), {}))
        it.verifying = None
        h1 = link_new(ctx, h0)
        if e is not None:
            n = exc_name(e)
            for full, post in self.raises.items():
                if full.split(":")[-1] == n:
                    ctx.cover(n)
                    ctx.oblige("nothing changes when %s is raised" % n, unchanged(h0, h1))
                    for nm, g in post(it, h0, h1, a, None):
                        ctx.oblige(n + ": " + nm, g)
                    return
            ctx.fail("no other exception", n)
            return
        ctx.cover("returns")
        if res is None:
            res = SRef(self.result, z3.IntVal(0))
        if not isinstance(res, SRef) or res.cls != self.result:
            ctx.fail("gives a %s" % self.result, repr(res))
            return
        if self.modifies:
            for nm, g in inv(h1, goal=True):
                ctx.oblige("invariant: " + nm, g)
        else:
            ctx.oblige("nothing changes", unchanged(h0, h1))
        for nm, g in self.normal(it, h0, h1, a, res):
            ctx.oblige(nm, g)


def nothing(it, h0, h1, a, res):
    return []


def pre_param(it, h0, a):
    return [("an existing parameter", h0.p_ok(a["self"].e))]


def pre_region(it, h0, a):
    return [("an existing region", h0.r_ok(a["self"].e))]


def same_or_new(h0, h1, addressed):
    """If what is addressed exists, nothing is created or changed."""
    return ("nothing changes if it exists", z3.Implies(addressed, unchanged(h0, h1)))


def child_post(it, h0, h1, a, res):
    x, c, nm = a["self"].e, res.e, sstr(a["name"])
    n0 = h0.next["_Parameter"]
    old = h0.m("children", x, nm)
    new, blank = fresh_params(h0, h1)
    return state_kept(h0, h1) + blank + [
        ("an existing parameter", h1.p_ok(c)),
        ("child of this parameter", P.PARENT(c) == x),
        ("of that name", P.NAME(c) == nm),
        ("in the same region", REGION(c) == REGION(x)),
        ("the one there is", z3.Implies(old != 0, z3.And(c == old, unchanged(h0, h1)))),
        ("else exactly one new parameter", z3.Implies(old == 0, z3.And(c == n0, h1.next["_Parameter"] == n0 + 1))),
        ("a new one is below unread parameters only", z3.Implies(old == 0, z3.And(
            z3.Not(h0.f("has_been_written_to", x)),
            fa([k], z3.Implies(z3.And(k >= 1, k <= P.LEN(x)), z3.Not(h0.f("has_been_read_from", P.ANC(x, k)))), P.ANC(x, k))))),
        ("no region changes", z3.And([h1.h[y] == h0.h[y] for y in h0.h if y.startswith("_Region")] + [h1.next["_Region"] == h0.next["_Region"]])),
    ]


def child_read_error(it, h0, h1, a, res):
    x, nm = a["self"].e, sstr(a["name"])
    w = z3.Int("viewed ancestor")
    return [
        ("only if it would have to be created", h0.m("children", x, nm) == 0),
        ("only if a parameter above has been viewed", z3.Exists([w], z3.And(
            w >= 1, w <= P.LEN(x), h0.f("has_been_read_from", P.ANC(x, w))))),
    ]


def child_written_error(it, h0, h1, a, res):
    x, nm = a["self"].e, sstr(a["name"])
    return [
        ("only if it would have to be created", h0.m("children", x, nm) == 0),
        ("only if the parameter has been written", h0.f("has_been_written_to", x)),
    ]


CHILD = Contract(PQ + ".get_or_create_child_parameter", "_Parameter", pre_param, child_post,
                 {ERRORS[0]: child_read_error, ERRORS[1]: child_written_error})


def root_post(it, h0, h1, a, res):
    x, c, nm = a["self"].e, res.e, sstr(a["name"])
    n0 = h0.next["_Parameter"]
    old = h0.m("_parameters", x, nm)
    new, blank = fresh_params(h0, h1)
    return state_kept(h0, h1) + blank + [
        ("an existing parameter", h1.p_ok(c)),
        ("a root parameter", P.PARENT(c) == 0),
        ("of that name", P.NAME(c) == nm),
        ("of this region", REGION(c) == x),
        ("the one there is", z3.Implies(old != 0, z3.And(c == old, unchanged(h0, h1)))),
        ("else exactly one new parameter", z3.Implies(old == 0, z3.And(c == n0, h1.next["_Parameter"] == n0 + 1))),
        ("no region is created", h1.next["_Region"] == h0.next["_Region"]),
        ("region names stay", same_arrays(h0, h1, "_Region.", "_parameters")),
    ]


ROOT_PARAMETER = Contract(RQ + ".get_or_create_parameter", "_Parameter", pre_region, root_post)


def subregion_post(it, h0, h1, a, res):
    x, c, nm = a["self"].e, res.e, sstr(a["name"])
    n0 = h0.next["_Region"]
    old = h0.m("_children", x, nm)
    return state_kept(h0, h1) + [
        ("an existing region", h1.r_ok(c)),
        ("child of this region", R.PARENT(c) == x),
        ("of that name", R.NAME(c) == nm),
        ("the one there is", z3.Implies(old != 0, z3.And(c == old, unchanged(h0, h1)))),
        ("else exactly one new region", z3.Implies(old == 0, z3.And(c == n0, h1.next["_Region"] == n0 + 1))),
        ("no parameter is created", h1.next["_Parameter"] == h0.next["_Parameter"]),
        ("no parameter changes", same_arrays(h0, h1, "_Parameter.")),
        fresh_regions(h0, h1),
    ]


def aggregated_error(it, h0, h1, a, res):
    return [("only if the region has been aggregated", h0.f("_has_been_aggregated", a["self"].e))]


SUBREGION = Contract(RQ + ".get_or_create_subregion", "_Region", pre_region, subregion_post,
                     {"openscm.errors:RegionAggregatedError": aggregated_error})


def goc_param_pre(it, h0, a):
    return [("an existing region", h0.r_ok(a["region"].e))]


def goc_param_post(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    c, rg = res.e, a["region"].e
    new, blank = fresh_params(h0, h1)
    created = h1.next["_Parameter"] > h0.next["_Parameter"]
    return state_kept(h0, h1) + blank + [
        ("an existing parameter", h1.p_ok(c)),
        ("in that region", REGION(c) == rg),
        ("of that name", named(P, c, z3.IntVal(0), n, el)),
        ("nothing changes if it exists", z3.Implies(h0.p_ok(c), unchanged(h0, h1))),
        ("it exists if nothing is created", z3.Implies(z3.Not(created), unchanged(h0, h1))),
        ("only parameters above are created with it", fa([p], z3.Implies(new(p), z3.And(
            P.LEN(p) <= n, P.ANC(c, P.LEN(p)) == p)), P.LEN(p))),
        ("no region is created", h1.next["_Region"] == h0.next["_Region"]),
        ("region names stay", same_arrays(h0, h1, "_Region.", "_parameters")),
    ]


def goc_param_read(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    w, v = z3.Int("viewed parameter"), z3.Int("position")
    return [("only if a parameter above has been viewed", z3.Exists([w], z3.And(
        h0.p_ok(w), REGION(w) == a["region"].e, P.LEN(w) < n, h0.f("has_been_read_from", w),
        z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < P.LEN(w)), P.AT(w, v) == el(v))))))]


def goc_param_written(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    w, v = z3.Int("written parameter"), z3.Int("position")
    return [("only if a parameter above has been written", z3.Exists([w], z3.And(
        h0.p_ok(w), REGION(w) == a["region"].e, P.LEN(w) < n, h0.f("has_been_written_to", w),
        z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < P.LEN(w)), P.AT(w, v) == el(v))))))]


def empty_name(it, h0, h1, a, res):
    return [("only without a name", parts(it, a["name"])[0] == 0)]


GOC_PARAMETER = Contract(SQ + "._get_or_create_parameter", "_Parameter", goc_param_pre, goc_param_post,
                         {ERRORS[0]: goc_param_read, ERRORS[1]: goc_param_written, "ValueError": empty_name})


def goc_region_pre(it, h0, a):
    return [("the root region of this set", it.getattr(a["self"], "_root").e == ROOT)]


def goc_region_post(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    return state_kept(h0, h1) + [
        ("an existing region", h1.r_ok(res.e)),
        ("of that name", named(R, res.e, z3.IntVal(0), n, el)),
        ("no parameter is created", h1.next["_Parameter"] == h0.next["_Parameter"]),
        ("nothing changes if it exists", z3.Implies(h0.r_ok(res.e), unchanged(h0, h1))),
        ("no parameter changes", same_arrays(h0, h1, "_Parameter.")),
        fresh_regions(h0, h1),
        ("it exists if nothing is created", z3.Implies(h1.next["_Region"] == h0.next["_Region"], unchanged(h0, h1))),
    ]


def root_error(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    return [("only without a name or with another root", z3.Or(n == 0, z3.And(n >= 1, el(z3.IntVal(0)) != R.NAME(ROOT))))]


def any_aggregated(it, h0, h1, a, res):
    w = z3.Int("aggregated region")
    return [("only if a region has been aggregated", z3.Exists([w], z3.And(h0.r_ok(w), h0.f("_has_been_aggregated", w))))]


GOC_REGION = Contract(SQ + "._get_or_create_region", "_Region", goc_region_pre, goc_region_post,
                      {"ValueError": root_error, "openscm.errors:RegionAggregatedError": any_aggregated})


# lookups


def below(G, ok, x, base, n, el):
    """x is base or below it, with n further parts el of its name."""
    return z3.And(ok(x), G.LEN(x) >= G.LEN(base) + n, G.ANC(x, G.LEN(base)) == base, HINT(G.PARENT(G.ANC(x, G.LEN(base) + 1))),
                  fa([i], z3.Implies(z3.And(i >= G.LEN(base), i < G.LEN(base) + n), G.AT(x, i) == el(i - G.LEN(base))), G.AT(x, i)))


def sub_post(G, ok_name):
    def post(it, h0, h1, a, res):
        n, el = parts(it, a["name"])
        if isinstance(a["name"], SStr):  # "" is this object
            n = z3.If(a["name"].e == core.EMPTY_STR, 0, n)
        x, c = a["self"].e, res.e
        ok = getattr(h0, ok_name)
        return [
            ("gives the object of that name below this one", z3.Implies(c != 0, z3.And(
                ok(c), G.ANC(c, G.LEN(x)) == x, named(G, c, G.LEN(x), n, el),
                REGION(c) == REGION(x) if G is P else z3.BoolVal(True)))),
            ("gives nothing only if neither it nor anything below it exists", z3.Implies(c == 0, fa([q], z3.Not(
                below(G, ok, q, x, n, el)), G.LEN(q)))),
        ]

    return post


SUBPARAMETER = Contract(PQ + ".get_subparameter", "_Parameter", pre_param, sub_post(P, "p_ok"), modifies=False)
FIND_SUBREGION = Contract(RQ + ".get_subregion", "_Region", pre_region, sub_post(R, "r_ok"), modifies=False)


def get_parameter_post(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    x, c = a["self"].e, res.e
    return [
        ("gives the parameter of that name and region", z3.Implies(c != 0, z3.And(
            h0.p_ok(c), REGION(c) == x, named(P, c, z3.IntVal(0), n, el)))),
        ("gives nothing only if neither it nor a parameter below it exists", z3.Implies(c == 0, fa([q], z3.Not(z3.And(
            h0.p_ok(q), REGION(q) == x, P.LEN(q) >= n, HINT(P.PARENT(P.ANC(q, 1))),
            fa([i], z3.Implies(z3.And(i >= 0, i < n), P.AT(q, i) == el(i)), P.AT(q, i)))), P.LEN(q)))),
    ]


def no_name(it, h0, h1, a, res):
    nm = a["name"]
    if isinstance(nm, SStr):
        return [("only without a name", nm.e == core.EMPTY_STR)]
    return empty_name(it, h0, h1, a, res)


GET_PARAMETER = Contract(RQ + ".get_parameter", "_Parameter", pre_region, get_parameter_post, {"ValueError": no_name}, modifies=False)


def get_region_post(it, h0, h1, a, res):
    n, el = parts(it, a["name"])
    c = res.e
    return [
        ("gives the region of that name", z3.Implies(c != 0, z3.And(h0.r_ok(c), named(R, c, z3.IntVal(0), n, el)))),
        ("gives nothing only if neither it nor a region below it exists", z3.Implies(c == 0, fa([q], z3.Not(z3.And(
            h0.r_ok(q), R.LEN(q) >= n, HINT(R.PARENT(R.ANC(q, 1))),
            fa([i], z3.Implies(z3.And(i >= 0, i < n), R.AT(q, i) == el(i)), R.AT(q, i)))), R.LEN(q)))),
    ]


def get_region_pre(it, h0, a):
    return [("the root region of this set", it.getattr(a["self"], "_root").e == ROOT), ("a region name", parts(it, a["name"])[0] >= 1)]


GET_REGION = Contract(SQ + "._get_region", "_Region", get_region_pre, get_region_post, modifies=False)

ALL = [CHILD, ROOT_PARAMETER, SUBREGION, GOC_PARAMETER, GOC_REGION, SUBPARAMETER, FIND_SUBREGION, GET_PARAMETER, GET_REGION]


def use(it, *contracts):
    it.contracts = {c.qual: c for c in contracts}


def func(it, qual):
    mod, rest = qual.split(":")
    c, m = rest.split(".")
    f, _ = it.cls(mod + ":" + c).find(m)
    if f is None:
        raise Unsupported("no " + qual)
    return f


def any_name(ctx, kind):
    """An arbitrary hierarchical name: a sequence of strings or a joined string."""
    if kind == "joined":
        return SStr(ctx.fresh("joined", Str))
    A = ctx.fresh("parts", z3.ArraySort(I, Str))
    n = ctx.int("n_parts")
    ctx.assume(n >= 0)
    return SymList(n, lambda j: SStr(z3.Select(A, num(j))), "tuple")


def any_ref(ctx, cls, nm):
    return SRef(cls, ctx.int(nm))


def new_set(it, ctx):
    """A parameter set with an arbitrary hierarchy."""
    install(it)
    it.heap_init(ctx)
    o = it.instantiate(it.cls(SQ), [], {})
    ctx.log[:] = []
    ctx.pc[:] = []
    if set(o.f) != {"_root"}:
        raise Unsupported("representation of parameter sets: %s" % sorted(o.f))
    o.f["_root"] = SRef("_Region", ROOT)
    h = start(it, ctx)
    return o, h


def units(v, contracts, kinds=("parts",)):
    """One verification unit per contract."""
    for c in contracts:
        covers = ["returns"] + [x.split(":")[-1] for x in c.raises]

        def fn(it, ctx, c=c):
            o, h = new_set(it, ctx)
            # callees by contract (the function itself on smaller arguments, too)
            use(it, *ALL)
            it.inv_gens = [ancestor_invariants]
            f = func(it, c.qual)
            args = {}
            for x in f.node.args.args:
                nm = x.arg
                if nm == "self":
                    args[nm] = o if c.qual.startswith(SQ) else any_ref(ctx, c.qual.split(":")[1].split(".")[0], "self")
                elif nm == "name":
                    multi = c not in (CHILD, ROOT_PARAMETER, SUBREGION)
                    args[nm] = any_name(ctx, ["parts", "joined"][ctx.choose(2)]) if multi else SStr(ctx.fresh("name", Str))
                elif nm == "region":
                    args[nm] = any_ref(ctx, "_Region", "region")
                else:
                    raise Unsupported("argument " + nm)
            c.verify(it, ctx, f, args)

        v.unit(c.qual.split(":")[1], functions=[c.qual], contracts=[], covers=covers, max_paths=200)(fn)


def ancestor_invariants(it, entry, cur, mods):
    """Loops going up the hierarchy."""
    h = None
    out = []
    for nm, x in cur.vars.items():
        e = entry.vars.get(nm)
        if not isinstance(x, SRef) or not (isinstance(e, SRef)) or nm not in mods["vars"]:
            continue
        for base, b in list(entry.vars.items()):
            if not isinstance(b, SRef) or b.cls != x.cls:
                continue
            G = P if x.cls == "_Parameter" else R
            up = z3.And(x.e == G.ANC(b.e, G.LEN(x.e)), G.LEN(x.e) >= 1, G.LEN(x.e) <= G.LEN(b.e), x.e >= 1)
            depth = z3.If(x.e == 0, 0, G.LEN(x.e))
            out.append(("%s is above %s" % (nm, base), z3.Or(x.e == 0, up)))
            out.append(("%s is really above %s" % (nm, base), up))
            if x.cls == "_Parameter":
                hr = cur.heap["_Parameter.has_been_read_from"]
                out.append(("between %s and %s nothing has been viewed" % (nm, base), fa([k], z3.Implies(
                    z3.And(k > depth, k <= G.LEN(b.e)), z3.Not(z3.Select(hr, G.ANC(b.e, k)))), G.ANC(b.e, k))))
            for ln, l in cur.vars.items():
                if not isinstance(l, SymList):
                    continue
                try:
                    el = sstr(l.get(i)) if not (isinstance(l.length, int) and l.length == 0) else None
                except Unsupported:
                    continue
                out.append(("length of %s: %s to %s" % (ln, nm, base), num(l.length) == G.LEN(b.e) - depth))
                if el is not None:
                    out.append(("%s is the reversed end of the name of %s" % (ln, base), fa([i], z3.Implies(
                        z3.And(i >= 0, i < num(l.length)), el == G.AT(b.e, G.LEN(b.e) - 1 - i)))))
                else:
                    out.append(("%s is the reversed end of the name of %s" % (ln, base), z3.BoolVal(True)))
    return out
