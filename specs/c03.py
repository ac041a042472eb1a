"""C03: scalar and generic views show the last write, in their own unit."""
import z3

from pyvc import core, pintm
from pyvc.core import Ext, Obj, SStr, num, real
from pyvc.pintm import A, Bo, DEF, NOCTX, OK
from pyvc.speclib import KEEP, arbitrary, attempt, exc_name, fields_of, new_parameter, ptype, same_fields, scalar_parameter

V = "openscm.core.views:"
P = "openscm.core.parameters:_Parameter."


class Thing(Ext):
    """Any Python object."""

    name = "object"

    def truth(self, it):
        return it.ctx.branch(it.ctx.bool("truth"))


def view(it, ctx, p, nm):
    """An arbitrary view of a scalar parameter, created by its constructor."""
    u = ctx.fresh("unit_" + nm, core.Str)
    w = it.instantiate(it.cls(V + "ScalarView"), [p, SStr(u)], {})
    wr = ctx.bool("writable_" + nm)
    arbitrary(w, _parameter=KEEP, _unit_converter=KEEP, _writable=wr)
    # a view becomes writable only by writing
    ctx.assume(z3.Implies(wr, core.sbool(it.getattr(p, "has_been_written_to"))))
    return w, u


def build(v):
    v.trust("pint: contract in pyvc/pintm.py")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("a view is created before or after any write and its fields are those of ScalarView/GenericView/_Parameter/UnitConverter (otherwise undecided)")

    def usable(it, ctx, f):
        """Views whose units do not fit are refused by their constructor."""
        r, e = attempt(it, f)
        if e is not None:
            raise core.PathAbort()
        return r

    @v.unit("write through any view, read through any view",
            functions=[V + "ScalarView.value", V + "ScalarView.value#set", P + "attempt_write", P + "attempt_read"],
            contracts=["UnitConverter (C06)"], covers=["written"])
    def write_read(it, ctx):
        p, pu = scalar_parameter(it, ctx)
        q, qu = scalar_parameter(it, ctx, "q", it.getattr(p, "region"))
        w, u = usable(it, ctx, lambda: view(it, ctx, p, "w"))
        r, t = usable(it, ctx, lambda: view(it, ctx, p, "r"))
        o, ou = usable(it, ctx, lambda: view(it, ctx, q, "o"))
        before, qbefore, obefore, rbefore = [fields_of(x) for x in (p, q, o, r)]
        region = fields_of(p.f["region"])
        x = ctx.real("x")
        _, e = attempt(it, lambda: it.setattr(w, "value", x))
        if e is not None:
            ctx.fail("writing is possible", exc_name(e))
            return
        ctx.cover("written")
        ctx.oblige("version increases by one", num(p.f["version"]) == num(before["version"]) + 1)
        ctx.oblige("counts as written", core.sbool(p.f["has_been_written_to"]))
        ctx.oblige("nothing else of the parameter changes", same_fields(it, p, before, ("data", "version", "has_been_written_to", "has_been_read_from")))
        ctx.oblige("no other parameter, view or region changes", z3.And(
            same_fields(it, q, qbefore), same_fields(it, o, obefore), same_fields(it, r, rbefore), same_fields(it, p.f["region"], region)))
        after = fields_of(p)
        y, e = attempt(it, lambda: it.getattr(w, "value"))
        if e is not None:
            ctx.fail("reading back is possible", exc_name(e))
            return
        ctx.oblige("the view that wrote reads what it wrote", real(y) == x)
        z, e = attempt(it, lambda: it.getattr(r, "value"))
        if e is not None:
            ctx.fail("reading through another view is possible", exc_name(e))
            return
        # conversion of x from the unit of the writing into the unit of the reading view
        ctx.assume(pintm.instance(u, t, NOCTX))
        ctx.assume(z3.Implies(OK(u, t, NOCTX), pintm.compose(pu, u, t)))
        ctx.assume(OK(u, t, NOCTX))  # one dimension: symmetric and transitive
        ctx.oblige("any other view reads it converted into its unit", real(z) == A(u, t, NOCTX) * x + Bo(u, t, NOCTX))
        ctx.oblige("reading changes nothing", z3.And(same_fields(it, p, after), same_fields(it, q, qbefore), same_fields(it, r, rbefore)))

    @v.unit("read", functions=[V + "ScalarView.value", "openscm.core.parameters:ParameterInfo.empty"], covers=["empty", "value"])
    def read(it, ctx):
        p, pu = scalar_parameter(it, ctx)
        r, t = usable(it, ctx, lambda: view(it, ctx, p, "r"))
        before, rbefore = fields_of(p), fields_of(r)
        w = core.sbool(p.f["has_been_written_to"])
        z, e = attempt(it, lambda: it.getattr(r, "value"))
        ctx.oblige("reading changes nothing", z3.And(same_fields(it, p, before), same_fields(it, r, rbefore)))
        if e is not None:
            ctx.cover("empty")
            ctx.oblige("only ParameterEmptyError", z3.BoolVal(exc_name(e) == "ParameterEmptyError"))
            ctx.oblige("raises only before the first write", z3.Not(w))
            return
        ctx.cover("value")
        ctx.oblige("gives a value only after the first write", w)
        ctx.oblige("the stored value in the unit of the view", real(z) == A(pu, t, NOCTX) * before["data"] + Bo(pu, t, NOCTX))

    @v.unit("creating a view", functions=[V + "ScalarView.__init__", P + "attempt_read", "openscm.core.parameters:ParameterInfo.__init__"], covers=["made", "refused"])
    def create(it, ctx):
        p, pu = scalar_parameter(it, ctx)
        before = fields_of(p)
        u = ctx.fresh("unit", core.Str)
        it.call(it.getattr(p, "attempt_read"), [ptype(it, "SCALAR"), SStr(u)], {})
        r, e = attempt(it, lambda: it.instantiate(it.cls(V + "ScalarView"), [p, SStr(u)], {}))
        ctx.oblige("stored value, unit, type, version and written state stay", same_fields(it, p, before, ("has_been_read_from",)))
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("only units of another dimension or unknown are refused", z3.Not(z3.And(DEF(u), DEF(pu), OK(pu, u, NOCTX))))
            return
        ctx.cover("made")
        ctx.oblige("unit of the view", it.eq(it.getattr(r, "unit"), SStr(u)))
        ctx.oblige("view of this parameter", z3.BoolVal(it.getattr(r, "_parameter") is p))

    @v.unit("first view of a new parameter", functions=[P + "__init__", P + "attempt_read"], covers=["empty"])
    def first(it, ctx):
        p = new_parameter(it, ctx)
        u = ctx.fresh("unit", core.Str)
        it.call(it.getattr(p, "attempt_read"), [ptype(it, "SCALAR"), SStr(u)], {})
        r = usable(it, ctx, lambda: it.instantiate(it.cls(V + "ScalarView"), [p, SStr(u)], {}))
        _, e = attempt(it, lambda: it.getattr(r, "value"))
        ctx.oblige("reading before the first write raises ParameterEmptyError", z3.BoolVal(e is not None and exc_name(e) == "ParameterEmptyError"))
        ctx.cover("empty")
        ctx.oblige("the parameter has the unit of its first view", it.eq(it.getattr(p, "unit"), SStr(u)))
        x = ctx.real("x")
        n0 = num(it.getattr(p, "version"))
        it.setattr(r, "value", x)
        ctx.oblige("and reads the first write", real(it.getattr(r, "value")) == x)
        ctx.oblige("version", num(it.getattr(p, "version")) == n0 + 1)

    @v.unit("generic parameters", functions=[V + "GenericView.value", V + "GenericView.value#set", V + "GenericView.__init__"], covers=["empty", "written"])
    def generic(it, ctx):
        p = new_parameter(it, ctx)
        G = it.cls(V + "GenericView")
        it.call(it.getattr(p, "attempt_read"), [ptype(it, "GENERIC")], {})
        old = Thing()
        wr = ctx.bool("written")
        arbitrary(p, children=KEEP, name=KEEP, parent=KEEP, region=KEEP, parameter_type=KEEP, unit=KEEP,
                  has_been_read_from=KEEP, has_been_written_to=wr, data=old, version=ctx.int("version"))
        w, r = it.instantiate(G, [p], {}), it.instantiate(G, [p], {})
        for x in (w, r):
            b = ctx.bool("writable")
            arbitrary(x, _parameter=KEEP, _writable=b)
            ctx.assume(z3.Implies(b, wr))
        before = fields_of(p)
        y, e = attempt(it, lambda: it.getattr(r, "value"))
        ctx.oblige("reading changes nothing", same_fields(it, p, before))
        if e is not None:
            ctx.cover("empty")
            ctx.oblige("ParameterEmptyError before the first write only", z3.And(z3.BoolVal(exc_name(e) == "ParameterEmptyError"), z3.Not(wr)))
        else:
            ctx.oblige("gives the stored object after a write", z3.And(z3.BoolVal(y is old), wr))
        new = Thing()
        _, e = attempt(it, lambda: it.setattr(w, "value", new))
        if e is not None:
            ctx.fail("writing is possible", exc_name(e))
            return
        ctx.cover("written")
        ctx.oblige("version increases by one", num(p.f["version"]) == num(before["version"]) + 1)
        ctx.oblige("nothing else changes", same_fields(it, p, before, ("data", "version", "has_been_written_to", "has_been_read_from")))
        for nm, x in (("written", w), ("other", r)):
            y, e = attempt(it, lambda: it.getattr(x, "value"))
            ctx.oblige("the %s view gives the very object" % nm, z3.BoolVal(e is None and y is new))
