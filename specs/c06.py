"""C06: unit conversion is one exact affine map and its inverse."""
import z3

from pyvc import core, npm, pintm
from pyvc.core import Obj, PyExc, SStr, lit, num, real
from pyvc.speclib import attempt, converter, exc_name
from pyvc.pintm import A, Bo, CTXDEF, DEF, ISNAN, NOCTX, OK

U = "openscm.core.units:UnitConverter"


def build(v):
    v.trust("pint: contract in pyvc/pintm.py (definition of units, affine conversions)")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("pint converts by an affine map, non-zero scale, identity for equal units, composing (pyvc/pintm.py); a plain or offset unit, not a logarithmic one")

    @v.unit("UnitConverter.__init__", functions=[U + ".__init__"], covers=["made", "undefined", "dimensionality"])
    def init(it, ctx):
        s, t = ctx.fresh("source", core.Str), ctx.fresh("target", core.Str)
        o, e = attempt(it, lambda: it.instantiate(it.cls(U), [SStr(s), SStr(t)], {}))
        ctx.oblige("context stack empty afterwards", z3.BoolVal(not ctx.ghost.get("pint contexts")))
        if e is not None:
            n = exc_name(e)
            if n == "UndefinedUnitError":
                ctx.cover("undefined")
                ctx.oblige("undefined only for unknown units", z3.Not(z3.And(DEF(s), DEF(t))))
            elif n == "DimensionalityError":
                ctx.cover("dimensionality")
                ctx.oblige("dimensionality only for other dimensions", z3.And(DEF(s), DEF(t), z3.Not(OK(s, t, NOCTX))))
            else:
                ctx.fail("no other exception", n)
            return
        ctx.cover("made")
        ctx.oblige("known units of one dimension", z3.And(DEF(s), DEF(t), OK(s, t, NOCTX)))
        x = ctx.real("x")
        y = it.call(it.getattr(o, "convert_from"), [x], {})
        ctx.oblige("convert_from agrees with the definition of the units", real(y) == A(s, t, NOCTX) * x + Bo(s, t, NOCTX))
        z = it.call(it.getattr(o, "convert_to"), [x], {})
        ctx.oblige("convert_to is the inverse", A(s, t, NOCTX) * real(z) + Bo(s, t, NOCTX) == x)
        ctx.oblige("source", it.eq(it.getattr(o, "source"), SStr(s)))
        ctx.oblige("target", it.eq(it.getattr(o, "target"), SStr(t)))

    @v.unit("UnitConverter.__init__ within a context", functions=[U + ".__init__"], covers=["made", "refused"])
    def init_ctx(it, ctx):
        s, t, c = [ctx.fresh(n, core.Str) for n in ("source", "target", "context")]
        ctx.assume(z3.And(c != NOCTX, c != core.NONE_STR))
        o, e = attempt(it, lambda: it.instantiate(it.cls(U), [SStr(s), SStr(t), SStr(c)], {}))
        ctx.oblige("context stack empty afterwards", z3.BoolVal(not ctx.ghost.get("pint contexts")))
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("refused only if not convertible in this context", z3.Not(z3.And(DEF(s), DEF(t), CTXDEF(c), OK(s, t, c))))
            return
        ctx.cover("made")
        x = ctx.real("x")
        y = it.call(it.getattr(o, "convert_from"), [x], {})
        ctx.oblige("convert_from agrees with the context", z3.Or(ISNAN(s, t, c), real(y) == A(s, t, c) * x + Bo(s, t, c)))
        warned = any(l[0] == "warn" for l in ctx.log)
        ctx.oblige("warns if and only if there is no factor", ISNAN(s, t, c) == z3.BoolVal(warned))

    @v.unit("convert_from / convert_to", functions=[U + ".convert_from", U + ".convert_to"], covers=["end"])
    def conv(it, ctx):
        s, t, o = converter(it, ctx)
        a, b = o.f["_scaling"], o.f["_offset"]
        ctx.assume(a != 0)
        x = ctx.real("x")
        f, g = it.getattr(o, "convert_from"), it.getattr(o, "convert_to")
        y = it.call(f, [x], {})
        ctx.oblige("to(from(x)) = x", real(it.call(g, [y], {})) == x)
        ctx.oblige("from(to(x)) = x", real(it.call(f, [it.call(g, [x], {})], {})) == x)
        n = ctx.int("n")
        ctx.assume(n >= 0)
        arr = npm.fresh_arr(ctx, "v", "f", n)
        h0 = arr.fnow()
        r, r2 = it.call(f, [arr], {}), it.call(g, [arr], {})
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.oblige("arrays: same length", z3.And(num(r.length) == n, num(r2.length) == n))
        ctx.oblige("arrays: convert_from element by element", real(r.at(i)) == real(it.call(f, [arr.at(i)], {})))
        ctx.oblige("arrays: convert_to element by element", real(r2.at(i)) == real(it.call(g, [arr.at(i)], {})))
        ctx.oblige("arrays: argument unchanged", arr.at(i) == h0(i))
        ctx.cover("end")

    @v.unit("lemmas over the contract", covers=["end"])
    def lemmas(it, ctx):
        u, w, t = [ctx.fresh(n, core.Str) for n in "uwt"]
        x = ctx.real("x")
        ctx.assume(z3.And(OK(u, w, NOCTX), OK(w, t, NOCTX)))
        ctx.assume(pintm.compose(u, w, t))
        ctx.assume(z3.And(DEF(u), pintm.instance(u, u, NOCTX)))
        ctx.oblige("via a third unit", A(u, t, NOCTX) * x + Bo(u, t, NOCTX) == A(w, t, NOCTX) * (A(u, w, NOCTX) * x + Bo(u, w, NOCTX)) + Bo(w, t, NOCTX))
        ctx.oblige("equal units", A(u, u, NOCTX) * x + Bo(u, u, NOCTX) == x)
        ctx.cover("end")
