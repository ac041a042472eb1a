"""
Contract of pint, as used by openscm.core.units (an assumed contract on a dependency).

Quantity(m, u).to(v) within a context c is  A(u, v, c) * m + B(u, v, c)  if the units are
convertible in c, raises DimensionalityError otherwise, and gives nan if the context has
no factor; an unknown unit raises UndefinedUnitError.
"""
import z3

from . import core
from .core import (
    Builtin, Ctx, Ext, ExtModule, Mut, NAN, SStr, TypeVal, Unsupported, is_num, is_z3, lit, num,
    real, sbool, sstr,
)
from .interp import EXC

A = z3.Function("conv_scale", core.Str, core.Str, core.Str, core.R)
Bo = z3.Function("conv_offset", core.Str, core.Str, core.Str, core.R)
OK = z3.Function("convertible", core.Str, core.Str, core.Str, core.B)
ISNAN = z3.Function("conv_nan", core.Str, core.Str, core.Str, core.B)
DEF = z3.Function("unit_defined", core.Str, core.B)
CTXDEF = z3.Function("context_defined", core.Str, core.B)
NOCTX = lit("\0nocontext")

def instance(u, v, c):
    """The contract for one pair of units."""
    out = [z3.Implies(OK(u, v, c), A(u, v, c) != 0)]
    out.append(z3.Implies(c == NOCTX, z3.Not(ISNAN(u, v, c))))
    out.append(
        z3.Implies(
            z3.And(c == NOCTX, u == v, DEF(u)),
            z3.And(OK(u, v, c), A(u, v, c) == 1, Bo(u, v, c) == 0),
        )
    )
    return z3.And(*out)


def compose(u, v, w, c=NOCTX):
    """Conversion via a third unit (instance of the pint contract)."""
    return z3.Implies(
        z3.And(OK(u, v, c), OK(v, w, c)),
        z3.And(
            OK(u, w, c),
            A(u, w, c) == A(v, w, c) * A(u, v, c),
            Bo(u, w, c) == A(v, w, c) * Bo(u, v, c) + Bo(v, w, c),
        ),
    )


class Unit(Ext):
    name = "pint unit"

    def __init__(self, s):
        self.s = s


class Magnitude(Ext):
    """A number that is nan under a condition (only tested for nan and passed on)."""

    name = "magnitude"

    def __init__(self, e, isnan):
        self.e, self.nan = e, isnan

    def as_num(self):
        return self.e

    def isnan(self, it):
        return self.nan

    def to_float(self, it):
        return self.e if not is_z3(self.e) or z3.is_real(self.e) else z3.ToReal(self.e)

    def binop(self, it, op, a, b):
        x = a.e if isinstance(a, Magnitude) else a
        y = b.e if isinstance(b, Magnitude) else b
        return it.binop(op, x, y)


class Quantity(Ext):
    name = "pint quantity"

    def __init__(self, m, u, nan=False):
        self.m, self.u, self.nan = m, u, nan

    def getattr(self, it, name):
        if name in ("m", "magnitude"):
            return self.m if self.nan is False else Magnitude(self.m, self.nan)
        if name in ("to", "m_as"):

            def to(it, u):
                e = unit_expr(it, u)
                c = current_context(it)
                s = self.u
                it.ctx.assume(instance(s, e, c))
                if not it.ctx.branch(OK(s, e, c)):
                    it.throw("DimensionalityError")
                q = Quantity(real(self.m) * A(s, e, c) + Bo(s, e, c), e, ISNAN(s, e, c))
                return q if name == "to" else q.getattr(it, "m")

            return Builtin("to", to)
        raise Unsupported("quantity." + name)

    def isnan(self, it):
        return self.nan

    def to_float(self, it):
        it.throw("DimensionalityError")


def unit_expr(it, u):
    if isinstance(u, Unit):
        return u.s
    if isinstance(u, (str, SStr)):
        e = sstr(u)
        if not it.ctx.branch(DEF(e)):
            it.throw("UndefinedUnitError")
        return e
    raise Unsupported("unit %r" % (u,))


def current_context(it):
    st = it.ctx.ghost.get("pint contexts", ())
    if len(st) > 1:
        raise Unsupported("several active contexts")
    return st[-1] if st else NOCTX


class ContextManager(Ext):
    name = "pint context"

    def __init__(self, c):
        self.c = c

    def enter(self, it):
        if not it.ctx.branch(CTXDEF(self.c)):
            it.throw("KeyError")
        it.ctx.ghost["pint contexts"] = it.ctx.ghost.get("pint contexts", ()) + (self.c,)

    def exit(self, it):
        it.ctx.ghost["pint contexts"] = it.ctx.ghost["pint contexts"][:-1]


class Registry(Ext):
    name = "unit registry"

    def getattr(self, it, name):
        if name == "Unit":
            return Builtin("Unit", lambda it, s: Unit(unit_expr(it, s)))
        if name == "Quantity":
            return Builtin("Quantity", lambda it, m, u=None: Quantity(m, unit_expr(it, u)))
        if name == "context":
            return Builtin("context", lambda it, c: ContextManager(sstr(c)))
        if name == "convert":

            def convert(it, v, a, b):
                return Quantity(v, unit_expr(it, a)).getattr(it, "m_as").call(it, [b], {})

            return Builtin("convert", convert)
        if name == "add_standards":
            return Builtin("add_standards", lambda it: None)
        if name in ("enable_contexts", "disable_contexts"):

            def fn(it, *a):
                st = it.ctx.ghost.get("pint contexts", ())
                if name == "enable_contexts":
                    st = st + tuple(sstr(x) for x in a)
                else:
                    st = st[: -(a[0] if a else len(st))] if st else st
                it.ctx.ghost["pint contexts"] = st

            return Builtin(name, fn)
        raise Unsupported("unit registry." + name)


class RegistryBase(TypeVal):
    def __init__(self):
        TypeVal.__init__(self, "UnitRegistry")

    def instantiate(self, it, c, args, kw):
        return Registry()


def install(it):
    exc = {
        "DimensionalityError": EXC["DimensionalityError"],
        "UndefinedUnitError": EXC["UndefinedUnitError"],
    }
    it.ext["pint"] = ExtModule("pint", {"UnitRegistry": RegistryBase(), "errors": ExtModule("pint.errors", exc)})
    it.ext["pint.errors"] = ExtModule("pint.errors", exc)
