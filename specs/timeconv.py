"""Arbitrary converters between time points (C09, C10)."""
import z3

from pyvc import core, npm, scipym
from pyvc.core import Obj, Unsupported, num, real, sbool
from pyvc.speclib import attempt, exc_name, ptype

TC = "openscm.core.time:TimeseriesConverter"
EXTRA = ["NONE", "LINEAR", "CONSTANT"]
WAYS = [(e, w) for e in EXTRA for w in ("convert_from", "convert_to")]


def increasing(a):
    i, j = z3.Ints("i? j?")
    f = lambda k: num(a.at(k).e)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < num(a.length)), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))])


class Conv:
    """A converter, the direction to use, and the values."""

    def __init__(self, it, ctx, tname, extra, way):
        self.extra, self.way = extra, way
        src = npm.fresh_arr(ctx, "source", "M", ctx.int("n_source"))
        tgt = npm.fresh_arr(ctx, "target", "M", ctx.int("n_target"))
        for a in (src, tgt):
            ctx.assume(num(a.length) >= 2)
        for k, a in enumerate((src, tgt)):
            # target times of point timeseries may come in any order
            if tname == "AVERAGE_TIMESERIES" or (k == 0) == (self.way == "convert_from"):
                ctx.assume(increasing(a), heavy=True)
        freeze = lambda a: npm.NArr("M", a.length, a.fnow())
        s0, t0 = freeze(src), freeze(tgt)
        args = [src, tgt, ptype(it, tname), it.cls("openscm.core.time:InterpolationType").members["LINEAR"],
                it.cls("openscm.core.time:ExtrapolationType").members[self.extra]]
        o, e = attempt(it, lambda: it.instantiate(it.cls(TC), args, {}))
        if e is not None:
            ctx.oblige("a converter is refused only if the source starts after the target", num(src.at(0).e) > num(tgt.at(1).e))
            raise core.PathAbort()
        self.obj = o
        # the arrays given may change afterwards
        it.setitem(src, 0, npm.Dt(ctx.int("later")))
        it.setitem(tgt, 0, npm.Dt(ctx.int("later")))
        self.frm, self.to = (s0, t0) if self.way == "convert_from" else (t0, s0)
        self.avg = 1 if tname == "AVERAGE_TIMESERIES" else 0
        self.n = z3.simplify(num(self.frm.length) - self.avg)
        self.values = npm.fresh_arr(ctx, "values", "f", self.n)
        self.given = npm.NArr("f", self.n, self.values.fnow())
        ctx.oblige("source_length", num(it.getattr(o, "source_length")) == num(s0.length) - self.avg)
        ctx.oblige("target_length", num(it.getattr(o, "target_length")) == num(t0.length) - self.avg)

    def t(self, a, i):
        return real(num(a.at(i).e))

    def convert(self, it):
        return attempt(it, lambda: it.call(it.getattr(self.obj, self.way), [self.values], {}))

    def outside(self, ctx):
        """Some target time is outside the range of the source times."""
        i = z3.Int("i?")
        last = z3.simplify(num(self.frm.length) - 1)
        x = self.t(self.to, i)
        return z3.Exists([i], z3.And(i >= 0, i < num(self.to.length), z3.Or(x < self.t(self.frm, 0), x > self.t(self.frm, last))))

    def refusals(self, it, ctx, e):
        """True if a result was given."""
        short = self.n < 3
        if e is not None:
            if exc_name(e) != "InsufficientDataError":
                ctx.fail("no other exception", exc_name(e))
                return False
            ctx.cover("refused")
            if self.extra == "NONE":
                ctx.oblige("refused only for too few values or times outside the range", z3.Or(short, self.outside(ctx)))
            else:
                ctx.oblige("refused only for too few values", short)
            return False
        ctx.cover(self.extra)
        ctx.oblige("fewer than three values are refused", z3.Not(short))
        if self.extra == "NONE":
            i = ctx.int("i!in")
            last = z3.simplify(num(self.frm.length) - 1)
            x = self.t(self.to, i)
            ctx.oblige("without extrapolation, times outside the range are refused", z3.Implies(
                z3.And(i >= 0, i < num(self.to.length)), z3.And(x >= self.t(self.frm, 0), x <= self.t(self.frm, last))))
        return True

    def intact(self, it, ctx, r):
        i = ctx.int("i!kept")
        ctx.oblige("the values given are not changed", z3.Implies(z3.And(i >= 0, i < self.n), real(self.values.at(i)) == real(self.given.at(i))))
        if not isinstance(r, npm.NArr):
            raise Unsupported("result %r" % (r,))
        ctx.oblige("the result is a new array", z3.BoolVal(r.root() is not self.values.root()))
        ctx.oblige("one value per target time or period", num(r.length) == num(self.to.length) - self.avg)
