"""
Contracts assumed on scipy: interpolate.interp1d and integrate.quad (exact for piecewise
linear functions whose break points are passed; rounding is not considered).
"""
import z3

from . import core, npm
from .core import Builtin, Ext, ExtModule, Unsupported, num, real

LINE = z3.Function("LINE", core.R, core.R, core.R, core.R, core.R, core.R)  # straight line through (x0, y0), (x1, y1) at t


def line_axioms():
    a, b, c, d, t = z3.Reals("a? b? c? d? t?")
    e = LINE(a, b, c, d, t)
    return [
        z3.ForAll([a, b, c, d, t], z3.Implies(z3.And(a != c, t == a), e == b), patterns=[e]),
        z3.ForAll([a, b, c, d, t], z3.Implies(z3.And(a != c, t == c), e == d), patterns=[e]),
    ]


def line_definition(a, b, c, d, t):
    return z3.Implies(a != c, LINE(a, b, c, d, t) * (c - a) == b * (c - t) + d * (t - a))


class Interp1d(Ext):
    """A function given by points (x, y): piecewise linear between them."""

    name = "interp1d"

    def __init__(self, it, x, y, kind, mode, lo, hi):
        ctx = it.ctx
        self.x, self.y, self.kind, self.mode, self.lo, self.hi = x, y, kind, mode, lo, hi
        nm = str(ctx.fresh("interp", core.I))
        self.val = z3.Function(nm + "_at", core.R, core.R)
        self.seg = z3.Function(nm + "_segment", core.R, core.I)
        self.INT = z3.Function(nm + "_integral", core.R, core.R, core.R)
        if "line" not in ctx.ghost:
            ctx.ghost["line"] = True
            for f in line_axioms():
                ctx.assume(f, heavy=True)
        ctx.ghost.setdefault("interp1d", []).append(self)
        if kind != "linear":
            return
        t = z3.Real("t?")
        n = num(x.length)
        f, g = x.fnow(), y.fnow()
        X, Y = lambda i: real(f(i)), lambda i: real(g(i))
        s = self.seg(t)
        inside = z3.And(t >= X(0), t <= X(z3.simplify(n - 1)))
        ax = [z3.ForAll([t], z3.Implies(inside, z3.And(s >= 0, s < n - 1, X(s) <= t, t <= X(s + 1),
                                                       self.val(t) == LINE(X(s), Y(s), X(s + 1), Y(s + 1), t))), patterns=[self.val(t)])]
        if mode == "extrapolate":
            ax.append(z3.ForAll([t], z3.Implies(t < X(0), self.val(t) == LINE(X(0), Y(0), X(1), Y(1), t)), patterns=[self.val(t)]))
            m = z3.simplify(n - 1)
            k = z3.simplify(n - 2)
            ax.append(z3.ForAll([t], z3.Implies(t > X(m), self.val(t) == LINE(X(k), Y(k), X(m), Y(m), t)), patterns=[self.val(t)]))
        elif mode == "fill":
            if lo is not None:
                ax.append(z3.ForAll([t], z3.Implies(t < X(0), self.val(t) == real(lo)), patterns=[self.val(t)]))
            if hi is not None:
                ax.append(z3.ForAll([t], z3.Implies(t > X(z3.simplify(n - 1)), self.val(t) == real(hi)), patterns=[self.val(t)]))
        for a in ax:
            ctx.assume(a, heavy=True)

    def out(self, t):
        n = z3.simplify(num(self.x.length) - 1)
        return z3.Or(t < real(self.x.at(0)), t > real(self.x.at(n)))

    def getattr(self, it, name):
        if name == "x":
            return self.x
        if name == "y":
            return self.y
        raise Unsupported("interp1d." + name)

    def call(self, it, args, kw):
        ctx = it.ctx
        if len(args) != 1 or kw:
            raise Unsupported("call of interp1d")
        (a,) = args
        if isinstance(a, npm.NArr):
            f = a.fnow()
            if self.mode == "error":
                n = num(a.length)
                if ctx.choose(2):
                    w = ctx.int("w!out")
                    ctx.assume(z3.And(w >= 0, w < n, self.out(real(f(w)))))
                    if not ctx.feasible():
                        raise core.PathAbort()
                    it.throw("ValueError", "outside the interpolation range")
                q = z3.Int("q!in")
                ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(self.out(real(f(q)))))))
            v = self.val
            return npm.NArr("f", a.length, lambda i: v(real(f(i))))
        if core.is_num(a):
            if self.mode == "error" and not ctx.proves(z3.Not(self.out(real(a)))) and ctx.branch(self.out(real(a))):
                it.throw("ValueError", "outside the interpolation range")
            return self.val(real(a))
        raise Unsupported("argument of interp1d")

    # the mathematical integral
    def additive(self, a, b, c):
        return self.INT(a, c) == self.INT(a, b) + self.INT(b, c)

    def trapezoid(self, s):
        """Integral over the segment between points s and s + 1."""
        X, Y = lambda i: real(self.x.at(i)), lambda i: real(self.y.at(i))
        n = num(self.x.length)
        return z3.Implies(z3.And(s >= 0, s + 1 < n, z3.BoolVal(self.kind == "linear")),
                          self.INT(X(s), X(s + 1)) * 2 == (X(s + 1) - X(s)) * (Y(s) + Y(s + 1)))


def interp1d(it, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    ctx = it.ctx
    if axis not in (-1, 0) or not isinstance(kind, str):
        raise Unsupported("arguments of interp1d")
    x, y = npm.as_array(it, x), npm.as_array(it, y)
    if not isinstance(x, npm.NArr) or not isinstance(y, npm.NArr):
        raise Unsupported("arguments of interp1d")
    if not it.truth_cmp(z3.simplify(num(x.length) == num(y.length))):
        it.throw("ValueError", "x and y arrays must be equal in length")
    i, j = ctx.int("i!mono"), ctx.int("j!mono")
    ctx.oblige("precondition of interp1d: points are strictly increasing", z3.Implies(
        z3.And(i >= 0, i + 1 < num(x.length)), real(x.at(i)) < real(x.at(i + 1))))
    lo = hi = None
    if isinstance(fill_value, str):
        if fill_value != "extrapolate" or bounds_error is True:
            it.throw("ValueError")
        mode = "extrapolate"
    else:
        if bounds_error not in (None, True, False):
            raise Unsupported("bounds_error")
        mode = "fill" if bounds_error is False else "error"
        if isinstance(fill_value, tuple) and len(fill_value) == 2:
            lo, hi = fill_value
        elif core.is_num(fill_value):
            lo = hi = fill_value
        elif fill_value is not None and fill_value is not core.NAN:
            raise Unsupported("fill_value")
    fx = npm.NArr("f", x.length, (lambda f: lambda i: real(f(i)))(x.fnow()))
    fy = npm.NArr("f", y.length, (lambda f: lambda i: real(f(i)))(y.fnow()))
    return Interp1d(it, fx, fy, kind, mode, lo, hi)


def quad(it, func, a, b, args=(), points=None, limit=50, **kw):
    ctx = it.ctx
    f = func
    if not isinstance(f, Interp1d) or args or kw:
        raise Unsupported("integration of %r" % (func,))
    l, u = real(a), real(b)
    out = z3.Or(f.out(l), f.out(u))
    if f.mode == "error" and not ctx.proves(z3.Not(out)) and ctx.branch(out):
        it.throw("ValueError", "outside the interpolation range")
    j = ctx.int("j!quad")
    for inst in ctx.ghost.get("filtered", ()):
        for d in (0, -1, 1):
            ctx.assume(inst(j + d))
    n = num(f.x.length)
    inner = z3.And(j >= 0, j < n, l < real(f.x.at(j)), real(f.x.at(j)) < u)
    if points is None:
        goal = z3.Not(inner)
    else:
        p = it.as_seq(points)
        m = num(p.length)
        cand = [j, j - 1, j + 1]
        inv = getattr(points, "inv_index", None)
        if inv is not None:
            cand = [inv(j), inv(j - 1), inv(j + 1)] + cand
        goal = z3.Implies(inner, z3.Or([z3.And(c >= 0, c < m, real(p.get(z3.simplify(c))) == real(f.x.at(j))) for c in cand]))
        ctx.oblige("precondition of quad: subdivisions allowed for all break points", num(limit) >= m + 2)
    ctx.oblige("precondition of quad: all break points are passed", goal)
    return (f.INT(l, u), ctx.real("quad_error"))


def install(it):
    it.ext["scipy.interpolate"] = ExtModule("scipy.interpolate", {"interp1d": Builtin("interp1d", interp1d)})
    it.ext["scipy.integrate"] = ExtModule("scipy.integrate", {"quad": Builtin("quad", quad)})
