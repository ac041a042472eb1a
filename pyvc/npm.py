"""
Model of the part of numpy used by the verified code (one-dimensional arrays, times).

Floating point numbers are treated as mathematical reals (stated in the evidence).
"""
from fractions import Fraction

import z3

from . import core
from .core import (
    Builtin, Ctx, ExtModule, Ext, Mut, NAN, Obj, PyList, SymList, TypeVal, Unsupported,
    is_num, is_z3, ite, list_of, num, real, sbool, subst,
)
from .interp import TYPES, ite_lazy


class Dt(Ext):
    """numpy.datetime64 in seconds (exact integers); unit only recorded."""

    name = "datetime64"

    def __init__(self, e, unit="s"):
        self.e, self.unit = e, unit

    def __repr__(self):
        return "Dt(%s)" % (self.e,)

    def exprs(self):
        return [self.e] if is_z3(self.e) else []

    def subst(self, pairs):
        return Dt(subst(self.e, pairs), self.unit)

    def merge(self, c, b):
        return type(self)(ite(c, self.e, b.e), self.unit)

    def havoc(self, ctx, nm):
        return Dt(ctx.int("h_" + nm))

    def binop(self, it, op, a, b):
        if isinstance(a, Dt) and isinstance(b, Td) and op in ("Add", "Sub"):
            return Dt(it.binop(op, a.e, b.e))
        if isinstance(a, Td) and isinstance(b, Dt) and op == "Add":
            return Dt(it.binop(op, a.e, b.e))
        if isinstance(a, Dt) and isinstance(b, Dt) and op == "Sub":
            return Td(it.binop(op, a.e, b.e))
        if isinstance(a, NArr) or isinstance(b, NArr):
            return elementwise(it, op, a, b)
        raise Unsupported("operator %s on datetime64" % op)

    def compare(self, it, op, a, b):
        if isinstance(a, NArr) or isinstance(b, NArr):
            return elementwise_cmp(it, op, a, b)
        if isinstance(a, Dt) and isinstance(b, Dt):
            return it.compare(op, a.e, b.e)
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        raise Unsupported("comparison of datetime64")

    def eq(self, it, o):
        if isinstance(o, Dt):
            return it.eq(self.e, o.e)
        return False

    def getattr(self, it, name):
        if name == "astype":

            def astype(it, t, copy=True):
                k = dtype_kind(it, t)
                if k == "M":
                    if isinstance(t, str) and t.endswith("[Y]"):
                        raise Unsupported("datetime64[Y]")
                    return self
                if k == "f":
                    return real(self.e)
                if k == "i":
                    return self.e
                raise Unsupported("datetime64.astype")

            return Builtin("astype", astype)
        raise Unsupported("datetime64." + name)

    def type_of(self, it):
        return DT_TYPE

    def isinstance_of(self, it, c):
        return getattr(c, "name", None) in ("datetime64", "numpy.datetime64")

    def as_any(self, it):
        return BOX_DT(num(self.e))


class Td(Ext):
    name = "timedelta64"

    def __init__(self, e, unit="s"):
        self.e, self.unit = e, unit

    def exprs(self):
        return [self.e] if is_z3(self.e) else []

    def subst(self, pairs):
        return Td(subst(self.e, pairs))

    def merge(self, c, b):
        return Td(ite(c, self.e, b.e))

    def havoc(self, ctx, nm):
        return Td(ctx.int("h_" + nm))

    def binop(self, it, op, a, b):
        if isinstance(a, Dt) or isinstance(b, Dt):
            return Dt.binop(self, it, op, a, b)
        if isinstance(a, NArr) or isinstance(b, NArr):
            return elementwise(it, op, a, b)
        if isinstance(a, Td) and isinstance(b, Td):
            if op in ("Add", "Sub"):
                return Td(it.binop(op, a.e, b.e))
            if op == "Div":
                return real(a.e) / real(b.e)
            if op == "FloorDiv":
                return num(a.e) / num(b.e)
        x, y = (a, b) if isinstance(a, Td) else (b, a)
        if op == "Mult" and is_num(y):
            yy = num(y)
            if z3.is_int(yy):
                return Td(it.binop("Mult", x.e, y))
            p = real(x.e) * yy  # truncates
            return Td(z3.If(p >= 0, z3.ToInt(p), -z3.ToInt(-p)))
        if op == "Div" and isinstance(a, Td) and is_num(b):
            p = real(a.e) / real(b)
            return Td(z3.If(p >= 0, z3.ToInt(p), -z3.ToInt(-p)))
        raise Unsupported("operator %s on timedelta64" % op)

    def compare(self, it, op, a, b):
        if isinstance(a, Td) and isinstance(b, Td):
            return it.compare(op, a.e, b.e)
        raise Unsupported("comparison of timedelta64")

    def eq(self, it, o):
        if isinstance(o, Td):
            return it.eq(self.e, o.e)
        return False

    def isinstance_of(self, it, c):
        return getattr(c, "name", None) in ("timedelta64", "numpy.timedelta64")


BOX_DT = z3.Function("box_dt", core.I, core.AnyS)
YEAR_START = z3.Function("year_start", core.I, core.I)  # seconds of January 1st, 00:00
DT_TYPE = TypeVal("datetime64")
TD_TYPE = TypeVal("timedelta64")
FLOATING = TypeVal("floating")
INTEGER = TypeVal("integer")
FLOAT64 = TypeVal("float64", base=FLOATING)
INT64 = TypeVal("int64", base=INTEGER)
STR_ = TypeVal("str_", base=TypeVal("str"))
OBJECT_ = TypeVal("object_")
BOOL_ = TypeVal("bool_")
KIND_TYPE = {"f": FLOAT64, "i": INT64, "M": DT_TYPE, "m": TD_TYPE, "O": OBJECT_, "U": STR_, "b": BOOL_}


def dtype_kind(it, t):
    if isinstance(t, str):
        if t.startswith("datetime64"):
            if t not in ("datetime64[s]", "datetime64[Y]", "<M8[s]"):
                raise Unsupported("dtype " + t)
            return "M"
        if t.startswith("timedelta64"):
            return "m"
        return {"float": "f", "float64": "f", "int": "i", "int64": "i", "object": "O", "O": "O", "bool": "b"}.get(t) or _uns(t)
    if isinstance(t, DType):
        return t.kind
    n = getattr(t, "name", None)
    if n:
        n = n.split(".")[-1]
        return {
            "float": "f", "float64": "f", "int": "i", "int64": "i", "object": "O",
            "bool": "b", "datetime64": "M", "timedelta64": "m", "str": "U", "datetime": "O",
        }.get(n) or _uns(n)
    _uns(t)


def _uns(t):
    raise Unsupported("dtype %r" % (t,))


class DType(Ext):
    name = "dtype"

    def __init__(self, kind):
        self.kind = kind

    def getattr(self, it, name):
        if name == "kind":
            return self.kind
        if name == "type":
            return KIND_TYPE[self.kind]
        raise Unsupported("dtype." + name)

    def eq(self, it, o):
        return isinstance(o, DType) and o.kind == self.kind


def kind_of(v):
    if isinstance(v, (bool, z3.BoolRef)):
        return "b"
    if v is NAN or isinstance(v, Fraction):
        return "f"
    if isinstance(v, int):
        return "i"
    if isinstance(v, z3.ArithRef):
        return "i" if z3.is_int(v) else "f"
    if isinstance(v, Dt):
        return "M"
    if isinstance(v, Td):
        return "m"
    if isinstance(v, (str, core.SStr)):
        return "U"
    return "O"


def common_kind(ks):
    ks = set(ks)
    if len(ks) == 1:
        return ks.pop()
    if ks <= {"f", "i", "b"}:
        return "f" if "f" in ks else "i"
    return "O"


def conv_elem(kind, v):
    if kind == "f":
        if v is NAN:
            return v
        if isinstance(v, (bool, int)):
            return Fraction(int(v))
        if isinstance(v, Fraction):
            return v
        if isinstance(v, (Dt, Td)):
            return real(v.e)
        return real(v)
    if kind == "i":
        if isinstance(v, (Dt, Td)):
            return v.e
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Fraction):
            return int(v)
        if is_z3(v) and z3.is_real(v):
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v
    if kind == "M":
        if isinstance(v, Dt):
            return v
        if is_num(v):
            return Dt(conv_elem("i", v))
        if hasattr(v, "to_dt64"):
            return v.to_dt64(None, "s")
        raise Unsupported("conversion to datetime64 of %r" % (v,))
    if kind == "m" and is_num(v):
        return Td(conv_elem("i", v))
    return v


class NArr(Mut, Ext):
    name = "ndarray"

    def __init__(self, kind, length, fn, base=None, off=0, step=1):
        Mut.__init__(self)
        self.kind, self.length, self.fn = kind, length, fn
        self.base, self.off, self.step = base, off, step
        self.extra = {}

    # -- access
    def at(self, i):
        if self.base is not None:
            return self.base.at(z3.simplify(num(i) * self.step + num(self.off)))
        return self.fn(i)

    def fnow(self):
        """The current content as an immutable function."""
        if self.base is not None:
            g, off, step = self.base.fnow(), num(self.off), self.step
            return lambda i: g(z3.simplify(num(i) * step + off))
        return self.fn

    def value(self):
        return SymList(self.length, self.fnow())

    def as_symlist(self):
        return self.value()

    def make_symbolic(self, length, get):
        if self.base is not None:
            raise Unsupported("store through a view")
        k = self.kind
        self.length, self.fn = length, lambda i: conv_elem(k, get(i))

    def iterate(self, it):
        return self.value()

    # -- protocol of values
    def subst(self, pairs):
        f = self.fnow()
        return NArr(self.kind, subst(self.length, pairs), lambda i: subst(f(i), pairs))

    def merge(self, c, b):
        if not isinstance(b, NArr) or b.kind != self.kind:
            raise Unsupported("merge of arrays")
        f, g = self.fnow(), b.fnow()
        return NArr(self.kind, ite(c, self.length, b.length), lambda i: ite(c, f(i), g(i)))

    def exprs(self):
        from .loops import exprs_in

        i = z3.Int("i!scan")
        out = [self.length] if is_z3(self.length) else []
        return out + exprs_in(self.at(i))

    def havoc(self, ctx, nm):
        n = ctx.int("n_" + nm)
        ctx.assume(n >= 0)
        return fresh_arr(ctx, nm, self.kind, n)

    def havoc_mut(self, ctx, nm):
        a = fresh_arr(ctx, nm, self.kind, self.length)
        if self.base is not None:
            raise Unsupported("loop writes through a view")
        self.fn = a.fn

    def truth(self, it):
        if isinstance(self.length, int) and self.length == 1:
            return it.truth(self.at(0))
        raise Unsupported("truth of an array")

    def isinstance_of(self, it, c):
        n = getattr(c, "name", "")
        return n.split(".")[-1] in ("ndarray", "object", "Iterable", "Sequence") and n.split(".")[-1] != "Sequence"

    def type_of(self, it):
        return NDARRAY

    def eq(self, it, o):
        raise Unsupported("truth of array equality")

    def as_any(self, it):
        i = z3.Int("i!box")
        f = self.fnow()
        n = num(self.length)
        try:
            plain = self.kind in ("f", "i") and is_num(f(i))
        except Unsupported:
            plain = False
        if not plain:  # content not tracked once stored on the heap
            return it.ctx.fresh("boxed", core.AnyS)
        return core.box_arr(z3.Lambda([i], z3.If(z3.And(i >= 0, i < n), real(f(i)), 0)), n)

    # -- operations
    def binop(self, it, op, a, b):
        for x in (a, b):
            if getattr(x, "shape", None) is not None and x is not self and not isinstance(x, NArr):
                return x.binop(it, op, a, b)
        return elementwise(it, op, a, b)

    def compare(self, it, op, a, b):
        return elementwise_cmp(it, op, a, b)

    def unop(self, it, op):
        f = self.fnow()
        if op == "USub":
            return NArr(self.kind, self.length, lambda i: neg(f(i)))
        if op in ("Invert", "Not") and self.kind == "b":
            return NArr("b", self.length, lambda i: z3.Not(sbool(f(i))))
        raise Unsupported("unary %s on an array" % op)

    def inplace(self, it, op, v):
        if getattr(v, "series", False):
            return v.binop(it, op, self, v)
        r = elementwise(it, op, self, v)
        assign_all(it, self, r)
        return self

    def contains(self, it, x):
        f = self.fnow()
        items = it.concrete_items(self.value())
        if items is not None:
            return z3.Or(*[sbool(it.eq(x, y)) for y in items]) if items else False
        i = it.ctx.int("i!in")
        return z3.Exists([i], z3.And(i >= 0, i < num(self.length), sbool(it.eq(x, f(i)))))

    def getitem(self, it, k):
        if it.store_recorder is not None:
            it.store_recorder.read(self.root())
        if isinstance(k, slice):
            a, n, step = it.slice_range(k, self.length)
            root, off = self, a
            if self.base is not None:
                root, off = self.base, z3.simplify(num(self.off) + num(a) * self.step)
            return NArr(self.kind, n, None, root, off, step * self.step)
        if isinstance(k, NArr):
            if k.kind == "b":
                return masked(it, self, k)
            f, g = self.fnow(), k.fnow()
            return NArr(self.kind, k.length, lambda i: f(g(i)))
        if is_num(k):
            k = it.norm_index(k, self.length)
            return self.at(k)
        if isinstance(k, tuple) and None in k:
            from .framem import outer

            return outer(it, self, k)
        raise Unsupported("array subscript %r" % (k,))

    def root(self):
        return self.base if self.base is not None else self

    def setitem(self, it, k, v):
        root = self.root()
        if isinstance(k, slice):
            a, n, step = it.slice_range(k, self.length)
            off = z3.simplify(num(self.off) + num(a) * self.step)
            step *= self.step
            n = z3.simplify(num(n))
            w = bcast(it, v, n)
            if it.store_recorder is not None:
                it.store_recorder.note_other(root)
            old = root.fn
            kind = self.kind
            if step != 1:
                pos = lambda i: z3.simplify((num(i) - off) / step)
                root.fn = lambda i: ite_lazy(
                    z3.And((num(i) - off) % abs(step) == 0, pos(i) >= 0, pos(i) < n),
                    lambda: conv_elem(kind, w(pos(i))),
                    lambda: old(i),
                )
                return
            lo, hi = off, z3.simplify(off + n)
            whole = it.ctx.proves(z3.And(lo == 0, hi == num(root.length)), 300)
            if whole:
                root.fn = lambda i: conv_elem(kind, w(i))
            else:
                root.fn = lambda i: ite_lazy(
                    z3.And(num(i) >= lo, num(i) < hi),
                    lambda: conv_elem(kind, w(z3.simplify(num(i) - lo))),
                    lambda: old(i),
                )
            return
        if not is_num(k):
            raise Unsupported("array store at %r" % (k,))
        if it.store_recorder is not None and self.base is None and it.store_recorder.store(self, k, v):
            return
        k = it.norm_index(k, self.length)
        kk = z3.simplify(num(k) * self.step + num(self.off))
        old = root.fn
        v = conv_elem(self.kind, v)
        root.fn = lambda i: ite_lazy(num(i) == kk, lambda: v, lambda: old(i))

    def getattr(self, it, name):
        f = self.fnow()
        if name == "shape":
            return (self.length,)
        if name == "size":
            return self.length
        if name == "ndim":
            return 1
        if name == "dtype":
            return DType(self.kind)
        if name == "nbytes":
            return z3.simplify(num(self.length) * 8)
        if name == "T":
            return self
        if name in ("copy", "flatten", "ravel"):
            return Builtin(name, lambda it: NArr(self.kind, self.length, self.fnow()))
        if name == "squeeze":
            raise Unsupported("squeeze")
        if name == "astype":
            return Builtin("astype", lambda it, t, copy=True: astype(it, self, t))
        if name in ("min", "max"):
            return Builtin(name, lambda it: extreme(it, self, name == "max"))
        if name == "tolist":
            return Builtin(name, lambda it: PyList(None, self.length, f))
        if name == "sum":
            return Builtin(name, lambda it: arr_sum(it, self))
        if name == "mean":
            return Builtin(name, lambda it: arr_sum(it, self) / real(self.length))
        if name in ("all", "any"):
            from . import builtins as bi

            return Builtin(name, lambda it: bi.quant(it, self, name == "all"))
        if name == "reshape":
            return Builtin(name, lambda it, *s: reshape(it, self, s))
        if name == "__array_ufunc__":
            return Builtin(name, apply_ufunc)
        raise Unsupported("ndarray." + name)

    def to_float(self, it):
        if isinstance(self.length, int) and self.length == 1:
            return real(self.at(0))
        raise Unsupported("float of an array")


class Arr2(Ext):
    """Two-dimensional array: rows given as 1-D functions; row-major."""

    name = "ndarray2"

    def __init__(self, kind, nrows, ncols, fn):
        self.kind, self.nrows, self.ncols, self.fn = kind, nrows, ncols, fn

    def getattr(self, it, name):
        if name == "T":
            f = self.fn
            return Arr2(self.kind, self.ncols, self.nrows, lambda i, j: f(j, i))
        if name == "reshape":
            return Builtin("reshape", lambda it, *s: self.flat(it, s))
        if name in ("flatten", "ravel"):
            return Builtin(name, lambda it: self.flat(it, (-1,)))
        if name == "shape":
            return (self.nrows, self.ncols)
        raise Unsupported("2-D array." + name)

    def flat(self, it, shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if len(shape) != 1:
            raise Unsupported("reshape of a 2-D array")
        n = z3.simplify(num(self.nrows) * num(self.ncols))
        if not (isinstance(shape[0], int) and shape[0] == -1):
            if not it.ctx.proves(n == num(shape[0]), 2000):
                raise Unsupported("reshape to another size")
        if not isinstance(self.ncols, int):
            c = z3.simplify(num(self.ncols))
            if not z3.is_int_value(c):
                raise Unsupported("flattening of rows of symbolic length")
            self.ncols = c.as_long()
        f, c = self.fn, self.ncols
        return NArr(self.kind, n, lambda i: f(z3.simplify(num(i) / c), z3.simplify(num(i) % c)))


def reshape(it, a, s):
    if len(s) == 1 and isinstance(s[0], tuple):
        s = s[0]
    if len(s) == 1:
        return a
    r, c = s
    if isinstance(r, int) and not isinstance(c, int):
        n = num(a.length)
        if not it.ctx.proves(n == r * num(c)):
            it.ctx.taint.append("reshape to another size")
            raise Unsupported("reshape to another size")
        f = a.fnow()
        return Arr2(a.kind, r, c, lambda i, j: f(z3.simplify(num(i) * num(c) + num(j))))
    raise Unsupported("reshape")


def neg(x):
    if x is NAN:
        return x
    return -x if isinstance(x, (int, Fraction)) else -num(x)


def fresh_arr(ctx, nm, kind, length):
    if kind == "f":
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.R))
        return NArr("f", length, lambda i: z3.Select(a, num(i)))
    if kind == "i":
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.I))
        return NArr("i", length, lambda i: z3.Select(a, num(i)))
    if kind == "M":
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.I))
        return NArr("M", length, lambda i: Dt(z3.Select(a, num(i))))
    if kind == "b":
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.B))
        return NArr("b", length, lambda i: z3.Select(a, num(i)))
    if kind == "U":
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.Str))
        return NArr("U", length, lambda i: core.SStr(z3.Select(a, num(i))))
    if kind == "datetime":
        from .dtm import PyDt

        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.I))
        return NArr("O", length, lambda i: PyDt(z3.Select(a, num(i))))
    raise Unsupported("fresh array of kind " + kind)


def bcast(it, v, n):
    """Element function of v broadcast to length n."""
    if isinstance(v, (NArr, PyList, tuple, SymList)):
        s = it.as_seq(v)
        m = num(s.length)
        if z3.is_int_value(z3.simplify(m)) and z3.simplify(m).as_long() == 1 and not (
            isinstance(n, int) and n == 1
        ):
            return lambda i: s.get(0)
        if not it.truth_cmp(z3.simplify(m == num(n))):
            it.throw("ValueError", "could not broadcast")
        return s.get
    if isinstance(v, Obj):
        raise Unsupported("broadcast of an object")
    return lambda i: v


def apply_ufunc(it, ufunc, method, *args, **kw):
    """ndarray.__array_ufunc__ of an elementwise function with one result."""
    out = kw.pop("out", None)
    if method != "__call__" or kw or not hasattr(ufunc, "apply"):
        raise Unsupported("ufunc." + str(method))
    if any(isinstance(a, Obj) for a in args):
        raise Unsupported("ufunc of an object")
    r = ufunc.apply(it, list(args))
    if not out:
        return r
    if not isinstance(out, tuple) or len(out) != 1 or not isinstance(out[0], NArr):
        raise Unsupported("out of a ufunc")
    assign_all(it, out[0], NArr(r.kind, r.length, r.fnow()))
    return out[0]


def assign_all(it, a, v):
    a.setitem(it, slice(None, None, None), v)


def _operand(it, x):
    if isinstance(x, PyList) or isinstance(x, tuple):
        return as_array(it, x)
    if hasattr(x, "as_narr"):
        return x.as_narr(it)
    return x


def _pair(it, a, b):
    a, b = _operand(it, a), _operand(it, b)
    if isinstance(a, NArr) and isinstance(b, NArr):
        n, m = num(a.length), num(b.length)
        one_a = z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1
        one_b = z3.is_int_value(z3.simplify(m)) and z3.simplify(m).as_long() == 1
        f, g = a.fnow(), b.fnow()
        if one_a and not one_b:
            return b.length, (lambda i: f(0)), g
        if one_b and not one_a:
            return a.length, f, (lambda i: g(0))
        if not it.truth_cmp(z3.simplify(n == m)):
            it.throw("ValueError", "operands could not be broadcast")
        return a.length, f, g
    if isinstance(a, NArr):
        f = a.fnow()
        return a.length, f, (lambda i: b)
    g = b.fnow()
    return b.length, (lambda i: a), g


def nan_op(it, op, x, y):
    if x is NAN or y is NAN:
        return NAN
    return it.binop(op, x, y)


def elementwise(it, op, a, b):
    for x in (a, b):
        if isinstance(x, Obj):
            from . import builtins as bi

            return bi.obj_binop(it, op, a, b)
    n, f, g = _pair(it, a, b)
    k = z3.Int("i!kind")
    sample = nan_op(it, op, f(k), g(k))
    return NArr(kind_of(sample), n, lambda i: nan_op(it, op, f(i), g(i)))


def elementwise_cmp(it, op, a, b):
    n, f, g = _pair(it, a, b)
    return NArr("b", n, lambda i: it.compare(op, f(i), g(i)))


def masked(it, a, m):
    """a[m] for a boolean array."""
    from .loops import filtered

    f, c = a.fnow(), m.fnow()
    out = PyList([])
    filtered(it, out, num(a.length), lambda i: sbool(c(num(i))), lambda i: f(i))
    r = NArr(a.kind, out.length, out.get)
    return r


def as_array(it, x, dtype=None, copy=False):
    k = dtype_kind(it, dtype) if dtype is not None else None
    if isinstance(x, NArr):
        if k is None or k == x.kind:
            return NArr(x.kind, x.length, x.fnow()) if copy else x
        return astype(it, x, dtype)
    if isinstance(x, Arr2):
        return x
    if hasattr(x, "as_narr"):
        return as_array(it, x.as_narr(it), dtype, copy)
    if isinstance(x, (PyList, tuple, SymList)):
        items = it.concrete_items(x)
        if items is not None and items and all(isinstance(y, NArr) for y in items):
            n = items[0].length
            for y in items[1:]:
                if not it.truth_cmp(z3.simplify(num(y.length) == num(n))):
                    raise Unsupported("ragged array")
            fs = [y.fnow() for y in items]
            rows = list_of([0])

            def fn(i, j):
                i = z3.simplify(num(i))
                if z3.is_int_value(i):
                    return fs[i.as_long()](j)
                r = fs[-1](j)
                for q in range(len(fs) - 2, -1, -1):
                    r = ite(i == q, fs[q](j), r)
                return r

            return Arr2(items[0].kind, len(items), n, fn)
        s = it.as_seq(x)
        if items is not None:
            kk = k or (common_kind([kind_of(y) for y in items]) if items else "f")
            conv = [conv_elem(kk, y) for y in items]
            return NArr(kk, len(items), list_of(conv).get if conv else (lambda i: Fraction(0)))
        g = s.get
        kk = k or kind_of(g(z3.Int("i!kind")))
        return NArr(kk, s.length, lambda i: conv_elem(kk, g(i)))
    if is_num(x) or isinstance(x, (Dt, Td)) or x is NAN:
        raise Unsupported("0-dimensional array")
    raise Unsupported("array of %r" % (x,))


def astype(it, a, t):
    k = dtype_kind(it, t)
    f = a.fnow()
    if k == a.kind and not (isinstance(t, str) and t.endswith("[Y]")):
        return NArr(k, a.length, f)
    unit = None
    if isinstance(t, str) and t == "datetime64[Y]":
        if a.kind != "i":
            raise Unsupported("astype datetime64[Y]")
        # January 1st of the year 1970 + n
        return NArr("M", a.length, lambda i: Dt(YEAR_START(z3.simplify(num(f(i)) + 1970))))
    if k == "O":
        if a.kind == "M":
            from .dtm import PyDt

            return NArr("O", a.length, lambda i: PyDt(f(i).e))
        return NArr("O", a.length, f)
    if a.kind == "U":
        if k != "f":
            raise Unsupported("conversion of an array of strings to " + k)
        from .builtins import STRNUM, STRVAL

        i, n = z3.Int("i!num"), num(a.length)
        e = lambda j: core.sstr(f(j))
        if it.ctx.choose(2) == 0:
            it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), STRNUM(e(i)))))
            return NArr("f", a.length, lambda i: STRVAL(e(num(i))))
        w = it.ctx.int("w!num")
        it.ctx.assume(z3.And(w >= 0, w < n, z3.Not(STRNUM(e(w)))))
        it.throw("ValueError", "could not convert string to float")
    return NArr(k, a.length, lambda i: conv_elem(k, f(i)))


def extreme(it, a, ismax):
    ctx = it.ctx
    n = num(a.length)
    if not it.truth_cmp(z3.simplify(n > 0)):
        it.throw("ValueError", "zero-size array")
    f = a.fnow()
    i = z3.Int("i!ext")
    sample = f(i)
    if isinstance(sample, Dt):
        m = ctx.int("m!ext")
        g = lambda j: f(j).e
    else:
        m = ctx.fresh("m!ext", num(sample).sort())
        g = lambda j: num(f(j))
    w = ctx.int("w!ext")
    ctx.assume(z3.And(w >= 0, w < n, g(w) == m))
    body = g(i) <= m if ismax else g(i) >= m
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body)))
    return Dt(m) if isinstance(sample, Dt) else m


ASUM = z3.Function("arr_sum", core.ArrIR, core.I, core.R)


def arr_sum(it, a):
    i = z3.Int("i!sum")
    n = num(a.length)
    f = a.fnow()
    return ASUM(z3.Lambda([i], z3.If(z3.And(i >= 0, i < n), real(f(i)), 0)), n)


def concatenate(it, xs):
    arrs = [as_array(it, x) for x in it.concrete_items(xs)]
    if any(isinstance(a, Arr2) for a in arrs):
        raise Unsupported("concatenate of 2-D arrays")
    kind = common_kind([a.kind for a in arrs if not (isinstance(a.length, int) and a.length == 0)])
    offs, n = [], z3.IntVal(0)
    fs = []
    for a in arrs:
        offs.append(n)
        fs.append(a.fnow())
        n = z3.simplify(n + num(a.length))

    def get(i):
        i = z3.simplify(num(i))
        if z3.is_int_value(i) and all(z3.is_int_value(o) for o in offs):
            j = max(q for q in range(len(offs)) if offs[q].as_long() <= i.as_long())
            return conv_elem(kind, fs[j](i.as_long() - offs[j].as_long()))

        def rec(q):
            if q == len(arrs) - 1:
                return conv_elem(kind, fs[q](z3.simplify(i - offs[q])))
            return ite_lazy(
                i < offs[q + 1],
                lambda: conv_elem(kind, fs[q](z3.simplify(i - offs[q]))),
                lambda: rec(q + 1),
            )

        return rec(0)

    if z3.is_int_value(n):
        n = n.as_long()
    return NArr(kind, n, get)


def linspace(it, a, b, n, dtype=None):
    """numpy.linspace: a + i * (b - a) / (n - 1), truncated for integer types."""
    k = dtype_kind(it, dtype) if dtype is not None else "f"
    A, Bb, N = real(a), real(b), num(n)
    ctx = it.ctx
    if not it.truth_cmp(z3.simplify(N >= 0)):
        it.throw("ValueError")

    step = ctx.real("step!linspace")
    d = z3.simplify(Bb - A)
    ctx.assume(z3.Implies(N > 1, step * z3.ToReal(N - 1) == d))
    ctx.ghost["linspace steps"] = ctx.ghost.get("linspace steps", ()) + (step,)

    def get(i):
        x = z3.If(N > 1, A + z3.ToReal(num(i)) * step, A)
        return conv_elem(k, x)

    return NArr(k, n, get)


def isnan(it, v):
    if v is NAN:
        return True
    if isinstance(v, (int, Fraction)) or is_z3(v):
        return False
    if isinstance(v, NArr):
        f = v.fnow()
        return NArr("b", v.length, lambda i: f(i) is NAN)
    if hasattr(v, "isnan"):
        return v.isnan(it)
    raise Unsupported("isnan(%r)" % (v,))


def datetime64(it, v, unit=None):
    if isinstance(v, Dt):
        return v
    if is_num(v) and unit == "s":
        return Dt(conv_elem("i", v))
    if is_num(v) and unit == "Y":
        return Dt(YEAR_START(z3.simplify(num(v) + 1970)))
    if hasattr(v, "to_dt64"):
        return v.to_dt64(it, unit)
    if isinstance(v, str):
        import datetime

        try:
            d = datetime.datetime.fromisoformat(v)
        except ValueError:
            raise Unsupported("datetime64(%r)" % v)
        return Dt(int((d - datetime.datetime(1970, 1, 1)).total_seconds()))
    raise Unsupported("datetime64(%r)" % (v,))


UNIT_S = {"s": 1, "m": 60, "h": 3600, "D": 86400, "W": 604800}


def timedelta64(it, v, unit="s"):
    if isinstance(v, Td):
        return v
    if is_num(v) and unit in UNIT_S:
        return Td(it.binop("Mult", conv_elem("i", v), UNIT_S[unit]))
    raise Unsupported("timedelta64(%r, %r)" % (v, unit))


NDARRAY = TypeVal("ndarray")


def vectorize(it, f):
    def call(it, a, *args):
        arr = as_array(it, a)
        g = arr.fnow()
        s = it.call(f, [g(z3.Int("i!kind"))] + list(args), {})
        return NArr(kind_of(s), arr.length, lambda i: it.call(f, [g(i)] + list(args), {}))

    return Builtin("vectorized", call)


def frompyfunc(it, f, nin, nout):
    return Builtin("ufunc", lambda it, a: _ufunc(it, f, a))


def _ufunc(it, f, a):
    from .loops import sym_comp
    import ast

    arr = as_array(it, a)
    items = it.concrete_items(arr.value())
    if items is not None:
        r = [it.call(f, [x], {}) for x in items]
        return NArr("O", len(r), list_of(r).get)
    # the summary of [f(x) for x in a]
    from .interp import Env

    env = Env(None, None, it.load("openscm.errors"))
    env.vars.update({"f": f, "a": arr})
    e = ast.parse("[f(x) for x in a]", mode="eval").body
    out = it.eval(e, env)
    return NArr("O", out.length, out.get)


class Errstate(Ext):
    name = "errstate"

    def enter(self, it):
        return None


def filler(it, v, dtype):
    k = "f" if dtype is None else dtype_kind(it, dtype)
    if k not in ("f", "i", "b"):
        raise Unsupported("dtype %r" % (dtype,))
    return {"f": Fraction(v), "i": v, "b": bool(v)}[k]


def full(it, n, v, dtype=None):
    if dtype is not None and kind_of(v) != dtype_kind(it, dtype):
        raise Unsupported("full with another dtype")
    if isinstance(n, tuple):
        (n,) = n
    return NArr(kind_of(v), n, lambda i: v)


def empty(it, n, dtype=None):
    if isinstance(n, tuple):
        (n,) = n
    return fresh_arr(it.ctx, "empty", "f" if dtype is None else dtype_kind(it, dtype), n)


def copyto(it, a, b):
    assign_all(it, a, b)


def can_cast(it, a, b, casting="safe"):
    order = "bif"
    ka, kb = a.kind, b.kind
    if ka == kb:
        return True
    if casting == "same_kind" and ka in order and kb in order:
        return order.index(ka) <= order.index(kb)
    raise Unsupported("can_cast")


def install(it):
    fns = {
        "array": lambda it, x, dtype=None, copy=True: as_array(it, x, dtype, True),
        "asarray": lambda it, x, dtype=None: as_array(it, x, dtype),
        "concatenate": concatenate,
        "linspace": linspace,
        "isnan": isnan,
        "full": full,
        "empty": empty,
        "zeros": lambda it, n, dtype=None: full(it, n, filler(it, 0, dtype)),
        "ones": lambda it, n, dtype=None: full(it, n, filler(it, 1, dtype)),
        "copyto": copyto,
        "can_cast": can_cast,
        "vectorize": vectorize,
        "frompyfunc": frompyfunc,
        "errstate": lambda it, **k: Errstate(),
        "arange": lambda it, n: NArr("i", n, lambda i: num(i)),
        "maximum": lambda it, a, b: minmax2(it, a, b, True),
        "minimum": lambda it, a, b: minmax2(it, a, b, False),
        "shares_memory": lambda it, a, b: a.root() is b.root(),
        "dtype": lambda it, t: DType(dtype_kind(it, t)),
        "copy": lambda it, a: as_array(it, a, None, True),
        "diff": lambda it, a: elementwise(it, "Sub", a.getitem(it, slice(1, None)), a.getitem(it, slice(None, -1))),
        "repeat": _repeat,
        "hstack": concatenate,
        "append": lambda it, a, b: concatenate(it, (a, PyList([b]) if is_num(b) or isinstance(b, (Dt, Td)) else b)),
        "flip": lambda it, a: as_array(it, a).getitem(it, slice(None, None, -1)),
        "zeros_like": lambda it, a: full(it, as_array(it, a).length, Fraction(0)),
        "ones_like": lambda it, a: full(it, as_array(it, a).length, Fraction(1)),
        "logical_and": lambda it, a, b: it.binop("BitAnd", a, b),
        "logical_or": lambda it, a, b: it.binop("BitOr", a, b),
        "logical_xor": lambda it, a, b: it.binop("BitXor", a, b),
        "logical_not": lambda it, a: it.unop("Invert", a),
        "full_like": lambda it, a, v: full(it, as_array(it, a).length, v),
        "empty_like": lambda it, a: empty(it, as_array(it, a).length),
        "reshape": lambda it, a, s: reshape(it, as_array(it, a), (s,)),
    }
    for m in ("any", "all", "min", "max", "sum", "mean"):
        fns[m] = (lambda m: lambda it, a: it.call(it.getattr(as_array(it, a), m), [], {}))(m)
    fns["amin"], fns["amax"] = fns["min"], fns["max"]
    for m, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div")):
        if m not in fns:
            fns[m] = (lambda op: lambda it, a, b: elementwise(it, op, as_array(it, a), b) if isinstance(a, NArr) else it.binop(op, a, b))(op)
    attrs = {n: Builtin("numpy." + n, f) for n, f in fns.items()}
    attrs.update(
        newaxis=None, nan=NAN, datetime64=DT_TYPE, timedelta64=TD_TYPE, ndarray=NDARRAY, float64=FLOAT64,
        floating=FLOATING, integer=INTEGER, int64=INT64, int=it.builtins["int"],
        float=it.builtins["float"], number=TypeVal("number"), str_=STR_, bool_=BOOL_,
    )
    DT_TYPE.fn = datetime64
    TD_TYPE.fn = timedelta64
    FLOAT64.fn = it.builtins["float"].fn
    INT64.fn = it.builtins["int"].fn
    it.ext["numpy"] = ExtModule("numpy", attrs)
    it.ext["numpy.lib.mixins"] = ExtModule("numpy.lib.mixins", {"NDArrayOperatorsMixin": TypeVal("NDArrayOperatorsMixin")})


def _repeat(it, a, n):
    raise Unsupported("repeat")


def minmax2(it, a, b, ismax):
    from . import builtins as bi

    if isinstance(a, NArr) or isinstance(b, NArr):
        n, f, g = _pair(it, a, b)
        return NArr("f", n, lambda i: bi.minmax(it, [f(i), g(i)], {}, ismax))
    return bi.minmax(it, [a, b], {}, ismax)
