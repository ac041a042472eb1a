"""Python builtins and methods of builtin values."""
from fractions import Fraction

import z3

from . import core
from .core import (
    Builtin, Ctx, EnumMember, ExcVal, Ext, ExtModule, Mut, NAN, Obj, Opaque, PyDict, PyExc,
    PyList, PySet, SAny, SEnum, SRef, SStr, SymList, TypeVal, Unsupported, is_num, is_z3,
    ite, list_of, lit, num, real, sbool, sstr,
)

CONCAT = z3.Function("str_concat", core.Str, core.Str, core.Str)
STR_OF_INT = z3.Function("str_of_int", core.I, core.Str)
STR_OF_REAL = z3.Function("str_of_real", core.R, core.Str)
STR_OF_ANY = z3.Function("str_of_any", core.AnyS, core.Str)
SPLIT_LEN = z3.Function("split_len", core.Str, core.Str, core.I)
SPLIT_AT = z3.Function("split_at", core.Str, core.Str, core.I, core.Str)
LOWER = z3.Function("str_lower", core.Str, core.Str)
UPPER = z3.Function("str_upper", core.Str, core.Str)
STRIP = z3.Function("str_strip", core.Str, core.Str)


def arith(it, op, a, b):
    conc = isinstance(a, (int, Fraction, bool)) and isinstance(b, (int, Fraction, bool))
    if conc:
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                it.throw("ZeroDivisionError")
            return Fraction(a) / Fraction(b)
        if op == "FloorDiv":
            if b == 0:
                it.throw("ZeroDivisionError")
            return a // b
        if op == "Mod":
            if b == 0:
                it.throw("ZeroDivisionError")
            return a % b
        if op == "Pow":
            return a ** b
        if op in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        raise Unsupported("operator " + op)
    if op in ("BitAnd", "BitOr", "BitXor") and all(
        isinstance(x, (bool, z3.BoolRef)) for x in (a, b)
    ):
        x, y = sbool(a), sbool(b)
        return {"BitAnd": z3.And(x, y), "BitOr": z3.Or(x, y), "BitXor": z3.Xor(x, y)}[op]
    x, y = num(a), num(b)
    if op in ("Add", "Sub", "Mult"):
        if z3.is_int(x) != z3.is_int(y):
            x, y = real(a), real(b)
        return {"Add": x + y, "Sub": x - y, "Mult": x * y}[op]
    if op == "Div":
        return real(a) / real(b)
    if op == "FloorDiv" and z3.is_int(x) and isinstance(b, int) and b > 0:
        return x / y
    if op == "FloorDiv" and (z3.is_real(x) or z3.is_real(y)):
        return z3.ToReal(z3.ToInt(real(a) / real(b)))
    if op == "Mod" and z3.is_int(x) and isinstance(b, int) and b > 0:
        return x % y
    if op == "Pow" and isinstance(b, int) and 0 <= b <= 4:
        r = z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)
        for _ in range(b):
            r = r * x
        return r
    raise Unsupported("operator %s" % op)


def concat(*parts):
    """Concatenation: nested to the right, neighbouring literals joined, so equal however bracketed."""
    flat = []

    def add(e):
        if z3.is_app(e) and e.decl().eq(CONCAT):
            add(e.arg(0))
            add(e.arg(1))
            return
        t = core.literal_of(e)
        if t == "":
            return
        if t is not None and flat and isinstance(flat[-1], str):
            flat[-1] += t
        else:
            flat.append(e if t is None else t)

    for p in parts:
        add(p if is_z3(p) else sstr(p))
    if not flat:
        return lit("")
    r = None
    for p in reversed(flat):
        e = lit(p) if isinstance(p, str) else p
        r = e if r is None else CONCAT(e, r)
    return r


def fmt(it, parts):
    for p in parts:
        if hasattr(p, "fmt"):
            r = p.fmt(it, parts)
            if r is not None:
                return r
    r = None
    for p in parts:
        e = to_str(it, p).e if not isinstance(p, str) else lit(p)
        r = e if r is None else concat(r, e)
    return SStr(r if r is not None else lit(""))


def to_str(it, v):
    if isinstance(v, str):
        return SStr(lit(v))
    if isinstance(v, SStr):
        return v
    if isinstance(v, bool) or v is None:
        return SStr(lit(str(v)))
    if isinstance(v, int):
        return SStr(lit(str(v)))
    if is_z3(v) and z3.is_int(v):
        return SStr(STR_OF_INT(v))
    if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)):
        return SStr(STR_OF_REAL(real(v)))
    if isinstance(v, SAny):
        return SStr(STR_OF_ANY(v.e))
    if hasattr(v, "as_text"):
        return v.as_text(it)
    # representation of other objects: only used in messages
    return SStr(it.ctx.fresh("repr", core.Str))


def other_binop(it, op, a, b):
    if op == "Add":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and a == "":
                return b
            if isinstance(b, str) and b == "":
                return a
            return SStr(concat(a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (PyList,)) and isinstance(b, PyList):
            r = PyList([])
            it.list_extend(r, a)
            it.list_extend(r, b)
            if hasattr(a, "flat") or hasattr(b, "flat"):
                raise Unsupported("flattened lists")
            return r
        if isinstance(a, (tuple, SymList)) and isinstance(b, (tuple, SymList)):
            A, B = it.as_seq(a), it.as_seq(b)
            n1 = num(A.length)
            from .interp import ite_lazy

            return SymList(
                z3.simplify(n1 + num(B.length)),
                lambda i: ite_lazy(num(i) < n1, lambda: A.get(i), lambda: B.get(num(i) - n1)),
                A.kind,
            )
    if op == "Mult":
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, PyList) and a.items is not None:
            if isinstance(b, int):
                return PyList(a.items * b)
            if is_z3(b) and len(a.items) == 1:
                x = a.items[0]
                n = z3.If(b > 0, b, 0)
                return PyList(None, n, lambda i: x)
        if isinstance(a, (PyList, SymList)) and is_z3(b) and it.ctx.proves(num(it.as_seq(a).length) == 1, 4000):
            x = it.as_seq(a).get(z3.IntVal(0))
            return PyList(None, z3.If(b > 0, b, 0), lambda i: x)
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    if op == "Mod" and isinstance(a, (str, SStr)):
        vals = b if isinstance(b, tuple) else (b,)
        if isinstance(a, str) and all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in vals):
            try:
                return a % vals
            except (TypeError, ValueError) as e:
                it.throw(type(e).__name__)
        return SStr(it.ctx.fresh("repr", core.Str))
    if op in ("BitAnd", "BitOr", "Sub") and isinstance(a, PySet) and isinstance(b, PySet):
        return set_op(it, op, a, b)
    if it.kind_of(a) and it.kind_of(b) and it.kind_of(a) != it.kind_of(b):
        it.throw("TypeError")
    raise Unsupported("operator %s on %r and %r" % (op, a, b))


def set_op(it, op, a, b):
    def member(x, s):
        return it.truth_cmp(it.contains(s, x))

    if op == "Sub":
        return PySet([x for x in a.items if not member(x, b)])
    if op == "BitAnd":
        return PySet([x for x in a.items if member(x, b)])
    return PySet(a.items + [x for x in b.items if not member(x, a)])


OPNAMES = {
    "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
    "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or", "MatMult": "matmul",
}


def obj_binop(it, op, a, b):
    n = OPNAMES.get(op)
    if n and isinstance(a, Obj):
        m = it.find_method(a, "__%s__" % n)
        if m is not None:
            return it.call(m, [b], {})
    if n and isinstance(b, Obj):
        m = it.find_method(b, "__r%s__" % n)
        if m is not None:
            return it.call(m, [a], {})
    raise Unsupported("operator %s on objects" % op)


def contains(it, c, x):
    if isinstance(c, Obj):
        m = it.find_method(c, "__contains__")
        if m is not None:
            return it.truth(it.call(m, [x], {}))
    if isinstance(c, SStr) and isinstance(x, (str, SStr)):
        raise Unsupported("substring test on a symbolic string")
    raise Unsupported("in on %r" % (c,))


def getitem(it, o, k):
    raise Unsupported("subscript of %r" % (o,))


# -------------------------------------------------------------------------- methods


def split_symbolic(it, s, sep):
    e = sstr(s)
    sp = sstr(sep)
    n = SPLIT_LEN(e, sp)
    it.ctx.assume(n >= 1)
    return PyList(None, n, lambda i: SStr(SPLIT_AT(e, sp, num(i))))


def method(it, v, name):
    if isinstance(v, (str, SStr)):
        return str_method(it, v, name)
    if isinstance(v, PyList):
        return list_method(it, v, name)
    if isinstance(v, PyDict):
        return dict_method(it, v, name)
    if isinstance(v, PySet):
        return set_method(it, v, name)
    if isinstance(v, (tuple, SymList)) and name in ("index", "count"):
        raise Unsupported("tuple." + name)
    if is_num(v) and name in ("real",):
        return v
    if isinstance(v, SEnum):
        if name == "value":
            raise Unsupported("enum value")
        m, c = v.cls.find(name)
        if m is not None:
            return it.bind(m, c, v, v.cls)
    if isinstance(v, Fraction) and name == "is_integer":
        return Builtin("is_integer", lambda it: v.denominator == 1)
    if v is None or isinstance(v, (bool, int)) or is_z3(v) or isinstance(v, (tuple, SymList, Fraction)):
        it.throw("AttributeError", name)
    raise Unsupported("attribute %s of %r" % (name, v))


def str_method(it, v, name):
    conc = isinstance(v, str)

    def f(it, *args, **kw):
        if conc and all(isinstance(a, (str, int)) for a in args) and name not in ("format", "join"):
            r = getattr(v, name)(*args, **kw)
            if isinstance(r, list):
                return PyList(r)
            return r
        if name == "split":
            if len(args) != 1:
                raise Unsupported("split")
            return split_symbolic(it, v, args[0])
        if name == "join" and hasattr(args[0], "joined") and conc:
            return args[0].joined(it, v)
        if name == "join":
            s = it.concrete_items(args[0])
            if s is not None and conc and all(isinstance(x, str) for x in s):
                return v.join(s)
            if s is not None:
                parts = []
                for i, x in enumerate(s):
                    if i and v != "":
                        parts.append(v)
                    if not isinstance(x, (str, SStr)):
                        it.throw("TypeError")
                    parts.append(x)
                return fmt(it, parts)
            return join_symbolic(it, v, it.as_seq(args[0]))
        if name == "format":
            if conc:
                return str_format(it, v, args, kw)
            raise Unsupported("format on a symbolic string")
        if name == "lower":
            return SStr(LOWER(sstr(v)))
        if name == "upper":
            return SStr(UPPER(sstr(v)))
        if name == "strip" and not args:
            return SStr(STRIP(sstr(v)))
        if name in ("startswith", "endswith"):
            p = z3.Function("str_" + name, core.Str, core.Str, core.B)
            return p(sstr(v), sstr(args[0]))
        raise Unsupported("str.%s on symbolic values" % name)

    if not hasattr(str, name):
        it.throw("AttributeError", name)
    return Builtin("str." + name, f)


JOIN = {}


def join_symbolic(it, sep, seq):
    """Uninterpreted join of a symbolic sequence (deterministic in length and items)."""
    arr = z3.ArraySort(core.I, core.Str)
    fn = z3.Function("str_join", core.Str, core.I, arr, core.Str)
    i = z3.Int("i!join")
    n = num(seq.length)
    body = sstr(seq.get(i))
    lam = z3.Lambda([i], z3.If(z3.And(i >= 0, i < n), body, core.EMPTY_STR))
    return SStr(fn(sstr(sep), n, lam))


def str_format(it, s, args, kw):
    import string

    parts = []
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(s):
        if text:
            parts.append(text)
        if field is None:
            continue
        if field == "":
            parts.append(args[auto])
            auto += 1
        elif field.isdigit():
            parts.append(args[int(field)])
        elif field in kw:
            parts.append(kw[field])
        else:
            raise Unsupported("format field " + field)
        if spec or conv:
            parts[-1] = it.ctx.fresh("repr", core.Str)
            parts[-1] = SStr(parts[-1])
    if all(isinstance(p, str) or type(p) is int for p in parts):
        return "".join(str(p) for p in parts)
    return fmt(it, parts)


def list_method(it, v, name):
    def f(it, *args, **kw):
        if name == "append":
            it.list_append(v, args[0])
            return None
        if name == "extend":
            it.list_extend(v, args[0])
            return None
        if name == "copy":
            return PyList(v.items, v.length, v.get)
        if v.items is not None:
            if name == "pop":
                if not v.items:
                    it.throw("IndexError")
                return v.items.pop(*args)
            if name == "insert":
                v.items.insert(args[0], args[1])
                return None
            if name == "reverse":
                v.items.reverse()
                return None
            if name == "index":
                for i, x in enumerate(v.items):
                    if it.truth_cmp(it.eq(x, args[0])):
                        return i
                it.throw("ValueError")
            if name == "remove":
                for i, x in enumerate(v.items):
                    if it.truth_cmp(it.eq(x, args[0])):
                        del v.items[i]
                        return None
                it.throw("ValueError")
            if name == "sort":
                v.items = list(sorted_(it, v, **kw).items)
                return None
        elif name == "insert" and args[0] == 0:
            g, n = v.get, v.length
            x = args[1]
            from .interp import ite_lazy

            v.make_symbolic(
                z3.simplify(num(n) + 1),
                lambda i: ite_lazy(num(i) == 0, lambda: x, lambda: g(num(i) - 1)),
            )
            return None
        elif name == "reverse":
            r = reversed_(it, v)
            v.make_symbolic(r.length, r.get)
            return None
        raise Unsupported("list." + name)

    if not hasattr(list, name):
        it.throw("AttributeError", name)
    return Builtin("list." + name, f)


def dict_method(it, v, name):
    def f(it, *args, **kw):
        if name == "get":
            k = it.dict_key(v, args[0])
            if k is None:
                return args[1] if len(args) > 1 else None
            return v.items[k]
        if name == "pop":
            k = it.dict_key(v, args[0])
            if k is None:
                if len(args) > 1:
                    return args[1]
                it.throw("KeyError")
            return v.items.pop(k)
        if name == "keys":
            return PyList(list(v.items.keys()))
        if name == "values":
            return PyList(list(v.items.values()))
        if name == "items":
            return PyList([(a, b) for a, b in v.items.items()])
        if name == "update":
            src = args[0] if args else PyDict(kw)
            if not isinstance(src, PyDict):
                raise Unsupported("dict.update")
            for k, x in src.items.items():
                it.setitem(v, k, x)
            return None
        if name == "copy":
            return PyDict(v.items)
        if name == "setdefault":
            k = it.dict_key(v, args[0])
            if k is None:
                v.items[args[0]] = args[1] if len(args) > 1 else None
                k = args[0]
            return v.items[k]
        raise Unsupported("dict." + name)

    if not hasattr(dict, name):
        it.throw("AttributeError", name)
    return Builtin("dict." + name, f)


def set_method(it, v, name):
    def f(it, *args, **kw):
        if name == "issubset":
            items = it.concrete_items(args[0])
            if items is None:
                return it.conj([it.contains(args[0], x) for x in v.items])
            return it.conj([it.contains(args[0], x) for x in v.items])
        if name == "add":
            if not it.truth_cmp(it.contains(v, args[0])):
                v.items.append(args[0])
            return None
        raise Unsupported("set." + name)

    return Builtin("set." + name, f)


# ------------------------------------------------------------------------ functions


def len_(it, v):
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PyList):
        if it.store_recorder is not None:
            pass
        return len(v.items) if v.items is not None else v.length
    if isinstance(v, SymList):
        return v.length
    if isinstance(v, (PyDict, PySet)):
        return len(v.items)
    if isinstance(v, Obj):
        m = it.find_method(v, "__len__")
        if m is not None:
            return it.call(m, [], {})
        it.throw("TypeError")
    if isinstance(v, Ext):
        return v.length(it) if callable(v.length) else v.length
    if v is None or is_num(v) or isinstance(v, (bool, EnumMember, SEnum)):
        it.throw("TypeError")
    raise Unsupported("len of %r" % (v,))


def range_(it, *args):
    if len(args) == 1:
        a, b = 0, args[0]
    elif len(args) == 2:
        a, b = args
    else:
        a, b, s = args
        if all(isinstance(x, int) for x in args):
            return tuple(range(a, b, s))
        if isinstance(s, int) and s == -1:
            n = z3.If(num(a) - num(b) > 0, num(a) - num(b), 0)
            return SymList(n, lambda i: num(a) - num(i))
        raise Unsupported("range step")
    if isinstance(a, int) and isinstance(b, int):
        if b - a > 100000:
            raise Unsupported("long range")
        return tuple(range(a, b))
    if isinstance(a, (Fraction,)) or isinstance(b, Fraction):
        it.throw("TypeError")
    d = num(b) - num(a)
    n = z3.simplify(z3.If(d > 0, d, 0))
    return SymList(n, lambda i: z3.simplify(num(a) + num(i)))


def enumerate_(it, v, start=0):
    s = it.as_seq(v)
    if isinstance(s.length, int):
        return tuple((i + start, s.get(i)) for i in range(s.length))
    return SymList(s.length, lambda i: (z3.simplify(num(i) + num(start)) if start else num(i), s.get(i)))


def zip_(it, *vs):
    ss = [it.as_seq(v) for v in vs]
    if all(isinstance(s.length, int) for s in ss):
        n = min(s.length for s in ss)
        return tuple(tuple(s.get(i) for s in ss) for i in range(n))
    n = num(ss[0].length)
    for s in ss[1:]:
        m = num(s.length)
        n = z3.If(m < n, m, n)
    return SymList(z3.simplify(n), lambda i: tuple(s.get(i) for s in ss))


def reversed_(it, v):
    items = it.concrete_items(v)
    if items is not None:
        return PyList(list(reversed(items)))
    s = it.as_seq(v)
    n = num(s.length)
    return SymList(s.length, lambda i: s.get(z3.simplify(n - 1 - num(i))))


def sorted_(it, v, key=None, reverse=False):
    items = it.concrete_items(v)
    if items is None or key is not None:
        raise Unsupported("sorted on symbolic values")
    if all(isinstance(x, str) for x in items) or all(isinstance(x, (int, Fraction)) for x in items):
        return PyList(sorted(items, reverse=bool(reverse)))
    raise Unsupported("sorted on symbolic values")


def quant(it, v, isall):
    items = it.concrete_items(v)
    if items is not None:
        for x in items:
            t = it.truth(x)
            if isall and not t:
                return False
            if not isall and t:
                return True
        return isall
    s = it.as_seq(v)
    i = it.ctx.int("i!q")
    x = s.get(i)
    if not isinstance(x, (bool, z3.BoolRef)):
        raise Unsupported("any/all over non-boolean symbolic values")
    rng = z3.And(i >= 0, i < num(s.length))
    const = x if isinstance(x, bool) else True if z3.is_true(z3.simplify(x)) else False if z3.is_false(z3.simplify(x)) else None
    if const is not None:  # the same for all
        return isall if const is isall else num(s.length) <= 0 if isall else num(s.length) > 0
    if isall:
        return z3.ForAll([i], z3.Implies(rng, sbool(x)))
    return z3.Exists([i], z3.And(rng, sbool(x)))


SUMR = z3.Function("sum_real", core.ArrIR, core.I, core.R)


def sum_(it, v, start=0):
    items = it.concrete_items(v)
    if items is not None:
        r = start
        for x in items:
            r = it.binop("Add", r, x)
        return r
    if isinstance(start, (PyList, tuple)) and not (start.items if isinstance(start, PyList) else start):
        return concat_lists(it, it.as_seq(v), isinstance(start, tuple))
    hook = getattr(it, "sum_hook", None)
    if hook is not None:
        r = hook(it, v, start)
        if r is not NotImplemented:
            return r
    raise Unsupported("sum over a symbolic sequence")


def pack_elem(x):
    if isinstance(x, SRef):
        return [x.e], lambda ts: SRef(x.cls, ts[0])
    if isinstance(x, SStr):
        return [x.e], lambda ts: SStr(ts[0], x.opt)
    if is_num(x):
        return [num(x)], lambda ts: ts[0]
    if hasattr(x, "pack"):
        return x.pack(), x.unpack
    raise Unsupported("list of %r" % (x,))


def concat_lists(it, v, tup):
    """Concatenation of a symbolic number of lists: OFF(j) elements come from the first j lists."""
    ctx = it.ctx
    n = num(v.length)

    def inner(j):
        x = v.get(j)
        if isinstance(x, PyList):
            x = x.value()
        if not isinstance(x, SymList):
            raise Unsupported("sum of %r" % (x,))
        return x

    j, k, i = z3.Ints("j!cat k!cat i!cat")
    ln = lambda j: num(inner(j).length)
    ts, unpack = pack_elem(inner(j).get(k))
    name = lambda b: str(ctx.fresh(b, core.I))
    off = z3.Function(name("offset!cat"), core.I, core.I)
    seg = z3.Function(name("segment!cat"), core.I, core.I)
    fs = [z3.Function(name("cat"), core.I, t.sort()) for t in ts]
    ctx.assume(off(0) == 0)
    step = lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(ln(j) >= 0, off(j + 1) == off(j) + ln(j)))
    lj = ln(j)
    ctx.assume(z3.ForAll([j], step(j), patterns=[z3.MultiPattern(off(j), lj) if z3.is_app(lj) and lj.num_args() and lj.decl().kind() == z3.Z3_OP_UNINTERPRETED else off(j + 1)]))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), z3.And(off(j) >= 0, off(j) <= off(n))), patterns=[off(j)]))
    for f, t in zip(fs, ts):
        ctx.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < n, k >= 0, k < ln(j)), f(off(j) + k) == t), patterns=[t] if z3.is_app(t) and t.num_args() else []))
    # every index lies in one segment
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < off(n)), z3.And(
        seg(i) >= 0, seg(i) < n, off(seg(i)) <= i, i < off(seg(i)) + ln(seg(i)),
        *[f(i) == z3.substitute(t, (j, seg(i)), (k, i - off(seg(i)))) for f, t in zip(fs, ts)])), patterns=[f(i) for f in fs] + [seg(i)]))
    r = SymList(off(n), lambda i: unpack([f(num(i)) for f in fs]), "tuple" if tup else "list")
    r.off, r.parts, r.seg, r.step = off, v, seg, step  # (step: the definition of off for one index)
    return r


def minmax(it, args, kw, ismax):
    if len(args) == 1:
        items = it.concrete_items(args[0])
        if items is None:
            v = args[0]
            if hasattr(v, "getattr"):
                return it.call(v.getattr(it, "max" if ismax else "min"), [], {})
            raise Unsupported("min/max of a symbolic sequence")
        if not items:
            it.throw("ValueError")
    else:
        items = list(args)
    r = items[0]
    for x in items[1:]:
        if isinstance(r, (int, Fraction)) and isinstance(x, (int, Fraction)):
            r = max(r, x) if ismax else min(r, x)
            continue
        a, b = num(r), num(x)
        if z3.is_int(a) != z3.is_int(b):
            a, b = real(r), real(x)
        r = z3.If(b > a, b, a) if ismax else z3.If(b < a, b, a)
    return r


def int_(it, v=0):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.throw("ValueError")
    if is_z3(v):
        if z3.is_int(v):
            return v
        # truncation towards zero
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if hasattr(v, "to_int"):
        return v.to_int(it)
    raise Unsupported("int(%r)" % (v,))


def float_(it, v=0):
    if isinstance(v, str):
        if v.lower() == "nan":
            return NAN
        try:
            return Fraction(v)
        except ValueError:
            it.throw("ValueError")
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if v is NAN:
        return v
    if isinstance(v, SStr):
        if not it.truth(STRNUM(v.e)):
            it.throw("ValueError", "could not convert string to float")
        return STRVAL(v.e)
    if is_z3(v):
        return real(v)
    if hasattr(v, "to_float"):
        return v.to_float(it)
    if isinstance(v, SAny):
        return core.unbox_real(v.e)
    raise Unsupported("float(%r)" % (v,))


def getattr_(it, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return it.getattr(o, name)
    except PyExc as e:
        from .interp import EXC

        if d and e.value.cls.is_sub(EXC["AttributeError"]):
            return d[0]
        raise


def hasattr_(it, o, name):
    from .interp import EXC

    if isinstance(o, (str, int, bool, tuple, Fraction, SStr)) or o is None or is_z3(o):
        o2 = "" if isinstance(o, SStr) else (1 if is_z3(o) and z3.is_int(o) else 1.0 if is_z3(o) or isinstance(o, Fraction) else o)
        return hasattr(o2, name)
    if isinstance(o, PyList):
        return hasattr([], name)
    if isinstance(o, Builtin) and not isinstance(o, TypeVal):
        return hasattr([].append, name)
    try:
        it.getattr(o, name)
        return True
    except PyExc as e:
        if e.value.cls.is_sub(EXC["AttributeError"]):
            return False
        raise


def type_(it, v, *a):
    if a:
        raise Unsupported("type with three arguments")
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (EnumMember, SEnum)):
        return v.cls
    if hasattr(v, "type_of"):
        return v.type_of(it)
    from .interp import TYPES

    for n, t in [("bool", (bool, z3.BoolRef)), ("str", (str, SStr)), ("tuple", tuple), ("list", PyList), ("dict", PyDict), ("int", int), ("float", Fraction)]:
        if isinstance(v, t):
            return it.builtins[n]
    return Opaque("type")


def isinstance_(it, v, c):
    return it.isinstance_(v, c)


def issubclass_(it, c, d):
    from .interp import ClassVal

    if isinstance(d, tuple):
        return any(issubclass_(it, c, x) for x in d)
    if isinstance(c, ClassVal) and isinstance(d, ClassVal):
        return c.is_sub(d)
    if isinstance(c, TypeVal) and isinstance(d, TypeVal):
        t = c
        while t is not None:
            if t is d or t.name == d.name:
                return True
            t = t.base
        return False
    if isinstance(c, ClassVal):
        return any(b is d or getattr(b, "name", None) == getattr(d, "name", "") for b in c.ext_bases())
    raise Unsupported("issubclass")


def list_(it, v=None):
    if v is None:
        return PyList([])
    items = it.concrete_items(v)
    if items is not None:
        return PyList(items)
    if hasattr(v, "as_list"):
        return v.as_list(it)
    if isinstance(v, Ext):
        v = v.iterate(it)
        items = it.concrete_items(v)
        if items is not None:
            return PyList(items)
    s = it.as_seq(v)
    return PyList(None, s.length, s.get)


def tuple_(it, v=()):
    items = it.concrete_items(v)
    if items is not None:
        return tuple(items)
    s = it.as_seq(v)
    return SymList(s.length, s.get, "tuple")


def dict_(it, *args, **kw):
    d = PyDict()
    if args:
        if isinstance(args[0], PyDict):
            d.items.update(args[0].items)
        else:
            for p in it.concrete_items(args[0]) or []:
                it.setitem(d, p[0], p[1])
    d.items.update(kw)
    return d


def set_(it, v=()):
    if isinstance(v, PySet):
        return PySet(v.items)
    if hasattr(v, "as_set"):
        return v.as_set(it)
    items = it.concrete_items(v)
    if items is None and isinstance(v, Ext):
        items = it.concrete_items(v.iterate(it))
    if items is None:
        raise Unsupported("set of a symbolic sequence")
    return it.make_set(items)


def map_(it, f, *vs):
    items = [it.concrete_items(v) for v in vs]
    if all(x is not None for x in items):
        return PyList([it.call(f, list(a), {}) for a in zip(*items)])
    raise Unsupported("map over a symbolic sequence")


def str_(it, v=""):
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Obj):
        m = it.find_method(v, "__str__")
        if m is not None:
            return it.call(m, [], {})
    if hasattr(v, "to_str"):
        return v.to_str(it)
    return to_str(it, v)


def make_builtins(it):
    from .interp import EXC

    b = dict(EXC)
    b["NotImplemented"] = Opaque("NotImplemented")

    def add(name, fn, type_name=False):
        b[name] = TypeVal(name, fn) if type_name else Builtin(name, fn)

    add("len", len_)
    add("range", range_)
    add("enumerate", enumerate_)
    add("zip", zip_)
    add("reversed", reversed_)
    add("sorted", sorted_)
    add("any", lambda it, v: quant(it, v, False))
    add("all", lambda it, v: quant(it, v, True))
    add("sum", sum_)
    add("max", lambda it, *a, **k: minmax(it, a, k, True))
    add("min", lambda it, *a, **k: minmax(it, a, k, False))
    add("round", round_)
    add("abs", lambda it, v: abs(v) if isinstance(v, (int, Fraction)) else z3.If(num(v) < 0, -num(v), num(v)))
    add("getattr", getattr_)
    add("setattr", lambda it, o, n, v: it.setattr(o, n, v))
    add("hasattr", hasattr_)
    add("isinstance", isinstance_)
    add("issubclass", issubclass_)
    add("map", map_)
    add("repr", lambda it, v: to_str(it, v))
    add("print", lambda it, *a, **k: None)
    add("iter", lambda it, v: v)
    add("id", lambda it, v: id(v))
    add("callable", lambda it, v: True)
    add("int", int_, True)
    add("float", float_, True)
    add("str", str_, True)
    add("bool", lambda it, v=False: v if isinstance(v, z3.BoolRef) else it.truth(v), True)
    add("list", list_, True)
    add("tuple", tuple_, True)
    add("dict", dict_, True)
    add("set", set_, True)
    add("type", type_, True)
    add("object", lambda it: Obj(None), True)
    add("slice", lambda it, *a: slice(*a), True)
    b["int"].attrs = {}
    return b


def round_(it, x, n=None):
    """Half to even; exact decimal rounding (binary representation errors ignored)."""
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool) and (n is None or isinstance(n, int)):
        return round(x) if n is None else round(x, n)
    if not is_num(x) or not (n is None or isinstance(n, int)):
        raise Unsupported("round(%r)" % (x,))
    if z3.is_int(num(x)) and (n is None or n >= 0):
        return x
    f = Fraction(10) ** (n or 0)
    y = real(x) * real(f)
    k = z3.ToInt(y + z3.RealVal("1/2"))
    k = z3.If(z3.And(z3.ToReal(k) == y + z3.RealVal("1/2"), k % 2 == 1), k - 1, k)
    return k if n is None else z3.ToReal(k) / real(f)


def floor_(it, x):
    if isinstance(x, (int, Fraction)):
        import math

        return math.floor(x)
    return z3.ToInt(real(x))


STRNUM = z3.Function("is_number", core.Str, core.B)
STRVAL = z3.Function("number_in", core.Str, core.R)
LOG2 = z3.Function("log2", core.R, core.R)


def log2_(it, x):
    if not it.ctx.branch(real(x) > 0):
        it.throw("ValueError", "math domain error")
    return LOG2(real(x))


class NamedTupleClass(Mut, Ext):
    """Class made by collections.namedtuple, used as a bag of attributes."""

    name = "namedtuple"

    def __init__(self, names):
        Mut.__init__(self)
        self.names = list(names)
        self.attrs = {}

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == "_fields":
            return tuple(self.names)
        if name in self.names:
            raise Unsupported("descriptor of a namedtuple field")
        it.throw("AttributeError", name)

    def setattr(self, it, name, v):
        self.attrs[name] = v


def namedtuple(it, nm, fields):
    if isinstance(fields, str):
        names = fields.replace(",", " ").split()
    else:
        names = it.concrete_items(fields)
    return NamedTupleClass(names)


def make_ext(it):
    ext = it.ext
    ident = Builtin("cast", lambda it, t, v: v)
    ext["typing"] = ExtModule("typing", {"cast": ident, "TYPE_CHECKING": False, "Iterable": TypeVal("Iterable")})
    ext["enum"] = ExtModule("enum", {"Enum": TypeVal("Enum")})
    ext["abc"] = ExtModule(
        "abc", {"ABCMeta": TypeVal("ABCMeta"), "abstractmethod": Builtin("abstractmethod", lambda it, f: f)}
    )
    ext["math"] = ExtModule("math", {"log2": Builtin("log2", log2_), "floor": Builtin("floor", floor_), "ceil": Builtin("ceil", lambda it, x: -floor_(it, it.binop("Mult", x, -1)))})
    ext["collections"] = ExtModule("collections", {"namedtuple": Builtin("namedtuple", namedtuple)})
    ext["numbers"] = ExtModule("numbers", {"Number": TypeVal("Number")})
    ext["__future__"] = ExtModule("__future__", {})
    ext["warnings"] = ExtModule(
        "warnings", {"warn": Builtin("warn", lambda it, *a, **k: it.ctx.log.append(("warn",)))}
    )
    quiet = Ext()
    quiet.name = "Logger"
    say = {m: Builtin(m, lambda it, *a, **k: None) for m in ("debug", "info", "warning", "error", "critical", "exception", "log")}
    quiet.getattr = lambda it, name: say[name] if name in say else Opaque("logger." + name)
    ext["logging"] = ExtModule("logging", {"getLogger": Builtin("getLogger", lambda it, *a, **k: quiet), "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40})
