"""
Contract assumed on pint's unit registry: what a definition means (C06-C08).

  "X = [d]"            X is the unit of a new dimension d
  "X = e = S = A ..."  X (and its symbol S, unless "_", and its aliases) is the quantity e
  "@alias X = A ..."   A is another name of X

A later definition of a name replaces an earlier one.  Expressions are products of numbers
and units.  A quantity is a number times a product of powers of units; converting to base
units replaces every unit by its definition.  A context adds transformations between
dimensions; a transformation between the dimensions of two units is what converts between
them within the context.
"""
import ast
import csv
import os
import re
from fractions import Fraction

import z3

from pyvc import core, npm, pintm
from pyvc.core import Builtin, Ext, ExtModule, NAN, Obj, PyDict, PyList, TypeVal, Unsupported, is_num, is_z3, num, real

# units of pint the definitions rest on (mass and time)
GIVEN = {
    "g": (Fraction(1), {"gram": 1}), "gram": (Fraction(1), {"gram": 1}), "kg": (Fraction(1000), {"gram": 1}),
    "t": (Fraction(10) ** 6, {"gram": 1}), "metric_ton": (Fraction(10) ** 6, {"gram": 1}), "tonne": (Fraction(10) ** 6, {"gram": 1}),
    "s": (Fraction(1), {"second": 1}), "second": (Fraction(1), {"second": 1}), "min": (Fraction(60), {"second": 1}),
    "hour": (Fraction(3600), {"second": 1}), "day": (Fraction(86400), {"second": 1}), "week": (Fraction(604800), {"second": 1}),
    "year": (Fraction("365.25") * 86400, {"second": 1}), "month": (Fraction("365.25") * 7200, {"second": 1}),
    "degreeC": "degreeC", "degreeF": "degreeF",
    "kt": (Fraction(1852, 3600), {"meter": 1, "second": -1}),  # knots, unless defined otherwise
}
PREFIXES = {p: Fraction(10) ** e for p, e in dict(k=3, M=6, G=9, T=12, P=15, E=18, m=-3, u=-6, n=-9).items()}
GIVEN_DIMS = {"gram": "[mass]", "second": "[time]", "meter": "[length]"}


def mul(a, b, sign=1):
    d = dict(a)
    for k, e in b.items():
        d[k] = d.get(k, 0) + sign * e
        if not d[k]:
            del d[k]
    return d


def times(a, b):
    return NAN if a is NAN or b is NAN else a * b


def over(a, b):
    if a is NAN or b is NAN:
        return NAN
    return real(a) / real(b) if is_z3(a) or is_z3(b) else Fraction(a) / Fraction(b)


class Q(Ext):
    """A quantity (a unit is the quantity 1 of it)."""

    name = "pint quantity"

    def __init__(self, reg, m, u):
        self.reg, self.m, self.u = reg, m, dict(u)

    def binop(self, it, op, a, b):
        a = a if isinstance(a, Q) else Q(self.reg, a, {}) if is_num(a) or a is NAN else None
        b = b if isinstance(b, Q) else Q(self.reg, b, {}) if is_num(b) or b is NAN else None
        if a is None or b is None:
            raise Unsupported("quantity times something else")
        if op == "Mult":
            return Q(self.reg, times(a.m, b.m), mul(a.u, b.u))
        if op == "Div":
            return Q(self.reg, over(a.m, b.m), mul(a.u, b.u, -1))
        raise Unsupported("quantities: " + op)

    def getattr(self, it, name):
        if name in ("m", "magnitude"):
            return self.m
        if name in ("_units", "units", "u"):
            return Q(self.reg, 1, self.u)
        if name == "to_base_units":
            return Builtin(name, lambda it: self.base())
        if name == "dimensionality":
            return self.reg.dimensionality(self)
        if name in ("to", "m_as"):

            def to(it, u):
                q = self.reg.convert(it, self, u if isinstance(u, Q) else self.reg.quantity(it, 1, u))
                return q.m if name == "m_as" else q

            return Builtin(name, to)
        raise Unsupported("quantity." + name)

    def isnan(self, it):
        return self.m is NAN

    def base(self):
        f, u = self.reg.root(self.u)
        return Q(self.reg, times(self.m, f), u)


class Defs:
    """The definitions made so far."""

    def __init__(self):
        self.d, self.order, self.contexts, self.active = {}, [], {}, []

    # -- definitions
    def define(self, it, s):
        if not isinstance(s, str):
            raise Unsupported("definition %r" % (s,))
        self.order.append(s)
        if s.startswith("@alias"):
            ns = [x.strip() for x in s[len("@alias"):].split("=")]
            for n in ns[1:]:
                self.d[n] = ("alias", ns[0])
            return None
        parts = [x.strip() for x in s.split("=")]
        if s.startswith("@") or len(parts) < 2 or not re.match(r"^[A-Za-z_][A-Za-z_0-9]*$", parts[0]):
            raise Unsupported("definition %r" % s)
        n, e = parts[:2]
        self.d[n] = ("base", e) if e.startswith("[") else ("expr", e)
        for k, x in enumerate(parts[2:]):
            if not (k == 0 and x == "_"):
                self.d[x] = ("expr", n)
        return None

    def name(self, n, seen=()):
        """(number, root units) of a unit."""
        if n in seen:
            raise Unsupported("recursive definition of " + n)
        if n not in self.d:
            if n in GIVEN and not isinstance(GIVEN[n], str):
                return GIVEN[n]
            for p, f in PREFIXES.items():
                rest = n[len(p):]
                if n.startswith(p) and (rest in self.d or rest in GIVEN):
                    a, u = self.name(rest, seen + (n,))
                    return a * f, u
            raise KeyError(n)
        kind, x = self.d[n]
        if kind == "base":
            return Fraction(1), {n: 1}
        return self.expr(x, seen + (n,))

    def expr(self, s, seen=()):
        return self.monomial(s, lambda n: self.name(n, seen))

    def monomial(self, s, name):
        try:
            t = ast.parse(re.sub(r"(?<=[\w)]) +(?=[A-Za-z(])", " * ", s.replace("^", "**")), mode="eval").body
        except SyntaxError:
            raise Unsupported("expression %r" % s)

        def ev(e):
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
                return Fraction(str(e.value)), {}
            if isinstance(e, ast.Name):
                return name(e.id)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)):
                (a, u), (b, w) = ev(e.left), ev(e.right)
                return (a * b, mul(u, w)) if isinstance(e.op, ast.Mult) else (a / b, mul(u, w, -1))
            raise Unsupported("expression %r" % s)

        return ev(t)

    def root(self, units):
        f, u = Fraction(1), {}
        for n, e in units.items():
            a, w = self.name(n)
            f *= a ** e
            u = mul(u, {k: x * e for k, x in w.items()})
        return f, u

    def dim_of_root(self, n):
        if n in GIVEN_DIMS and n not in self.d:
            return GIVEN_DIMS[n]
        return self.d[n][1]

    def dimensionality(self, q):
        _, u = self.root(q.u)
        d = {}
        for n, e in u.items():
            k = self.dim_of_root(n)
            d[k] = d.get(k, 0) + e
        return PyDict({k: e for k, e in d.items() if e})

    def convert(self, it, q, u):
        """q in the unit u."""
        if self.active:
            raise Unsupported("conversion in a context")
        (f, a), (g, b) = self.root(q.u), self.root(u.u)
        if a != b:
            it.throw("DimensionalityError")
        return Q(self, over(times(q.m, f), g), u.u)

    def quantity(self, it, m, s):
        if isinstance(s, Q):
            return Q(self, times(m, s.m), s.u)
        if not isinstance(s, str):
            raise Unsupported("unit %r" % (s,))
        def known(n):
            self.name(n)
            return Fraction(1), {n: 1}

        try:
            f, u = self.monomial(s, known)
        except KeyError:
            it.throw("UndefinedUnitError", s)
        return Q(self, times(m, f), u)


def dims(s):
    """A product of dimensions as written for a transformation."""
    if isinstance(s, PyDict):
        return frozenset(s.items.items())
    if not isinstance(s, str):
        raise Unsupported("dimension %r" % (s,))
    out, sign = {}, 1
    for tok in re.findall(r"\[[^]]*\]|[*/]|\S", s):
        if tok == "*":
            sign = 1
        elif tok == "/":
            sign = -1
        elif tok.startswith("["):
            out = mul(out, {tok: sign})
            sign = 1
        elif tok != "1":
            raise Unsupported("dimension %r" % s)
    return frozenset(out.items())


class Context(Ext):
    name = "pint.Context"

    def __init__(self, name):
        self.cname, self.tr = name, {}

    def getattr(self, it, name):
        if name == "add_transformation":

            def add(it, src, dst, func):
                self.tr[dims(src), dims(dst)] = func

            return Builtin(name, add)
        if name == "name":
            return self.cname
        raise Unsupported("Context." + name)


class Column(Ext):
    name = "Series"

    def __init__(self, labels, values):
        self.labels, self.values = labels, values

    def getattr(self, it, name):
        if name in ("iteritems", "items"):
            return Builtin(name, lambda it: PyList(list(zip(self.labels, self.values))))
        if name == "index":
            return PyList(list(self.labels))
        raise Unsupported("Series." + name)

    def getitem(self, it, k):
        if isinstance(k, str) and self.labels.count(k) == 1:
            return self.values[self.labels.index(k)]
        raise Unsupported("Series[%r]" % (k,))


class Table(Ext):
    """A table read from a file with named rows and columns."""

    name = "DataFrame"

    def __init__(self, columns, labels, rows):
        self.columns, self.labels, self.rows = columns, labels, rows

    def iterate(self, it):
        return PyList(list(self.columns))

    def getitem(self, it, k):
        if isinstance(k, str) and self.columns.count(k) == 1:
            j = self.columns.index(k)
            return Column(self.labels, [r[j] for r in self.rows])
        raise Unsupported("DataFrame[%r]" % (k,))

    def getattr(self, it, name):
        if name == "iloc":
            return ILoc(self)
        if name == "columns":
            return PyList(list(self.columns))
        if name == "index":
            return PyList(list(self.labels))
        if name in ("iteritems", "items"):
            return Builtin(name, lambda it: PyList([(c, self.getitem(it, c)) for c in self.columns]))
        if name == "drop":

            def drop(it, x):
                if x not in self.labels:
                    it.throw("KeyError")
                keep = [i for i, l in enumerate(self.labels) if l != x]
                return Table(self.columns, [self.labels[i] for i in keep], [self.rows[i] for i in keep])

            return Builtin("drop", drop)
        raise Unsupported("DataFrame." + name)


class ILoc(Ext):
    name = "iloc"

    def __init__(self, t):
        self.t = t

    def getitem(self, it, k):
        rows, cols = k if isinstance(k, tuple) else (k, slice(None))
        if not isinstance(rows, slice) or cols != slice(None):
            raise Unsupported("iloc[%r]" % (k,))
        return Table(self.t.columns, self.t.labels[rows], self.t.rows[rows])


def read_csv(it, path, skiprows=0, header="infer", index_col=None, **kw):
    if kw or header not in (0, "infer") or index_col != 0 or not isinstance(skiprows, int):
        raise Unsupported("arguments of read_csv")
    path = os.path.realpath(path)
    it.ctx.ghost["file read"] = path
    rows = [r for r in list(csv.reader(open(path, newline="")))[skiprows:] if any(r)]
    val = lambda s: NAN if s.strip() in ("", "nan", "NaN", "NA") else Fraction(s)
    try:
        body = [[val(x) for x in r[1:]] for r in rows[1:]]
    except ValueError:
        raise Unsupported("file with text in value columns")
    return Table(rows[0][1:], [r[0] for r in rows[1:]], body)


class Base(TypeVal):
    """pint.UnitRegistry as the base class of a registry."""

    def __init__(self):
        TypeVal.__init__(self, "UnitRegistry")

    def instantiate(self, it, c, args, kw):
        return registry(it, c)

    def super_attr(self, it, o, name):
        if name in ("enable_contexts", "__init__"):

            def enable(it, *a, **k):
                reg = o.f["\0defs"]
                if name == "enable_contexts":
                    missing = [x for x in a if isinstance(x, str) and x not in reg.contexts]
                    if missing:
                        it.throw("KeyError", missing[0])
                    reg.active.append((a, k))

            return Builtin(name, enable)
        r = self.instance_attr(it, o, name)
        if r is None:
            raise Unsupported("UnitRegistry." + name)
        return r

    def instance_attr(self, it, o, name):
        reg = o.f["\0defs"]
        if name == "define":
            return Builtin("define", reg.define)
        if name in ("__call__", "parse_expression"):
            return Builtin(name, lambda it, s: reg.quantity(it, 1, s))
        if name == "Unit":
            return Builtin(name, lambda it, s: reg.quantity(it, 1, s))
        if name == "Quantity":
            return Builtin(name, lambda it, m, s=None: reg.quantity(it, m, s))
        if name == "add_context":

            def add_context(it, c):
                reg.contexts[c.cname] = c

            return Builtin(name, add_context)
        if name in ("_get_dimensionality", "get_dimensionality"):
            return Builtin(name, lambda it, q: reg.dimensionality(q))
        if name == "_contexts":
            return PyDict(dict(reg.contexts))
        if name in reg.d or name in GIVEN:
            return Q(reg, 1, {name: 1})
        return None


def registry(it, c):
    o = Obj(c)
    o.f["\0defs"] = Defs()
    o.f["__call__"] = Builtin("__call__", lambda it, s: o.f["\0defs"].quantity(it, 1, s))
    return o


def install(it):
    """Replace the abstract contract of pint by the one of its definitions."""
    it.ext["pint"] = ExtModule("pint", {"UnitRegistry": Base(), "Context": Builtin("Context", lambda it, n: Context(n)), "errors": it.ext["pint.errors"]})
    it.ext["pandas"] = ExtModule("pandas", {"read_csv": Builtin("read_csv", read_csv)})
    path = ExtModule("os.path", {
        "join": Builtin("join", lambda it, *a: os.path.join(*a)), "dirname": Builtin("dirname", lambda it, a: os.path.dirname(a)),
        "abspath": Builtin("abspath", lambda it, a: os.path.abspath(a)), "realpath": Builtin("realpath", lambda it, a: os.path.realpath(a)),
        "normpath": Builtin("normpath", lambda it, a: os.path.normpath(a)),
    })
    it.ext["os"] = ExtModule("os", {"path": path})
    it.ext["os.path"] = path
    it.fresh_modules()


def standards(it):
    """The registry the module makes, as it is after its import."""
    install(it)
    m = it.load("openscm.core.units")
    from pyvc.interp import Env

    env = Env(None, None, m)
    env.vars = m.ns
    for st in m.tree.body:
        if isinstance(st, ast.Expr) and not isinstance(st.value, ast.Constant):
            it.exec_stmt(st, env)
    o = m.lookup("_unit_registry")
    if not isinstance(o, Obj) or "\0defs" not in o.f:
        raise Unsupported("unit registry of the module")
    return o, o.f["\0defs"]
