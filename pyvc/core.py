"""
pyvc core: values, path exploration and obligations.

The verifier executes the *real* abstract syntax tree of functions in /repo over
symbolic values.  Forking is done by deterministic re-execution along a decision trace.
"""
import time as _time
from fractions import Fraction

import z3

# ----------------------------------------------------------------------------- errors


class Unsupported(Exception):
    """A construct outside the supported subset: the function stays undecided."""


class PathAbort(Exception):
    """The current path is infeasible or already covered."""


class PyExc(Exception):
    """An exception raised by the verified program."""

    def __init__(self, value):
        super().__init__(value)
        self.value = value  # ExcVal


# ------------------------------------------------------------------------------ sorts

Str = z3.DeclareSort("Str")
AnyS = z3.DeclareSort("Any")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

_lits = {}


def lit(s):
    """The constant of sort Str standing for a literal string (literals are distinct)."""
    if s not in _lits:
        _lits[s] = z3.Const("str!" + repr(s), Str)
    return _lits[s]


def literal_of(e):
    """The literal string an expression stands for, or None."""
    if not z3.is_const(e):
        return None
    nm = e.decl().name()
    if not nm.startswith("str!"):
        return None
    import ast

    return ast.literal_eval(nm[4:])


NONE_STR = lit("\0None")
EMPTY_STR = lit("")


def literal_axioms():
    cs = list(_lits.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


class _NaN:
    def __repr__(self):
        return "NaN"


NAN = _NaN()

# ----------------------------------------------------------------------------- values


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(
        v, z3.ArithRef
    )


def num(v):
    """z3 expression for a number."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    if isinstance(v, SAny):
        return unbox_real(v.e)
    if hasattr(v, "as_num"):
        return v.as_num()
    raise Unsupported("number expected: %r" % (v,))


def real(v):
    e = num(v)
    return z3.ToReal(e) if z3.is_int(e) else e


def sbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


class Mut:
    """Mutable model object (content saved and restored around nested explorations)."""

    def __init__(self):
        ctx = Ctx.cur
        if ctx is not None:
            ctx.muts.append(self)

    def snap(self):
        return {
            k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v)
            for k, v in self.__dict__.items()
        }

    def restore(self, s):
        self.__dict__.clear()
        for k, v in s.items():
            self.__dict__[k] = (
                list(v) if type(v) is list else dict(v) if type(v) is dict else v
            )


class SStr:
    def __init__(self, e, opt=False):
        self.e = e
        self.opt = opt

    def __repr__(self):
        return "SStr(%s)" % self.e


def sstr(v):
    """z3 expression of sort Str for a string value (or None)."""
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, SStr):
        return v.e
    if v is None:
        return NONE_STR
    raise Unsupported("string expected: %r" % (v,))


class SAny:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SAny(%s)" % self.e


class SRef:
    """Reference to a heap object of a class in the heap schema (0 is None)."""

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e

    def __repr__(self):
        return "SRef(%s,%s)" % (self.cls, self.e)


class SEnum:
    """Symbolic enum member (code 0 is None)."""

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e

    def __repr__(self):
        return "SEnum(%s)" % self.e


class EnumMember:
    def __init__(self, cls, name, value, code):
        self.cls, self.name, self.value, self.code = cls, name, value, code

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class SymList:
    """Immutable symbolic sequence: length and element function."""

    kind = "list"

    def __init__(self, length, get, kind="list"):
        self.length = length
        self.get = get
        self.kind = kind

    def slice(self, a, b):
        g = self.get
        return SymList(z3.simplify(num(b) - num(a)), lambda i: g(num(a) + num(i)), self.kind)


class PyList(Mut):
    """Mutable list: concrete items, or (items is None) a symbolic length and content."""

    def __init__(self, items, length=None, get=None):
        super().__init__()
        self.items = list(items) if items is not None else None
        self.length = length
        self.get = get

    def value(self):
        if self.items is None:
            return SymList(self.length, self.get)
        return list_of(self.items)

    def make_symbolic(self, length, get):
        self.items, self.length, self.get = None, length, get

    def __repr__(self):
        return "PyList(%r)" % (self.items,) if self.items is not None else "PyList(sym)"


def ite(c, a, b):
    """Merge two values under a condition."""
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, sbool(a), sbool(b))
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        if z3.is_int(x) != z3.is_int(y):
            x, y = real(a), real(b)
        return z3.If(c, x, y)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(c, sstr(a), sstr(b)))
    if isinstance(a, SAny) and isinstance(b, SAny):
        return SAny(z3.If(c, a.e, b.e))
    if isinstance(a, SRef) and isinstance(b, SRef) and a.cls == b.cls:
        return SRef(a.cls, z3.If(c, a.e, b.e))
    if isinstance(a, EnumMember) and a is b:
        return a
    if isinstance(a, (SEnum, EnumMember)) and isinstance(b, (SEnum, EnumMember)):
        return SEnum(a.cls, z3.If(c, enum_code(a), enum_code(b)))
    if a is None and b is None:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "merge"):
        return a.merge(c, b)
    if hasattr(b, "merge"):
        return b.merge(z3.Not(c), a)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return z3.If(c, a, b)
    raise Unsupported("merge of %r and %r" % (a, b))


def enum_code(v):
    if v is None:
        return z3.IntVal(0)
    if isinstance(v, EnumMember):
        return z3.IntVal(v.code)
    return v.e


def list_of(items):
    items = list(items)

    def get(i):
        if isinstance(i, int):
            return items[i]
        i = z3.simplify(num(i))
        if z3.is_int_value(i):
            return items[i.as_long()]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(i == k, items[k], r)
        return r

    return SymList(len(items), get)


def subst(v, pairs):
    """Substitute z3 constants inside a value."""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (bool, int, Fraction, str, _NaN, EnumMember)):
        return v
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.e, *pairs), v.opt)
    if isinstance(v, SAny):
        return SAny(z3.substitute(v.e, *pairs))
    if isinstance(v, SRef):
        return SRef(v.cls, z3.substitute(v.e, *pairs))
    if isinstance(v, SEnum):
        return SEnum(v.cls, z3.substitute(v.e, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SymList):
        g = v.get
        return SymList(
            subst(v.length, pairs), lambda i: subst(g(i), pairs), v.kind
        )
    if hasattr(v, "subst"):
        return v.subst(pairs)
    raise Unsupported("substitution in %r" % (v,))


class PyDict(Mut):
    def __init__(self, items=()):
        super().__init__()
        self.items = dict(items)


class PySet(Mut):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)


class Obj(Mut):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.f = dict(fields or {})

    def __repr__(self):
        return "<%s object>" % (self.cls.name if self.cls else "?")


class ExcVal(Obj):
    def __init__(self, cls, args=()):
        super().__init__(cls)
        self.args = tuple(args)

    def __repr__(self):
        return "%s%r" % (self.cls.name, self.args)


class Ext:
    """External object with a modelled interface (subclasses override hooks)."""

    name = "ext"

    def getattr(self, it, name):
        raise Unsupported("attribute %s of %s" % (name, self.name))

    def setattr(self, it, name, v):
        raise Unsupported("set attribute %s of %s" % (name, self.name))

    def call(self, it, args, kw):
        raise Unsupported("call of %s" % self.name)

    def getitem(self, it, k):
        raise Unsupported("subscript of %s" % self.name)

    def setitem(self, it, k, v):
        raise Unsupported("subscript store of %s" % self.name)

    def truth(self, it):
        return True

    def iterate(self, it):
        raise Unsupported("iteration over %s" % self.name)

    def binop(self, it, op, a, b):
        raise Unsupported("operator %s on %s" % (op, self.name))

    def eq(self, it, o):
        return self is o

    def contains(self, it, x):
        raise Unsupported("in on %s" % self.name)

    def length(self, it):
        raise Unsupported("len of %s" % self.name)

    def enter(self, it):
        raise Unsupported("with %s" % self.name)

    def exit(self, it):
        pass

    def isinstance_of(self, it, cls):
        return None


class Builtin(Ext):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def call(self, it, args, kw):
        return self.fn(it, *args, **kw)

    def getattr(self, it, name):
        if name in ("__name__", "__qualname__"):
            return self.name
        raise Unsupported("attribute %s of %s" % (name, self.name))

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeVal(Ext):
    """A builtin or external type usable in isinstance/issubclass and calls."""

    def __init__(self, name, fn=None, base=None, attrs=None):
        self.name = name
        self.fn = fn
        self.base = base
        self.attrs = attrs or {}

    def call(self, it, args, kw):
        if self.fn is None:
            raise Unsupported("call of type %s" % self.name)
        return self.fn(it, *args, **kw)

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == "__name__":
            return self.name
        raise Unsupported("attribute %s of type %s" % (name, self.name))

    def __repr__(self):
        return "<type %s>" % self.name


class ExtModule(Ext):
    def __init__(self, name, attrs):
        self.name = name
        self.attrs = attrs

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        return Opaque(self.name + "." + name)


class Opaque(Ext):
    """An unmodelled external name: may be passed around but not used."""

    def __init__(self, name):
        self.name = name

    def getattr(self, it, name):
        return Opaque(self.name + "." + name)

    def getitem(self, it, k):
        if self.name.startswith("typing."):
            return Opaque(self.name + "[]")
        raise Unsupported("subscript of unmodelled " + self.name)

    def call(self, it, args, kw):
        raise Unsupported("call of unmodelled " + self.name)

    def truth(self, it):
        raise Unsupported("truth of unmodelled " + self.name)

    def __repr__(self):
        return "<opaque %s>" % self.name


# boxing into Any
_boxR = z3.Function("box_real", R, AnyS)
_unboxR = z3.Function("unbox_real", AnyS, R)
ANY_NONE = z3.Const("any_none", AnyS)
ANY_NAN = z3.Const("any_nan", AnyS)
ArrIR = z3.ArraySort(I, R)
_boxA = z3.Function("box_arr", ArrIR, I, AnyS)
_unboxA = z3.Function("unbox_arr", AnyS, ArrIR)
_unboxAL = z3.Function("unbox_arr_len", AnyS, I)


def unbox_real(e):
    if z3.is_app(e) and e.decl().eq(_boxR):
        return e.arg(0)
    return _unboxR(e)


def box_real(x):
    return _boxR(x)


def unbox_arr(e):
    if z3.is_app(e) and e.decl().eq(_boxA):
        return e.arg(0), e.arg(1)
    return _unboxA(e), _unboxAL(e)


def box_arr(a, n):
    return _boxA(a, n)


_x = z3.Real("bx")
_a = z3.Const("ba", ArrIR)
_n = z3.Int("bn")
BOX_AXIOMS = [
    z3.ForAll([_x], _unboxR(_boxR(_x)) == _x, patterns=[_boxR(_x)]),
    z3.ForAll(
        [_a, _n],
        z3.And(_unboxA(_boxA(_a, _n)) == _a, _unboxAL(_boxA(_a, _n)) == _n),
        patterns=[_boxA(_a, _n)],
    ),
]


# ---------------------------------------------------------------------------- solving


_arrs = {}


def arrays_of(e):
    """Names of array constants in an expression (cached)."""
    k = e.get_id()
    hit = _arrs.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if z3.is_array(x) and x.num_args() == 0:
                out.add(x.decl().name())
            todo.extend(x.children())
    _arrs[k] = (e, out)
    return out


def near(facts, goal):
    """Facts about the arrays a goal is about (and those these are related to)."""
    have = set(arrays_of(goal))
    if not have:
        return None
    quant = [f for f in facts if has_quant(f)]
    out = [f for f in facts if not has_quant(f)]
    for _ in range(3):
        more = [f for f in quant if arrays_of(f) and arrays_of(f) & have]
        for f in more:
            have |= arrays_of(f)
        quant = [f for f in quant if not any(f is g for g in more)]
        out += more
    return out if len(out) < len(facts) else None


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by = {}


STATS = Stats()


def has_quant(e, _cache={}):
    k = e.get_id()
    if k in _cache and _cache[k][0].eq(e):
        return _cache[k][1]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    _cache[k] = (e, r)
    return r


_decls = {}


def decls_of(e):
    """Names of the uninterpreted functions in an expression (cached)."""
    k = e.get_id()
    hit = _decls.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                out.add(d.name())
            todo.extend(x.children())
    _decls[k] = (e, out)
    return out


def trigger_decls(ax):
    """An axiom matters only if the heads of one of its patterns occur."""
    out = []
    for i in range(ax.num_patterns()):
        out.append(set().union(*[decls_of(c) for c in ax.pattern(i).children()]))
    return out


def relevant(axioms, formulas):
    have = set()
    for f in formulas:
        have |= decls_of(f)
    out, rest = [], []
    for a in axioms:
        if z3.is_quantifier(a) and a.num_patterns() > 0:
            rest.append((a, trigger_decls(a)))
        else:
            out.append(a)
            have |= decls_of(a)
    again = True
    while again and rest:
        again = False
        keep = []
        for a, ts in rest:
            if any(t <= have for t in ts):
                out.append(a)
                have |= decls_of(a)
                again = True
            else:
                keep.append((a, ts))
        rest = keep
    return out


def limits(s, ms):
    """
    Effort of about ms milliseconds: counted in steps of the solver, so that the outcome
    does not depend on the load of the machine (time only as a last resort).
    """
    s.set("rlimit", int(ms * 1500))
    s.set("timeout", int(ms * 4 + 1000))


def solve(formulas, timeout_ms, want_model=False, quant=True, seed=0):
    """sat / unsat / unknown for a conjunction (z3)."""
    t0 = _time.time()
    s = z3.Solver()
    limits(s, timeout_ms)
    if seed:
        s.set("smt.random_seed", seed)
    for f in formulas:
        if quant or not has_quant(f):
            s.add(f)
    for f in literal_axioms():
        s.add(f)
    r = s.check()
    STATS.solver_s += _time.time() - t0
    STATS.queries += 1
    m = None
    if r == z3.sat and want_model:
        m = s.model()
    return str(r), m


def saturates(formulas, timeout_ms):
    """
    Whether the solver runs out of instances to try before it runs out of time: the formulas
    are not contradictory as far as their triggers go (matching only, no model finding).
    """
    t0 = _time.time()
    s = z3.SimpleSolver()
    limits(s, timeout_ms)
    s.set("smt.mbqi", False)
    s.set("smt.auto_config", False)
    for f in formulas:
        s.add(f)
    for f in literal_axioms():
        s.add(f)
    r = s.check()
    why = s.reason_unknown() if r == z3.unknown else ""
    STATS.solver_s += _time.time() - t0
    STATS.queries += 1
    return str(r), why


def cvc5_check(formulas, timeout_ms):
    """unsat / sat / unknown by cvc5 through SMT-LIB."""
    import subprocess, tempfile, os

    s = z3.Solver()
    for f in formulas:
        s.add(f)
    for f in literal_axioms():
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = _time.time()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(txt)
        p = subprocess.run(
            ["cvc5", "--tlimit=%d" % (3 * timeout_ms), path],
            capture_output=True,
            text=True,
            timeout=3 * timeout_ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        r = out[0] if out else "unknown"
    except Exception:  # solver trouble: undecided
        r = "unknown"
    finally:
        os.unlink(path)
    STATS.solver_s += _time.time() - t0
    STATS.queries += 1
    return r if r in ("sat", "unsat") else "unknown"


# ------------------------------------------------------------------------ obligations


class Obligation:
    __slots__ = ("prop", "func", "name", "status", "backend", "t", "detail")

    def __init__(self, prop, func, name, status, backend="", t=0.0, detail=""):
        self.prop, self.func, self.name = prop, func, name
        self.status, self.backend, self.t, self.detail = status, backend, t, detail

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Ctx:
    """One exploration: path condition, heap, decisions, obligations."""

    cur = None
    FEAS_MS = 400
    PROVE_MS = 10000

    def __init__(self, prop="", func=""):
        self.prop, self.func = prop, func
        self.obls = []
        self.muts = []
        self.heap = {}
        self.next = {}
        self.pc = []
        self.trace = []
        self.pos = 0
        self.counter = {}
        self.taint = []  # abstractions on this path (refutations not trusted)
        self.broken = set()  # names of obligations that failed
        self.unroll = None  # exact unrolling of loops (to confirm failures)
        self.abstracted = set()  # loops summarised by generated invariants
        self.axioms = list(BOX_AXIOMS)
        self.deadline = None
        self.hints = []
        self.npaths = 0
        self.log = []  # ghost event log
        self.ghost = {}
        self.covered = set()
        self.heavy = {}
        self.quiet = 0  # >0 while probing: no obligations are recorded

    # -- names
    def fresh(self, base, sort):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return z3.Const("%s!%d" % (base, n), sort)

    def int(self, base="i"):
        return self.fresh(base, I)

    def real(self, base="x"):
        return self.fresh(base, R)

    def bool(self, base="b"):
        return self.fresh(base, B)

    # -- path condition
    def assume(self, f, heavy=False):
        """heavy: quantified background, only used where a proof without it fails."""
        f = sbool(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        if heavy:
            self.heavy[f.get_id()] = f

    def light(self, formulas):
        return [f for f in formulas if f.get_id() not in self.heavy]

    def facts(self, extra=()):
        return relevant(self.axioms, self.pc + list(extra)) + self.pc

    def feasible(self, extra=()):
        r, _ = solve(self.facts() + list(extra), self.FEAS_MS, quant=False)
        return r != "unsat"

    def branch(self, cond, what=""):
        """Fork on a condition; returns the Python truth value of this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.deadline and _time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            t = self.feasible([cond])
            f = self.feasible([z3.Not(cond)])
            if not t and not f:
                raise PathAbort()
            v = t
            self.trace.append([v, t and f])
        self.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def decide(self, fn):
        """A truth value computed once per path and replayed."""
        if self.pos >= len(self.trace):
            self.trace.append([bool(fn()), False])
        v = self.trace[self.pos][0]
        self.pos += 1
        return v

    def choose(self, n, what=""):
        """Nondeterministic choice 0..n-1 (fork)."""
        for k in range(n - 1):
            if self.pos < len(self.trace):
                v = self.trace[self.pos][0]
            else:
                v = True
                self.trace.append([True, True])
            self.pos += 1
            if v:
                return k
        return n - 1

    def _advance(self, base=0):
        while len(self.trace) > base:
            if self.trace[-1][1]:
                self.trace[-1] = [not self.trace[-1][0], False]
                return True
            self.trace.pop()
        return False

    # -- exploration
    def explore(self, fn, max_paths=400):
        """Run fn() on every path from the initial state."""
        prev = Ctx.cur
        Ctx.cur = self
        try:
            while True:
                self.pos = 0
                self.pc = []
                self.counter = {}
                self.heap = {}
                self.next = {}
                self.muts = []
                self.taint = []
                self.log = []
                self.ghost = {}
                self.npaths += 1
                if self.npaths > max_paths:
                    raise Unsupported("more than %d paths" % max_paths)
                try:
                    fn()
                except PathAbort:
                    pass
                if not self._advance():
                    return
        finally:
            Ctx.cur = prev

    def snapshot(self):
        return (
            dict(self.heap),
            dict(self.next),
            list(self.pc),
            dict(self.counter),
            list(self.taint),
            list(self.log),
            dict(self.ghost),
            list(self.muts),
            [(m, m.snap()) for m in self.muts],
        )

    def restore(self, s):
        self.heap = dict(s[0])
        self.next = dict(s[1])
        self.pc = list(s[2])
        self.counter = dict(s[3])
        self.taint = list(s[4])
        self.log = list(s[5])
        self.ghost = dict(s[6])
        self.muts = list(s[7])
        for m, c in s[8]:
            m.restore(c)

    def subexplore(self, fn, max_paths=200):
        """
        Run fn() on every path from the current state; yields the result of
        collect(fn) per path and restores the state afterwards.

        fn returns any value; result: list of (path formulas, value).
        """
        snap = self.snapshot()
        trace, pos = self.trace, self.pos
        counter_max = dict(self.counter)
        res = []
        self.trace = []
        n = 0
        try:
            while True:
                self.pos = 0
                self.restore(snap)
                n += 1
                if n > max_paths:
                    raise Unsupported("more than %d nested paths" % max_paths)
                try:
                    v = fn()
                    res.append((self.pc[len(snap[2]):], v))
                except PathAbort:
                    pass
                for k, c in self.counter.items():
                    counter_max[k] = max(counter_max.get(k, 0), c)
                if not self._advance():
                    break
        finally:
            self.trace, self.pos = trace, pos
            self.restore(snap)
            self.counter = counter_max
        return res

    def cover(self, name):
        """A point that must be reachable (guards against vacuous proofs)."""
        if name in self.covered or self.quiet:
            return
        r, _ = saturates(self.facts(), 5000)
        if r != "unsat":
            self.covered.add(name)

    # -- obligations
    def proves(self, f, timeout=None, quant=True):
        """Try to prove f silently."""
        f = z3.simplify(sbool(f))
        if z3.is_true(f):
            return True
        facts = self.facts([f])
        if quant and any(has_quant(g) for g in facts + [f]):
            r, why = saturates(facts + [z3.Not(f)], timeout or 2000)
            return r == "unsat"
        r, _ = solve(facts + [z3.Not(f)], timeout or 2000, quant=quant)
        return r == "unsat"

    def discharge(self, base, f):
        """
        (status, backend, model or reason).  Quantified facts: matching first (deterministic);
        if it runs out of instances without contradiction and neither model based instantiation
        nor cvc5 finds one, the obligation has failed; if time runs out, it is undecided.
        """
        neg = z3.Not(f)
        if not any(has_quant(g) for g in base) and not has_quant(f):
            r, m = solve(base + [neg], self.PROVE_MS, want_model=True)
            if r == "unknown":
                r = "unsat" if cvc5_check(base + [neg], self.PROVE_MS) == "unsat" else r
                return ("proved", "cvc5", None) if r == "unsat" else ("unknown", "z3", None)
            return ("proved" if r == "unsat" else "refuted"), "z3", m
        if self.heavy:
            light = self.light(base)
            if len(light) < len(base) and solve(light + [neg], 1000)[0] == "unsat":
                return "proved", "z3", None
        r, why = saturates(base + [neg], self.PROVE_MS)
        if r == "unsat":
            return "proved", "z3", None
        full = r == "unknown" and "incomplete" in why
        for sub in ((near(self.light(base), f), self.light(base)) if self.heavy else ()):
            if sub is not None and len(sub) < len(base):
                if solve(sub + [neg], 2000)[0] == "unsat":
                    return "proved", "z3-light", None
        r, m = solve(base + [neg], self.PROVE_MS / 2 if full else self.PROVE_MS, want_model=True)
        if r == "unsat":
            return "proved", "z3-mbqi", None
        if r == "sat":
            return "refuted", "z3", m
        if cvc5_check(base + [neg], self.PROVE_MS) == "unsat":
            return "proved", "cvc5", None
        if full:
            return "failed", "z3", "no contradiction by quantifier instantiation; no model either"
        for seed in (11, 23, 42):
            if not (self.deadline and _time.time() > self.deadline) and solve(base + [neg], self.PROVE_MS / 2, seed=seed)[0] == "unsat":
                return "proved", "z3", None
        return "unknown", "z3", None

    def oblige(self, name, f, hints=()):
        """Record and discharge an obligation on this path."""
        if self.quiet:
            return True
        if name in self.broken:
            return False  # has failed on an earlier path already
        f = sbool(f)
        t0 = _time.time()
        status, backend, detail = None, "z3", ""
        fs = z3.simplify(f)
        if z3.is_true(fs):
            status, backend = "proved", "simplifier"
        else:
            base = self.facts([f] + list(hints)) + list(hints)
            status, backend, m = self.discharge(base, f)
            if status in ("refuted", "failed"):
                if self.taint:
                    status = "unknown"
                    detail = "abstraction: %s; " % "; ".join(self.taint)
                try:
                    detail += str(m)[:3000]
                except Exception:
                    pass
        if status in ("refuted", "failed"):
            self.broken.add(name)
        if status != "proved":
            detail = ("goal: %s\npath: %s\n" % (fs, [str(p)[:200] for p in self.pc[-12:]]))[:3000] + detail
        self.obls.append(
            Obligation(
                self.prop, self.func, name, status, backend, _time.time() - t0, detail
            )
        )
        return status == "proved"

    def fail(self, name, detail):
        """An obligation that is violated on this (feasible) path."""
        if self.quiet:
            return
        t0 = _time.time()
        st, _, m = self.discharge(self.facts(), z3.BoolVal(False))
        if st in ("refuted", "failed") and self.taint:
            st = "unknown"
        self.obls.append(
            Obligation(
                self.prop,
                self.func,
                name,
                st,
                "z3",
                _time.time() - t0,
                "" if st == "proved" else "%s\n%s %s" % (detail, self.taint, str(m)[:2000]),
            )
        )
