"""pyvc interpreter: executes the AST of the real functions over symbolic values."""
import ast
import os
from fractions import Fraction

import z3

from . import core
from .core import (
    AnyS, B, I, R, Str, Builtin, Ctx, EnumMember, ExcVal, Ext, ExtModule, Mut, NAN, Obj,
    Opaque, PathAbort, PyDict, PyExc, PyList, PySet, SAny, SEnum, SRef, SStr, SymList,
    TypeVal, Unsupported, enum_code, is_num, is_z3, ite, list_of, lit, num, real, sbool,
    sstr, subst,
)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class LoopCarried(Exception):
    """A loop body reads what an earlier iteration wrote."""


class Uninit:
    pass


UNINIT = Uninit()


class Env(Mut):
    def __init__(self, parent=None, func=None, module=None):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.func = func
        self.module = module if module is not None else (parent.module if parent else None)

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNINIT:
                    raise LoopCarried(name)
                return v
            e = e.parent
        return self.module.lookup(name)


class Func:
    def __init__(self, node, env, module, qual, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.module, self.qual, self.cls = node, env, module, qual, cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __repr__(self):
        return "<bound %r>" % (self.f,)


class Property:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.members = {}

    @property
    def qual(self):
        return "%s:%s" % (self.module.name if self.module else "builtins", self.name)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        r = []
        for c in self.mro():
            r += [b for b in c.bases if not isinstance(b, ClassVal)]
        return r

    def __repr__(self):
        return "<class %s>" % self.name


def _exc_classes():
    res = {}

    def mk(name, base):
        res[name] = ClassVal(name, [res[base]] if base else [], {}, None)

    mk("BaseException", None)
    for n, b in [
        ("Exception", "BaseException"),
        ("ArithmeticError", "Exception"),
        ("ZeroDivisionError", "ArithmeticError"),
        ("AssertionError", "Exception"),
        ("AttributeError", "Exception"),
        ("ImportError", "Exception"),
        ("LookupError", "Exception"),
        ("IndexError", "LookupError"),
        ("KeyError", "LookupError"),
        ("NotImplementedError", "Exception"),
        ("OSError", "Exception"),
        ("TypeError", "Exception"),
        ("ValueError", "Exception"),
        ("StopIteration", "Exception"),
        # external
        ("DimensionalityError", "TypeError"),
        ("UndefinedUnitError", "AttributeError"),
    ]:
        mk(n, b)
    return res


EXC = _exc_classes()
TYPES = {n: TypeVal(n) for n in ["str", "int", "float", "bool", "list", "tuple", "dict", "set", "type", "object"]}


class ModuleVal(Ext):
    def __init__(self, it, name, tree):
        self.it, self.name, self.tree = it, name, tree
        self.ns = {"__name__": name, "__file__": it.module_path(name)}
        self.pending = {}

    def load(self):
        env = Env(None, None, self)
        env.vars = self.ns
        for st in self.tree.body:
            self._exec_top(st, env)

    def _exec_top(self, st, env):
        it = self.it
        if isinstance(st, ast.Expr):
            return  # docstrings; module level calls have no effect on contracts
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                self.pending[nm] = (st, a)
            return
        if isinstance(st, ast.If) and "TYPE_CHECKING" in ast.dump(st.test):
            for s2 in st.body:
                self._exec_top(s2, env)
            return
        try:
            it.exec_stmt(st, env)
        except Unsupported as e:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.ns.setdefault(n.id, Opaque("%s.%s (%s)" % (self.name, n.id, e)))
        except PyExc:
            pass

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name]
        if name in self.pending:
            st, a = self.pending.pop(name)
            self.ns[name] = self.it.do_import(self, st, a)
            return self.ns[name]
        v = self.it.builtins.get(name)
        if v is not None:
            return v
        raise Unsupported("name %s not found in %s" % (name, self.name))

    def getattr(self, it, name):
        return self.lookup(name)


# heap schema: class -> field -> kind
class Schema:
    def __init__(self):
        self.cls = {}

    def add(self, cls, **fields):
        self.cls[cls] = fields


class SDict(Ext):
    """A dictionary field of a heap object (string keys, object values)."""

    name = "heap dict"

    def __init__(self, cls, field, owner, vcls):
        self.cls, self.field, self.owner, self.vcls = cls, field, owner, vcls

    def key(self):
        return self.cls + "." + self.field

    def arr(self, part):
        return Ctx.cur.heap[self.key() + part]

    def at(self, k):
        return z3.Select(z3.Select(self.arr("#map"), self.owner), sstr(k))

    def count(self):
        return z3.Select(self.arr("#cnt"), self.owner)

    def valid(self):
        # a count is never negative
        Ctx.cur.assume(self.count() >= 0)

    def truth(self, it):
        self.valid()
        return it.ctx.branch(self.count() != 0)

    def length(self, it):
        self.valid()
        return self.count()

    def contains(self, it, k):
        return self.at(k) != 0

    def getitem(self, it, k):
        v = self.at(k)
        if not it.ctx.branch(v != 0):
            it.throw("KeyError")
        return SRef(self.vcls, v)

    def setitem(self, it, k, v):
        c = Ctx.cur
        e = v.e
        m, n = self.arr("#map"), self.arr("#cnt")
        kk = sstr(k)
        old = z3.Select(z3.Select(m, self.owner), kk)
        keys = self.arr("#key")
        cnt = z3.Select(n, self.owner)
        if c.proves(old == 0, 500):  # (avoids conditional expressions)
            absent = z3.BoolVal(True)
        elif c.proves(old != 0, 500):
            absent = z3.BoolVal(False)
        else:
            absent = old == 0
        c.heap[self.key() + "#key"] = z3.simplify(z3.If(
            absent,
            z3.Store(keys, self.owner, z3.Store(z3.Select(keys, self.owner), cnt, kk)),
            keys,
        ))
        c.heap[self.key() + "#map"] = z3.Store(
            m, self.owner, z3.Store(z3.Select(m, self.owner), kk, e)
        )
        c.heap[self.key() + "#cnt"] = z3.Store(
            n, self.owner, z3.simplify(cnt + z3.If(absent, 1, 0))
        )

    def values_list(self, what):
        n = self.count()
        keys = z3.Select(self.arr("#key"), self.owner)
        mp = z3.Select(self.arr("#map"), self.owner)
        self.valid()

        def get(i):
            k = z3.Select(keys, num(i))
            v = z3.Select(mp, k)
            if what == "values":
                return SRef(self.vcls, v)
            if what == "keys":
                return SStr(k)
            return (SStr(k), SRef(self.vcls, v))

        return SymList(n, get)

    def iterate(self, it):
        return self.values_list("keys")

    def getattr(self, it, name):
        if name == "get":

            def get(it, k, d=None):
                v = self.at(k)
                if d is None:
                    return SRef(self.vcls, v)
                if it.ctx.branch(v != 0):
                    return SRef(self.vcls, v)
                return d

            return Builtin("dict.get", get)
        if name in ("values", "keys", "items"):
            return Builtin("dict." + name, lambda it: self.values_list(name))
        raise Unsupported("dict method " + name)


class Interp:
    def __init__(self, repo, schema=None):
        self.repo = repo
        self.modules = {}
        self.module_muts = []
        self.ref_classes = {}
        self.schema = schema or Schema()
        self.contracts = {}
        self.verifying = None
        self.ext = {}
        self.inv_gens = []
        self.depth = 0
        self.steps = 0
        self.store_recorder = None
        from . import builtins as bi

        self.builtins = bi.make_builtins(self)
        bi.make_ext(self)
        self.called = set()  # quals executed (inlined) or used by contract
        self.used_contracts = set()

    @property
    def ctx(self):
        return Ctx.cur

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def fresh_modules(self):
        """Forget what was loaded (a unit that installs other contracts loads anew)."""
        self.modules.clear()
        del self.module_muts[:]

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if not os.path.exists(path):
            raise Unsupported("no module " + name)
        with open(path) as fh:
            src = fh.read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported("syntax error in %s: %s" % (name, e))
        m = ModuleVal(self, name, tree)
        m.is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        prev = Ctx.cur
        Ctx.cur = lc = Ctx("", "load")
        rec, self.store_recorder = self.store_recorder, None
        try:
            m.load()
        finally:
            Ctx.cur = prev
            self.store_recorder = rec
        # module level objects: part of the state of every path
        new = [x for x in lc.muts if not isinstance(x, Env)]
        self.module_muts += [(x, x.snap()) for x in new]
        if prev is not None:
            prev.muts.extend(new)
        return m

    def reset(self):
        """State at the start of a path."""
        self.depth = self.steps = 0
        self.store_recorder = None
        self.verifying = None
        self.verifying_entered = False
        for x, s in self.module_muts:
            x.restore(s)
        if self.ctx is not None:
            self.ctx.muts.extend(x for x, _ in self.module_muts)

    def do_import(self, module, st, a):
        if isinstance(st, ast.Import):
            return self.ext_module(a.name if a.asname else a.name.split(".")[0])
        base = st.module or ""
        if st.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            if st.level > 1:
                parts = parts[: -(st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        if base.startswith("openscm"):
            sub = base + "." + a.name
            if os.path.exists(self.module_path(sub)) and os.path.isdir(
                os.path.join(self.repo, *base.split("."))
            ):
                m0 = self.load(base)
                if a.name not in m0.ns and a.name not in m0.pending:
                    return self.load(sub)
            return self.load(base).lookup(a.name)
        return self.ext_module(base).getattr(self, a.name)

    def ext_module(self, name):
        if name.startswith("openscm"):
            return self.load(name)
        if name in self.ext:
            return self.ext[name]
        parts = name.split(".")
        if parts[0] in self.ext:
            v = self.ext[parts[0]]
            for p in parts[1:]:
                v = v.getattr(self, p)
            return v
        return ExtModule(name, {})

    def resolve(self, qual):
        """'module:Class.method' -> Func (or Property part '...#set')."""
        mod, path = qual.split(":")
        setter = path.endswith("#set")
        path = path.replace("#set", "")
        v = self.load(mod)
        for p in path.split("."):
            if isinstance(v, ModuleVal):
                v = v.lookup(p)
            elif isinstance(v, ClassVal):
                v, _ = v.find(p)
                if v is None:
                    raise Unsupported("no such function " + qual)
            else:
                raise Unsupported("cannot resolve " + qual)
        if isinstance(v, Property):
            v = v.set if setter else v.get
        if isinstance(v, (StaticM, ClassM)):
            v = v.f
        if not isinstance(v, Func):
            raise Unsupported("not a function: " + qual)
        return v

    def cls(self, qual):
        mod, name = qual.split(":")
        return self.load(mod).lookup(name)

    # ---------------------------------------------------------------- exceptions
    def throw(self, cls, *args):
        if isinstance(cls, str):
            cls = EXC[cls]
        raise PyExc(ExcVal(cls, args))

    # -------------------------------------------------------------------- truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return self.ctx.branch(v)
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return self.ctx.branch(v != 0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, SStr):
            c = v.e != core.EMPTY_STR
            if v.opt:
                c = z3.And(c, v.e != core.NONE_STR)
            return self.ctx.branch(c)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            if v.items is not None:
                return len(v.items) > 0
            return self.truth_cmp(num(v.length) > 0)
        if isinstance(v, SymList):
            return self.truth_cmp(num(v.length) > 0)
        if isinstance(v, (PyDict, PySet)):
            return len(v.items) > 0
        if isinstance(v, SRef):
            return self.ctx.branch(v.e != 0)
        if isinstance(v, SEnum):
            return self.ctx.branch(v.e != 0)
        if isinstance(v, Obj):
            m = self.find_method(v, "__bool__") or self.find_method(v, "__len__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, Ext):
            r = v.truth(self)
            return r if isinstance(r, bool) else self.ctx.branch(r)
        if isinstance(v, (Func, Bound, ClassVal, EnumMember)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def truth_cmp(self, c):
        if isinstance(c, bool):
            return c
        return self.ctx.branch(c)

    # ----------------------------------------------------------------- equality
    def eq(self, a, b):
        """Equality as Python bool or z3 Bool."""
        if a is b and not isinstance(a, SAny):
            return True
        if isinstance(a, Ext):
            return a.eq(self, b)
        if isinstance(b, Ext):
            return b.eq(self, a)
        if a is NAN or b is NAN:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return sbool(a) == sbool(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return a == b
        if (is_num(a) or isinstance(a, (bool, z3.BoolRef))) and (
            is_num(b) or isinstance(b, (bool, z3.BoolRef))
        ):
            x, y = num(a), num(b)
            if z3.is_int(x) != z3.is_int(y):
                x, y = real(a), real(b)
            return x == y
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return sstr(a) == sstr(b)
        if (isinstance(a, SStr) and a.opt and b is None) or (
            isinstance(b, SStr) and b.opt and a is None
        ):
            return (a.e if b is None else b.e) == core.NONE_STR
        if isinstance(a, (SEnum, EnumMember)) and isinstance(b, (SEnum, EnumMember)):
            if isinstance(a, EnumMember) and isinstance(b, EnumMember):
                return a is b or (a.cls is b.cls and a.code == b.code)
            if a.cls is not b.cls:
                return False
            return enum_code(a) == enum_code(b)
        if isinstance(a, SEnum) and b is None or isinstance(b, SEnum) and a is None:
            return enum_code(a) == enum_code(b)
        if isinstance(a, SRef) and isinstance(b, SRef):
            if a.cls != b.cls:
                return False
            return a.e == b.e
        if isinstance(a, SRef) and b is None:
            return a.e == 0
        if isinstance(b, SRef) and a is None:
            return b.e == 0
        if a is None or b is None:
            if isinstance(a, SAny) or isinstance(b, SAny):
                return (a.e if b is None else b.e) == core.ANY_NONE
            return False
        if isinstance(a, SAny) and isinstance(b, SAny):
            return a.e == b.e
        if isinstance(a, SAny) and is_num(b) or isinstance(b, SAny) and is_num(a):
            return real(a) == real(b)
        seq = (tuple, PyList, SymList)
        if isinstance(a, seq) and isinstance(b, seq):
            if isinstance(a, tuple) != isinstance(b, tuple) and not (
                isinstance(a, SymList) or isinstance(b, SymList)
            ):
                return False
            return self.seq_eq(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False  # identity (no __eq__ in supported classes)
        ta, tb = self.kind_of(a), self.kind_of(b)
        if ta and tb and ta != tb:
            return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def kind_of(self, v):
        if isinstance(v, (str, SStr)):
            return "str"
        if is_num(v) or isinstance(v, (bool, z3.BoolRef)):
            return "num"
        if isinstance(v, (EnumMember, SEnum)):
            return "enum"
        if isinstance(v, (tuple, PyList, SymList)):
            return "seq"
        if isinstance(v, (PyDict, PySet)):
            return "coll"
        if isinstance(v, (ClassVal, Func, Bound)):
            return "callable"
        return None

    def as_seq(self, v):
        if isinstance(v, tuple):
            return list_of(v)
        if isinstance(v, PyList):
            return v.value()
        if isinstance(v, SymList):
            return v
        if isinstance(v, str):
            return list_of(list(v))
        if hasattr(v, "as_symlist"):
            return v.as_symlist()
        if isinstance(v, Ext):
            return self.as_seq(v.iterate(self))
        raise Unsupported("sequence expected: %r" % (v,))

    def concrete_items(self, v):
        """Items of a concretely sized sequence, else None."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            if v.items is not None:
                return list(v.items)
            v = v.value()
        if isinstance(v, (PyDict, PySet)):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymList):
            n = v.length
            if not isinstance(n, int):
                n = z3.simplify(n)
                if not z3.is_int_value(n):
                    return None
                n = n.as_long()
            return [v.get(i) for i in range(n)]
        return None

    def seq_eq(self, a, b):
        x, y = self.concrete_items(a), self.concrete_items(b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return self.conj([self.eq(p, q) for p, q in zip(x, y)])
        A, Bq = self.as_seq(a), self.as_seq(b)
        i = z3.Int("i!eq")
        body = sbool(self.eq(A.get(i), Bq.get(i)))
        n = num(A.length)
        return z3.And(
            n == num(Bq.length),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body)),
        )

    def conj(self, cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def is_(self, a, b):
        if b is None or a is None:
            o = a if b is None else b
            if isinstance(o, SRef):
                return o.e == 0
            if isinstance(o, SStr):
                return o.e == core.NONE_STR if o.opt else False
            if isinstance(o, SEnum):
                return o.e == 0
            if isinstance(o, SAny):
                return o.e == core.ANY_NONE
            if hasattr(o, "is_none"):
                return o.is_none()
            return o is None
        if isinstance(a, SRef) and isinstance(b, SRef):
            return self.eq(a, b)
        if isinstance(a, (EnumMember, SEnum)) or isinstance(b, (EnumMember, SEnum)):
            return self.eq(a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.eq(a, b)
        return a is b

    # ------------------------------------------------------------------- types
    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, PyList):
            raise Unsupported("isinstance list")
        if isinstance(v, Ext):
            r = v.isinstance_of(self, c)
            if r is not None:
                return r
        if isinstance(c, ClassVal):
            if isinstance(v, Obj):
                return v.cls is not None and v.cls.is_sub(c)
            if isinstance(v, SRef):
                return v.cls == c.name
            if isinstance(v, (EnumMember, SEnum)):
                return v.cls is c
            return False
        n = getattr(c, "name", None)
        if n is None:
            raise Unsupported("isinstance of %r" % (c,))
        n = n.split(".")[-1]
        if isinstance(v, (str, SStr)):
            if isinstance(v, SStr) and v.opt:
                raise Unsupported("isinstance of optional string")
            return n in ("str", "Iterable", "Sequence", "object", "Hashable")
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return n in ("bool", "int", "object", "Number", "Integral", "Hashable")
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
            return n in ("int", "object", "Number", "Integral", "Hashable")
        if isinstance(v, Fraction) or v is NAN or (is_z3(v) and z3.is_real(v)):
            return n in ("float", "object", "Number", "Real", "Hashable")
        if isinstance(v, (PyList,)):
            return n in ("list", "Iterable", "Sequence", "object")
        if isinstance(v, tuple):
            return n in ("tuple", "Iterable", "Sequence", "object", "Hashable")
        if isinstance(v, SymList):
            return n in (v.kind, "Iterable", "Sequence", "object")
        if isinstance(v, PyDict):
            return n in ("dict", "Iterable", "Mapping", "object")
        if isinstance(v, PySet):
            return n in ("set", "Iterable", "object")
        if v is None:
            return n in ("object", "NoneType", "Hashable")
        if isinstance(v, (Obj, SRef)):
            if n in ("str", "int", "float", "list", "tuple", "dict", "set", "ndarray", "Number", "bool"):
                return False
            if isinstance(v, Obj) and n == "Iterable":
                return self.find_method(v, "__iter__") is not None
            if n == "object":
                return True
            if isinstance(v, Obj) and v.cls is not None:
                return any(getattr(b, "name", None) == c.name for b in v.cls.ext_bases())
            return False
        if isinstance(v, slice):
            return n in ("slice", "object")
        if isinstance(v, (EnumMember, SEnum)):
            return n == "object" or n == "Hashable"
        raise Unsupported("isinstance(%r, %r)" % (v, c))

    # --------------------------------------------------------------- attributes
    def find_method(self, v, name):
        cls = v.cls if isinstance(v, Obj) else None
        if cls is None:
            return None
        m, _ = cls.find(name)
        if m is None:
            return None
        if isinstance(m, Func):
            return Bound(m, v)
        if isinstance(m, Bound) or isinstance(m, Builtin):
            return m
        return None

    def cls_of_ref(self, v):
        return self.ref_classes[v.cls]

    def bind(self, m, owner, self_, cls):
        if isinstance(m, Property):
            if m.get is None:
                raise Unsupported("write-only property")
            return self.call(m.get, [self_], {})
        if isinstance(m, Func):
            return Bound(m, self_)
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return Bound(m.f, cls)
        if isinstance(m, Builtin) and getattr(m, "method", False):
            return Bound(m, self_)
        return m

    def getattr(self, v, name):
        if isinstance(v, Obj):
            if v.cls is not None:
                m, c = v.cls.find(name)
                if isinstance(m, Property):
                    return self.bind(m, c, v, v.cls)
            if name in v.f:
                x = v.f[name]
                if x is UNINIT:
                    raise LoopCarried(name)
                if callable(x) and getattr(x, "_lazy", False):
                    return x(self)
                return x
            if name == "__class__":
                return v.cls
            if v.cls is not None:
                if m is not None:
                    return self.bind(m, c, v, v.cls)
                for b in v.cls.ext_bases():
                    if hasattr(b, "instance_attr"):
                        r = b.instance_attr(self, v, name)
                        if r is not None:
                            return r
            if isinstance(v, ExcVal) and name == "args":
                return v.args
            self.throw("AttributeError", name)
        if isinstance(v, SRef):
            if not self.must_nonnull(v):
                self.throw("AttributeError", name)
            fields = self.schema.cls[v.cls]
            if name in fields:
                return self.heap_get(v, name)
            cv = self.cls_of_ref(v)
            m, c = cv.find(name)
            if m is not None:
                return self.bind(m, c, v, cv)
            raise Unsupported("field %s.%s is not part of the heap schema" % (v.cls, name))
        if isinstance(v, SuperVal):
            mro = v.self_cls.mro() if hasattr(v, "self_cls") else None
            sc = v.self_.cls if isinstance(v.self_, Obj) else self.cls_of_ref(v.self_)
            mro = sc.mro()
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], c, v.self_, sc)
            for b in v.cls.ext_bases():
                if hasattr(b, "super_attr"):
                    return b.super_attr(self, v.self_, name)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, *a, **k: None)
            raise Unsupported("super().%s" % name)
        if isinstance(v, ClassVal):
            if name in v.members:
                return v.members[name]
            m, c = v.find(name)
            if m is not None:
                if isinstance(m, ClassM):
                    return Bound(m.f, v)
                if isinstance(m, StaticM):
                    return m.f
                return m
            if name == "__name__":
                return v.name
            if name == "__module__":
                return v.module.name
            for b in v.ext_bases():
                if hasattr(b, "class_attr"):
                    r = b.class_attr(self, v, name)
                    if r is not None:
                        return r
            self.throw("AttributeError", name)
        if isinstance(v, EnumMember):
            if name == "name":
                return v.name
            if name == "value":
                return v.value
            m, c = v.cls.find(name)
            if m is not None:
                return self.bind(m, c, v, v.cls)
        if isinstance(v, Ext):
            return v.getattr(self, name)
        if isinstance(v, Func) and name == "__name__":
            return v.name
        from . import builtins as bi

        return bi.method(self, v, name)

    def must_nonnull(self, v):
        c = self.ctx
        if not z3.is_int_value(v.e) and c.decide(lambda: bool(c.heavy) and c.proves(v.e != 0, 1500)):
            c.assume(v.e != 0)
            return True
        return c.branch(v.e != 0)

    def heap_kind(self, cls, field):
        return self.schema.cls[cls][field]

    def heap_sort(self, kind):
        if kind == "bool":
            return B
        if kind == "int":
            return I
        if kind in ("str", "ostr"):
            return Str
        if kind == "any":
            return AnyS
        if kind.startswith("ref:") or kind.startswith("oref:") or kind.startswith("enum:"):
            return I
        raise Unsupported(kind)

    def heap_init(self, ctx=None):
        """Arbitrary initial heap."""
        ctx = ctx or self.ctx
        for cls, fields in self.schema.cls.items():
            ctx.next[cls] = z3.Const("next!" + cls, I)
            ctx.assume(ctx.next[cls] >= 1)
            for f, kind in fields.items():
                self.heap_fresh(ctx, cls, f, kind, "0")

    def heap_fresh(self, ctx, cls, f, kind, tag):
        k = cls + "." + f
        if kind.startswith("dict:"):
            ctx.heap[k + "#map"] = z3.Const(k + "#map!" + tag, z3.ArraySort(I, z3.ArraySort(Str, I)))
            ctx.heap[k + "#cnt"] = z3.Const(k + "#cnt!" + tag, z3.ArraySort(I, I))
            ctx.heap[k + "#key"] = z3.Const(k + "#key!" + tag, z3.ArraySort(I, z3.ArraySort(I, Str)))
        else:
            ctx.heap[k] = z3.Const(k + "!" + tag, z3.ArraySort(I, self.heap_sort(kind)))

    def heap_get(self, ref, field):
        kind = self.heap_kind(ref.cls, field)
        k = ref.cls + "." + field
        if kind.startswith("dict:"):
            return SDict(ref.cls, field, ref.e, kind[5:])
        e = z3.Select(self.ctx.heap[k], ref.e)
        return self.wrap(kind, e)

    def wrap(self, kind, e):
        if kind in ("bool", "int"):
            return e
        if kind == "str":
            return SStr(e)
        if kind == "ostr":
            return SStr(e, True)
        if kind == "any":
            return SAny(e)
        if kind.startswith("oref:") or kind.startswith("ref:"):
            return SRef(kind.split(":")[1], e)
        if kind.startswith("enum:"):
            c = self.cls(kind[5:])
            self.ctx.assume(z3.And(e >= 0, e <= len(c.members)))
            return SEnum(c, e)
        raise Unsupported(kind)

    def unwrap(self, kind, v):
        if kind == "bool":
            if isinstance(v, (bool, z3.BoolRef)):
                return sbool(v)
            raise Unsupported("bool field")
        if kind == "int":
            return num(v)
        if kind in ("str", "ostr"):
            return sstr(v)
        if kind == "any":
            return self.to_any(v)
        if "ref:" in kind:
            return z3.IntVal(0) if v is None else v.e
        if kind.startswith("enum:"):
            return enum_code(v)
        raise Unsupported(kind)

    def to_any(self, v):
        if v is None:
            return core.ANY_NONE
        if v is NAN:
            return core.ANY_NAN
        if isinstance(v, SAny):
            return v.e
        if is_num(v):
            return core.box_real(real(v))
        if hasattr(v, "as_any"):
            return v.as_any(self)
        raise Unsupported("boxing %r" % (v,))

    def setattr(self, v, name, x):
        if isinstance(v, Obj):
            if v.cls is not None:
                m, c = v.cls.find(name)
                if isinstance(m, Property):
                    if m.set is None:
                        self.throw("AttributeError", name)
                    return self.call(m.set, [v, x], {})
            v.f[name] = x
            return
        if isinstance(v, SRef):
            if not self.must_nonnull(v):
                self.throw("AttributeError", name)
            kind = self.schema.cls[v.cls].get(name)
            if kind is None:
                cv = self.cls_of_ref(v)
                m, c = cv.find(name)
                if isinstance(m, Property) and m.set is not None:
                    return self.call(m.set, [v, x], {})
                raise Unsupported("unknown field %s.%s" % (v.cls, name))
            k = v.cls + "." + name
            h = self.ctx.heap
            if kind.startswith("dict:"):
                if isinstance(x, PyDict) and not x.items:
                    h[k + "#map"] = z3.Store(h[k + "#map"], v.e, z3.K(Str, z3.IntVal(0)))
                    h[k + "#cnt"] = z3.Store(h[k + "#cnt"], v.e, z3.IntVal(0))
                    return
                raise Unsupported("dict field assignment")
            h[k] = z3.Store(h[k], v.e, self.unwrap(kind, x))
            return
        if isinstance(v, ClassVal):
            v.ns[name] = x
            return
        if isinstance(v, Func) and name in ("__name__", "__qualname__", "__module__", "__doc__"):
            return None  # only for display
        if isinstance(v, Ext):
            return v.setattr(self, name, x)
        raise Unsupported("setattr on %r" % (v,))

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > 2000000:
            raise Unsupported("step limit")
        if isinstance(f, Bound):
            if isinstance(f.f, Builtin):
                return f.f.call(self, [f.self_] + list(args), kw)
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return f.call(self, list(args), kw)
        if isinstance(f, Obj):
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
            if "__call__" in f.f:
                return self.call(f.f["__call__"], args, kw)
        if f is None:
            self.throw("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        if c.is_sub(EXC["BaseException"]):
            return ExcVal(c, args)
        if c.members and args:  # enum by value
            for m in c.members.values():
                if m.value == args[0]:
                    return m
            self.throw("ValueError")
        con = self.contracts.get(c.qual)
        if con is not None and self.verifying != c.qual:
            self.used_contracts.add(c.qual)
            return con.invoke(self, args, kw)
        if c.name in self.schema.cls and self.ref_classes.get(c.name) is c:
            ctx = self.ctx
            r = ctx.next[c.name]
            ctx.next[c.name] = z3.simplify(r + 1)
            o = SRef(c.name, r)
            ctx.assume(r >= 1)
            ctx.log.append(("new", c.name, r))
        else:
            o = Obj(c)
        for b in c.ext_bases():
            if hasattr(b, "instantiate"):
                return b.instantiate(self, c, args, kw)
        m, owner = c.find("__init__")
        if m is not None:
            self.call(m, [o] + list(args), kw)
        elif args or kw:
            raise Unsupported("constructor of %s" % c.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        vals = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw("TypeError", "too many arguments")
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kw:
                vals[n] = kw.pop(n)
        for n in list(kw):
            if n in names:
                self.throw("TypeError", "multiple values for argument")
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in vals:
                vals[n] = d
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
        for n in names:
            if n not in vals:
                self.throw("TypeError", "missing argument " + n)
        if kw:
            if a.kwarg is None:
                self.throw("TypeError", "unexpected keyword argument")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PyDict(kw)
        return vals

    def call_func(self, f, args, kw):
        con = self.contracts.get(f.qual)
        if con is not None and not (
            self.verifying == f.qual and not self.verifying_entered
        ):
            self.used_contracts.add(f.qual)
            return con.invoke_func(self, f, args, kw)
        if self.verifying == f.qual:
            self.verifying_entered = True
        self.called.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion without contract: " + f.qual)
        try:
            return self.run_body(f, args, kw)
        finally:
            self.depth -= 1

    def run_body(self, f, args, kw):
        vals = self.bind_args(f, args, kw)
        env = Env(f.env, f, f.module)
        env.vars.update(vals)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        gen = getattr(f.node, "_is_gen", None)
        if gen is None:
            gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)
            )
            f.node._is_gen = gen
        if gen:
            env.yielded = PyList([])
            env.vars["\0yield"] = env.yielded
        try:
            self.exec_block(f.node.body, env)
        except ReturnSig as r:
            return env.yielded if gen else r.v
        return env.yielded if gen else None

    # --------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        return m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Return(self, st, env):
        raise ReturnSig(self.eval(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise BreakSig()

    def s_Continue(self, st, env):
        raise ContinueSig()

    def s_Import(self, st, env):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            env.vars[nm] = self.do_import(env.module, st, a)

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.do_import(env.module, st, a)

    def s_Global(self, st, env):
        pass

    def s_Nonlocal(self, st, env):
        raise Unsupported("nonlocal")

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.throw("AssertionError")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, PyDict):
                    kk = self.dict_key(o, k)
                    if kk is None:
                        self.throw("KeyError")
                    del o.items[kk]
                    return
                if isinstance(o, PyList) and isinstance(k, slice) and k == slice(None):
                    if self.store_recorder is not None:
                        self.store_recorder.note_other(o)
                    o.items, o.length, o.get = [], None, None
                    return
                if hasattr(o, "delitem"):
                    o.delitem(self, k)
                    return
                raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            env.vars[t.id] = self.inplace(op, cur, self.eval(st.value, env))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(st.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, PyList) and op == "Add":
            self.list_extend(cur, v)
            return cur
        if hasattr(cur, "inplace"):
            return cur.inplace(self, op, v)
        return self.binop(op, cur, v)

    def list_extend(self, l, v):
        if self.store_recorder is not None:
            self.store_recorder.note_other(l)
        x = self.concrete_items(v)
        if l.items is not None and x is not None:
            l.items.extend(x)
            return
        a, b = l.value(), self.as_seq(v)
        if a.length == 0 if isinstance(a.length, int) else False:
            l.make_symbolic(b.length, b.get)
            return
        if b.length == 0 if isinstance(b.length, int) else False:
            return
        n1 = num(a.length)

        def get(i):
            i = num(i)
            return ite_lazy(i < n1, lambda: a.get(i), lambda: b.get(i - n1))

        l.make_symbolic(z3.simplify(n1 + num(b.length)), get)

    def list_append(self, l, v):
        if self.store_recorder is not None and self.store_recorder.append(l, v):
            return
        if l.items is not None:
            l.items.append(v)
            return
        n1, g = num(l.length), l.get

        def get(i):
            i = num(i)
            return ite_lazy(i < n1, lambda: g(i), lambda: v)

        l.make_symbolic(z3.simplify(n1 + 1), get)

    def assign(self, t, v, env):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.concrete_items(v) if not isinstance(v, Ext) else self.concrete_items(self.as_seq(v))
            if items is None:
                raise Unsupported("unpacking a symbolic sequence")
            star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                (j,) = star
                m = len(items) - n + 1
                if m < 0:
                    self.throw("ValueError", "unpack")
                items = items[:j] + [PyList(items[j:j + m])] + items[j + m:]
            if len(items) != n:
                self.throw("ValueError", "unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_slice(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            e = env.lookup("\0exc")
            raise PyExc(e)
        v = self.eval(st.exc, env)
        if isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        if not isinstance(v, ExcVal):
            if isinstance(v, (Ext,)):
                raise Unsupported("raise of %r" % (v,))
            self.throw("TypeError", "exceptions must derive from BaseException")
        raise PyExc(v)

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        for x in ts:
                            if not isinstance(x, ClassVal):
                                raise Unsupported("except %r" % (x,))
                        match = any(e.value.cls.is_sub(x) for x in ts)
                    if match:
                        if h.name:
                            env.vars[h.name] = e.value
                        env.vars["\0exc"] = e.value
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            if st.finalbody:
                self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def s_With(self, st, env):
        exits = []
        for item in st.items:
            m = self.eval(item.context_expr, env)
            if not isinstance(m, Ext):
                raise Unsupported("with %r" % (m,))
            v = m.enter(self)
            exits.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(st.body, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            for m in reversed(exits):
                m.exit(self)
            raise
        for m in reversed(exits):
            m.exit(self)

    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env, st)
        env.vars[st.name] = v

    def decorate(self, d, v, env, st):
        if isinstance(d, ast.Name) and d.id == "property":
            return Property(v)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticM(v)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClassM(v)
        if isinstance(d, ast.Name) and d.id == "abstractmethod":
            return v
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            old = env.vars.get(st.name)
            if isinstance(old, Property):
                f = v
                f.qual = f.qual + "#set"
                return Property(old.get, f)
        if isinstance(d, ast.Attribute) and d.attr == "abstractmethod":
            return v
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "wraps":
            return v
        dv = self.eval(d, env)
        return self.call(dv, [v], {})

    def make_func(self, node, env, name=None):
        outer = env.func.qual + ".<locals>" if env.func is not None else None
        cls = getattr(env, "cls_name", None)
        n = name or getattr(node, "name", "<lambda>")
        if cls is not None:
            q = "%s:%s.%s" % (env.module.name, cls, n)
        elif outer:
            q = outer + "." + n
        else:
            q = "%s:%s" % (env.module.name, n)
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {
            a.arg: self.eval(d, env)
            for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
            if d is not None
        }
        closure = env
        if cls is not None:
            closure = env.parent
        elif env.func is None and env.parent is None:
            closure = None
        return Func(node, closure, env.module, q, None, defaults, kwd)

    def s_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            bases.append(self.eval(b, env))
        cenv = Env(env, env.func, env.module)
        if env.func is None and env.parent is None:
            cenv.parent = None
            # names resolve through the module
        cenv.cls_name = st.name
        c = ClassVal(st.name, bases, cenv.vars, env.module)
        is_enum = any(getattr(b, "name", "").split(".")[-1] == "Enum" for b in bases)
        for s in st.body:
            try:
                self.exec_stmt(s, cenv)
            except Unsupported as e:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        cenv.vars[n.id] = Opaque("%s (%s)" % (n.id, e))
        for k, v in list(cenv.vars.items()):
            if isinstance(v, Func):
                v.cls = c
            elif isinstance(v, Property):
                for x in (v.get, v.set):
                    if x is not None:
                        x.cls = c
            elif isinstance(v, (StaticM, ClassM)):
                v.f.cls = c
        if is_enum:
            code = 1
            for k, v in list(cenv.vars.items()):
                if k.startswith("_") or isinstance(v, (Func, Property, StaticM, ClassM)):
                    continue
                c.members[k] = EnumMember(c, k, v, code)
                del cenv.vars[k]
                code += 1
        env.vars[st.name] = c

    # -------------------------------------------------------------------- loops
    def s_For(self, st, env):
        itv = self.eval(st.iter, env)
        if hasattr(itv, "loop"):
            return itv.loop(self, st, env)
        items = self.concrete_items(itv)
        if items is None and isinstance(itv, Ext):
            itv = itv.iterate(self)
            items = self.concrete_items(itv)
        if items is not None:
            for x in items:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            self.exec_block(st.orelse, env)
            return
        from . import loops

        loops.sym_for(self, st, env, self.as_seq(itv))

    def s_While(self, st, env):
        from . import loops

        loops.sym_while(self, st, env)

    # -------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else Opaque("float")
        if v is Ellipsis:
            return Opaque("...")
        return v

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.eval_elts(e.elts, env))

    def e_List(self, e, env):
        return PyList(self.eval_elts(e.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported("starred symbolic sequence")
                out += items
            else:
                out.append(self.eval(x, env))
        return out

    def e_Set(self, e, env):
        return PySet(self.eval_elts(e.elts, env))

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, PyDict):
                    raise Unsupported("dict unpacking")
                d.items.update(src.items)
            else:
                self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval(v.value, env))
        return self.concat_str(parts)

    def concat_str(self, parts):
        if all(isinstance(p, (str, int, bool)) or p is None for p in parts):
            return "".join(str(p) for p in parts)
        from . import builtins as bi

        return bi.fmt(self, parts)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, env)
            t = self.truth(v)
            if isand and not t:
                return v if not is_z3(v) else False
            if not isand and t:
                return v if not is_z3(v) else True
        return self.eval(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, z3.BoolRef):
                return z3.Not(v)
            return not self.truth(v)
        if isinstance(v, Ext) or isinstance(v, Obj):
            return self.unop(op, v)
        if op == "USub":
            if isinstance(v, (int, Fraction)):
                return -v
            return -num(v)
        if op == "UAdd":
            return v
        if op == "Invert" and isinstance(v, int):
            return ~v
        return self.unop(op, v)

    def unop(self, op, v):
        if hasattr(v, "unop"):
            return v.unop(self, op)
        raise Unsupported("unary %s on %r" % (op, v))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import builtins as bi

        if isinstance(a, Ext):
            return a.binop(self, op, a, b)
        if isinstance(b, Ext):
            return b.binop(self, op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return bi.obj_binop(self, op, a, b)
        if (a is core.NAN and (is_num(b) or b is core.NAN) or b is core.NAN and is_num(a)) and op in ("Add", "Sub", "Mult", "Div"):
            return core.NAN
        if isinstance(a, SAny) and (is_num(b) or isinstance(b, SAny)):
            a = core.unbox_real(a.e)
        if isinstance(b, SAny) and is_num(a):
            b = core.unbox_real(b.e)
        if (is_num(a) or isinstance(a, (bool, z3.BoolRef))) and (
            is_num(b) or isinstance(b, (bool, z3.BoolRef))
        ):
            return bi.arith(self, op, a, b)
        return bi.other_binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return neg(self.is_(a, b))
        if op in ("Eq", "NotEq"):
            if hasattr(a, "compare") or hasattr(b, "compare"):
                r = self.ext_compare(op, a, b)
                if r is not None:
                    return r
            r = self.eq(a, b)
            return r if op == "Eq" else neg(r)
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return neg(self.contains(b, a))
        if hasattr(a, "compare") or hasattr(b, "compare"):
            r = self.ext_compare(op, a, b)
            if r is not None:
                return r
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if a is NAN or b is NAN:
            return False
        try:
            x, y = num(a), num(b)
        except Unsupported:
            if self.kind_of(a) != self.kind_of(b):
                self.throw("TypeError")
            raise
        if z3.is_int(x) != z3.is_int(y):
            x, y = real(a), real(b)
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]

    def ext_compare(self, op, a, b):
        if hasattr(a, "compare"):
            return a.compare(self, op, a, b)
        return b.compare(self, op, a, b)

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (tuple, PyList, PySet, PyDict, SymList)):
            items = self.concrete_items(c)
            if items is not None:
                rs = []
                for y in items:
                    r = self.eq(x, y)
                    if r is True:
                        return True
                    if r is not False:
                        rs.append(r)
                return z3.Or(*rs) if rs else False
            s = self.as_seq(c)
            i = self.ctx.int("i!in")
            return without_quantifier(
                self, i, x, lambda x: z3.And(i >= 0, i < num(s.length), sbool(self.eq(x, s.get(i))))
            )
        if isinstance(c, Ext):
            return c.contains(self, x)
        from . import builtins as bi

        return bi.contains(self, c, x)

    def eval_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(
                self.eval(s.lower, env) if s.lower is not None else None,
                self.eval(s.upper, env) if s.upper is not None else None,
                self.eval(s.step, env) if s.step is not None else None,
            )
        if isinstance(s, ast.Index):  # pragma: no cover (old Python)
            return self.eval(s.value, env)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_slice(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return self.eval_slice(e, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_slice(e.slice, env))

    def dict_key(self, d, k):
        """The existing key equal to k (or None)."""
        try:
            if k in d.items and not is_z3(k):
                return k
        except TypeError:
            pass
        for kk in d.items:
            r = self.eq(kk, k)
            if r is True or (r is not False and self.ctx.branch(r)):
                return kk
        return None

    def getitem(self, o, k):
        if isinstance(o, PyDict):
            kk = self.dict_key(o, k)
            if kk is None:
                if getattr(o, "default", None) is not None:
                    v = self.call(o.default, [], {})
                    o.items[k] = v
                    return v
                self.throw("KeyError", k)
            return o.items[kk]
        if isinstance(o, (tuple, PyList, SymList)):
            return self.seq_index(o, k)
        if isinstance(o, str):
            if isinstance(k, slice):
                return o[slice(*[x for x in (k.start, k.stop, k.step)])]
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    self.throw("IndexError")
                return o[k]
        if isinstance(o, ClassVal) and o.members:
            if isinstance(k, str):
                if k in o.members:
                    return o.members[k]
                self.throw("KeyError")
            if isinstance(k, SStr):
                for n, m in o.members.items():
                    if self.ctx.branch(k.e == lit(n)):
                        return m
                self.throw("KeyError")
        if isinstance(o, Ext):
            return o.getitem(self, k)
        if isinstance(o, Obj):
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
        from . import builtins as bi

        return bi.getitem(self, o, k)

    def norm_index(self, k, n):
        """Normalise an index against a length; raises IndexError paths."""
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                self.throw("IndexError")
            return k % n if n else k
        kk = num(k)
        nn = num(n)
        if isinstance(k, int):
            ok = nn > k if k >= 0 else nn >= -k
            if not self.truth_cmp(z3.simplify(ok)):
                self.throw("IndexError")
            return k if k >= 0 else z3.simplify(nn + k)
        if not self.truth_cmp(z3.And(kk >= -nn, kk < nn)):
            self.throw("IndexError")
        if self.truth_cmp(kk >= 0):
            return z3.simplify(kk)
        return z3.simplify(kk + nn)

    def slice_range(self, k, n):
        """First index, number of elements and step of a slice."""
        step = k.step
        if step is None or isinstance(step, int) and step == 1:
            a, b = self.norm_slice(k, n)
            if isinstance(a, int) and isinstance(b, int):
                return a, b - a, 1
            return a, z3.simplify(num(b) - num(a)), 1
        if not isinstance(step, int) or isinstance(step, bool):
            raise Unsupported("slice step %r" % (step,))
        if step == 0:
            self.throw("ValueError", "slice step cannot be zero")
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
            r = range(*k.indices(n))
            return r.start, len(r), step
        if step > 0:
            a, b = self.norm_slice(slice(k.start, k.stop), n)
            return a, z3.simplify((num(b) - num(a) + step - 1) / step), step
        if k.start is None and k.stop is None:
            return z3.simplify(num(n) - 1), z3.simplify((num(n) - 1) / -step + 1), step
        raise Unsupported("slice step")

    def norm_slice(self, k, n):
        """Bounds a, b of a slice with step 1 (clamped)."""
        if k.step not in (None, 1):
            raise Unsupported("slice step")

        def clamp(x, default):
            if x is None:
                return default
            if isinstance(x, int) and isinstance(n, int):
                return max(0, min(n, x + n if x < 0 else x))
            nn = num(n)
            e = num(x)
            if isinstance(x, int):
                if x >= 0:
                    if self.ctx.proves(nn >= x, 300, quant=False):
                        return x
                    return z3.If(nn >= x, z3.IntVal(x), nn)
                if self.ctx.proves(nn >= -x, 300, quant=False):
                    return z3.simplify(nn + x)
                return z3.If(nn >= -x, nn + x, z3.IntVal(0))
            if self.ctx.proves(z3.And(e >= 0, e <= nn), 300, quant=False):
                return e
            e2 = z3.If(e < 0, e + nn, e)
            return z3.If(e2 < 0, 0, z3.If(e2 > nn, nn, e2))

        a, b = clamp(k.start, 0), clamp(k.stop, n)
        if isinstance(a, int) and isinstance(b, int):
            return a, max(a, b)
        if not self.ctx.proves(num(b) >= num(a), 300, quant=False):
            b = z3.If(num(b) >= num(a), num(b), num(a))
        return a, b

    def seq_index(self, o, k):
        n = len(o) if isinstance(o, tuple) else (
            len(o.items) if isinstance(o, PyList) and o.items is not None else o.length
        )
        if self.store_recorder is not None and isinstance(o, PyList):
            self.store_recorder.read(o)
        if isinstance(k, slice):
            if k.step is not None and not (isinstance(k.step, int) and k.step == 1):
                a, m, step = self.slice_range(k, n)
                g = self.as_seq(o).get
                if isinstance(m, int) and isinstance(a, int):
                    v = [g(a + step * i) for i in range(m)]
                    return tuple(v) if isinstance(o, tuple) else PyList(v)
                return PyList(None, m, lambda i: g(z3.simplify(num(a) + num(i) * step)))
            a, b = self.norm_slice(k, n)
            if isinstance(o, tuple) and isinstance(a, int) and isinstance(b, int):
                return o[a:b]
            if isinstance(o, PyList) and o.items is not None and isinstance(a, int) and isinstance(b, int):
                return PyList(o.items[a:b])
            s = self.as_seq(o).slice(a, b)
            if isinstance(o, PyList):
                return PyList(None, s.length, s.get)
            return s
        if isinstance(k, (tuple, str, SStr)) or k is None:
            self.throw("TypeError")
        k = self.norm_index(k, n)
        if isinstance(k, int) and isinstance(o, tuple):
            return o[k]
        if isinstance(k, int) and isinstance(o, PyList) and o.items is not None:
            return o.items[k]
        return self.as_seq(o).get(k)

    def setitem(self, o, k, v):
        if isinstance(o, PyDict):
            kk = self.dict_key(o, k)
            o.items[kk if kk is not None else k] = v
            return
        if isinstance(o, PyList):
            if self.store_recorder is not None and self.store_recorder.store(o, k, v):
                return
            n = len(o.items) if o.items is not None else o.length
            k = self.norm_index(k, n)
            if isinstance(k, int) and o.items is not None:
                o.items[k] = v
                return
            s = o.value()
            kk = num(k)

            def get(i):
                return ite_lazy(num(i) == kk, lambda: v, lambda: s.get(i))

            o.make_symbolic(s.length, get)
            return
        if isinstance(o, Ext):
            return o.setitem(self, k, v)
        if isinstance(o, Obj):
            m = self.find_method(o, "__setitem__")
            if m is not None:
                return self.call(m, [k, v], {})
        raise Unsupported("subscript store on %r" % (o,))

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fe = env
            while fe is not None and (fe.func is None or fe.func.cls is None):
                fe = fe.parent
            f = fe.func
            first = f.node.args.args[0].arg
            e2 = env
            while first not in e2.vars:
                e2 = e2.parent
            return SuperVal(f.cls, e2.vars[first])
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported("*args of symbolic length")
                args += items
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_ListComp(a, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                if isinstance(v, PyDict):
                    kw.update(v.items)
                elif hasattr(v, "as_kwargs"):
                    kw.update(v.as_kwargs(self))
                else:
                    raise Unsupported("** of %r" % (v,))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self.list_append(env.lookup("\0yield"), v)
        return None

    def e_YieldFrom(self, e, env):
        nm = "\0item"
        loop = ast.For(target=ast.Name(nm, ast.Store()), iter=e.value,
                       body=[ast.Expr(ast.Yield(ast.Name(nm, ast.Load())))], orelse=[], type_comment=None)
        self.s_For(ast.fix_missing_locations(ast.copy_location(loop, e)), env)
        return None

    # ----------------------------------------------------------- comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_SetComp(self, e, env):
        r = self.comp(e.elt, e.generators, env)
        if isinstance(r, PyList) and r.items is not None:
            return self.make_set(r.items)
        raise Unsupported("symbolic set comprehension")

    def make_set(self, items):
        out = []
        for x in items:
            dup = False
            for y in out:
                r = self.eq(x, y)
                if r is True or (r is not False and self.ctx.branch(r)):
                    dup = True
                    break
            if not dup:
                out.append(x)
        return PySet(out)

    def e_DictComp(self, e, env):
        d = PyDict()
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        r = self.comp(pair, e.generators, env)
        if hasattr(r, "as_dict"):
            return r.as_dict(self)
        if r.items is None:
            raise Unsupported("symbolic dict comprehension")
        for k, v in r.items:
            self.setitem(d, k, v)
        return d

    def comp(self, elt, gens, env):
        out = PyList([])
        cenv = Env(env, env.func, env.module)
        self._comp(elt, gens, 0, cenv, out)
        return getattr(out, "special", out)

    def _comp(self, elt, gens, gi, cenv, out):
        if gi == len(gens):
            self.list_append(out, self.eval(elt, cenv))
            return
        g = gens[gi]
        itv = self.eval(g.iter, cenv)
        if hasattr(itv, "comp1") and len(gens) == 1 and not g.ifs:
            def at(p):
                self.assign(g.target, p, cenv)
                return self.eval(elt, cenv)
            out.special = itv.comp1(self, at)
            return
        if hasattr(itv, "compseg") and len(gens) == 1:
            itv.compseg(self, elt, g, cenv, out)
            return
        items = self.concrete_items(itv)
        if items is None and isinstance(itv, Ext):
            itv = itv.iterate(self)
            items = self.concrete_items(itv)
        if items is not None:
            for x in items:
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    self._comp(elt, gens, gi + 1, cenv, out)
            return
        if gi != len(gens) - 1 or (out.items is not None and out.items):
            raise Unsupported("nested symbolic comprehension")
        from . import loops

        loops.sym_comp(self, elt, g, cenv, self.as_seq(itv), out)


def walk_own(node):
    """Walk a function body without nested functions."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def without_quantifier(it, i, x, body):
    """Exists i: body, as a formula without quantifier where linear arithmetic allows it."""
    plain = z3.Exists([i], body(x))
    if not (is_num(x) and z3.is_int(num(x))):
        return plain
    y = it.ctx.int("x!in")
    b = z3.simplify(body(y))
    todo, seen = [b], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if not z3.is_app(t) or (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()) or len(seen) > 300:
            return plain
        todo.extend(t.children())
    try:
        r = z3.TryFor(z3.Tactic("qe"), 3000)(z3.Exists([i], b)).as_expr()
    except z3.Z3Exception:
        return plain
    if z3.is_quantifier(r):
        return plain
    return z3.substitute(r, (y, num(x)))


def ite_lazy(c, a, b):
    c = z3.simplify(c) if is_z3(c) else c
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a()
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b()
    return ite(c, a(), b())


def neg(r):
    if isinstance(r, bool):
        return not r
    if isinstance(r, z3.BoolRef):
        return z3.Not(r)
    if hasattr(r, "unop"):
        return r.unop(None, "Not")
    raise Unsupported("not")


class _NoList(list):
    def append(self, x):
        pass
