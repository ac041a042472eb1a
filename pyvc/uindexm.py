"""
Indexes of cells given by users (pandas.Index, MultiIndex), series and tables over them.

Contract of pandas: `duplicated` finds equal entries; `get_indexer` of an index without equal entries gives for
each entry of another index the position of the equal entry, or -1 if there is none.
"""
import z3

from . import core, npm
from .core import Builtin, Ext, PyList, PySet, SStr, Str, SymList, TypeVal, Unsupported, is_num, ite, num, real, sbool, sstr
from .framem import IndexM, MetaM, Names, cell, same_cell
from .npm import NArr
from .rem import Series


class UIndex(Ext):
    name = "Index"

    def __init__(self, names, n, cells, multi):
        self.names, self.n, self.cells, self.multi = list(names), n, cells, multi

    def same(self, i, o, j):
        return z3.And(*[same_cell(f(num(i)), g(num(j))) for f, g in zip(self.cells, o.cells)])

    def length(self, it):
        return self.n

    def isinstance_of(self, it, c):
        n = getattr(c, "name", "").split(".")[-1]
        return n in ("Index", "Iterable", "object") or (n == "MultiIndex" and self.multi)

    def twins(self, it):
        """Are there equal entries?"""
        ctx = it.ctx
        memo = ctx.ghost.setdefault("twins", {})
        if id(self) not in memo:
            d, a, b = ctx.bool("twins"), ctx.int("twin"), ctx.int("twin")
            i, j = z3.Ints("i!tw j!tw")
            inr = lambda x: z3.And(x >= 0, x < num(self.n))
            x = self.cells[0](i).text
            y = self.cells[0](j).text
            ctx.assume(z3.Implies(d, z3.And(inr(a), inr(b), a < b, self.same(a, self, b))))
            ctx.assume(z3.Implies(z3.Not(d), z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Not(self.same(i, self, j))), patterns=[z3.MultiPattern(x, y)])))
            memo[id(self)] = (d, self)
        return memo[id(self)][0]

    def getattr(self, it, name):
        if name == "names":
            return PyList(self.names)
        if name == "name":
            if self.multi:
                return None
            return self.names[0]
        if name == "nlevels":
            return len(self.names)
        if name == "size":
            return self.n
        if name == "shape":
            return (self.n,)
        if name == "duplicated":
            return Builtin(name, lambda it, keep="first": Twins(self))
        if name == "is_unique":
            return not it.truth(self.twins(it))
        if name == "has_duplicates":
            return it.truth(self.twins(it))
        if name == "get_indexer":
            return Builtin(name, lambda it, o: self.indexer(it, o))
        raise Unsupported("Index." + name)

    def indexer(self, it, o):
        ctx = it.ctx
        if not isinstance(o, UIndex) or len(o.cells) != len(self.cells) or o.multi != self.multi:
            raise Unsupported("get_indexer of another index")
        if it.truth(self.twins(it)):
            it.throw("ValueError" if self.multi else "Exception", "Reindexing only valid with uniquely valued Index objects")
        p = z3.Function(str(ctx.fresh("position", core.I)), core.I, core.I)
        i, q = z3.Ints("i!ix q!ix")
        m, n = num(self.n), num(o.n)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= -1, p(i) < m, z3.Implies(p(i) >= 0, self.same(p(i), o, i)))), patterns=[p(i)]))
        ctx.assume(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < n, q >= 0, q < m, p(i) == -1), z3.Not(self.same(q, o, i))), patterns=[z3.MultiPattern(p(i), self.cells[0](q).text)]))
        r = Positions("i", n, lambda k: p(num(k)))
        r.bound, r.fun = m, p
        return r

    def eq(self, it, o):
        raise Unsupported("comparison of an Index")


class Twins(Ext):
    name = "ndarray"

    def __init__(self, ix):
        self.ix = ix

    def getattr(self, it, name):
        if name == "any":
            return Builtin(name, lambda it: self.ix.twins(it))
        raise Unsupported("duplicated()." + name)


class Positions(NArr):
    """Positions in an index of `bound` entries, -1 for none."""

    def as_set(self, it):
        return PosSet(self, False)


class PosSet(Ext):
    name = "set"

    def __init__(self, p, found):
        self.p, self.found = p, found

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("set", "Iterable", "object")

    def binop(self, it, op, a, b):
        if op == "Sub" and a is self and isinstance(b, PySet) and b.items == [-1]:
            return PosSet(self.p, True)
        raise Unsupported("operator on a set of positions")

    def getattr(self, it, name):
        if name == "difference":
            return Builtin(name, lambda it, o: self.binop(it, "Sub", self, o if isinstance(o, PySet) else PySet(it.concrete_items(o) or ())))
        raise Unsupported("set." + name)

    def length(self, it):
        """How many entries are found: all of them if and only if each one is."""
        if not self.found:
            raise Unsupported("number of positions including -1")
        ctx = it.ctx
        n, k = ctx.int("found"), ctx.int("entry")
        w = z3.Function(str(ctx.fresh("found_at", core.I)), core.I, core.I)
        i, q = z3.Ints("i!ps q!ps")
        m, N, p = self.p.bound, num(self.p.length), self.p.fun
        ctx.assume(z3.And(n >= 0, n <= m))
        ctx.assume(z3.Implies(n < m, z3.And(k >= 0, k < m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), p(i) != k), patterns=[p(i)]))))
        ctx.assume(z3.Implies(n == m, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(w(q) >= 0, w(q) < N, p(w(q)) == q)), patterns=[w(q)])))
        ctx.ghost["where"], ctx.ghost["nowhere"] = w, (k, p)
        return n


class USeries(Series):
    """A series of cells over a user's index."""

    def __init__(self, index, fn, label):
        Series.__init__(self, index.n, fn, label)
        self.uindex = index

    def getattr(self, it, name):
        if name == "index":
            return self.uindex
        return Series.getattr(self, it, name)


class UFrame(Ext):
    """A user's table of cells, given as index."""

    name = "DataFrame"

    def __init__(self, n, data):
        self.n, self.data = n, data

    def length(self, it):
        return self.n

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("DataFrame", "object", "Iterable")

    def getattr(self, it, name):
        if name == "columns":
            return UNames(self.data)
        if name == "set_index":
            def set_index(it, keys):
                ns = [keys] if isinstance(keys, str) else it.concrete_items(keys)
                for k in ns:
                    if k not in self.data:
                        it.throw("KeyError", k)
                if not ns:
                    it.throw("ValueError", "Must pass non-zero number of keys")
                return Keyed(UIndex(ns, self.n, [self.data[k] for k in ns], len(ns) > 1))
            return Builtin(name, set_index)
        raise Unsupported("DataFrame." + name)


class UNames(Names):
    def getattr(self, it, name):
        if name == "intersection":
            return Builtin(name, lambda it, o: UNames([x for x in self.names if x in (o.names if isinstance(o, Names) else it.concrete_items(o))]))
        return Names.getattr(self, it, name)


class Keyed(Ext):
    name = "DataFrame"

    def __init__(self, index):
        self.index = index

    def getattr(self, it, name):
        if name == "index":
            return self.index
        raise Unsupported("DataFrame." + name)


def install(it):
    """pandas.Series/Index/MultiIndex over users' indexes (after framem.install)."""
    at = it.ext["pandas"].attrs
    old_series, old_index = at["Series"].fn, at["Index"].fn

    def series(it, data=None, index=None, dtype=None, **kw):
        if not isinstance(index, UIndex):
            return old_series(it, data, index, dtype, **kw)
        label = kw.pop("name", None)
        if kw or dtype is not None:
            raise Unsupported("pd.Series(...)")
        if isinstance(data, USeries):
            if data.uindex is not index:
                raise Unsupported("pd.Series over another index")
            return USeries(index, data.fn, label if label is not None else data.label)
        if isinstance(data, (PyList, SymList, NArr, tuple)):
            s = it.as_seq(data)
            if not it.ctx.branch(num(s.length) == num(index.n), "as many values as entries"):
                it.throw("ValueError", "Length of passed values is %s, index implies %s")
            return USeries(index, lambda i: cell(s.get(num(i))), label)
        x = cell(data)
        return USeries(index, lambda i: x, label)

    def index(it, data=None, dtype=None, name=None, **kw):
        if isinstance(data, UIndex) and not data.multi:
            return data
        if isinstance(data, Series) and dtype is None and not kw:
            return UIndex([name or data.label], data.length, [lambda i: data.fn(num(i))], False)
        return old_index(it, data, dtype, name, **kw)

    def from_frame(it, m, sortorder=None, names=None):
        if not isinstance(m, MetaM) or names is not None:
            raise Unsupported("MultiIndex.from_frame")
        return UIndex(list(m.data), m.idx.n, list(m.data.values()), True)

    at["Series"] = TypeVal("Series", series)
    at["Index"] = TypeVal("Index", index)
    at["MultiIndex"] = TypeVal("MultiIndex", at["MultiIndex"].fn, attrs={"from_frame": Builtin("from_frame", from_frame)})
