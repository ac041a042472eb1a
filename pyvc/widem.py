"""
Contract of the pandas operations on wide tables: one row per timeseries, the metadata in a
MultiIndex (or, after reset_index, in columns), one column per time; grouping of the rows.

Aggregates (mean, median, quantile, sum of a group) are values of their own: what matters is
which rows they are taken over (`Agg`).
"""
import z3

from . import core, framem
from .core import Builtin, Ext, Mut, Obj, PyDict, PyList, SStr, Unsupported, is_num, lit, num, real, sbool
from .framem import Axis, BoolSeries, DataM, Grid, IndexM, MeanSeries, MetaM, MetaSeries, Names, cell, exists, same_cell
from .npm import NArr
from .rem import Cell, Series

R = z3.RealSort()
B = z3.BoolSort()


def item_names(it, x):
    if isinstance(x, Names):
        return list(x.names)
    return [x] if isinstance(x, str) else list(it.concrete_items(x))


class WIndex(Ext):
    """MultiIndex: cells of each level by position."""

    name = "MultiIndex"

    def __init__(self, axis, cells):
        self.axis, self.cells = axis, dict(cells)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("MultiIndex", "Index", "Iterable", "object")

    def length(self, it):
        return self.axis.n

    def getattr(self, it, name):
        if name == "names":
            return PyList(list(self.cells))
        if name == "nlevels":
            return len(self.cells)
        if name == "to_frame":
            def to_frame(it, index=True, name=None):
                if name is not None:
                    raise Unsupported("to_frame")
                r = MetaM(self.axis, self.cells)
                r.multi = bool(index)
                return r
            return Builtin(name, to_frame)
        if name == "duplicated":
            return Builtin(name, lambda it: self.duplicated(it))
        if name == "copy":
            return Builtin(name, lambda it: self)
        if name == "get_level_values":
            def level(it, k):
                k = list(self.cells)[k] if isinstance(k, int) else k
                if k not in self.cells:
                    it.throw("KeyError", k)
                return MetaSeries(self.axis.n, self.cells[k], k, self.axis, None)
            return Builtin(name, level)
        raise Unsupported("MultiIndex." + name)

    def setattr(self, it, name, x):
        raise Unsupported("MultiIndex.%s = ..." % name)

    def duplicated(self, it):
        """Row i is like an earlier one (missing equal to missing): by the first row like it."""
        ctx, n = it.ctx, num(self.axis.n)
        cls, first = (z3.Function(str(ctx.fresh(x, core.I)), core.I, core.I) for x in ("like", "first_like"))
        i, j = z3.Ints("i!du j!du")
        inr = lambda x: z3.And(x >= 0, x < n)
        same = z3.And(*[same_cell(f(i), f(j)) for f in self.cells.values()])
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j)), (cls(i) == cls(j)) == same), patterns=[z3.MultiPattern(cls(i), cls(j))]))
        ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(first(i) >= 0, first(i) <= i, cls(first(i)) == cls(i))), patterns=[first(i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), cls(i) == cls(j)), first(i) <= j), patterns=[z3.MultiPattern(first(i), cls(j))]))
        ctx.ghost["firsts"] = ctx.ghost.get("firsts", ()) + ((cls, first),)
        r = BoolSeries("b", self.axis.n, lambda x: first(num(x)) < num(x))
        r.axis = self.axis
        return r


class MetaValues(Ext):
    """meta.values (or its transpose)."""

    name = "ndarray"

    def __init__(self, meta, transposed=False):
        self.cells, self.axis, self.t = dict(meta.data), meta.idx, transposed

    def getattr(self, it, name):
        if name in ("T",):
            r = MetaValues.__new__(MetaValues)
            r.cells, r.axis, r.t = self.cells, self.axis, not self.t
            return r
        if name == "transpose":
            return Builtin(name, lambda it: self.getattr(it, "T"))
        raise Unsupported("metadata array." + name)


class MetaCmp(Ext):
    """Cellwise comparison of metadata with a value."""

    name = "DataFrame"

    def __init__(self, axis, cells):
        self.axis, self.cells = axis, cells

    def getattr(self, it, name):
        if name == "values":
            return self
        if name == "any":
            def some(it, axis=0):
                if axis is None:
                    i = it.ctx.int("i!any")
                    e = exists(it.ctx, self.axis.n, lambda i, c: z3.Or(*[sbool(f(i)) for f in self.cells.values()]))
                    return e(z3.IntVal(0))
                if axis in (1, "columns"):
                    r = BoolSeries("b", self.axis.n, lambda i: z3.Or(*[sbool(f(num(i))) for f in self.cells.values()]))
                    r.axis = self.axis
                    return r
                if axis in (0, "index"):
                    return AnyCols(self)
                raise Unsupported("any")
            return Builtin(name, some)
        raise Unsupported("comparison of metadata: ." + name)


class AnyCols(Ext):
    def __init__(self, cmp):
        self.cmp = cmp

    def getattr(self, it, name):
        if name == "any":
            return Builtin(name, lambda it: it.call(self.cmp.getattr(it, "any"), [], {"axis": None}))
        raise Unsupported("Series." + name)


class Agg:
    """What the values of an aggregated table are taken over."""

    def __init__(self, op, kw, src, group_of, keyed, rep):
        self.op, self.kw, self.src, self.group_of, self.keyed, self.rep = op, dict(kw), src, group_of, keyed, rep

    def member(self, k, r):
        return z3.And(self.keyed(r), self.group_of(r) == num(k))


class WideM(Mut, Ext):
    """
    Table with a row per timeseries.  index: WIndex or None (numbers 0, 1, ...); cols: metadata
    columns (after reset_index).
    """

    name = "DataFrame"

    def __init__(self, rows, index, times, val, nan, cols=None, prov=None):
        Mut.__init__(self)
        self.rows, self.index, self.times, self.val, self.nan, self.cols, self.prov = rows, index, times, val, nan, dict(cols or {}), prov

    def __repr__(self):
        return "WideM"

    def copy(self, **kw):
        d = dict(rows=self.rows, index=self.index, times=self.times, val=self.val, nan=self.nan, cols=self.cols, prov=self.prov)
        d.update(kw)
        return WideM(**d)

    def content(self):
        return (self.rows, self.index, self.times, self.val, self.nan, tuple(self.cols.items()), self.prov)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("DataFrame", "object", "Iterable")

    def length(self, it):
        return self.rows.n

    def contains(self, it, x):
        if isinstance(x, str):
            return x in self.cols
        raise Unsupported("column %r" % (x,))

    def become(self, o):
        for k in ("rows", "index", "times", "val", "nan", "cols", "prov"):
            setattr(self, k, getattr(o, k))

    def getattr(self, it, name):
        v, na = self.val, self.nan
        if name == "index":
            return self.index if self.index is not None else IndexM(self.rows)
        if name == "columns":
            if self.cols:
                raise Unsupported("columns of a table with metadata and times")
            return IndexM(self.times, True)
        if name == "shape":
            return (self.rows.n, num(self.times.n) + len(self.cols) if self.cols else self.times.n)
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.copy())
        if name == "T" or name == "transpose":
            if self.cols:
                raise Unsupported("transposed table")
            r = self.transposed()
            return r if name == "T" else Builtin(name, lambda it: r)
        if name == "values":
            return Grid("f", (self.rows.n, self.times.n), v, self.rows, self.times)
        if name == "astype":
            def astype(it, t):
                if getattr(t, "name", t) not in ("float",):
                    raise Unsupported("astype")
                return self.copy()
            return Builtin(name, astype)
        if name in ("isnull", "isna", "notnull", "notna"):
            neg = name.startswith("not")
            fn = (lambda r, t: z3.Not(sbool(na(r, t)))) if neg else (lambda r, t: na(r, t))
            return Builtin(name, lambda it: WGrid("b", self, fn))
        if name == "groupby":
            def groupby(it, by=None, level=None, sort=True, **kw):
                if kw or (by is None) == (level is None):
                    raise Unsupported("groupby")
                return WGroup(self, item_names(it, by if level is None else level))
            return Builtin(name, groupby)
        if name in ("sub", "subtract"):
            def sub(it, o, axis="columns"):
                if axis not in ("rows", "index", 0):
                    raise Unsupported("sub")
                if not isinstance(o, MeanSeries):
                    raise Unsupported("sub")
                return self.minus(it, o)
            return Builtin(name, sub)
        if name == "reset_index":
            def reset(it, level=None, drop=False, inplace=False):
                if level is not None:
                    raise Unsupported("reset_index")
                if drop:
                    r = self.copy(index=None)
                else:
                    if self.index is None:
                        raise Unsupported("reset_index of plain rows")
                    for k in self.index.cells:
                        if k in self.cols:
                            it.throw("ValueError", "cannot insert %s, already exists" % k)
                    r = self.copy(index=None, cols={**self.index.cells, **self.cols})
                if inplace:
                    self.become(r)
                    return None
                return r
            return Builtin(name, reset)
        if name == "set_index":
            def set_index(it, keys, inplace=False, drop=True, append=False):
                if not drop or append:
                    raise Unsupported("set_index")
                ks = [keys] if isinstance(keys, (str, Series)) else it.concrete_items(keys)
                cells, cols = {}, dict(self.cols)
                for k in ks:
                    if isinstance(k, str):
                        if k not in cols:
                            it.throw("KeyError", k)
                        cells[k] = cols.pop(k)
                    elif isinstance(k, MetaSeries) and k.axis is self.rows:
                        cells[k.label] = k.fn
                    else:
                        raise Unsupported("set_index")
                r = self.copy(index=WIndex(self.rows, cells), cols=cols)
                if inplace:
                    self.become(r)
                    return None
                return r
            return Builtin(name, set_index)
        if name == "reorder_levels":
            def reorder(it, order, axis=0):
                ns = item_names(it, order)
                if self.index is None:
                    raise Unsupported("reorder_levels")
                if len(ns) != len(self.index.cells):
                    it.throw("AssertionError", "Length of order must be same as number of levels")
                for k in ns:
                    if k not in self.index.cells:
                        it.throw("KeyError", k)
                return self.copy(index=WIndex(self.rows, {k: self.index.cells[k] for k in ns}))
            return Builtin(name, reorder)
        if name == "sort_index":
            def sort(it, axis=0, inplace=False):
                raise Unsupported("sorting rows")
            return Builtin(name, sort)
        raise Unsupported("wide DataFrame." + name)

    def transposed(self):
        v, na = self.val, self.nan
        d = DataM(self.times, self.rows, lambda t, c: v(num(c), num(t)), lambda t, c: na(num(c), num(t)))
        d.colindex = self.index
        d.wide = self
        return d

    def minus(self, it, o):
        if not o.plain:
            raise Unsupported("difference by labels")
        if o.axis is not self.rows:
            if it.truth(num(o.axis.n) != num(self.rows.n)):
                it.throw("ValueError", "Lengths do not match")
            raise Unsupported("difference of tables with other timeseries")
        src = o.data
        ctx = it.ctx
        M, hole = mean_of(ctx, src, self.rows)
        v, na = self.val, self.nan
        r = self.copy(val=lambda r, t: v(num(r), num(t)) - M(num(r)), nan=lambda r, t: z3.Or(sbool(na(num(r), num(t))), hole(num(r))))
        r.prov = ("minus mean", self.copy(), src, M, hole)
        return r

    def setattr(self, it, name, x):
        if name == "index":
            if isinstance(x, WIndex) and x.axis is self.rows:
                self.index = x
                return
            raise Unsupported("index of a wide table")
        raise Unsupported("DataFrame.%s = ..." % name)

    def getitem(self, it, k):
        if isinstance(k, str):
            if k not in self.cols:
                it.throw("KeyError", k)
            return MetaSeries(self.rows.n, self.cols[k], k, self.rows, None)
        if isinstance(k, (PyList, tuple, core.PySet, Names)):
            ns = item_names(it, k)
            for x in ns:
                if x not in self.cols:
                    it.throw("KeyError", x)
            return MetaM(self.rows, {x: self.cols[x] for x in ns})
        raise Unsupported("subscript of a wide table")

    def setitem(self, it, k, x):
        if it.store_recorder is not None:
            raise Unsupported("assignment in a loop")
        if isinstance(k, str):
            if isinstance(x, MetaSeries):
                if x.axis is not self.rows:
                    raise Unsupported("assignment of a series of another table")
                self.cols[k] = x.fn
                return
            if isinstance(x, (PyList, core.SymList)):
                q = it.as_seq(x)
                if not it.ctx.proves(num(q.length) == num(self.rows.n), 3000):
                    raise Unsupported("assignment of a list of another length")
                self.cols[k] = lambda i: cell(q.get(num(i)))
                return
            c = cell(x)
            self.cols[k] = lambda i: c
            return
        ns = item_names(it, k)
        if not isinstance(x, MetaM) or x.idx is not self.rows or set(x.data) != set(ns):
            raise Unsupported("assignment to columns")
        for n in ns:
            self.cols[n] = x.data[n]


def mean_of(ctx, src, axis):
    """Mean of each column of src, by label, for the columns of axis (missing where src has no value)."""
    M = z3.Function(str(ctx.fresh("mean", core.I)), core.I, R)
    hole = z3.Function(str(ctx.fresh("no_mean", core.I)), core.I, B)
    return (lambda r: M(r)), (lambda r: hole(r))


class WGrid(Ext):
    """Table of truth values or counts with the index of a wide table."""

    name = "DataFrame"

    several = None

    def __init__(self, kind, wide, fn, agg=None):
        self.kind, self.wide, self.fn, self.agg = kind, wide, fn, agg

    def unop(self, it, op):
        if self.kind != "b" or op not in ("Invert", "Not"):
            raise Unsupported("operator on a table")
        return WGrid("b", self.wide, lambda r, t: z3.Not(sbool(self.fn(r, t))))

    def getattr(self, it, name):
        if name == "astype":
            def astype(it, t):
                if getattr(t, "name", t) not in ("int", "float", "int64"):
                    raise Unsupported("astype")
                f = self.fn
                return WGrid("i", self.wide, (lambda r, t: z3.If(sbool(f(r, t)), z3.IntVal(1), z3.IntVal(0))) if self.kind == "b" else f, None)._of(f if self.kind == "b" else None)
            return Builtin(name, astype)
        if name == "groupby":
            def groupby(it, by=None, level=None, sort=True, **kw):
                if kw or (by is None) == (level is None):
                    raise Unsupported("groupby")
                g = WGroup(self.wide, item_names(it, by if level is None else level))
                g.grid = self
                return g
            return Builtin(name, groupby)
        if name == "any":
            def some(it, axis=0):
                if self.kind != "b":
                    raise Unsupported("any")
                n, m = self.wide.rows.n, self.wide.times.n
                if axis is None:
                    r, w, x = any2(it.ctx, n, m, self.fn)
                    if self.several is not None:
                        w1, w2 = self.several
                        it.ctx.ghost["several"] = it.ctx.ghost.get("several", ()) + ((w1(w, x), w2(w, x), x),)
                    return r
                if axis in (0, "index"):
                    return AnyGrid(self)
                raise Unsupported("any")
            return Builtin(name, some)
        if name == "values":
            return self
        raise Unsupported("table of conditions." + name)

    def _of(self, cond):
        self.cond = cond
        return self

    def compare(self, it, op, a, b):
        """Number of rows of each group fulfilling the condition, compared with 1 (or 2)."""
        if self.agg is None or a is not self:
            raise Unsupported("comparison of a table")
        limit = b if op == "Gt" else b - 1 if op == "GtE" and isinstance(b, int) else None
        if not isinstance(limit, int) or limit < 0:
            raise Unsupported("comparison of counts")
        agg, cond = self.agg, self.agg.cond
        n = agg.src.rows.n
        ctx = it.ctx
        nm = str(ctx.fresh("several", core.I))
        P = z3.Function(nm, core.I, core.I, B)
        ws = [z3.Function("%s!%d" % (nm, x), core.I, core.I, core.I) for x in range(min(limit, 2) + 1)]
        k, t, i, j = z3.Ints("k!sv t!sv i!sv j!sv")
        inside = lambda x, k, t: z3.And(x >= 0, x < num(n), agg.member(k, x), sbool(cond(x, t)))
        at = [w(k, t) for w in ws]
        apart = [at[x] != at[y] for x in range(len(at)) for y in range(x)]
        ctx.assume(z3.ForAll([k, t], z3.Implies(P(k, t), z3.And(*apart, *[inside(x, k, t) for x in at])), patterns=[P(k, t)]))
        rng = lambda x: z3.And(x >= 0, x < num(n), agg.keyed(x), sbool(cond(x, t)))
        if limit == 0:
            ctx.assume(z3.ForAll([i, t], z3.Implies(rng(i), P(agg.group_of(i), t)), patterns=[P(agg.group_of(i), t)]))
        elif limit == 1:
            # (not P: at most one; stated for pairs of rows of the same group)
            ctx.assume(z3.ForAll([i, j, t], z3.Implies(z3.And(rng(i), rng(j), i != j, agg.group_of(i) == agg.group_of(j)), P(agg.group_of(i), t)), patterns=[z3.MultiPattern(agg.group_of(i), agg.group_of(j), P(agg.group_of(i), t))]))
        r = WGrid("b", self.wide, lambda k, t: P(num(k), num(t)))
        if limit >= 1:
            r.several = (ws[0], ws[1])
        ctx.ghost["several of"] = ctx.ghost.get("several of", ()) + ((agg, P),)
        return r


class AnyGrid(Ext):
    def __init__(self, g):
        self.g = g

    def getattr(self, it, name):
        if name == "any":
            return Builtin(name, lambda it: it.call(self.g.getattr(it, "any"), [], {"axis": None}))
        raise Unsupported("Series." + name)


def any2(ctx, n, m, f):
    """Is there a (r, t) with f(r, t)?"""
    r, t = z3.Ints("r!a2 t!a2")
    P = z3.Const(str(ctx.fresh("some_cell", B)), B)
    w, x = ctx.int("w!a2"), ctx.int("x!a2")
    inr = lambda r, t: z3.And(r >= 0, r < num(n), t >= 0, t < num(m))
    ctx.assume(z3.Implies(P, z3.And(inr(w, x), sbool(f(w, x)))))
    ctx.assume(z3.ForAll([r, t], z3.Implies(z3.And(inr(r, t), sbool(f(r, t))), P)))
    return P, w, x


class WGroup(Ext):
    """Groups of the rows of a wide table with the same cells in the given levels."""

    name = "GroupBy"

    def __init__(self, wide, names):
        self.wide, self.names = wide, names
        self.grid = None

    def groups(self, it):
        ctx, w = it.ctx, self.wide
        src = w.index.cells if w.index is not None else {}
        keys = []
        for k in self.names:
            if k in src:
                keys.append((k, src[k]))
            elif k in w.cols:
                keys.append((k, w.cols[k]))
            else:
                it.throw("KeyError", k)
        if not keys:
            it.throw("ValueError", "No group keys passed!")
        cache = ctx.ghost.get("groups", ())
        for fs, r in cache:
            if r[0] is w.rows and [k for k, _ in keys] == [k for k, _ in fs] and all(a is b for (_, a), (_, b) in zip(keys, fs)):
                return keys, r
        n = num(w.rows.n)
        keyed = lambda r: z3.And(*[num(f(r).kind) != 1 for _, f in keys])
        same = lambda r, s: z3.And(*[same_cell(f(r), f(s)) for _, f in keys])
        ng = ctx.int("groups")
        grp = z3.Function(str(ctx.fresh("group_of", core.I)), core.I, core.I)
        rep = z3.Function(str(ctx.fresh("first_of", core.I)), core.I, core.I)
        k, r, s = z3.Ints("k!g r!g s!g")
        ctx.assume(z3.And(ng >= 0, ng <= n))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ng), z3.And(rep(k) >= 0, rep(k) < n, keyed(rep(k)), grp(rep(k)) == k)), patterns=[rep(k)]))
        ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < n, keyed(r)), z3.And(grp(r) >= 0, grp(r) < ng, same(r, rep(grp(r))))), patterns=[grp(r)]))
        ctx.assume(z3.ForAll([r, s], z3.Implies(z3.And(r >= 0, r < n, s >= 0, s < n, keyed(r), keyed(s), same(r, s)), grp(r) == grp(s)), patterns=[z3.MultiPattern(grp(r), grp(s))]))
        res = (w.rows, Axis(ng, None), grp, rep, keyed)
        ctx.ghost["groups"] = cache + ((keys, res),)
        return keys, res

    def getattr(self, it, name):
        if name in ("mean", "median", "quantile", "sum", "min", "max", "std", "first", "last", "count"):
            return Builtin("groupby." + name, lambda it, *a, **kw: self.agg(it, name, a, kw))
        raise Unsupported("groupby(...)." + name)

    def agg(self, it, op, args, kw):
        ctx, w = it.ctx, self.wide
        if args:
            if op == "quantile" and len(args) == 1 and "q" not in kw:
                kw = {"q": args[0], **kw}
            else:
                raise Unsupported("groupby(...).%s with positional arguments" % op)
        keys, (_, axis, grp, rep, keyed) = self.groups(it)
        cells = {k: (lambda i, f=f: f(rep(num(i)))) for k, f in keys}
        if self.grid is not None:
            g = self.grid
            if op != "sum" or kw or getattr(g, "cond", None) is None:
                raise Unsupported("sum of a table")
            agg = Agg(op, kw, w, grp, keyed, rep)
            agg.cond = g.cond
            res = WideM(axis, WIndex(axis, cells), w.times, None, None)
            return WGrid("i", res, None, agg)
        nm = str(ctx.fresh(op, core.I))
        V = z3.Function(nm, core.I, core.I, R)
        N = z3.Function(nm + "!missing", core.I, core.I, B)
        agg = Agg(op, kw, w.copy(), grp, keyed, rep)
        W = z3.Function(nm + "!there", core.I, core.I, core.I)
        k, r, t = z3.Ints("k!ag r!ag t!ag")
        n = num(w.rows.n)
        ctx.assume(z3.ForAll([r, t], z3.Implies(z3.And(r >= 0, r < n, keyed(r), z3.Not(sbool(w.nan(r, t)))), z3.Not(N(grp(r), t))), patterns=[N(grp(r), t)]))
        ctx.assume(z3.ForAll([k, t], z3.Implies(z3.And(k >= 0, k < num(axis.n), z3.Not(N(k, t))), z3.And(W(k, t) >= 0, W(k, t) < n, keyed(W(k, t)), grp(W(k, t)) == k, z3.Not(sbool(w.nan(W(k, t), t))))), patterns=[N(k, t)]))
        ctx.ghost["aggregates"] = ctx.ghost.get("aggregates", ()) + ((agg, V, N, axis),)
        return WideM(axis, WIndex(axis, cells), w.times, lambda i, t: V(num(i), num(t)), lambda i, t: N(num(i), num(t)), prov=agg)


class Concat:
    """pd.concat of wide tables below each other: rows by position, times united by label."""

    def __init__(self, parts, offsets, times, at, has, pos):
        self.parts, self.offsets, self.times, self.at, self.has, self.pos = parts, offsets, times, at, has, pos


def concat(it, objs, axis=0, join="outer", ignore_index=False, sort=False, **kw):
    ctx = it.ctx
    ws = it.concrete_items(objs)
    if kw or ignore_index or join != "outer" or axis not in (0, "index") or not ws or not all(isinstance(w, WideM) and w.index is not None and not w.cols for w in ws):
        raise Unsupported("pd.concat")
    ws = [w.copy() for w in ws]
    names = list(ws[0].index.cells)
    for w in ws:
        if len(w.index.cells) != len(names):
            raise Unsupported("pd.concat of tables with other levels")
        if list(w.index.cells) != names:
            raise Unsupported("pd.concat of tables with levels in another order")
    m = ctx.int("times!joint")
    U = z3.Function(str(ctx.fresh("joint_time", core.I)), core.I, core.I)
    fn = lambda nm, i, s: z3.Function(str(ctx.fresh("%s_%d" % (nm, i), core.I)), core.I, s)
    at, has, pos = ([fn(nm, i, s) for i in range(len(ws))] for nm, s in (("at", core.I), ("has", B), ("pos", core.I)))
    j, k, t = z3.Ints("j!cc k!cc t!cc")
    inj = z3.And(j >= 0, j < m)
    T = [lambda q, w=w: num(w.times.label(q).e) for w in ws]
    ctx.assume(m >= 0)
    ctx.assume(z3.ForAll([j], z3.Implies(inj, z3.Or(*[h(j) for h in has])), patterns=[U(j)] + [h(j) for h in has]))
    ctx.assume(z3.ForAll([j, k], z3.Implies(z3.And(inj, k >= 0, k < m, U(j) == U(k)), j == k), patterns=[z3.MultiPattern(U(j), U(k))]))
    for i, w in enumerate(ws):
        n = num(w.times.n)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(inj, has[i](j)), z3.And(pos[i](j) >= 0, pos[i](j) < n, T[i](pos[i](j)) == U(j), at[i](pos[i](j)) == j)), patterns=[has[i](j)]))
        ctx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(at[i](t) >= 0, at[i](t) < m, U(at[i](t)) == T[i](t), has[i](at[i](t)), pos[i](at[i](t)) == t)), patterns=[at[i](t)]))
    from .npm import Dt

    times = Axis(m, lambda q: Dt(U(num(q))))
    offs = [z3.IntVal(0)]
    for w in ws:
        offs.append(z3.simplify(offs[-1] + num(w.rows.n)))
    rows = Axis(offs[-1], None)

    loc = z3.Function(str(ctx.fresh("place_in_part", core.I)), core.I, core.I)
    r = z3.Int("r!cc")
    ctx.assume(z3.ForAll([r], z3.And(*[z3.Implies(z3.And(r >= offs[i], r < offs[i + 1]), loc(r) == r - offs[i]) for i in range(len(ws))]), patterns=[loc(r)]))

    def pick(f):
        def g(r, *a):
            r = num(r)
            x = None
            for i in reversed(range(len(ws))):
                e = f(i, loc(r), *a)
                if x is None:
                    x = e
                elif isinstance(e, Cell):
                    x = e.merge(r < offs[i + 1], x)
                else:
                    x = z3.If(r < offs[i + 1], e, x)
            return x
        return g

    val = pick(lambda i, r, u: ws[i].val(r, pos[i](num(u))))
    nan = pick(lambda i, r, u: z3.Or(z3.Not(has[i](num(u))), sbool(ws[i].nan(r, pos[i](num(u))))))
    cells = {k: pick(lambda i, r, k=k: ws[i].index.cells[k](r)) for k in names}
    ctx.ghost["concat"] = Concat(ws, offs, times, at, has, pos)
    ctx.ghost["concat"].loc = loc
    return WideM(rows, WIndex(rows, cells), times, val, nan)


TEXT_ORDER = z3.Function("place_in_the_order_of_texts", core.Str, core.I)


def rank(x):
    """Place of a label in the order of labels: times and numbers as such, texts as texts."""
    return TEXT_ORDER(x.e) if isinstance(x, SStr) else num(getattr(x, "e", x))


def sorted_axis(ctx, axis):
    """The positions of an axis in the order of their labels."""
    p = z3.Function(str(ctx.fresh("sorted", core.I)), core.I, core.I)
    q = z3.Function(str(ctx.fresh("place", core.I)), core.I, core.I)
    n = num(axis.n)
    i, j = z3.Ints("i!so j!so")
    lab = lambda x: rank(axis.label(x))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), lab(p(i)) <= lab(p(j))), patterns=[z3.MultiPattern(p(i), p(j))]))
    r = Axis(n, None, axis, z3.BoolVal(True), p, q)
    r.label = lambda x: axis.label(r.to_parent(x))
    return r


# ------------------------------------------------------------------ hooks of the frame model


def install(it):
    framem.install(it)
    at = it.ext["pandas"].attrs

    class MI(Ext):
        pass

    def from_arrays(it, arrays, names=None, **kw):
        ns = item_names(it, names) if names is not None else None
        if isinstance(arrays, MetaValues) and arrays.t and ns is not None:
            if len(ns) != len(arrays.cells):
                it.throw("ValueError", "Length of names must match number of levels in MultiIndex.")
            return WIndex(arrays.axis, dict(zip(ns, arrays.cells.values())))
        if isinstance(arrays, (PyList, tuple)):
            xs = it.concrete_items(arrays)
            if xs and all(isinstance(x, MetaSeries) for x in xs) and all(x.axis is xs[0].axis for x in xs):
                ns = ns or [x.label for x in xs]
                return WIndex(xs[0].axis, {n: x.fn for n, x in zip(ns, xs)})
        raise Unsupported("MultiIndex.from_arrays")

    def from_frame(it, df, names=None, **kw):
        if not isinstance(df, MetaM):
            raise Unsupported("MultiIndex.from_frame")
        ns = item_names(it, names) if names is not None else list(df.data)
        return WIndex(df.idx, dict(zip(ns, df.data.values())))

    mi = core.TypeVal("MultiIndex", lambda it, *a, **k: (_ for _ in ()).throw(Unsupported("MultiIndex(...)")))
    mi.attrs = {"from_arrays": Builtin("from_arrays", from_arrays), "from_frame": Builtin("from_frame", from_frame)}
    at["MultiIndex"] = mi
    at["concat"] = Builtin("concat", concat)
