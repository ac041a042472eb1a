"""
Contract of the pandas operations on tables handed in by users: concrete columns of cells,
numbers or times, possibly a block of any number of time columns (wide layout), any number of
rows with any labels (not assumed to be distinct).
"""
import z3

from . import core, dtm, framem, npm, widem
from .core import Builtin, Ext, Mut, PyDict, PyList, PySet, SStr, SymList, Unsupported, is_num, is_z3, num, real, sbool
from .framem import Axis, DataM, IndexM, MetaM, Names, cell, same_cell
from .rem import BoolSeries, Cell, Series


FORMAT = z3.Function("text_of_format", core.Str, core.Str, z3.BoolSort())


class Col:
    """kind 'cell' (Cell), 'float' (value, missing), 'time' or 'year': entry of each row."""

    def __init__(self, kind, get):
        self.kind, self.get = kind, get

    def fill(self, y):
        g = self.get
        if self.kind == "cell":
            return Col("cell", lambda i: y.merge(num(g(num(i)).kind) == 1, g(num(i))))
        if self.kind == "float":
            return Col("float", lambda i: (core.ite(g(num(i))[1], y.val, g(num(i))[0]), z3.BoolVal(False)))
        return self


class Block:
    """The time columns of a wide table."""

    def __init__(self, kind, n, label, val, nan):
        self.kind, self.n, self.label, self.val, self.nan = kind, n, label, val, nan
        self.know = None  # states what is known of the label at a position


class Mixed(Ext):
    """Names of columns and labels of time columns, in any order."""

    name = "Index"

    def __init__(self, names, block, is_set=False):
        self.names, self.block, self.is_set = list(names), block, is_set

    def iterate(self, it):
        if self.block is None:
            return PyList(list(self.names))
        raise Unsupported("names and labels of columns")

    def labels(self):
        def at(j):
            if self.block.know is not None:
                self.block.know(num(j))
            return self.block.label(num(j))

        return SymList(self.block.n, at)

    def length(self, it):
        return len(self.names) + (0 if self.block is None else num(self.block.n))

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in (("set",) if self.is_set else ("Index",)) + ("Iterable", "object")

    def contains(self, it, x):
        if not isinstance(x, str):
            raise Unsupported("column %r" % (x,))
        return x in self.names

    def as_set(self, it):
        return Mixed(self.names, self.block, True)

    def as_list(self, it):
        return PyList(list(self.names)) if self.block is None else Mixed(self.names, self.block)

    def loop(self, it, st, env):
        """for x in ...: the names and the labels, one after the other (either first)."""
        from . import loops
        from .interp import BreakSig, ContinueSig

        def block():
            if self.block is not None:
                loops.sym_for(it, st, env, self.labels())

        if st.orelse:
            raise Unsupported("else of a loop over columns")
        first = self.block is not None and it.ctx.choose(2) == 1
        if first:
            block()
        for x in self.names:
            it.assign(st.target, x, env)
            try:
                it.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        if not first:
            block()

    def compseg(self, it, elt, g, cenv, out):
        """Comprehension [x for x in ... if ...]."""
        import ast

        for x in self.names:
            it.assign(g.target, x, cenv)
            if all(it.truth(it.eval(c, cenv)) for c in g.ifs):
                it.list_append(out, it.eval(elt, cenv))
        if self.block is None:
            return
        if isinstance(elt, ast.Tuple):
            from . import loops

            if g.ifs:
                it.assign(g.target, self.block.label(it.ctx.int("label!col")), cenv)
                keep = [it.eval(c, cenv) for c in g.ifs]
                if any(not isinstance(r, bool) for r in keep):
                    raise Unsupported("condition on the labels of columns")
                if not all(keep):
                    return
            some = PyList([])
            loops.sym_comp(it, elt, ast.comprehension(g.target, g.iter, [], 0), cenv, self.labels(), some)
            if some.items is not None or getattr(some, "special", None) is not None:
                raise Unsupported("dictionary over the labels of columns")
            out.special = LabelMap(it.concrete_items(out), self.block, some.get)
            return
        j = it.ctx.int("label!col")
        it.assign(g.target, self.block.label(j), cenv)
        keep = True
        for c in g.ifs:
            r = it.eval(c, cenv)
            if not isinstance(r, bool):
                raise Unsupported("condition on the labels of columns")
            keep = keep and r
            if not keep:
                return
        if not (isinstance(elt, ast.Name) and isinstance(g.target, ast.Name) and elt.id == g.target.id):
            raise Unsupported("comprehension over the labels of columns")
        out.special = Mixed(it.concrete_items(out), self.block)

    def binop(self, it, op, a, b):
        if op == "Sub" and a is self and self.is_set:
            o = it.concrete_items(b)
            if o is None or any(not isinstance(x, str) for x in o):
                raise Unsupported("difference of columns")
            return Mixed([x for x in self.names if x not in o], self.block, True)
        if op == "Sub" and b is self and self.is_set and isinstance(a, PySet) and all(isinstance(x, str) for x in a.items):
            return PySet([x for x in a.items if x not in self.names])
        if op == "BitAnd" and self.is_set:
            o = it.concrete_items(b if a is self else a)
            if o is not None and all(isinstance(x, str) for x in o):
                return PySet([x for x in self.names if x in o])
        raise Unsupported("operator on columns")

    def getattr(self, it, name):
        if name in ("tolist", "to_list", "copy"):
            return Builtin(name, lambda it: Mixed(self.names, self.block, self.is_set))
        if name in ("difference", "drop"):
            def difference(it, o, sort=None):
                o = [o] if isinstance(o, str) else it.concrete_items(o)
                if o is None or any(not isinstance(x, str) for x in o):
                    raise Unsupported("difference of columns")
                return Mixed([x for x in self.names if x not in o], self.block, self.is_set)
            return Builtin(name, difference)
        if name in ("issuperset",):
            return Builtin(name, lambda it, o: all(x in self.names for x in it.concrete_items(o)))
        raise Unsupported("columns." + name)


class LabelMap(Ext):
    """Dictionary: name or label of a column -> something."""

    name = "dict"

    def __init__(self, pairs, block, get):
        self.items = {}
        for k, v in pairs:
            if not isinstance(k, str):
                raise Unsupported("dictionary over columns")
            self.items[k] = v
        self.block, self.get = block, get

    def as_dict(self, it):
        """Only of the labels themselves to something."""
        j = it.ctx.int("label!map")
        k = self.get(j)[0]
        b = self.block.label(j)
        if not (hasattr(k, "e") and hasattr(b, "e") and k.e.eq(b.e)):
            raise Unsupported("dictionary over the labels of columns")
        return self

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("dict", "Mapping", "object", "Iterable")


def mapped(it, f, seq):
    """The function of each entry of a sequence, as position -> value."""
    import ast
    from . import loops
    from .interp import Env

    e = ast.parse("[f(x) for x in xs]", mode="eval").body
    env = Env(None, None, it.load("openscm.scmdataframe.base"))
    env.vars["f"] = f
    out = PyList([])
    loops.sym_comp(it, e.elt, e.generators[0], env, seq, out)
    if out.items is not None:
        raise Unsupported("function of each entry")
    return out.get


class RowIndex(Ext):
    """Index of a table: unnamed labels, or named columns."""

    name = "Index"

    def __init__(self, t):
        self.t = t

    def isinstance_of(self, it, c):
        n = getattr(c, "name", "").split(".")[-1]
        return n in ("Index", "Iterable", "object") or (n == "MultiIndex" and len(self.t.index or ()) > 1)

    def length(self, it):
        return self.t.rows.n

    def getattr(self, it, name):
        ix = self.t.index
        if name == "names":
            return PyList(list(ix) if ix else [None])
        if name == "name":
            return None if not ix or len(ix) > 1 else list(ix)[0]
        if name == "nlevels":
            return len(ix) if ix else 1
        raise Unsupported("Index." + name)


class TableM(Mut, Ext):
    """DataFrame of a user."""

    name = "DataFrame"

    def __init__(self, rows, cols, block=None, index=None):
        Mut.__init__(self)
        self.rows, self.cols, self.block, self.index = rows, dict(cols), block, dict(index) if index else None

    def __repr__(self):
        return "TableM"

    def copy(self, **kw):
        d = dict(rows=self.rows, cols=self.cols, block=self.block, index=self.index)
        d.update(kw)
        return TableM(**d)

    def content(self):
        return (self.rows, tuple(self.cols.items()), self.block, tuple((self.index or {}).items()))

    def become(self, o):
        self.rows, self.cols, self.block, self.index = o.rows, o.cols, o.block, o.index

    def result(self, r, inplace):
        if not inplace:
            return r
        self.become(r)
        return None

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("DataFrame", "object", "Iterable")

    def length(self, it):
        return self.rows.n

    def contains(self, it, x):
        return self.columns().contains(it, x)

    def columns(self):
        return Mixed(self.cols, self.block)

    def loop(self, it, st, env):
        return self.columns().loop(it, st, env)

    def compseg(self, it, *a):
        return self.columns().compseg(it, *a)

    def as_set(self, it):
        return self.columns().as_set(it)

    def as_list(self, it):
        return self.columns().as_list(it)

    def names(self, it, x):
        ns = [x] if isinstance(x, str) else it.concrete_items(x)
        if ns is None or any(not isinstance(n, str) for n in ns):
            raise Unsupported("columns of a table")
        for n in ns:
            if n not in self.cols:
                it.throw("KeyError", n)
        return ns

    def getitem(self, it, k):
        if isinstance(k, str):
            self.names(it, k)
            return ColM(self, k)
        if isinstance(k, Mixed):
            return self.copy(cols={x: self.cols[x] for x in self.names(it, PyList(list(k.names)))}, block=k.block)
        return self.copy(cols={x: self.cols[x] for x in self.names(it, k)}, block=None)

    def setitem(self, it, k, v):
        if it.store_recorder is not None:
            raise Unsupported("assignment in a loop")
        if isinstance(k, str):
            if isinstance(v, ColM) and v.t.rows is self.rows:
                self.cols[k] = v.col
                return
            if isinstance(v, (str, SStr)) or is_num(v):
                c = cell(v)
                self.cols[k] = Col("cell", lambda i: c)
                return
            raise Unsupported("assignment to a column")
        ns = self.names(it, k)
        if not isinstance(v, TableM) or v.rows is not self.rows or v.block is not None or len(v.cols) != len(ns):
            raise Unsupported("assignment to columns")
        for n, c in zip(ns, list(v.cols.values())):
            self.cols[n] = c

    def rename(self, it, mapper=None, columns=None, axis=None, inplace=False, **kw):
        if kw:
            raise Unsupported("rename")
        m = columns if columns is not None else mapper
        if m is None or (columns is None and axis not in (1, "columns")):
            raise Unsupported("rename")
        block = self.block
        if isinstance(m, LabelMap):
            if block is not m.block:
                raise Unsupported("rename of other labels")
            f = lambda x: m.items.get(x, x)
            block = Block(block.kind, block.n, lambda j: m.get(num(j))[1], block.val, block.nan)
            block.know = self.block.know
        elif isinstance(m, PyDict):
            f = lambda x: m.items.get(x, x)
        else:
            f = lambda x: it.call(m, [x], {})
            if block is not None:
                get = mapped(it, m, self.columns().labels())
                block = Block(block.kind, block.n, lambda j: get(num(j)), block.val, block.nan)
                block.know = self.block.know
        new = {}
        for k, c in self.cols.items():
            x = f(k)
            if not isinstance(x, str) or x in new:
                raise Unsupported("columns of the same name")
            new[x] = c
        return self.result(self.copy(cols=new, block=block), inplace)

    def reset_index(self, it, level=None, drop=False, inplace=False):
        if level is not None:
            raise Unsupported("reset_index")
        cols = dict(self.cols)
        if not drop:
            if not self.index:
                raise Unsupported("reset_index of unnamed labels")
            if set(self.index) & set(cols):
                it.throw("ValueError", "cannot insert, already exists")
            cols = dict(list(self.index.items()) + list(cols.items()))
        old = self.rows
        rows = Axis(old.n, num)
        rows.relabel = old
        rows.same = getattr(old, "same", old)
        return self.result(self.copy(rows=rows, cols=cols, index=None), inplace)

    def getattr(self, it, name):
        if name == "columns":
            return self.columns()
        if name == "index":
            if not self.index:
                return LabelIndex(self)
            return RowIndex(self)
        if name == "shape":
            return (self.rows.n, self.columns().length(it))
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.copy())
        if name == "rename":
            return Builtin(name, lambda it, *a, **k: self.rename(it, *a, **k))
        if name == "reset_index":
            return Builtin(name, lambda it, *a, **k: self.reset_index(it, *a, **k))
        if name == "fillna":
            def fillna(it, x, inplace=False):
                if self.block is not None:
                    raise Unsupported("fillna of a table with time columns")
                y = cell(x)
                return self.result(self.copy(cols={k: c.fill(y) for k, c in self.cols.items()}), inplace)
            return Builtin(name, fillna)
        if name == "drop":
            def drop(it, labels=None, axis=0, columns=None, inplace=False):
                if columns is None and axis not in (1, "columns"):
                    raise Unsupported("drop")
                ns = self.names(it, columns if columns is not None else labels)
                return self.result(self.copy(cols={k: c for k, c in self.cols.items() if k not in ns}), inplace)
            return Builtin(name, drop)
        if name in ("T", "transpose"):
            if self.cols or self.block is None or self.index:
                raise Unsupported("transposed table with further columns")
            b = self.block
            ax = Axis(b.n, lambda j: raw(b.label(num(j))))
            ax.kind = b.kind
            r = DataM(ax, self.rows, lambda t, c: b.val(num(c), num(t)), lambda t, c: b.nan(num(c), num(t)))
            return r if name == "T" else Builtin(name, lambda it: r)
        if name == "set_index":
            def set_index(it, keys, inplace=False):
                if isinstance(keys, IndexM) and keys.axis is self.rows and not inplace:
                    if self.block is not None or any(c.kind != "cell" for c in self.cols.values()):
                        raise Unsupported("table of metadata with other columns")
                    return MetaM(self.rows, {k: c.get for k, c in self.cols.items()})
                raise Unsupported("set_index")
            return Builtin(name, set_index)
        if name == "pivot_table":
            return Builtin(name, lambda it, *a, **k: pivot_table(it, self, *a, **k))
        if name in self.cols:
            return self.getitem(it, name)
        raise Unsupported("DataFrame." + name)

    def setattr(self, it, name, x):
        if name == "columns":
            ns = it.concrete_items(x)
            if self.block is None and ns is not None and len(ns) == len(self.cols) and all(isinstance(n, str) for n in ns) and len(set(ns)) == len(ns):
                self.cols = dict(zip(ns, self.cols.values()))
                return
        if name == "index":
            if isinstance(x, IndexM) and getattr(x.axis, "plain", False):
                if it.ctx.proves(num(x.axis.n) == num(self.rows.n), 2000):
                    self.become(self.reset(x.axis))
                    return
        raise Unsupported("DataFrame.%s = ..." % name)


class LabelIndex(IndexM):
    """Unnamed labels of the rows of a table."""

    def __init__(self, t):
        IndexM.__init__(self, t.rows)

    def getattr(self, it, name):
        if name == "names":
            return PyList([None])
        if name == "name":
            return None
        if name == "nlevels":
            return 1
        return IndexM.getattr(self, it, name)


class ColM(Ext):
    """A column of a table."""

    name = "Series"

    def __init__(self, t, k):
        self.t, self.k, self.col = t, k, t.cols[k]

    def again(self, col):
        r = ColM(self.t, self.k)
        r.col = col
        return r

    def length(self, it):
        return self.t.rows.n

    def getattr(self, it, name):
        if name == "fillna":
            return Builtin(name, lambda it, x: self.again(self.col.fill(cell(x))))
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.again(self.col))
        if name in ("apply", "map") and self.col.kind in ("time", "text"):
            return Builtin(name, lambda it, f: self.apply(it, f))
        if name in ("tolist", "to_list"):
            return Builtin(name, lambda it: PyList(None, self.t.rows.n, lambda i: self.col.get(num(i))))
        raise Unsupported("Series." + name)

    def apply(self, it, f):
        """The function of each entry."""
        if self.col.kind not in ("time", "text"):
            raise Unsupported("function of a column")
        get = mapped(it, f, self.iterate(it))
        r = get(it.ctx.int("i!app"))
        kind = "time" if isinstance(r, dtm.PyDt) else "text" if isinstance(r, SStr) else "bool" if isinstance(r, bool) or is_z3(r) and z3.is_bool(r) else None
        if kind is None:
            raise Unsupported("function of a column")
        if kind == "bool":
            return BoolSeries("b", self.t.rows.n, lambda i: sbool(get(num(i))))
        return self.again(Col(kind, lambda i: get(num(i))))

    def iterate(self, it):
        if self.col.kind not in ("time", "text"):
            raise Unsupported("entries of a column")
        return SymList(self.t.rows.n, lambda i: self.col.get(num(i)))


class Pivot:
    """Record of a pivot_table: which rows go where."""


class PivotM(Ext):
    """pivot_table over several value columns: one table for each."""

    name = "DataFrame"

    def __init__(self, parts):
        self.parts = parts

    def getattr(self, it, name):
        if name in self.parts:
            return self.parts[name]
        raise Unsupported("DataFrame." + name)

    def getitem(self, it, k):
        if isinstance(k, str):
            if k not in self.parts:
                it.throw("KeyError", k)
            return self.parts[k]
        raise Unsupported("subscript of a pivot table")


def raw(x):
    """A label as an entry of index.values."""
    if isinstance(x, SStr):
        return x
    return npm.Dt(num(x.e)) if hasattr(x, "e") else num(x)


def as_cells(c):
    """Times and years as entries of metadata."""
    g = c.get
    return g if c.kind == "cell" else lambda i: Cell(z3.IntVal(2), core.lit(""), z3.ToReal(stamp(g(num(i)))))


def stamp(x):
    """A time or year as an integer in the order of time."""
    return num(x.e) if hasattr(x, "e") else num(x)


def pivot_table(it, t, values=None, index=None, columns=None, aggfunc="mean", dropna=True, fill_value=None, **kw):
    """
    Rows: the times occurring, in order; columns: the metadata occurring (missing metadata do not
    occur); only rows with a value count; entries: the mean of the rows with these metadata and
    time, missing if there is none.
    """
    ctx = it.ctx
    if kw or dropna is not True or fill_value is not None or t.block is not None or t.index:
        raise Unsupported("pivot_table")
    if aggfunc not in ("mean", "sum", "first", "last", "max", "min"):
        raise Unsupported("pivot_table(aggfunc)")
    keys = t.names(it, columns)
    ix = t.names(it, index)
    if len(ix) != 1:
        raise Unsupported("pivot_table over several columns of times")
    single = isinstance(values, str)
    vs = t.names(it, values) if values is not None else [k for k in t.cols if k not in keys and k not in ix]
    if len(vs) != 1 or t.cols[vs[0]].kind != "float" or any(t.cols[k].kind == "float" for k in keys) or t.cols[ix[0]].kind not in ("time", "year"):
        raise Unsupported("pivot_table of these columns")
    if len(set(keys)) != len(keys):
        raise Unsupported("pivot_table of columns given twice")
    n = num(t.rows.n)
    val, when = t.cols[vs[0]].get, t.cols[ix[0]].get
    cells = {k: as_cells(t.cols[k]) for k in keys}
    at = lambda i: stamp(when(num(i)))
    F = lambda nm, *s: z3.Function(str(ctx.fresh(nm, core.I)), *s)
    G, H, rep, rept = (F(x, core.I, core.I) for x in ("column_of", "row_of", "row_of_column", "row_of_time"))
    W, D = F("source", core.I, core.I, core.I), F("other_source", core.I, core.I, core.I)
    HAS, M = F("has_value", core.I, core.I, z3.BoolSort()), F("aggregate", core.I, core.I, z3.RealSort())
    nc, nt = ctx.int("pivot_columns"), ctx.int("pivot_rows")
    ctx.assume(z3.And(nc >= 0, nt >= 0))
    C = F("counts", core.I, z3.BoolSort())
    i, j, a, b = z3.Ints("i!pv j!pv a!pv b!pv")
    rng = lambda x: z3.And(x >= 0, x < n)
    col, row = (lambda x: z3.And(x >= 0, x < nc)), (lambda x: z3.And(x >= 0, x < nt))
    full = lambda x: z3.And(*[num(f(x).kind) != 1 for f in cells.values()])
    key = lambda x, y: z3.And(*[same_cell(f(x), f(y)) for f in cells.values()])
    ctx.assume(z3.ForAll([i], C(i) == z3.And(rng(i), full(i), z3.Not(val(i)[1])), patterns=[C(i)]))
    placed = lambda i: z3.Implies(z3.And(rng(i), full(i), z3.Not(val(i)[1])), z3.And(C(i), col(G(i)), row(H(i)), key(i, rep(G(i))), at(i) == at(rept(H(i))), HAS(H(i), G(i))))
    ctx.assume(z3.ForAll([i], placed(i), patterns=[z3.MultiPattern(G(i), H(i))]))
    ctx.assume(z3.ForAll([a], z3.Implies(col(a), z3.And(C(rep(a)), G(rep(a)) == a)), patterns=[rep(a)]))
    ctx.assume(z3.ForAll([a], z3.Implies(row(a), z3.And(C(rept(a)), H(rept(a)) == a)), patterns=[rept(a)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(C(i), C(j), key(i, j)), G(i) == G(j)), patterns=[z3.MultiPattern(G(i), G(j))]))
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(row(a), row(b), a < b), at(rept(a)) < at(rept(b))), patterns=[z3.MultiPattern(rept(a), rept(b))]))
    there = lambda x, u, v: z3.And(C(x), H(x) == u, G(x) == v)
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(row(a), col(b), HAS(a, b)), z3.And(there(W(a, b), a, b), z3.Or(M(a, b) == val(W(a, b))[0], z3.And(there(D(a, b), a, b), val(D(a, b))[0] != val(W(a, b))[0])))), patterns=[HAS(a, b)]))
    rows, cols = Axis(nt, lambda x: raw(when(rept(num(x))))), Axis(nc, num)
    rows.kind = {"time": "M", "year": "i"}[t.cols[ix[0]].kind]
    r = DataM(rows, cols, lambda x, y: M(num(x), num(y)), lambda x, y: z3.Not(HAS(num(x), num(y))))
    r.colindex = widem.WIndex(cols, {k: (lambda x, f=f: f(rep(num(x)))) for k, f in cells.items()})
    p = Pivot()
    p.placed = placed  # instances of this fact, for proofs
    p.G, p.H, p.counts, p.source, p.other, p.rows, p.cols, p.aggfunc = G, H, C, W, D, rows, cols, aggfunc
    ctx.ghost["pivot"] = p
    return r if single else PivotM({vs[0]: r})


def install(it):
    """Series have no table model; names of columns are no times for dateutil."""
    def parse(it, s, *a, **k):
        if isinstance(s, str) and s.isalpha():
            it.throw("ValueError", "Unknown string format")
        if isinstance(s, SStr) and not a:
            is_date, date_in = dtm.parser_functions(k)
            if not it.truth(is_date(s.e)):
                it.throw("ValueError", "Unknown string format")
            return dtm.PyDt(date_in(s.e))
        raise Unsupported("dateutil.parser.parse")

    def strptime(it, s, f):
        if isinstance(s, str) and s.isalpha():
            it.throw("ValueError", "time data does not match format")
        if isinstance(s, SStr) and isinstance(f, str):
            # texts of this format are dates for dateutil, too (the other way round they may be not)
            if not it.truth(z3.And(FORMAT(s.e, core.lit(f)), dtm.IS_DATE(s.e))):
                it.throw("ValueError", "time data does not match format")
            return dtm.PyDt(dtm.DATE_IN(s.e))
        raise Unsupported("datetime.strptime")

    dtm.DATETIME.attrs["strptime"] = Builtin("strptime", strptime)
    it.ext["dateutil"] = core.ExtModule("dateutil", {"parser": core.ExtModule("dateutil.parser", {"parse": Builtin("parse", parse)})})
    it.fresh_modules()
