"""
Contract of the pandas DataFrame operations used by ScmDataFrameBase, at the level of axes,
cells and labels: a table of numbers (rows: times, columns: timeseries, each cell a number or
missing) and a table of metadata (one row per timeseries).

Selections are maps between positions: the rows (or columns) fulfilling a condition, in order.
"""
import z3

from . import core, loops, npm, rem
from .core import Builtin, Ctx, Ext, ExtModule, Mut, Obj, PyDict, PyList, PyExc, SStr, SymList, TypeVal, Unsupported, is_num, is_z3, ite, lit, num, real, sbool, sstr, subst
from .npm import Dt, NArr
from .rem import BoolSeries, Cell, Series

B = z3.BoolSort()
R = z3.RealSort()


# ------------------------------------------------------------------ axes


class Axis:
    """Rows or columns: n positions, each with a label; maybe a selection of another axis."""

    def __init__(self, n, label, parent=None, cond=None, up=None, inv=None):
        self.n, self.label, self.parent, self.cond, self.up, self.inv = n, label, parent, cond, up, inv
        self.children = []

    def root(self):
        return self if self.parent is None else self.parent.root()

    def key(self):
        return self.cond.get_id()

    def to_parent(self, i):
        i = num(i)
        if z3.is_app(i) and i.decl().eq(self.inv):
            return i.arg(0)  # (only used where the position is selected)
        return self.up(i)

    def pos(self, i, base=None):
        """Position on the base (or root) axis."""
        if self is base or self.parent is None:
            if base is not None and self is not base:
                raise Unsupported("axes of different tables")
            return num(i)
        return self.parent.pos(self.to_parent(i), base)

    def has(self, p, base=None):
        """Is position p of the base (or root) axis selected?"""
        if self is base or self.parent is None:
            if base is not None and self is not base:
                raise Unsupported("axes of different tables")
            return z3.BoolVal(True)
        q = self.parent.find(p, base)
        return z3.And(self.parent.has(p, base), self.cond_at(q))

    def find(self, p, base=None):
        """Position of the base's position p here (where it is selected)."""
        if self is base or self.parent is None:
            return num(p)
        return self.inv(self.parent.find(p, base))

    def above(self, base):
        a = self
        while a is not None:
            if a is base:
                return True
            a = a.parent
        return False

    def cond_at(self, q):
        return z3.substitute(self.cond, (SELVAR, num(q)))


SELVAR = z3.Int("sel!var")


def axis_kind(a):
    """Kind of the labels, where it was stated."""
    while a is not None:
        k = getattr(a, "kind", None)
        if k is not None:
            return k
        a = a.parent
    return None


def norm(e):
    """up(inv(x)) -> x (values are only asked for at selected positions)."""
    if not is_z3(e):
        return e
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_app(x) and x.num_args():
            args = [go(a) for a in x.children()]
            r = x.decl()(*args) if any(not a.eq(b) for a, b in zip(args, x.children())) else x
            n = r.decl().name()
            if n.startswith("up!sel") and z3.is_app(r.arg(0)) and r.arg(0).decl().name() == "inv!sel" + n[6:]:
                r = r.arg(0).arg(0)
        else:
            r = x
        memo[k] = (x, r)
        return r

    return go(e)


def at_label(axis, k):
    """Position of a label (labels are distinct), for the label of a known position."""
    t = axis.label(SELVAR)
    k = num(k)
    if is_z3(t) and t.eq(SELVAR):
        return k
    if is_z3(t) and z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(SELVAR) and z3.is_app(k) and k.decl().eq(t.decl()):
        return k.arg(0)
    raise Unsupported("position of a label")


def select(ctx, axis, cond):
    """The positions i of axis with cond(i)."""
    c = z3.simplify(sbool(cond(SELVAR)))
    if z3.is_true(c):
        return axis
    for ch in axis.children:
        if ch.cond.eq(c) and ch.alive in ctx.ghost.get("axes", ()):
            return ch
    for ch in axis.children:
        if ch.alive in ctx.ghost.get("axes", ()):
            k = ctx.int("same!sel")
            if ctx.proves(z3.Implies(z3.And(k >= 0, k < num(axis.n)), ch.cond_at(k) == z3.substitute(c, (SELVAR, k))), 2000):
                return ch
    m = ctx.int("m!sel")
    up = z3.Function(str(ctx.fresh("up!sel", core.I)), core.I, core.I)
    inv = z3.Function(str(ctx.fresh("inv!sel", core.I)), core.I, core.I)
    i, j = z3.Ints("i!s j!s")
    n = num(axis.n)
    at = lambda q: z3.substitute(c, (SELVAR, q))
    ctx.assume(z3.And(m >= 0, m <= n))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(up(i) >= 0, up(i) < n, at(up(i)), inv(up(i)) == i)), patterns=[up(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), up(i) < up(j)), patterns=[z3.MultiPattern(up(i), up(j))]))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, at(j)), z3.And(inv(j) >= 0, inv(j) < m, up(inv(j)) == j)), patterns=[inv(j)]))
    r = Axis(m, None, axis, c, up, inv)
    r.label = lambda i: axis.label(r.to_parent(i))
    r.alive = object()
    ctx.ghost["axes"] = ctx.ghost.get("axes", ()) + (r.alive,)
    axis.children.append(r)
    return r


def exists(ctx, n, g):
    """c -> (is there a t < n with g(t, c)?), by a predicate with a witness."""
    t0, c0 = z3.Int("t!ex"), z3.Int("c!ex")
    body = z3.simplify(z3.And(sbool(g(t0, c0)), z3.IntVal(0) <= t0, t0 < num(n)))
    if z3.is_false(body):
        return lambda c: z3.BoolVal(False)
    key = body.get_id()
    known = ctx.ghost.get("exists", {})
    if key not in known:
        nm = str(ctx.fresh("some", core.I))
        P = z3.Function(nm, core.I, B)
        w = z3.Function(nm + "!where", core.I, core.I)
        ctx.assume(z3.ForAll([c0], z3.Implies(P(c0), z3.substitute(body, (t0, w(c0)))), patterns=[P(c0)]))
        ctx.assume(z3.ForAll([t0, c0], z3.Implies(body, P(c0))))
        ctx.ghost["exists"] = {**known, key: (P, body, w)}
    P = ctx.ghost["exists"][key][0]
    return lambda c: P(num(c))


def exists_on(ctx, axis, n, g):
    """exists over the positions of an axis, by the positions of its root."""
    if axis is None or axis.parent is None:
        return exists(ctx, n, g)
    return exists(ctx, axis.root().n, lambda t, c: z3.And(axis.has(t), sbool(g(axis.find(t), c))))


# ------------------------------------------------------------------ indexes, masks


class IndexM(Ext):
    """pandas Index: the labels of an axis."""

    name = "Index"

    def __init__(self, axis, times=False):
        self.axis, self.times = axis, times

    def as_narr(self, it=None):
        a = self.axis
        r = NArr(axis_kind(a) or ("M" if self.times else "i"), a.n, lambda i: a.label(num(i)))
        r.axis = a
        return r

    def length(self, it):
        return self.axis.n

    def setattr(self, it, name, x):
        if name != "name":
            raise Unsupported("Index.%s = ..." % name)

    def iterate(self, it):
        return self.as_narr().value()

    def getitem(self, it, k):
        return self.as_narr().getitem(it, k)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("Index", "Iterable", "object")

    def getattr(self, it, name):
        if name in ("values", "array"):
            return self.as_narr()
        if name in ("copy",):
            return Builtin(name, lambda it: self)
        if name == "size":
            return self.axis.n
        if name in ("tolist", "to_list"):
            return Builtin(name, lambda it: PyList(None, self.axis.n, lambda i: self.axis.label(num(i))))
        if name == "shape":
            return (self.axis.n,)
        raise Unsupported("Index." + name)

    def eq(self, it, o):
        raise Unsupported("comparison of an Index")


class Names(Ext):
    """The columns of the metadata: concrete names."""

    name = "Index"

    def __init__(self, names):
        self.names = list(names)

    def iterate(self, it):
        return PyList(self.names)

    def as_symlist(self):
        return core.list_of(self.names)

    def contains(self, it, x):
        if not isinstance(x, str):
            raise Unsupported("column %r" % (x,))
        return x in self.names

    def length(self, it):
        return len(self.names)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("Index", "Iterable", "object")

    def getattr(self, it, name):
        if name in ("tolist", "to_list", "copy"):
            return Builtin(name, lambda it: PyList(self.names))
        if name == "values":
            return PyList(self.names)
        if name in ("difference", "drop"):
            def difference(it, o, sort=None):
                o = it.concrete_items(o) if not isinstance(o, str) else [o]
                r = [x for x in self.names if x not in o]
                return Names(sorted(r) if name == "difference" else r)
            return Builtin(name, difference)
        raise Unsupported("columns." + name)


class Grid(Ext):
    """Two-dimensional array (n or 1) x (m or 1), booleans or numbers; maybe with axes."""

    name = "ndarray"

    def __init__(self, kind, shape, fn, rows=None, cols=None, frame=False):
        self.kind, self.shape, self.fn, self.rows, self.cols, self.frame = kind, shape, fn, rows, cols, frame

    def at(self, t, c):
        return self.fn(num(t), num(c))

    def getattr(self, it, name):
        if name == "shape":
            return tuple(self.shape)
        if name in ("values", "copy", "to_numpy"):
            g = Grid(self.kind, self.shape, self.fn, self.rows, self.cols, self.frame and name == "copy")
            return g if name == "values" else Builtin(name, lambda it: g)
        if name == "T":
            return Grid(self.kind, self.shape[::-1], lambda t, c: self.fn(c, t), self.cols, self.rows, self.frame)
        if name in ("any", "all", "sum"):
            return Builtin("grid." + name, lambda it, axis=None, **kw: self.reduce(it, name, axis))
        raise Unsupported("2-D array." + name)

    def reduce(self, it, name, axis):
        if self.kind != "b":
            raise Unsupported("sum of numbers")
        if axis is None and self.frame:
            axis = 0
        if axis in ("index", "rows"):
            axis = 0
        if axis in ("columns",):
            axis = 1
        if axis not in (0, 1):
            raise Unsupported("axis")
        f = self.fn if axis == 0 else (lambda t, c: self.fn(c, t))
        n, m = self.shape if axis == 0 else self.shape[::-1]
        ax = self.cols if axis == 0 else self.rows
        g = (lambda t, c: z3.Not(sbool(f(t, c)))) if name == "all" else (lambda t, c: sbool(f(t, c)))
        some = exists_on(it.ctx, self.rows if axis == 0 else self.cols, n, g)
        if name == "any":
            r = BoolSeries("b", m, lambda c: some(c))
        elif name == "all":
            r = BoolSeries("b", m, lambda c: z3.Not(some(c)))
        else:
            cnt = z3.Function(str(it.ctx.fresh("count", core.I)), core.I, core.I)
            c = z3.Int("c!cnt")
            it.ctx.assume(z3.ForAll([c], z3.And(cnt(c) >= 0, cnt(c) <= num(n), (cnt(c) > 0) == some(c)), patterns=[cnt(c)]))
            r = NArr("i", m, lambda c: cnt(num(c)))
        r.axis = ax
        return r

    def unop(self, it, op):
        if self.kind != "b" or op not in ("Invert", "Not"):
            raise Unsupported("operator on a 2-D array")
        return Grid("b", self.shape, lambda t, c: z3.Not(sbool(self.fn(t, c))), self.rows, self.cols, self.frame)

    def binop(self, it, op, a, b):
        if op not in ("BitAnd", "BitOr", "BitXor"):
            raise Unsupported("operator %s on a 2-D array" % op)
        x, y = grid(a), grid(b)
        if x.kind != "b" or y.kind != "b":
            raise Unsupported("operator on numbers")
        sh, pick = [], []
        for d in (0, 1):
            p, q = x.shape[d], y.shape[d]
            one = lambda s: isinstance(s, int) and s == 1
            if one(p) or one(q):
                sh.append(q if one(p) else p)
            elif it.ctx.proves(num(p) == num(q), 2000):
                sh.append(p)
            else:
                raise Unsupported("shapes of a 2-D operator")
            pick.append((one(p), one(q)))
        at = lambda g, k, t, c: sbool(g.fn(z3.IntVal(0) if pick[0][k] else t, z3.IntVal(0) if pick[1][k] else c))
        o = {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op]
        return Grid("b", tuple(sh), lambda t, c: o(at(x, 0, t, c), at(y, 1, t, c)), x.rows or y.rows, x.cols or y.cols, x.frame or y.frame)

    def inplace(self, it, op, v):
        return self.binop(it, op, self, v)

    def compare(self, it, op, a, b):
        raise Unsupported("comparison of a 2-D array")


def grid(a):
    if isinstance(a, Grid):
        return a
    if isinstance(a, NArr):
        f = a.fnow()
        return Grid(a.kind, (1, a.length), lambda t, c: f(c))
    raise Unsupported("2-D operator with %r" % (a,))


def outer(it, a, k):
    """a[:, np.newaxis] or a[np.newaxis, :]."""
    f = a.fnow()
    full = lambda x: isinstance(x, slice) and x == slice(None)
    if len(k) == 2 and full(k[0]) and k[1] is None:
        return Grid(a.kind, (a.length, 1), lambda t, c: f(t))
    if len(k) == 2 and k[0] is None and full(k[1]):
        return Grid(a.kind, (1, a.length), lambda t, c: f(c))
    raise Unsupported("array subscript")


# ------------------------------------------------------------------ loops over groups


class GroupLoop:
    """
    While the body of a loop over groups runs for an arbitrary group: which tables are written
    through the labels of the group, and which are read otherwise.
    """

    cur = None

    def __init__(self, pre):
        self.pre = set(id(m) for m in pre)
        self.written = {}
        self.read = set()


def touch(m):
    if GroupLoop.cur is not None and id(m) in GroupLoop.cur.pre:
        GroupLoop.cur.read.add(id(m))


def wrote(m, axis):
    if GroupLoop.cur is not None and id(m) in GroupLoop.cur.pre:
        GroupLoop.cur.written.setdefault(id(m), (m, axis))
        if GroupLoop.cur.written[id(m)][1] is not axis:
            raise Unsupported("group loop writes through different selections")


class GroupBy(Ext):
    name = "GroupBy"

    def __init__(self, meta, by):
        self.meta, self.by = meta, by

    def loop(self, it, st, env):
        """for value, group in meta.groupby(column): each group touches its own timeseries only."""
        ctx = it.ctx
        meta, col = self.meta, self.meta.data[self.by]
        if isinstance(st.target, loops.ast.Tuple) is False or st.orelse:
            raise Unsupported("loop over groups")
        u = ctx.fresh("group", core.Str)
        before = dict(ctx.counter)
        pre = [m for m in ctx.muts if m is not env]
        sigs = [(m, loops.mut_sig(m)) for m in pre]
        sk = loops.state_key(ctx)
        known_axes = ctx.ghost.get("axes", ())
        log0 = len(ctx.log)
        member = lambda i, v: z3.And(num(col(i).kind) == 0, col(i).text == v)

        def body():
            w = ctx.int("member")
            ctx.assume(z3.And(w >= 0, w < num(meta.idx.n), member(w, u)))
            g = select(ctx, meta.idx, lambda i: member(i, u))
            rec = GroupLoop(pre)
            old, GroupLoop.cur = GroupLoop.cur, rec
            for nm in loops.assigned_names(st.body):
                env.vars[nm] = loops.Poison(nm)  # what an earlier group left
            try:
                it.assign(st.target, (SStr(u), meta.at_axis(g)), env)
                try:
                    it.exec_block(st.body, env)
                except PyExc as e:
                    return "raise", e.value, None
                except Exception as e:
                    if type(e).__name__ == "ContinueSig":
                        pass
                    elif type(e).__name__ in ("BreakSig", "ReturnSig"):
                        raise Unsupported("loop over groups left early")
                    else:
                        raise
            finally:
                GroupLoop.cur = old
            if loops.state_key(ctx) != sk:
                raise Unsupported("loop over groups changes other objects")
            for m, s in sigs:
                if loops.mut_sig(m) != s and id(m) not in rec.written:
                    if isinstance(m, (core.PyList, Obj, core.PyDict)) or not getattr(m, "scratch", False):
                        raise Unsupported("loop over groups changes %r" % (m,))
            bad = rec.read & set(rec.written)
            if bad:
                raise Unsupported("loop over groups reads tables it changes")
            res = []
            for m, axis in rec.written.values():
                if axis is not g:
                    raise Unsupported("loop over groups writes other timeseries")
                res.append((m, m.content(), axis))
            return "next", res, g

        res = ctx.subexplore(body)
        base = 1
        raises = [(cs, v) for cs, (k, v, g) in res if k == "raise"]
        nexts = [(cs, v, g) for cs, (k, v, g) in res if k == "next"]
        # conditions over the group value only (member facts are not conditions)
        fresh = loops.new_names(before, ctx.counter)

        def conds(cs, g=None):
            out = []
            for c in cs:
                used = loops.consts_of(c)
                if z3.is_quantifier(c) or any(x.startswith(("member", "m!sel", "up!sel", "inv!sel")) for x in used):
                    continue
                if used & fresh:
                    raise Unsupported("fresh symbols in a loop over groups")
                out.append(c)
            return out

        raises = [(conds(cs), v) for cs, v in raises]
        nexts = [(conds(cs), v, g) for cs, v, g in nexts]
        n = num(meta.idx.n)
        at = lambda cs, v: z3.substitute(loops.conj(cs), (u, v)) if cs else z3.BoolVal(True)
        q = z3.Int("q!grp")
        ingroup = lambda i: num(col(i).kind) == 0
        if raises:
            k = ctx.choose(len(raises) + 1)
            if k:
                cs, v = raises[k - 1]
                w = ctx.int("w!grp")
                ctx.assume(z3.And(w >= 0, w < n, ingroup(w), at(cs, col(w).text)))
                ctx.ghost["group that raises"] = w
                if not ctx.feasible():
                    raise core.PathAbort()
                raise PyExc(v)
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, ingroup(q)), z3.Not(z3.Or(*[at(cs, col(q).text) for cs, _ in raises]))), patterns=trigger(col(q), q)))
        if not nexts:
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(ingroup(q)))))
            return
        mutated = {}
        for cs, v, g in nexts:
            for m, content, axis in v:
                mutated.setdefault(id(m), (m, []))
        for m, paths in mutated.values():
            for cs, v, g in nexts:
                paths.append((cs, next((content for x, content, axis in v if x is m), m.content()), g))
        for m, paths in mutated.values():
            m.merge_groups(ctx, meta.idx, ingroup, [(lambda p, cs=cs: at(cs, col_text(meta, col, p)), content, g) for cs, content, g in paths], u, lambda p: col_text(meta, col, p))
        for nm in loops.assigned_names(st.body) | {x.id for x in loops.ast.walk(st.target) if isinstance(x, loops.ast.Name)}:
            env.vars[nm] = loops.Poison(nm)


def trigger(c, q):
    """A pattern for facts about all rows."""
    todo = [num(c.kind), c.text]
    while todo:
        x = todo.pop(0)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(q) for a in x.children()):
                return [x]
            todo.extend(x.children())
    return []


def col_text(meta, col, p):
    return col(p).text


# ------------------------------------------------------------------ tables


class DataM(Mut, Ext):
    """DataFrame of numbers; every cell a number or missing."""

    name = "DataFrame"

    def __init__(self, rows, cols, val, nan):
        Mut.__init__(self)
        self.rows, self.cols, self.val, self.nan = rows, cols, val, nan
        self.colindex = None  # labels other than those of the axis: a MultiIndex

    def __repr__(self):
        return "DataM"

    def copy(self):
        r = DataM(self.rows, self.cols, self.val, self.nan)
        r.colindex = self.colindex
        return r

    def content(self):
        return (self.val, self.nan)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("DataFrame", "object", "Iterable")

    def length(self, it):
        touch(self)
        return self.rows.n

    def getattr(self, it, name):
        if self.colindex is not None and name in ("loc", "mean", "apply", "dropna"):
            raise Unsupported("table with a MultiIndex of columns")
        if name == "columns":
            return IndexM(self.cols) if self.colindex is None else self.colindex
        if name == "index":
            return IndexM(self.rows, True)
        if name == "shape":
            return (self.rows.n, self.cols.n)
        if name == "loc":
            return LocM(self)
        touch(self)
        if name == "iloc" and self.colindex is None:
            return ILocD(self)
        if name in ("items", "iteritems") and self.colindex is None:
            return Builtin(name, lambda it: SymList(self.cols.n, lambda i: (self.cols.label(num(i)), self.column(i))))
        v, na = self.val, self.nan
        if name in ("isna", "isnull", "notna", "notnull"):
            neg = name.startswith("not")
            fn = (lambda t, c: z3.Not(na(t, c))) if neg else (lambda t, c: na(t, c))
            return Builtin(name, lambda it: Grid("b", (self.rows.n, self.cols.n), fn, self.rows, self.cols, True))
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.copy())
        if name == "sort_index":
            def sort_index(it, axis=0, inplace=False):
                from . import widem

                if axis in (0, "index"):
                    r = self.sub(widem.sorted_axis(it.ctx, self.rows), None)
                elif self.colindex is not None:
                    raise Unsupported("sort_index")
                else:
                    i, j = it.ctx.int("i!sort"), it.ctx.int("j!sort")
                    done = it.ctx.proves(z3.Implies(z3.And(i >= 0, i < j, j < num(self.cols.n)), num(self.cols.label(i)) <= num(self.cols.label(j))), 2000)
                    r = self.copy() if done else self.sub(None, widem.sorted_axis(it.ctx, self.cols))
                if inplace:
                    self.rows, self.cols, self.val, self.nan = r.rows, r.cols, r.val, r.nan
                    return None
                return r
            return Builtin(name, sort_index)
        if name == "astype":
            return Builtin(name, lambda it, t: self.copy())
        if name in ("where", "mask"):
            def where(it, g, *rest):
                if rest or not isinstance(g, Grid):
                    raise Unsupported("where")
                for a, b in zip(g.shape, (self.rows.n, self.cols.n)):
                    if not it.ctx.proves(num(a) == num(b), 2000):
                        it.throw("ValueError", "Array conditional must be same shape as self")
                f = g.fn if name == "where" else (lambda t, c: z3.Not(sbool(g.fn(t, c))))
                return DataM(self.rows, self.cols, v, lambda t, c: z3.Or(na(t, c), z3.Not(sbool(f(t, c)))))
            return Builtin(name, where)
        if name == "dropna":
            def dropna(it, axis=0, how="any"):
                ax = {0: 0, "index": 0, "rows": 0, 1: 1, "columns": 1}[axis]
                there = lambda t, c: z3.Not(na(t, c))
                n, m = self.rows.n, self.cols.n
                if how == "all":
                    some = exists_on(it.ctx, self.rows, n, there) if ax == 1 else exists_on(it.ctx, self.cols, m, lambda c, t: there(t, c))
                    keep = some
                else:
                    miss = exists_on(it.ctx, self.rows, n, lambda t, c: na(t, c)) if ax == 1 else exists_on(it.ctx, self.cols, m, lambda c, t: na(t, c))
                    keep = lambda i: z3.Not(miss(i))
                a = select(it.ctx, self.cols if ax == 1 else self.rows, keep)
                return self.sub(None, a) if ax == 1 else self.sub(a, None)
            return Builtin(name, dropna)
        if name in ("T", "transpose"):
            from . import widem

            ix = self.colindex if self.colindex is not None else None
            r = widem.WideM(self.cols, ix, self.rows, lambda r, t: v(num(t), num(r)), lambda r, t: na(num(t), num(r)))
            return r if name == "T" else Builtin(name, lambda it: r)
        if name == "apply":
            return Builtin(name, self.apply)
        if name == "mean":
            def mean(it, axis=0, **kw):
                if axis not in (0, "index") or kw:
                    raise Unsupported("mean")
                return MeanSeries(self)
            return Builtin(name, mean)
        if name == "values":
            return Grid("f", (self.rows.n, self.cols.n), lambda t, c: v(t, c), self.rows, self.cols)
        raise Unsupported("DataFrame." + name)

    def setattr(self, it, name, x):
        if name == "index":
            touch(self)
            if isinstance(x, IndexM):
                lab, n = x.axis.label, x.axis.n
            else:
                a = npm.as_array(it, x)
                lab, n = a.fnow(), a.length
            if not it.ctx.branch(num(n) == num(self.rows.n), "length of the index"):
                it.throw("ValueError", "Length mismatch")
            old = self.rows
            if self.rows.parent is not None:
                r = Axis(old.n, lab, old.parent, old.cond, old.up, old.inv)
            else:
                r = Axis(old.n, lab)
                r.relabel = old
            r.same = getattr(old, "same", old)
            if axis_kind(old) is not None:
                r.kind = (axis_kind(x.axis) or "M") if isinstance(x, IndexM) else a.kind
            self.rows = r
            return
        if name == "columns":
            from . import widem

            if isinstance(x, widem.WIndex) and x.axis is self.cols:
                touch(self)
                self.colindex = x
                return
            if isinstance(x, IndexM) and x.axis is self.cols:
                touch(self)
                self.colindex = None
                return
        raise Unsupported("DataFrame.%s = ..." % name)

    def sub(self, rows, cols):
        """The part with the given selections of the present axes."""
        v, na = self.val, self.nan
        r = rows or self.rows
        c = cols or self.cols
        rows0, cols0 = self.rows, self.cols
        pr = (lambda t: r.pos(t, rows0)) if rows is not None and rows is not rows0 else (lambda t: t)
        pc = (lambda k: c.pos(k, cols0)) if cols is not None and cols is not cols0 else (lambda k: k)
        x = DataM(r, c, lambda t, k: v(pr(num(t)), pc(num(k))), lambda t, k: na(pr(num(t)), pc(num(k))))
        if cols is None or cols is self.cols:
            x.colindex = self.colindex
        return x

    def column_axis(self, it, k):
        if self.colindex is not None:
            raise Unsupported("table with a MultiIndex of columns")
        if isinstance(k, NArr) and k.kind != "b" and getattr(k, "axis", None) is not None:
            k = IndexM(k.axis)
        if not isinstance(k, IndexM):
            raise Unsupported("subscript of a table")
        if not k.axis.above(self.cols):
            raise Unsupported("labels of another table")
        return k.axis

    def iterate(self, it):
        touch(self)
        return SymList(self.cols.n, lambda i: self.cols.label(num(i)))

    def column(self, c):
        """One timeseries, by position."""
        v, na = self.val, self.nan
        r = FloatCol("f", self.rows.n, lambda t: v(num(t), num(c)))
        r.axis, r.source, r.missing = self.rows, None, lambda t: na(num(t), num(c))
        return r

    def getitem(self, it, k):
        if is_num(k) and self.colindex is None:
            touch(self)
            return self.column(at_label(self.cols, k))
        return self.sub(None, self.column_axis(it, k))

    def setitem(self, it, k, x):
        a = self.column_axis(it, k)
        if not isinstance(x, DataM) or x.cols is not a:
            raise Unsupported("assignment of a part of a table")
        if not same_rows(x.rows, self.rows):
            raise Unsupported("assignment of a table with other times")
        if it.store_recorder is not None:
            raise Unsupported("assignment in a loop")
        wrote(self, a)
        v, na = self.val, self.nan
        base = self.cols
        has, f = (lambda c: a.has(c, base)), (lambda c: a.find(c, base))
        self.val = lambda t, c: z3.If(has(num(c)), x.val(num(t), f(num(c))), v(num(t), num(c)))
        self.nan = lambda t, c: z3.If(has(num(c)), x.nan(num(t), f(num(c))), na(num(t), num(c)))

    def merge_groups(self, ctx, idx, ingroup, paths, u, text):
        """After the loop: each timeseries as the iteration of its group left it."""
        v0, n0 = self.val, self.nan
        base = self.cols

        def combine(old, k):
            def fn(t, c):
                t, c = num(t), num(c)
                p = idx.find(c, base)
                r = old(t, c)
                inside = z3.And(idx.has(c, base), ingroup(p))
                x = None
                for cond, content, g in reversed(paths):
                    e = norm(z3.substitute(content[k](t, c), (u, text(p))))
                    x = e if x is None else z3.If(cond(p), e, x)
                return z3.If(inside, x, r)
            return fn

        self.val, self.nan = combine(v0, 0), combine(n0, 1)

    def apply(self, it, f, axis=0, **kw):
        if axis not in (0, "index") or kw:
            raise Unsupported("apply")
        ctx = it.ctx
        j = ctx.int("j!apply")
        src = self
        before = dict(ctx.counter)
        sk = loops.state_key(ctx)

        def one():
            ctx.assume(z3.And(j >= 0, j < num(src.cols.n)))
            col = FloatCol("f", src.rows.n, lambda t: src.val(num(t), j))
            col.axis, col.source = src.rows, (src, j)
            ctx.ghost["columns applied"] = ctx.ghost.get("columns applied", ()) + (col,)
            try:
                r = it.call(f, [col], {})
            except PyExc as e:
                return "raise", e.value
            if loops.state_key(ctx) != sk:
                raise Unsupported("apply with side effects")
            if not isinstance(r, NArr):
                raise Unsupported("result of apply: %r" % (r,))
            return "val", r

        ghost = dict(ctx.ghost)
        res = ctx.subexplore(one)
        fresh = loops.new_names(before, ctx.counter)
        vals, raises = [], []
        rows = None
        for cs, (k, v) in res:
            cs = [c for c in cs[1:]]
            for c in cs:
                if loops.consts_of(c) & fresh:
                    raise Unsupported("fresh symbols in apply")
            (vals if k == "val" else raises).append((cs, v))
        loops.handle_exits(it, j, num(self.cols.n), raises, lambda v: (_ for _ in ()).throw(PyExc(v)))
        if not vals:
            if ctx.feasible():
                raise Unsupported("apply on an empty table")
            raise core.PathAbort()
        rows = None
        for cs, v in vals:
            ax = getattr(v, "axis", None)
            if ax is None:
                if not ctx.proves(num(v.length) == num(self.rows.n), 3000):
                    raise Unsupported("apply gives another length")
                ax = self.rows
            rows = rows or ax
            if ax is not rows:
                raise Unsupported("apply gives different times")
        same = rows is self.rows
        self_nan = self.nan

        def val(t, c):
            t, c = num(t), num(c)
            x = None
            for cs, v in reversed(vals):
                e = norm(z3.substitute(real(v.fnow()(t)), (j, c)))
                cond = z3.substitute(loops.conj(cs), (j, c)) if cs else z3.BoolVal(True)
                x = e if x is None else z3.If(cond, e, x)
            return x

        return DataM(rows, self.cols, val, (lambda t, c: self_nan(num(t), num(c))) if same else (lambda t, c: z3.BoolVal(False)))


def same_rows(a, b):
    return a is b or getattr(a, "same", a) is getattr(b, "same", b)


class FloatCol(NArr):
    """One column of numbers (a Series)."""

    def getattr(self, it, name):
        if name in ("values", "array"):
            r = NArr(self.kind, self.length, self.fnow())
            r.source = self.source
            return r
        if name == "index":
            return IndexM(self.axis, True)
        if name == "to_numpy":
            return Builtin(name, lambda it: self.getattr(it, "values"))
        return NArr.getattr(self, it, name)


class MeanSeries(Ext):
    """df.mean(): one mean per column, by label."""

    name = "Series"
    plain = False

    def __init__(self, data, axis=None):
        self.data = data
        self.axis = axis or data.cols

    def getattr(self, it, name):
        if name == "reindex":
            def reindex(it, ix):
                if not isinstance(ix, IndexM) or not self.data.cols.above(ix.axis):
                    raise Unsupported("reindex")
                return MeanSeries(self.data, ix.axis)
            return Builtin(name, reindex)
        if name == "values":
            r = MeanSeries(self.data, self.axis)
            r.plain = True
            return r
        if name == "index":
            return IndexM(self.axis)
        raise Unsupported("Series." + name)


class LocM(Ext):
    """table.loc[labels]"""

    name = "loc"

    def __init__(self, m):
        self.m = m

    def getitem(self, it, k):
        m = self.m
        if isinstance(m, MetaM):
            if isinstance(k, NArr) and k.kind == "b":
                return m.getitem(it, k)
            if is_num(k):
                return RowM(m, at_label(m.idx, k)).fresh(it)
            return m.at_axis(m.row_axis(it, k))
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return m.getitem(it, k[1])
        if isinstance(k, NArr) and k.kind == "M" and getattr(k, "axis", None) is not None:
            k = IndexM(k.axis, True)
        if isinstance(k, IndexM) and k.times and k.axis.above(m.rows):
            return m.sub(k.axis, None)
        raise Unsupported("loc")

    def setitem(self, it, k, x):
        m = self.m
        if isinstance(m, MetaM):
            cols = None
            if isinstance(k, tuple) and len(k) == 2:
                k, cols = k
                cols = [cols] if isinstance(cols, str) else it.concrete_items(cols)
            a = m.row_axis(it, k)
            if cols is not None:
                for c in cols:
                    if isinstance(x, (MetaM, Series, NArr, PyList)):
                        raise Unsupported("loc assignment")
                    m.put(it, a, c, lambda i: cell(x))
                return
            if not isinstance(x, MetaM) or x.idx is not a or set(x.data) != set(m.data):
                raise Unsupported("loc assignment")
            for c in list(m.data):
                m.put(it, a, c, x.data[c])
            return
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return m.setitem(it, k[1], x)
        raise Unsupported("loc assignment")


MISSING = None


def cell(x):
    if isinstance(x, Cell):
        return x
    if x is None or x is core.NAN:
        return Cell(z3.IntVal(1), lit(""), z3.RealVal(0))
    if isinstance(x, (str, SStr)):
        return Cell(z3.IntVal(0), sstr(x), z3.RealVal(0))
    if hasattr(x, "plain") and x.plain():
        return Cell(z3.IntVal(0), x.e, z3.RealVal(0))
    if is_num(x):
        return Cell(z3.IntVal(2), lit(""), real(x))
    if isinstance(x, OptText):
        return Cell(ite(x.none, z3.IntVal(1), z3.IntVal(0)), ite(x.none, lit(""), x.e), z3.RealVal(0))
    raise Unsupported("metadata value %r" % (x,))


class OptText(Ext):
    """A text or None."""

    def __init__(self, none, e):
        self.none, self.e = none, e


class MetaM(Mut, Ext):
    """DataFrame of metadata: one row per timeseries, concrete column names."""

    name = "DataFrame"

    def __init__(self, idx, data):
        Mut.__init__(self)
        self.idx, self.data = idx, dict(data)
        self.multi = False  # indexed by other labels than those of the axis

    def __repr__(self):
        return "MetaM"

    def copy(self, data=None):
        r = MetaM(self.idx, self.data if data is None else data)
        r.multi = self.multi
        return r

    def content(self):
        return dict(self.data)

    def at_axis(self, a):
        if a is self.idx:
            return self.copy()
        base = self.idx
        return MetaM(a, {k: (lambda i, f=f: f(a.pos(num(i), base))) for k, f in self.data.items()})

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("DataFrame", "object", "Iterable")

    def length(self, it):
        return self.idx.n

    def contains(self, it, x):
        if not isinstance(x, str):
            raise Unsupported("column %r" % (x,))
        return x in self.data

    def iterate(self, it):
        return PyList(list(self.data))

    def row_axis(self, it, k):
        if isinstance(k, NArr) and getattr(k, "axis", None) is not None and k.kind != "b":
            k = IndexM(k.axis)
        if isinstance(k, NArr) and k.kind == "b":
            f = k.fnow()
            return select(it.ctx, self.idx, lambda i: sbool(f(i)))
        if not isinstance(k, IndexM) or not k.axis.above(self.idx):
            raise Unsupported("labels of another table")
        return k.axis

    def series(self, name):
        return MetaSeries(self.idx.n, self.data[name], name, self.idx, self)

    def getitem(self, it, k):
        touch(self)
        if isinstance(k, str):
            if k not in self.data:
                it.throw("KeyError", k)
            return self.series(k)
        if isinstance(k, NArr) and k.kind == "b":
            ax = getattr(k, "axis", None)
            if ax is not None and ax is not self.idx:
                raise Unsupported("mask of another table")
            if not it.ctx.proves(num(k.length) == num(self.idx.n), 2000):
                it.throw("ValueError", "Item wrong length")
            f = k.fnow()
            return self.at_axis(select(it.ctx, self.idx, lambda i: sbool(f(i))))
        names = it.concrete_items(k) if isinstance(k, (PyList, tuple, Names, core.PySet, PyDict)) else None
        if names is None and isinstance(k, Names):
            names = k.names
        if names is not None and all(isinstance(x, str) for x in names):
            for x in names:
                if x not in self.data:
                    it.throw("KeyError", x)
            return self.copy({x: self.data[x] for x in names})
        raise Unsupported("subscript of the metadata")

    def put(self, it, axis, name, f):
        """Set the cells of a column at the rows of a selection (f by position there)."""
        wrote(self, axis)
        if name not in self.data:
            if axis is not self.idx:
                old = lambda i: cell(None)
            else:
                self.data[name] = f
                return
        else:
            old = self.data[name]
        if axis is self.idx:
            self.data[name] = f
            return
        base = self.idx

        def new(i):
            i = num(i)
            x, y = f(axis.find(i, base)), old(i)
            return x.merge(axis.has(i, base), y)

        self.data[name] = new

    def setitem(self, it, k, v):
        if not isinstance(k, str):
            raise Unsupported("assignment to columns")
        if GroupLoop.cur is not None:
            touch(self)
            wrote(self, self.idx)
        if it.store_recorder is not None:
            raise Unsupported("assignment in a loop")
        n = self.idx.n
        if isinstance(v, Series):
            ax = getattr(v, "axis", None)
            if ax is not self.idx:
                raise Unsupported("assignment of a series of another table")
            self.data[k] = v.fn
            return
        if isinstance(v, (PyList, SymList, NArr, tuple)):
            s = it.as_seq(v)
            if not it.truth_cmp(z3.simplify(num(s.length) == num(n))) if is_z3(num(s.length) == num(n)) else False:
                it.throw("ValueError", "Length of values does not match length of index")
            get = s.get
            self.data[k] = lambda i: cell(get(num(i)))
            return
        c = cell(v)
        self.data[k] = lambda i: c

    def getattr(self, it, name):
        if name == "columns":
            return Names(self.data)
        if self.multi and name in ("index", "loc", "iterrows", "groupby"):
            raise Unsupported("metadata with other labels")
        if name == "index":
            return IndexM(self.idx)
        if name == "shape":
            return (self.idx.n, len(self.data))
        if name == "loc":
            return LocM(self)
        touch(self)
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.copy())
        if name == "groupby":
            def groupby(it, by, **kw):
                if isinstance(by, PyList) and by.items is not None and len(by.items) == 1:
                    by = by.items[0]
                if not isinstance(by, str) or kw:
                    raise Unsupported("groupby")
                if by not in self.data:
                    it.throw("KeyError", by)
                return GroupBy(self, by)
            return Builtin(name, groupby)
        if name == "assign":
            def assign(it, **kw):
                r = self.copy()
                for k, v in kw.items():
                    r.setitem(it, k, v)
                return r
            return Builtin(name, assign)
        if name == "iterrows":
            return Builtin(name, lambda it: SymList(self.idx.n, lambda i: (self.idx.label(num(i)), RowM(self, num(i)))))
        if name == "itertuples":
            def itertuples(it, index=True, name=None):
                return SymList(self.idx.n, lambda i: RowM(self, num(i)))
            return Builtin(name, itertuples)
        if name == "replace":
            def replace(it, m=None, value=None, to_replace=None):
                m = to_replace if m is None else m
                if value is not None:
                    return self.copy({k: it.call(it.getattr(self.series(k), "replace"), [m, value], {}).fn for k in self.data})
                r = self.copy()
                if isinstance(m, core.PyDict) and all(isinstance(k, str) and isinstance(x, (core.PyDict, MapM)) for k, x in m.items.items()) and m.items:
                    for k, x in m.items.items():
                        if k in r.data:
                            r.data[k] = it.call(it.getattr(self.series(k), "replace"), [x], {}).fn
                    return r
                for k in r.data:
                    r.data[k] = it.call(it.getattr(self.series(k), "replace"), [m], {}).fn
                return r
            return Builtin(name, replace)
        if name == "duplicated":
            return Builtin(name, lambda it: self.duplicated(it))
        if name == "values":
            from . import widem

            return widem.MetaValues(self)
        if name == "reset_index":
            def reset_index(it, drop=False, inplace=False):
                if not drop:
                    raise Unsupported("reset_index")
                if inplace:
                    self.multi = False
                    return None
                r = self.copy()
                r.multi = False
                return r
            return Builtin(name, reset_index)
        if name == "fillna":
            def fillna(it, x):
                y = cell(x)
                return self.copy({k: (lambda i, f=f: y.merge(num(f(num(i)).kind) == 1, f(num(i)))) for k, f in self.data.items()})
            return Builtin(name, fillna)
        if name == "set_index":
            def set_index(it, keys):
                from . import widem

                ns = [keys] if isinstance(keys, str) else it.concrete_items(keys)
                for k in ns:
                    if k not in self.data:
                        it.throw("KeyError", k)
                return MetaIndexed(widem.WIndex(self.idx, {k: self.data[k] for k in ns}))
            return Builtin(name, set_index)
        if name == "drop":
            def drop(it, labels=None, axis=0, columns=None, inplace=False, errors="raise"):
                if inplace or (columns is None and axis not in (1, "columns")):
                    raise Unsupported("drop")
                x = columns if columns is not None else labels
                x = [x] if isinstance(x, str) else it.concrete_items(x)
                if errors != "ignore" and any(k not in self.data for k in x):
                    it.throw("KeyError", "not found in axis")
                return MetaM(self.idx, {k: f for k, f in self.data.items() if k not in x})
            return Builtin(name, drop)
        if name == "drop_duplicates":
            def drop_duplicates(it, subset=None, keep="first", inplace=False, ignore_index=False):
                if subset is not None or keep != "first" or inplace or ignore_index:
                    raise Unsupported("drop_duplicates")
                kept = select(it.ctx, self.idx, lambda i: first_like(it.ctx, self.idx, self.data)(num(i)) == num(i))
                it.ctx.assume(z3.Implies(num(self.idx.n) >= 1, num(kept.n) >= 1))  # the first row is kept
                return self.at_axis(kept)
            return Builtin(name, drop_duplicates)
        if name == "iloc":
            return ILocM(self)
        if name == "squeeze":
            def squeeze(it):
                if len(self.data) < 2:
                    raise Unsupported("squeeze of another table")
                if not it.ctx.branch(num(self.idx.n) == 1, "a single row"):
                    return self
                return RowM(self, z3.IntVal(0)).fresh(it)
            return Builtin(name, squeeze)
        if name == "get":
            return Builtin(name, lambda it, k, default=None: self.series(k) if k in self.data else default)
        if name in ("items", "iteritems"):
            return Builtin(name, lambda it: PyList([(k, self.series(k)) for k in self.data]))
        if name == "__getitem__":
            return Builtin(name, lambda it, k: self.getitem(it, k))
        if name in ("reindex",):
            def reindex(it, columns=None):
                ns = it.concrete_items(columns)
                return self.getitem(it, PyList(ns))
            return Builtin(name, reindex)
        if name in self.data:
            return self.series(name)
        raise Unsupported("DataFrame." + name)

    def compare(self, it, op, a, b):
        from . import widem

        o = b if a is self else a
        if op not in ("Eq", "NotEq") or not (is_num(o) or isinstance(o, (str, SStr))):
            raise Unsupported("comparison of metadata")
        pos = {k: (lambda i, f=f: sbool(f(num(i)).eq(it, o))) for k, f in self.data.items()}
        return widem.MetaCmp(self.idx, pos if op == "Eq" else {k: (lambda i, f=f: z3.Not(f(i))) for k, f in pos.items()})

    def duplicated(self, it):
        """Row i equals an earlier row in every column (missing equal to missing)."""
        fs = list(self.data.values())
        eq = lambda i, j: z3.And(*[same_cell(f(i), f(j)) for f in fs]) if fs else z3.BoolVal(True)
        j = z3.Int("j!dup")
        r = BoolSeries("b", self.idx.n, lambda i: z3.Exists([j], z3.And(j >= 0, j < num(i), eq(num(i), j))))
        r.axis = self.idx
        return r

    def merge_groups(self, ctx, idx, ingroup, paths, u, text):
        base = self.idx
        old = dict(self.data)
        for k in old:
            if any(k not in content for _, content, _ in paths) or any(set(content) - set(old) for _, content, _ in paths):
                raise Unsupported("loop over groups adds columns")

            def fn(i, k=k):
                i = num(i)
                p = idx.find(i, base)
                inside = z3.And(idx.has(i, base), ingroup(p))
                x = None
                for cond, content, g in reversed(paths):
                    e = norm_cell(content[k](i).subst([(u, text(p))]))
                    x = e if x is None else e.merge(cond(p), x)
                return x.merge(inside, old[k](i))

            self.data[k] = fn


class MetaIndexed(Ext):
    """meta.set_index(names): only its index is of interest."""

    def __init__(self, index):
        self.index = index

    def getattr(self, it, name):
        if name == "index":
            return self.index
        raise Unsupported("DataFrame." + name)


def norm_cell(c):
    return Cell(norm(num(c.kind)), norm(c.text), norm(c.val))


def same_cell(a, b):
    return z3.And(num(a.kind) == num(b.kind), z3.Or(num(a.kind) != 0, a.text == b.text), z3.Or(num(a.kind) != 2, a.val == b.val))


class MapM(Ext):
    """An arbitrary mapping of texts to texts."""

    name = "dict"

    def __init__(self, has, new):
        self.has, self.new = has, new

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("dict", "Mapping", "object", "Iterable")

    def key(self, k):
        if isinstance(k, Cell):
            return z3.And(num(k.kind) == 0, self.has(k.text)), k.text
        return self.has(sstr(k)), sstr(k)

    def contains(self, it, k):
        return self.key(k)[0]

    def getitem(self, it, k):
        c, t = self.key(k)
        if not it.truth(c):
            it.throw("KeyError", "key")
        return Cell(z3.IntVal(0), self.new(t), z3.RealVal(0))

    def get(self, k, d):
        c, t = self.key(k)
        return Cell(z3.IntVal(0), self.new(t), z3.RealVal(0)).merge(c, cell(d))

    def getattr(self, it, name):
        if name == "get":
            return Builtin(name, lambda it, k, d=None: self.get(k, d))
        if name == "copy":
            return Builtin(name, lambda it: self)
        raise Unsupported("dict." + name)


class MetaSeries(Series):
    """One column of the metadata."""

    def __init__(self, n, fn, label, axis, owner):
        Series.__init__(self, n, fn, label)
        self.axis, self.owner = axis, owner

    def again(self, fn):
        return MetaSeries(self.length, fn, self.label, self.axis, None)

    def getattr(self, it, name):
        f = self.fn
        if name == "copy":
            return Builtin(name, lambda it, deep=True: self.again(f))
        if name == "index":
            return IndexM(self.axis)
        if name in ("values", "array", "to_numpy"):
            r = Series(self.length, f, self.label)
            return r if name != "to_numpy" else Builtin(name, lambda it: r)
        if name in ("loc", "iloc", "at", "iat") and self.owner is not None:
            raise Unsupported("%s of a column" % name)
        if name == "replace":
            def replace(it, m=None, value=None, to_replace=None, inplace=False, regex=False):
                m = to_replace if m is None else m
                if inplace or regex:
                    raise Unsupported("replace")
                if isinstance(m, MapM) and value is None:
                    return self.again(lambda i: m.get(f(num(i)), f(num(i))))
                if isinstance(m, core.PyDict) and value is None:
                    pairs = list(m.items.items())
                elif isinstance(m, (str, SStr)) or (is_num(m) and m is not core.NAN):
                    pairs = [(m, value)]
                elif m is core.NAN or m is None:
                    y = cell(value)
                    return self.again(lambda i: y.merge(num(f(num(i)).kind) == 1, f(num(i))))
                else:
                    raise Unsupported("replace")
                def new(i):
                    r = x = f(num(i))
                    for k, y in reversed(pairs):
                        r = cell(y).merge(sbool(x.eq(it, k)), r)
                    return r
                return self.again(new)
            return Builtin(name, replace)
        if name in ("map", "apply"):
            def ap(it, g):
                from .interp import Env
                import ast

                if isinstance(g, MapM):
                    return self.again(lambda i: g.get(f(num(i)), None))
                if isinstance(g, (core.PyDict,)):
                    raise Unsupported("map by a dict")
                env = Env(None, None, it.load("openscm.errors"))
                env.vars.update({"f": g, "a": self})
                out = it.eval(ast.parse("[f(x) for x in a]", mode="eval").body, env)
                x = out.value()
                return self.again(lambda i: cell(x.get(num(i))))
            return Builtin(name, ap)
        if name == "unique":
            raise Unsupported("unique")
        r = Series.getattr(self, it, name)
        if name in ("fillna",):
            return Builtin(name, lambda it, v: self.again(r.fn(it, v).fn))
        if name in ("isnull", "isna", "notnull", "notna"):
            def masked(it):
                m = r.fn(it)
                m.axis = self.axis
                return m
            return Builtin(name, masked)
        return r


def first_like(ctx, axis, data):
    """i -> the first row equal to row i in all columns (missing equal to missing)."""
    memo = ctx.ghost.setdefault("first_like", {})
    i, j = z3.Ints("i!fl j!fl")
    same = z3.simplify(z3.And(z3.BoolVal(True), *[same_cell(f(i), f(j)) for f in data.values()]))
    key = (id(axis), same.get_id())
    if key in memo:
        return memo[key][0]
    n = num(axis.n)
    first = z3.Function(str(ctx.fresh("first_like", core.I)), core.I, core.I)
    inr = lambda x: z3.And(x >= 0, x < n)
    at = lambda x, y: z3.substitute(same, (i, x), (j, y))
    ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(first(i) >= 0, first(i) <= i, at(i, first(i)), first(first(i)) == first(i))), patterns=[first(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j)), (first(i) == first(j)) == same), patterns=[z3.MultiPattern(first(i), first(j))]))
    memo[key] = (first, axis, same)
    return first


class ILocD(Ext):
    """data.iloc[:, number]"""

    name = "iloc"

    def __init__(self, d):
        self.d = d

    def getitem(self, it, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and is_num(k[1])):
            raise Unsupported("iloc")
        n, c = num(self.d.cols.n), num(k[1])
        if not it.ctx.branch(z3.And(c >= -n, c < n), "column in range"):
            it.throw("IndexError", "single positional indexer is out-of-bounds")
        return self.d.column(z3.simplify(z3.If(c < 0, c + n, c)))


class ILocM(Ext):
    """table.iloc[number]"""

    name = "iloc"

    def __init__(self, m):
        self.m = m

    def getitem(self, it, k):
        if is_num(k):
            if not it.ctx.branch(z3.And(num(k) >= 0, num(k) < num(self.m.idx.n)), "row in range"):
                it.throw("IndexError", "single positional indexer is out-of-bounds")
            return RowM(self.m, num(k)).fresh(it)
        raise Unsupported("iloc")


class RowM(Ext):
    """One row of the metadata."""

    name = "Series"

    def __init__(self, meta, i):
        self.meta, self.i = meta, i
        self.data = meta.data
        self.own = None

    def fresh(self, it):
        """A row which may be changed (where it was made)."""
        self.data = dict(self.meta.data)
        self.own = (it.store_recorder,)
        return self

    def subst(self, pairs):
        r = RowM(self.meta, subst(self.i, pairs))
        r.data = self.data
        return r

    def merge(self, c, b):
        raise Unsupported("rows")

    def contains(self, it, x):
        return x in self.data

    def drop(self, it, k):
        if self.own is None or self.own[0] is not it.store_recorder:
            raise Unsupported("change of a row")
        return self.data.pop(k)(self.i)

    def getattr(self, it, name):
        if name in self.data:
            return self.data[name](self.i)
        if name == "get":
            return Builtin(name, lambda it, k, d=None: self.data[k](self.i) if k in self.data else d)
        if name == "pop":
            def pop(it, k):
                if k not in self.data:
                    it.throw("KeyError", k)
                return self.drop(it, k)
            return Builtin(name, pop)
        if name == "drop":
            def drop(it, x, errors="raise"):
                ns = [x] if isinstance(x, str) else it.concrete_items(x)
                if errors != "ignore" and any(k not in self.data for k in ns):
                    it.throw("KeyError", "not found in axis")
                r = RowM(self.meta, self.i).fresh(it)
                r.data = {k: f for k, f in self.data.items() if k not in ns}
                return r
            return Builtin(name, drop)
        if name in ("items", "iteritems"):
            return Builtin(name, lambda it: PyList([(k, f(self.i)) for k, f in self.data.items()]))
        if name in ("index", "keys"):
            ns = Names(self.data)
            return ns if name == "index" else Builtin(name, lambda it: ns)
        if name == "to_dict":
            return Builtin(name, lambda it: PyDict({k: f(self.i) for k, f in self.data.items()}))
        it.throw("AttributeError", name)

    def getitem(self, it, k):
        if k in self.data:
            return self.data[k](self.i)
        it.throw("KeyError", k)


# ------------------------------------------------------------------ install


def deepcopy(it, x):
    if isinstance(x, (DataM, MetaM)):
        touch(x)
        return x.copy()
    if isinstance(x, Obj):
        r = Obj(x.cls, {})
        for k, v in x.f.items():
            r.f[k] = deepcopy(it, v)
        return r
    if isinstance(x, NArr):
        return NArr(x.kind, x.length, x.fnow())
    if x is None or isinstance(x, (str, bool, int, tuple, SStr)) or is_num(x):
        return x
    raise Unsupported("deepcopy of %r" % (x,))


class RawArray(Ext):
    """Two-dimensional array of numbers handed in by a user."""

    name = "ndarray"

    def __init__(self, shape, val, nan):
        self.shape, self.val, self.nan = shape, val, nan

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("ndarray", "object", "Iterable")

    def getattr(self, it, name):
        if name == "shape":
            return self.shape
        if name == "copy":
            return Builtin(name, lambda it: RawArray(self.shape, self.val, self.nan))
        raise Unsupported("ndarray." + name)


def install(it):
    rem.install(it)
    def shallow(it, x):
        if isinstance(x, Obj):
            r = Obj(x.cls, {})
            r.f.update(x.f)
            return r
        return deepcopy(it, x)

    it.ext["copy"] = ExtModule("copy", {"deepcopy": Builtin("deepcopy", deepcopy), "copy": Builtin("copy", shallow)})
    at = it.ext["pandas"].attrs

    def index(it, data=None, dtype=None, name=None, **kw):
        if isinstance(data, IndexM):
            return data
        a = npm.as_array(it, data)
        f = a.fnow()
        if a.kind not in ("M", "O"):
            raise Unsupported("pd.Index")
        ax = Axis(a.length, lambda i: f(num(i)))
        return IndexM(ax, True)

    old_series = at["Series"].fn

    def series(it, data=None, index=None, dtype=None, **kw):
        if isinstance(index, IndexM) and isinstance(data, NArr) and data.kind in ("f", "i"):
            if not it.ctx.proves(num(data.length) == num(index.axis.n), 4000):
                raise Unsupported("pd.Series: length of the index not known to match")
            r = FloatCol(data.kind, data.length, data.fnow())
            r.axis, r.source = index.axis, None
            return r
        if isinstance(data, IndexM) and data.times and index is None:
            return NArr("M", data.axis.n, lambda i, a=data.axis: a.label(num(i)))
        if isinstance(index, IndexM) and isinstance(data, bool):
            return BoolSeries("b", index.axis.n, lambda i: z3.BoolVal(data))
        if isinstance(index, IndexM) and not index.times and isinstance(data, (PyList, SymList)):
            s = it.as_seq(data)
            r = Series(index.axis.n, lambda i: cell(s.get(num(i))), kw.get("name", "column"))
            r.axis = index.axis
            return r
        return old_series(it, data, index, dtype, **kw)

    def frame(it, data=None, index=None, columns=None, **kw):
        if data is None and isinstance(index, IndexM) and isinstance(columns, IndexM):
            return DataM(index.axis, columns.axis, lambda t, c: z3.RealVal(0), lambda t, c: z3.BoolVal(True))
        if isinstance(data, DataM) and index is None and columns is None:
            return data.copy()
        if isinstance(data, RawArray) and index is None and columns is None:
            return DataM(Axis(data.shape[0], num), Axis(data.shape[1], num), data.val, data.nan)
        if isinstance(data, PyDict) and isinstance(index, IndexM) and columns is None and not kw:
            cells = {}
            for k, x in data.items.items():
                if not isinstance(k, str):
                    raise Unsupported("pd.DataFrame of a dict with other keys")
                if isinstance(x, (PyList, SymList, tuple)):
                    q = it.as_seq(x)
                    if not it.ctx.branch(num(q.length) == num(index.axis.n), "length of a column"):
                        it.throw("ValueError", "Length of values does not match length of index")
                    cells[k] = lambda i, q=q: cell(q.get(num(i)))
                elif x is None or isinstance(x, (str, SStr, bool)) or is_num(x):
                    cells[k] = lambda i, x=x: cell(x)
                else:
                    raise Unsupported("pd.DataFrame of a dict with other values")
            return MetaM(index.axis, cells)
        raise Unsupported("pd.DataFrame(...)")

    at["Index"] = TypeVal("Index", index)
    at["Series"] = TypeVal("Series", series)
    at["DataFrame"] = TypeVal("DataFrame", frame)
    at["MultiIndex"] = TypeVal("MultiIndex", lambda it, *a, **k: (_ for _ in ()).throw(Unsupported("MultiIndex")))
    at["RangeIndex"] = TypeVal("RangeIndex", lambda it, *a, **k: (_ for _ in ()).throw(Unsupported("RangeIndex")))
