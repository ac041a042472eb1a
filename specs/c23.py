"""C23: data frames are made of exactly the values, metadata and times given."""
import z3

from pyvc import builtins, core, dtm, framem, npm, pyamm, rem, tablem, widem
from pyvc.core import Obj, PyDict, PyList, SStr, Unsupported, lit, num, real, sbool, sstr
from pyvc.framem import Axis, DataM, IndexM, MetaM, RawArray, cell, same_cell
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE

DF = "openscm.scmdataframe.base:"
# the metadata every frame has to have (documented)
NEEDED = ["model", "scenario", "region", "variable", "unit"]


def setup(it):
    widem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()


def numbers(ctx):
    nt, nc = ctx.int("times"), ctx.int("timeseries")
    ctx.assume(z3.And(nt >= 0, nc >= 0))
    V = z3.Function("value", core.I, core.I, z3.RealSort())
    N = z3.Function("missing", core.I, core.I, z3.BoolSort())
    return nt, nc, (lambda t, c: V(num(t), num(c))), (lambda t, c: N(num(t), num(c)))


def given(ctx, kind, name):
    """A value of the columns: (what is passed, number of entries or None, position -> entry)."""
    if kind == "text":
        s = SStr(ctx.fresh(name, core.Str))
        return s, None, lambda i: cell(s)
    if kind == "number":
        x = ctx.real(name)
        return x, None, lambda i: cell(x)
    X = z3.Function("given_" + name, core.I, core.Str)
    at = lambda i: SStr(X(num(i)))
    if kind == "one":
        return PyList([at(0)]), z3.IntVal(1), lambda i: cell(at(i))
    n = ctx.int("entries_" + name)
    ctx.assume(n >= 0)
    return PyList(None, n, at), n, lambda i: cell(at(i))


def build(v):
    v.trust("pandas.DataFrame of an array, of a dictionary of columns; assignment of an index: contract in pyvc/framem.py")
    v.trust("TimePoints: contract proved in C11 and C12")
    v.assume("metadata columns: the required ones and two more of any content, each given as one text or number or as a list of any length")

    KINDS = ["text", "number", "one", "list"]
    for what in ("array", "table", "table with index"):
        @v.unit("from %s and columns" % what, functions=[BASE + ".__init__", DF + "_from_ts"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end", "refused"])
        def from_ts(it, ctx, what=what):
            setup(it)
            fs.time_points(it)
            nt, nc, val, nan = numbers(ctx)
            T = z3.Function("time", core.I, core.I)
            if what == "array":
                src = RawArray((nt, nc), val, nan)
            else:
                W = z3.Function("own_time", core.I, core.I)
                L = z3.Function("label", core.I, core.I)
                src = DataM(Axis(nt, lambda i: Dt(W(num(i)))), Axis(nc, lambda i: L(num(i))), val, nan)
                rows0, cols0 = src.rows, src.cols
            focus = ["variable", "unit", "extra"][ctx.choose(3)]
            kinds = {k: "text" for k in NEEDED + ["extra", "other"]}
            kinds[focus] = KINDS[ctx.choose(4)]
            if focus == "extra":
                kinds["model"] = "list"
            args = {k: given(ctx, kind, k) for k, kind in kinds.items()}
            cols = PyDict({k: a[0] for k, a in args.items()})
            kw = {"columns": cols}
            time = T
            ni = nt
            if what == "table":
                time = W
            else:
                ni = ctx.int("index_times")
                ctx.assume(ni >= 0)
                if ctx.choose(2):
                    kw["index"] = NArr("M", ni, lambda i: Dt(T(num(i))))
                else:
                    kw["index"] = PyList(None, ni, lambda i: Dt(T(num(i))))
            r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), [src], kw))
            wrong = z3.Or(*[z3.And(n != 1, n != nc) for _, n, _ in args.values() if n is not None], ni != nt)
            if e is not None:
                ctx.cover("refused")
                ctx.oblige("ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                ctx.oblige("refused only for a wrong number of entries", wrong)
            else:
                ctx.cover("end")
                ctx.oblige("a wrong number of entries is refused", z3.Not(wrong))
                d, m, tp = r.f["_data"], r.f["_meta"], r.f["_time_points"].f["_values"]
                if not isinstance(d, DataM) or not isinstance(m, MetaM):
                    raise Unsupported("another representation of the frame")
                t, c = ctx.int("t"), ctx.int("c")
                ctx.assume(z3.And(t >= 0, t < nt, c >= 0, c < nc))
                ctx.oblige("all times and timeseries", z3.And(num(d.rows.n) == nt, num(d.cols.n) == nc, z3.BoolVal(m.idx is d.cols)))
                ctx.oblige("the times given", z3.And(num(d.rows.label(t).e) == time(t), num(tp.length) == nt, num(tp.at(t).e) == time(t)))
                ctx.oblige("the values given", z3.And(d.nan(t, c) == nan(t, c), d.val(t, c) == val(t, c)))
                if set(m.data) != set(args):
                    ctx.fail("exactly the metadata given", "columns %s" % sorted(m.data))
                    return
                for k, (_, n, at) in args.items():
                    if n is None:
                        ctx.oblige("one entry applies to all (%s)" % k, same_cell(m.data[k](c), at(c)))
                    else:
                        ctx.oblige("entries go to their timeseries (%s)" % k, z3.And(z3.Implies(n == nc, same_cell(m.data[k](c), at(c))), z3.Implies(z3.And(n == 1, n != nc), same_cell(m.data[k](c), at(z3.IntVal(0))))))
            ctx.oblige("the columns given are unchanged", z3.BoolVal(list(cols.items) == list(args) and all(cols.items[k] is args[k][0] for k in args)))
            if what != "array":
                t, c = ctx.int("t"), ctx.int("c")
                ok = src.cols is cols0 and src.rows is rows0
                ctx.oblige("the table given is unchanged", z3.BoolVal(ok) if not ok else z3.And(src.val(t, c) == val(t, c), src.nan(t, c) == nan(t, c)))

    @v.unit("required columns missing", functions=[BASE + ".__init__", DF + "_from_ts"], covers=["end"])
    def missing(it, ctx):
        setup(it)
        fs.time_points(it)
        nt, nc, val, nan = numbers(ctx)
        absent = NEEDED[ctx.choose(len(NEEDED))]
        cols = PyDict({k: given(ctx, "text", k)[0] for k in NEEDED + ["extra"] if k != absent})
        r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), [RawArray((nt, nc), val, nan)], {"columns": cols, "index": NArr("M", nt, lambda i: Dt(num(i)))}))
        ctx.cover("end")
        ctx.oblige("refused with a ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))

    # ------------------------------------------------------------ long tables

    v.trust("pandas tables: rename of columns, reset_index, pivot_table, fillna, drop, set_index, sort_index: contract in pyvc/tablem.py")
    v.trust("dateutil does not read the names of metadata columns as times")
    v.assume("long tables: each metadata and time in one row; no metadata number is -999 (the value standing for missing ones)")

    v.unit("long table", functions=[BASE + ".__init__", DF + "_format_data", DF + "_format_long_data"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end"])(lambda it, ctx: long(it, ctx))

    @v.unit("data of pyam", functions=[BASE + ".__init__", DF + "_format_data", DF + "_format_long_data"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end"])
    def from_pyam(it, ctx):
        def via(it, ctx, src):
            x = pyamm.Iam(src)
            it.ext["pyam"] = core.ExtModule("pyam", {"IamDataFrame": pyamm.TYPE})
            it.fresh_modules()
            fs.time_points(it)
            return x

        long(it, ctx, via)

    @v.unit("long table refused", functions=[BASE + ".__init__", DF + "_format_data", DF + "_format_long_data"], covers=["end"])
    def long_refused(it, ctx):
        setup_tables(it)
        n, rows = user_rows(ctx)
        why = (["none", "both"] + NEEDED)[ctx.choose(2 + len(NEEDED))]
        meta = metadata(ctx, [k for k in NEEDED + ["run"] if k != why])
        T = z3.Function("when", core.I, core.I)
        cols = {k: tablem.Col("cell", f) for k, f in meta.items()}
        cols["value"] = tablem.Col("float", lambda i: (z3.ToReal(num(i)), z3.BoolVal(False)))
        if why != "none":
            cols["year"] = tablem.Col("year", lambda i: T(num(i)))
        if why == "both":
            cols["time"] = tablem.Col("time", lambda i: dtm.PyDt(T(num(i))))
        r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), [tablem.TableM(rows, cols)], {}))
        ctx.cover("end")
        ctx.oblige("refused with a ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))

    # ------------------------------------------------------------ wide tables

    for what, kinds in (("", ["M", "i", "f"]), (", times as texts", ["dates"]), (", years as texts", ["years"])):
        v.unit("wide table" + what, functions=[BASE + ".__init__", DF + "_format_data", DF + "_format_wide_data"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end", "refused"])(lambda it, ctx, kinds=kinds: wide(it, ctx, kinds))

    @v.unit("wide table refused", functions=[BASE + ".__init__", DF + "_format_data"], covers=["end"])
    def wide_refused(it, ctx):
        setup_tables(it)
        n, rows = user_rows(ctx)
        why = NEEDED[ctx.choose(len(NEEDED))]
        meta = metadata(ctx, [k for k in NEEDED + ["run"] if k != why])
        nt = ctx.int("times")
        ctx.assume(nt >= 0)
        block = tablem.Block("i", nt, num, lambda i, t: z3.ToReal(num(i)), lambda i, t: z3.BoolVal(False))
        r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), [tablem.TableM(rows, {k: tablem.Col("cell", f) for k, f in meta.items()}, block)], {}))
        ctx.cover("end")
        ctx.oblige("refused with a ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))


def long(it, ctx, via=None):
    """A long table (inside something else: via) gives the frame with its contents."""
    setup_tables(it)
    n, rows = user_rows(ctx)
    kind = ["time", "year"][ctx.choose(2)]
    T = z3.Function("when", core.I, core.I)
    V = z3.Function("value", core.I, z3.RealSort())
    N = z3.Function("missing", core.I, z3.BoolSort())
    meta = metadata(ctx, NEEDED + ([[], ["run"], ["run", "extra"]][ctx.choose(3)] if via is None else ["run"]), no_fill=True)
    name = spelling(ctx) if via is None else (lambda k: k)
    cols = {name(k): tablem.Col("cell", f) for k, f in meta.items()}
    tail = {name("value"): tablem.Col("float", lambda i: (V(num(i)), N(num(i)))), name(kind): tablem.Col(kind, lambda i: dtm.PyDt(T(num(i))) if kind == "time" else T(num(i)))}
    cols = dict(list(cols.items()) + list(tail.items())) if ctx.choose(2) == 0 else dict(list(tail.items()) + list(cols.items()))
    index = None
    if via is None and "run" in meta and ctx.choose(2):
        index = {"run": cols.pop(name("run"))}
        if "extra" in meta:
            index["extra"] = cols.pop(name("extra"))
    src = tablem.TableM(rows, cols, None, index)
    before = src.content()
    i, j = z3.Ints("i!u j!u")
    inr = lambda x: z3.And(x >= 0, x < n)
    key = lambda x, y: z3.And(*[same_cell(f(x), f(y)) for f in meta.values()])
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), key(i, j), T(i) == T(j)), i == j), patterns=[z3.MultiPattern(T(i), T(j))]))
    when = (lambda i: T(i)) if kind == "time" else (lambda i: npm.YEAR_START(T(i)))
    year_order(ctx)
    r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), [src if via is None else via(it, ctx, src)], {}))
    ctx.cover("end")
    ctx.oblige("accepted", z3.BoolVal(e is None))
    if e is not None:
        return
    d, m = parts(r, meta, ctx)
    if d is None:
        return
    p = ctx.ghost.get("pivot")
    if p is None or not d.rows.above(p.rows) or not d.cols.above(p.cols):
        raise Unsupported("another way to a table")
    i = ctx.int("i")
    ctx.assume(z3.And(inr(i), z3.Not(N(i)), p.placed(i)))
    t, c = d.rows.find(p.H(i), p.rows), d.cols.find(p.G(i), p.cols)
    ctx.oblige("a place for each value", z3.And(t >= 0, t < num(d.rows.n), c >= 0, c < num(d.cols.n)))
    ctx.oblige("values are where their metadata and time say", z3.And(z3.Not(d.nan(t, c)), d.val(t, c) == V(i), num(d.rows.label(t).e) == when(i), *[same_cell(m.data[k](c), f(i)) for k, f in meta.items()]))
    t, c = ctx.int("t"), ctx.int("c")
    ctx.assume(z3.And(t >= 0, t < num(d.rows.n), c >= 0, c < num(d.cols.n)))
    s = p.source(d.rows.pos(t, p.rows), d.cols.pos(c, p.cols))
    ctx.oblige("no value which was not given", z3.Implies(z3.Not(d.nan(t, c)), z3.And(inr(s), z3.Not(N(s)), d.val(t, c) == V(s), num(d.rows.label(t).e) == when(s), *[same_cell(m.data[k](c), f(s)) for k, f in meta.items()])))
    well_formed(ctx, r, d, m)
    ctx.oblige("the table given is unchanged", z3.BoolVal(src.content() == before))


def wide(it, ctx, kinds, via=None):
    """A wide table (of a file: via says what is passed instead of it) gives the frame with its contents."""
    setup_tables(it)
    n, rows = user_rows(ctx)
    kind = kinds[ctx.choose(len(kinds))]
    nt = ctx.int("times")
    ctx.assume(nt >= 0)
    T = z3.Function("when", core.I, z3.RealSort() if kind in ("f", "years") else core.I)
    X = texts(ctx, kind, T, nt)
    V = z3.Function("value", core.I, core.I, z3.RealSort())
    N = z3.Function("missing", core.I, core.I, z3.BoolSort())
    meta = metadata(ctx, NEEDED + [[], ["run"], ["run", "extra"]][ctx.choose(3)])
    name = spelling(ctx)
    cols = {name(k): tablem.Col("cell", f) for k, f in meta.items()}
    index = None
    if "run" in meta and ctx.choose(2):
        index = {"run": cols.pop(name("run"))}
        if "extra" in meta:
            index["extra"] = cols.pop(name("extra"))
    label = {"M": lambda j: dtm.PyDt(T(num(j))), "dates": lambda j: SStr(X.at(num(j))), "years": lambda j: SStr(X.at(num(j)))}.get(kind, lambda j: T(num(j)))
    block = tablem.Block({"dates": "U", "years": "U"}.get(kind, kind), nt, label, lambda i, t: V(num(i), num(t)), lambda i, t: N(num(i), num(t)))
    block.know = X and X.know
    src = tablem.TableM(rows, cols, block, index)
    before = src.content()
    when = {"M": lambda t: T(t), "i": lambda t: npm.YEAR_START(T(t)), "dates": lambda t: T(t)}.get(kind, lambda t: fs.FYEAR(T(t)))
    a, b = z3.Ints("a!w b!w")
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < nt, b >= 0, b < nt, T(a) == T(b)), a == b), patterns=[z3.MultiPattern(T(a), T(b))]))
    year_order(ctx)
    args, kw = ([src], {}) if via is None else via(it, ctx, src)
    r, e = attempt(it, lambda: it.instantiate(it.cls(BASE), args, kw))
    if e is not None:
        ctx.cover("refused")
        ctx.oblige("refused only without times", z3.And(nt == 0, z3.BoolVal(exc_name(e) == "ValueError")))
        return
    ctx.cover("end")
    ctx.oblige("a table without times is refused", nt > 0)
    d, m = parts(r, meta, ctx)
    if d is None:
        return
    base = d.rows
    while base.parent is not None:
        base = base.parent
    same = d.cols is m.idx and num(d.cols.n).eq(num(n))
    ctx.oblige("one timeseries for each row", z3.BoolVal(same))
    t, c = ctx.int("t"), ctx.int("c")
    ctx.assume(z3.And(t >= 0, t < nt, c >= 0, c < n))
    q = d.rows.find(t, base)
    ctx.oblige("all times", z3.And(num(d.rows.n) == nt, q >= 0, q < nt))
    ctx.oblige("values are where their metadata and time say", z3.And(d.nan(q, c) == N(c, t), d.val(q, c) == V(c, t), num(d.rows.label(q).e) == when(t), *[same_cell(m.data[k](c), f(c)) for k, f in meta.items()]))
    well_formed(ctx, r, d, m, X and X.order)
    if via is None:
        ctx.oblige("the table given is unchanged", z3.BoolVal(src.content() == before))


def setup_tables(it):
    setup(it)
    tablem.install(it)
    fs.time_points(it)


def user_rows(ctx):
    n = ctx.int("rows")
    ctx.assume(n >= 0)
    L = z3.Function("row_label", core.I, core.I)  # maybe the same more than once
    return n, Axis(n, lambda i: L(num(i)))


def spelling(ctx):
    """Names of columns are read irrespective of capitals."""
    k = ctx.choose(3)
    return [lambda s: s, lambda s: s.capitalize(), lambda s: s.upper()][k]


def metadata(ctx, names, no_fill=False):
    out = {}
    for k in names:
        K = z3.Function(k + "_kind", core.I, core.I)
        X = z3.Function(k + "_text", core.I, core.Str)
        V = z3.Function(k + "_number", core.I, z3.RealSort())
        i = z3.Int("i!" + k)
        ctx.assume(z3.ForAll([i], z3.And(K(i) >= 0, K(i) <= (1 if k in NEEDED else 2)), patterns=[K(i)]))
        if no_fill:
            ctx.assume(z3.ForAll([i], V(i) != -999, patterns=[V(i)]))
        out[k] = lambda i, K=K, X=X, V=V: Cell(K(num(i)), X(num(i)), V(num(i)))
    return out


def year_order(ctx):
    """Contracts of C11 and the calendar: later years are later times."""
    a, b = z3.Ints("a!y b!y")
    x, y = z3.Reals("x!y y!y")
    ctx.assume(z3.ForAll([a, b], z3.Implies(a < b, npm.YEAR_START(a) < npm.YEAR_START(b)), patterns=[z3.MultiPattern(npm.YEAR_START(a), npm.YEAR_START(b))]))
    ctx.assume(z3.ForAll([x, y], z3.Implies(x <= y, fs.FYEAR(x) <= fs.FYEAR(y)), patterns=[z3.MultiPattern(fs.FYEAR(x), fs.FYEAR(y))]))


class Texts:
    """Texts of times: position -> text."""


def texts(ctx, kind, T, n):
    """Dates, or years as numbers; read the same irrespective of capitals (trusted)."""
    if kind not in ("dates", "years"):
        return None
    F = z3.Function("text_of_time", core.I, core.Str)
    j, k = z3.Ints("j!tx k!tx")
    inr = lambda x: z3.And(x >= 0, x < num(n))
    NUM, VAL, ISD, DATE, LOWER = builtins.STRNUM, builtins.STRVAL, dtm.IS_DATE, dtm.DATE_IN, builtins.LOWER
    if kind == "years":
        about = lambda e, j: z3.And(NUM(e), VAL(e) == T(j))
    else:
        about = lambda e, j: z3.And(z3.Not(NUM(e)), ISD(e), DATE(e) == T(j))
    facts = lambda j: z3.Implies(inr(j), z3.And(about(F(j), j), about(LOWER(F(j)), j)))
    ctx.assume(z3.ForAll([j], facts(j), patterns=[F(j)]))
    O = widem.TEXT_ORDER
    x = lambda i: LOWER(F(i))
    t = Texts()
    t.order = z3.ForAll([j, k], z3.Implies(z3.And(inr(j), inr(k), O(x(j)) <= O(x(k))), T(j) <= T(k)), patterns=[z3.MultiPattern(F(j), F(k))])
    t.at = F
    t.know = lambda j: ctx.assume(facts(j))
    return t


def parts(r, meta, ctx):
    d, m = r.f["_data"], r.f["_meta"]
    if not isinstance(d, DataM) or not isinstance(m, MetaM):
        raise Unsupported("another representation of the frame")
    ok = set(m.data) == set(meta)
    ctx.oblige("exactly the metadata columns given", z3.BoolVal(ok))
    e = getattr(d.rows.label(z3.IntVal(0)), "e", None)
    times = e is not None and z3.is_int(num(e))
    ctx.oblige("times as times", z3.BoolVal(times))
    return (d, m) if ok and times else (None, None)


def well_formed(ctx, r, d, m, order=None):
    """Times in order, the same for the values and on their own; distinct labels of timeseries, the same in both tables."""
    tp = r.f["_time_points"].f["_values"]
    a, b = ctx.int("a"), ctx.int("b")
    ctx.oblige("labels of the timeseries", z3.BoolVal(m.idx is d.cols and d.colindex is None and not m.multi))
    k = z3.And(a >= 0, a < b, b < num(d.cols.n))
    ctx.oblige("labels of the timeseries are distinct", z3.Implies(k, num(d.cols.label(a)) != num(d.cols.label(b))))
    ctx.assume(z3.And(a >= 0, a < b, b < num(d.rows.n)))
    if order is not None:  # texts are sorted as texts
        ctx.assume(order)
    ctx.oblige("times are sorted", num(d.rows.label(a).e) <= num(d.rows.label(b).e))
    ctx.oblige("times of the frame", z3.And(num(tp.length) == num(d.rows.n), num(tp.at(a).e) == num(d.rows.label(a).e)))
