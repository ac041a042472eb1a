"""C20: renaming and setting metadata touch exactly what they name; sources are left alone."""
import z3

from pyvc import core, framem, npm, rem, uindexm
from pyvc.core import Obj, PyDict, PyList, SStr, Unsupported, lit, num, real, sbool, sstr
from pyvc.framem import DataM, MapM, MetaM, same_cell
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import FnContract, attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE, REQUIRED, frame

B = z3.BoolSort()


def setup(it):
    framem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()


def mapping(k):
    return MapM(z3.Function("renamed_%d" % k, core.Str, B), z3.Function("new_name_%d" % k, core.Str, core.Str))


def keeps_data(ctx, res, b, t, c, label="the frame"):
    """Values, times, and the assignment of metadata to timeseries are as they were."""
    d, m = res.f["_data"], res.f["_meta"]
    if not isinstance(d, DataM) or not isinstance(m, MetaM):
        raise Unsupported("another representation of the frame")
    ok = d.cols is b.cols and getattr(d.rows, "same", d.rows) is getattr(b.rows, "same", b.rows) and m.idx is b.cols
    ctx.oblige(label + " keeps its timeseries and times", z3.BoolVal(ok))
    if ok:
        ctx.oblige(label + " keeps its values", z3.And(d.val(t, c) == b.V(t, c), d.nan(t, c) == b.nan(t, c)))
        ctx.oblige(label + " keeps its times", fs.times_ok(res, b, t))
    return ok


def build(v):
    v.trust("pandas.DataFrame: column selection and assignment, Series.replace with a mapping (all entries at once), duplicated, copy.deepcopy: contract in pyvc/framem.py")
    v.trust("TimePoints: contract proved in C11 and C12")
    v.assume("columns of the metadata: the required ones and one more of any content; mappings of texts to texts, any of them; up to two columns renamed at once")

    CHOICES = [("model",), ("variable",), ("unit",), ("extra",), ("scenario", "region"), ("extra", "climate_model")]
    for inplace in (False, True):
        @v.unit("rename(inplace=%s)" % inplace, functions=[BASE + ".rename"], covers=["end", "refused"])
        def rename(it, ctx, inplace=inplace):
            setup(it)
            o, b = frame(it, ctx, REQUIRED + ["extra"])
            cols = CHOICES[ctx.choose(len(CHOICES))]
            maps = [mapping(k) for k in range(len(cols))]
            r, e = attempt(it, lambda: it.call(it.getattr(o, "rename"), [PyDict(dict(zip(cols, maps)))], {"inplace": inplace} if inplace or ctx.choose(2) else {}))
            t, c = fs.cell_of(ctx, b)

            def new(k, i, upto=len(cols)):
                x = b.meta[k](i)
                for col, m in list(zip(cols, maps))[:upto]:
                    if col == k:
                        x = m.get(x, x)
                return x

            def equal(i, j, upto=len(cols)):
                return z3.And(*[same_cell(new(k, i, upto), new(k, j, upto)) for k in b.meta])

            if e is not None:
                ctx.cover("refused")
                ctx.oblige("ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                i, j = z3.Ints("i!amb j!amb")
                amb = lambda n: z3.Exists([i, j], z3.And(i >= 0, i < j, j < b.nc, equal(i, j, n)))
                ctx.oblige("refused only if metadata became ambiguous", z3.Or(*[amb(n + 1) for n in range(len(cols))]))
                fs.unchanged(ctx, b, t, c, "after a refusal the frame")
                return
            ctx.cover("end")
            if inplace:
                ctx.oblige("nothing returned", z3.BoolVal(r is None))
                res = o
            else:
                ctx.oblige("another frame", z3.BoolVal(isinstance(r, Obj) and r is not o and r.cls is o.cls))
                if not isinstance(r, Obj):
                    return
                res = r
                for k in ("_data", "_meta", "_time_points"):
                    ctx.oblige("nothing shared with the original (%s)" % k, z3.BoolVal(r.f.get(k) is not o.f[k]))
            if not keeps_data(ctx, res, b, t, c):
                return
            m = res.f["_meta"]
            if set(m.data) != set(b.meta):
                ctx.fail("columns are unchanged", "columns %s" % sorted(m.data))
                return
            for k in b.meta:
                ctx.oblige("entries named are renamed, others kept (%s)" % k, same_cell(m.data[k](c), new(k, c)))
            c2 = ctx.int("c2")
            ctx.assume(z3.And(c2 >= 0, c2 < c))
            ctx.oblige("metadata are not ambiguous", z3.Not(equal(c, c2)))
            if not inplace:
                fs.unchanged(ctx, b, t, c)

    @v.unit("rename: unknown columns refused", functions=[BASE + ".rename"], covers=["end"])
    def unknown(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        k = ctx.choose(2)
        what = {"absent": mapping(0)} if k == 0 else {"scenario": mapping(0), "absent": mapping(1)}
        r, e = attempt(it, lambda: it.call(it.getattr(o, "rename"), [PyDict(what)], {"inplace": bool(ctx.choose(2))}))
        ctx.cover("end")
        ctx.oblige("ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c, "the frame")

    for how in ("set_meta", "item"):
        for what in ("list", "text", "number"):
            @v.unit("%s: %s" % ("set_meta" if how == "set_meta" else "frame[...] = ...", what), functions=[BASE + ".set_meta"] + ([BASE + ".__setitem__"] if how == "item" else []), covers=["end"])
            def set_meta(it, ctx, how=how, what=what):
                setup(it)
                o, b = frame(it, ctx, REQUIRED + ["extra"])
                name = ["variable", "extra", "new", "climate_model"][ctx.choose(4)]
                n = ctx.int("values")
                ctx.assume(n >= 0)
                X = z3.Function("new_text", core.I, core.Str)
                if what == "list":
                    arg = PyList(None, n, lambda i: SStr(X(num(i))))
                    want = lambda i: Cell(z3.IntVal(0), X(num(i)), z3.RealVal(0))
                elif what == "text":
                    s = SStr(ctx.fresh("text", core.Str))
                    arg, want = s, lambda i: framem.cell(s)
                else:
                    x = ctx.real("number")
                    arg, want = x, lambda i: framem.cell(x)
                if how == "set_meta":
                    r, e = attempt(it, lambda: it.call(it.getattr(o, "set_meta"), [arg] + ([name] if ctx.choose(2) else []), {} if False else {}) if False else it.call(it.getattr(o, "set_meta"), [arg], {"name": name}))
                else:
                    r, e = attempt(it, lambda: it.call(it.getattr(o, "__setitem__"), [name, arg], {}))
                t, c = fs.cell_of(ctx, b)
                if e is not None:
                    ctx.oblige("ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                    ctx.oblige("refused only for another number of values", n != b.nc if what == "list" else z3.BoolVal(False))
                    fs.unchanged(ctx, b, t, c, "after a refusal the frame")
                    return
                ctx.cover("end")
                if what == "list":
                    ctx.oblige("another number of values is refused", n == b.nc)
                if not keeps_data(ctx, o, b, t, c):
                    return
                m = o.f["_meta"]
                if set(m.data) != set(b.meta) | {name}:
                    ctx.fail("exactly the column named is set", "columns %s" % sorted(m.data))
                    return
                ctx.oblige("the entries are the ones given", same_cell(m.data[name](c), want(c)))
                for k in b.meta:
                    if k != name:
                        ctx.oblige("other columns are unchanged (%s)" % k, same_cell(m.data[k](c), b.meta[k](c)))

    GIVEN = ["two names", "one name", "series over two names", "table", "table of one name"]
    for given in GIVEN:
        @v.unit("set_meta by index: %s" % given, functions=[BASE + ".set_meta"], covers=["end", "refused"])
        def by_index(it, ctx, given=given):
            setup(it)
            uindexm.install(it)
            text = (0, 0)
            keys = ["region", "extra"] if "two" in given or given == "table" else ["variable"]
            o, b = frame(it, ctx, REQUIRED + ["extra"], kinds={k: text for k in keys})
            m = ctx.int("entries")
            ctx.assume(m >= 1)
            E = {k: z3.Function("entry_" + k, core.I, core.Str) for k in keys}
            cells = {k: (lambda i, f=E[k]: Cell(z3.IntVal(0), f(num(i)), z3.RealVal(0))) for k in keys}
            name = ["extra" if "extra" not in keys else "scenario", "new", keys[-1]][ctx.choose(3)]
            n = ctx.int("values")
            ctx.assume(n >= 0)
            X = z3.Function("new_text", core.I, core.Str)
            ix = uindexm.UIndex(keys, m, [cells[k] for k in keys], len(keys) > 1)
            further = {"note": lambda i: framem.cell(None)} if given == "table" else {}
            arg_index = uindexm.UFrame(m, dict(cells, **further)) if "table" in given else ix
            what = 3 if "series" in given else ctx.choose(3)
            num_of = m
            if what == 0:
                arg, want, num_of = PyList(None, n, lambda i: SStr(X(num(i)))), lambda i: Cell(z3.IntVal(0), X(num(i)), z3.RealVal(0)), n
            elif what == 1:
                s = SStr(ctx.fresh("text", core.Str))
                arg, want = s, lambda i: framem.cell(s)
            elif what == 2:
                x = ctx.real("number")
                arg, want = x, lambda i: framem.cell(x)
            else:
                V = z3.Function("new_number", core.I, z3.RealSort())
                want = lambda i: Cell(z3.IntVal(2), lit(""), V(num(i)))
                arg = uindexm.USeries(ix, want, name)
            if what == 3:
                kw = {} if ctx.choose(2) else {"name": name}
            else:
                kw = {"name": name, "index": arg_index}
            r, e = attempt(it, lambda: it.call(it.getattr(o, "set_meta"), [arg], kw))
            t, c = fs.cell_of(ctx, b)
            hit = lambda q, i: z3.And(*[E[k](q) == b.meta[k](i).text for k in keys])
            inm = lambda q: z3.And(q >= 0, q < m)
            i, q, p = z3.Ints("i!sm q!sm p!sm")
            pat = lambda q: [E[keys[0]](q)]
            if e is not None:
                ctx.cover("refused")
                ctx.oblige("ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                twins = z3.Not(z3.ForAll([p, q], z3.Implies(z3.And(inm(p), inm(q), p != q), z3.Not(z3.And(*[E[k](p) == E[k](q) for k in keys])))))
                absent = z3.Exists([q], z3.And(inm(q), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b.nc), z3.Not(hit(q, i))))))
                k, pos = ctx.ghost.get("nowhere", (None, None))
                if k is not None:
                    x = ctx.int("any")
                    ctx.assume(z3.Implies(z3.And(x >= 0, x < b.nc), pos(x) >= -1))
                    absent = z3.Or(absent, z3.And(inm(k), z3.Implies(z3.And(x >= 0, x < b.nc), z3.Not(hit(k, x)))))
                ctx.oblige("refused only for equal entries, entries without timeseries or another number of values", z3.Or(twins, absent, num_of != m))
                fs.unchanged(ctx, b, t, c, "after a refusal the frame")
                return
            ctx.cover("end")
            ctx.oblige("another number of values is refused", num_of == m)
            k1, k2 = ctx.int("k1"), ctx.int("k2")
            ctx.assume(z3.And(inm(k1), inm(k2), k1 != k2))
            ctx.oblige("equal entries are refused", z3.Not(z3.And(*[E[k](k1) == E[k](k2) for k in keys])))
            w = ctx.ghost.get("where")
            ctx.oblige("entries without timeseries are refused", z3.And(w(k1) >= 0, w(k1) < b.nc, hit(k1, w(k1))) if w is not None else z3.Exists([i], z3.And(i >= 0, i < b.nc, hit(k1, i))))
            if not keeps_data(ctx, o, b, t, c):
                return
            d = o.f["_meta"]
            if set(d.data) != set(b.meta) | {name}:
                ctx.fail("exactly the column named is set", "columns %s" % sorted(d.data))
                return
            old = b.meta[name](c) if name in b.meta else framem.cell(None)
            ctx.oblige("timeseries of an entry get its value", z3.Implies(hit(k1, c), same_cell(d.data[name](c), want(k1))))
            ctx.oblige("other timeseries keep theirs", z3.Implies(z3.ForAll([q], z3.Implies(inm(q), z3.Not(hit(q, c))), patterns=pat(q)), same_cell(d.data[name](c), old)))
            for k in b.meta:
                if k != name:
                    ctx.oblige("other columns are unchanged (%s)" % k, same_cell(d.data[k](c), b.meta[k](c)))

    @v.unit("set_meta: no name refused", functions=[BASE + ".set_meta"], covers=["end"])
    def noname(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        r, e = attempt(it, lambda: it.call(it.getattr(o, "set_meta"), [[PyList(["a"]), 3][ctx.choose(2)]], {}))
        ctx.cover("end")
        ctx.oblige("ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c, "the frame")

    @v.unit("frame[\"time\"] = ...", functions=[BASE + ".__setitem__"], covers=["end"])
    def settime(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        X = z3.Function("new_time", core.I, core.I)
        r, e = attempt(it, lambda: it.call(it.getattr(o, "__setitem__"), ["time", NArr("M", b.nt, lambda i: Dt(X(num(i))))], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        t, c = fs.cell_of(ctx, b)
        d, m, tv = o.f["_data"], o.f["_meta"], o.f["_time_points"].f["_values"]
        ctx.oblige("the new times", z3.And(num(d.rows.n) == b.nt, num(d.rows.label(t).e) == X(t), num(tv.length) == b.nt, num(tv.at(t).e) == X(t)))
        ctx.oblige("the frame keeps its values", z3.And(z3.BoolVal(d.cols is b.cols), d.val(t, c) == b.V(t, c), d.nan(t, c) == b.nan(t, c)))
        fs.meta_as(ctx, "the frame keeps its metadata", m, c, b, c)

    @v.unit("metadata handed out are a copy", functions=[BASE + ".meta"], covers=["end"])
    def meta(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        m = it.getattr(o, "meta")
        ctx.cover("end")
        t, c = fs.cell_of(ctx, b)
        if not isinstance(m, MetaM):
            raise Unsupported("another representation of the metadata")
        ctx.oblige("not the frame's own", z3.BoolVal(m is not o.f["_meta"]))
        ctx.oblige("of the same timeseries", z3.BoolVal(m.idx is b.cols))
        fs.meta_as(ctx, "the same metadata", m, c, b, c)
        fs.unchanged(ctx, b, t, c)

    @v.unit("what is handed out by name", functions=[BASE + ".__getitem__", BASE + ".__len__"], contracts=[fs.TP + ".to_index"], covers=["column", "columns", "time", "unknown", "number"])
    def byname(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        what = ["column", "columns", "time", "unknown", "number"][ctx.choose(5)]
        t, c = fs.cell_of(ctx, b)
        if what == "number":
            ctx.cover(what)
            ctx.oblige("len: the number of timeseries", num(it.call(it.getattr(o, "__len__"), [], {})) == b.nc)
            return
        key = {"column": ["model", "unit", "extra"][ctx.choose(3) if what == "column" else 0], "columns": PyList(["extra", "region"]), "time": "time", "unknown": "other"}[what]
        r, e = attempt(it, lambda: it.call(it.getattr(o, "__getitem__"), [key], {}))
        ctx.cover(what)
        if what == "unknown":
            ctx.oblige("KeyError", z3.BoolVal(e is not None and exc_name(e) == "KeyError"))
        elif e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        elif what == "column":
            ctx.oblige("the column asked for", same_cell(r.fn(c), b.meta[key](c)))
        elif what == "columns":
            ctx.oblige("not the frame's own", z3.BoolVal(r is not o.f["_meta"]))
            ctx.oblige("the columns asked for", z3.BoolVal(r.idx is b.cols and list(r.data) == list(key.items)))
            for k in key.items:
                ctx.oblige("the entries of these (%s)" % k, same_cell(r.data[k](c), b.meta[k](c)))
        else:
            ctx.oblige("the times of the frame", z3.And(num(r.length) == b.nt, num(r.at(t).e) == b.T(t)))
        fs.unchanged(ctx, b, t, c)

    @v.unit("a frame from another", functions=[BASE + ".__init__", BASE + "._sort_meta_cols"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end"])
    def another(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        r, e = attempt(it, lambda: it.instantiate(o.cls, [o], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        t, c = fs.cell_of(ctx, b)
        for k in ("_data", "_meta", "_time_points"):
            ctx.oblige("nothing shared with the original (%s)" % k, z3.BoolVal(r.f.get(k) is not o.f[k]))
        if keeps_data(ctx, r, b, t, c, "the new frame"):
            fs.meta_as(ctx, "the new frame has the same metadata", r.f["_meta"], c, b, c)
        fs.unchanged(ctx, b, t, c)

    @v.unit("copy()", functions=[BASE + ".copy"], covers=["end"])
    def copies(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        r, e = attempt(it, lambda: it.call(it.getattr(o, "copy"), [], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        t, c = fs.cell_of(ctx, b)
        for k in ("_data", "_meta", "_time_points"):
            ctx.oblige("nothing shared with the original (%s)" % k, z3.BoolVal(r.f.get(k) is not o.f[k]))
        if keeps_data(ctx, r, b, t, c, "the copy"):
            fs.meta_as(ctx, "the copy has the same metadata", r.f["_meta"], c, b, c)
        fs.unchanged(ctx, b, t, c)
