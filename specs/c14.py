"""C14: filtering keeps exactly the matching part of the data, unaltered."""
import z3

from pyvc import core, framem, npm, rem
from pyvc.core import Obj, PyDict, PyList, SStr, Unsupported, ite, lit, num, sbool
from pyvc.framem import DataM, MetaM
from pyvc.npm import NArr
from pyvc.rem import COUNT, MATCH, REMOVE, LevelStr, Pat
from pyvc.speclib import FnContract, attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE, REQUIRED, frame

F = "openscm.scmdataframe.filters:"


def setup(it):
    framem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()


def build(v):
    v.trust("pandas.DataFrame: where, dropna, isna, boolean selection of rows, count over an axis, index labels, deepcopy: contract in pyvc/framem.py")
    v.trust("TimePoints: contract proved in C11 and C12")
    v.assume("columns of the metadata: the required ones and one more of any content; any numbers of times and timeseries")

    for inplace in (False, True):
        for keep in (True, False):
            @v.unit("filter(keep=%s, inplace=%s)" % (keep, inplace), functions=[BASE + ".filter"], contracts=[BASE + "._apply_filters", fs.TP + ".__init__"], covers=["end"])
            def filt(it, ctx, inplace=inplace, keep=keep):
                setup(it)
                o, b = frame(it, ctx, REQUIRED + ["extra"])
                KT = z3.Function("time_matches", core.I, z3.BoolSort())
                KC = z3.Function("timeseries_matches", core.I, z3.BoolSort())
                asked = []

                def apply_filters(it, self, filters, has_nan=True):
                    asked.append((self, dict(filters.items), has_nan))
                    return (NArr("b", b.nt, lambda i: KT(num(i))), NArr("b", b.nc, lambda i: KC(num(i))))

                it.contracts[BASE + "._apply_filters"] = FnContract(apply_filters)
                hn = [True, False][ctx.choose(2)]
                kw = {"keep": keep, "inplace": inplace, "has_nan": hn, "variable": "pattern", "year": 2000}
                if keep and not inplace and hn and ctx.choose(2) == 1:
                    kw = {"variable": "pattern", "year": 2000}  # as documented if left out
                r, e = attempt(it, lambda: it.call(it.getattr(o, "filter"), [], kw))
                if e is not None:
                    ctx.fail("no exception", exc_name(e))
                    return
                ctx.cover("end")
                if len(asked) != 1:
                    raise Unsupported("another way to filter")
                ctx.oblige("by the filters given", z3.BoolVal(asked[0][1] == {"variable": "pattern", "year": 2000} and asked[0][2] is hn))
                if inplace:
                    ctx.oblige("nothing returned", z3.BoolVal(r is None))
                    res = o
                else:
                    ctx.oblige("another frame", z3.BoolVal(isinstance(r, Obj) and r is not o and r.cls is o.cls))
                    res = r
                if not isinstance(res, Obj):
                    return
                d, m = res.f["_data"], res.f["_meta"]
                if not isinstance(d, DataM) or not isinstance(m, MetaM):
                    raise Unsupported("another representation of the frame")
                t, c = fs.cell_of(ctx, b)
                sel = lambda t, c: z3.And(KT(t), KC(c)) if keep else z3.Not(z3.And(KT(t), KC(c)))
                K = lambda t, c: z3.And(sel(t, c), z3.Not(b.N(t, c)))
                rows = getattr(d.rows, "relabel", d.rows)
                ok = rows.above(b.rows) and d.cols.above(b.cols) and m.idx.above(b.cols)
                if not ok:
                    raise Unsupported("times or timeseries of another origin")
                ht, hc = rows.has(t, b.rows), d.cols.has(c, b.cols)
                ctx.oblige("a matching value keeps its timeseries and time", z3.Implies(K(t, c), z3.And(ht, hc)))
                t2, c2 = z3.Ints("t2 c2")
                ctx.oblige("times without remaining value disappear", z3.Implies(ht, z3.Exists([c2], z3.And(c2 >= 0, c2 < b.nc, K(t, c2)))))
                ctx.oblige("timeseries without remaining value disappear", z3.Implies(hc, z3.Exists([t2], z3.And(t2 >= 0, t2 < b.nt, K(t2, c)))))
                i, j = rows.find(t, b.rows), d.cols.find(c, b.cols)
                kept = z3.And(ht, hc)
                ctx.oblige("exactly the matching values remain", z3.Implies(kept, d.nan(i, j) == z3.Not(K(t, c))))
                ctx.oblige("remaining values are unchanged", z3.Implies(K(t, c), d.val(i, j) == b.V(t, c)))
                ctx.oblige("times are unchanged", z3.Implies(ht, z3.And(num(d.rows.label(i).e) == b.T(t), num(res.f["_time_points"].f["_values"].at(i).e) == b.T(t))))
                ctx.oblige("as many time points as rows", num(res.f["_time_points"].f["_values"].length) == num(d.rows.n))
                ctx.oblige("metadata of the same timeseries", z3.BoolVal(m.idx is d.cols) if m.idx is d.cols else z3.And(num(m.idx.n) == num(d.cols.n), z3.Implies(hc, z3.And(m.idx.has(c, b.cols), m.idx.find(c, b.cols) == j))))
                if set(m.data) != set(b.meta):
                    ctx.fail("metadata are unchanged", "columns %s" % sorted(m.data))
                    return
                ctx.oblige("metadata are unchanged", z3.Implies(hc, z3.And(*[framem.same_cell(m.data[k](j), b.meta[k](c)) for k in b.meta])))
                if not inplace:
                    fs.unchanged(ctx, b, t, c)

    # ------------------------------------------------------------ which part the filters name

    def text(ctx):
        return Pat(ctx.fresh("pattern", core.Str))

    def like(p, c):
        return MATCH(p.e, ite(num(c.kind) == 1, lit(""), c.text))

    def apply(it, ctx, what, expect_ts=None, expect_meta=None, hn=True, b=None, o=None):
        """Calls _apply_filters; one obligation for the times, one for the timeseries."""
        kw = PyDict(dict(what))
        r, e = attempt(it, lambda: it.call(it.getattr(o, "_apply_filters"), [kw], {} if hn is None else {"has_nan": hn}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        ts, cs = it.unpack(r, 2) if hasattr(it, "unpack") else r
        t, c = fs.cell_of(ctx, b)
        answers = []
        for a, n, i in ((ts, b.nt, t), (cs, b.nc, c)):
            if isinstance(a, PyList):
                a = NArr("b", *((a.length, a.get) if a.items is None else (len(a.items), npm.as_array(None, a).fn)))
            if not isinstance(a, NArr):
                raise Unsupported("result %r" % (a,))
            ctx.oblige("one answer per time and per timeseries", num(a.length) == num(n))
            answers.append(sbool(a.at(i)) if a.kind == "b" else z3.BoolVal(False))
        ctx.oblige("times: exactly the ones named", answers[0] == (expect_ts(t) if expect_ts else z3.BoolVal(True)))
        ctx.oblige("timeseries: exactly the ones named", answers[1] == (expect_meta(c) if expect_meta else z3.BoolVal(True)))
        fs.unchanged(ctx, b, t, c, "the frame")

    FNS = [BASE + "._apply_filters", F + "pattern_match"]
    TIMEC = [fs.TP + "." + n for n in ("years", "months", "days", "hours", "weekdays", "values")]
    DEPTH = {"": lambda d, k: d == k, "-": lambda d, k: d <= k, "+": lambda d, k: d >= k}

    def level(ctx, kind):
        k = ctx.int("level")
        ctx.assume(k >= 0)
        return (k if not kind else LevelStr(k, kind)), (lambda d: DEPTH[kind](d, k))

    def sep(it):
        return it.load("openscm.core.parameters").lookup("HIERARCHY_SEPARATOR")

    for kind in ("none", "", "-", "+"):
        for first in (True, False):
            if kind == "none" and not first:
                continue

            @v.unit("variable%s" % ("" if kind == "none" else " with level %s%s" % (kind or "=", "" if first else " (level first)")), functions=FNS + [F + "find_depth"], covers=["end"])
            def variable(it, ctx, kind=kind, first=first):
                setup(it)
                o, b = frame(it, ctx, REQUIRED, kinds={"variable": (0, 0)})
                p = text(ctx)
                what = [("variable", p)]
                test = lambda d: z3.BoolVal(True)
                if kind != "none":
                    lv, test = level(ctx, kind)
                    what = [("variable", p), ("level", lv)] if first else [("level", lv), ("variable", p)]
                s = it.getattr(o, "data_hierarchy_separator")
                x = lambda c: b.meta["variable"](c).text
                apply(it, ctx, what, None, lambda c: z3.And(MATCH(p.e, x(c)), test(COUNT(core.sstr(s), REMOVE(x(c), p.e)))), b=b, o=o)

    for kind in ("", "-", "+"):
        @v.unit("level %s alone" % (kind or "="), functions=FNS + [F + "find_depth"], covers=["end"])
        def levels(it, ctx, kind=kind):
            setup(it)
            o, b = frame(it, ctx, REQUIRED, kinds={"variable": (0, 0)})
            lv, test = level(ctx, kind)
            s = it.getattr(o, "data_hierarchy_separator")
            apply(it, ctx, [("level", lv)], None, lambda c: test(COUNT(core.sstr(s), b.meta["variable"](c).text)), b=b, o=o)

    @v.unit("one metadata column: pattern", functions=FNS, covers=["end"])
    def column(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"], kinds={"extra": (0, 1)})
        k = ["model", "scenario", "region", "unit", "climate_model", "extra"][ctx.choose(6)]
        ps = [text(ctx) for _ in range(1 + ctx.choose(2))]
        arg = ps[0] if len(ps) == 1 else PyList(ps)
        apply(it, ctx, [(k, arg)], None, lambda c: z3.Or(*[like(p, b.meta[k](c)) for p in ps]), b=b, o=o)

    @v.unit("one metadata column: number", functions=FNS, covers=["end"])
    def numbers(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"])
        x = ctx.real("value")
        cl = b.meta["extra"]
        apply(it, ctx, [("extra", x)], None, lambda c: z3.And(num(cl(c).kind) == 2, cl(c).val == x), b=b, o=o, hn=[None, True, False][ctx.choose(3)])

    @v.unit("two metadata columns: both", functions=FNS, covers=["end"])
    def two(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"], kinds={"extra": (0, 1)})
        ks = [("scenario", "region"), ("variable", "unit"), ("extra", "variable"), ("climate_model", "model")][ctx.choose(4)]
        ps = [text(ctx) for _ in range(2)]
        apply(it, ctx, list(zip(ks, ps)), None, lambda c: z3.And(*[like(p, b.meta[k](c)) for k, p in zip(ks, ps)]), b=b, o=o)

    @v.unit("regular expressions", functions=FNS, covers=["end"])
    def regexp(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED, kinds={k: (0, 0) for k in REQUIRED})
        k = ["variable", "scenario"][ctx.choose(2)]
        p = text(ctx)
        what = [("regexp", True), (k, p)]
        x = lambda c: b.meta[k](c).text
        apply(it, ctx, what if ctx.choose(2) else what[::-1], None, lambda c: rem.RAW["match"](p.e, x(c)), b=b, o=o)

    @v.unit("missing values refused without has_nan", functions=FNS, covers=["refused", "end"])
    def nan(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED + ["extra"], kinds={"extra": (0, 1)})
        p = text(ctx)
        r, e = attempt(it, lambda: it.call(it.getattr(o, "_apply_filters"), [PyDict({"extra": p})], {"has_nan": False}))
        t, c = fs.cell_of(ctx, b)
        K = lambda c: num(b.meta["extra"](c).kind)
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("TypeError", z3.BoolVal(exc_name(e) == "TypeError"))
            j = z3.Int("j!nan")
            ctx.oblige("only if a value is missing", z3.Exists([j], z3.And(j >= 0, j < b.nc, K(j) == 1)))
            return
        ctx.cover("end")
        ctx.oblige("no missing value", K(c) != 1)

    PARTS = {"year": "years", "month": "months", "day": "days", "hour": "hours"}
    for key in PARTS:
        @v.unit("%s: numbers" % key, functions=[BASE + "._apply_filters"] + ([BASE + "._day_match"] if key == "day" else []), contracts=TIMEC, covers=["end"])
        def parts(it, ctx, key=key):
            setup(it)
            o, b = frame(it, ctx, REQUIRED)
            P = fs.part(PARTS[key])
            k = ctx.choose(4)
            xs = [ctx.int("wanted") for _ in range(1 if k == 3 else k)]
            apply(it, ctx, [(key, xs[0] if k == 3 else PyList(list(xs)))], lambda t: z3.Or(z3.BoolVal(False), *[P(b.T(t)) == x for x in xs]), b=b, o=o)

    for key, what, forms in (("month", "month", ("%b", "%B")), ("day", "day", ("%a", "%A"))):
        @v.unit("%s: names" % key, functions=[BASE + "._apply_filters"] + ([BASE + "._day_match"] if key == "day" else []), contracts=TIMEC, covers=["end"])
        def names(it, ctx, key=key, what=what, forms=forms):
            setup(it)
            o, b = frame(it, ctx, REQUIRED)
            P = fs.part("months" if key == "month" else "weekdays")
            form = forms[ctx.choose(2)]
            k = ctx.choose(3)
            cs = []
            for _ in range(2 if k == 1 else 1):
                c = ctx.int("code")
                ctx.assume(z3.And(c >= 1, c <= 12) if what == "month" else z3.And(c >= 0, c <= 6))
                cs.append(c)
            ns = [rem.NameStr(what, c, form) for c in cs]
            apply(it, ctx, [(key, ns[0] if k == 0 else PyList(ns))], lambda t: z3.Or(*[P(b.T(t)) == c for c in cs]), b=b, o=o)

    @v.unit("time: datetimes", functions=[BASE + "._apply_filters", F + "datetime_match"], contracts=TIMEC, covers=["end"])
    def times(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        ws = [ctx.int("wanted") for _ in range(ctx.choose(3))]
        apply(it, ctx, [("time", PyList([npm.Dt(w) for w in ws]))], lambda t: z3.Or(z3.BoolVal(False), *[b.T(t) == w for w in ws]), b=b, o=o)

    @v.unit("times and metadata together", functions=FNS, contracts=TIMEC, covers=["end"])
    def together(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        p, x, y = text(ctx), ctx.int("year"), ctx.int("month")
        k = ctx.choose(3)
        what = [[("year", x), ("scenario", p), ("month", y)], [("scenario", p), ("month", y), ("year", x)], [("month", y), ("year", x), ("scenario", p)]][k]
        Y, M = fs.part("years"), fs.part("months")
        apply(it, ctx, what, lambda t: z3.And(Y(b.T(t)) == x, M(b.T(t)) == y), lambda c: like(p, b.meta["scenario"](c)), b=b, o=o)

    @v.unit("no filter names everything", functions=[BASE + "._apply_filters"], covers=["end"])
    def none(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        apply(it, ctx, [], b=b, o=o)

    @v.unit("unknown columns refused", functions=[BASE + "._apply_filters"], covers=["end"])
    def unknown(it, ctx):
        setup(it)
        o, b = frame(it, ctx, REQUIRED)
        what = [[("absent", text(ctx))], [("scenario", text(ctx)), ("absent", 3)], [("absent", "a"), ("year", 2000)]][ctx.choose(3)]
        r, e = attempt(it, lambda: it.call(it.getattr(o, "_apply_filters"), [PyDict(dict(what))], {}))
        ctx.cover("end")
        ctx.oblige("ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c, "the frame")
