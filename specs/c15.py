"""C15: filter patterns mean what they say."""
import z3

from pyvc import core, npm, rem
from pyvc.core import PyList, SStr, SymList, TypeVal, Unsupported, ite, lit, num, real, sbool
from pyvc.npm import NArr
from pyvc.rem import COUNT, MATCH, REMOVE, Cell, LevelStr, NameStr, Pat, RangeStr, Series
from pyvc.speclib import attempt, exc_name

F = "openscm.scmdataframe.filters:"
SEP = "|"


def load(it):
    rem.install(it)
    rem.theory(it.ctx)
    return it.load("openscm.scmdataframe.filters")


def column(ctx, only=None, nm="col"):
    """A metadata column: texts, numbers and missing values in any order."""
    n = ctx.int("rows")
    ctx.assume(n >= 0)
    K = z3.Function(nm + "_kind", core.I, core.I)
    T = z3.Function(nm + "_text", core.I, core.Str)
    V = z3.Function(nm + "_val", core.I, z3.RealSort())
    i = z3.Int("i!" + nm)
    lo, hi = only or (0, 2)
    ctx.assume(z3.ForAll([i], z3.And(K(i) >= lo, K(i) <= hi), patterns=[K(i)]))
    return Series(n, lambda i: Cell(K(num(i)), T(num(i)), V(num(i))), "column"), K, T, V


def row(ctx, s):
    i = ctx.int("row")
    ctx.assume(z3.And(i >= 0, i < num(s.length)))
    return i


def mask(r, s, ctx):
    """Obligations common to all masks; the value of one row."""
    if isinstance(r, PyList):
        r = NArr("b", *((r.length, r.get) if r.items is None else (len(r.items), npm.as_array(None, r).fn)))
    if not isinstance(r, NArr):
        raise Unsupported("result %r" % (r,))
    ctx.oblige("one answer per row", num(r.length) == num(s.length))
    ctx.oblige("of type bool", z3.BoolVal(r.kind == "b" or ctx.proves(num(r.length) == 0)))
    return lambda i: sbool(r.at(i)) if r.kind == "b" else z3.BoolVal(False)


LEVELS = [None, "=", "-", "+"]


def level(ctx, kind):
    if kind is None:
        return None, lambda d: z3.BoolVal(True)
    k = ctx.int("level")
    ctx.assume(k >= 0)
    if kind == "=":
        return k, lambda d: d == k
    if kind == "-":
        return LevelStr(k, "-"), lambda d: d <= k
    return LevelStr(k, "+"), lambda d: d >= k


def say(it, ctx):
    v = ctx.ghost.get("pattern")
    if v:
        s, txt, got = v
        return "pattern %r %s %r" % (s, "matches" if got else "does not match", txt)
    return ""


def build(v):
    v.trust("re.compile, match, fullmatch, search, findall, escape: contract in pyvc/rem.py (character-wise over all of Unicode; text without line breaks)")
    v.trust("pandas.Series: copy, loc, isin, ==, |, & by position: contract in pyvc/rem.py")
    v.trust("time.strptime for names of months and weekdays: contract in pyvc/rem.py (full and short names, each its own code)")
    v.assume("metadata values are texts without line breaks, numbers or missing values")

    def unchanged(ctx, col, K, T, V, i):
        c = col.at(i)
        ctx.oblige("the column is left as it was", z3.And(num(c.kind) == K(i), c.text == T(i), c.val == V(i)))

    for kind in LEVELS:
        for how in ("single", "list"):
            @v.unit("pattern_match: text, %s, level %s" % (how, kind or "not given"), functions=[F + "pattern_match", F + "find_depth"], covers=["end"])
            def texts(it, ctx, kind=kind, how=how):
                m = load(it)
                col, K, T, V = column(ctx, (0, 1))
                pats = [Pat(ctx.fresh("pattern", core.Str)) for _ in range(1 if how == "single" else ctx.choose(3))]
                lv, test = level(ctx, kind)
                arg = pats[0] if how == "single" else PyList(pats)
                r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, arg], {} if kind is None else {"level": lv}))
                if e is not None:
                    ctx.fail("no exception", exc_name(e))
                    return
                ctx.cover("end")
                i = row(ctx, col)
                at = mask(r, col, ctx)
                t = ite(K(i) == 1, lit(""), T(i))
                want = []
                for p in pats:
                    want.append(z3.And(MATCH(p.e, t), test(COUNT(lit(SEP), REMOVE(t, p.e)))))
                ctx.oblige("matches exactly what the patterns say", at(i) == z3.Or(*want) if want else z3.Not(at(i)))
                unchanged(ctx, col, K, T, V, i)
                if how == "list":
                    ctx.oblige("the list is left as it was", z3.BoolVal(arg.items is not None and len(arg.items) == len(pats) and all(a is b for a, b in zip(arg.items, pats))))

    @v.unit("pattern_match: missing values refused without has_nan", functions=[F + "pattern_match"], covers=["refused", "end"])
    def nan(it, ctx):
        m = load(it)
        col, K, T, V = column(ctx, (0, 1))
        p = Pat(ctx.fresh("pattern", core.Str))
        r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, p], {"has_nan": False}))
        i = row(ctx, col)
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("TypeError", z3.BoolVal(exc_name(e) == "TypeError"))
            j = z3.Int("j!nan")
            ctx.oblige("only if a value is missing", z3.Exists([j], z3.And(j >= 0, j < num(col.length), K(j) == 1)))
            return
        ctx.cover("end")
        at = mask(r, col, ctx)
        ctx.oblige("no missing value", K(i) != 1)
        ctx.oblige("matches exactly what the pattern says", at(i) == MATCH(p.e, T(i)))

    for how in ("single", "list"):
        @v.unit("pattern_match: numbers, %s" % how, functions=[F + "pattern_match"], covers=["end"])
        def numbers(it, ctx, how=how):
            m = load(it)
            col, K, T, V = column(ctx)
            xs = [ctx.real("value") for _ in range(1 if how == "single" else ctx.choose(3))]
            arg = xs[0] if how == "single" else PyList(xs)
            r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, arg], {"has_nan": [True, False][ctx.choose(2)]}))
            if e is not None:
                ctx.fail("no exception", exc_name(e))
                return
            ctx.cover("end")
            i = row(ctx, col)
            at = mask(r, col, ctx)
            ctx.oblige("matches exactly the equal values", at(i) == z3.Or(z3.BoolVal(False), *[z3.And(K(i) == 2, V(i) == x) for x in xs]))
            unchanged(ctx, col, K, T, V, i)

    @v.unit("pattern_match: pattern and number in one list", functions=[F + "pattern_match"], covers=["end"])
    def mixed(it, ctx):
        m = load(it)
        col, K, T, V = column(ctx, (0, 1))
        p, x = Pat(ctx.fresh("pattern", core.Str)), ctx.real("value")
        arg = PyList([p, x] if ctx.choose(2) else [x, p])
        r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, arg], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        i = row(ctx, col)
        at = mask(r, col, ctx)
        t = ite(K(i) == 1, lit(""), T(i))
        ctx.oblige("matches exactly what the entries say", at(i) == MATCH(p.e, t))
        unchanged(ctx, col, K, T, V, i)

    @v.unit("pattern_match: list of any length", functions=[F + "pattern_match"], covers=["end"], soft=True)
    def anylength(it, ctx):
        m = load(it)
        col, K, T, V = column(ctx, (0, 1))
        k = ctx.int("entries")
        ctx.assume(k >= 0)
        P = z3.Function("patterns", core.I, core.Str)
        ANY = z3.Function("any_of_first", core.I, core.I, z3.BoolSort())  # entries, row
        t = lambda i: ite(K(i) == 1, lit(""), T(i))
        a, b = z3.Ints("a!any b!any")
        ctx.assume(z3.ForAll([b], z3.Not(ANY(0, b)), patterns=[ANY(0, b)]))
        ctx.assume(z3.ForAll([a, b], z3.Implies(a >= 0, ANY(a + 1, b) == z3.Or(ANY(a, b), MATCH(P(a), t(b)))), patterns=[ANY(a + 1, b)]))
        arg = PyList(None, k, lambda i: Pat(P(num(i))))

        def cand(it, entry, cur, mods):
            out = []
            ix = cur.vars.get("\0i")
            if ix is None:
                return out
            j = z3.Int("j!inv")
            for nm, val in cur.vars.items():
                if isinstance(val, NArr) and val.kind == "b":
                    out.append(("%s: rows matched by the entries so far" % nm, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < num(col.length)), sbool(val.at(j)) == ANY(ix, j)))))
                    out.append(("%s: one per row" % nm, num(val.length) == num(col.length)))
            return out

        it.inv_gens = [cand]
        r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, arg], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        i = row(ctx, col)
        at = mask(r, col, ctx)
        ctx.oblige("matches exactly what any entry says", at(i) == ANY(k, i))

    @v.unit("pattern_match: regular expressions", functions=[F + "pattern_match"], covers=["end"])
    def regexp(it, ctx):
        m = load(it)
        col, K, T, V = column(ctx, (0, 1))
        ps = [Pat(ctx.fresh("pattern", core.Str)) for _ in range(2)]
        r, e = attempt(it, lambda: it.call(m.lookup("pattern_match"), [col, PyList(ps)], {"regexp": True}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        i = row(ctx, col)
        at = mask(r, col, ctx)
        t = ite(K(i) == 1, lit(""), T(i))
        ctx.oblige("matches exactly what one of the expressions matches", at(i) == z3.Or(*[rem.RAW["match"](p.e, t) for p in ps]))

    # ---------------------------------------------------------------- times

    def times(ctx, nm="times"):
        n = ctx.int("times")
        ctx.assume(n >= 0)
        D = z3.Function(nm, core.I, core.I)
        return NArr("i", n, lambda i: D(num(i))), D

    def check(it, ctx, r, e, data, D, want, entries=None, arg=None):
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        i = row(ctx, data)
        at = mask(r, data, ctx)
        ctx.oblige("matches exactly the times named", at(i) == want(D(i)))
        if entries is not None:
            same = z3.BoolVal(False)
            if arg.items is not None and len(arg.items) == len(entries):
                same = z3.And(z3.BoolVal(True), *[sbool(it.eq(a, b)) if a is not b else z3.BoolVal(True) for a, b in zip(arg.items, entries)])
            ctx.oblige("the list passed in is left as it was", same)

    INTS = ["is_in", "years_match", "month_match", "day_match", "hour_match"]
    for fn in INTS:
        @v.unit("%s: numbers" % fn, functions=[F + fn, F + "is_in"] + ([F + "time_match"] if fn in ("month_match", "day_match") else []), covers=["end"])
        def ints(it, ctx, fn=fn):
            m = load(it)
            data, D = times(ctx)
            k = ctx.choose(5)
            xs = [ctx.int("wanted") for _ in range(max(1, k - 1) if k else 1)]
            if k == 0 and fn != "is_in":
                arg, entries = xs[0], None
            else:
                if k == 0:
                    return
                xs = [] if k == 4 else xs
                arg, entries = PyList(list(xs)), list(xs)
            r, e = attempt(it, lambda: it.call(m.lookup(fn), [data, arg], {}))
            check(it, ctx, r, e, data, D, lambda d: z3.Or(z3.BoolVal(False), *[d == x for x in xs]), entries, arg)

        @v.unit("%s: list of numbers of any length" % fn, functions=[F + fn, F + "is_in"] + ([F + "time_match"] if fn in ("month_match", "day_match") else []), covers=["end"], soft=True)
        def anyints(it, ctx, fn=fn):
            m = load(it)
            data, D = times(ctx)
            k = ctx.int("entries")
            ctx.assume(k >= 0)
            W = z3.Function("wanted", core.I, core.I)
            arg = PyList(None, k, lambda i: W(num(i)))
            r, e = attempt(it, lambda: it.call(m.lookup(fn), [data, arg], {}))
            j = z3.Int("j!any")
            check(it, ctx, r, e, data, D, lambda d: z3.Exists([j], z3.And(j >= 0, j < k, W(j) == d)))

    @v.unit("years_match: other types refused", functions=[F + "years_match"], covers=["end"])
    def years(it, ctx):
        m = load(it)
        data, D = times(ctx)
        y, x = ctx.int("year"), ctx.real("float")
        for bad in (x, "2010", PyList(["2010"]), PyList([y, x]), PyList([y, "2010"])):
            r, e = attempt(it, lambda: it.call(m.lookup("years_match"), [data, bad], {}))
            ctx.oblige("refused with TypeError", z3.BoolVal(e is not None and exc_name(e) == "TypeError"))
        ctx.cover("end")

    for fn, what, forms in (("month_match", "month", ("%b", "%B")), ("day_match", "day", ("%a", "%A"))):
        def name(ctx, form, what=what):
            c = ctx.int("code")
            ctx.assume(z3.And(c >= 1, c <= 12) if what == "month" else z3.And(c >= 0, c <= 6))
            return NameStr(what, c, form), c

        for form in forms:
            label = "short names" if form == forms[0] else "full names"

            @v.unit("%s: %s and ranges" % (fn, label), functions=[F + fn, F + "time_match", F + "is_in"], covers=["end", "decreasing"],
                    assumptions=["lists of up to three names and ranges"])
            def names(it, ctx, fn=fn, form=form, name=name):
                m = load(it)
                data, D = times(ctx)
                shapes = ["n", "r", "nn", "nr", "rn", "rr", "nrn", "rnr"]
                sh = shapes[ctx.choose(len(shapes))]
                xs, conds, dec = [], [], []
                for ch in sh:
                    a, ca = name(ctx, form)
                    if ch == "n":
                        xs.append(a)
                        conds.append(lambda d, ca=ca: d == ca)
                    else:
                        b, cb = name(ctx, form)
                        xs.append(RangeStr(a, b))
                        conds.append(lambda d, ca=ca, cb=cb: z3.And(ca <= d, d <= cb))
                        dec.append(ca > cb)
                single = len(xs) == 1 and ctx.choose(2) == 0
                arg = xs[0] if single else PyList(list(xs))
                r, e = attempt(it, lambda: it.call(m.lookup(fn), [data, arg], {}))
                bad = z3.Or(z3.BoolVal(False), *dec)
                if e is not None and dec:
                    ctx.cover("decreasing")
                    ctx.oblige("refused with ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                    ctx.oblige("only decreasing ranges are refused", bad)
                    return
                ctx.oblige("decreasing ranges are refused", z3.Not(bad))
                check(it, ctx, r, e, data, D, lambda d: z3.Or(*[c(d) for c in conds]), None if single else list(xs), arg)

    @v.unit("month_match and day_match: unknown names refused", functions=[F + "month_match", F + "day_match", F + "time_match"], covers=["end"])
    def unknown(it, ctx):
        m = load(it)
        data, D = times(ctx)
        for fn in ("month_match", "day_match"):
            bad = NameStr("other", ctx.int("code"), "unknown")
            good = NameStr("month" if fn == "month_match" else "day", ctx.int("code"), "%b" if fn == "month_match" else "%a")
            for arg in (bad, PyList([bad]), PyList([good, bad])):
                r, e = attempt(it, lambda: it.call(m.lookup(fn), [data, arg], {}))
                ctx.oblige("refused with ValueError", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        ctx.cover("end")

    @v.unit("datetime_match", functions=[F + "datetime_match", F + "is_in"], covers=["end"])
    def datetimes(it, ctx):
        m = load(it)
        n = ctx.int("times")
        ctx.assume(n >= 0)
        D = z3.Function("times", core.I, core.I)
        data = NArr("M", n, lambda i: npm.Dt(D(num(i))))
        k = ctx.choose(4)
        ws = [ctx.int("wanted") for _ in range(k)]
        arg = PyList([npm.Dt(w) for w in ws])
        entries = list(arg.items)
        r, e = attempt(it, lambda: it.call(m.lookup("datetime_match"), [data, arg], {}))
        check(it, ctx, r, e, data, D, lambda d: z3.Or(z3.BoolVal(False), *[d == w for w in ws]), entries, arg)

    @v.unit("datetime_match: numbers refused", functions=[F + "datetime_match"], covers=["end"])
    def dtints(it, ctx):
        m = load(it)
        data = NArr("M", ctx.int("times"), lambda i: npm.Dt(z3.Int("t")))
        y = ctx.int("year")
        for bad in (y, PyList([y]), PyList([npm.Dt(ctx.int("w")), y])):
            r, e = attempt(it, lambda: it.call(m.lookup("datetime_match"), [data, bad], {}))
            ctx.oblige("refused with TypeError", z3.BoolVal(e is not None and exc_name(e) == "TypeError"))
        ctx.cover("end")
