"""C22: statistics over data frames are taken over exactly the timeseries and times asked for."""
import z3

from pyvc import core, framem, npm, rem, widem
from pyvc.builtins import concat
from pyvc.core import Obj, PyDict, PyList, SStr, Unsupported, lit, num, real, sbool, sstr
from pyvc.framem import DataM, MetaM, same_cell
from pyvc.npm import Dt, NArr
from pyvc.speclib import FnContract, attempt, exc_name
from pyvc.widem import Agg, WideM, WIndex

import specs.framespec as fs
from specs.framespec import BASE, REQUIRED, frame

NAMES = REQUIRED + ["extra"]
FILL = -999


def setup(it):
    widem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()


def twins(b, names):
    """Are there two timeseries with the same metadata in these columns?"""
    i, j = z3.Ints("i!tw j!tw")
    return z3.Exists([i, j], z3.And(i >= 0, i < j, j < b.nc, *[same_cell(b.meta[k](i), b.meta[k](j)) for k in names]))


def distinct(ctx, b, names=NAMES):
    ctx.assume(z3.Not(twins(b, names)))


def no_fill(ctx, b):
    i = z3.Int("i!fill")
    for k in b.meta:
        c = b.meta[k](i)
        ctx.assume(z3.ForAll([i], z3.Not(z3.And(num(c.kind) == 2, c.val == FILL)), patterns=[c.val]))


def wide(r):
    if not isinstance(r, WideM) or r.index is None or r.cols or not isinstance(r.index, WIndex):
        raise Unsupported("another representation of the result")
    return r


def same_times(ctx, w, b, label="times are those of the data"):
    t = ctx.int("t_res")
    ctx.assume(z3.And(t >= 0, t < b.nt))
    ctx.oblige(label, z3.And(num(w.times.n) == b.nt, num(w.times.label(t).e) == b.T(t)))


def as_the_data(ctx, label, w, b, names, t, c):
    """w is the table of the data: a row for each timeseries, with these metadata."""
    if w.rows is not b.cols:
        raise Unsupported("another representation of the result")
    ctx.oblige(label + ": values", z3.And(sbool(w.nan(c, t)) == b.nan(t, c), z3.Implies(z3.Not(b.nan(t, c)), w.val(c, t) == b.V(t, c))))
    if names is not None:
        if list(w.index.cells) != list(names):
            ctx.fail(label + ": names of the metadata", "%s" % list(w.index.cells))
            return
        ctx.oblige(label + ": metadata", z3.And(*[same_cell(w.index.cells[k](c), b.meta[k](c)) for k in names]))


def build(v):
    v.trust("pandas: wide tables, MultiIndex, groupby over index levels (each combination without missing keys once, its rows), set_index, reset_index, transposition: contract in pyvc/widem.py")
    v.trust("pandas groupby(...).mean/median/quantile and DataFrame.mean: the aggregate of the values that are not missing (which rows and times they are taken over is proved)")
    v.assume("metadata columns: the required ones and one more of any content, except the number -999 (used as fill value by the code); no two timeseries with the same metadata; some metadata columns remain")
    v.assume("filter: contract proved in C14")

    SUBSETS = [None, NAMES, ["variable"], ["extra", "model", "scenario"], ["unit", "region"]]
    @v.unit("timeseries()", functions=[BASE + ".timeseries"], covers=["end", "refused"])
    def timeseries(it, ctx):
        setup(it)
        o, b = frame(it, ctx, NAMES)
        sub = SUBSETS[ctx.choose(len(SUBSETS))]
        names = NAMES if sub is None else sub
        args = [] if sub is None else [PyList(list(sub))]
        r, e = attempt(it, lambda: it.call(it.getattr(o, "timeseries"), args, {}))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c)
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("refused only for ambiguous metadata", z3.And(z3.BoolVal(exc_name(e) == "ValueError"), twins(b, names)))
            return
        ctx.cover("end")
        ctx.oblige("ambiguous metadata are refused", z3.Not(twins(b, names)))
        w = wide(r)
        as_the_data(ctx, "one row for each timeseries", w, b, names, t, c)
        same_times(ctx, w, b)

    OVER = [("climate_model",), ("extra",), ("variable", "unit"), ("scenario", "model", "extra"), ("region",), ("model", "scenario", "region", "unit", "climate_model", "extra")]
    OPS = [("median", {}), ("mean", {}), ("quantile", {"q": 0.17}), ("quantile", {})]
    for op, kw in OPS:
        @v.unit("process_over(%s%s)" % (op, ", q" if kw else ""), functions=[BASE + ".process_over", BASE + ".timeseries"], covers=["end"])
        def process(it, ctx, op=op, kw=kw):
            setup(it)
            o, b = frame(it, ctx, NAMES)
            distinct(ctx, b)
            no_fill(ctx, b)
            over = OVER[ctx.choose(len(OVER))]
            rest = [k for k in NAMES if k not in over]
            cols = over[0] if len(over) == 1 and ctx.choose(2) else PyList(list(over))
            r, e = attempt(it, lambda: it.call(it.getattr(o, "process_over"), [cols, op], dict(kw)))
            t, c = fs.cell_of(ctx, b)
            ctx.oblige("no exception", z3.BoolVal(e is None))
            if e is not None:
                return
            ctx.cover("end")
            fs.unchanged(ctx, b, t, c)
            w = wide(r)
            if not isinstance(w.prov, Agg):
                raise Unsupported("another way of aggregating")
            agg = w.prov
            ctx.oblige("the operation asked for", z3.BoolVal((agg.op, agg.kw) == (op, kw)))
            as_the_data(ctx, "aggregated over the data", agg.src, b, None, t, c)
            ctx.oblige("by the remaining metadata", z3.BoolVal(sorted(w.index.cells) == sorted(rest)))
            if sorted(w.index.cells) != sorted(rest):
                return
            k = num(agg.group_of(c))
            c2 = ctx.int("c2")
            ctx.assume(z3.And(c2 >= 0, c2 < b.nc))
            ctx.oblige("every timeseries takes part", z3.And(agg.member(k, c), k >= 0, k < num(w.rows.n)))
            same = z3.And(*[same_cell(b.meta[x](c), b.meta[x](c2)) for x in rest])
            ctx.oblige("aggregated over exactly the timeseries with the same remaining metadata", agg.member(k, c2) == same)
            ctx.oblige("each combination keeps its metadata", z3.And(*[same_cell(w.index.cells[x](k), b.meta[x](c)) for x in rest]))
            g, h = ctx.int("g"), ctx.int("h")
            ctx.assume(z3.And(g >= 0, g < num(w.rows.n), h >= 0, h < num(w.rows.n)))
            ctx.oblige("each combination once", z3.Implies(z3.And(*[same_cell(w.index.cells[x](g), w.index.cells[x](h)) for x in rest]), g == h))
            ctx.oblige("a value where the combination has one", z3.Implies(z3.Not(b.nan(t, c)), z3.Not(sbool(w.nan(k, t)))))
            same_times(ctx, w, b)

    @v.unit("process_over(other operations)", functions=[BASE + ".process_over"], covers=["end"])
    def unknown(it, ctx):
        setup(it)
        o, b = frame(it, ctx, NAMES)
        distinct(ctx, b)
        no_fill(ctx, b)
        op = SStr(ctx.fresh("operation", core.Str))
        for x in ("median", "mean", "quantile"):
            ctx.assume(op.e != lit(x))
        r, e = attempt(it, lambda: it.call(it.getattr(o, "process_over"), [PyList(["variable"]), op], {}))
        ctx.cover("end")
        ctx.oblige("refused", z3.BoolVal(e is not None and exc_name(e) == "ValueError"))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c)

    CASES = [
        ({"year": PyList([2006, 2007, 2010])}, "(ref. period year: 2006 - 2010)"),
        ({"year": PyList([2000, 2001]), "month": PyList([3])}, "(ref. period year: 2000 - 2001;month: 3 - 3)"),
    ]
    for given in (True, False):
        @v.unit("relative_to_ref_period_mean(%s)" % ("text given" if given else "text of the period"), functions=[BASE + ".relative_to_ref_period_mean", BASE + ".timeseries"], contracts=[BASE + ".filter"], covers=["end"])
        def relative(it, ctx, given=given):
            setup(it)
            o, b = frame(it, ctx, NAMES, kinds={"variable": (0, 0)})
            distinct(ctx, b)
            asked = []
            from specs.c17 import filtered

            kept = filtered(it, ctx, b, asked, hide=True)
            kw, text = CASES[ctx.choose(len(CASES))]
            kw = dict(kw)
            if given:
                text = SStr(ctx.fresh("text", core.Str))
                kwargs = {"append_str": text, **kw}
            else:
                kwargs = dict(kw) if ctx.choose(2) else {"append_str": None, **kw}
            r, e = attempt(it, lambda: it.call(it.getattr(o, "relative_to_ref_period_mean"), [], kwargs))
            t, c = fs.cell_of(ctx, b)
            ctx.oblige("no exception", z3.BoolVal(e is None))
            if e is not None:
                return
            ctx.cover("end")
            fs.unchanged(ctx, b, t, c)
            ok = len(asked) == 1 and asked[0][1:] == (True, True) and set(asked[0][0]) == set(kw) and all(asked[0][0][k] is kw[k] for k in kw)
            ctx.oblige("the reference period is selected by the filters given", z3.BoolVal(ok))
            w = wide(r)
            p = w.prov
            if not (isinstance(p, tuple) and p[0] == "minus mean") or w.rows is not b.cols:
                raise Unsupported("another way of computing the difference")
            _, base, src, M, hole = p
            as_the_data(ctx, "the original values", base, b, None, t, c)
            if not (src.rows.above(b.rows) and src.cols.above(b.cols)):
                raise Unsupported("mean over another table")
            inside = z3.And(src.rows.has(t, b.rows), src.cols.has(c, b.cols))
            pt, pc = src.rows.find(t, b.rows), src.cols.find(c, b.cols)
            there = z3.And(inside, z3.Not(sbool(src.nan(pt, pc))))
            ctx.oblige("the mean over exactly the selected values", there == z3.And(kept(t, c), z3.Not(b.nan(t, c))))
            ctx.oblige("the mean over the original values", z3.Implies(there, src.val(pt, pc) == b.V(t, c)))
            ctx.oblige("minus the mean of the same timeseries", z3.Implies(z3.Not(sbool(w.nan(c, t))), w.val(c, t) == b.V(t, c) - M(c)))
            ctx.oblige("missing only where the value or the mean is", sbool(w.nan(c, t)) == z3.Or(b.nan(t, c), hole(c)))
            if list(w.index.cells) != NAMES:
                ctx.fail("metadata columns are kept", "%s" % list(w.index.cells))
                return
            for x in NAMES:
                if x != "variable":
                    ctx.oblige("other metadata are unchanged (%s)" % x, same_cell(w.index.cells[x](c), b.meta[x](c)))
            new = w.index.cells["variable"](c)
            ctx.oblige("the variable is extended", z3.And(num(new.kind) == 0, new.text == concat(b.meta["variable"](c).text, " ", text)))
            same_times(ctx, w, b)
