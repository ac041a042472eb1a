"""C16: appending is the union of the timeseries and times; duplicates are averaged."""
import z3

from pyvc import core, framem, npm, rem, widem
from pyvc.core import Obj, PyList, SStr, Unsupported, lit, num, real, sbool, sstr
from pyvc.framem import DataM, MetaM, cell, same_cell
from pyvc.speclib import attempt, exc_name
from pyvc.widem import Agg, WideM

import specs.framespec as fs
from specs.c22 import distinct, no_fill
from specs.framespec import BASE, REQUIRED, frame

MENTION = z3.Function("mentioned", z3.BoolSort(), z3.BoolSort())  # true: brings terms to the solver's attention
DF = "openscm.scmdataframe.base:"


def setup(it):
    widem.install(it)
    rem.theory(it.ctx)
    it.fresh_modules()


def different_times(ctx, b):
    i, j = z3.Ints("i!dt j!dt")
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < b.nt), b.T(i) != b.T(j)), patterns=[z3.MultiPattern(b.T(i), b.T(j))]))


def inputs(it, ctx, extras):
    """Arbitrary frames with these further columns (None: the first one again)."""
    out = []
    for n, ex in enumerate(extras):
        if ex is None:
            out.append(out[0])
            continue
        o, b = frame(it, ctx, REQUIRED + list(ex), nm="df%d" % n)
        distinct(ctx, b, REQUIRED + list(ex))
        no_fill(ctx, b)
        different_times(ctx, b)
        out.append((o, b))
    return out


def meta_of(b, k, c):
    return b.meta[k](c) if k in b.meta else cell(None)


def build(v):
    v.trust("pandas: concat of wide tables (rows one below the other, times united by label), groupby over index levels, mean of each group (of the values that are not missing), sort_index, set_index, reset_index, replace: contract in pyvc/widem.py")
    v.assume("up to three frames (the same frame twice, too); metadata columns: the required ones and others of any content that differ between the frames, except the number -999 (used as fill value by the code); within a frame, no two timeseries with the same metadata and no time twice")
    v.assume("TimePoints: contract proved in C11 and C12")

    SHAPES = [[()], [("extra",), ("extra",)], [(), ("other",)], [("extra",), ("other",)], [("extra",), None], [("extra",), (), ("other",)]]

    def run(v, label, shapes, call, inplace, msg):
        @v.unit(label, functions=[DF + "df_append", BASE + ".timeseries"], covers=["end"])
        def append(it, ctx):
            setup(it)
            shape = shapes[ctx.choose(len(shapes))]
            ins = inputs(it, ctx, shape)
            names = REQUIRED + sorted(set(x for s in shape if s for x in s))
            log0 = len(ctx.log)
            r, e = attempt(it, lambda: call(it, [o for o, b in ins]))
            warned = ("warn",) in list(ctx.log)[log0:]
            cc = ctx.ghost.get("concat")
            n = len(ins)
            if cc is None or len(cc.parts) != n:
                if e is not None:
                    ctx.fail("no exception", "%s %s" % (exc_name(e), getattr(e, "f", "")))
                    return
                if cc is not None and len(cc.parts) < n:
                    ctx.fail("every input is joined", "%d of %d" % (len(cc.parts), n))
                    return
                raise Unsupported("another way of joining")
            off = cc.offsets
            a = ctx.choose(n)
            i2 = ctx.choose(n)
            t, c = fs.cell_of(ctx, ins[a][1])
            t2, c2 = fs.cell_of(ctx, ins[i2][1])
            A, A2 = ins[a][1], ins[i2][1]
            for o, b in ins[1 if inplace else 0:]:
                if b is not ins[0][1] or not inplace:
                    tt, ci = fs.cell_of(ctx, b)
                    fs.unchanged(ctx, b, tt, ci, "the inputs")
            alike = z3.And(*[same_cell(meta_of(A, k, c), meta_of(A2, k, c2)) for k in names])
            if msg == "other" and e is not None:
                ctx.cover("refused")
                ctx.oblige("refused with a ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                return
            ctx.oblige("no exception", z3.BoolVal(e is None))
            if e is not None:
                return
            ctx.cover("end")
            r1, r2 = off[a] + c, off[i2] + c2
            twice = z3.And(r1 != r2, A.T(t) == A2.T(t2), alike, z3.Not(A.nan(t, c)), z3.Not(A2.nan(t2, c2)))
            ctx.assume(MENTION(cc.at[a](t) == cc.at[i2](t2)))
            if warned:
                ctx.cover("reported")
                i, j, u = z3.Ints("i!dup j!dup u!dup")
                src = ctx.ghost["joint"] if "joint" in ctx.ghost else None
                ctx.oblige("reported only if asked to", z3.BoolVal(msg in ("warn", "return")))
                several = ctx.ghost.get("several", ())
                ctx.oblige("reported only if two values have the same metadata and time", z3.Or(*[dup_witness(ins, cc, names, *s) for s in several]) if several else z3.BoolVal(False))
            else:
                for like, first in ctx.ghost.get("firsts", ()):
                    ctx.assume(MENTION(z3.And(first(r1) == first(r2), like(r1) == like(r2))))
                for ag, P in ctx.ghost.get("several of", ()):
                    ctx.assume(z3.And(MENTION(P(ag.group_of(r1), cc.at[a](t))), MENTION(ag.group_of(r1) == ag.group_of(r2))))
                if msg in ("warn", "return"):
                    ctx.oblige("duplicates are reported", z3.Not(twice))
                elif msg == "other":
                    ctx.oblige("refused if there are duplicates", z3.Not(twice))
            if msg == "return" and warned:
                ctx.cover("returned")
                if not isinstance(r, WideM) or r.rows.n is None:
                    raise Unsupported("another representation of the joint table")
                u = cc.at[a](t)
                ctx.oblige("the joint table has every value", z3.And(sbool(r.nan(r1, u)) == A.nan(t, c), z3.Implies(z3.Not(A.nan(t, c)), r.val(r1, u) == A.V(t, c))))
                return
            if inplace:
                ctx.oblige("nothing returned", z3.BoolVal(r is None))
                res = ins[0][0]
            else:
                res = r
                ctx.oblige("another frame", z3.BoolVal(isinstance(r, Obj) and all(r is not o for o, b in ins) and r.cls is ins[0][0].cls))
                if not isinstance(r, Obj):
                    return
            d, m, tv = res.f["_data"], res.f["_meta"], res.f["_time_points"].f["_values"]
            aggs = ctx.ghost.get("aggregates", ())
            if isinstance(d, DataM) and d.cols is ins[0][1].cols:
                ctx.fail("the result is the joint table", "timeseries of the first frame only")
                return
            if not isinstance(d, DataM) or not isinstance(m, MetaM) or not aggs or d.cols is not aggs[-1][3] or m.idx is not d.cols:
                raise Unsupported("another representation of the frame")
            ctx.oblige("data and metadata have the same labels", z3.BoolVal(d.colindex is None and not m.multi))
            agg, V, N, axis = aggs[-1]
            ctx.oblige("the mean", z3.BoolVal((agg.op, agg.kw) == ("mean", {})))
            k = num(agg.group_of(r1))
            u = cc.at[a](t)
            if d.rows.above(cc.times):
                find, has, pos = (lambda u: d.rows.find(u, cc.times)), (lambda u: d.rows.has(u, cc.times)), (lambda p: d.rows.pos(p, cc.times))
            elif getattr(d.rows, "relabel", None) is cc.times:
                find, has, pos = (lambda u: u), (lambda u: z3.BoolVal(True)), (lambda p: p)
            else:
                raise Unsupported("other times")
            row = find(u)
            ctx.oblige("every time of the inputs is there", z3.And(has(u), row >= 0, row < num(d.rows.n), num(d.rows.label(row).e) == A.T(t)))
            ctx.oblige("time points are those of the data", z3.And(num(tv.length) == num(d.rows.n), num(tv.at(row).e) == A.T(t)))
            p, q = ctx.int("p"), ctx.int("q")
            ctx.assume(z3.And(p >= 0, p < q, q < num(d.rows.n)))
            ctx.oblige("times are sorted", num(d.rows.label(p).e) < num(d.rows.label(q).e))
            ctx.oblige("only times of the inputs", z3.Or(*[h(pos(p)) for h in cc.has]))
            ctx.oblige("every timeseries is there", z3.And(agg.member(k, r1), k >= 0, k < num(axis.n)))
            if set(m.data) != set(names):
                ctx.fail("metadata columns of all inputs", "%s" % sorted(m.data))
                return
            ctx.oblige("under its metadata", z3.And(*[same_cell(m.data[x](k), meta_of(A, x, c)) for x in names]))
            ctx.oblige("together with exactly those with the same metadata", agg.member(k, r2) == alike)
            ctx.oblige("averaged over the values of the inputs", z3.And(sbool(agg.src.nan(r1, u)) == A.nan(t, c), z3.Implies(z3.Not(A.nan(t, c)), agg.src.val(r1, u) == A.V(t, c))))
            u2 = ctx.int("u2")
            ctx.assume(z3.And(u2 >= 0, u2 < num(cc.times.n)))
            ctx.oblige("averaged over nothing else", z3.Or(sbool(agg.src.nan(r1, u2)), z3.And(cc.has[a](u2), A.T(cc.pos[a](u2)) == num(cc.times.label(u2).e))))
            ctx.oblige("rows averaged are those of the inputs", num(agg.src.rows.n) == z3.Sum(*[b.nc for o, b in ins], z3.IntVal(0)))
            ctx.oblige("the mean is the value there", z3.Implies(z3.Not(A.nan(t, c)), z3.And(z3.Not(sbool(d.nan(row, k))), d.val(row, k) == V(k, u))))
            g = ctx.int("g")
            ctx.assume(z3.And(g >= 0, g < num(axis.n)))
            ctx.oblige("no other values", z3.Implies(z3.Not(sbool(d.nan(p, g))), z3.Not(N(g, pos(p)))))

    new = lambda inplace, msg: (lambda it, os: it.call(it.load(DF[:-1]).lookup("df_append"), [PyList(os)], {**({"inplace": inplace} if inplace else {}), **({} if msg == "default" else {"duplicate_msg": msg})}))
    for inplace in (False, True):
        for si, shape in enumerate(SHAPES):
            run(v, "df_append of %s%s" % (" and ".join("a frame" if s is None or not s else "a frame with a column %s" % s for s in shape) if shape[-1] is not None else "a frame and itself", " in place" if inplace else ""), [shape], new(inplace, "default"), inplace, "warn")
    small = SHAPES[3:4]
    run(v, "df_append(duplicate_msg=False)", small, new(False, False), False, False)
    run(v, "df_append(duplicate_msg=return)", small, new(False, "return"), False, "return")
    run(v, "df_append(duplicate_msg=...)", small, lambda it, os: it.call(it.load(DF[:-1]).lookup("df_append"), [PyList(os)], {"duplicate_msg": "something else"}), False, "other")
    for inplace in (False, True):
        run(v, "append(inplace=%s)" % inplace, small, lambda it, os, inplace=inplace: it.call(it.getattr(os[0], "append"), os[1:], {"inplace": inplace} if inplace else {}), inplace, "warn")
    for msg in (False, "return"):
        run(v, "append(duplicate_msg=%s)" % msg, small, lambda it, os, msg=msg: it.call(it.getattr(os[0], "append"), os[1:], {"duplicate_msg": msg}), False, msg)


def dup_witness(ins, cc, names, r1, r2, u):
    """Rows r1 and r2 of the joint table have the same metadata, and both a value at time u."""
    def what(r, f):
        x = None
        for i in reversed(range(len(ins))):
            e = f(ins[i][1], r - cc.offsets[i], i)
            x = e if x is None else (e.merge(r < cc.offsets[i + 1], x) if hasattr(e, "merge") else z3.If(r < cc.offsets[i + 1], e, x))
        return x

    there = lambda r: what(r, lambda b, c, i: z3.And(cc.has[i](u), b.T(cc.pos[i](u)) == num(cc.times.label(u).e), z3.Not(b.nan(cc.pos[i](u), c))))
    inr = lambda r: z3.And(r >= 0, r < cc.offsets[-1])
    return z3.And(r1 != r2, inr(r1), inr(r2), there(r1), there(r2), *[same_cell(what(r1, lambda b, c, i: meta_of(b, k, c)), what(r2, lambda b, c, i: meta_of(b, k, c))) for k in names])
