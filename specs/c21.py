"""C21: resampling grids cover the data with every regular time in between."""
import z3

from pyvc import core, npm, offsetm
from pyvc.core import Builtin, Ext, Obj, PyList, SymList, Unsupported, num
from pyvc.offsetm import MDt, NTH
from pyvc.speclib import FnContract, attempt, exc_name

O = "openscm.scmdataframe.offsets:"
FAM = num(1)


def is_day(t, day):
    return z3.And(num(t.day) == day, num(t.tod) == 0)


def setup(it, ctx, alias, business=False):
    table = offsetm.BUSINESS if business else offsetm.ANCHORED
    row = table[alias]
    kind = {"class": row[0], "code": row[1], "mixin": business and row[2]}
    asked = []

    def to_offset(it, rule):
        asked.append(rule)
        return offsetm.make_offset(it, kind, FAM)

    offsetm.install(it, to_offset)
    offsetm.theory(ctx, FAM)
    it.fresh_modules()
    f = it.load("openscm.scmdataframe.offsets")
    return f, asked


def build(v):
    v.trust("pandas anchored offsets: contract in pyvc/offsetm.py (apply, onOffset, rollforward, rollback; validated against pandas by tools/offset_contract.py)")
    v.trust("python: datetime without time zone as whole microseconds; object.__setattr__, functools.wraps")
    v.assume("the times reached lie within the range of datetime.datetime (years 1 to 9999)")
    v.assume("rules of one step (not multiples such as 2AS) and not ticks (fixed durations), as in the statement")

    for alias in offsetm.BUSINESS:
        @v.unit("business rule %s" % alias, functions=[O + "to_offset"], covers=["refused"])
        def business(it, ctx, alias=alias):
            m, asked = setup(it, ctx, alias, True)
            r, e = attempt(it, lambda: it.call(m.lookup("to_offset"), [alias], {}))
            if e is None:
                ctx.fail("refused", "to_offset(%r) is accepted" % alias)
                return
            ctx.cover("refused")
            ctx.oblige("refused with ValueError", z3.BoolVal(exc_name(e) == "ValueError"))

    for alias in offsetm.ANCHORED:
        @v.unit("rule %s is accepted" % alias, functions=[O + "to_offset"], covers=["end"])
        def accepted(it, ctx, alias=alias):
            m, asked = setup(it, ctx, alias)
            r, e = attempt(it, lambda: it.call(m.lookup("to_offset"), [alias], {}))
            if e is not None:
                ctx.fail("accepted", exc_name(e))
                return
            ctx.cover("end")
            ctx.oblige("the rule asked for", z3.BoolVal(asked == [alias] and isinstance(r, offsetm.Offset) and r.fam is FAM))

    @v.unit("rolling and stepping", functions=[O + f for f in ("to_offset", "_wrap_apply", "apply_dt", "_move", "apply_rollforward", "apply_rollback")], covers=["end"])
    def rolling(it, ctx):
        m, asked = setup(it, ctx, "AS-JUL")
        off = it.call(m.lookup("to_offset"), ["AS-JUL"], {})
        t = offsetm.any_time(ctx, "t")
        k = offsetm.index(ctx, FAM, t.day)
        midnight = num(t.tod) == 0
        isreg = z3.And(NTH(FAM, k) == num(t.day), midnight)
        for name in ("rollback", "rollforward", "apply"):
            r, e = attempt(it, lambda: it.call(it.getattr(off, name), [t], {}))
            if e is not None:
                ctx.fail("no exception from %s" % name, exc_name(e))
                continue
            if not isinstance(r, MDt):
                raise Unsupported("result of " + name)
            if name == "rollback":
                ctx.oblige("rollback gives the last regular time not after", is_day(r, NTH(FAM, k)))
            if name == "rollforward":
                ctx.oblige("rollforward gives the first regular time not before", is_day(r, z3.If(isreg, NTH(FAM, k), NTH(FAM, k + 1))))
            if name == "apply":
                ctx.oblige("apply goes to the next regular day, at the same time of day", z3.And(num(r.day) == NTH(FAM, k + 1), num(r.tod) == num(t.tod)))
        ctx.cover("end")

    @v.unit("generate_range", functions=[O + "generate_range"], contracts=[O + "to_offset"], covers=["end"])
    def grid(it, ctx):
        m, asked = setup(it, ctx, "AS-JUL")
        off = offsetm.rolled_offset(it, {"class": "YearBegin", "code": "AS-JUL", "mixin": False}, FAM)
        s, e_ = offsetm.any_time(ctx, "start"), offsetm.any_time(ctx, "end")
        ctx.assume(s.compare(it, "LtE", s, e_))
        ks, ke = offsetm.index(ctx, FAM, s.day), offsetm.index(ctx, FAM, e_.day)
        it.inv_gens = [offsetm.grid_invariants(FAM)]
        r, e = attempt(it, lambda: it.call(m.lookup("generate_range"), [s, e_, off], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        if isinstance(r, PyList):
            r = r.value()
        if not isinstance(r, SymList):
            raise Unsupported("result of generate_range: %r" % (r,))
        n = num(r.length)
        at = lambda i: r.get(num(i))
        ctx.oblige("not empty", n >= 1)
        ctx.assume(n >= 1)  # as proved
        ctx.oblige("begins at the last regular time not after the start", is_day(at(0), NTH(FAM, ks)))
        last = z3.If(z3.And(NTH(FAM, ke) == num(e_.day), num(e_.tod) == 0), ke, ke + 1)
        ctx.oblige("ends at the first regular time not before the end", is_day(at(n - 1), NTH(FAM, last)))
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n - 1))
        j = offsetm.index(ctx, FAM, at(i).day)
        ctx.oblige("every time of the grid is regular", is_day(at(i), NTH(FAM, j)))
        ctx.oblige("followed by the next regular time", is_day(at(i + 1), NTH(FAM, j + 1)))
        ctx.oblige("strictly increasing", at(i).compare(it, "Lt", at(i), at(i + 1)))

    @v.unit("resample", functions=["openscm.scmdataframe.base:ScmDataFrameBase.resample"], covers=["end"])
    def resample(it, ctx):
        setup(it, ctx, "AS-JUL")
        n = ctx.int("n")
        ctx.assume(n >= 1)
        T = z3.Function("time", core.I, core.I)
        seen, grids = [], []
        times = Times(n, T)

        class Frame(Ext):
            name = "ScmDataFrame"

            def getitem(self, it, k):
                if k != "time":
                    raise Unsupported("df[%r]" % (k,))
                return times

            def getattr(self, it, name):
                if name == "interpolate":
                    return Builtin(name, interpolate)
                if name == "_time_points" or name == "time_points":
                    raise Unsupported("df." + name)
                raise Unsupported("df." + name)

        result = core.Opaque("resampled")

        def interpolate(it, target_times, *args, **kw):
            seen.append((target_times, args, kw))
            return result

        def generate(it, start, end, offset):
            grids.append((start, end, offset, PyList([core.Opaque("grid")])))
            return grids[-1][3]

        rules = []
        it.contracts[O + "generate_range"] = FnContract(generate)
        it.contracts[O + "to_offset"] = FnContract(lambda it, rule: rules.append(rule) or core.Opaque("offset"))
        f = it.func_of("openscm.scmdataframe.base:ScmDataFrameBase.resample") if hasattr(it, "func_of") else it.cls("openscm.scmdataframe.base:ScmDataFrameBase").find("resample")[0]
        r, e = attempt(it, lambda: it.call(f, [Frame(), "AS-JUL"], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        if len(grids) != 1 or len(seen) != 1:
            raise Unsupported("another way to resample")
        s, e_, _, g = grids[0]
        ctx.oblige("the grid begins with the first time", num(s.day) == T(z3.IntVal(0)))
        ctx.oblige("the grid ends with the last time", num(e_.day) == T(n - 1))
        ctx.oblige("by the rule asked for", z3.BoolVal(rules == ["AS-JUL"]))
        tt = seen[0][0]
        if not isinstance(tt, PyList) or tt.items is None or r is not result:
            raise Unsupported("another kind of target times")
        ctx.oblige("the result has the times of the grid", z3.BoolVal(tt.items == g.items))


class Times(Ext):
    """df["time"]: pandas Series of datetime."""

    name = "Series"

    def __init__(self, n, T):
        self.n, self.T = n, T

    def getattr(self, it, name):
        if name in ("iloc", "values"):
            return self
        if name in ("min", "max"):
            # the times are in order
            return Builtin(name, lambda it: MDt(self.T(z3.IntVal(0) if name == "min" else self.n - 1), (12, 0, 0, 0)))
        raise Unsupported("Series." + name)

    def length(self, it):
        return self.n

    def getitem(self, it, k):
        k = num(k)
        return MDt(self.T(z3.simplify(z3.If(k < 0, self.n + k, k))), (12, 0, 0, 0))
