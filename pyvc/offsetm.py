"""
Contract of pandas' anchored offsets (pandas 1.0, validated by tools/offset_contract.py).

Times are a day number and a time of day in microseconds.  The regular times of an offset
family are the midnights of the days NTH(family, k), strictly increasing in k, unbounded.
`apply` with n = 1 (-1) goes to the next (previous) regular day after (before) the day of its
argument and keeps the time of day; `onOffset` looks at the day only.  pandas' own `apply`,
`rollforward` and `rollback` refuse times outside the range of pandas.Timestamp; the function
that `apply.__wrapped__` is does not.
"""
import z3

from . import core
from .core import Builtin, Ext, ExtModule, Opaque, PyDict, SStr, TypeVal, Unsupported, is_z3, ite, num, subst
from .dtm import PyDt, PyTd

DAY = 86400 * 10 ** 6
PDMIN, PDMAX = -9223372036854776, 9223372036854775  # microseconds of pd.Timestamp.min / max
NTH = z3.Function("NTH", core.I, core.I, core.I)  # family, index -> day
IDX = z3.Function("IDX", core.I, core.I, core.I)  # family, day -> index of the last regular day not after it


def theory(ctx, fam):
    i, j = z3.Ints("i!nth j!nth")
    ctx.assume(z3.ForAll([i, j], z3.Implies(i < j, NTH(fam, i) < NTH(fam, j)), patterns=[z3.MultiPattern(NTH(fam, i), NTH(fam, j))]))


def index(ctx, fam, day):
    k = IDX(fam, num(day))
    ctx.assume(z3.And(NTH(fam, k) <= num(day), num(day) < NTH(fam, k + 1), NTH(fam, k - 1) < NTH(fam, k)))
    return k


def nth_index(fam, day):
    if is_z3(day) and z3.is_app(day) and day.decl().eq(NTH) and day.arg(0).eq(fam):
        return day.arg(1)
    return None


def rolled_offset(it, kind, fam):
    """An offset as to_offset leaves it: contract of its three functions (proved for to_offset)."""
    off = make_offset(it, kind, fam)

    def back(it, t):
        k = index(it.ctx, fam, as_mdt(it, t).day)
        return MDt(NTH(fam, k), (0, 0, 0, 0))

    def forward(it, t):
        k = index(it.ctx, fam, as_mdt(it, t).day)
        if it.truth(z3.And(NTH(fam, k) == num(t.day), num(t.tod) == 0)):
            return MDt(NTH(fam, k), (0, 0, 0, 0))
        return MDt(NTH(fam, k + 1), (0, 0, 0, 0))

    def step(it, t):
        k = index(it.ctx, fam, as_mdt(it, t).day)
        return MDt(NTH(fam, k + 1), t.parts, None if t.parts else t.tod)

    off.attrs.update(rollback=Builtin("rollback", back), rollforward=Builtin("rollforward", forward), apply=Builtin("apply", step))
    return off


UNITS = (3600 * 10 ** 6, 60 * 10 ** 6, 10 ** 6, 1)
SIZES = (24, 60, 60, 10 ** 6)
PARTS = ("hour", "minute", "second", "microsecond")


class MDt(PyDt):
    """datetime: day number and time of day (four parts, or the microseconds only)."""

    def __init__(self, day, parts=None, tod=None):
        self.day, self.parts = day, parts
        self.tod = tod if parts is None else sum_parts(parts)

    @property
    def e(self):
        return num(self.day) * DAY + num(self.tod)

    def exprs(self):
        return [x for x in (self.day, self.tod) + (tuple(self.parts) if self.parts else ()) if is_z3(x)]

    def subst(self, pairs):
        f = lambda x: subst(x, pairs)
        return MDt(f(self.day), tuple(f(x) for x in self.parts)) if self.parts else MDt(f(self.day), None, f(self.tod))

    def merge(self, c, b):
        d = ite(c, self.day, b.day)
        if self.parts and b.parts:
            return MDt(d, tuple(ite(c, x, y) for x, y in zip(self.parts, b.parts)))
        return MDt(d, None, ite(c, self.tod, b.tod))

    def havoc(self, ctx, nm):
        t = ctx.int("htod_" + nm)
        ctx.assume(z3.And(t >= 0, t < DAY))
        return MDt(ctx.int("h_" + nm), None, t)

    def havoc_elem(self, ctx, nm):
        a, b = [ctx.fresh(x + nm, z3.ArraySort(core.I, core.I)) for x in ("a_", "atod_")]
        return lambda i: MDt(z3.Select(a, num(i)), None, z3.Select(b, num(i)))

    def binop(self, it, op, a, b):
        if isinstance(b, PyTd) and isinstance(a, MDt) or isinstance(a, PyTd) and isinstance(b, MDt):
            d, t = (a, b) if isinstance(a, MDt) else (b, a)
            s = 1 if op == "Add" else -1
            if isinstance(t.e, int) and t.e % DAY == 0:
                return MDt(z3.simplify(num(d.day) + s * (t.e // DAY)), d.parts, None if d.parts else d.tod)
            total = z3.simplify(num(d.tod) + s * num(t.e))
            if z3.is_int_value(total):
                return MDt(z3.simplify(num(d.day) + total.as_long() // DAY), None, total.as_long() % DAY)
            return MDt(num(d.day) + total / DAY, None, total % DAY)
        if isinstance(a, MDt) and isinstance(b, MDt) and op == "Sub":
            return PyTd(a.e - b.e)
        if hasattr(b, "rbinop_dt"):
            return b.rbinop_dt(it, op, a)
        raise Unsupported("operator %s on datetime" % op)

    def compare(self, it, op, a, b):
        if not (isinstance(a, MDt) and isinstance(b, MDt)):
            raise Unsupported("comparison of datetime")
        x, y, s, t = num(a.day), num(b.day), num(a.tod), num(b.tod)
        eq = z3.And(x == y, s == t)
        lt = z3.Or(x < y, z3.And(x == y, s < t))
        return {"Lt": lt, "Gt": z3.Not(z3.Or(lt, eq)), "LtE": z3.Or(lt, eq), "GtE": z3.Not(lt), "Eq": eq, "NotEq": z3.Not(eq)}[op]

    def eq(self, it, o):
        return z3.And(num(self.day) == num(o.day), num(self.tod) == num(o.tod)) if isinstance(o, MDt) else False

    def getattr(self, it, name):
        if name == "replace":
            def replace(it, **kw):
                kw = {k: v for k, v in kw.items() if not (k == "tzinfo" and v is None)}
                if set(kw) - set(PARTS):
                    raise Unsupported("replace(%s)" % sorted(kw))
                if not self.parts and set(kw) != set(PARTS):
                    raise Unsupported("replace of parts of a time")
                return MDt(self.day, tuple(kw.get(p, self.parts[i] if self.parts else None) for i, p in enumerate(PARTS)))
            return Builtin(name, replace)
        if name == "isoformat":
            return Builtin(name, lambda it: SStr(it.ctx.fresh("iso", core.Str)))
        if name == "tzinfo":
            return None
        if name == "nanosecond":
            it.throw("AttributeError", name)
        if name in PARTS and self.parts:
            return self.parts[PARTS.index(name)]
        if name == "date":
            return Builtin(name, lambda it: MDate(self.day))
        if name == "time":
            return Builtin(name, lambda it: MTime(self.tod, self.parts))
        raise Unsupported("datetime." + name)

    def to_dt64(self, it, unit):
        raise Unsupported("datetime64 of microseconds")


def sum_parts(parts):
    if all(isinstance(x, int) for x in parts):
        return sum(x * u for x, u in zip(parts, UNITS))
    return z3.simplify(z3.Sum([num(x) * u for x, u in zip(parts, UNITS)]))


def any_time(ctx, name):
    ps = [ctx.int("%s_%s" % (name, p)) for p in PARTS]
    for p, n in zip(ps, SIZES):
        ctx.assume(z3.And(p >= 0, p < n))
    return MDt(ctx.int(name + "_day"), tuple(ps))


class MDate(Ext):
    name = "date"

    def __init__(self, e):
        self.e = e

    def compare(self, it, op, a, b):
        return it.compare(op, a.e, b.e)

    def eq(self, it, o):
        return it.eq(self.e, o.e) if isinstance(o, MDate) else False


class MTime(Ext):
    name = "time"

    def __init__(self, tod, parts=None):
        self.e, self.parts = tod, parts

    def compare(self, it, op, a, b):
        return it.compare(op, a.e, b.e)

    def eq(self, it, o):
        return it.eq(self.e, o.e) if isinstance(o, MTime) else False

    def truth(self, it):
        return True


def timedelta(it, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    e = 0
    for v, f in ((days, 86400 * 10 ** 6), (seconds, 10 ** 6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10 ** 6), (hours, 3600 * 10 ** 6), (weeks, 7 * DAY)):
        e = it.binop("Add", e, it.binop("Mult", v, f))
    return PyTd(e)


def combine(it, d, t, tzinfo=None):
    return MDt(d.e, t.parts, None if t.parts else t.e)


def make_time(it, hour=0, minute=0, second=0, microsecond=0):
    if any(is_z3(x) for x in (hour, minute, second, microsecond)):
        raise Unsupported("time(...)")
    return MTime(sum_parts((hour, minute, second, microsecond)), (hour, minute, second, microsecond))


def as_mdt(it, v):
    if not isinstance(v, MDt):
        raise Unsupported("a time of another kind: %r" % (v,))
    return v


class Apply(Ext):
    """Offset.apply as pandas has it: a wrapped function."""

    name = "apply"

    def __init__(self, off):
        self.off = off

    def raw(self, it, off, dt):
        dt = as_mdt(it, dt)
        k = index(it.ctx, off.fam, dt.day)
        to = lambda day: MDt(day, dt.parts, None if dt.parts else dt.tod)
        if not isinstance(off.n, int) or off.n not in (1, -1):
            raise Unsupported("offset of %s steps" % (off.n,))
        if off.n == 1:
            return to(NTH(off.fam, k + 1))
        if it.truth(NTH(off.fam, k) == num(dt.day)):
            return to(NTH(off.fam, k - 1))
        return to(NTH(off.fam, k))

    def call(self, it, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("apply(...)")
        dt = as_mdt(it, args[0])
        in_range(it, dt)
        r = self.raw(it, self.off, dt)
        in_range(it, r)
        return r

    def getattr(self, it, name):
        if name in ("__wrapped__", "__func__"):
            if name == "__func__":
                raise Unsupported(name)
            return Builtin("apply.__wrapped__", lambda it, off, dt: self.raw(it, off, dt))
        if name in ("__name__", "__doc__"):
            return SStr(it.ctx.fresh(name, core.Str))
        it.throw("AttributeError", name)


def in_range(it, dt):
    if not it.truth(z3.And(num(dt.day) > PDMIN // DAY, num(dt.day) < PDMAX // DAY)):
        it.throw("ValueError", "Out of bounds nanosecond timestamp")


FAMILIES = {"own": 1, "default": 2}


class Offset(Ext):
    def __init__(self, cls, n, normalize, kwds, fam, kind):
        self.cls_, self.n, self.normalize, self.kwds, self.fam, self.kind = cls, n, normalize, kwds, fam, kind
        self.attrs = {}

    @property
    def name(self):
        return self.kind["class"]

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name in ("n", "normalize", "kwds"):
            return getattr(self, name)
        if name == "__class__":
            return self.cls_
        if name in ("rule_code", "freqstr"):
            return self.kind["code"]
        if name == "_prefix":
            return self.kind["code"].split("-")[0]
        if name == "apply":
            return Apply(self)
        if name in ("onOffset", "is_on_offset"):
            return Builtin(name, lambda it, dt: NTH(self.fam, index(it.ctx, self.fam, as_mdt(it, dt).day)) == num(dt.day))
        if name in ("rollforward", "rollback"):
            def roll(it, dt):
                # pandas' own: by day, keeps the time of day, pandas.Timestamp only
                dt = as_mdt(it, dt)
                in_range(it, dt)
                k = index(it.ctx, self.fam, dt.day)
                if it.truth(NTH(self.fam, k) == num(dt.day)):
                    return dt
                return MDt(NTH(self.fam, k + (1 if name == "rollforward" else 0)), dt.parts, None if dt.parts else dt.tod)
            return Builtin(name, roll)
        if name in ("__dict__",):
            raise Unsupported("offset." + name)
        if name in self.kwds.items:
            return self.kwds.items[name]
        it.throw("AttributeError", name)

    def setattr(self, it, name, v):
        it.throw("AttributeError", "DateOffset objects are immutable.")

    def binop(self, it, op, a, b):
        """dt + offset: pandas' apply (or what stands for it)."""
        if op in ("Add", "Sub") and b is self and isinstance(a, MDt) and op == "Add":
            return it.call(self.getattr(it, "apply"), [a], {})
        if op == "Mult" and isinstance(a, int) or isinstance(b, int):
            k = a if isinstance(a, int) else b
            return Offset(self.cls_, self.n * k, self.normalize, self.kwds, self.fam, self.kind)
        raise Unsupported("operator %s on offset" % op)

    def rbinop_dt(self, it, op, a):
        if op == "Add":
            return it.call(self.getattr(it, "apply"), [a], {})
        o = Offset(self.cls_, -self.n, self.normalize, self.kwds, self.fam, self.kind)
        return it.call(o.getattr(it, "apply"), [a], {})

    def unop(self, it, op):
        raise Unsupported("operator on offset")

    def isinstance_of(self, it, c):
        nm = getattr(c, "name", "").split(".")[-1]
        if nm in ("DateOffset", "object", "BaseOffset", "_BaseOffset"):
            return True
        if nm == "BusinessMixin":
            return self.kind["mixin"]
        if nm in ("Tick",):
            return False
        if nm == self.kind["class"]:
            return True
        raise Unsupported("isinstance of %s" % nm)


# class, rule code, isinstance of BusinessMixin; as pandas has them
ANCHORED = {
    "A": ("YearEnd", "A-DEC"), "AS": ("YearBegin", "AS-JAN"), "AS-JUL": ("YearBegin", "AS-JUL"), "Q": ("QuarterEnd", "Q-DEC"),
    "QS": ("QuarterBegin", "QS-JAN"), "M": ("MonthEnd", "M"), "MS": ("MonthBegin", "MS"), "SM": ("SemiMonthEnd", "SM-15"),
    "SMS": ("SemiMonthBegin", "SMS-15"), "W": ("Week", "W-SUN"), "WOM-2TUE": ("WeekOfMonth", "WOM-2TUE"),
}
BUSINESS = {
    "B": ("BusinessDay", "B", True), "C": ("CustomBusinessDay", "C", True), "BM": ("BusinessMonthEnd", "BM", False),
    "BMS": ("BusinessMonthBegin", "BMS", False), "CBM": ("CustomBusinessMonthEnd", "CBM", True),
    "CBMS": ("CustomBusinessMonthBegin", "CBMS", True), "BQ": ("BQuarterEnd", "BQ-DEC", False),
    "BQS": ("BQuarterBegin", "BQS-JAN", False), "BA": ("BYearEnd", "BA-DEC", False), "BAS": ("BYearBegin", "BAS-JAN", False),
    "BH": ("BusinessHour", "BH", True), "CBH": ("CustomBusinessHour", "CBH", True),
}
MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()
DAYS = "MON TUE WED THU FRI SAT SUN".split()
for _m in MONTHS:
    for _c, _n in (("A", "YearEnd"), ("AS", "YearBegin"), ("Q", "QuarterEnd"), ("QS", "QuarterBegin")):
        ANCHORED["%s-%s" % (_c, _m)] = (_n, "%s-%s" % (_c, _m))
    for _c, _n in (("BA", "BYearEnd"), ("BAS", "BYearBegin"), ("BQ", "BQuarterEnd"), ("BQS", "BQuarterBegin")):
        BUSINESS["%s-%s" % (_c, _m)] = (_n, "%s-%s" % (_c, _m), False)
for _d in DAYS:
    ANCHORED["W-" + _d] = ("Week", "W-" + _d)
    for _n in range(1, 5):
        ANCHORED["WOM-%d%s" % (_n, _d)] = ("WeekOfMonth", "WOM-%d%s" % (_n, _d))


def make_offset(it, kind, fam):
    """An offset of a class; its keywords are those of the rule, not the defaults of the class."""
    kwds = PyDict()
    kwds.items["anchor"] = ANCHOR

    def construct(it, *args, **kw):
        if len(args) > 2:
            raise Unsupported("offset(...)")
        n = args[0] if args else kw.pop("n", 1)
        normalize = args[1] if len(args) > 1 else kw.pop("normalize", False)
        if set(kw) - {"anchor"}:
            raise Unsupported("offset(%s)" % sorted(kw))
        own = kw.get("anchor") is ANCHOR
        if not own:
            theory(it.ctx, num(FAMILIES["default"]))
        d = PyDict()
        d.items["anchor"] = kw.get("anchor")
        return Offset(cls, n, normalize, d, fam if own else num(FAMILIES["default"]), kind)

    cls = TypeVal(kind["class"], construct)
    return Offset(cls, 1, False, kwds, fam, kind)


ANCHOR = Opaque("anchor of the rule")


def install(it, rule_to_offset):
    """rule_to_offset(it, rule) is pandas' to_offset."""
    from . import dtm

    T = TypeVal
    off = "pandas.tseries.offsets"

    def obj_setattr(it, o, name, v):
        if isinstance(o, Offset):
            o.attrs[name] = v
        else:
            it.setattr(o, name, v)

    it.builtins["object"].attrs["__setattr__"] = Builtin("object.__setattr__", obj_setattr)
    ident = Builtin("as_datetime", lambda it, d: as_mdt(it, d))
    offsets = ExtModule(off, {
        "BusinessMixin": T("BusinessMixin"), "DateOffset": T("DateOffset"), "Tick": T("Tick"), "NaT": Opaque("NaT"),
        "as_datetime": ident, "conversion": Opaque("conversion"),
        "normalize_date": Builtin("normalize_date", lambda it, d: MDt(as_mdt(it, d).day, (0, 0, 0, 0))),
    })
    freq = ExtModule("pandas.tseries.frequencies", {"to_offset": Builtin("to_offset", rule_to_offset)})
    tseries = ExtModule("pandas.tseries", {"offsets": offsets, "frequencies": freq})
    it.ext["pandas"] = ExtModule("pandas", {
        "tseries": tseries, "isnull": Builtin("isnull", lambda it, v: False), "isna": Builtin("isna", lambda it, v: False),
        "NaT": Opaque("NaT"),
    })
    it.ext[off] = offsets
    it.ext["pandas.tseries.frequencies"] = freq
    dt = TypeVal("datetime")
    dt.attrs.update(combine=Builtin("combine", combine))
    dt.attrs["min"], dt.attrs["max"] = MDt(-719162, (0, 0, 0, 0)), MDt(2932896, (23, 59, 59, 999999))
    it.ext["datetime"] = ExtModule("datetime", {
        "datetime": dt, "timedelta": TypeVal("timedelta", timedelta), "date": TypeVal("date"), "time": TypeVal("time", make_time),
    })
    it.ext["functools"] = ExtModule("functools", {"wraps": Builtin("wraps", lambda it, f: Builtin("wraps", lambda it, g: g)),
                                                  "partial": Builtin("partial", lambda it, f, *a, **k: Builtin("partial", lambda it, *b, **l: it.call(f, list(a) + list(b), dict(k, **l))))})


def grid_invariants(fam):
    """Candidates for loops that walk over regular times, collecting them in a list."""

    def gen(it, entry, cur, mods):
        out = []
        i, n = cur.vars.get("\0i"), cur.vars.get("\0n")
        lists = {nm: l for nm, l in cur.vars.items() if isinstance(l, core.SymList)}
        e_lists = {nm: l for nm, l in entry.vars.items() if isinstance(l, core.SymList)}
        dts = {nm: x for nm, x in entry.vars.items() if isinstance(x, MDt)}
        q = z3.Int("q!inv")
        for nm, l in lists.items():
            if nm not in e_lists:
                continue
            ln = num(l.length)
            for a, s in dts.items():
                k0 = nth_index(fam, s.day)
                if k0 is None:
                    continue
                at = l.get(q) if not (isinstance(l.length, int) and l.length == 0) else None
                if at is not None and not isinstance(at, MDt):
                    break
                body = z3.BoolVal(True) if at is None else z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), z3.And(num(at.day) == NTH(fam, k0 + q), num(at.tod) == 0)))
                out.append(("%s are the regular times from %s" % (nm, a), body))
                for b, x in cur.vars.items():
                    if isinstance(x, MDt) and b in mods["vars"]:
                        for d in (0, -1):
                            out.append(("%s is regular time %s + len(%s) + %d" % (b, a, nm, d), z3.And(num(x.day) == NTH(fam, k0 + ln + d), num(x.tod) == 0)))
                for b, x in dts.items():
                    if b == a or cur.vars.get(b) is not x:
                        continue
                    out.append(("%s are not after %s" % (nm, b), z3.Or(ln == 0, NTH(fam, k0 + ln - 1) <= num(x.day))))
            out.append(("%s not empty" % nm, ln >= 1))
        return out

    return gen
