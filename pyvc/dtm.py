"""
Model of Python's datetime (whole seconds since 1970, proleptic Gregorian calendar given by
the uninterpreted function YEAR_START and on-demand facts about it).
"""
import z3

from . import core
from .core import Builtin, Ctx, Ext, ExtModule, Mut, TypeVal, Unsupported, is_num, is_z3, ite, num, real, subst
from .npm import Dt, YEAR_START

YEAR_OF = z3.Function("year_of", core.I, core.I)
MONTH_OF = z3.Function("month_of", core.I, core.I)
DAY_OF = z3.Function("day_of", core.I, core.I)


def weekday(e):
    """Monday is 0; January 1st 1970 was a Thursday."""
    return (e / 86400 + 3) % 7


CALENDAR = {
    "month": lambda e: MONTH_OF(e),
    "day": lambda e: DAY_OF(e),
    "hour": lambda e: (e % 86400) / 3600,
    "minute": lambda e: (e % 3600) / 60,
    "second": lambda e: e % 60,
    "microsecond": lambda e: 0,
}


def year_of(ctx, e):
    y = YEAR_OF(e)
    ctx.assume(z3.And(YEAR_START(y) <= e, e < YEAR_START(y + 1)))
    return y


class PyDt(Ext):
    name = "datetime"

    def __init__(self, e):
        self.e = e

    def exprs(self):
        return [self.e] if is_z3(self.e) else []

    def subst(self, pairs):
        return PyDt(subst(self.e, pairs))

    def merge(self, c, b):
        return PyDt(ite(c, self.e, b.e))

    def havoc(self, ctx, nm):
        return PyDt(ctx.int("h_" + nm))

    def havoc_elem(self, ctx, nm):
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.I))
        return lambda i: PyDt(z3.Select(a, num(i)))

    def binop(self, it, op, a, b):
        if isinstance(a, PyDt) and isinstance(b, PyDt) and op == "Sub":
            return PyTd(it.binop("Sub", a.e, b.e))
        if isinstance(a, PyDt) and isinstance(b, PyTd) and op in ("Add", "Sub"):
            return PyDt(it.binop(op, a.e, b.e))
        if isinstance(a, PyTd) and isinstance(b, PyDt) and op == "Add":
            return PyDt(it.binop(op, a.e, b.e))
        if hasattr(b, "rbinop_dt"):
            return b.rbinop_dt(it, op, a)
        raise Unsupported("operator %s on datetime" % op)

    def compare(self, it, op, a, b):
        if isinstance(a, PyDt) and isinstance(b, PyDt):
            return it.compare(op, a.e, b.e)
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        raise Unsupported("comparison of datetime")

    def eq(self, it, o):
        return it.eq(self.e, o.e) if isinstance(o, PyDt) else False

    def getattr(self, it, name):
        if name == "year":
            return year_of(it.ctx, num(self.e))
        if name in CALENDAR:
            return CALENDAR[name](num(self.e))
        if name == "replace":
            def replace(it, **kw):
                size = {"hour": 3600, "minute": 60, "second": 1}
                if set(kw) - set(size) - {"microsecond"} or kw.get("microsecond", 0) != 0 or any(not isinstance(x, int) for x in kw.values()):
                    raise Unsupported("datetime.replace")
                e = num(self.e)
                for k, x in kw.items():
                    if k in size:
                        e = e + (x - CALENDAR[k](num(self.e))) * size[k]
                return PyDt(e)
            return Builtin(name, replace)
        if name == "weekday":
            return Builtin(name, lambda it: weekday(num(self.e)))
        if name == "isoweekday":
            return Builtin(name, lambda it: weekday(num(self.e)) + 1)
        raise Unsupported("datetime." + name)

    def to_dt64(self, it, unit):
        return Dt(self.e)

    def type_of(self, it):
        return DATETIME

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("datetime", "date", "object", "Hashable")


class PyTd(Ext):
    name = "timedelta"

    def __init__(self, e):
        self.e = e

    def exprs(self):
        return [self.e] if is_z3(self.e) else []

    def subst(self, pairs):
        return PyTd(subst(self.e, pairs))

    def merge(self, c, b):
        return PyTd(ite(c, self.e, b.e))

    def binop(self, it, op, a, b):
        if isinstance(a, PyDt) or isinstance(b, PyDt):
            return PyDt.binop(self, it, op, a, b)
        if isinstance(a, PyTd) and isinstance(b, PyTd):
            if op in ("Add", "Sub"):
                return PyTd(it.binop(op, a.e, b.e))
            if op == "Div":
                return real(a.e) / real(b.e)
        raise Unsupported("operator %s on timedelta" % op)

    def compare(self, it, op, a, b):
        if isinstance(a, PyTd) and isinstance(b, PyTd):
            return it.compare(op, a.e, b.e)
        raise Unsupported("comparison of timedelta")

    def eq(self, it, o):
        return it.eq(self.e, o.e) if isinstance(o, PyTd) else False

    def getattr(self, it, name):
        if name == "total_seconds":
            return Builtin(name, lambda it: real(self.e))
        raise Unsupported("timedelta." + name)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("timedelta", "object")


def make_datetime(it, year, month=1, day=1, *rest, **kw):
    if kw or rest or not (month == 1 and day == 1):
        if all(isinstance(x, int) for x in (year, month, day) + rest) and not kw:
            import datetime

            try:
                d = datetime.datetime(year, month, day, *rest)
            except ValueError:
                it.throw("ValueError")
            return PyDt(int((d - datetime.datetime(1970, 1, 1)).total_seconds()))
        raise Unsupported("datetime(...)")
    y = num(year)
    if not it.truth_cmp(z3.simplify(z3.And(y >= 1, y <= 9999))):
        it.throw("ValueError", "year out of range")
    it.ctx.assume(YEAR_START(y + 1) >= YEAR_START(y) + 365 * 86400)
    it.ctx.assume(YEAR_START(y + 1) <= YEAR_START(y) + 366 * 86400)
    return PyDt(YEAR_START(y))


def make_timedelta(it, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    if microseconds != 0 or milliseconds != 0:
        raise Unsupported("timedelta below seconds")
    e = 0
    for v, f in ((days, 86400), (seconds, 1), (minutes, 60), (hours, 3600), (weeks, 604800)):
        if is_z3(v) and z3.is_real(v):
            raise Unsupported("timedelta of a fraction")
        e = it.binop("Add", e, it.binop("Mult", v, f))
    return PyTd(e)


DATETIME = TypeVal("datetime", make_datetime)
DATETIME.attrs["isoweekday"] = Builtin("isoweekday", lambda it, d: d.getattr(it, "isoweekday").call(it, [], {}))
DATETIME.attrs["weekday"] = Builtin("weekday", lambda it, d: d.getattr(it, "weekday").call(it, [], {}))
TIMEDELTA = TypeVal("timedelta", make_timedelta)


IS_DATE = z3.Function("is_date", core.Str, core.B)
DATE_IN = z3.Function("date_in", core.Str, core.I)


def parser_functions(kw):
    """
    Which texts are dates, and which, for dateutil.parser.parse with these options.  Options which change the meaning
    of some texts give functions of their own.
    """
    for k, x in kw.items():
        if k not in ("dayfirst", "yearfirst", "fuzzy") or not (x is None or isinstance(x, bool)):
            raise Unsupported("options of dateutil.parser.parse")
    on = "_".join(sorted(k for k, x in kw.items() if x))
    if not on:
        return IS_DATE, DATE_IN
    # the order of days and months changes which date a text is, not whether it is one
    return (z3.Function("is_date_fuzzy", core.Str, core.B) if "fuzzy" in on else IS_DATE), z3.Function("date_in_" + on, core.Str, core.I)


def parse(it, s, **kw):
    """dateutil.parser.parse: the date written in a string."""
    is_date, date_in = parser_functions(kw)
    e = core.sstr(s)
    if not it.truth(is_date(e)):
        it.throw("ValueError", "unknown string format")
    return PyDt(date_in(e))


def install(it):
    it.ext["dateutil"] = ExtModule("dateutil", {"parser": ExtModule("dateutil.parser", {"parse": Builtin("parse", parse)})})
    it.ext["datetime"] = ExtModule("datetime", {"datetime": DATETIME, "timedelta": TIMEDELTA, "date": TypeVal("date")})
