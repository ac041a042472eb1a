"""Helpers of the specifications."""
import z3

from . import core
from .core import Ctx, Obj, PyExc, SStr


def attempt(it, f):
    """(result, None) or (None, exception value)."""
    try:
        return f(), None
    except PyExc as e:
        return None, e.value


def exc_name(e):
    return e.cls.name


def converter(it, ctx, name=""):
    """An arbitrary UnitConverter (representation: source, target, scale, offset)."""
    s, t = ctx.fresh("src" + name, core.Str), ctx.fresh("tgt" + name, core.Str)
    o = Obj(it.cls("openscm.core.units:UnitConverter"))
    o.f.update(_source=SStr(s), _target=SStr(t), _scaling=ctx.real("scale" + name), _offset=ctx.real("offset" + name))
    return s, t, o


def arbitrary(obj, **fields):
    """
    Turns an object made by its own constructor into an arbitrary one: exactly the given
    fields are overwritten.  If the class keeps other state than the specification knows of,
    the function stays undecided.
    """
    from .core import Unsupported

    unknown = set(obj.f) - set(fields)
    missing = set(k for k, v in fields.items()) - set(obj.f)
    if unknown or missing:
        raise Unsupported(
            "representation of %s: unknown fields %s, missing %s" % (obj.cls.name, sorted(unknown), sorted(missing))
        )
    for k, v in fields.items():
        if v is not KEEP:
            obj.f[k] = v
    return obj


class _Keep:
    pass


KEEP = _Keep()


def fields_of(obj, *names, skip=()):
    return {k: v for k, v in obj.f.items() if (not names or k in names) and k not in skip}


def same_fields(it, obj, before, skip=()):
    """Formula: the fields of obj are what they were."""
    cs = []
    if set(obj.f) - set(skip) != set(before) - set(skip):
        return z3.BoolVal(False)
    for k, v in before.items():
        if k not in skip:
            cs.append(same(it, obj.f[k], v))
    return it_conj(cs)


def it_conj(cs):
    cs = [core.sbool(c) for c in cs]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def same(it, a, b):
    if a is b:
        return True
    if isinstance(a, core.PyDict) and isinstance(b, core.PyDict):
        if set(a.items) != set(b.items):
            return False
        return it_conj([same(it, a.items[k], b.items[k]) for k in a.items])
    return it.eq(a, b)


def new_parameter(it, ctx, name="p", region=None):
    """A parameter as its constructor leaves it, in a region of its own."""
    if region is None:
        region = new_region(it, ctx, "r" + name)
    s = SStr(ctx.fresh("name_" + name, core.Str))
    return it.instantiate(it.cls("openscm.core.parameters:_Parameter"), [s, region], {})


def new_region(it, ctx, name="r"):
    return it.instantiate(it.cls("openscm.core.regions:_Region"), [SStr(ctx.fresh("name_" + name, core.Str))], {})


def ptype(it, name):
    return it.cls("openscm.core.parameters:ParameterType").members[name]


def scalar_parameter(it, ctx, name="p", region=None):
    """An arbitrary scalar parameter without children (after any history)."""
    p = new_parameter(it, ctx, name, region)
    u = ctx.fresh("unit_" + name, core.Str)
    it.call(it.getattr(p, "attempt_read"), [ptype(it, "SCALAR"), SStr(u)], {})
    arbitrary(
        p, children=KEEP, name=KEEP, parent=KEEP, region=KEEP, parameter_type=KEEP, unit=KEEP,
        has_been_read_from=KEEP, has_been_written_to=ctx.bool("written_" + name),
        data=ctx.real("data_" + name), version=ctx.int("version_" + name),
    )
    return p, u


class FnContract:
    """Contract standing for a function: fn(it, **bound arguments)."""

    def __init__(self, fn):
        self.fn = fn

    def invoke_func(self, it, f, args, kw):
        return self.fn(it, **it.bind_args(f, args, kw))

    def invoke(self, it, args, kw):
        return self.fn(it, *args, **kw)


def time_grid(it):
    """Contract of create_time_points (proved in C11)."""
    from .npm import Dt, NArr

    def fn(it, start_time, period_length, points_num, timeseries_type, **kw):
        ctx = it.ctx
        point = timeseries_type == "point" or getattr(timeseries_type, "name", "") == "POINT_TIMESERIES"
        average = timeseries_type == "average" or getattr(timeseries_type, "name", "") == "AVERAGE_TIMESERIES"
        if not (point or average) or kw:
            raise core.Unsupported("type of a time grid")
        s, p, n = core.num(start_time.e), core.num(period_length.e), core.num(points_num)
        ctx.oblige("precondition of create_time_points", z3.And(p > 0, n >= 1))
        return NArr("M", z3.simplify(n + (1 if average else 0)), lambda i: Dt(s + core.num(i) * p))

    it.contracts["openscm.core.time:create_time_points"] = FnContract(fn)
