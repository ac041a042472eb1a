"""C12: a model is initialised once and before use, and stepped from its start time."""
import z3

from pyvc import core
from pyvc.core import Builtin, Ext, Obj, PyExc, SStr, Unsupported
from pyvc.interp import ClassVal
from pyvc.speclib import attempt, exc_name

AD = "openscm.adapters:"
HOOKS = {
    "_initialize_model": "model", "_initialize_model_input": "inputs", "_initialize_run_parameters": "run parameters",
    "_reset": "reset", "_run": "run", "_step": "step", "_shutdown": "shutdown",
}
MAX_STATES = 40


class Time(Ext):
    """An arbitrary time."""

    name = "time"


def model_class(it, ctx):
    """Any adapter: its hooks only record that they are called (a step moves the time)."""
    ns = {}

    def hook(name, ev):
        def fn(it, self, *a):
            ctx.ghost.setdefault("trace", [])
            ctx.ghost["trace"] = ctx.ghost["trace"] + [ev]
            if ev == "step":
                it.setattr(self, "_current_time", Time())
            if ev == "reset":
                # the time is set before or after; a model may look at it
                pass
            return None

        b = Builtin(name, fn)
        b.method = True
        ns[name] = b

    for name, ev in HOOKS.items():
        hook(name, ev)
    return ClassVal("AnyModel", [it.cls(AD + "Adapter")], ns, it.load("openscm.adapters"))


def parameter_set(it):
    return it.instantiate(it.cls("openscm.core.parameterset:ParameterSet"), [], {})


def set_start(it, ps):
    t = Time()
    it.setattr(it.call(it.getattr(ps, "generic"), ["Start Time"], {}), "value", t)
    return t


def key(o):
    """State of an adapter or OpenSCM object up to the identity of times."""
    out = []
    for k in sorted(o.f):
        v = o.f[k]
        if isinstance(v, Obj) and v.cls.name in ("AnyModel",):
            out.append((k, key(v)))
        elif isinstance(v, (Obj, Ext)):
            out.append((k, type(v).__name__))
        elif isinstance(v, SStr):
            out.append((k, str(v.e)))
        elif v is None or isinstance(v, (bool, int, str)):
            out.append((k, v))
        else:
            raise Unsupported("state %s of an adapter" % k)
    return tuple(out)


def explore(it, ctx, make, ops, check):
    """All states reachable by any sequence of operations; check each operation in each."""
    seen, todo = set(), [()]
    while todo:
        seq = todo.pop(0)
        o = make()
        for op in seq:
            check(o, op, False)
        k = (key(o), ctx.ghost.get("initialised", False))
        if seq and k in seen:
            continue
        seen.add(k)
        if len(seen) > MAX_STATES:
            raise Unsupported("more than %d states" % MAX_STATES)
        for op in ops:
            o = make()
            for p in seq:
                check(o, p, False)
            check(o, op, True)
            todo.append(seq + (op,))
    ctx.cover("%d states" % len(seen) if False else "all states")


def expected(ctx, evs, may_init=True):
    """Events of an operation; the model is initialised first if it has not been so far."""
    if may_init and not ctx.ghost.get("initialised"):
        return ["model"] + evs
    return evs


def build(v):
    v.assume("adapters are subclasses of Adapter whose hooks do not call the public methods of Adapter")
    v.trust("the state of an adapter is finite up to the identity of times: all states reachable by any sequence of calls are enumerated by a fixpoint (no bound on the length)")

    FN = [AD + "Adapter." + m for m in ("__init__", "initialize_model_input", "initialize_run_parameters", "reset", "run", "step")]

    @v.unit("any sequence of calls on an adapter", functions=FN, covers=["all states"])
    def adapter(it, ctx):
        C = model_class(it, ctx)
        cur = {}

        def make():
            ctx.ghost["trace"] = []
            ctx.ghost["initialised"] = False
            cur["in"], cur["out"] = parameter_set(it), parameter_set(it)
            o = it.instantiate(C, [cur["in"], cur["out"]], {})
            ctx.oblige("creating does not call the model", z3.BoolVal(ctx.ghost["trace"] == []))
            return o

        def check(o, op, ob):
            start = set_start(it, cur["in"])
            other = set_start(it, cur["out"])
            ctx.ghost["trace"] = []
            r, e = attempt(it, lambda: it.call(it.getattr(o, op), [], {}))
            tr = ctx.ghost["trace"]
            if ob:
                nm = op + ": "
                if e is not None:
                    ctx.fail(nm + "no exception", exc_name(e))
                exp = {"initialize_model_input": expected(ctx, ["inputs"]), "initialize_run_parameters": expected(ctx, ["run parameters"]),
                       "reset": ["reset"], "run": ["run"], "step": ["step"]}[op]
                ctx.oblige(nm + "calls the model as documented", z3.BoolVal(tr == exp or (op in ("reset", "run", "step") and tr == expected(ctx, exp))))
                if op == "reset":
                    ctx.oblige(nm + "the current time is the start time", z3.BoolVal(it.getattr(o, "_current_time") is start))
                if op == "step":
                    ctx.oblige(nm + "returns the time after the step", z3.BoolVal(r is it.getattr(o, "_current_time")))
                ctx.oblige(nm + "keeps its parameter sets", z3.BoolVal(it.getattr(o, "_parameters") is cur["in"] and it.getattr(o, "_output") is cur["out"]))
            if "model" in tr:
                ctx.ghost["initialised"] = True

        explore(it, ctx, make, ["initialize_model_input", "initialize_run_parameters", "reset", "run", "step"], check)

    OF = ["openscm.core:OpenSCM." + m for m in ("__init__", "reset_stepping", "run", "step", "parameters", "output", "model")]

    @v.unit("any sequence of calls on OpenSCM", functions=OF, covers=["all states"])
    def main(it, ctx):
        C = model_class(it, ctx)
        m = it.load("openscm.core")
        m.lookup("OpenSCM")
        n = ctx.ghost["loads"] = []
        # load_adapter by its contract (verified below): the class of that name
        m.pending.pop("load_adapter", None)
        m.ns["load_adapter"] = Builtin("load_adapter", lambda it, name: (n.append(name), C)[1])
        O = it.cls("openscm.core:OpenSCM")
        name = SStr(ctx.fresh("name", core.Str))
        given_in, given_out = ctx.choose(2), ctx.choose(2)
        cur = {}

        def make():
            ctx.ghost["trace"] = []
            ctx.ghost["initialised"] = False
            args = [parameter_set(it) if given_in else None, parameter_set(it) if given_out else None]
            o = it.instantiate(O, [name] + args, {})
            cur["in"], cur["out"] = it.getattr(o, "parameters"), it.getattr(o, "output")
            model = it.getattr(o, "_model")
            P = it.cls("openscm.core.parameterset:ParameterSet")
            ctx.oblige("uses the parameter sets passed in", z3.BoolVal((not given_in or cur["in"] is args[0]) and (not given_out or cur["out"] is args[1])))
            ctx.oblige("or new ones", z3.BoolVal(isinstance(cur["in"], Obj) and cur["in"].cls is P and isinstance(cur["out"], Obj) and cur["out"].cls is P and cur["in"] is not cur["out"]))
            ctx.oblige("the model works on these sets", z3.BoolVal(it.getattr(model, "_parameters") is cur["in"] and it.getattr(model, "_output") is cur["out"]))
            ctx.oblige("loads the model named", z3.BoolVal(len(n) > 0 and n[-1] is name))
            ctx.oblige("reports the model named", z3.BoolVal(it.getattr(o, "model") is name))
            ctx.oblige("creating computes nothing", z3.BoolVal(not [x for x in ctx.ghost["trace"] if x != "model"]))
            if "model" in ctx.ghost["trace"]:
                ctx.ghost["initialised"] = True
            return o

        def check(o, op, ob):
            model = it.getattr(o, "_model")
            start, other = set_start(it, cur["in"]), set_start(it, cur["out"])
            ctx.ghost["trace"] = []
            r, e = attempt(it, lambda: it.call(it.getattr(o, op), [], {}))
            tr = ctx.ghost["trace"]
            if ob:
                nm = op + ": "
                if e is not None:
                    ctx.fail(nm + "no exception", exc_name(e))
                pre = expected(ctx, ["inputs", "run parameters", "reset"])
                exp = {"reset_stepping": pre, "run": pre + ["run"], "step": ["step"]}[op]
                ctx.oblige(nm + "calls the model in the documented order", z3.BoolVal(tr == exp or (op == "step" and tr == expected(ctx, exp))))
                if op in ("reset_stepping", "run"):
                    ctx.oblige(nm + "from the start time", z3.BoolVal(it.getattr(model, "_current_time") is start))
                if op == "step":
                    ctx.oblige(nm + "returns the time after the step", z3.BoolVal(r is it.getattr(model, "_current_time")))
                ctx.oblige(nm + "keeps model and parameter sets", z3.BoolVal(
                    it.getattr(o, "_model") is model and it.getattr(o, "parameters") is cur["in"] and it.getattr(o, "output") is cur["out"]
                    and it.getattr(model, "_parameters") is cur["in"] and it.getattr(model, "_output") is cur["out"]))
            if "model" in tr:
                ctx.ghost["initialised"] = True

        explore(it, ctx, make, ["reset_stepping", "run", "step"], check)

    @v.unit("load_adapter", functions=[AD + "load_adapter"], covers=["known", "unknown"])
    def load(it, ctx):
        """Any history of loads: earlier loads of any names do not matter."""
        f = it.load("openscm.adapters").lookup("load_adapter")
        D = it.cls("openscm.adapters.dice:DICE")
        for nm in ("first", "second", "third"):
            s = ctx.fresh(nm, core.Str)
            r, e = attempt(it, lambda: it.call(f, [SStr(s)], {}))
            if e is not None:
                ctx.cover("unknown")
                ctx.oblige("KeyError for unknown names only", z3.And(z3.BoolVal(exc_name(e) == "KeyError"), s != core.lit("DICE")))
            else:
                ctx.cover("known")
                ctx.oblige("the adapter of that name, always the same", z3.And(z3.BoolVal(r is D), s == core.lit("DICE")))
