"""C13: the DICE model conserves carbon, stays in bounds and is reproducible."""
from fractions import Fraction

import z3

from pyvc import core, npm
from pyvc.builtins import LOG2
from pyvc.core import Builtin, Ext, Mut, Obj, PathAbort, SStr, Unsupported, ite, lit, num, real, sbool
from pyvc.npm import Dt, Td
from pyvc.speclib import KEEP, arbitrary, attempt, exc_name, time_grid

D = "openscm.adapters.dice:DICE."
YEAR_S = 365 * 86400
OUT = {  # outputs: name, unit, type
    "mat": ("Pool|CO2|Atmosphere", "GtC", "point"),
    "ml": ("Pool|CO2|Ocean|lower", "GtC", "point"),
    "mu": ("Pool|CO2|Ocean|shallow", "GtC", "point"),
    "tatm": ("Surface Temperature|Increase", "delta_degC", "point"),
    "tocean": ("Ocean Temperature|Increase", "delta_degC", "point"),
    "forc": ("Radiative Forcing|CO2", "W/m^2", "average"),
}
# parameters: unit (None for generic parameters), published default
SCALARS = {
    "mat0": ("GtC", "830.4"), "mateq": ("GtC", "588"), "mat_lower": ("GtC", "10"), "ml0": ("GtC", "10010"),
    "mleq": ("GtC", "10000"), "ml_lower": ("GtC", "1000"), "mu0": ("GtC", "1527"), "mueq": ("GtC", "1350"),
    "mu_lower": ("GtC", "100"), "tatm0": ("delta_degC", "0.8"), "tatm_upper": ("delta_degC", "40"),
    "tocean0": ("delta_degC", "0.0068"), "tocean_lower": ("delta_degC", "-1"), "tocean_upper": ("delta_degC", "20"),
    "b12": ("", "0.0181"), "b23": ("", "0.00071"), "c1": ("delta_degC*m^2/W", "0.0222"),
    "c3": ("W/m^2/delta_degC", "0.09175"), "c4": ("", "0.00487"), "fex0": ("W/m^2", "0.25"), "fex1": ("W/m^2", "0.7"),
}
NAMES = {("DICE|" + k): v for k, v in SCALARS.items()}
NAMES["Radiative Forcing Sensitivity"] = ("W/m^2", "3.8")
NAMES["Equilibrium Climate Sensitivity"] = ("delta_degC", "2.9")
GENERIC = ["DICE|period_length", "DICE|original_rounding", "DICE|forcoth_saturation_time", "Start Time", "Stop Time"]


class ScalarStub(Mut, Ext):
    """Contract of a scalar or generic view: reads give the value last written."""

    name = "view"

    def __init__(self, value, is_empty):
        Mut.__init__(self)
        self.value, self.is_empty, self.writes = value, is_empty, 0

    def getattr(self, it, name):
        if name == "value":
            if self.is_empty:
                it.throw(it.cls("openscm.errors:ParameterEmptyError"))
            return self.value
        if name == "empty":
            return self.is_empty
        raise Unsupported("view." + name)

    def setattr(self, it, name, v):
        if name != "value":
            raise Unsupported("view." + name)
        self.value, self.is_empty = v, False
        self.writes += 1


class SeriesStub(Mut, Ext):
    """Contract of a timeseries view (C05): element and full writes are read back."""

    name = "timeseries view"

    def __init__(self, key, arr, times):
        Mut.__init__(self)
        self.key, self.arr, self.times, self.locked = key, arr, times, False

    def getattr(self, it, name):
        if name == "values":
            return self.arr
        if name in ("lock", "unlock"):

            def fn(it):
                self.locked = name == "lock"

            return Builtin(name, fn)
        raise Unsupported("timeseries view." + name)

    def setattr(self, it, name, v):
        if name != "values":
            raise Unsupported("timeseries view." + name)
        npm.assign_all(it, self.arr, v)


class SetStub(Mut, Ext):
    """Contract of a parameter set: one view stub per name, requests are recorded."""

    name = "parameter set"

    def __init__(self, ctx, nm, empty):
        Mut.__init__(self)
        self.nm, self.empty = nm, empty
        self.views, self.requests = {}, {}

    def value(self, ctx, key):
        if key in ("Start Time", "Stop Time", "DICE|forcoth_saturation_time"):
            return Dt(ctx.int(key.replace(" ", "_")))
        if key == "DICE|period_length":
            return Td(ctx.int("period"))
        if key == "DICE|original_rounding":
            return ctx.bool("rounding")
        return ctx.real(key)

    def getattr(self, it, name):
        def norm(x):
            items = [x] if isinstance(x, str) else it.concrete_items(x)
            if not all(isinstance(y, str) for y in items):
                raise Unsupported("symbolic parameter name")
            return "|".join(items)

        def one(it, n, unit, typ):
            key = norm(n)
            self.requests[key] = (unit, typ)
            if key not in self.views:
                fixed = key in ("Start Time", "Stop Time")
                self.views[key] = ScalarStub(self.value(it.ctx, key), self.empty and not fixed)
            return self.views[key]

        if name == "scalar":
            return Builtin(name, lambda it, n, unit: one(it, n, unit, "scalar"))
        if name == "generic":
            return Builtin(name, lambda it, n: one(it, n, None, "generic"))
        if name == "timeseries":

            def series(it, n, unit, time_points, region=None, timeseries_type="point", interpolation="linear", extrapolation="none"):
                key = norm(n)
                if not isinstance(timeseries_type, str):
                    timeseries_type = {"POINT_TIMESERIES": "point", "AVERAGE_TIMESERIES": "average"}.get(getattr(timeseries_type, "name", None), timeseries_type)
                self.requests[key] = (unit, timeseries_type)
                ln = num(time_points.length) - (1 if timeseries_type == "average" else 0)
                v = SeriesStub(key, npm.fresh_arr(it.ctx, key, "f", z3.simplify(ln)), time_points)
                self.views[key] = v
                return v

            return Builtin(name, series)
        raise Unsupported("parameter set." + name)


class Model:
    """A DICE model with initialised parameters; n time steps."""

    def __init__(self, it, ctx, empty=False):
        self.it, self.ctx = it, ctx
        time_grid(it)
        self.inp, self.out = SetStub(ctx, "in", empty), SetStub(ctx, "out", False)
        self.o = it.instantiate(it.cls("openscm.adapters.dice:DICE"), [self.inp, self.out], {})
        it.call(it.getattr(self.o, "initialize_model_input"), [], {})
        if not empty:
            v = self.inp.views
            self.start, self.stop = v["Start Time"].value.e, v["Stop Time"].value.e
            self.period = v["DICE|period_length"].value.e
            ctx.assume(z3.And(self.period > 0, self.stop >= self.start))
            # all parameter values the equations are defined for
            for k in ("mateq", "mat_lower", "mat0"):
                ctx.assume(self.p(k) > 0)
            for k in ("mueq", "mleq"):
                ctx.assume(self.p(k) != 0)
            ctx.assume(v["Equilibrium Climate Sensitivity"].value != 0)

    def p(self, k):
        n = {"fco22x": "Radiative Forcing Sensitivity", "t2xco2": "Equilibrium Climate Sensitivity"}.get(k, "DICE|" + k)
        return self.inp.views[n].value

    def run_parameters(self):
        self.it.call(self.it.getattr(self.o, "initialize_run_parameters"), [], {})
        self.series = {k: self.out.views[n[0]] for k, n in OUT.items()}
        self.E = self.inp.views["Emissions|CO2"]
        self.n = num(self.series["mat"].arr.length)

    def reset(self):
        self.it.call(self.it.getattr(self.o, "reset"), [], {})

    def havoc(self, t):
        """Any time step t and any content of the outputs."""
        for k, s in self.series.items():
            s.arr.fn = npm.fresh_arr(self.ctx, "any_" + k, "f", s.arr.length).fn
        arbitrary(self.o, _parameters=KEEP, _output=KEEP, _initialized=KEEP, _initialized_inputs=KEEP,
                  _current_time=Dt(self.ctx.int("time")), _values=KEEP, _timestep=t, _timestep_count=KEEP)


def build(v):
    v.trust("numpy: contract in pyvc/npm.py; math.log2 is an uninterpreted function, defined for positive numbers")
    v.assume("floating point numbers are treated as mathematical reals")
    v.assume("parameter values for which the equations are defined: positive mateq, mat_lower, mat0 and period, non-zero mueq, mleq, t2xco2; stop time not before start time")
    v.assume("views are used through their contracts (C03, C05): stubs in specs/c13.py")

    @v.unit("parameters and defaults", functions=[D + "_initialize_model", D + "_initialize_model_input"], covers=["empty", "given"])
    def defaults(it, ctx):
        empty = bool(ctx.choose(2))
        m = Model(it, ctx, empty)
        ctx.cover("empty" if empty else "given")
        want = {k: (u, "scalar") for k, (u, _) in NAMES.items()}
        want.update({k: (None, "generic") for k in GENERIC})
        ctx.oblige("requests the documented parameters in their units", z3.BoolVal(m.inp.requests == want and not m.out.requests))
        for k, (u, d) in NAMES.items():
            if k not in m.inp.views:
                continue
            s = m.inp.views[k]
            if empty:
                ctx.oblige("empty parameters get the published default", z3.BoolVal(not s.is_empty and s.writes == 1) if s.is_empty else real(s.value) == real(Fraction(d)))
            else:
                ctx.oblige("values given are kept", z3.BoolVal(s.writes == 0))
        if empty and all(k in m.inp.views for k in GENERIC):
            g = m.inp.views
            ctx.oblige("default period, rounding and saturation time", it.conj([
                it.eq(g["DICE|period_length"].value, Td(YEAR_S)), g["DICE|original_rounding"].value is True,
                it.eq(g["DICE|forcoth_saturation_time"].value, Dt(4102444800))]))

    @v.unit("time steps", functions=[D + "_initialize_run_parameters"], covers=["end"])
    def grids(it, ctx):
        m = Model(it, ctx)
        _, e = attempt(it, m.run_parameters)
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        n = m.n
        ctx.oblige("as many steps as fit, including the start time", z3.And(n >= 1, (n - 1) * m.period <= m.stop - m.start, n * m.period > m.stop - m.start))
        for k, (nm, unit, typ) in OUT.items():
            ctx.oblige("outputs under their documented names and units", z3.BoolVal(m.out.requests.get(nm) == (unit, typ)))
            ctx.oblige("one value per time step", num(m.series[k].arr.length) == n)
        ctx.oblige("no other outputs", z3.BoolVal(len(m.out.requests) == len(OUT)))
        u, typ = m.inp.requests["Emissions|CO2"]
        rounding = m.inp.views["DICE|original_rounding"].value
        ctx.oblige("emissions", z3.And(z3.BoolVal(typ == "average"), core.sstr(u) == z3.If(rounding, lit("GtCO2/a"), lit("GtC/a")), num(m.E.arr.length) == n))
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n))
        for k in OUT:
            ctx.oblige("times of the outputs", num(m.series[k].times.at(i).e) == m.start + i * m.period)

    @v.unit("reset", functions=[D + "_reset"], covers=["end"])
    def reset(it, ctx):
        m = Model(it, ctx)
        m.run_parameters()
        m.havoc(ctx.int("t"))
        _, e = attempt(it, m.reset)
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        init = {k: m.p(k + "0") for k in ("mat", "ml", "mu", "tatm", "tocean")}
        init["forc"] = m.p("fco22x") * LOG2(m.p("mat0") / m.p("mateq")) + m.p("fex0")
        for k, x in init.items():
            ctx.oblige("initial value of each output", real(m.series[k].arr.at(0)) == x)
        ctx.oblige("steps count from the start", num(it.getattr(m.o, "_timestep")) == 0)
        ctx.oblige("the time is the start time", it.eq(it.getattr(m.o, "_current_time"), Dt(m.start)))
        ctx.oblige("the carbon cycle matrix", z3.And(matrix(it, m)))

    def matrix(it, m):
        val = it.getattr(m.o, "_values")
        g = {k: real(it.getattr(val, k)) for k in ("b11", "b21", "b22", "b32", "b33")}
        b12, b23 = m.p("b12"), m.p("b23")
        return [g["b11"] == 1 - b12, g["b21"] == b12 * m.p("mateq") / m.p("mueq"), g["b22"] == 1 - g["b21"] - b23,
                g["b32"] == b23 * m.p("mueq") / m.p("mleq"), g["b33"] == 1 - g["b32"]]

    @v.unit("step", functions=[D + "_step", D + "_calc_step"], covers=["end"], max_paths=60)
    def step(it, ctx):
        m = Model(it, ctx)
        m.run_parameters()
        m.reset()
        t = ctx.int("t")
        ctx.assume(z3.And(t >= 1, t < m.n))
        m.havoc(t - 1)
        val = it.getattr(m.o, "_values")
        b = {}
        for k in ("b11", "b21", "b22", "b32", "b33"):
            # only the relations between the coefficients matter
            b[k] = real(it.getattr(val, k))
        b["b12"], b["b23"] = m.p("b12"), m.p("b23")
        old = {k: s.arr.fnow() for k, s in m.series.items()}
        x = {k: real(f(t - 1)) for k, f in old.items()}
        ctx.assume(x["mat"] > 0)
        pe = m.E.arr.fnow()
        time0 = it.getattr(m.o, "_current_time").e
        params = {k: (s.value, s.writes) for k, s in m.inp.views.items() if isinstance(s, ScalarStub)}
        _, e = attempt(it, lambda: it.call(it.getattr(m.o, "step"), [], {}))
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        y = {k: real(s.arr.at(t)) for k, s in m.series.items()}
        rounding = m.inp.views["DICE|original_rounding"].value
        emitted = real(pe(t - 1)) * z3.ToReal(m.period) / YEAR_S / z3.If(rounding, z3.RealVal("3.666"), z3.RealVal(1))
        mx = lambda a, c: z3.If(c > a, c, a)
        mn = lambda a, c: z3.If(c < a, c, a)
        p = m.p
        raw = {
            "mat": x["mat"] * b["b11"] + x["mu"] * b["b21"] + emitted,
            "ml": x["ml"] * b["b33"] + x["mu"] * b["b23"],
            "mu": x["mat"] * b["b12"] + x["mu"] * b["b22"] + x["ml"] * b["b32"],
        }
        for k, r in raw.items():
            ctx.oblige("equation of " + k, y[k] == mx(p(k + "_lower"), r))
            ctx.oblige("lower bound of " + k, y[k] >= p(k + "_lower"))
        ctx.oblige("equation of tocean", y["tocean"] == mx(p("tocean_lower"), mn(p("tocean_upper"), x["tocean"] + p("c4") * (x["tatm"] - x["tocean"]))))
        ctx.oblige("bounds of tocean", z3.And(y["tocean"] >= p("tocean_lower"), z3.Or(y["tocean"] <= p("tocean_upper"), p("tocean_upper") < p("tocean_lower"))))
        sat = m.inp.views["DICE|forcoth_saturation_time"].value.e
        at = m.start + t * m.period
        other = z3.If(at >= sat, p("fex1"), p("fex0") + (p("fex1") - p("fex0")) * (z3.ToReal(m.period * t) / z3.ToReal(sat - m.start)))
        ctx.oblige("equation of forc", y["forc"] == p("fco22x") * LOG2(y["mat"] / p("mateq")) + other)
        raw_t = x["tatm"] + p("c1") * (y["forc"] - (p("fco22x") / p("t2xco2")) * x["tatm"] - p("c3") * (x["tatm"] - x["tocean"]))
        ctx.oblige("equation of tatm", y["tatm"] == mn(p("tatm_upper"), raw_t))
        ctx.oblige("upper bound of tatm", y["tatm"] <= p("tatm_upper"))
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < m.n, i != t))
        for k, s in m.series.items():
            ctx.oblige("no other value of the outputs changes", real(s.arr.at(i)) == real(old[k](i)))
            ctx.oblige("no output changes its length", num(s.arr.length) == m.n)
        ctx.oblige("emissions and parameters stay", z3.And(real(m.E.arr.at(i)) == real(pe(i)), z3.BoolVal(all(m.inp.views[k].value is a and m.inp.views[k].writes == w for k, (a, w) in params.items()))))
        ctx.oblige("one step further", num(it.getattr(m.o, "_timestep")) == t)
        ctx.oblige("one period further", it.eq(it.getattr(m.o, "_current_time"), Dt(time0 + m.period)))

    @v.unit("lemma: carbon is conserved", covers=["end"])
    def conserve(it, ctx):
        """From the step equations and the carbon cycle matrix."""
        b = {k: ctx.real(k) for k in ("b11", "b12", "b21", "b22", "b23", "b32", "b33")}
        ctx.assume(z3.And(b["b11"] == 1 - b["b12"], b["b22"] == 1 - b["b21"] - b["b23"], b["b33"] == 1 - b["b32"]))
        mat, ml, mu, em = [ctx.real(k) for k in ("mat", "ml", "mu", "em")]
        raw = [mat * b["b11"] + mu * b["b21"] + em, ml * b["b33"] + mu * b["b23"], mat * b["b12"] + mu * b["b22"] + ml * b["b32"]]
        low = [ctx.real("low") for _ in raw]
        new = [z3.If(r > lo, r, lo) for r, lo in zip(raw, low)]
        for r, lo in zip(raw, low):
            ctx.assume(r >= lo)
        ctx.oblige("the pools change by what is emitted", new[0] + new[1] + new[2] == mat + ml + mu + em)
        ctx.cover("end")

    @v.unit("run is as many single steps", functions=[D + "_run", D + "_step"], covers=["end"])
    def run(it, ctx):
        m = Model(it, ctx)
        m.run_parameters()
        m.reset()
        counter = Obj(None, {"steps": 0})
        dice = it.cls("openscm.adapters.dice:DICE")

        def one(it, self):
            counter.f["steps"] = it.binop("Add", counter.f["steps"], 1)
            it.setattr(self, "_timestep", it.binop("Add", it.getattr(self, "_timestep"), 1))
            return None

        c = Builtin("_calc_step", one)
        c.method = True
        saved = dice.ns.get("_calc_step")
        if saved is None:
            raise Unsupported("no _calc_step")
        dice.ns["_calc_step"] = c
        it.inv_gens = [count_invariants]
        it.call(it.getattr(m.o, "step"), [], {})
        ctx.oblige("one step is one step", z3.simplify(num(counter.f["steps"])) == 1)
        m.reset()
        counter.f["steps"] = 0
        _, e = attempt(it, lambda: it.call(it.getattr(m.o, "run"), [], {}))
        dice.ns["_calc_step"] = saved
        if e is not None:
            ctx.fail("no exception", exc_name(e))
            return
        ctx.cover("end")
        ctx.oblige("run takes one step for each time after the start", num(counter.f["steps"]) == m.n - 1)
        ctx.oblige("all outputs are published afterwards", z3.BoolVal(not any(s.locked for s in m.series.values())))


def count_invariants(it, entry, cur, mods):
    """Candidates: counters advance with the loop, and with each other."""
    out = []
    i, n = cur.vars.get("\0i"), cur.vars.get("\0n")
    a, b = counters(entry), counters(cur)
    for k, x in b.items():
        if k not in a:
            continue
        if i is not None:
            out.append(("%s = entry + i" % k, num(x) == num(a[k]) + i))
        out.append(("%s >= entry" % k, num(x) >= num(a[k])))
        for k2, x2 in b.items():
            if k2 < k and k2 in a:
                out.append(("%s - %s" % (k, k2), num(x) - num(a[k]) == num(x2) - num(a[k2])))
    return out


def counters(view):
    out = {}
    for k, v in view.vars.items():
        if core.is_num(v) and not k.startswith("\0") and z3.is_int(num(v)):
            out[k] = v
    for k, v in getattr(view, "objs", {}).items():
        out["." + k] = v
    return out
