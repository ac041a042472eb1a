"""C12, C13: adapters, main interface and the DICE model"""
from math import log2
from unittest.mock import patch

import numpy as np

import openscm.adapters
from openscm.adapters import Adapter, load_adapter
from openscm.core import OpenSCM
from openscm.core.parameterset import ParameterSet

from .base import Kind, close, expect, raises, runs

YEAR = np.timedelta64(365, "D")


def recorder(log, step):
    class Recorder(Adapter):
        """records all calls of the hooks"""

        def _initialize_model(self):
            log.append("model")

        def _initialize_model_input(self):
            log.append("input")

        def _initialize_run_parameters(self):
            log.append("parameters")

        def _reset(self):
            log.append(("reset", self._current_time))

        def _run(self):
            log.append("run")

        def _shutdown(self):
            pass

        def _step(self):
            log.append("step")
            self._current_time = self._current_time + step

    return Recorder


def start_times(rng):
    return rng.choice([np.datetime64("1850-01-01"), np.datetime64("2010-05-06T07:08:09"), 0, 17, np.datetime64(rng.randint(-10 ** 9, 10 ** 9), "s")])


def direct(rng):
    """any sequence of calls on an adapter"""
    log = []
    start = start_times(rng)
    step = np.timedelta64(rng.randint(1, 10 ** 6), "s") if isinstance(start, np.datetime64) else rng.randint(1, 9)
    inp, outp = ParameterSet(), ParameterSet()
    st = inp.generic("Start Time")
    st.value = start
    a = recorder(log, step)(inp, outp)
    expect(log == [], "hooks called on construction: {}", log)
    now = None
    done = False
    sig = []
    for _ in range(rng.randint(1, 14)):
        op = rng.choice(["input", "parameters", "reset", "run", "step", "step", "start"])
        sig.append(op)
        del log[:]
        first = [] if done else ["model"]
        if op == "input":
            runs(a.initialize_model_input, op)
            expect(log == first + ["input"], "initialize_model_input calls {} after {}", log, sig)
            done = True
        elif op == "parameters":
            runs(a.initialize_run_parameters, op)
            expect(log == first + ["parameters"], "initialize_run_parameters calls {} after {}", log, sig)
            done = True
        elif op == "reset":
            runs(a.reset, op)
            now = start
            expect(log == [("reset", start)], "reset calls {} instead of _reset at {} after {}", log, start, sig)
        elif op == "run":
            runs(a.run, op)
            expect(log == ["run"], "run calls {} after {}", log, sig)
        elif op == "step":
            if now is None:
                continue
            t = runs(a.step, op)
            now = now + step
            expect(log == ["step"], "step calls {} after {}", log, sig)
            expect(t == now, "step gives {} instead of {} after {}", t, now, sig)
        else:
            start = start_times(rng) if not isinstance(start, np.datetime64) or True else start
            if isinstance(start, np.datetime64) != isinstance(step, np.timedelta64):
                step_new = None
                start = np.datetime64(rng.randint(0, 10 ** 9), "s") if isinstance(step, np.timedelta64) else rng.randint(0, 99)
            st.value = start
    return tuple(sig)


def main(rng):
    """the main interface"""
    log = []
    start = np.datetime64(rng.randint(0, 10 ** 9), "s")
    step = np.timedelta64(rng.randint(1, 10 ** 6), "s")
    cls = recorder(log, step)
    made = []

    class Spy(cls):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            made.append(self)

    name = rng.choice(["spy", "SPY", "DICE2", "x"])
    with patch.dict(openscm.adapters._loaded_adapters, {name: Spy}):
        k = rng.randrange(4)
        inp, outp = (ParameterSet() if k in (0, 1) else None), (ParameterSet() if k in (0, 2) else None)
        args = dict(input_parameters=inp, output_parameters=outp)
        if rng.random() < 0.5:
            m = OpenSCM(name, inp, outp)
        else:
            m = OpenSCM(name, **{k: v for k, v in args.items() if v is not None})
        other = OpenSCM(name)
        expect(load_adapter(name) is Spy and load_adapter(name) is Spy, "adapter loaded is not the registered one")
    expect(m.model == name, "model name {}", m.model)
    expect(len(made) == 2, "{} adapters made", len(made))
    a = made[0]
    if inp is not None:
        expect(m.parameters is inp, "input parameter set not used")
    if outp is not None:
        expect(m.output is outp, "output parameter set not used")
    expect(a._parameters is m.parameters and a._output is m.output, "adapter got other parameter sets")
    expect(m.parameters is not m.output, "same parameter set for input and output")
    expect(other.parameters is not m.parameters and other.output is not m.output, "parameter sets shared between instances")
    m.parameters.generic("Start Time").value = start
    sig = []
    done = False
    now = None
    for _ in range(rng.randint(1, 10)):
        op = rng.choice(["reset", "run", "step", "step", "start"])
        sig.append(op)
        del log[:]
        prep = ([] if done else ["model"]) + ["input", "parameters", ("reset", start)]
        if op == "reset":
            runs(m.reset_stepping, op)
            expect(log == prep, "reset_stepping calls {} instead of {} after {}", log, prep, sig)
            done, now = True, start
        elif op == "run":
            runs(m.run, op)
            expect(log == prep + ["run"], "run calls {} instead of {} after {}", log, prep + ["run"], sig)
            done, now = True, start
        elif op == "step" and now is not None:
            t = runs(m.step, op)
            now = now + step
            expect(log == ["step"] and t == now, "step gives {} instead of {} ({})", t, now, log)
        elif op == "start":
            start = np.datetime64(rng.randint(0, 10 ** 9), "s")
            m.parameters.generic("Start Time").value = start
    return tuple(sig)


def loading(rng):
    name = rng.choice(["DICE", "DICE", "dice", "unknown", "", "DIC", "DICE ", "MAGICC", "Adapter", "NAME"])
    cache = rng.random() < 0.5
    with patch.dict(openscm.adapters._loaded_adapters, {}, clear=cache):
        for _ in range(3):
            if name == "DICE":
                from openscm.adapters.dice import DICE

                expect(load_adapter(name) is DICE, "DICE loads {}", load_adapter(name))
                expect(isinstance(OpenSCM(name)._model, DICE), "main interface uses another model")
            else:
                raises(KeyError, lambda: load_adapter(name), "load_adapter({!r})".format(name))
                raises(KeyError, lambda: OpenSCM(name), "OpenSCM({!r})".format(name))
    return (name, cache)


# --------------------------------------------------------------------------- DICE
DEFAULTS = dict(
    mat0=830.4, mateq=588, mat_lower=10, ml0=10010, mleq=10000, ml_lower=1000, mu0=1527, mueq=1350, mu_lower=100,
    tatm0=0.8, tatm_upper=40, tocean0=0.0068, tocean_lower=-1, tocean_upper=20, b12=0.0181, b23=0.00071,
    c1=0.0222, c3=0.09175, c4=0.00487, fex0=0.25, fex1=0.7,
)
UNITS = dict(
    mat0="GtC", mateq="GtC", mat_lower="GtC", ml0="GtC", mleq="GtC", ml_lower="GtC", mu0="GtC", mueq="GtC", mu_lower="GtC",
    tatm0="delta_degC", tatm_upper="delta_degC", tocean0="delta_degC", tocean_lower="delta_degC", tocean_upper="delta_degC",
    b12="", b23="", c1="delta_degC*m^2/W", c3="W/m^2/delta_degC", c4="", fex0="W/m^2", fex1="W/m^2",
)
NAMES = ["mat", "ml", "mu", "tatm", "tocean", "forc"]
OUT = dict(
    mat=(("Pool", "CO2", "Atmosphere"), "GtC", "point"), ml=(("Pool", "CO2", "Ocean", "lower"), "GtC", "point"),
    mu=(("Pool", "CO2", "Ocean", "shallow"), "GtC", "point"), tatm=(("Surface Temperature", "Increase"), "delta_degC", "point"),
    tocean=(("Ocean Temperature", "Increase"), "delta_degC", "point"), forc=(("Radiative Forcing", "CO2"), "W/m^2", "average"),
)


def reference(p, E, n):
    """the published equations"""
    ratio = p["period"] / YEAR
    b12, b23 = p["b12"], p["b23"]
    b11 = 1 - b12
    b21 = b12 * p["mateq"] / p["mueq"]
    b22 = 1 - b21 - b23
    b32 = b23 * p["mueq"] / p["mleq"]
    b33 = 1 - b32
    r = {k: [p[k + "0"]] for k in ("mat", "ml", "mu", "tatm", "tocean")}
    r["forc"] = [p["fco22x"] * log2(p["mat0"] / p["mateq"]) + p["fex0"]]
    bound = [False]
    for i in range(1, n):
        mat, ml, mu, ta, to = (r[k][-1] for k in ("mat", "ml", "mu", "tatm", "tocean"))
        em = E[i - 1] * ratio / (3.666 if p["rounding"] else 1)
        a = mat * b11 + mu * b21 + em
        l = ml * b33 + mu * b23
        u = mat * b12 + mu * b22 + ml * b32
        r["mat"].append(max(p["mat_lower"], a))
        r["ml"].append(max(p["ml_lower"], l))
        r["mu"].append(max(p["mu_lower"], u))
        bound.append(a < p["mat_lower"] or l < p["ml_lower"] or u < p["mu_lower"])
        r["tocean"].append(max(p["tocean_lower"], min(p["tocean_upper"], to + p["c4"] * (ta - to))))
        t = p["start"] + p["period"] * i
        if t >= p["sat"]:
            fo = p["fex1"]
        else:
            fo = p["fex0"] + (p["fex1"] - p["fex0"]) * ((p["period"] * i) / (p["sat"] - p["start"]))
        f = p["fco22x"] * log2(r["mat"][-1] / p["mateq"]) + fo
        r["forc"].append(f)
        r["tatm"].append(min(p["tatm_upper"], ta + p["c1"] * (f - p["fco22x"] / p["t2xco2"] * ta - p["c3"] * (ta - to))))
    return r, bound


def scenario(rng, maxn=25):
    p = dict(DEFAULTS)
    given = {}
    for k in DEFAULTS:
        if rng.random() < 0.4:
            f = rng.choice([0.5, 0.9, 1.1, 2.0, rng.uniform(0.3, 3)])
            if k in ("b12", "b23"):
                f = rng.uniform(0.1, 8)
            if k in ("mat_lower", "ml_lower", "mu_lower", "tatm_upper", "tocean_upper"):
                base = {"mat_lower": p["mat0"], "ml_lower": p["ml0"], "mu_lower": p["mu0"], "tatm_upper": 0.8, "tocean_upper": 0.0069}[k]
                given[k] = base * (rng.uniform(0.5, 0.999) if "lower" in k else rng.uniform(1.0, 1.5))
            else:
                given[k] = p[k] * f
    if rng.random() < 0.15:
        given["tocean_lower"] = 0.0068
        given["tatm0"] = -1.0
    p.update(given)
    p["fco22x"], p["t2xco2"] = 3.8, 2.9
    p["rounding"] = True
    p["period"] = YEAR
    p["sat"] = np.datetime64("2100-01-01")
    p["start"] = np.datetime64("{}-01-01".format(rng.choice([1850, 2010, 2015, 2095])))
    n = rng.randint(3, maxn)
    if rng.random() < 0.4:
        p["period"] = np.timedelta64(rng.choice([5 * 365, 730, 30, 100]), "D")
        given["period_length"] = p["period"]
    if rng.random() < 0.3:
        p["rounding"] = False
        given["original_rounding"] = False
    if rng.random() < 0.5:
        p["sat"] = p["start"] + p["period"] * rng.randint(1, 2 * n) + np.timedelta64(rng.choice([0, 0, 1, -1]), "D")
        given["forcoth_saturation_time"] = p["sat"]
    if rng.random() < 0.3:
        p["fco22x"] = rng.uniform(3, 5)
        given["fco22x"] = p["fco22x"]
    if rng.random() < 0.3:
        p["t2xco2"] = rng.uniform(1, 6)
        given["t2xco2"] = p["t2xco2"]
    p["stop"] = p["start"] + p["period"] * (n - 1) + p["period"] // rng.choice([10 ** 9, 2, 3])
    lo, hi = rng.choice([(0, 40), (-100, 100), (-2000, 10), (0, 3000)])
    E = [rng.uniform(lo, hi) for _ in range(n)]
    return p, given, E, n


def set_inputs(ps, p, given, E, n):
    for k, v in given.items():
        if k == "fco22x":
            ps.scalar("Radiative Forcing Sensitivity", "W/m^2").value = v
        elif k == "t2xco2":
            ps.scalar("Equilibrium Climate Sensitivity", "delta_degC").value = v
        elif k in ("period_length", "original_rounding", "forcoth_saturation_time"):
            ps.generic(("DICE", k)).value = v
        else:
            ps.scalar(("DICE", k), UNITS[k]).value = v
    ps.generic("Start Time").value = p["start"]
    ps.generic("Stop Time").value = p["stop"]
    tp = grid(p, n + 1)
    unit = "GtCO2/a" if p["rounding"] else "GtC/a"
    v = ps.timeseries(("Emissions", "CO2"), unit, tp, timeseries_type="average")
    v.values = np.array(E)
    return v


def grid(p, n):
    s = p["start"].astype("datetime64[s]").astype(np.int64)
    d = p["period"].astype("timedelta64[s]").astype(np.int64)
    return (s + d * np.arange(n)).astype("datetime64[s]")


def outputs(m, p, n):
    res = {}
    for k, (name, unit, typ) in OUT.items():
        res[k] = np.array(m.output.timeseries(name, unit, grid(p, n + (typ == "average")), timeseries_type=typ).values, dtype=float)
    return res


def check_outputs(res, ref, bound, p, E, n, upto, what):
    for k in NAMES:
        tol = 1e-9
        m = upto + 1
        if k == "forc":
            tol = 1e-6
            if upto + 1 < n:
                continue  # (values not computed yet take part in the conversion)
        expect(close(res[k][:m], ref[k][:m], rtol=tol), "{}: {} is {} instead of {}", what, k, list(res[k][:m]), list(ref[k][:m]))
    for i in range(1, upto + 1):
        s = [sum(res[k][j] for k in ("mat", "ml", "mu")) for j in (i - 1, i)]
        em = E[i - 1] * (p["period"] / YEAR) / (3.666 if p["rounding"] else 1)
        if not bound[i]:
            expect(abs(s[1] - s[0] - em) <= 1e-9 * (abs(s[0]) + abs(em)), "{}: carbon changes by {} instead of {} in step {}", what, s[1] - s[0], em, i)
        for k in ("mat", "ml", "mu"):
            expect(res[k][i] >= p[k + "_lower"] * (1 - 1e-12), "{}: {} below bound", what, k)
        expect(res["tatm"][i] <= p["tatm_upper"] + 1e-9 and p["tocean_lower"] - 1e-9 <= res["tocean"][i] <= p["tocean_upper"] + 1e-9, "{}: temperatures out of bounds", what)


def dice(rng):
    p, given, E, n = scenario(rng)
    inp = ParameterSet()
    ev = set_inputs(inp, p, given, E, n)
    m = OpenSCM("DICE", inp, ParameterSet())
    try:
        ref, bound = reference(p, E, n)
    except ValueError:
        return None
    sig = []
    pos = None
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["run", "run", "steps", "all steps", "reset", "emissions", "foreign"])
        sig.append(op)
        if op == "run":
            runs(m.run, "run after {}".format(sig))
            check_outputs(outputs(m, p, n), ref, bound, p, E, n, n - 1, "run after {}".format(sig))
            pos = None
        elif op == "reset":
            runs(m.reset_stepping, "reset_stepping")
            pos = 0
        elif op in ("steps", "all steps"):
            if pos is None or rng.random() < 0.5:
                runs(m.reset_stepping, "reset_stepping")
                pos = 0
            k = n - 1 - pos if op == "all steps" else rng.randint(0, n - 1 - pos)
            for _ in range(k):
                t = runs(m.step, "step")
                pos += 1
                expect(t == p["start"] + p["period"] * pos, "step gives {}", t)
            res = outputs(m, p, n)
            check_outputs(res, ref, bound, p, E, n, pos, "{} steps after {}".format(pos, sig))
        elif op == "emissions":
            E = [e * 1.5 + 1 for e in E]
            ev.values = np.array(E)
            try:
                ref, bound = reference(p, E, n)
            except ValueError:
                return None
            pos = None
        else:
            # another instance must not interfere
            q, g2, E2, n2 = scenario(rng, 8)
            i2 = ParameterSet()
            set_inputs(i2, q, g2, E2, n2)
            try:
                r2, b2 = reference(q, E2, n2)
            except ValueError:
                continue
            m2 = OpenSCM("DICE", i2)
            if rng.random() < 0.5 and pos is not None:
                m2.reset_stepping()
                m2.step()
            else:
                m2.run()
                check_outputs(outputs(m2, q, n2), r2, b2, q, E2, n2, n2 - 1, "second instance")
    return (tuple(sig), n, tuple(sorted(given)))


KINDS = {
    "C12": [Kind("direct", direct, 3), Kind("main", main, 3), Kind("loading", loading, 0.5)],
    "C13": [Kind("dice", dice)],
}
