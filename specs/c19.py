"""C19: data frames and parameter sets convert into each other without loss."""
import z3

from pyvc import core, framem, npm, rem
from pyvc.builtins import LOWER
from pyvc.core import Builtin, Ext, Obj, PyDict, PyList, SStr, Unsupported, ite, lit, num, real, sbool, sstr, subst
from pyvc.framem import FloatCol, cell, same_cell
from pyvc.npm import Dt, NArr
from pyvc.rem import Cell
from pyvc.speclib import FnContract, attempt, exc_name

import specs.framespec as fs
from specs.framespec import BASE, frame

PS = "openscm.core.parameterset:ParameterSet"
SCM = "openscm.scmdataframe:"
CONVERT = SCM + "convert_openscm_to_scmdataframe"
GUESS = "openscm.scmdataframe.parameter_type:guess_parameter_type"
AVERAGE = z3.Function("guessed_average", core.Str, core.Str, z3.BoolSort())
MINE = ["variable", "region", "unit", "parameter_type"]
AT = z3.Int("at!entry")


class Entry(Ext):
    """Values written by a view: name, region, unit, type, times, values."""

    def __init__(self, kind, name, region, unit, avg, tn, tf, vn, vf):
        self.kind, self.name_, self.region, self.unit, self.avg, self.tn, self.tf, self.vn, self.vf = kind, name, region, unit, avg, tn, tf, vn, vf

    def parts(self):
        return (self.name_, self.region, self.unit, self.avg, self.tn, self.tf(AT), self.vn, self.vf(AT))

    def again(self, p):
        a, b, c, d, e, f, g, h = p
        return Entry(self.kind, a, b, c, d, e, lambda i: z3.substitute(f, (AT, num(i))), g, lambda i: z3.substitute(h, (AT, num(i))))

    def exprs(self):
        return [y for x in self.parts() for y in (x.exprs() if isinstance(x, Cell) else [x])]

    def subst(self, pairs):
        return self.again([subst(x, pairs) if not isinstance(x, Cell) else x.subst(pairs) for x in self.parts()])

    def merge(self, c, b):
        return self.again([x.merge(c, y) if isinstance(x, Cell) else ite(c, x, y) for x, y in zip(self.parts(), b.parts())])


class ViewOf(Ext):
    """A view of a parameter set (C01-C05): what is written to it is recorded."""

    name = "view"

    def __init__(self, log, attr, make):
        self.log, self.attr, self.make = log, attr, make

    def setattr(self, it, name, x):
        if name != self.attr:
            raise Unsupported("view.%s = ..." % name)
        it.list_append(self.log, self.make(x))


def the_set(it, ctx, log, notes):
    """Contract of the parameter set: a view writes its parameter, under its names, unit, type and times."""
    PT = it.cls("openscm.core.parameters:ParameterType").members

    def ps_init(it, self, *a, **k):
        return None

    def one(x):
        return x[0] if isinstance(x, tuple) and len(x) == 1 else x

    def timeseries(it, self, name, unit, time_points, region=("World",), timeseries_type=None, interpolation=None, extrapolation=None):
        if timeseries_type not in (PT["AVERAGE_TIMESERIES"], PT["POINT_TIMESERIES"]):
            raise Unsupported("type of timeseries %r" % (timeseries_type,))
        t = npm.as_array(it, time_points)
        if t.kind != "M":
            raise Unsupported("kind of times")
        tf = t.fnow()
        avg = z3.BoolVal(timeseries_type is PT["AVERAGE_TIMESERIES"])

        def make(x):
            if not isinstance(x, NArr) or getattr(x, "kind", None) != "f":
                raise Unsupported("values %r" % (x,))
            return Entry("timeseries", cell(one(name)), cell(one(region)), cell(unit), avg, num(t.length), lambda i: num(tf(num(i)).e), num(x.length), lambda i: real(x.at(num(i))))

        return ViewOf(log, "values", make)

    def scalar(it, self, name, unit, region=("World",)):
        return ViewOf(notes, "value", lambda x: ("scalar", name, unit, region, x))

    def generic(it, self, name, region=("World",)):
        return ViewOf(notes, "value", lambda x: ("generic", name, None, region, x))

    def guess(it, variable_name, unit):
        avg = AVERAGE(cell(variable_name).text, cell(unit).text)
        return PT["AVERAGE_TIMESERIES"] if it.truth(avg) else PT["POINT_TIMESERIES"]

    it.contracts[PS + ".__init__"] = FnContract(ps_init)
    it.contracts[PS + ".timeseries"] = FnContract(timeseries)
    it.contracts[PS + ".scalar"] = FnContract(scalar)
    it.contracts[PS + ".generic"] = FnContract(generic)
    it.contracts[GUESS] = FnContract(guess)


class Stack(Ext):
    """A two-dimensional array made of arrays: its rows (or columns)."""

    name = "ndarray"

    def __init__(self, parts, columns):
        self.parts_, self.columns = parts, columns

    def getattr(self, it, name):
        if name == "T":
            return Stack(self.parts_, not self.columns)
        if name == "transpose":
            return Builtin(name, lambda it: Stack(self.parts_, not self.columns))
        raise Unsupported("array." + name)


class Made(Ext):
    """The frame made of data, index and columns (contract: proved in C23)."""

    name = "ScmDataFrame"

    def __init__(self, data, index, columns):
        self.data, self.index, self.columns = data, index, columns


def stacks(it):
    """numpy: arrays of one length become the rows (or columns) of a table."""
    np = it.ext["numpy"].attrs

    def parts(it, x):
        xs = it.concrete_items(x)
        if not xs or not all(isinstance(a, NArr) for a in xs):
            raise Unsupported("array of %r" % (x,))
        for a in xs[1:]:
            if not it.ctx.branch(num(a.length) == num(xs[0].length), "arrays of one length"):
                raise Unsupported("array of arrays of different lengths")
        return list(xs)

    def no_stack(it, x, *a, **kw):
        raise Unsupported("rows of %r" % (x,))

    def rows(old):
        def f(it, x, *a, **k):
            if isinstance(x, Stack):
                return x
            xs = it.concrete_items(x) if isinstance(x, (PyList, tuple)) else None
            if xs and all(isinstance(y, NArr) for y in xs):
                return Stack(parts(it, x), False)
            return old.fn(it, x, *a, **k)
        return f

    for k in ("array", "asarray", "atleast_2d", "vstack"):
        np[k] = Builtin(k, rows(np.get(k, Builtin(k, no_stack))))
    np["column_stack"] = Builtin("column_stack", lambda it, x: Stack(parts(it, x), True))
    np["transpose"] = Builtin("transpose", lambda it, x: rows(None)(it, x).getattr(it, "T"))

    def stack(it, x, axis=0):
        if axis not in (0, 1, -1):
            raise Unsupported("stack")
        return Stack(parts(it, x), axis != 0)

    np["stack"] = Builtin("stack", stack)


SHAPES = {
    # parameters (region, name, type, unit or value); names and units of scalars are part of the name of a column
    "a region": [((), ("A",), "POINT_TIMESERIES"), ((), ("B",), "AVERAGE_TIMESERIES")],
    "one parameter": [((), ("A",), "AVERAGE_TIMESERIES")],
    "hierarchies": [
        ((), ("E", "CO2", "Fossil"), "POINT_TIMESERIES"), ((), ("E", "CO2", "AFOLU"), "AVERAGE_TIMESERIES"), ((), ("E", "CH4"), "AVERAGE_TIMESERIES"), ((), ("C",), "POINT_TIMESERIES"),
        (("R",), ("E", "CO2"), "AVERAGE_TIMESERIES"), (("R", "S"), ("E", "CO2"), "POINT_TIMESERIES"), (("R", "S"), ("E", "N"), "POINT_TIMESERIES"), (("Q",), ("C",), "POINT_TIMESERIES"),
    ],
    "metadata": [
        ((), ("model",), "GENERIC"), ((), ("E", "CO2"), "POINT_TIMESERIES"), ((), ("note",), "GENERIC"), ((), ("ECS",), "SCALAR", "delta_degC"), ((), ("M", "S"), "SCALAR", "W/m^2"),
        ((), ("M", "source"), "GENERIC"), (("R",), ("E", "CO2"), "AVERAGE_TIMESERIES"), ((), ("climate_model",), "GENERIC"), ((), ("F",), "POINT_TIMESERIES"),
    ],
    "scenario": [((), ("scenario",), "GENERIC"), (("R",), ("A",), "AVERAGE_TIMESERIES")],
    "text in a region": [((), ("A",), "POINT_TIMESERIES"), (("R",), ("note",), "GENERIC")],
    "text in a region below": [((), ("note",), "GENERIC"), (("R", "S"), ("note",), "GENERIC"), ((), ("A",), "POINT_TIMESERIES")],
    "scalar in a region": [((), ("A",), "POINT_TIMESERIES"), (("R",), ("ECS",), "SCALAR", "delta_degC")],
}
REFUSED = ("text in a region", "text in a region below", "scalar in a region")


def convert_back(v):
    for title, leaves in SHAPES.items():
        @v.unit("convert_openscm_to_scmdataframe, %s" % title, functions=[CONVERT], contracts=[PS + ".timeseries", PS + ".scalar", PS + ".generic", SCM + "ScmDataFrame"], covers=["refused" if title in REFUSED else "end"])
        def back(it, ctx, leaves=leaves, title=title):
            framem.install(it)
            rem.theory(ctx)
            it.fresh_modules()
            stacks(it)
            it.concrete_while = True
            call = lambda o, m, *a: it.call(it.getattr(o, m), list(a), {})
            PT = it.cls("openscm.core.parameters:ParameterType").members
            ps = it.instantiate(it.cls(PS), [], {})
            root = it.getattr(ps, "_root")
            n, T = ctx.int("times"), z3.Function("time", core.I, core.I)
            ctx.assume(n >= 2)
            i, j = z3.Ints("i!19 j!19")
            ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), T(i) < T(j)), patterns=[z3.MultiPattern(T(i), T(j))]))
            times = NArr("M", n, lambda k: Dt(T(num(k))))
            known = {}
            for leaf in leaves:
                region = root
                for x in leaf[0]:
                    region = call(region, "get_or_create_subregion", x)
                p = call(region, "get_or_create_parameter", leaf[1][0])
                for x in leaf[1][1:]:
                    p = call(p, "get_or_create_child_parameter", x)
                u = leaf[3] if len(leaf) > 3 else SStr(ctx.fresh("unit", core.Str)) if leaf[2] != "GENERIC" else None
                p.f["parameter_type"], p.f["unit"] = PT[leaf[2]], u
                known[(("World",) + leaf[0], leaf[1])] = (leaf[2], u, z3.Function("values of %s %s" % ("|".join(leaf[0]), "|".join(leaf[1])), core.I, z3.RealSort()), ctx.int("value"))
            views = []

            def names(x):
                x = tuple(it.concrete_items(x)) if not isinstance(x, str) else (x,)
                if not all(isinstance(y, str) for y in x):
                    raise Unsupported("names %r" % (x,))
                return x

            class View(Ext):
                name = "view"

                def __init__(self, attr, x):
                    self.attr, self.x = attr, x

                def getattr(self, it, name):
                    if name != self.attr:
                        raise Unsupported("view." + name)
                    return self.x

            def find(name, region, kind):
                k = (names(region), names(name))
                if k not in known or known[k][0] != kind:
                    ctx.fail("asks for the parameters there are", "%s %s" % (kind, k))
                    raise Unsupported("another parameter")
                return known[k]

            def timeseries(it, self, name, unit, time_points, region=("World",), timeseries_type=None, interpolation=None, extrapolation=None):
                if timeseries_type is None or isinstance(timeseries_type, str):
                    timeseries_type = {None: PT["POINT_TIMESERIES"], "point": PT["POINT_TIMESERIES"], "average": PT["AVERAGE_TIMESERIES"]}[timeseries_type]
                avg = timeseries_type is PT["AVERAGE_TIMESERIES"]
                _, u, V, _ = find(name, region, "AVERAGE_TIMESERIES" if avg else "POINT_TIMESERIES")
                t = npm.as_array(it, time_points)
                if t.kind != "M":
                    raise Unsupported("kind of times")
                tf = t.fnow()
                ctx.oblige("the unit of the parameter", sbool(it.eq(unit, u)))
                ctx.oblige("the times asked for", z3.And(num(t.length) == (n + 1 if avg else n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), num(tf(i).e) == T(i)))))
                if avg:
                    ctx.oblige("a last period as long as the one before", num(tf(n).e) == 2 * T(n - 1) - T(n - 2))
                a = NArr("f", n, lambda k: V(num(k)))
                a.of = (names(region), names(name))
                return View("values", a)

            def scalar(it, self, name, unit, region=("World",)):
                _, u, _, x = find(name, region, "SCALAR")
                ctx.oblige("the unit of the scalar", sbool(it.eq(unit, u)))
                return View("value", x)

            def generic(it, self, name, region=("World",)):
                return View("value", find(name, region, "GENERIC")[3])

            it.contracts[PS + ".timeseries"] = FnContract(timeseries)
            it.contracts[PS + ".scalar"] = FnContract(scalar)
            it.contracts[PS + ".generic"] = FnContract(generic)
            it.contracts[SCM + "ScmDataFrame"] = FnContract(lambda it, data, index=None, columns=None: Made(data, index, columns))
            given = {k: SStr(ctx.fresh(k, core.Str)) for k in ("model", "scenario", "climate_model")}
            defaults = ctx.choose(2) == 0
            r, e = attempt(it, lambda: it.call(it.resolve(CONVERT), [ps, times], {} if defaults else dict(given)))
            if e is not None:
                ctx.cover("refused")
                ctx.oblige("refused with a ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                ctx.oblige("refused only for metadata of another region", z3.BoolVal(title in REFUSED))
                return
            ctx.cover("end")
            ctx.oblige("metadata of another region are refused", z3.BoolVal(title not in REFUSED))
            if title in REFUSED:
                return
            if not isinstance(r, Made) or not isinstance(r.columns, PyDict) or not isinstance(r.data, Stack) or not r.data.columns:
                raise Unsupported("another result")
            series = [(k, x) for k, x in known.items() if x[0].endswith("TIMESERIES")]
            cols = {k: it.concrete_items(x) for k, x in r.columns.items.items()}
            xs = r.data.parts_
            same_names = lambda ks: ctx.oblige("one column for each of the timeseries", z3.BoolVal(len(xs) == len(series) and ks and sorted(getattr(a, "of", ()) for a in xs) == sorted(k for k, _ in series)))
            same_names(True)
            if len(xs) != len(series):
                return
            ctx.oblige("the times", z3.And(num(npm.as_array(it, r.index).length) == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), num(npm.as_array(it, r.index).fnow()(i).e) == T(i)))))
            for what in ("variable", "region", "unit", "parameter_type"):
                ctx.oblige("a %s for each timeseries" % what, z3.BoolVal(len(cols.get(what, ())) == len(xs)))
                if len(cols.get(what, ())) != len(xs):
                    return
            t = ctx.int("t")
            ctx.assume(z3.And(t >= 0, t < n))
            for c, a in enumerate(xs):
                region, name = a.of
                kind, u, V, _ = known[a.of]
                want = {"variable": "|".join(name), "region": "|".join(region), "unit": u, "parameter_type": {"A": "average", "P": "point"}[kind[0]]}
                for what, x in want.items():
                    ctx.oblige("the %s of each timeseries" % what, sbool(it.eq(cols[what][c], x)))
                ctx.oblige("the values of each timeseries", z3.And(num(a.length) == n, real(a.at(t)) == V(t)))
            meta = {k: ("unspecified" if defaults else given[k]) for k in given}
            for (region, name), (kind, u, _, x) in known.items():
                if kind == "GENERIC":
                    meta["|".join(name)] = x
                elif kind == "SCALAR":
                    meta["%s (%s)" % ("|".join(name), u)] = x
            further = {k: x for k, x in cols.items() if k not in MINE}
            ctx.oblige("the metadata there are", z3.BoolVal(sorted(further) == sorted(meta)))
            for k in set(further) & set(meta):
                ctx.oblige("one value for all timeseries", z3.BoolVal(len(further[k]) == 1))
                ctx.oblige("the values of metadata", sbool(it.eq(further[k][0], meta[k])))


def build(v):
    convert_back(v)
    v.trust("pandas: rows of metadata, drop, drop_duplicates, squeeze, columns of a table: contract in pyvc/framem.py; labels of timeseries are distinct (C16, C20, C23)")
    v.assume("views of parameter sets write what they are given to the parameter of the names, unit, type and times they were made with: C01, C03, C05; reading on the same times gives it back: C05, C09, C10")
    v.assume("at least three times and one timeseries, no missing values; variable, region and unit are texts, the parameter type (where given) \"average\" or \"point\"")

    for typed in (False, True):
        @v.unit("to_parameterset%s" % (", types given" if typed else ""), functions=[BASE + ".to_parameterset"], contracts=[PS + ".timeseries", PS + ".scalar", PS + ".generic", PS + ".__init__", GUESS, fs.TP + ".values"], covers=["end", "refused"])
        def to_set(it, ctx, typed=typed):
            framem.install(it)
            rem.theory(ctx)
            it.fresh_modules()
            for x in ("average", "point"):
                ctx.assume(LOWER(lit(x)) == lit(x))
            further = [["model", "scenario"], ["model", "scenario", "climate_model"], ["model", "scenario", "run", "Climate Sensitivity (delta_degC)", "a (b) c"]][ctx.choose(3)]
            names = further + ["variable", "region", "unit"] + (["parameter_type"] if typed else [])
            text = (0, 0)
            o, b = frame(it, ctx, names, missing=False, kinds={k: text for k in MINE})
            ctx.assume(z3.And(b.nt >= 3, b.nc >= 1))
            if typed:
                q = z3.Int("q!type")
                P = b.meta["parameter_type"]
                ctx.assume(z3.ForAll([q], z3.Or(P(q).text == lit("average"), P(q).text == lit("point")), patterns=[P(q).text]))
            log, notes = PyList([]), PyList([])
            the_set(it, ctx, log, notes)
            given = Obj(it.cls(PS)) if ctx.choose(2) else None
            r, e = attempt(it, lambda: it.call(it.getattr(o, "to_parameterset"), [] if given is None else [given], {}))
            i, j = z3.Ints("i!c19 j!c19")
            same = lambda x, y: z3.And(*[same_cell(b.meta[k](x), b.meta[k](y)) for k in further])
            x, y = ctx.int("x"), ctx.int("y")
            inr = lambda z: z3.And(z >= 0, z < b.nc)
            model = b.meta["climate_model"](z3.IntVal(0)) if "climate_model" in further else None
            is_input = z3.BoolVal(True) if model is None else z3.And(num(model.kind) == 0, model.text == lit("unspecified"))
            if e is not None:
                ctx.cover("refused")
                ctx.oblige("refused with a ValueError", z3.BoolVal(exc_name(e) == "ValueError"))
                ctx.oblige("refused only for different metadata or output of a model", z3.Not(z3.And(is_input, z3.ForAll([i], z3.Implies(inr(i), same(i, z3.IntVal(0)))))))
                ctx.oblige("nothing is written when refused", z3.And(num(log.value().length) == 0, num(notes.value().length) == 0))
                return
            ctx.cover("end")
            ctx.assume(z3.And(inr(x), inr(y)))
            ctx.oblige("different metadata are refused", same(x, y))
            ctx.oblige("output of a model is refused", is_input)
            ctx.oblige("the parameter set given", z3.BoolVal(r is given if given is not None else isinstance(r, Obj) and r.cls is it.cls(PS)))
            t, c = fs.cell_of(ctx, b)
            s = log.value()
            ctx.oblige("each timeseries is written once", num(s.length) == b.nc)
            w = s.get(c)
            if not isinstance(w, Entry):
                raise Unsupported("another record of the values written")
            for what, got in (("variable", w.name_), ("region", w.region), ("unit", w.unit)):
                ctx.oblige("its %s" % what, same_cell(got, b.meta[what](c)))
            avg = b.meta["parameter_type"](c).text == lit("average") if typed else AVERAGE(b.meta["variable"](c).text, b.meta["unit"](c).text)
            ctx.oblige("its type", w.avg == avg)
            ctx.oblige("its values", z3.And(w.vn == b.nt, w.vf(t) == b.V(t, c)))
            ctx.oblige("its times", z3.And(w.tn == z3.If(avg, b.nt + 1, b.nt), w.tf(t) == b.T(t)))
            ctx.oblige("a last period as long as the one before", z3.Implies(avg, w.tf(b.nt) == 2 * b.T(b.nt - 1) - b.T(b.nt - 2)))
            # further metadata
            items = it.concrete_items(notes)
            want = {k: ("scalar", k.split("(")[0].strip(), k.split("(")[1].split(")")[0].strip()) if "(" in k and ")" in k.split("(", 1)[1] else ("generic", k, None) for k in further}
            if items is None:
                raise Unsupported("another record of the metadata written")
            ctx.oblige("each of the further metadata is written once", z3.BoolVal(sorted(str(z[:3]) for z in items) == sorted(str(z) for z in want.values()) and all(z[3] == ("World",) for z in items)))
            for z in items:
                ks = [k for k, q in want.items() if q == z[:3]]
                if len(ks) == 1:
                    ctx.oblige("further metadata (%s)" % ks[0], same_cell(cell(z[4]), b.meta[ks[0]](c)))
            fs.unchanged(ctx, b, t, c)
