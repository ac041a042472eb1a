"""C24: files written and read back give the same data frame."""
import z3

from pyvc import core, dtm, pyamm, tablem, widem
from pyvc.core import Builtin, Ext, ExtModule, Obj, PyList, SStr, Unsupported, num
from pyvc.framem import same_cell
from pyvc.speclib import attempt, exc_name

import specs.c22 as c22
import specs.c23 as c23
import specs.framespec as fs
from specs.framespec import BASE

DF = "openscm.scmdataframe.base:"
COMPAT = "openscm.scmdataframe.pyam_compat:LongDatetimeIamDataFrame"


class Handed(Ext):
    """What pandas made of a file."""

    name = "DataFrame"

    def __init__(self, how, path, args, kw):
        self.how, self.path, self.args, self.kw = how, path, tuple(args), dict(kw)


class Workbook(Ext):
    name = "ExcelFile"

    def __init__(self, path, sheets, read):
        self.path, self.sheets, self.read = path, sheets, read

    def getattr(self, it, name):
        if name == "sheet_names":
            return PyList(None, self.sheets, lambda i: SStr(z3.Function("sheet_name", core.I, core.Str)(num(i))))
        if name == "close":
            return Builtin(name, lambda it: None)
        if name == "parse":
            return Builtin(name, lambda it, *a, **k: self.read(it, self, *a, **k))
        raise Unsupported("ExcelFile." + name)


def files(it, ctx, there, sheets, table=None):
    """Contract of os.path and of the reading functions of pandas; records what is read."""
    log = []

    def isthere(it, p):
        log.append(("exists", p))
        return there

    def read(how):
        def f(it, path, *args, **kw):
            log.append((how, path, args, kw))
            return Handed(how, path, args, kw) if table is None else table.copy()
        return f

    path = ExtModule("os.path", {"exists": Builtin("exists", isthere), "isfile": Builtin("isfile", isthere)})
    it.ext["os"] = ExtModule("os", {"path": path})
    it.ext["os.path"] = path
    at = it.ext["pandas"].attrs
    at["read_csv"] = Builtin("read_csv", read("csv"))
    at["read_excel"] = Builtin("read_excel", read("excel"))
    at["ExcelFile"] = Builtin("ExcelFile", lambda it, p: Workbook(p, sheets, read("excel")))
    it.fresh_modules()
    return log


def a_path(ctx, csv):
    """The path of a file of this kind, any text otherwise."""
    p = SStr(ctx.fresh("path", core.Str))
    ends = z3.Function("str_endswith", core.Str, core.Str, core.B)
    for s in ("csv", ".csv"):
        ctx.assume(ends(p.e, core.lit(s)) if csv else z3.Not(ends(p.e, core.lit(s))))
    ctx.assume(z3.Not(ends(p.e, core.lit("CSV"))))
    return p


def build(v):
    v.trust("pandas.read_csv, read_excel, ExcelFile, os.path.exists: the table in the file")
    v.trust("pyam.IamDataFrame(table).to_csv(path) writes the table: one row per timeseries with its metadata (names capitalised) and its values, times as texts; it formats times by the method _format_datetime_col")
    v.trust("texts written for times are read as these times by dateutil, and numbers written are read as these numbers")
    v.assume("no missing metadata (pyam refuses them); times and timeseries with at least one value (pyam leaves the others out)")

    @v.unit("reading a file", functions=[DF + "_read_pandas"], covers=["csv", "workbook", "not there"])
    def read(it, ctx):
        c23.setup_tables(it)
        csv = ctx.choose(2) == 0
        there = ctx.bool("exists")
        sheets = ctx.int("sheets")
        ctx.assume(sheets >= 1)
        log = files(it, ctx, there, sheets)
        p = a_path(ctx, csv)
        args = [[], [3]][ctx.choose(2)]
        kw = [{}, {"header": 2}, {"sheet_name": "x", "header": 2}, {"sheet_name": 0}][ctx.choose(4)]
        r, e = attempt(it, lambda: it.call(it.cls(DF + "_read_pandas"), [p] + args, dict(kw)))
        if e is not None:
            ctx.cover("not there")
            ctx.oblige("OSError only if there is no such file", z3.And(z3.BoolVal(exc_name(e) in ("OSError", "FileNotFoundError", "IOError")), z3.Not(there)))
            return
        ctx.oblige("a missing file is reported", there)
        ctx.oblige("what pandas reads from the file", z3.BoolVal(isinstance(r, Handed) and isinstance(r.path, SStr) and r.path.e.eq(p.e) or isinstance(r, Handed) and isinstance(r.path, Workbook) and r.path.path.e.eq(p.e)))
        if not isinstance(r, Handed):
            return
        if csv:
            ctx.cover("csv")
            ctx.oblige("csv files are read as such", z3.BoolVal(r.how == "csv"))
            ctx.oblige("with exactly the options given", z3.BoolVal(list(r.args) == args and r.kw == kw))
        else:
            ctx.cover("workbook")
            ctx.oblige("other files are read as workbooks", z3.BoolVal(r.how == "excel"))
            rest = {k: x for k, x in r.kw.items() if k != "sheet_name"}
            ctx.oblige("with the options given", z3.BoolVal(list(r.args) == args and rest == {k: x for k, x in kw.items() if k != "sheet_name"}))
            s = r.kw.get("sheet_name")
            if "sheet_name" in kw:
                ctx.oblige("the sheet asked for", z3.BoolVal(s == kw["sheet_name"]))
            else:
                ctx.oblige("one of several sheets: the data", sheets > 1 if s == "data" else z3.And(sheets <= 1, z3.BoolVal(s is None or s == 0)))

    for what, kinds in (("times", ["dates"]), ("years", ["years"])):
        @v.unit("a frame from a file (%s)" % what, functions=[BASE + ".__init__", DF + "_read_file", DF + "_read_pandas", DF + "_format_data", DF + "_format_wide_data"], contracts=[fs.TP + ".__init__", fs.TP + ".to_index"], covers=["end", "refused"])
        def from_file(it, ctx, kinds=kinds):
            def via(it, ctx, src):
                ctx.ghost["reads"] = files(it, ctx, True, ctx.int("sheets"), src)
                fs.time_points(it)
                ctx.ghost["path"] = a_path(ctx, True)
                ctx.ghost["options"] = [{}, {"header": 2}][ctx.choose(2)]
                return [ctx.ghost["path"]], dict(ctx.ghost["options"])

            c23.wide(it, ctx, kinds, via)
            got = [x for x in ctx.ghost["reads"] if x[0] != "exists"]
            ctx.oblige("one file is read, the one named", z3.BoolVal(len(got) == 1 and isinstance(got[0][1], SStr) and got[0][1].e.eq(ctx.ghost["path"].e)))
            if len(got) == 1:
                ctx.oblige("with exactly the options given", z3.BoolVal(not got[0][2] and got[0][3] == ctx.ghost["options"]))

    @v.unit("writing a file", functions=[BASE + ".to_csv", BASE + ".to_iamdataframe", BASE + ".timeseries"], covers=["end", "refused"])
    def write(it, ctx):
        c22.setup(it)
        made = []
        it.ext["pyam"] = ExtModule("pyam", {"IamDataFrame": pyamm.Pyam(made)})
        it.fresh_modules()
        o, b = fs.frame(it, ctx, fs.REQUIRED + [[], ["extra"]][ctx.choose(2)])
        p = SStr(ctx.fresh("path", core.Str))
        kw = [{}, {"sep": ";"}][ctx.choose(2)]
        r, e = attempt(it, lambda: it.call(it.getattr(o, "to_csv"), [p], dict(kw)))
        t, c = fs.cell_of(ctx, b)
        fs.unchanged(ctx, b, t, c, "the frame")
        if e is not None:
            ctx.cover("refused")
            ctx.oblige("refused only for timeseries of the same metadata", z3.And(z3.BoolVal(exc_name(e) == "ValueError"), c22.twins(b, list(b.meta))))
            return
        ctx.cover("end")
        ctx.oblige("one file is written", z3.BoolVal(len(made) == 1 and len(made[0].files) == 1))
        if len(made) != 1 or len(made[0].files) != 1:
            return
        w = made[0]
        a, k = w.files[0]
        ctx.oblige("to the path given, with the options given", z3.BoolVal(len(a) == 1 and isinstance(a[0], SStr) and a[0].e.eq(p.e) and k == kw))
        ctx.oblige("all times are possible", z3.BoolVal(w.cls is not None and w.cls.find("_format_datetime_col")[0] is not None))
        given = list(w.args) + list(w.kw.values())
        if len(given) != 1 or set(w.kw) - {"data"}:
            raise Unsupported("other data for pyam")
        x = given[0]
        if not isinstance(x, widem.WideM) or x.index is None or x.cols:
            raise Unsupported("a table in another form for pyam")
        ctx.oblige("all metadata", z3.BoolVal(set(x.index.cells) == set(b.meta)))
        if set(x.index.cells) != set(b.meta):
            return
        ctx.oblige("all timeseries and times", z3.And(num(x.rows.n) == b.nc, num(x.times.n) == b.nt))
        ctx.oblige("the values with their metadata and times", z3.And(x.val(c, t) == b.V(t, c), x.nan(c, t) == b.nan(t, c), num(x.times.label(t).e) == b.T(t), *[same_cell(x.index.cells[m](c), f(c)) for m, f in b.meta.items()]))

    @v.unit("times for pyam", functions=[COMPAT + "._format_datetime_col"], covers=["times", "texts"])
    def times(it, ctx):
        c23.setup_tables(it)
        it.ext["pyam"] = ExtModule("pyam", {"IamDataFrame": pyamm.Pyam([])})
        it.fresh_modules()
        n, rows = c23.user_rows(ctx)
        kind = ["times", "texts"][ctx.choose(2)]
        T = z3.Function("when", core.I, core.I)
        X = z3.Function("text", core.I, core.Str)
        other = tablem.Col("float", lambda i: (z3.ToReal(num(i)), z3.BoolVal(False)))
        text = lambda i: (ctx.assume(z3.Implies(z3.And(num(i) >= 0, num(i) < n), dtm.IS_DATE(X(num(i))))), SStr(X(num(i))))[1]
        col = tablem.Col("time", lambda i: dtm.PyDt(T(num(i)))) if kind == "times" else tablem.Col("text", text)
        o = Obj(it.cls(COMPAT))
        o.f["data"] = d = tablem.TableM(rows, {"time": col, "value": other})
        r, e = attempt(it, lambda: it.call(it.getattr(o, "_format_datetime_col"), [], {}))
        i = ctx.int("i")
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.oblige("times are accepted", z3.BoolVal(e is None))
        if e is not None:
            return
        ctx.cover(kind)
        t = o.f["data"]
        ok = isinstance(t, tablem.TableM) and set(t.cols) == {"time", "value"} and t.cols["value"] is other and t.rows is rows
        ctx.oblige("the other data are unchanged", z3.BoolVal(ok))
        if not ok:
            return
        got = t.cols["time"].get(i)
        ctx.oblige("times", z3.BoolVal(isinstance(got, dtm.PyDt)))
        if isinstance(got, dtm.PyDt):
            ctx.oblige("each row keeps its time", num(got.e) == (T(i) if kind == "times" else dtm.DATE_IN(X(i))))
