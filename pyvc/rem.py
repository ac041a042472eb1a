"""
Contract of `re`, of text used as a filter pattern, and of a pandas Series of metadata.

A pattern is an arbitrary text.  What code makes of it before compiling it (re.escape,
str.replace, concatenation ...) is tracked as a map from characters to texts; that the
regular expression so made matches what the pattern says ("*" any text, every other character
itself) is decided character by character over all of Unicode (RegexForm.verdict), by cases.
If that fails, a counterexample is looked for with the real `re`.
"""
import itertools
import re
import sys

import z3

from . import core, npm
from .core import Builtin, EnumMember, Ext, ExtModule, Mut, Obj, PyList, SStr, Str, TypeVal, Unsupported, is_num, is_z3, ite, lit, num, real, sbool, sstr, subst
from .npm import NArr

B = z3.BoolSort()
MATCH = z3.Function("pattern_matches", Str, Str, B)  # pattern, text: "*" any text, all else itself
HASSTAR = z3.Function("has_star", Str, B)
REMOVE = z3.Function("remove_first", Str, Str, Str)  # text without the first occurrence of (pattern without "*")
REMOVEALL = z3.Function("remove_all", Str, Str, Str)
COUNT = z3.Function("count", Str, Str, core.I)  # separator, text
RAW = {m: z3.Function("re_" + m, Str, Str, B) for m in ("match", "fullmatch", "search")}  # the text itself as regular expression
OTHERM = z3.Function("some_other_match", core.I, Str, Str, B)


def theory(ctx):
    s, m = z3.Const("s!match", Str), z3.Const("m!match", Str)
    hs = z3.Implies(z3.Not(HASSTAR(s)), MATCH(s, m) == (s == m))
    ctx.assume(z3.ForAll([s, m], z3.And(hs, z3.Implies(s == m, MATCH(s, m))), patterns=[MATCH(s, m)]))
    ctx.assume(z3.And(HASSTAR(lit("*")), z3.Not(HASSTAR(lit("")))))
    ctx.assume(z3.ForAll([m], MATCH(lit("*"), m), patterns=[MATCH(lit("*"), m)]))


# ------------------------------------------------------------------ regular expression forms

META = set(".^$*+?{[\\|()")


def reference(s, m):
    """Does pattern s match text m (no line breaks)?"""
    parts = s.split("*")
    if len(parts) == 1:
        return s == m
    if not m.startswith(parts[0]) or not m[len(parts[0]):].endswith(parts[-1]) or len(m) < len(parts[0]) + len(parts[-1]):
        return False
    pos, end = len(parts[0]), len(m) - len(parts[-1])
    for p in parts[1:-1]:
        q = m.find(p, pos, end)
        if q < 0:
            return False
        pos = q + len(p)
    return True


_verdicts = {}


class Form:
    """What was made of the pattern: prefix + (character by character) + suffix."""

    def __init__(self, ops=(), prefix="", suffix="", hom=True):
        self.ops, self.prefix, self.suffix, self.hom = tuple(ops), prefix, suffix, hom

    def key(self):
        return (self.ops, self.prefix, self.suffix)

    def wrap(self, a, b):
        return Form(self.ops, a + self.prefix, self.suffix + b)

    def apply(self, s):
        """The text made of the concrete pattern s."""
        for op in self.ops:
            s = run_op(op, s)
        return self.prefix + s + self.suffix

    def body(self, s):
        for op in self.ops:
            s = run_op(op, s)
        return s

    def then(self, op):
        if self.prefix or self.suffix:
            p, q = run_op(op, self.prefix), run_op(op, self.suffix)
        else:
            p = q = ""
        f = Form(self.ops + (op,), p, q)
        if op[0] == "replace" and len(op[1]) > 1:
            if len(op[1]) != 2:
                raise Unsupported("replace of %r in a pattern" % (op[1],))
            frags = [x for x in (self.prefix, self.suffix) if x] + [self.body(chr(c)) for c in INTERESTING]
            a, b = op[1]
            # an occurrence across two characters' texts; empty texts make any two adjacent
            if any(x.endswith(a) for x in frags) and any(y.startswith(b) for y in frags):
                raise Unsupported("replace across characters")
        return f


INTERESTING = sorted(set(range(0, 256)) | {0x2028, 0x3B1, 0x1F600})


def run_op(op, s):
    k = op[0]
    if k == "escape":
        return re.escape(s)
    if k == "replace":
        return s.replace(op[1], op[2])
    if k in ("lower", "upper", "casefold"):
        return getattr(s, k)()
    raise Unsupported(k)


def parse(frag):
    try:
        from re import _parser as sre_parse
    except ImportError:
        import sre_parse
    try:
        return list(sre_parse.parse(frag))
    except re.error:
        return None


def is_any(frag):
    """frag stands for any text without line breaks."""
    return frag in (".*", "(.*)", "(?:.*)", ".*?", "(.*?)", "(?:.*?)", "[^\\n]*")


def verdict(form, mode, flags):
    """True: matches what the pattern says; (s, m, got): a counterexample; None: unknown."""
    key = (form.key(), mode, int(flags))
    if key not in _verdicts:
        _verdicts[key] = _verdict(form, mode, flags)
    return _verdicts[key]


def _verdict(form, mode, flags):
    pre, suf = form.prefix, form.suffix
    start = mode in ("match", "fullmatch") or pre in ("^", "\\A")
    end = mode == "fullmatch" or suf in ("$", "\\Z")
    ok = start and end and pre in ("", "^", "\\A") and suf in ("", "$", "\\Z") and not int(flags) & ~int(re.DOTALL | re.UNICODE)
    if ok:
        ok = all(fragment_ok(chr(c), form.body(chr(c))) for c in range(sys.maxunicode + 1))
    if ok:
        return True
    return counterexample(form, mode, flags)


def fragment_ok(c, frag):
    if c == "*":
        return is_any(frag)
    if frag == c:
        return c not in META
    if len(frag) == 2 and frag[0] == "\\" and frag[1] == c:
        return not (c.isalnum() or c == "_")
    if frag == "[%s]" % c:
        return c not in "^\\]["
    return False


def counterexample(form, mode, flags):
    letters = "aAb.*+|([$^\\ -?{é"
    pats = [""] + ["".join(x) for k in (1, 2, 3) for x in itertools.product(letters, repeat=k) if k < 3 or "*" in x]
    for s in pats:
        try:
            r = re.compile(form.apply(s), flags)
        except re.error as e:
            return (s, "", "error: %s" % e)
        cand = {s, s.replace("*", ""), s.replace("*", "b"), s.replace("*", "x.y"), s + "a", "a" + s, s[1:], s[:-1], s.lower(), s.upper(), s.swapcase(), s.replace(".", "a"), s.replace("a", "b"), s.replace("|", ""), "", "a", "b", "ab", s.replace("*", "|"), s.replace("*", "a|b")}
        for m in sorted(cand):
            got = bool(getattr(r, mode)(m))
            if got != reference(s, m):
                return (s, m, got)
    return None


# ------------------------------------------------------------------ values


class Pat(Ext):
    """An arbitrary pattern text (or what was made of it)."""

    name = "str"

    def __init__(self, e, form=None):
        self.e, self.form = e, form or Form()

    def plain(self):
        return not self.form.ops and not self.form.prefix and not self.form.suffix

    def exprs(self):
        return [self.e]

    def subst(self, pairs):
        return Pat(subst(self.e, pairs), self.form)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("str", "Iterable", "Sequence", "object", "Hashable")

    def to_str(self, it):
        return self

    def type_of(self, it):
        return it.builtins["str"]

    def eq(self, it, o):
        if not self.plain():
            raise Unsupported("comparison of a regular expression")
        if isinstance(o, (str, SStr)):
            return self.e == sstr(o)
        if isinstance(o, Pat):
            return self.e == o.e
        if isinstance(o, Cell):
            return o.eq(it, self)
        return False

    def binop(self, it, op, a, b):
        if op == "Add" and isinstance(a, Pat) and isinstance(b, str):
            return Pat(self.e, self.form.wrap("", b))
        if op == "Add" and isinstance(a, str) and isinstance(b, Pat):
            return Pat(self.e, self.form.wrap(a, ""))
        if op == "Mod":
            raise Unsupported("% on a pattern")
        raise Unsupported("operator %s on a pattern" % op)

    def fmt(self, it, parts):
        """A format string around this text."""
        if sum(1 for p in parts if not isinstance(p, str)) != 1:
            return None
        i = [k for k, p in enumerate(parts) if p is self][0]
        return Pat(self.e, self.form.wrap("".join(parts[:i]), "".join(parts[i + 1:])))

    def contains(self, it, x):
        if x == "*" and self.plain():
            return HASSTAR(self.e)
        raise Unsupported("substring test on a pattern")

    def getattr(self, it, name):
        if name == "replace":
            def replace(it, a, b, n=-1):
                if not (isinstance(a, str) and isinstance(b, str) and n == -1 and a):
                    raise Unsupported("replace on a pattern")
                return Pat(self.e, self.form.then(("replace", a, b)))
            return Builtin(name, replace)
        if name in ("lower", "upper", "casefold"):
            return Builtin(name, lambda it: Pat(self.e, self.form.then((name,))))
        if name == "split":
            def split(it, sep):
                if sep != "*" or not self.plain():
                    raise Unsupported("split of a pattern")
                return Pieces(self.e, Form())
            return Builtin(name, split)
        raise Unsupported("str.%s on a pattern" % name)


class Pieces(Ext):
    """The pieces of a pattern between its "*"."""

    name = "list"

    def __init__(self, e, form):
        self.e, self.form = e, form

    def comp1(self, it, f):
        """[f(p) for p in pieces] where f acts character by character."""
        p = Pat(self.e, self.form)
        r = f(p)
        if not isinstance(r, Pat) or r.e is not self.e or r.form.prefix or r.form.suffix:
            raise Unsupported("pieces of a pattern")
        return Pieces(self.e, r.form)

    def joined(self, it, sep):
        ops = self.form.ops
        if any(o[0] == "replace" and "*" in o[1] for o in ops):
            raise Unsupported("pieces of a pattern")
        return Pat(self.e, JoinForm(ops, sep))


class JoinForm(Form):
    def __init__(self, ops, sep, prefix="", suffix=""):
        Form.__init__(self, ops, prefix, suffix)
        self.sep = sep

    def key(self):
        return (self.ops, self.prefix, self.suffix, "join", self.sep)

    def wrap(self, a, b):
        return JoinForm(self.ops, self.sep, a + self.prefix, self.suffix + b)

    def body(self, s):
        return self.sep.join(Form.body(self, p) for p in s.split("*"))

    def apply(self, s):
        return self.prefix + self.body(s) + self.suffix

    def then(self, op):
        raise Unsupported("text of a joined pattern")


class Cell(Ext):
    """A metadata value: text (0), missing (1) or a number (2)."""

    name = "cell"

    def __init__(self, kind, text, val):
        self.kind, self.text, self.val = kind, text, val

    def exprs(self):
        return [x for x in (self.kind, self.text, self.val) if is_z3(x)]

    def subst(self, pairs):
        return Cell(subst(self.kind, pairs), subst(self.text, pairs), subst(self.val, pairs))

    def merge(self, c, b):
        if isinstance(b, (str, SStr)):
            b = Cell(z3.IntVal(0), sstr(b), z3.RealVal(0))
        elif b is None or b is core.NAN:
            b = Cell(z3.IntVal(1), lit(""), z3.RealVal(0))
        return Cell(ite(c, self.kind, b.kind), ite(c, self.text, b.text), ite(c, self.val, b.val))

    def is_text(self, it):
        return it.truth(num(self.kind) == 0)

    def isinstance_of(self, it, c):
        n = getattr(c, "name", "").split(".")[-1]
        if n in ("str",):
            return self.is_text(it)
        if n in ("float", "Number", "Real"):
            return not self.is_text(it)
        if n == "object":
            return True
        raise Unsupported("isinstance(cell, %s)" % n)

    def isnan(self, it):
        if self.is_text(it):
            it.throw("TypeError", "ufunc 'isnan' not supported for the input types")
        return num(self.kind) == 1

    def isnull(self, it):
        return num(self.kind) == 1

    def eq(self, it, o):
        if isinstance(o, Cell):
            return z3.Or(z3.And(num(self.kind) == 0, num(o.kind) == 0, self.text == o.text), z3.And(num(self.kind) == 2, num(o.kind) == 2, self.val == o.val))
        if isinstance(o, Pat):
            if not o.plain():
                raise Unsupported("comparison with a regular expression")
            return z3.And(num(self.kind) == 0, self.text == o.e)
        if isinstance(o, (str, SStr)):
            return z3.And(num(self.kind) == 0, self.text == sstr(o))
        if is_num(o):
            return z3.And(num(self.kind) == 2, self.val == real(o))
        if o is None or isinstance(o, (Obj, EnumMember)):
            return False
        raise Unsupported("comparison of a cell with %r" % (o,))

    def compare(self, it, op, a, b):
        if op in ("Eq", "NotEq"):
            r = self.eq(it, b if a is self else a)
            return r if op == "Eq" else z3.Not(sbool(r))
        raise Unsupported("comparison of cells")

    def to_str(self, it):
        if self.is_text(it):
            return self
        raise Unsupported("str of a number")

    def as_text(self, it):
        if self.is_text(it):
            return SStr(self.text)
        if it.truth(num(self.kind) == 1):
            return SStr(lit("nan"))
        return SStr(z3.Function("str_of_number", z3.RealSort(), core.Str)(self.val))

    def binop(self, it, op, a, b):
        if op == "Add":
            for x in (a, b):
                if isinstance(x, Cell) and not x.is_text(it):
                    it.throw("TypeError", "unsupported operand")
            txt = lambda x: SStr(x.text) if isinstance(x, Cell) else x
            return it.binop(op, txt(a), txt(b))
        raise Unsupported("operator on a cell")

    def need_text(self, it):
        if not self.is_text(it):
            it.throw("AttributeError", "no text")

    def getattr(self, it, name):
        self.need_text(it)
        return TextOps(self.text).getattr(it, name)

    def contains(self, it, x):
        raise Unsupported("substring test on a cell")


def starless(form):
    """Is this the pattern without its stars?"""
    if form.prefix or form.suffix:
        return False
    key = ("starless", form.key())
    if key not in _verdicts:
        _verdicts[key] = all(form.body(chr(c)) == ("" if c == 42 else chr(c)) for c in range(sys.maxunicode + 1))
    return _verdicts[key]


class TextOps(Ext):
    """Text derived from a cell."""

    name = "str"

    def __init__(self, e):
        self.e = e

    def exprs(self):
        return [self.e]

    def subst(self, pairs):
        return TextOps(subst(self.e, pairs))

    def merge(self, c, b):
        return TextOps(ite(c, self.e, b.e))

    def getattr(self, it, name):
        if name == "replace":
            def replace(it, a, b, n=-1):
                if a == "" and b == "" or a == b:
                    return TextOps(self.e)
                if not isinstance(a, Pat) or b != "" or not (n == 1 or n == -1):
                    raise Unsupported("replace in a text")
                if not starless(a.form):
                    return TextOps(z3.Function("remove %r %d" % (a.form.key(), n), Str, Str, Str)(self.e, a.e))
                return TextOps((REMOVE if n == 1 else REMOVEALL)(self.e, a.e))
            return Builtin(name, replace)
        if name == "count":
            return Builtin(name, lambda it, sep: COUNT(sstr_of(sep), self.e))
        if name == "split":
            return Builtin(name, lambda it, sep: PyList(None, COUNT(sstr_of(sep), self.e) + 1, _no_items))
        if name == "lower":
            from .builtins import LOWER

            return Builtin(name, lambda it: SStr(LOWER(self.e)))
        raise Unsupported("str.%s on a text" % name)


def _no_items(i):
    raise Unsupported("parts of a text")


def sstr_of(v):
    if isinstance(v, Pat) and v.plain():
        return v.e
    return sstr(v)


class Level(str):
    """unused"""


class LevelStr(Ext):
    """A level "<n>-" or "<n>+": n symbolic, the sign concrete."""

    name = "str"

    def __init__(self, n, sign):
        self.n, self.sign = n, sign

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("str", "Iterable", "Sequence", "object", "Hashable")

    def getitem(self, it, k):
        if k == -1:
            return self.sign
        if isinstance(k, slice) and k.start is None and k.stop == -1 and k.step is None:
            return Digits(self.n)
        raise Unsupported("part of a level")

    def getattr(self, it, name):
        if name == "endswith":
            return Builtin(name, lambda it, x: x == self.sign)
        if name in ("strip", "rstrip", "replace"):
            return Builtin(name, lambda it, x, y="": Digits(self.n) if x == self.sign or (name != "replace" and self.sign in x and set(x) <= set("+-")) else self)
        if name == "split":
            return Builtin(name, lambda it, x: PyList([Digits(self.n), ""]))
        raise Unsupported("str.%s on a level" % name)

    def contains(self, it, x):
        return x == self.sign

    def to_int(self, it):
        it.throw("ValueError", "invalid literal")

    def eq(self, it, o):
        return False

    def to_str(self, it):
        return self


class Digits(Ext):
    name = "str"

    def __init__(self, n):
        self.n = n

    def to_int(self, it):
        return self.n


class Regex(Ext):
    name = "Pattern"

    def __init__(self, pat, flags):
        self.pat, self.flags = pat, flags

    def getattr(self, it, name):
        if name in ("match", "fullmatch", "search"):
            return Builtin("re." + name, lambda it, m: match(it, self.pat, name, self.flags, m))
        if name == "findall":
            return Builtin("re.findall", lambda it, m: findall(it, self.pat, m))
        if name == "split":
            return Builtin("re.split", lambda it, m: PyList(None, findall(it, self.pat, m).length + 1, _no_items))
        if name in ("finditer",):
            return Builtin("re.finditer", lambda it, m: findall(it, self.pat, m))
        raise Unsupported("re pattern." + name)


class Found(Ext):
    """A match object."""

    name = "Match"

    def truth(self, it):
        return True


def findall(it, sep, m):
    """All occurrences of an escaped separator."""
    if isinstance(sep, str):
        return PyList(None, z3.Function("found_by " + sep, Str, core.I)(text_of(it, m)), _no_items)
    if not isinstance(sep, Pat) or sep.form.key() != ((("escape",),), "", ""):
        raise Unsupported("findall of another regular expression")
    return PyList(None, COUNT(sep.e, text_of(it, m)), _no_items)


def text_of(it, m):
    if isinstance(m, TextOps):
        return m.e
    if isinstance(m, Cell):
        if not m.is_text(it):
            it.throw("TypeError", "expected string or bytes-like object")
        return m.text
    if isinstance(m, (str, SStr)):
        return sstr(m)
    raise Unsupported("text %r" % (m,))


def match(it, pat, mode, flags, m):
    if isinstance(pat, str) and isinstance(m, str):
        return Found() if getattr(re.compile(pat, flags), mode)(m) else None  # a constant text
    if not isinstance(pat, Pat):
        raise Unsupported("regular expression %r" % (pat,))
    t = text_of(it, m)
    v = verdict(pat.form, mode, flags)
    ctx = it.ctx
    if pat.form.key() == ((), "", "") and flags == 0:
        return Found() if it.truth(RAW[mode](pat.e, t)) else None
    if v is None:
        raise Unsupported("regular expression of another form: %r" % (pat.form.key(),))
    if v is not True:
        s, txt, got = v
        ctx.ghost["pattern"] = v
        n = abs(hash((pat.form.key(), mode))) % 10 ** 6
        f = OTHERM(n, pat.e, t)
    else:
        f = MATCH(pat.e, t)
    return Found() if it.truth(f) else None


# ------------------------------------------------------------------ pandas Series


class BoolSeries(NArr):
    """pandas Series of bool (operators by position)."""

    name = "Series"
    series = True

    def binop(self, it, op, a, b):
        r = npm.elementwise(it, op, a, b)
        return BoolSeries("b", r.length, r.fnow())

    def unop(self, it, op):
        r = NArr.unop(self, it, op)
        return BoolSeries("b", r.length, r.fnow())

    def compare(self, it, op, a, b):
        r = npm.elementwise_cmp(it, op, a, b)
        return BoolSeries("b", r.length, r.fnow())

    def inplace(self, it, op, v):
        return self.binop(it, op, self, v)

    def getattr(self, it, name):
        if name in ("values", "array"):
            return NArr("b", self.length, self.fnow())
        if name in ("to_numpy",):
            return Builtin(name, lambda it: NArr("b", self.length, self.fnow()))
        if name == "copy":
            return Builtin(name, lambda it: BoolSeries("b", self.length, self.fnow()))
        if name == "index":
            return core.Opaque("index")
        return NArr.getattr(self, it, name)

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("Series", "object", "Iterable")

    def subst(self, pairs):
        r = NArr.subst(self, pairs)
        return BoolSeries("b", r.length, r.fn)

    def havoc(self, ctx, nm):
        return BoolSeries("b", self.length, npm.fresh_arr(ctx, nm, "b", self.length).fn)


class Series(Mut, Ext):
    """pandas Series of cells."""

    name = "Series"

    def __init__(self, n, fn, label="column"):
        Mut.__init__(self)
        self.length, self.fn, self.label = n, fn, label

    def at(self, i):
        return self.fn(num(i))

    def as_symlist(self):
        f = self.fn
        return core.SymList(self.length, lambda i: f(num(i)))

    def iterate(self, it):
        return self.as_symlist()

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("Series", "object", "Iterable")

    def exprs(self):
        return []

    def getattr(self, it, name):
        f = self.fn
        if name == "copy":
            return Builtin(name, lambda it, deep=True: Series(self.length, f, self.label))
        if name in ("loc", "iloc"):
            return Loc(self)
        if name == "name":
            return self.label
        if name == "index":
            return Index(self.length)
        if name in ("values", "array"):
            return self
        if name in ("tolist", "to_list"):
            return Builtin(name, lambda it: PyList(None, self.length, lambda i: f(num(i))))
        if name == "isin":
            return Builtin(name, lambda it, xs: isin(it, self, xs))
        if name in ("isnull", "isna"):
            return Builtin(name, lambda it: BoolSeries("b", self.length, lambda i: num(f(num(i)).kind) == 1))
        if name in ("notnull", "notna"):
            return Builtin(name, lambda it: BoolSeries("b", self.length, lambda i: num(f(num(i)).kind) != 1))
        if name == "fillna":
            def fillna(it, v):
                if v != "":
                    raise Unsupported("fillna")
                return Series(self.length, lambda i: fill(num(f(i).kind) == 1, v, f(i)), self.label)
            return Builtin(name, fillna)
        if name in ("apply", "map"):
            def ap(it, g):
                from .interp import Env
                import ast

                env = Env(None, None, it.load("openscm.errors"))
                env.vars.update({"f": g, "a": self})
                out = it.eval(ast.parse("[f(x) for x in a]", mode="eval").body, env)
                x = out.value()
                sample = x.get(z3.Int("i!kind"))
                if not isinstance(sample, (bool, z3.BoolRef)):
                    raise Unsupported("Series.apply")
                return BoolSeries("b", x.length, lambda i: x.get(i))
            return Builtin(name, ap)
        if name == "shape":
            return (self.length,)
        if name == "size":
            return self.length
        raise Unsupported("Series." + name)

    def compare(self, it, op, a, b):
        if op in ("Eq", "NotEq"):
            o = b if a is self else a
            f = self.fn
            g = (lambda i: o.at(i)) if hasattr(o, "at") else (lambda i: o)
            r = lambda i: sbool(f(num(i)).eq(it, g(i)))
            return BoolSeries("b", self.length, r if op == "Eq" else (lambda i: z3.Not(r(i))))
        raise Unsupported("comparison of a Series")

    def eq(self, it, o):
        return self.compare(it, "Eq", self, o)

    def binop(self, it, op, a, b):
        raise Unsupported("operator on a Series")

    def inplace(self, it, op, v):
        raise Unsupported("operator on a Series")

    def getitem(self, it, k):
        if is_num(k):
            return self.at(it.norm_index(k, self.length))
        raise Unsupported("subscript of a Series")

    def setitem(self, it, k, v):
        return Loc(self).setitem(it, k, v)


class Index(Ext):
    name = "Index"

    def __init__(self, n):
        self.n = n

    def iterate(self, it):
        raise Unsupported("index of a Series")


def fill(c, v, old):
    return Cell(ite(c, z3.IntVal(0), num(old.kind)), ite(c, sstr(v), old.text), old.val)


class Loc(Ext):
    name = "loc"

    def __init__(self, s):
        self.s = s

    def setitem(self, it, k, v):
        if not isinstance(v, str):
            raise Unsupported("loc assignment")
        if it.store_recorder is not None:
            raise Unsupported("loc assignment in a loop")
        mask = npm.as_array(it, k) if not isinstance(k, NArr) else k
        g, f = mask.fnow(), self.s.fn
        if not it.ctx.proves(num(mask.length) == num(self.s.length), 2000):
            raise Unsupported("mask of another length")
        self.s.fn = lambda i: fill(sbool(g(i)), v, f(i))

    def getitem(self, it, k):
        if is_num(k):
            return self.s.at(it.norm_index(k, self.s.length))
        raise Unsupported("loc")


def isin(it, s, xs):
    ctx = it.ctx
    f = s.fn
    items = it.concrete_items(xs)
    if items is not None:
        return BoolSeries("b", s.length, lambda i: z3.Or(*[sbool(f(num(i)).eq(it, x)) for x in items]) if items else z3.BoolVal(False))
    seq = it.as_seq(xs)
    nm = str(ctx.fresh("isin", core.I))
    P = z3.Function(nm, core.I, B)
    sk = z3.Function(nm + "!at", core.I, core.I)
    i, j = z3.Ints("i!in j!in")
    m = num(seq.length)
    el = lambda k: sbool(f(k).eq(it, seq.get(k2(k))))
    k2 = lambda k: sk(k)
    n = num(s.length)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, P(i)), z3.And(sk(i) >= 0, sk(i) < m, el(i))), patterns=[P(i)]))
    flt = getattr(xs, "flt", None)
    if flt is not None:
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, i < num(flt.n), sbool(flt.cond(i)), sbool(f(i).eq(it, flt.get(i)))), P(i)), patterns=[P(i)]))
    else:
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, i < m, sbool(f(i).eq(it, seq.get(i)))), P(i)), patterns=[P(i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < m, sbool(f(i).eq(it, seq.get(j)))), P(i)), patterns=[z3.MultiPattern(P(i), num_trigger(seq, j))] if num_trigger(seq, j) is not None else []))
    return BoolSeries("b", s.length, lambda i: P(num(i)))


def num_trigger(seq, j):
    x = seq.get(j)
    t = getattr(x, "text", None)
    return t if t is not None and z3.is_app(t) and t.num_args() > 0 else None


# ------------------------------------------------------------------ names of months and days


class NameStr(Ext):
    """The name of a month or day: its number symbolic, its notation ("%b"/"%B"...) concrete."""

    name = "str"

    def __init__(self, what, code, form):
        self.what, self.code, self.form = what, code, form

    def exprs(self):
        return [self.code] if is_z3(self.code) else []

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("str", "Iterable", "Sequence", "object", "Hashable")

    def contains(self, it, x):
        if x == "-":
            return False
        raise Unsupported("substring test on a name")

    def eq(self, it, o):
        return isinstance(o, NameStr) and o.form == self.form and num(o.code) == num(self.code)

    def to_str(self, it):
        return self

    def getattr(self, it, name):
        if name == "split":
            return Builtin(name, lambda it, sep: PyList([self]))
        if name in ("partition",):
            return Builtin(name, lambda it, sep: (self, "", ""))
        if name in ("strip",):
            return Builtin(name, lambda it: self)
        raise Unsupported("str.%s on a name" % name)


class RangeStr(Ext):
    """Two names with "-" in between."""

    name = "str"

    def __init__(self, a, b):
        self.a, self.b = a, b

    def exprs(self):
        return self.a.exprs() + self.b.exprs()

    def isinstance_of(self, it, c):
        return self.a.isinstance_of(it, c)

    def contains(self, it, x):
        if x == "-":
            return True
        raise Unsupported("substring test on a name")

    def eq(self, it, o):
        return isinstance(o, RangeStr) and sbool(self.a.eq(it, o.a)) and sbool(self.b.eq(it, o.b))

    def to_str(self, it):
        return self

    def getattr(self, it, name):
        if name == "split":
            def split(it, sep, n=-1):
                if sep != "-":
                    raise Unsupported("split of a name")
                return PyList([self.a, self.b])
            return Builtin(name, split)
        if name == "partition":
            return Builtin(name, lambda it, sep: (self.a, sep, self.b))
        if name == "find":
            raise Unsupported("find in a name")
        raise Unsupported("str.%s on a name" % name)


class Struct(Ext):
    name = "struct_time"

    def __init__(self, n):
        self.n = n

    def getattr(self, it, name):
        if name == {"month": "tm_mon", "day": "tm_wday"}[self.n.what]:
            return self.n.code
        if name.startswith("tm_"):
            return {"tm_year": 1900, "tm_mon": 1, "tm_mday": 1, "tm_wday": 0, "tm_yday": 1, "tm_hour": 0, "tm_min": 0, "tm_sec": 0}[name]
        it.throw("AttributeError", name)


def strptime(it, s, code):
    if isinstance(s, RangeStr):
        it.throw("ValueError", "time data does not match format")
    if not isinstance(s, NameStr) or not isinstance(code, str):
        raise Unsupported("strptime(%r)" % (s,))
    if s.form != code:
        it.throw("ValueError", "time data does not match format")
    return Struct(s)


def literal_of(p):
    """The text a constant regular expression stands for, if it is made of literal characters only."""
    try:
        from re import _parser as sre
    except ImportError:
        import sre_parse as sre
    try:
        parts = list(sre.parse(p))
    except re.error:
        raise Unsupported("a constant regular expression")
    if not all(str(op) == "LITERAL" for op, _ in parts):
        return None
    return "".join(chr(a) for _, a in parts)


def compile_(it, p, flags=0):
    if isinstance(p, Regex):
        return p
    if isinstance(p, str):
        text = literal_of(p)
        if text is None:
            return Regex(p, flags)
        return Regex(Pat(lit(text), Form().then(("escape",))), flags)
    if not isinstance(p, Pat):
        raise Unsupported("regular expression of %r" % (p,))
    return Regex(p, flags)


def escape(it, s):
    if isinstance(s, (str, SStr)):
        s = Pat(sstr(s))
    if isinstance(s, Pat):
        return Pat(s.e, s.form.then(("escape",)))
    raise Unsupported("re.escape(%r)" % (s,))


def install(it):
    at = {"compile": Builtin("re.compile", compile_), "escape": Builtin("re.escape", escape)}
    for m in ("match", "fullmatch", "search"):
        at[m] = (lambda m: Builtin("re." + m, lambda it, p, s, flags=0: match(it, p, m, flags, s)))(m)
    at["findall"] = Builtin("re.findall", lambda it, p, s: findall(it, p, s))
    for f in ("IGNORECASE", "I", "DOTALL", "S", "MULTILINE", "M", "ASCII", "A", "UNICODE", "U", "VERBOSE", "X"):
        at[f] = int(getattr(re, f))
    it.ext["re"] = ExtModule("re", at)
    it.ext["time"] = ExtModule("time", {"strptime": Builtin("strptime", strptime)})

    def series(it, data=None, index=None, dtype=None, **kw):
        if isinstance(data, bool) and isinstance(index, Index):
            return BoolSeries("b", index.n, lambda i: z3.BoolVal(data))
        if isinstance(data, (PyList, NArr)):
            a = npm.as_array(it, data)
            if a.kind == "b":
                return BoolSeries("b", a.length, a.fnow())
        raise Unsupported("pd.Series(...)")

    isnull = lambda it, v: v.isnull(it) if hasattr(v, "isnull") else v.getattr(it, "isnull").call(it, [], {}) if isinstance(v, Series) else False
    it.ext["pandas"] = ExtModule("pandas", {"Series": TypeVal("Series", series), "isnull": Builtin("isnull", isnull), "isna": Builtin("isna", isnull)})
