"""Summaries of comprehensions and loops over sequences of symbolic length."""
import ast

import z3

from . import core
from .core import (
    Ctx, Mut, PathAbort, PyDict, PyExc, PyList, SAny, SEnum, SRef, SStr, SymList,
    Unsupported, is_num, is_z3, ite, num, real, sbool, subst,
)
from fractions import Fraction


def consts_of(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        elif z3.is_app(x):
            todo.extend(x.children())
    return acc


def exprs_in(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, (SStr, SAny, SRef, SEnum)):
        return [v.e]
    if isinstance(v, tuple):
        return [x for y in v for x in exprs_in(y)]
    if isinstance(v, SymList):
        i = z3.Int("i!scan")
        return exprs_in(v.length) + exprs_in(v.get(i))
    if hasattr(v, "exprs"):
        return v.exprs()
    return []


def new_names(before, after):
    out = set()
    for k, n in after.items():
        for j in range(before.get(k, 0), n):
            out.add("%s!%d" % (k, j))
    return out


def state_key(ctx):
    return (
        {k: v.get_id() for k, v in ctx.heap.items()},
        {k: str(v) for k, v in ctx.next.items()},
    )


def mut_sig(m):
    out = []
    for k, v in m.snap().items():
        if type(v) is list:
            out.append((k, tuple(id(x) for x in v)))
        elif type(v) is dict:
            out.append((k, tuple((str(a), id(b)) for a, b in v.items())))
        else:
            out.append((k, id(v)))
    return tuple(out)


class Outcome:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


def merge_paths(paths, k, i):
    """ITE over (conds, value) with k replaced by i."""
    r = None
    for conds, v in reversed(paths):
        vv = subst(v, [(k, i)])
        if r is None:
            r = vv
        else:
            c = z3.And(*[z3.substitute(x, (k, i)) for x in conds]) if conds else True
            r = ite(c, vv, r) if c is not True else vv
    return r


def conj(cs):
    cs = list(cs)
    return z3.And(*cs) if cs else z3.BoolVal(True)


def sym_comp(it, elt, g, cenv, seq, out):
    ctx = it.ctx
    k = ctx.int("k!comp")
    n = num(seq.length)
    before = dict(ctx.counter)
    old_muts = [m for m in ctx.muts if m is not cenv and m is not out]
    sigs = [(m, mut_sig(m)) for m in old_muts]
    sk = state_key(ctx)

    def body():
        ctx.assume(z3.And(k >= 0, k < n))
        base = len(ctx.pc)
        it.assign(g.target, seq.get(k), cenv)
        try:
            for c in g.ifs:
                if not it.truth(it.eval(c, cenv)):
                    return base, Outcome("skip")
            v = it.eval(elt, cenv)
        except PyExc as e:
            return base, Outcome("raise", e.value)
        if state_key(ctx) != sk or any(mut_sig(m) != s for m, s in sigs):
            raise Unsupported("comprehension with side effects")
        return base, Outcome("val", v)

    res = ctx.subexplore(body)
    fresh = new_names(before, ctx.counter)
    paths = {"skip": [], "val": [], "raise": []}
    for conds, (base, o) in res:
        cs = conds[1:]
        paths[o.kind].append((cs, o.value))
        used = set()
        for c in cs:
            used |= consts_of(c)
        for e in exprs_in(o.value):
            used |= consts_of(e)
        if used & fresh:
            raise Unsupported("fresh symbols in a symbolic comprehension")
    handle_exits(it, k, n, paths["raise"], lambda v: _raise(v))
    vals = paths["val"]
    if not vals:
        if paths["skip"]:
            return
        # no feasible iteration: the sequence is empty
        out.make_symbolic(0, lambda i: None)
        out.items = []
        return
    if paths["skip"]:
        cond = lambda i: z3.Or(
            *[z3.substitute(conj(cs), (k, num(i))) for cs, _ in vals]
        )
        get = lambda i: merge_paths(vals, k, num(i))
        filtered(it, out, n, cond, get)
        return
    out.make_symbolic(seq.length, lambda i: merge_paths(vals, k, num(i)))


class FList:
    """Elements get(i) of those i < n with cond(i), in order."""

    def __init__(self, n, cond, get):
        self.n, self.cond, self.get = n, cond, get


def filtered(it, out, n, cond, get):
    """A filtered list: unknown length m, order preserving index map."""
    out.flt = FList(n, cond, get)
    ctx = it.ctx
    m = ctx.int("m!flt")
    idx = z3.Function(str(ctx.fresh("idx!flt", core.I)), core.I, core.I)
    inv = z3.Function(str(ctx.fresh("inv!flt", core.I)), core.I, core.I)
    i, j = z3.Ints("i!f j!f")
    ctx.assume(z3.And(m >= 0, m <= n))
    ctx.assume(
        z3.ForAll(
            [i],
            z3.Implies(
                z3.And(i >= 0, i < m),
                z3.And(idx(i) >= 0, idx(i) < n, cond(idx(i)), inv(idx(i)) == i),
            ),
            patterns=[idx(i)],
        )
    )
    ctx.assume(
        z3.ForAll(
            [i, j],
            z3.Implies(z3.And(i >= 0, i < j, j < m), idx(i) < idx(j)),
            patterns=[z3.MultiPattern(idx(i), idx(j))],
        )
    )
    ctx.assume(
        z3.ForAll(
            [j],
            z3.Implies(
                z3.And(j >= 0, j < n, cond(j)),
                z3.And(inv(j) >= 0, inv(j) < m, idx(inv(j)) == j),
            ),
            patterns=[inv(j)],
        )
    )
    out.make_symbolic(m, lambda i: get(idx(num(i))))
    out.inv_index = inv
    inst = lambda j: z3.And(
        z3.Implies(z3.And(j >= 0, j < n, cond(j)), z3.And(inv(j) >= 0, inv(j) < m, idx(inv(j)) == j)))
    ctx.ghost["filtered"] = ctx.ghost.get("filtered", ()) + (inst,)


def _raise(v):
    raise PyExc(v)


def handle_exits(it, k, n, exits, act):
    """Fork on the first iteration that leaves the loop (raise/return)."""
    if not exits:
        return
    ctx = it.ctx
    anyexit = lambda i: z3.Or(*[z3.substitute(conj(cs), (k, i)) for cs, _ in exits])
    c = ctx.choose(len(exits) + 1)
    if c == 0:
        q = z3.Int("q!exit")
        ctx.assume(
            z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(anyexit(q))))
        )
        return
    cs, v = exits[c - 1]
    w = ctx.int("w!exit")
    ctx.assume(z3.And(w >= 0, w < n))
    for x in cs:
        ctx.assume(z3.substitute(x, (k, w)))
    q = z3.Int("q!exit")
    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(anyexit(q)))))
    if not ctx.feasible():
        raise PathAbort()
    act(subst(v, [(k, w)]) if not isinstance(v, core.ExcVal) else v)


class Recorder:
    def __init__(self, pre, written):
        self.pre = set(id(m) for m in pre)
        self.written = written  # ids of lists known to be written
        self.objs = {}
        self.stores = []

    def is_pre(self, l):
        return id(l) in self.pre

    def store(self, l, k, v):
        if not self.is_pre(l):
            return False
        self.objs[id(l)] = l
        self.written.add(id(l))
        self.stores.append(("store", l, k, v))
        return True

    def append(self, l, v):
        if not self.is_pre(l):
            return False
        self.objs[id(l)] = l
        self.written.add(id(l))
        self.stores.append(("append", l, None, v))
        return True

    def read(self, l):
        from .interp import LoopCarried

        if id(l) in self.written and self.is_pre(l):
            raise LoopCarried("list")

    def note_other(self, l):
        from .interp import LoopCarried

        if self.is_pre(l):
            raise LoopCarried("list update")


def assigned_names(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


class Poison:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "value of %s after a summarised loop" % self.name


def sym_for(it, st, env, seq):
    from .interp import BreakSig, ContinueSig, LoopCarried, ReturnSig, UNINIT

    ctx = it.ctx
    try:
        return map_for(it, st, env, seq)
    except LoopCarried as e:
        pass
    return inv_loop(it, st, env, seq)


def same_constant(a, b):
    return isinstance(a, (bool, int, str)) and type(a) is type(b) and a == b


def same_stores(a, b):
    """The same z3 terms stored at the same places."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] is not y[1]:
            return False
        for u, w in ((x[2], y[2]), (x[3], y[3])):
            if u is w:
                continue
            if not (is_z3(u) and is_z3(w) and u.eq(w)):
                return False
    return True


def map_for(it, st, env, seq):
    from .interp import BreakSig, ContinueSig, LoopCarried, ReturnSig, UNINIT

    ctx = it.ctx
    n = num(seq.length)
    k = ctx.int("k!for")
    names = assigned_names([st])
    entry_values = {nm: env.vars.get(nm) for nm in names}
    written = set()
    prev_rec = it.store_recorder
    before = dict(ctx.counter)
    for attempt in range(2):
        pre = list(ctx.muts)
        sk = state_key(ctx)
        sigs = [(m, mut_sig(m)) for m in pre if m is not env]

        def body():
            ctx.assume(z3.And(k >= 0, k < n))
            rec = Recorder(pre, written)
            it.store_recorder = rec
            for nm in names:
                if nm in env.vars:
                    env.vars[nm] = UNINIT
            try:
                it.assign(st.target, seq.get(k), env)
                it.exec_block(st.body, env)
                o = Outcome("normal")
            except ContinueSig:
                o = Outcome("normal")
            except BreakSig:
                raise LoopCarried("break")
            except ReturnSig as r:
                o = Outcome("return", r.v)
            except PyExc as e:
                o = Outcome("raise", e.value)
            finally:
                it.store_recorder = prev_rec
            if state_key(ctx) != sk or any(mut_sig(m) != s for m, s in sigs):
                raise LoopCarried("state")
            o.stores = rec.stores
            o.finals = {nm: env.vars.get(nm, UNINIT) for nm in names}
            return o

        nw = len(written)
        res = ctx.subexplore(body)
        if len(written) == nw:
            break
    if prev_rec is not None and written:
        raise Unsupported("nested symbolic loops with stores")
    fresh = new_names(before, ctx.counter) - {str(k)}
    normal, exits = [], []
    # paths that store the same values need not be told apart
    norm = [o for _, o in res if o.kind == "normal"]
    constants = {nm: norm[0].finals[nm] for nm in names if norm and all(same_constant(o.finals[nm], norm[0].finals[nm]) for o in norm)}
    if len(norm) > 1 and len(norm) == len(res) and all(same_stores(o.stores, norm[0].stores) for o in norm[1:]):
        res = [(res[0][0][:1], norm[0])]
    for conds, o in res:
        cs = conds[1:]
        used = set()
        for c in cs:
            used |= consts_of(c)
        for e in exprs_in(o.value):
            used |= consts_of(e)
        for s in o.stores:
            for e in exprs_in(s[3]) + exprs_in(s[2]):
                used |= consts_of(e)
        if used & fresh:
            raise LoopCarried("fresh symbols in loop body")
        if o.kind == "normal":
            normal.append((cs, o))
        else:
            exits.append((cs, o))
    # the stores of all normal paths must agree in shape
    lists = {}
    for cs, o in normal:
        for kind, l, idx, v in o.stores:
            lists.setdefault(id(l), (l, kind))
            if lists[id(l)][1] != kind:
                raise LoopCarried("mixed stores")
    for lid, (l, kind) in lists.items():
        for cs, o in normal:
            ss = [s for s in o.stores if s[1] is l]
            if kind == "append" and len(ss) != 1 or len(ss) > 1:
                raise LoopCarried("irregular stores")
            for s in ss:
                if kind == "store" and not (
                    is_z3(s[2]) and z3.simplify(s[2] - k).eq(z3.IntVal(0))
                ):
                    raise LoopCarried("store at another index")

    def act_kind(o):
        if o.kind == "raise":
            raise PyExc(o.value)
        raise ReturnSig(o.value)

    if exits:
        if lists and any(o.kind == "return" for _, o in exits):
            raise LoopCarried("return with stores")
        anyexit = lambda i: z3.Or(*[z3.substitute(conj(cs), (k, i)) for cs, _ in exits])
        c = ctx.choose(len(exits) + 1)
        q = z3.Int("q!exit")
        if c == 0:
            ctx.assume(
                z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(anyexit(q))))
            )
        else:
            cs, o = exits[c - 1]
            w = ctx.int("w!exit")
            ctx.assume(z3.And(w >= 0, w < n))
            for x in cs:
                ctx.assume(z3.substitute(x, (k, w)))
            ctx.assume(
                z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(anyexit(q))))
            )
            if not ctx.feasible():
                raise PathAbort()
            if o.kind == "return":
                raise ReturnSig(subst(o.value, [(k, w)]))
            raise PyExc(o.value)
    for lid, (l, kind) in lists.items():
        vals = []
        for cs, o in normal:
            ss = [s for s in o.stores if s[1] is l]
            vals.append((cs, ss[0][3] if ss else None))
        old = l.value()
        if kind == "store":
            if any(v is None for _, v in vals):
                full = lambda i, vals=vals, old=old: _partial(vals, k, num(i), old)
            else:
                full = lambda i, vals=vals: merge_paths(vals, k, num(i))
            get = lambda i, full=full, old=old: _ite_lazy(
                z3.And(num(i) >= 0, num(i) < n), lambda: full(i), lambda: old.get(i)
            )
            # indices are in range of the list
            ctx_ok = num(old.length) >= n
            if not ctx.proves(ctx_ok):
                raise Unsupported("loop stores beyond the list")
            if ctx.proves(num(old.length) == n):
                get = full  # every element is stored
            if hasattr(l, "loop_store"):
                l.loop_store(get)
            else:
                l.make_symbolic(old.length, get)
        else:
            ol = num(old.length)
            if z3.is_int_value(z3.simplify(ol)) and z3.simplify(ol).as_long() == 0:
                l.make_symbolic(n, lambda i, vals=vals: merge_paths(vals, k, num(i)))
                continue
            get = lambda i, old=old, vals=vals, ol=ol: _ite_lazy(
                num(i) < ol,
                lambda: old.get(i),
                lambda: merge_paths(vals, k, z3.simplify(num(i) - ol)),
            )
            l.make_symbolic(z3.simplify(ol + n), get)
    for nm in names:
        old = entry_values.get(nm)
        if nm in constants and same_constant(old, old):  # every iteration sets it to the same
            if not same_constant(old, constants[nm]) and ctx.branch(n > 0):
                old = constants[nm]
            env.vars[nm] = old
        else:
            env.vars[nm] = Poison(nm)


def _partial(vals, k, i, old):
    r = old.get(i)
    for cs, v in vals:
        if v is not None:
            r = ite(z3.substitute(conj(cs), (k, i)), subst(v, [(k, i)]), r)
    return r


def _ite_lazy(c, a, b):
    from .interp import ite_lazy

    return ite_lazy(c, a, b)


# ------------------------------------------------------------------ invariant loops


class View:
    """What candidate invariants may talk about: variables and heap."""

    def __init__(self, vars, heap, objs=None):
        self.vars = vars
        self.heap = heap
        self.objs = objs or {}  # number fields of modified objects


def object_numbers(objs):
    """Number fields of the objects (by a stable name)."""
    out = {}
    for j, (m, fields) in enumerate(objs.values()):
        for k in fields:
            v = m.f.get(k)
            if is_num(v):
                out["%d.%s" % (j, k)] = num(v)
            elif hasattr(v, "as_int"):
                out["%d.%s" % (j, k)] = v.as_int()
    return out


def visible_vars(env):
    out = {}
    e = env
    while e is not None:
        for k, v in e.vars.items():
            out.setdefault(k, v)
        e = e.parent
    return out


def snap_value(v):
    if isinstance(v, PyList):
        return v.value() if not (v.items == []) else SymList(0, lambda i: None)
    return v


def havoc_value(ctx, nm, old, new):
    """A fresh value of the common kind of old and new (or raise)."""
    vs = [x for x in (old, new) if not isinstance(x, Poison)]
    if not vs:
        return Poison(nm)
    if all(isinstance(x, SRef) or x is None for x in vs):
        cls = [x.cls for x in vs if x is not None]
        if not cls or len(set(cls)) > 1:
            raise Unsupported("loop variable " + nm)
        return SRef(cls[0], ctx.int("h_" + nm))
    if all(isinstance(x, (bool, z3.BoolRef)) for x in vs):
        return ctx.bool("h_" + nm)
    if all(is_num(x) for x in vs):
        if all(z3.is_int(num(x)) for x in vs):
            return ctx.int("h_" + nm)
        return ctx.real("h_" + nm)
    if all(isinstance(x, (str, SStr)) for x in vs):
        return SStr(ctx.fresh("h_" + nm, core.Str))
    for x in vs:
        if hasattr(x, "havoc"):
            return x.havoc(ctx, nm)
    raise Unsupported("loop variable %s of unknown kind %r" % (nm, vs))


def havoc_list(ctx, nm, sample):
    n = ctx.int("n_" + nm)
    ctx.assume(n >= 0)
    if isinstance(sample, SStr) or isinstance(sample, str):
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.Str))
        return n, lambda i: SStr(z3.Select(a, num(i)))
    if isinstance(sample, SRef):
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, core.I))
        return n, lambda i: SRef(sample.cls, z3.Select(a, num(i)))
    if is_num(sample):
        srt = core.I if z3.is_int(num(sample)) else core.R
        a = ctx.fresh("a_" + nm, z3.ArraySort(core.I, srt))
        return n, lambda i: z3.Select(a, num(i))
    if hasattr(sample, "havoc_elem"):
        return n, sample.havoc_elem(ctx, nm)
    raise Unsupported("list %s of unknown element kind %r" % (nm, sample))


_cache = {}


def sym_while(it, st, env):
    from .interp import BreakSig, ContinueSig, ReturnSig

    ctx = it.ctx
    if not getattr(it, "concrete_while", False) or st.orelse:
        return inv_loop(it, st, env, None)
    # (units over given objects) exact unrolling where every test is decided without the solver
    for _ in range(64):
        t = it.eval(st.test, env)
        if isinstance(t, z3.ExprRef):
            raise Unsupported("loop over given objects with a symbolic test")
        if not it.truth(t):
            return
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            return
    raise Unsupported("loop over given objects of more than 64 iterations")


def unrolled(it, st, env, seq):
    """The loop, exactly, for at most ctx.unroll iterations (longer paths are dropped)."""
    from .interp import BreakSig, ContinueSig

    ctx = it.ctx
    for j in range(ctx.unroll + 1):
        if seq is not None:
            if not it.truth(num(seq.length) > j):
                return
            if j == ctx.unroll:
                break
            it.assign(st.target, seq.get(z3.IntVal(j)), env)
        else:
            if not it.truth(it.eval(st.test, env)):
                return
            if j == ctx.unroll:
                break
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            return
    raise PathAbort()


def inv_loop(it, st, env, seq):
    """Loop by invariants found among generated candidates (Houdini)."""
    from .interp import BreakSig, ContinueSig, LoopCarried, ReturnSig

    ctx = it.ctx
    if st.orelse:
        raise Unsupported("loop else")
    if it.store_recorder is not None:
        raise Unsupported("invariant loop inside a summarised loop")
    if ctx.unroll is not None:
        return unrolled(it, st, env, seq)
    ctx.abstracted.add(st.lineno)
    is_for = seq is not None
    n = num(seq.length) if is_for else None
    names = assigned_names([st] if is_for else st.body)
    entry_vars = {k: snap_value(v) for k, v in visible_vars(env).items()}
    entry_heap = dict(ctx.heap)
    entry = View(entry_vars, entry_heap)
    pre_muts = [m for m in ctx.muts if m is not env]
    ix = [None]

    def one_iteration():
        """Run test and body; returns kind."""
        if is_for:
            i = ix[0]
            it.assign(st.target, seq.get(i), env)
        else:
            if not it.truth(it.eval(st.test, env)):
                return Outcome("exit")
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            return Outcome("break")
        except ReturnSig as r:
            return Outcome("return", r.v)
        except PyExc as e:
            return Outcome("raise", e.value)
        return Outcome("next")

    # --- probe: what does the body modify?
    mods = {"vars": set(), "muts": {}, "heap": set(), "samples": {}, "newvars": {}, "objs": {}}

    def probe():
        if is_for:
            i = ctx.int("i!loop")
            ix[0] = i
            ctx.assume(z3.And(i >= 0, i < n))
        h0 = dict(ctx.heap)
        v0 = dict(env.vars)
        s0 = [(m, mut_sig(m)) for m in pre_muts]
        f0 = [(m, dict(m.f)) for m in pre_muts if type(m) is core.Obj]
        ln0 = dict(ctx.next)
        o = one_iteration()
        if o.kind in ("next", "break"):
            for k, v in env.vars.items():
                if k not in v0 or v0[k] is not v:
                    mods["vars"].add(k)
                    mods["newvars"].setdefault(k, v)
            for m, f in f0:
                if set(m.f) != set(f):
                    raise Unsupported("fields created in a symbolic loop")
                for k, v in m.f.items():
                    if v is not f[k]:
                        mods["objs"].setdefault(id(m), (m, {}))[1].setdefault(k, v)
            for m, s in s0:
                if type(m) is not core.Obj and mut_sig(m) != s:
                    mods["muts"][id(m)] = m
                    if isinstance(m, PyList):
                        if m.items:
                            mods["samples"][id(m)] = m.items[-1]
                        elif m.items is None:
                            mods["samples"][id(m)] = m.get(z3.IntVal(0))
            for k, v in ctx.heap.items():
                if not v.eq(h0[k]):
                    mods["heap"].add(k)
            if any(not ctx.next[k].eq(ln0[k]) for k in ln0):
                raise Unsupported("allocation in a symbolic loop")
        return o

    ctx.quiet += 1
    try:
        key = (id(st), tuple(p.hash() for p in ctx.pc))
        ctx.subexplore(probe)
        entry.objs = object_numbers(mods["objs"])
        for m in mods["muts"].values():
            if not isinstance(m, PyList) and not hasattr(m, "havoc_mut"):
                raise Unsupported("loop modifies %r" % (m,))

        def havoc():
            cur = {}
            for k in sorted(mods["vars"]):
                if is_for and k in assigned_names([ast.Expr(st.target)]) or (
                    k not in env.vars
                ):
                    env.vars[k] = Poison(k)
                    continue
                env.vars[k] = havoc_value(
                    ctx, k, env.vars[k], mods["newvars"].get(k, env.vars[k])
                )
            for mid, m in mods["muts"].items():
                nm = "list"
                for k, v in visible_vars(env).items():
                    if v is m:
                        nm = k
                if hasattr(m, "havoc_mut"):
                    m.havoc_mut(ctx, nm)
                else:
                    ln, get = havoc_list(ctx, nm, mods["samples"].get(mid))
                    m.make_symbolic(ln, get)
            for m, fields in mods["objs"].values():
                for k in sorted(fields):
                    m.f[k] = havoc_value(ctx, k, m.f[k], fields[k])
            for k in sorted(mods["heap"]):
                ctx.heap[k] = ctx.fresh("h_" + k, ctx.heap[k].sort())
            if is_for:
                i = ctx.int("i!loop")
                ix[0] = i
                ctx.assume(z3.And(i >= 0, i <= n))

        def view(i):
            vs = {k: snap_value(v) for k, v in visible_vars(env).items()}
            if is_for:
                vs["\0i"] = i
                vs["\0n"] = n
            return View(vs, dict(ctx.heap), object_numbers(mods["objs"]))

        def candidates(i):
            out = []
            cur = view(i)
            for g in it.inv_gens:
                out += g(it, entry, cur, mods)
            return dict(out)

        if key in _cache:
            keep = _cache[key]
        else:
            keep = None
            # entry
            names0 = []

            def at_entry():
                c = candidates(z3.IntVal(0) if is_for else None)
                for nm, f in c.items():
                    if ctx.proves(f):
                        names0.append(nm)

            ctx.subexplore(at_entry)
            keep = set(names0)
            while True:
                bad = set()

                def step():
                    havoc()
                    i0 = ix[0]
                    c = candidates(i0)
                    for nm in sorted(keep):
                        if nm in c:
                            ctx.assume(c[nm])
                    if is_for:
                        ctx.assume(i0 < n)
                    m0 = len(mods["vars"]), len(mods["muts"]), len(mods["heap"])
                    h0 = dict(ctx.heap)
                    f0 = [(m, dict(m.f)) for m in pre_muts if type(m) is core.Obj]
                    o = one_iteration()
                    for k, v in ctx.heap.items():
                        if not v.eq(h0[k]):
                            mods["heap"].add(k)
                    for m, f in f0:
                        for k, v in m.f.items():
                            if v is not f.get(k) and k not in mods["objs"].get(id(m), (m, ()))[1]:
                                raise Unsupported("loop modifies another field in a later iteration")
                    if o.kind != "next":
                        return
                    c = candidates(i0 + 1 if is_for else None)
                    for nm in sorted(keep - bad):
                        if nm not in c or not ctx.proves(c[nm], 3000):
                            bad.add(nm)

                hn = len(mods["heap"])
                ctx.subexplore(step)
                if len(mods["heap"]) != hn:
                    continue
                if not bad:
                    break
                keep = keep - bad
            _cache[key] = keep
    finally:
        ctx.quiet -= 1
    # --- continue after the loop, or leave from inside
    havoc()
    i0 = ix[0]
    c = candidates(i0)
    for nm in sorted(keep):
        if nm in c:
            ctx.assume(c[nm])
    mode = ctx.choose(2)
    if mode == 0:
        if is_for:
            ctx.assume(i0 == n)
        else:
            if it.truth(it.eval(st.test, env)):
                raise PathAbort()
        return
    if is_for:
        ctx.assume(i0 < n)
    o = one_iteration()
    if o.kind in ("next", "exit"):
        raise PathAbort()
    if o.kind == "break":
        return
    if o.kind == "return":
        raise ReturnSig(o.value)
    raise PyExc(o.value)
