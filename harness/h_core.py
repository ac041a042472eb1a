"""C01-C05: histories of requests, reads and writes on a parameter set"""
import random

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import ExtrapolationType, InterpolationType
from openscm.errors import (
    ParameterAggregationError,
    ParameterEmptyError,
    ParameterReadError,
    ParameterReadonlyError,
    ParameterTypeError,
    ParameterWrittenError,
    TimeseriesPointsValuesMismatchError,
)

from . import oracle
from .base import Kind, Stop, Tagged, close

NAMES = ["a", "b", "A", "CO2", "Emissions", "x y", "*", "", "World", "ab", "a ", "é", "0"]
TYPES = {
    "scalar": ParameterType.SCALAR,
    "average": ParameterType.AVERAGE_TIMESERIES,
    "point": ParameterType.POINT_TIMESERIES,
    "generic": ParameterType.GENERIC,
}


class Node:
    def __init__(self, region, name):
        self.region, self.name = region, name
        self.type = None
        self.unit = None
        self.tps = None
        self.dim = None
        self.viewed = False
        self.written = False
        self.version = 0
        self.value = None  # stored value: scalar/array in self.unit on self.tps, or obj
        self.last = None  # (view, numbers written)


class View:
    def __init__(self, node, real, kind, unit, tps, extra, leaves):
        self.node, self.real, self.kind = node, real, kind
        self.unit, self.tps, self.extra, self.leaves = unit, tps, extra, leaves
        self.locked = False
        self.pending = None  # numbers of the locked view
        self.handles = []
        self.read = False


class World:
    def __init__(self, rng, focus):
        self.rng = rng
        self.focus = focus
        self.root = rng.choice(["World", "World", "World", "Earth", "a"])
        self.ps = ParameterSet() if self.root == "World" and rng.random() < 0.8 else ParameterSet(self.root)
        self.nodes = {}
        self.views = []
        self.sig = []
        self.base_tps = None
        self.names = rng.sample(NAMES, rng.randint(2, 4))
        self.dims = rng.choice([["mass"], ["emissions"], ["temperature", "mass"], ["emissions", "forcing"]])

    # ---------------------------------------------------------------- helpers
    def chk(self, cond, tags, msg, *a):
        if not cond:
            raise Tagged(tags, (msg.format(*a) if a else msg) + "\nhistory: " + " ; ".join(self.sig[-25:]))

    def call(self, tags, what, f, errors=(), required=None):
        """returns (exception or None, result)"""
        try:
            return None, f()
        except errors as e:
            return e, None
        except Exception as e:  # pylint: disable=broad-except
            self.chk(False, tags, "{}: unexpected {!r}", what, e)

    def children(self, node):
        n = len(node.name)
        return [
            m
            for (r, nm), m in self.nodes.items()
            if r == node.region and len(nm) == n + 1 and nm[:n] == node.name
        ]

    def leaves(self, node):
        cs = self.children(node)
        if not cs:
            return [node]
        return [l for c in cs for l in self.leaves(c)]

    def spell(self, parts):
        k = self.rng.randrange(3)
        if k == 0 and "|".join(parts) != "":
            return "|".join(parts)
        return tuple(parts) if k == 1 else list(parts)

    def address(self):
        rng = self.rng
        if self.nodes and rng.random() < 0.5:
            r, n = rng.choice(list(self.nodes))
            k = rng.random()
            if k < 0.25 and len(n) > 1:
                n = n[:-1]
            elif k < 0.4 and len(n) < 5:
                n = n + (rng.choice(self.names),)
            elif k < 0.5:
                r = (self.root,)
            return r, n
        d = rng.choice([0, 0, 0, 1, 1, 2])
        r = (self.root,) + tuple(rng.choice(self.names) for _ in range(d))
        n = tuple(rng.choice(self.names) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        if n == ("",):
            n = (self.names[0] or "z",)
        return r, n

    # ------------------------------------------------------------- model side
    def expect_create(self, r, n):
        """errors expected when requesting (r, n), [] if it exists or can be created"""
        errs = []
        for i in range(1, len(n)):
            if (r, n[: i + 1]) in self.nodes:
                continue
            p = self.nodes.get((r, n[:i]))
            if p is not None:
                if p.written:
                    errs.append(ParameterWrittenError)
                for j in range(1, i + 1):
                    a = self.nodes.get((r, n[:j]))
                    if a is not None and a.viewed:
                        errs.append(ParameterReadError)
            break
        return errs

    def ensure_nodes(self, r, n):
        for i in range(1, len(n) + 1):
            self.nodes.setdefault((r, n[:i]), Node(r, n[:i]))
        return self.nodes[(r, n)]

    def snapshot(self):
        return {
            k: (v.type, v.unit, v.written, v.version) for k, v in self.nodes.items()
        }

    def audit(self, full=True):
        """compare all existing parameters and some non-existing ones"""
        for (r, n), node in list(self.nodes.items()):
            if n == ("",):
                info = self.ps.info(n, region=r)
            else:
                e, info = self.call(("C01",), "info", lambda: self.ps.info(self.spell(n), region=self.spell(r)))
            self.chk(info is not None, ("C01",), "no information on {} in {} although requested", n, r)
            self.chk(tuple(info.name) == n and tuple(info.region) == r, ("C01",),
                     "information on {} in {} reports {} in {}", n, r, info.name, info.region)
            self.chk(info.parameter_type == (TYPES[node.type] if node.type else None), ("C02", "C01"),
                     "{} has type {} instead of {}", n, info.parameter_type, node.type)
            self.chk(info.version == node.version, ("C03", "C05", "C02"),
                     "{} has version {} instead of {}", n, info.version, node.version)
            self.chk(info.empty == (not node.written), ("C03", "C05", "C02"),
                     "{} has empty={} instead of {}", n, info.empty, not node.written)
            self.chk(info.unit == node.unit, ("C02", "C01"), "{} has unit {} instead of {}", n, info.unit, node.unit)

    # --------------------------------------------------------------- operations
    def time_points(self, kind):
        rng = self.rng
        if self.base_tps is None:
            n = rng.randint(4, 6)
            t0 = np.datetime64("1990-01-01", "s").astype(np.int64)
            steps = [rng.choice([31557600, 86400 * 365, 86400, 10 * 31557600, rng.randint(1, 10 ** 8)]) for _ in range(n - 1)]
            if rng.random() < 0.3:
                steps = [steps[0]] * (n - 1)
            self.base_tps = np.array([t0 + sum(steps[:i]) for i in range(n)])
        b = self.base_tps
        k = rng.random()
        if k < 0.5:
            res = b.copy()
        else:
            # other points within the range, same ends
            m = rng.randint(2, 5)
            inner = set()
            while len(inner) < m:
                inner.add(rng.choice([int(x) for x in b[1:-1]] + [rng.randint(int(b[0]) + 1, int(b[-1]) - 1) for _ in range(3)]))
                if b[-1] - b[0] < 20:
                    break
            res = np.array([int(b[0])] + sorted(inner) + [int(b[-1])])
        return res.astype("datetime64[s]")

    def request(self):
        rng = self.rng
        r, n = self.address()
        ex = self.nodes.get((r, n))
        kind = rng.choice(self.focus["kinds"])
        if ex is not None and ex.type is not None and rng.random() < 0.85:
            kind = ex.type
        elif ex is not None and self.children(ex) and rng.random() < 0.85:
            ts = {l.type for l in self.leaves(ex)} - {None}
            if ts:
                kind = rng.choice(sorted(ts))
        errs = self.expect_create(r, n)
        before = self.snapshot()
        # choose unit of a fitting dimension
        dim = None
        if kind != "generic":
            if ex is not None and ex.dim:
                dim = ex.dim
            elif ex is not None and self.children(ex):
                ds = {l.dim for l in self.leaves(ex)} - {None}
                dim = rng.choice(sorted(ds)) if ds else rng.choice(self.dims)
            else:
                dim = self.dims[hash_of((r, n)) % len(self.dims)]
        unit = rng.choice(list(oracle.UNITS[dim])) if dim else None
        tps = extra = None
        nm, rg = self.spell(n), self.spell(r)
        if kind == "scalar":
            f = lambda: self.ps.scalar(nm, unit, region=rg)
        elif kind == "generic":
            f = lambda: self.ps.generic(nm, region=rg)
        else:
            tps = self.time_points(kind)
            extra = rng.choice(["none", "linear", "constant"])
            tt = rng.choice([kind, TYPES[kind], kind.upper()])
            arg = tps.copy()
            ex_arg = rng.choice([extra, extra.upper(), ExtrapolationType[extra.upper()]])
            kw = rng.choice([{}, {"interpolation": "linear"}, {"interpolation": InterpolationType.LINEAR}])
            f = lambda: self.ps.timeseries(nm, unit, arg, region=rg, timeseries_type=tt, extrapolation=ex_arg, **kw)
        self.sig.append("{} {}@{} {}".format(kind, "|".join(n), "|".join(r), unit))

        # what must happen
        type_error = False
        if not errs:
            node0 = self.nodes.get((r, n))
            if node0 is not None and node0.type is not None and node0.type != kind:
                type_error = True
        if errs:
            e, _ = self.call(("C02",), "request below viewed or written parameter", f, tuple(set(errs)))
            self.chk(e is not None, ("C02", "C04") if ParameterReadError in errs else ("C02",),
                     "{} could be created although a parameter above has been {}", n,
                     "viewed" if ParameterReadError in errs else "written to")
            self.audit()
            i = self.call(("C01",), "info", lambda: self.ps.info(n, region=r))[1]
            self.chk(i is None, ("C01", "C02"), "{} exists although its request has been refused", n)
            return
        if type_error:
            e, _ = self.call(("C02",), "request with other type", f, (ParameterTypeError,))
            self.chk(e is not None, ("C02",), "{} could be requested as {} although it is {}", n, kind, node0.type)
            self.audit()
            return
        existed = (r, n) in self.nodes
        node = self.ensure_nodes(r, n)
        kids = self.children(node)
        if kids and kind == "generic":
            e, _ = self.call(("C02",), "generic view of a parent", f, (ParameterAggregationError, ParameterTypeError))
            self.chk(e is not None, ("C02",), "generic view of parent {} possible", n)
            self.audit()
            return
        leaves = None
        if kids:
            leaves = self.leaves(node)
            bad_type = any(l.type != kind for l in leaves)
            bad_dim = any(l.type == kind and l.dim != dim for l in leaves)
            if bad_type or bad_dim:
                e, _ = self.call(("C04",), "view over incompatible leaves", f, (ParameterTypeError, Exception) if bad_dim else (ParameterTypeError,))
                self.chk(e is not None, ("C04",), "view of {} possible although leaves have other types or dimensions", n)
                # (the refused view may have fixed the type of the parent, but no more)
                for k, v in self.nodes.items():
                    if k == (r, n):
                        continue
                    i = self.ps.info(k[1], region=k[0])
                    self.chk((i.version, i.empty, i.unit) == (v.version, not v.written, v.unit) and i.parameter_type == (TYPES[v.type] if v.type else None),
                             ("C04", "C02"), "refused view of {} changed {}", n, k)
                raise Stop()
        _, real = self.call(("C01", "C02", "C03", "C04", "C05"), "request of {}".format(n), f)
        if node.type is None:
            node.type, node.unit, node.dim = kind, unit, dim
            node.tps = None if tps is None else tps.astype(np.int64)
        node.viewed = True
        self.chk(tuple(real.name) == n and tuple(real.region) == r, ("C01",),
                 "view of {} in {} reports {} in {}", n, r, real.name, real.region)
        self.chk(real.unit == (unit if kind != "generic" else None), ("C03", "C05"), "view reports unit {}", real.unit)
        self.chk(real.parameter_type == TYPES[kind], ("C02",), "type of view")
        v = View(node, real, kind, unit, None if tps is None else tps.astype(np.int64), extra, leaves)
        self.views.append(v)
        if tps is not None and self.rng.random() < 0.2:
            arg[0] = arg[-1]  # changing the array passed in must not change the view

    def number(self):
        rng = self.rng
        return rng.choice([0.0, 1.0, -1.0, 2.5, rng.uniform(-100, 100), rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6)])

    def expected_scalar(self, v):
        if v.leaves:
            if any(not l.written for l in v.leaves):
                return None
            return sum(oracle.conv(l.dim, l.unit, v.unit, l.value) for l in v.leaves)
        if not v.node.written:
            return None
        return oracle.conv(v.node.dim, v.node.unit, v.unit, v.node.value)

    def write_scalar(self, v):
        node = v.node
        x = self.number()
        if v.kind == "generic":
            x = self.rng.choice([object(), [1, 2], {"a": 1}, "text", None, 3, float("nan"), np.array([1.0, 2.0]), False, (), ()])
        self.sig.append("write {} {}".format("|".join(node.name), v.unit))

        def f():
            v.real.value = x

        if self.children(node):
            e, _ = self.call(("C02",), "write to parent", f, (ParameterReadonlyError,))
            self.chk(e is not None, ("C02",), "parent {} could be written to", node.name)
            self.audit()
            return
        self.call(("C03",), "write", f)
        node.written = True
        node.version += 1
        if v.kind == "generic":
            node.value = x
        else:
            node.value = float(oracle.conv(node.dim, v.unit, node.unit, x))
            node.scale = max(abs(x), 1.0)
        node.last = (v, x)
        if self.rng.random() < 0.5:
            self.read(v)

    def tol(self, v):
        # temperatures have offsets, so cancellation is limited by the offset
        return 1e-9

    def read(self, v):
        node = v.node
        self.sig.append("read {} {}".format("|".join(node.name), v.unit))
        if v.kind == "generic":
            e, x = self.call(("C03",), "read", lambda: v.real.value, (ParameterEmptyError,))
            self.chk((e is None) == node.written, ("C03",), "generic {}: error {!r} when read, written={}", node.name, e, node.written)
            if e is None:
                self.chk(x is node.value, ("C03",), "generic {} gives {!r} instead of the object {!r} written", node.name, x, node.value)
            return
        if v.kind == "scalar":
            tags = ("C04",) if v.leaves else ("C03",)
            want = self.expected_scalar(v)
            e, x = self.call(tags, "read", lambda: v.real.value, (ParameterEmptyError,))
            self.chk((e is not None) == (want is None), tags, "scalar {} [{}]: error {!r} when read, expected {}", node.name, v.unit, e, want)
            if e is None:
                scale = max(abs(float(want)), 1e-12, 300.0 * (len(v.leaves) if v.leaves else 1) if node.dim == "temperature" else 0)
                if v.leaves:
                    scale = max(scale, max(abs(float(oracle.conv(l.dim, l.unit, v.unit, l.value))) for l in v.leaves))
                if v.unit == "mK":
                    scale *= 1000
                self.chk(close(x, want, rtol=1e-9, scale=scale), tags, "{} reads {!r} {} instead of {!r}", node.name, x, v.unit, float(want))
                if not v.leaves and node.last and node.last[0] is v:
                    self.chk(close(x, node.last[1], rtol=1e-9, scale=max(scale if node.dim == "temperature" else 0, abs(node.last[1]))), tags, "{} reads {!r} instead of {!r} written", node.name, x, node.last[1])
            return
        self.read_ts(v)

    # ------------------------------------------------------------- timeseries
    def current(self, v):
        """expected numbers of a timeseries view, None if empty"""
        node = v.node
        if v.leaves:
            if any(not l.written for l in v.leaves):
                return None
            return sum(
                oracle.convert_times(v.kind, l.tps, oracle.conv(l.dim, l.unit, v.unit, l.value), v.tps, v.extra)
                for l in v.leaves
            )
        if not node.written:
            return None
        if v.locked and v.pending is not None:
            return v.pending
        if node.last and node.last[0] is v:
            return node.last[1]
        return oracle.convert_times(
            v.kind, node.tps, oracle.conv(node.dim, node.unit, v.unit, node.value), v.tps, v.extra
        )

    def ts_close(self, v, x, want, exact):
        scale = float(np.max(np.abs(want))) if len(want) else 0.0
        if not exact:
            for l in v.leaves or [v.node]:
                st = oracle.conv(l.dim, l.unit, v.unit, l.value)
                scale = max(scale, float(np.max(np.abs(st))), abs(float(oracle.conv(l.dim, l.unit, v.unit, getattr(l, "rough", 0.0)))))
                if v.node.dim == "temperature":
                    scale = max(scale, 1000.0 * (1000.0 if v.unit == "mK" else 1))
        return close(x, want, rtol=0.0 if exact else 2e-6, atol=0.0, scale=max(scale, 1e-12))

    def fetch(self, v):
        """read by one of the accesses, returns array"""
        k = self.rng.randrange(9)
        h = None
        if v.handles and self.rng.random() < 0.5:
            h = self.rng.choice(v.handles)
        else:
            h = v.real.values
            v.handles.append(h)
        if k == 0:
            return np.array([float(h[i]) for i in range(len(h))])
        if k == 1:
            return np.array(list(h), dtype=float)
        if k == 2:
            return np.asarray(h + 0.0, dtype=float)
        if k == 3:
            return np.asarray(np.add(h, 0.0), dtype=float)
        if k == 4:
            return np.asarray(h[:], dtype=float).copy()
        if k == 5:
            m = len(h) // 2
            return np.concatenate((np.asarray(h[:m], dtype=float), np.asarray(h[m:], dtype=float)))
        if k == 6:
            return np.asarray(0.0 - h, dtype=float) * -1.0
        if k == 7:
            return np.asarray(np.multiply(1.0, h), dtype=float)
        return np.array(h, dtype=float)

    def read_ts(self, v):
        node = v.node
        tags = ("C04",) if v.leaves else ("C05",)
        want = self.current(v)
        if v.locked and v.pending is None and node.written:
            pass
        e, x = self.call(tags, "read", lambda: self.fetch(v), (ParameterEmptyError,))
        self.chk((e is not None) == (want is None), tags, "timeseries {} [{}]: error {!r} when read, empty={}", node.name, v.unit, e, want is None)
        if e is not None:
            return
        exact = not v.leaves and ((v.locked and v.pending is not None) or bool(node.last and node.last[0] is v))
        self.chk(self.ts_close(v, x, want, exact), tags, "timeseries {} [{}] reads {} instead of {}{}",
                 node.name, v.unit, list(x), list(want), " (exactly)" if exact else "")
        v.read = True
        if self.rng.random() < 0.2:
            self.chk(len(v.real.values) == len(want) and v.real.length == len(want), tags, "length")

    def others_locked(self, v):
        return any(o is not v and o.locked and o.node is v.node for o in self.views)

    def stored(self, v, numbers):
        node = v.node
        return oracle.convert_times(v.kind, v.tps, oracle.conv(node.dim, v.unit, node.unit, numbers), node.tps, v.extra)

    def published(self, v, numbers):
        node = v.node
        node.written = True
        node.version += 1
        node.value = self.stored(v, numbers)
        # straight lines are only as exact as the largest number they go through
        node.rough = float(np.max(np.abs(oracle.conv(node.dim, v.unit, node.unit, np.asarray(numbers, dtype=float))))) if len(numbers) else 0.0
        node.last = (v, numbers)

    def write_ts(self, v):
        rng = self.rng
        node = v.node
        n = len(v.tps) - (1 if v.kind == "average" else 0)
        if self.others_locked(v):
            return
        tags = ("C05",)
        parent = bool(self.children(node))
        blind = False
        op = rng.choice(["full", "full", "item", "slice", "iop", "out", "wrong", "fancy", "handle_iop"])
        self.sig.append("{}{} {} {}".format("locked-" if v.locked else "", op, "|".join(node.name), v.unit))
        if op == "wrong":
            m = rng.choice([k for k in (0, 1, n - 1, n + 1, n + 2, 1) if k != n])

            def f():
                v.real.values = np.array([self.number() for _ in range(m)])

            e, _ = self.call(tags, "write of wrong length", f, (TimeseriesPointsValuesMismatchError, ParameterReadonlyError))
            self.chk(e is not None, tags, "{} values could be written to {} with {} values", m, node.name, n)
            self.chk(isinstance(e, ParameterReadonlyError if parent else TimeseriesPointsValuesMismatchError), ("C02",) if parent else tags, "wrong error {!r}", e)
            self.audit()
            if node.written:
                self.read_ts(v)
            return
        nums = [self.number() for _ in range(n)]
        if op == "full" and not parent and rng.random() < 0.6:
            cur = None
            new = np.array(nums, dtype=float)
            arg = rng.choice([new.copy(), new.copy(), new.tolist(), tuple(new.tolist())])
            if v.kind == "x":
                arg = new

            def f():
                v.real.values = arg

        elif op == "full" or (not node.written and not parent):
            new = np.array(nums, dtype=float)
            arg = new.copy()
            src = None
            if rng.random() < 0.2 and not parent:
                # write the values of another view
                o = [w for w in self.views if w.kind == v.kind and w is not v and not w.leaves and w.node is not node and w.node.written and not w.locked and len(w.tps) == len(v.tps)]
                if o:
                    src = rng.choice(o)
                    new = np.asarray(self.current(src), dtype=float)
                    got = np.asarray(src.real.values, dtype=float)
                    self.chk(self.ts_close(src, got, new, False), tags, "read before copying")
                    new = got.copy()
                    arg = src.real.values
            def f():
                v.real.values = arg

        else:
            if parent:
                if any(not l.written for l in (v.leaves or self.leaves(node))):
                    return  # reading raises before anything could be written
                if not v.leaves:
                    return
                cur = np.asarray(self.current(v), dtype=float)
            else:
                cur = self.current(v)
                if cur is None:
                    return
                # half of the writes through held values happen without a
                # read right before them
                blind = bool(v.handles) and rng.random() < 0.5
                if not blind:
                    got = np.asarray(v.real.values, dtype=float).copy()
                    ex = (v.locked and v.pending is not None) or bool(node.last and node.last[0] is v)
                    self.chk(self.ts_close(v, got, cur, ex), tags, "timeseries {} reads {} instead of {}", node.name, list(got), list(cur))
                    cur = got
            if v.handles and (blind or rng.random() < 0.5):
                h = rng.choice(v.handles)
            else:
                h = v.real.values
                v.handles.append(h)
            new = np.array(cur, dtype=float)
            if op == "item":
                i = rng.randrange(-n, n)
                new[i] = nums[0]

                def f():
                    h[i] = nums[0]

            elif op == "slice":
                i, j = sorted((rng.randint(0, n), rng.randint(0, n)))
                new[i:j] = nums[0]

                def f():
                    h[i:j] = nums[0]

            elif op == "fancy":
                mask = np.array([rng.random() < 0.5 for _ in range(n)])
                new[mask] = nums[0]

                def f():
                    h[mask] = nums[0]

            elif op == "out":
                w = np.array(nums)
                if rng.random() < 0.5:
                    new = np.add(new, w)

                    def f():
                        np.add(h, w, out=h)
                else:
                    new = np.multiply(w, 2.0)

                    def f():
                        np.multiply(w, 2.0, out=h)

            elif op == "handle_iop":
                s = h[:]
                new *= 0.5

                def f():
                    nonlocal s
                    s *= 0.5

            else:
                new += nums[0]

                def f():
                    nonlocal h
                    h += nums[0]

        if parent:
            before = None
            e, _ = self.call(("C02", "C04"), "write to parent", f, (ParameterReadonlyError,))
            self.chk(e is not None, ("C02", "C04"), "parent {} could be written to ({})", node.name, op)
            self.audit()
            self.read(v)
            return
        self.call(tags, "write ({})".format(op), f)
        if blind:
            got = np.asarray(v.real.values, dtype=float).copy()
            self.chk(self.ts_close(v, got, new, False), tags, "timeseries {} reads {} instead of {} after {}", node.name, list(got), list(new), op)
            new = got
        if op == "full" and isinstance(arg, np.ndarray) and arg is not None and rng.random() < 0.5:
            arg[...] = 77.0  # later changes of the array passed in are not writes
        if v.locked:
            v.pending = new
        else:
            self.published(v, new)
        if rng.random() < 0.6:
            self.read_ts(v)
        self.audit()

    def lock(self, v):
        node = v.node
        if v.locked:
            self.sig.append("unlock {}".format("|".join(node.name)))
            self.call(("C05",), "unlock", v.real.unlock)
            v.locked = False
            if v.pending is not None:
                self.published(v, v.pending)
                v.pending = None
            self.audit()
            for o in self.views:
                if o.node is node:
                    self.read_ts(o)
        else:
            if self.others_locked(v):
                return
            if v.leaves:
                # a view of a parent has nothing to publish
                if self.rng.random() < 0.3:
                    v.real.lock()
                    self.call(("C02",), "unlock of parent", v.real.unlock, (ParameterReadonlyError,))
                    self.audit()
                return
            if not node.written:
                return
            self.sig.append("lock {}".format("|".join(node.name)))
            v.real.lock()
            v.locked = True
            v.pending = None

    def info(self):
        r, n = self.address()
        if n == ("",):
            return
        k = self.rng.random()
        if k < 0.2:
            n = n + (self.rng.choice(self.names),)
        elif k < 0.3:
            r = r + (self.rng.choice(self.names),)
        elif k < 0.35:
            r = (self.rng.choice(self.names),) + r[1:]
        self.sig.append("info {}@{}".format("|".join(n), "|".join(r)))
        for _ in range(2):
            _, i = self.call(("C01",), "info", lambda: self.ps.info(self.spell(n), region=self.spell(r)))
            self.chk((i is not None) == ((r, n) in self.nodes), ("C01",),
                     "info on {} in {} gives {} although {}requested", n, r, i, "" if (r, n) in self.nodes else "not ")
        if i is not None:
            self.chk(tuple(i.name) == n and tuple(i.region) == r, ("C01",), "info on {} in {} reports {} in {}", n, r, i.name, i.region)

    def step(self):
        rng = self.rng
        op = rng.choices(list(self.focus["ops"]), list(self.focus["ops"].values()))[0]
        if op == "request" or not self.views:
            self.request()
        elif op == "info":
            self.info()
        else:
            v = rng.choice(self.views[-8:]) if rng.random() < 0.7 else rng.choice(self.views)
            if op == "read":
                self.read(v)
            elif op == "readall":
                for w in self.views:
                    self.read(w)
            elif op == "write":
                if v.kind in ("scalar", "generic"):
                    self.write_scalar(v)
                else:
                    self.write_ts(v)
            elif op == "lock" and v.kind in ("average", "point"):
                self.lock(v)

    def run(self, n):
        try:
            for _ in range(n):
                self.step()
                if self.rng.random() < 0.15:
                    self.audit()
            self.audit()
            for w in self.views:
                self.read(w)
        except Stop as e:
            e.sig = tuple(self.sig)
            raise
        return tuple(self.sig)


def hash_of(x):
    return sum(ord(c) * (i + 1) for i, c in enumerate(repr(x)))


FOCUS = {
    "C01": dict(kinds=["scalar", "generic", "scalar", "point"], ops=dict(request=6, info=5, read=1, write=1), n=(5, 30)),
    "C02": dict(kinds=["scalar", "average", "point", "generic"], ops=dict(request=6, info=1, read=1, write=4, readall=0.3, lock=0.3), n=(5, 40)),
    "C03": dict(kinds=["scalar", "generic", "scalar"], ops=dict(request=4, read=4, write=5, readall=1), n=(5, 40)),
}


def world(focus):
    f = FOCUS[focus]

    def fn(rng):
        w = World(rng, f)
        w.names = w.names[: rng.choice([1, 2, 3])] if focus in ("C03",) else w.names
        return w.run(rng.randint(*f["n"]))

    return fn


def tree(rng):
    """C04: build a hierarchy, view its parents at various moments, write leaves"""
    kind = rng.choice(["scalar", "scalar", "average", "point"])
    w = World(rng, dict(kinds=[kind], ops=dict(read=3, write=5, readall=2, request=2, lock=0.5), n=(0, 0)))
    w.dims = [rng.choice(["mass", "emissions", "temperature", "forcing"])]
    names = ["p", "q", "r", "s"]
    depth = rng.randint(2, 4)
    region = (w.root,) + (("R",) if rng.random() < 0.3 else ())
    paths = set()
    for _ in range(rng.randint(1, 7)):
        d = rng.randint(2, depth)
        paths.add(("top",) + tuple(rng.choice(names) for _ in range(d - 1)))
    # only leaves
    leaves = [p for p in paths if not any(q != p and q[: len(p)] == p for q in paths)]
    rng.shuffle(leaves)
    order = list(leaves)
    w.address_queue = order

    def forced(addr):
        w.address = lambda: addr

    orig = w.address
    for p in order:
        w.address = lambda p=p: (region, p)
        w.request()
        if rng.random() < 0.6:
            v = w.views[-1]
            (w.write_scalar if kind == "scalar" else w.write_ts)(v)
    # parents in any order
    parents = sorted({p[:i] for p in leaves for i in range(1, len(p))})
    rng.shuffle(parents)
    for p in parents[: rng.randint(1, len(parents))]:
        w.address = lambda p=p: (region, p)
        w.request()
        if rng.random() < 0.5:
            w.read(w.views[-1])
    allp = [(region, p) for p in leaves + parents]

    def addr():
        if rng.random() < 0.1:
            r, p = rng.choice(allp)
            return r, p + (rng.choice(names),)
        return rng.choice(allp)

    w.address = addr
    return w.run(rng.randint(3, 25))


def types_refused(rng):
    """C04: leaves of another type are refused"""
    kinds = ["scalar", "average", "point", "generic"]
    w = World(rng, dict(kinds=kinds, ops=dict(read=3, write=5, request=3), n=(0, 0)))
    w.dims = ["mass"]
    k1 = rng.choice(kinds[:3])
    n = rng.randint(1, 3)
    odd = rng.randrange(n)
    for i in range(n):
        p = ("top",) + (("mid",) if rng.random() < 0.5 else ()) + ("l%d" % i,)
        w.address = lambda p=p: ((w.root,), p)
        k2 = k1
        if i == odd:
            k2 = rng.choice([k for k in kinds if k != k1])
        w.focus["kinds"] = [k2]
        w.request()
        if rng.random() < 0.5:
            v = w.views[-1]
            (w.write_scalar if k2 in ("scalar", "generic") else w.write_ts)(v)
    w.address = lambda: ((w.root,), ("top",))
    w.focus["kinds"] = [k1]
    r = w.rng
    save = r.random
    try:
        r.random = lambda: 0.99  # keep the kind asked for
        w.request()
    finally:
        r.random = save
    raise Stop()


def series(rng):
    """C05: several views of one timeseries parameter"""
    kind = rng.choice(["average", "point"])
    w = World(rng, dict(kinds=[kind], ops=dict(read=4, write=7, readall=0.5, request=1.5, lock=1.2), n=(0, 0)))
    w.dims = [rng.choice(["mass", "emissions", "temperature", "forcing", "conc"])]
    paths = [("p",), ("q", "r")][: rng.choice([1, 1, 2])]
    w.address = lambda: ((w.root,), rng.choice(paths))
    for _ in range(rng.randint(1, 3)):
        w.request()
    return w.run(rng.randint(3, 30))


def unlock_readers(rng):
    """C05: writes while locked are only seen by others after unlocking"""
    kind = rng.choice(["average", "point"])
    w = World(rng, dict(kinds=[kind], ops={}, n=(0, 0)))
    w.dims = [rng.choice(["mass", "emissions"])]
    w.address = lambda: ((w.root,), ("p",))
    for _ in range(rng.randint(2, 3)):
        w.request()
    v = rng.choice(w.views)
    while not v.node.written:
        w.write_ts(v)
    u = rng.choice(w.views)
    w.lock(u)
    for _ in range(rng.randint(1, 4)):
        w.write_ts(u)
        for o in w.views:
            if o is not u and rng.random() < 0.7:
                w.read_ts(o)
    w.lock(u)
    return tuple(w.sig)


def whole_numbers(rng):
    """C05: all values are written as whole numbers, in lists, as other kinds of floats; every view and handle shows the last write"""
    kind = rng.choice(["average", "point"])
    n = rng.randint(3, 6)
    times = np.array([i * 31536000 for i in range(n + (kind == "average"))], dtype="datetime64[s]")
    ps = ParameterSet()
    views = [ps.timeseries("p", "K", times, timeseries_type=kind) for _ in range(rng.randint(2, 3))]
    handles, sig = {}, []
    for _ in range(rng.randint(2, 5)):
        k = rng.randrange(len(views))
        how = rng.choice(["ints", "floats", "list", "float32", "list of ints"])
        vs = np.array([rng.randint(-9, 9) for _ in range(n)], dtype=float)
        if how in ("floats", "list"):
            vs += 0.25
        views[k].values = {"ints": lambda: vs.astype(int), "floats": vs.copy, "list": vs.tolist, "float32": lambda: vs.astype("float32"),
                           "list of ints": lambda: [int(x) for x in vs]}[how]()
        sig.append((k, how))
        for j in rng.sample(range(len(views)), len(views)):
            if rng.random() < 0.7:
                handles[j] = views[j].values
                got = np.array(handles[j], dtype=float)
                if not close(got, vs):
                    raise Tagged({"C05"}, "view {} reads {} instead of {} (writes: {})".format(j, list(got), list(vs), sig))
            elif j in handles:
                got = np.array(handles[j], dtype=float)
                if not close(got, vs):
                    raise Tagged({"C05"}, "a handle of view {} shows {} instead of {} (writes: {})".format(j, list(got), list(vs), sig))
    return tuple(sig)


KINDS = {
    "C01": [Kind("histories", world("C01"))],
    "C02": [Kind("histories", world("C02"), 2), Kind("trees", tree, 1), Kind("series", series, 0.5)],
    "C03": [Kind("histories", world("C03"))],
    "C04": [Kind("trees", tree, 4), Kind("types", types_refused, 1)],
    "C05": [Kind("series", series, 3), Kind("locks", unlock_readers, 1), Kind("integers", whole_numbers, 0.5)],
}
