"""
Deductive part of a check:  python3-vt -m pyvc.l1 C06 --repo /repo --out l1.json

Runs the verification units of specs/<property>.py.  Each unit executes the real functions
(parsed from the repository on every run) symbolically against its contracts.
"""
import argparse
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    def __init__(self, name, fn, functions, contracts, covers, max_paths, assumptions, soft=False):
        self.soft = soft
        self.name, self.fn, self.functions = name, fn, functions
        self.contracts, self.covers, self.max_paths = contracts, covers, max_paths
        self.assumptions = assumptions


class Verifier:
    """Collects the units of a property."""

    def __init__(self, prop, repo, tier):
        self.prop, self.repo, self.tier = prop, repo, tier
        self.units = []
        self.assumptions = []
        self.trusted = []

    def unit(self, name, functions=(), contracts=(), covers=(), max_paths=400, assumptions=(), soft=False):
        """
        Decorator: fn(it, ctx) runs on every path and states obligations.

        soft: the proof needs loop invariants fitted to the present form of a loop; an obligation
        that fails without them is reported as undecided, never as a violation.
        """

        def deco(fn):
            self.units.append(
                Unit(name, fn, list(functions), list(contracts), list(covers), max_paths, list(assumptions), soft)
            )
            return fn

        return deco

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def trust(self, text):
        if text not in self.trusted:
            self.trusted.append(text)


UNROLL = 3


def confirm(v, u, ctx, budget):
    """
    An obligation that fails on a path through a loop summarised by generated invariants may fail
    for want of an invariant.  The unit is run again with every such loop unrolled exactly, up to
    UNROLL iterations: a failure is kept if it shows there, and undecided otherwise.
    """
    from . import core, models
    from .interp import Interp

    c = core.Ctx(v.prop, u.name)
    c.unroll = UNROLL
    c.deadline = time.time() + max(20, min(90, budget))
    c.covered = set(u.covers)
    why = "no violation with up to %d iterations of the loops" % UNROLL
    try:
        it = Interp(v.repo)
        models.install(it)

        def one():
            if time.time() > c.deadline:
                raise core.Unsupported("time budget exhausted")
            it.reset()
            u.fn(it, c)

        c.explore(one, max_paths=u.max_paths * 3)
    except Exception as e:
        why = "not explored with unrolled loops: %r" % (e,)
    bad = {o.name for o in c.obls if o.status in ("refuted", "failed")}
    return {o.name: "loop invariants insufficient (%s)\n" % why for o in ctx.obls if o.name not in bad}


def run_unit(v, u, budget):
    """One unit; returns a JSON-able dict."""
    from . import core
    from .core import Ctx, PathAbort, PyExc, Unsupported
    from .interp import Interp, LoopCarried
    from . import models

    t0 = time.time()
    res = {"unit": u.name, "obligations": [], "called": [], "used": [], "covers": [], "error": None}
    ctx = Ctx(v.prop, u.name)
    ctx.deadline = t0 + budget
    ctx.covered = set()
    it = None
    paths = {"n": 0}
    try:
        it = Interp(v.repo)
        models.install(it)

        def one():
            paths["n"] += 1
            if time.time() > ctx.deadline:
                raise Unsupported("time budget exhausted")
            it.reset()
            u.fn(it, ctx)

        ctx.explore(one, max_paths=u.max_paths)
    except Unsupported as e:
        res["error"] = "outside the supported subset: %s" % e
    except LoopCarried as e:
        res["error"] = "outside the supported subset: loop %s" % e
    except PyExc as e:
        res["error"] = "uncaught exception in the specification: %r" % (e.value,)
    except RecursionError:
        res["error"] = "recursion limit"
    except Exception as e:
        res["error"] = "internal: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    unconfirmed = {}
    if ctx.abstracted and any(o.status in ("refuted", "failed") for o in ctx.obls):
        unconfirmed = confirm(v, u, ctx, budget - (time.time() - t0))
    agg = {}
    for o in ctx.obls:
        if o.status in ("refuted", "failed") and o.name in unconfirmed:
            o.status, o.detail = "unknown", unconfirmed[o.name] + o.detail
        a = agg.setdefault(o.name, {"n": 0, "st": {}, "t": 0.0, "be": set(), "detail": ""})
        a["n"] += 1
        a["st"][o.status] = a["st"].get(o.status, 0) + 1
        a["t"] += o.t
        a["be"].add(o.backend)
        if o.status != "proved" and not a["detail"]:
            a["detail"] = o.detail
        if o.status == "refuted" or o.status == "failed" and not a["st"].get("refuted"):
            a["detail"] = o.detail
    for name, a in agg.items():
        st = "refuted" if a["st"].get("refuted") else "failed" if a["st"].get("failed") else "undecided" if a["st"].get("unknown") else "proved"
        if u.soft and st in ("refuted", "failed"):
            st = "undecided"
        res["obligations"].append(
            {
                "name": "%s :: %s" % (u.name, name), "status": st, "instances": a["n"],
                "backend": "+".join(sorted(a["be"])), "time": round(a["t"], 3), "detail": a["detail"][:3000],
            }
        )
    if res["error"]:
        res["obligations"].append(
            {"name": "%s :: all paths explored" % u.name, "status": "undecided", "instances": 1,
             "backend": "", "time": 0.0, "detail": res["error"]}
        )
    else:
        missing = [c for c in u.covers if c not in ctx.covered]
        if missing or not agg:
            res["obligations"].append(
                {"name": "%s :: not vacuous" % u.name, "status": "undecided", "instances": 1,
                 "backend": "", "time": 0.0, "detail": "not reached: %s" % missing}
            )
    if it is not None:
        res["called"] = sorted(it.called)
        res["used"] = sorted(it.used_contracts)
    res["paths"] = paths["n"]
    res["covers"] = sorted(ctx.covered)
    res["time"] = round(time.time() - t0, 2)
    res["solver_s"] = round(core.STATS.solver_s, 2)
    res["queries"] = core.STATS.queries
    return res


def child(v, u, budget, out):
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    sys.setrecursionlimit(20000)
    r = run_unit(v, u, budget)
    with open(out + ".tmp", "w") as fh:
        json.dump(r, fh)
    os.rename(out + ".tmp", out)


def run_all(v, budget, jobs, tmp, only=None):
    t0 = time.time()
    todo = [u for u in v.units if not only or only in u.name]
    running = {}
    results = {}
    n = 0
    per_unit = max(60, budget * 0.8)
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            out = os.path.join(tmp, "unit-%d-%d.json" % (os.getpid(), n))
            n += 1
            if os.path.exists(out):
                os.unlink(out)
            left = t0 + budget - time.time()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    child(v, u, min(per_unit, max(5, left)), out)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (u, out, time.time())
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in running:
            u, out, _ = running.pop(pid)
            try:
                results[u.name] = json.load(open(out))
            except (OSError, ValueError):
                results[u.name] = None
            if os.path.exists(out):
                os.unlink(out)
            continue
        if time.time() > t0 + budget + 15:
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                u, out, _ = running[p]
                results[u.name] = None
                os.waitpid(p, 0)
                del running[p]
            for u in todo:
                results[u.name] = None
            todo = []
            break
        time.sleep(0.02)
    return results


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=240)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    v = Verifier(a.prop, a.repo, a.tier)
    mod = importlib.import_module("specs." + a.prop.lower())
    mod.build(v)
    tmp = os.path.dirname(os.path.abspath(a.out)) if a.out else "/tmp"
    results = run_all(v, a.budget, a.jobs, tmp, a.only)
    obs, called, used, backends, fns = [], set(), set(), {}, []
    solver = 0.0
    units = []
    assumptions = list(v.assumptions)
    for u in v.units:
        if a.only and a.only not in u.name:
            continue
        r = results.get(u.name)
        fns += [f for f in u.functions if f not in fns]
        for x in u.assumptions:
            if x not in assumptions:
                assumptions.append(x)
        if r is None:
            obs.append({"name": u.name + " :: all paths explored", "status": "undecided", "backend": "", "time": 0, "detail": "time or memory limit", "instances": 1})
            continue
        obs += r["obligations"]
        called |= set(r["called"])
        used |= set(r["used"])
        solver += r["solver_s"]
        units.append({k: r[k] for k in ("unit", "paths", "time", "solver_s", "queries", "covers")})
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + o["instances"]
    out = {
        "property": a.prop,
        "obligations": obs,
        "functions": fns,
        "inlined": sorted(called - set(fns)),
        "contracts_used": sorted(used),
        "assumptions": assumptions,
        "trusted_base": v.trusted,
        "backends": backends,
        "solver_s": round(solver, 2),
        "units": units,
        "extraction": "functions are parsed from the repository with ast on every run; nothing is copied; "
        "dropped: docstrings, annotations, decorators abstractmethod and functools.wraps, module-level expression statements",
    }
    if a.out:
        with open(a.out, "w") as fh:
            json.dump(out, fh, indent=1)
    if a.verbose or not a.out:
        for o in obs:
            print("%-9s %4d %6.2fs %-12s %s" % (o["status"], o["instances"], o["time"], o["backend"], o["name"]))
            if o["status"] != "proved":
                print("    " + o["detail"].replace("\n", "\n    ")[:1500])
        for x in units:
            print("unit %s: %d paths, %.1f s (solver %.1f s, %d queries), covers %s" % (x["unit"], x["paths"], x["time"], x["solver_s"], x["queries"], x["covers"]))
        print("functions:", fns)
        print("inlined:", out["inlined"])
        print("contracts used:", out["contracts_used"])


if __name__ == "__main__":
    main()
