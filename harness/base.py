"""
Bounded harness: runs the real code of /repo on generated inputs and histories and
compares what it does with independent oracles.

It never counts as proof.  It is used to (1) look for a failing input when an obligation
fails, (2) cross-check trusted contracts, (3) stand in - labelled bounded - for what is
out of reach of the deductive verifier.
"""
import random
import sys
import time
import traceback

import numpy as np

REPO = None


class Violation(Exception):
    """The code under test breaks the property under test"""


class Stop(Exception):
    """Stop this case quietly (state outside of what the property speaks about)"""


class Tagged(Violation):
    def __init__(self, tags, msg):
        super().__init__(msg)
        self.tags = tags


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def raises(exc, f, what):
    """`f` must raise one of `exc`"""
    try:
        r = f()
    except exc as e:
        return e
    except Exception as e:  # pylint: disable=broad-except
        raise Violation(
            "{}: raised {!r} instead of {}".format(what, e, _names(exc))
        ) from e
    raise Violation("{}: returned {!r} instead of raising {}".format(what, r, _names(exc)))


def runs(f, what):
    """`f` must not raise"""
    try:
        return f()
    except (Violation, Stop):
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation("{}: raised {!r}".format(what, e)) from e


def _names(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


def close(a, b, rtol=1e-9, atol=0.0, scale=None):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if scale is None:
        fin = np.abs(b[np.isfinite(b)]) if b.size else b
        scale = fin.max() if fin.size else 0.0
    nan = np.isnan(a) == np.isnan(b)
    ok = (np.abs(a - b) <= atol + rtol * max(scale, 1e-300)) | (a == b) | np.isnan(a)
    return bool(np.all(nan & ok))


class Kind:
    def __init__(self, name, fn, weight=1.0, rule=""):
        self.name = name
        self.fn = fn
        self.weight = weight
        self.rule = rule


def in_repo(exc):
    """does the traceback of `exc` end in code of the repository?"""
    tb = traceback.extract_tb(exc.__traceback__)
    return any("/openscm/" in f.filename and "/harness/" not in f.filename for f in tb)


def run_case(kind, sub, prop):
    """returns (status, message, signature)"""
    rng = random.Random(sub)
    np.random.seed(sub % (2 ** 32))
    try:
        sig = kind.fn(rng)
        return "ok", "", sig
    except Stop as e:
        return "ok", "", getattr(e, "sig", None) or "stop"
    except Tagged as e:
        if prop in e.tags:
            return "fail", str(e), None
        return "other", str(e), None
    except Violation as e:
        return "fail", str(e), None
    except RecursionError as e:
        return "fail", "RecursionError", None
    except Exception as e:  # pylint: disable=broad-except
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if in_repo(e):
            return "fail", "unexpected exception: {!r}\n{}".format(e, txt), None
        return "error", txt, None


def run_prop(prop, kinds, seed, budget, max_cases, stop_at_first=True):
    rng = random.Random("{}-{}".format(prop, seed))
    t0 = time.time()
    res = {
        "evaluations": 0,
        "distinct": 0,
        "failures": [],
        "errors": [],
        "other": 0,
        "kinds": {},
        "samples": [],
    }
    seen = set()
    sched = []
    for k in kinds:
        res["kinds"][k.name] = 0
    names = [k for k in kinds]
    weights = [k.weight for k in kinds]
    i = 0
    while i < max_cases and time.time() - t0 < budget:
        # every kind at least once, then by weight
        kind = names[i] if i < len(names) else rng.choices(names, weights)[0]
        sub = rng.getrandbits(48)
        status, msg, sig = run_case(kind, sub, prop)
        i += 1
        res["evaluations"] += 1
        res["kinds"][kind.name] += 1
        if status == "ok":
            h = (kind.name, sig)
            if sig not in (None, "stop") and h not in seen:
                seen.add(h)
                if len(res["samples"]) < 5:
                    res["samples"].append("{}: {}".format(kind.name, str(sig)[:200]))
        elif status == "fail":
            res["failures"].append({"kind": kind.name, "sub": sub, "message": msg[:2000]})
            if stop_at_first:
                break
        elif status == "error":
            res["errors"].append({"kind": kind.name, "sub": sub, "message": msg[-1500:]})
            if len(res["errors"]) > 20:
                break
        else:
            res["other"] += 1
    res["distinct"] = len(seen)
    res["wall_s"] = time.time() - t0
    return res
