"""
The check of one property:  python3-vt -m pyvc.check C01 [--tier quick|thorough]

1. deductive part (pyvc.l1): obligations generated from /repo's current source against
   the contracts in specs/, decided by z3 / cvc5;
2. bounded part (harness, run against the real code): looks for a failing input for a
   failed obligation, and stands in - labelled bounded - for what is undecided.

Exit 0: no violation; exit 1: VIOLATION line.
"""
import argparse
import hashlib
import json
import os
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PYV = sys.executable

# (bounded budget in s, obligation budget in s)
TIERS = {"quick": (25, 240), "thorough": (420, 780)}
WORKERS = 6


def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))

    return f


def start_bounded(prop, seed, tier, tmp, budget):
    procs = []
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO + ":" + VERIF
    env["PYTHONHASHSEED"] = str(seed % 4294967295)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    for i in range(WORKERS):
        out = os.path.join(tmp, "bounded-{}.json".format(i))
        if os.path.exists(out):
            os.unlink(out)
        procs.append(
            (
                out,
                subprocess.Popen(
                    [PY, "-m", "harness.run", prop, "--seed", "{}-{}".format(seed, i), "--budget", str(budget), "--out", out],
                    cwd=VERIF,
                    env=env,
                    stdout=subprocess.DEVNULL,
                    stderr=subprocess.PIPE,
                    preexec_fn=limit(6),
                    start_new_session=True,
                ),
            )
        )
    return procs


def finish_bounded(procs, deadline):
    total = {"evaluations": 0, "distinct": 0, "failures": [], "errors": [], "kinds": {}, "samples": [], "import_errors": [], "workers": len(procs), "lost": 0}
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            total["lost"] += 1
            continue
        try:
            r = json.load(open(out))
        except Exception:  # pylint: disable=broad-except
            total["lost"] += 1
            total["import_errors"].append((err or b"").decode(errors="replace")[-1500:])
            continue
        if r.get("import_error"):
            total["import_errors"].append(r["import_error"])
        total["evaluations"] += r["evaluations"]
        total["distinct"] += r["distinct"]
        total["failures"] += r["failures"]
        total["errors"] += r["errors"]
        for k, v in r["kinds"].items():
            total["kinds"][k] = total["kinds"].get(k, 0) + v
        total["samples"] += r["samples"][:2]
    total["samples"] = total["samples"][:8]
    return total


def start_l1(prop, tier, tmp, budget):
    out = os.path.join(tmp, "l1.json")
    if os.path.exists(out):
        os.unlink(out)
    if not os.path.exists(os.path.join(VERIF, "specs", prop.lower() + ".py")):
        return None
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    p = subprocess.Popen(
        [PYV, "-m", "pyvc.l1", prop, "--repo", REPO, "--budget", str(budget), "--out", out, "--tier", tier],
        cwd=VERIF,
        env=env,
        stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE,
        preexec_fn=limit(16),
        start_new_session=True,
    )
    return out, p


def finish_l1(h, deadline):
    if h is None:
        return {"obligations": [], "functions": [], "assumptions": [], "note": "no deductive part"}
    out, p = h
    err = b""
    try:
        _, err = p.communicate(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
    try:
        return json.load(open(out))
    except Exception:  # pylint: disable=broad-except
        return {
            "obligations": [
                {"name": "generation", "status": "undecided", "detail": (err or b"").decode(errors="replace")[-2000:]}
            ],
            "functions": [],
            "assumptions": [],
            "note": "obligations could not be generated",
        }


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in TIERS else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence")
    tmp = os.path.join(evid, "tmp-" + prop)
    os.makedirs(tmp, exist_ok=True)
    b_budget, o_budget = TIERS[tier]
    l1h = start_l1(prop, tier, tmp, o_budget)
    procs = start_bounded(prop, seed, tier, tmp, b_budget)
    bounded = finish_bounded(procs, time.time() + b_budget + 90)
    l1 = finish_l1(l1h, t0 + o_budget + 30)

    findings = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    mine = [f for f in findings if f["property"] == prop]

    def listed(f):
        return any(k["kind"] == f["kind"] and k["match"] in f["message"] for k in mine)

    failures = [f for f in bounded["failures"] if not listed(f)]
    if not failures and any(o["status"] in ("refuted", "failed") for o in l1["obligations"]):
        # an obligation fails: search longer for an input that shows it
        more = finish_bounded(start_bounded(prop, seed + 7919, tier, tmp, 120), time.time() + 200)
        failures = [f for f in more["failures"] if not listed(f)]
        for k in ("evaluations", "distinct"):
            bounded[k] += more[k]
    for k in mine:
        print("KNOWN-FINDING: property={} {}".format(prop, k["what"]))

    obs = l1["obligations"]
    failed = [o for o in obs if o["status"] in ("refuted", "failed")]
    undecided = [o for o in obs if o["status"] not in ("proved", "refuted", "failed")]
    proved = [o for o in obs if o["status"] == "proved"]

    violations = 0
    line = None
    if failures or failed:
        violations = 1
        os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
        path = os.path.join(evid, "replays", "{}.json".format(prop))
        if failures:
            f = failures[0]
            rep = {
                "property": prop,
                "kind": f["kind"],
                "sub": f["sub"],
                "message": f["message"],
                "failed_obligations": failed,
                "how": "cd /verif && PYTHONPATH=/repo:/verif {} -m harness.run --replay {}".format(PY, path),
            }
            line = "VIOLATION property={} replay={}".format(prop, path)
        else:
            rep = {
                "property": prop,
                "failed_obligations": failed,
                "note": "the verifier does not accept these obligations (refuted: with a model; failed: quantifiers instantiated without "
                "contradiction); the bounded search found no failing input",
            }
            line = "VIOLATION property={} replay={} no-failing-input-found".format(prop, path)
        json.dump(rep, open(path, "w"), indent=1)

    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = [c["level"] for c in manifest["checks"] if c["property"] == prop]
    level = level[0] if level else "other"
    coverage = {
        "obligations": len(obs),
        "discharged": len(proved),
        "refuted": len(failed),
        "undecided": len(undecided),
        "checker_cmd": "python3-vt -m pyvc.l1 {} --repo {}".format(prop, REPO),
        "trusted_base": l1.get("trusted_base", []),
        "functions_under_contract": l1.get("functions", []),
        "contracts_used_at_calls": l1.get("contracts_used", []),
        "units": l1.get("units", []),
        "functions_inlined": l1.get("inlined", []),
        "back_ends": l1.get("backends", {}),
        "solver_s": l1.get("solver_s", 0),
        "obligation_list": [
            {k: o.get(k) for k in ("name", "status", "backend", "time", "detail") if o.get(k) not in (None, "")} for o in obs
        ],
        "extraction": l1.get("extraction", ""),
        "evaluations": bounded["evaluations"],
        "distinct_nontrivial": bounded["distinct"],
        "rule": "bounded stand-in: random inputs and histories run on the real code and compared with an oracle; a case "
        "counts as distinct and non-trivial if it ran to its end and its input differs from all earlier ones of its worker",
        "samples": bounded["samples"] or ["none"],
        "bounded_kinds": bounded["kinds"],
        "bounded_errors": [e["kind"] + ": " + e["message"][-300:] for e in bounded["errors"][:5]],
        "bounded_workers_lost": bounded["lost"],
        "explanation": "obligations are generated from the current source and decided by SMT solvers; "
        "the bounded part never counts as proof",
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": l1.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)
    print(
        "{}: {} obligations, {} proved, {} refuted, {} undecided; bounded: {} cases ({} distinct), {} failures, {} errors; {:.0f} s".format(
            prop, len(obs), len(proved), len(failed), len(undecided), bounded["evaluations"], bounded["distinct"], len(failures), len(bounded["errors"]), time.time() - t0
        )
    )
    for o in failed[:5]:
        print("  failed obligation: {}".format(o["name"]))
    for o in undecided[:5]:
        print("  undecided (bounded stand-in decides): {} {}".format(o["name"], str(o.get("detail", ""))[:200]))
    for e in (bounded["import_errors"][:1] or []):
        print("  bounded part could not start: " + e[-500:])
    if failures:
        print("  " + failures[0]["kind"] + ": " + failures[0]["message"][:600])
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
