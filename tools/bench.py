"""
Runs the deductive part (or the whole check) against changed copies of the repository.

    python3 tools/bench.py tools/bench/c05.py [-k substr] [--bounded]

(--bounded: the bounded stand-in instead of the deductive part)

A bench file defines CASES = [(name, property, kind, [(file, old, new), ...])] with kind "bug"
(must be refuted or failed) or "same" (behaviour kept: must not be).
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(case):
    name, prop, kind, edits = case
    d = tempfile.mkdtemp(prefix="bench-")
    try:
        shutil.copytree("/repo/openscm", d + "/openscm", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "openscm", f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "EDIT DOES NOT APPLY: %r" % old[:60]
            s = s.replace(old, new, 1)
            if p.endswith(".py"):
                compile(s, p, "exec")
            open(p, "w").write(s)
        out = d + "/out.json"
        if "--bounded" in sys.argv:
            env = dict(os.environ, PYTHONPATH=d + ":" + VERIF, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            ps = [subprocess.Popen(["/opt/venv/bin/python", "-m", "harness.run", prop.upper(), "--seed", str(s), "--budget", "25", "--out", out + str(s)],
                                   cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for s in (1, 2, 3)]
            bad, err = [], []
            for s, p in zip((1, 2, 3), ps):
                p.wait(120)
                r = json.load(open(out + str(s)))
                bad += r["failures"]
                err += r["errors"]
            ok = bool(bad) == (kind == "bug")
            return name, "%s %-4s %d failures, %d errors %s" % ("ok  " if ok else "MISS" if kind == "bug" else "ALARM", kind, len(bad), len(err), (bad or err or [{"message": ""}])[0]["message"][:150])
        try:
            subprocess.run(["python3-vt", "-m", "pyvc.l1", prop, "--repo", d, "--budget", "200", "--jobs", "3", "--out", out], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            return name, "TIMEOUT"
        r = json.load(open(out))
        st = {}
        for o in r["obligations"]:
            st.setdefault(o["status"], []).append(o["name"])
        bad = st.get("refuted", []) + st.get("failed", [])
        und = [o["name"] + " " + o["detail"][:100].replace("\n", " ") for o in r["obligations"] if o["status"] == "undecided"]
        ok = bool(bad) if kind == "bug" else not bad
        return name, "%s %-4s %s" % ("ok  " if ok and not (kind == "same" and und) else "part" if ok else "MISS" if kind == "bug" else "ALARM", kind, "; ".join(bad[:2]) or "; ".join(und[:2]))
    finally:
        shutil.rmtree(d)


def main():
    ks = [sys.argv[i + 1] for i, a in enumerate(sys.argv) if a == "-k"]
    cases = []
    for f in sys.argv[1:]:
        if f.endswith(".py"):
            cases += runpy.run_path(f)["CASES"]
    cases = [c for c in cases if not ks or any(k in c[0] for k in ks)]
    with ThreadPoolExecutor(3) as ex:
        for n, r in ex.map(run, cases):
            print("%-34s %s" % (n, r[:260]), flush=True)


main()
