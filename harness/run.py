"""
python -m harness.run PROP [--seed N] [--budget S] [--max N] [--out FILE]
python -m harness.run --replay FILE
"""
import argparse
import importlib
import json
import logging
import os
import sys
import warnings

MODULES = {}
for _p, _m in (
    [("C%02d" % i, "h_core") for i in range(1, 6)]
    + [("C%02d" % i, "h_units") for i in (6, 7, 8)]
    + [("C%02d" % i, "h_time") for i in (9, 10, 11, 21)]
    + [("C%02d" % i, "h_adapter") for i in (12, 13)]
    + [("C%02d" % i, "h_df") for i in (14, 15, 16, 17, 18, 19, 20, 22, 23, 24)]
):
    MODULES[_p] = _m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--all", action="store_true", help="do not stop at the first failure")
    ap.add_argument("--replay")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    if a.replay:
        rp = json.load(open(a.replay))
        a.prop = rp["property"]
    try:
        mod = importlib.import_module("harness." + MODULES[a.prop])
    except Exception as e:  # pylint: disable=broad-except
        import traceback

        txt = traceback.format_exc()
        res = {"import_error": txt, "evaluations": 0, "distinct": 0, "failures": [], "errors": [], "samples": [], "kinds": {}}
        if a.out:
            json.dump(res, open(a.out, "w"))
        print(txt)
        return 3
    from harness import base

    warnings.simplefilter("ignore")
    kinds = mod.KINDS[a.prop]
    if a.replay:
        k = [k for k in kinds if k.name == rp["kind"]][0]
        status, msg, _ = base.run_case(k, rp["sub"], a.prop)
        print(status)
        print(msg)
        return 1 if status == "fail" else 0
    res = base.run_prop(a.prop, kinds, a.seed, a.budget, a.max, stop_at_first=not a.all)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1)[:6000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
