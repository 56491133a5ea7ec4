#!/usr/bin/env python
"""check.py PROP [--tier quick|thorough] [--seed N] [--n EPISODES] | check.py --replay FILE"""
import argparse
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from dst import boot, runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        # nothing to compile: prove that the code under test imports and the seams install
        boot.boot(need_shap=True)
        print("ready: effector from %s" % boot.REPO)
        return 0
    if a.replay:
        import json
        prop = json.load(open(a.replay))["property"]
        boot.boot(need_shap=runner.load_light(prop)["NEEDS_SHAP"])
        doc, v = runner.replay_file(a.replay)
        if v is None:
            print("no violation: %s" % a.replay)
            return 0
        print("%s: %s" % (v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1
    return runner.main(a.prop, a.tier, a.seed, a.n, a.workers, a.out)


if __name__ == "__main__":
    boot.reexec_if_needed()
    try:
        rc = main()
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        print("HARNESS-ERROR")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
