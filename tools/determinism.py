#!/usr/bin/env python
"""determinism.py [PROP...] [--n N]: the same seeds, run again, with other numbers of workers and under
other hash seeds, must give the same digest over every event and every returned bit."""
import argparse
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(prop, n, seed, workers, hashseed):
    env = dict(os.environ, DST_NO_EVIDENCE="1", DST_HASHSEED=hashseed)
    out = subprocess.run([os.path.join(HERE, "check.sh"), prop, "--n", str(n), "--seed", str(seed), "--workers", str(workers)],
                         env=env, capture_output=True, text=True).stdout
    m = re.search(r"digest ([0-9a-f]+)", out)
    return m.group(1) if m else "no digest:\n" + out[-800:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    bad = 0
    for p in a.props or ["C%02d" % i for i in range(1, 20) if i != 16]:
        ds = [digest(p, a.n, a.seed, w, h) for w, h in ((1, "0"), (3, "0"), (8, "12345"))]
        ok = len(set(ds)) == 1
        bad += not ok
        print(p, "same" if ok else "DIFFERENT", ds[0] if ok else ds, flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
