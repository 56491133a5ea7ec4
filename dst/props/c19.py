"""C19: calls leave the process as they found it, even when they fail."""
import gc
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import World
from . import c02, c11
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1900, 60000
ASSUMES = ["the first use of an installed package in a process may import more of it; those effects are warmed up before judging"]

PRINTERS = ("show", "describe", "hfit", "hplot")
DRAWERS = ("plot", "hplot")


def printing(r):
    """Printed trees, on a stream that fails somewhere in the middle of them."""
    cls = r.choice([["RegionalPDP"], ["RegionalDerPDP"], ["RegionalALE"], ["RegionalRHALE"]])
    ep = R.gen_session(r, cls, nops=(2, 4), sample=True, nmax=40, deep=0.5, mix={"fit": 5, "eval": 0, "plot": 0, "text": 5, "node": 0})
    fits = [o for o in ep["ops"] if o["op"] == "fit"]
    for o in fits[-1:] * 2:
        ep["ops"].append({"op": r.choice(["show", "describe", "describe"]), "e": o["e"], "features": o["features"], "kw": {}})
    counts, _ = C.profile(ep)
    sites = [(i, n) for (i, seam), n in sorted(counts.items()) if seam == "stdout" and n]
    ep["faults"] = []
    for i, n in sorted(r.sample(sites, min(len(sites), r.choice([1, 2])))):
        ep["faults"].append({"op": i, "seam": "stdout", "n": r.randrange(n), "exc": r.choice(S.STREAM_EXC)})
    return ep


def generate(r):
    printed = r.random() < 0.2
    ep = printing(r) if printed else c02.generate(r)
    ops = ep["ops"]
    e, cls = ops[1]["e"], ops[1]["cls"]
    X = G.make_data(ep["data"])
    D = X.shape[1]
    if cls in G.GLOBAL and r.random() < 0.5:
        lim = C.limits_of(ops[1]["kw"], X)
        for _ in range(r.choice([1, 1, 2])):
            ops.append(c11.rich_plot(r, e, cls, D, lim, X.shape[0]))
    elif cls in ("HIndex", "REPID") and r.random() < 0.7:
        for _ in range(r.choice([1, 2])):
            ops.append({"op": "hplot", "e": e, "kw": {}})
    elif not printed and cls in R.GLOBAL_OF and r.random() < 0.3:
        for _ in range(r.choice([1, 2])):
            ops.append(R.gen_plot(r, e, cls, D))
    if r.random() < (0.1 if printed else 0.4):
        ep["faults"] = []
    ep["process"] = {"err": {k: r.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}, "precision": r.choice([3, 5, 8]),
                     "seed": r.randrange(10**6), "filter": "user-%d" % r.randrange(100), "fig": r.choice([0, 1, 2]), "rc": r.choice([6.0, 9.5, 11.0]), "keep": r.random() < 0.6}
    return ep


class Process:
    """What the user has set up in his process, and a way to look at all of it."""

    def __init__(self, cfg):
        import matplotlib
        import matplotlib.pyplot as plt
        self.plt, self.mpl = plt, matplotlib
        self.back = (np.geterr(), np.get_printoptions(), random.getstate(), list(warnings.filters), sys.stdout, dict(matplotlib.rcParams))
        plt.close("all")
        np.seterr(**cfg["err"])
        np.set_printoptions(precision=cfg["precision"])
        random.seed(cfg["seed"])
        warnings.filterwarnings("ignore", message=cfg["filter"])
        matplotlib.rcParams["font.size"] = cfg["rc"]
        sys.stdout = self.stream = S.SimStream("stdout")
        self.figs = []
        for k in range(cfg["fig"]):
            fig, ax = plt.subplots()
            ax.plot([0, 1, 2], [k, 1, 4], label="mine")
            ax.set_title("user %d" % k)
            self.figs.append(fig)

    def restore(self):
        self.plt.close("all")
        err, po, rs, wf, out, rc = self.back
        np.seterr(**err)
        np.set_printoptions(**po)
        random.setstate(rs)
        warnings.filters[:] = wf
        warnings._filters_mutated()
        sys.stdout = out
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.mpl.rcParams.update(rc)

    def look(self):
        return {"numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
                "random.getstate()": hash(random.getstate()), "warning filters": [tuple(map(str, f)) for f in warnings.filters], "warnings.showwarning": warnings.showwarning,
                "sys.stdout": sys.stdout, "sys.stderr": sys.stderr, "sys.excepthook": sys.excepthook, "recursion limit": sys.getrecursionlimit(),
                "sys.path": list(sys.path), "trace function": sys.gettrace(), "switch interval": sys.getswitchinterval(),
                "working directory": os.getcwd(), "environment": dict(os.environ), "SIGINT handler": signal.getsignal(signal.SIGINT),
                "garbage collector": (gc.isenabled(), gc.get_threshold()), "threads": sorted(t.name for t in threading.enumerate()),
                "matplotlib rcParams": {k: str(v) for k, v in dict.items(self.mpl.rcParams)}, "interactive mode": self.plt.isinteractive()}

    def figures(self):
        return list(self.plt.get_fignums()), (self.plt.gcf().number if self.plt.get_fignums() else None)

    def mine(self):
        """What the user's own figures show."""
        out = []
        for f in self.figs:
            out.append((self.plt.fignum_exists(f.number), [(a.get_title(), len(a.lines), len(a.patches), len(a.collections), len(a.texts), len(a.images), a.get_xlabel(), a.get_ylabel(),
                                                            a.get_xlim(), a.get_ylim(), a.get_legend() is not None) for a in f.axes]))
        return out


def differ(a, b):
    for k in a:
        if k == "environment" or k == "matplotlib rcParams":
            d = {x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)}
            if d:
                return "%s: %s" % (k, ", ".join("%s is %r, was %r" % (x, b[k].get(x), a[k].get(x)) for x in sorted(d)[:3]))
        elif a[k] != b[k]:
            return "%s is %s, was %s" % (k, str(b[k])[:160], str(a[k])[:160])
    return None


_WARM = []


def warm():
    """Have every class do a little of everything once: lazy imports are not the calls' doing."""
    if _WARM:
        return
    _WARM.append(1)
    r = G.rng_for("warm")
    for _ in range(12):
        ep = c02.generate(r)
        ep["faults"] = []
        World(ep).run()


def check(ep):
    warm()
    res = C.Result()
    w = World(ep)
    w.watch = True
    p = Process(ep["process"])
    try:
        for i, op in enumerate(ep["ops"]):
            if op["op"] not in ("seed", "new") and op["e"] not in w.E:
                continue
            if op["op"] == "seed":
                w.do(op, i)
                continue
            a, m, (nums, cur) = p.look(), p.mine(), p.figures()
            rec = w.do(op, i)
            b = p.look()
            what = "%s of %s%s" % (op["op"], w.info.get(op["e"], {}).get("cls") or op.get("cls"), "" if rec["status"] == "ok" else " that failed with %s" % type(rec["exc"]).__name__)
            d = differ(a, b)
            if d:
                res.bad("process-state", "%s changed the process: %s" % (what, d), i)
                break
            res.probes["process-compared"] += 1
            if rec["fired"]:
                res.probes["process-compared-after-fault"] += 1
            if op["op"] not in PRINTERS and rec["out"]:
                res.bad("printed", "%s printed %r" % (what, rec["out"][:80]), i)
                break
            if p.mine() != m:
                res.bad("user-figure", "%s changed a figure of the user's own: %s -> %s" % (what, m, p.mine()), i)
                break
            nums2, cur2 = p.figures()
            new = len(set(nums2) - set(nums))
            if set(nums) - set(nums2):
                res.bad("figure-closed", "%s closed figures %s" % (what, sorted(set(nums) - set(nums2))), i)
                break
            if op["op"] in DRAWERS:
                want = 1
                if op["op"] == "hplot" and w.info[op["e"]]["cls"] == "HIndex":
                    want = int(op["kw"].get("interaction_matrix", True)) + int(op["kw"].get("one_vs_all", True))
                if new > want or rec["status"] == "ok" and new != want:
                    res.bad("figure-count", "%s opened %d figures instead of %d" % (what, new, want), i)
                    break
                if not ep["process"]["keep"]:
                    # the user closes what he has seen
                    for n in set(nums2) - set(nums):
                        p.plt.close(n)
                    if cur is not None:
                        p.plt.figure(cur)
                else:
                    p.figs += [p.plt.figure(n) for n in sorted(set(nums2) - set(nums))]
                res.probes["figures-compared"] += 1
            elif new or cur2 != cur:
                res.bad("figure-opened", "%s opened %d figures (current figure %s, was %s)" % (what, new, cur2, cur), i)
                break
    finally:
        w.quiet(p.restore)
    return C.finish(res, w)
