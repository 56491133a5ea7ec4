"""C17: transformed data has one column per subregion, and the subregions are those of the tree in force."""
import re

import numpy as np

from .. import regional as R
from .. import spec as G
from ..world import World
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 900, 24000


def gen_transform(r, name, ep):
    op = {"op": "transform", "e": name}
    if r.random() < 0.6:
        # other rows of the same kind: outside the fitted range, on the split points, integers
        d = dict(ep["data"], seed=r.randrange(10**9), N=r.choice([1, 2, 7, 30, ep["data"]["N"]]))
        d["N"] = max(d["N"], max([len(c.get("levels", [])) for c in d["cols"]] + [2]))
        d["order"] = r.choice(["C", "F", "view", "ro"])
        op["data"] = d
    op["again"] = r.choice([0, 1, 2])
    return op


def generate(r):
    c = r.random()
    cls = ["RegionalShapDP"] if c < 0.03 else (["RegionalRHALE"] if c < 0.35 else (["RegionalALE"] if c < 0.6 else ["RegionalPDP", "RegionalDerPDP"]))
    ep = R.gen_session(r, cls, nops=(2, 5), sample=True, ints=r.random() < 0.15, nmax=44, deep=r.choice([0.0, 0.6]),
                       mix={"fit": 7, "eval": 1, "plot": 1, "text": 2, "node": 0})
    ops, out = ep["ops"], []
    for op in ops:
        if op["op"] == "fit" and op["features"] != "all" and r.random() < 0.3 and "candidate_conditioning_features" not in op["kw"]:
            op["features"] = "all"
        if op["op"] == "fit" and r.random() < 0.7:
            op["kw"].update(heter_small_enough=0.0, heter_pcg_drop_thres=r.choice([0.0, 0.0, 0.05]))
        out.append(op)
        if op["op"] in ("fit", "plot", "show") and r.random() < 0.6:
            out.append(gen_transform(r, "r0", ep))
    out.append(gen_transform(r, "r0", ep))
    ep["ops"] = out
    if r.random() < 0.3:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["model", "jac"], ["alloc"], ["alloc"]]), r.choice([1, 2]), ops=set(range(2, len(out) - 1)))
    return ep


def expected(j, name, x):
    """[(feature, node, column)] by the trees in force."""
    out = []
    for s in range(j.w.dim):
        tree = R.tree_of(j.w.E[name], s)
        if tree is None:
            out.append((s, None, x[:, s]))
            continue
        by = {n["idx"]: n for n in tree}
        depth = max(n["level"] for n in tree)
        for n in [n for n in tree if n["level"] == depth]:
            m = np.ones(len(x), dtype=bool)
            chain, k = [], n
            while k["parent"] is not None:
                m &= R.holds(x[:, k["foc"]], k["cmp"], k["pos"])
                chain.append(k)
                k = by[k["parent"]]
            out.append((s, chain[::-1], np.where(m, x[:, s], 0.0)))
    return out


def name_ok(text, s, chain):
    head, _, tail = text.partition(" | ")
    if head.strip() != "x%d" % s:
        return False
    if not chain:
        return not tail
    conds = tail.split(" & ")
    if len(conds) != len(chain):
        return False
    for c, n in zip(conds, chain):
        m = re.match(r"^\s*x(\d+)\s*(<=|>=|==|!=|=|<|>)\s*(\S+)\s*$", c)
        if not m or int(m.group(1)) != n["foc"] or m.group(2).replace("==", "=") != n["cmp"].replace("==", "="):
            return False
        if abs(float(m.group(3)) - n["pos"]) > 0.0051 + 1e-6 * abs(n["pos"]):
            return False
    return True


def check_transform(j, rec, val):
    i, res = rec["i"], j.res
    y, names, x = val
    xf = np.asarray(x, dtype=float)
    want = expected(j, rec["op"]["e"], xf)
    if y.shape != (len(xf), len(want)) or len(names) != len(want):
        res.bad("transform-columns", "%d columns, %d names for %d subregions" % (y.shape[-1], len(names), len(want)), i)
        return
    at = 0
    for s in range(j.w.dim):
        mine = [w for w in want if w[0] == s]
        cols, nm = y[:, at:at + len(mine)], names[at:at + len(mine)]
        at += len(mine)
        if not np.allclose(cols.sum(axis=1), xf[:, s], rtol=1e-12, atol=0):
            res.bad("transform-lost", "the columns of feature %d do not add up to the feature" % s, i)
            return
        for k, (_, chain, col) in enumerate(mine):
            if not np.array_equal(cols[:, k], col):
                res.bad("transform-mask", "feature %d, column %d (%s): %d rows differ from the subregion's" % (s, k, nm[k], int(np.sum(cols[:, k] != col))), i)
                return
            if not name_ok(nm[k], s, chain):
                res.bad("transform-name", "feature %d, column %d is named %r; its conditions are %s" % (s, k, nm[k], [(n["foc"], n["cmp"], n["pos"]) for n in chain or []]), i)
                return
            if chain:
                res.probes["subregion-columns"] += 1
    res.probes["transform-compared"] += 1


def check(ep):
    res = C.Result()
    w = World(ep)
    j = R.RegionalJudge(w, res)
    for i, op in enumerate(ep["ops"]):
        if op["op"] == "transform" and op["e"] not in w.E:
            continue
        rec = w.do(op, i)
        if op["op"] != "transform":
            j.observe(rec)
        elif rec["status"] == "ok":
            for val in rec["val"]:
                if not res.violations:
                    w.quiet(lambda: check_transform(j, rec, val))
        elif not rec["fired"]:
            res.bad("spurious-failure", "transform failed with %s: %s without any fault" % (type(rec["exc"]).__name__, rec["exc"]), i)
        if not res.violations and op.get("e") in w.E and op["op"] != "new":
            # neither the splits nor the trees are changed by looking at them, nor by a call that failed
            j.check_state(op["e"], i=i)
        if res.violations:
            break
    return C.finish(res, w)


_ = G
