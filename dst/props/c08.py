"""C08: centering only shifts a curve vertically, by the promised amount, in every history."""
import numpy as np

from .. import ref
from .. import regional as R
from .. import spec as G
from ..world import World
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1600, 60000
TOL = 1e-9


def center_op(r, name, s, node=None):
    order = G.CENTERINGS + [r.choice(G.CENTERINGS)]
    r.shuffle(order)
    op = {"op": "center", "e": name, "feature": s, "order": order, "us": [r.randrange(65) / 64.0 for _ in range(r.choice([2, 5]))],
          "all": r.random() < 0.6, "vec": r.random() < 0.8, "plot": r.random() < 0.15}
    if node is not None:
        op["node"] = node
    return op


def generate(r):
    if r.random() < 0.75:
        c = r.random()
        classes = ["ShapDP"] if c < 0.15 else (["ALE", "RHALE"] if c < 0.6 else ["PDP", "DerPDP"])
        ep, exps, D, N = C.gen_session(r, classes, nops=(1, 5), plots=0.2, sample=True, nexp=(1, 1), nmax=30 if classes == ["ShapDP"] else 60, ints=r.random() < 0.1)
        ops = ep["ops"]
        main = range(2, len(ops))
        if r.random() < 0.2:
            ep["faults"] = C.gen_faults(r, ep, ["model", "jac", "alloc"], 1, ops=set(main))
        focus = [o.get("feature") for o in ops if isinstance(o.get("feature"), int)] + [r.randrange(D)]
        for _ in range(r.choice([1, 1, 2])):
            at = r.randint(2, len(ops))
            if not ep["faults"]:
                ops.insert(at, center_op(r, "e0", r.choice(focus)))
        ops.append(center_op(r, "e0", r.choice(focus)))
    else:
        c = r.random()
        cls = ["RegionalShapDP"] if c < 0.05 else (["RegionalALE", "RegionalRHALE"] if c < 0.55 else ["RegionalPDP", "RegionalDerPDP"])
        ep = R.gen_session(r, cls, nops=(1, 3), sample=True, nmax=44, mix={"fit": 5, "eval": 2, "plot": 1, "text": 1, "node": 0})
        focus = [o.get("feature", o.get("features")) for o in ep["ops"]]
        focus = [f for f in focus if isinstance(f, int)] or [0]
        for _ in range(r.choice([1, 2])):
            ep["ops"].append(center_op(r, "r0", r.choice(focus), r.randrange(4)))
    return ep


def check(ep):
    res = C.Result()
    w = World(ep)
    cls = [o["cls"] for o in ep["ops"] if o["op"] == "new"][0]
    regional = cls.startswith("Regional")
    track = C.Result()                       # other breaches are other properties' business
    j = R.RegionalJudge(w, track) if regional else C.GlobalJudge(w, track)
    j.use_def = False
    for i, op in enumerate(ep["ops"]):
        if op["op"] == "center":
            if op["e"] in w.E:
                (regional_group if regional else global_group)(w, j, res, op, i, cls)
        else:
            rec = w.do(op, i)
            j.observe(rec)
        if res.violations:
            break
    return C.finish(res, w)


def points_of(cfgs):
    return sorted({c.get("points_for_centering", 100) for c in cfgs if c is not None} or {100}, key=str)


def grid(cls, lo, hi, points, own):
    """The centering points, and their weights; `own` are the values of the feature in the rows."""
    if points == "all" and cls.endswith("PDP"):
        return own, np.full(len(own), 1.0 / len(own))
    if cls.endswith("PDP"):
        return np.linspace(lo, hi, points), np.full(points, 1.0 / points)
    if cls.endswith("ALE"):
        g = np.linspace(lo, hi, 2001)
        return 0.5 * (g[1:] + g[:-1]), np.full(2000, 1.0 / 2000)
    g = np.sort(own) if points == "all" else np.linspace(lo, hi, points)
    wt = np.zeros(len(g))
    wt[1:] += 0.5 * np.diff(g)
    wt[:-1] += 0.5 * np.diff(g)
    return g, wt / (hi - lo)


def global_group(w, j, res, op, i, cls):
    name, s = op["e"], op["feature"]
    L = j.limits(name)
    lo, hi = L[0][s], L[1][s]
    x0, x1 = lo, hi
    x = j.rows[name][ref.rows_in(j.rows[name], L, s), s]
    if cls == "ShapDP":
        if len(x) == 0 or x.min() >= x.max():
            return
        x0, x1 = float(x.min()), float(x.max())
    if not lo < hi:
        return
    if len(x) == 0:
        return
    group(w, res, op, i, cls, x0, x1, lo, hi, x, lambda: points_of(j.state[name][s]), lambda o: j.observe(o))


def regional_group(w, j, res, op, i, cls):
    name, s = op["e"], op["feature"]
    # the node's rows, as the library itself reports them
    w.do({"op": "eval", "e": name, "feature": s, "node": 0, "exact": True, "xs": [0.0]}, i)
    rec = w.do({"op": "node", "e": name, "feature": s, "node": op["node"]}, i)
    if rec["status"] != "ok":
        return
    j.implicit(name, s, True)
    x = np.asarray(rec["val"][0], dtype=float)[:, s]
    if len(x) < 2 or not x.min() < x.max():
        return
    lo, hi = float(x.min()), float(x.max())
    group(w, res, dict(op, node=rec["node"]), i, cls, lo, hi, lo, hi, x, lambda: points_of(j.state[name][s]), lambda o: None)


def group(w, res, op, i, cls, x0, x1, lo, hi, own, points, tell):
    name, s = op["e"], op["feature"]
    pts = points()
    grids = {p: grid(cls, x0, x1, p, own) for p in pts}
    us = [lo + u * (hi - lo) for u in op["us"]]
    xs = [x0] + us
    at = {}
    for p in pts:
        at[p] = (len(xs), len(xs) + len(grids[p][0]))
        xs += grids[p][0].tolist()
    got = []
    for k, c in enumerate(op["order"]):
        e = {"op": "eval", "e": name, "feature": s, "xs": xs, "het": True, "centering": c}
        if op["vec"] is False and cls in ("PDP", "DerPDP"):
            e["vec"] = False
        if op["all"] and cls in ("PDP", "DerPDP"):
            e["all"] = True
        if "node" in op:
            e["node"], e["exact"] = op["node"], True
        if op["plot"] and k == 2:
            p = {"op": "plot", "e": name, "feature": s, "kw": {"centering": op["order"][0]}}
            if "node" in op:
                p["node"], p["exact"] = op["node"], True
            w.do(p, i)
        rec = w.do(e, i)
        if rec["status"] != "ok":
            res.probes["refused"] += 1
            return
        v = rec["val"]
        y, het = (v, None) if e.get("all") else v
        if not np.isfinite(y).all():
            res.probes["nonfinite"] += 1
            return
        got.append((c, y, het))
    what = "%s feature %d%s" % (cls, s, ", node %d" % op["node"] if "node" in op else "")
    base = [y for c, y, h in got if c is False][0]
    scale = 1.0 + np.abs(base).max()
    for c, y, h in got:
        if y.shape != base.shape:
            return res.bad("not-a-shift", "%s: the curve under centering %r has shape %s instead of %s" % (what, c, y.shape, base.shape), i)
        d = y - base
        spread = np.abs(d - d[:1]).max()
        if spread > TOL * (scale + np.abs(y).max()):
            return res.bad("not-a-shift", "%s: the curves under centering %r and False differ by more than a constant (by %.6g, order %s)" % (what, c, spread, op["order"]), i)
        if c is False and np.abs(d).max() > TOL * scale:
            return res.bad("not-a-shift", "%s: two uncentered answers differ by %.6g" % (what, np.abs(d).max()), i)
        res.probes["shifts-checked"] += 1
        tol = TOL * (scale + np.abs(y).max())
        if c == "zero_start" and np.abs(y[0]).max() > tol:
            return res.bad("wrong-shift", "%s: zero_start gives %.6g at the start %.6g of the range (order %s)" % (what, np.abs(y[0]).max(), x0, op["order"]), i)
        if c in (True, "zero_integral"):
            ms = []
            for p in pts:
                a, b = at[p]
                m = np.tensordot(grids[p][1], y[a:b], axes=(0, 0))
                ms.append(float(np.abs(m).max()))
            if cls.endswith("ALE"):
                tol += 5e-3 * (y.max() - y.min())
            if min(ms) > tol:
                return res.bad("wrong-shift", "%s: zero_integral leaves a mean of %.6g over the %s centering points (order %s)" % (what, min(ms), pts, op["order"]), i)
        if h is not None and not cls.endswith("PDP"):
            h0 = [x for cc, _, x in got if cc is False][0]
            if np.isfinite(h).all() and np.abs(h - h0).max() > TOL * (1 + np.abs(h0).max()):
                return res.bad("heterogeneity-depends", "%s: the heterogeneity under centering %r differs by %.6g from the one without" % (what, c, np.abs(h - h0).max()), i)
            res.probes["heterogeneity-checked"] += 1
