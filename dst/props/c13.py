"""C13: binning requests are honoured exactly or refused without effect."""
import numpy as np

from .. import ref
from .. import spec as G
from ..world import World, close, exc_name
from . import common as C

NEEDS_SHAP = False
QUICK, THOROUGH = 4000, 150000
ASSUMES = ["a row on an edge between two bins counts for both (the closed intervals the binning itself uses)"]


FULL = {"Fixed": {"nof_bins": 100, "min_points_per_bin": 10, "cat_limit": 15},
        "Greedy": {"init_nof_bins": 100, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15},
        "DynamicProgramming": {"max_nof_bins": 20, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15}}


def leave_out(r, b):
    """Rely on the default of a setting or two."""
    if isinstance(b, dict) and r.random() < 0.12:
        for k in r.sample(sorted(FULL[b["b"]]), r.choice([1, 1, 2])):
            b.pop(k, None)
    return b


def wild_binning(r, cls, N):
    return leave_out(r, _wild_binning(r, cls, N))


def _wild_binning(r, cls, N):
    cat = r.choice([0, 1, 2, 5, 10, 15, 25])
    mp = r.choice([0, 0, 1, 2, 3, 5, 10, N // 3, N // 2, N // 2 + 1, N - 1, N, N + 1])
    nb = r.choice([1, 2, 3, 5, 8, 20, 50])
    c = r.random()
    if cls == "ALE":
        if c < 0.15:
            return "fixed"
        return {"b": "Fixed", "nof_bins": nb, "min_points_per_bin": mp, "cat_limit": cat}
    if c < 0.12:
        return r.choice(["fixed", "greedy", "dp"])
    if c < 0.4:
        return {"b": "Fixed", "nof_bins": nb, "min_points_per_bin": mp, "cat_limit": cat}
    if c < 0.72:
        return {"b": "Greedy", "init_nof_bins": r.choice([1, 2, 5, 10, 20, 50, 100]), "min_points_per_bin": mp, "discount": r.choice([0.0, 0.1, 0.3, 0.9]), "cat_limit": cat}
    return {"b": "DynamicProgramming", "max_nof_bins": r.choice([1, 2, 3, 4, 6, 9, 12]), "min_points_per_bin": mp, "discount": r.choice([0.0, 0.1, 0.3, 0.9]), "cat_limit": cat}


def generate(r):
    cls = r.choice(["ALE", "RHALE", "RHALE", "RHALE"])
    d = G.gen_data(r, nmin=12, nmax=60, dmin=1, dmax=3, ints=r.random() < 0.1, kinds=("uni", "norm", "cat", "grid", "skew", "ties", "int", "big", "tiny") + (("const",) if r.random() < 0.2 else ()))
    ep = {"data": d, "model": G.gen_model(r, d, smooth=r.random() < 0.4, scale=r.choice([1.0, 1.0, 1e-3, 1e3, 1e5])), "np_seed": r.randrange(2**31), "faults": [], "latency": 0.0}
    X = G.make_data(d)
    N, D = X.shape
    kw = C.gen_ctor(r, cls, ep, X, sample=True)
    kw["avg_output"] = 0.5
    ep["model"]["terms"] = [t for t in ep["model"]["terms"] if not ({d["cols"][i]["k"] for i in t[1:-1] if isinstance(i, int)} & {"big"}) or t[0] == "lin"]
    if cls == "RHALE" and not kw.get("eff"):
        kw["jac"] = True
    if kw.get("limits"):
        for j in range(D):
            if not kw["limits"][0][j] < kw["limits"][1][j]:
                kw["limits"][0][j], kw["limits"][1][j] = float(X[:, j].min()) - 0.5, float(X[:, j].max()) + 0.5
    ops = [{"op": "seed", "s": ep["np_seed"]}, {"op": "new", "e": "e0", "cls": cls, "kw": kw}]
    L = C.limits_of(kw, X)
    for _ in range(r.randint(2, 7)):
        c = r.random()
        if c < 0.68:
            op = C.gen_fit(r, "e0", cls, D, N, bins=wild_binning)
            if r.random() < 0.6:
                op["features"] = r.randrange(D)
        elif c < 0.95:
            op = C.gen_eval(r, "e0", cls, D, L)
        else:
            op = C.gen_plot(r, "e0", cls, D)
        ops.append(op)
    ep["ops"] = ops
    if r.random() < 0.12:
        ep["faults"] = C.gen_faults(r, ep, ["model", "alloc"], 1, ops=set(range(2, len(ops))))
    return ep


DEFAULT = {"ALE": "fixed", "RHALE": "greedy"}
NAMED = {"fixed": {"b": "Fixed", "nof_bins": 20, "min_points_per_bin": 0, "cat_limit": 15},
         "greedy": {"b": "Greedy", "init_nof_bins": 100, "min_points_per_bin": 0, "discount": 0.3, "cat_limit": 15},
         "dp": {"b": "DynamicProgramming", "max_nof_bins": 20, "min_points_per_bin": 0, "discount": 0.3, "cat_limit": 15}}


class Request:
    """What a binning request promises for one feature."""

    def __init__(self, cls, cfg, x, lo, hi):
        b = cfg.get("binning") or DEFAULT[cls]
        b = NAMED[b] if isinstance(b, str) else b
        self.b = b = dict(FULL[b["b"]], **b)
        self.minp = b["min_points_per_bin"]
        self.x, self.lo, self.hi = x, lo, hi
        u = np.unique(x)
        self.u = u
        self.cat = len(u) <= b["cat_limit"]
        self.most = b.get("nof_bins", b.get("init_nof_bins", b.get("max_nof_bins")))

    def count(self, a, b):
        t = 1e-9 * (1e-12 + abs(self.hi - self.lo))
        return int(np.sum((self.x >= a - t) & (self.x <= b + t)))

    def feasible(self):
        if len(self.x) < max(1, self.minp):
            return False
        if len(self.u) < 2:
            return False if self.cat or self.b["b"] != "Fixed" else None
        if self.cat:
            d = np.diff(self.u)
            lim = np.concatenate([[self.u[0] - d[0] / 2], self.u[:-1] + d / 2, [self.u[-1] + d[-1] / 2]])
        elif self.b["b"] == "Fixed":
            lim = np.linspace(self.lo, self.hi, self.b["nof_bins"] + 1)
        else:
            return True if len(self.x) > self.most else None
        if len(self.x) <= len(lim) - 1:
            return None            # possibly no bin has the two rows a variance needs
        sure = [int(np.sum((self.x >= a) & (self.x <= b))) >= self.minp for a, b in zip(lim[:-1], lim[1:])]
        if all(sure):
            return True
        return False if any(self.count(a, b) < self.minp for a, b in zip(lim[:-1], lim[1:])) else None

    def breach(self, lim):
        """Why these limits break the promise, or None."""
        lim = np.asarray(lim, dtype=float)
        if lim.ndim != 1 or len(lim) < 2 or not np.isfinite(lim).all():
            return "the limits are %r" % (lim,)
        if not (np.diff(lim) > 0).all():
            return "the limits are not strictly increasing: %s" % lim
        if self.cat:
            if len(lim) - 1 != len(self.u):
                return "%d bins for %d categories" % (len(lim) - 1, len(self.u))
            if any(int(np.sum((self.u >= a) & (self.u <= b))) != 1 for a, b in zip(lim[:-1], lim[1:])):
                return "the bins %s do not hold one category each of %s" % (lim, self.u)
        else:
            t = 1e-9 * (abs(self.lo) + abs(self.hi)) + 2e-8 * min(1.0, self.hi - self.lo)
            if lim[0] > self.lo + t or lim[-1] < self.hi - t or lim[0] < self.lo - t or lim[-1] > self.hi + t:
                return "the bins span [%.9g, %.9g], the feature's axis is [%.9g, %.9g]" % (lim[0], lim[-1], self.lo, self.hi)
            if len(lim) - 1 > self.most:
                return "%d bins although at most %d were asked for" % (len(lim) - 1, self.most)
            if self.b["b"] == "Fixed" and len(lim) - 1 != self.most:
                return "%d bins although %d were asked for" % (len(lim) - 1, self.most)
        n = [self.count(a, b) for a, b in zip(lim[:-1], lim[1:])]
        if min(n) < self.minp:
            return "a bin holds %d points although at least %d were asked for (bins %s)" % (min(n), self.minp, lim)
        return None


def limits_in_force(w, name, s):
    """The bins the explainer uses for a feature, None when it is not fitted."""
    ex = w.E[name]
    fe = ex.feature_effect
    if not bool(ex.is_fitted[s]) and "feature_%d" % s not in fe:
        return None
    return np.array(fe["feature_%d" % s]["limits"], dtype=float)


def answer(w, name, s, x0):
    return w.quiet(lambda: [np.array(v) for v in w.E[name].eval(s, np.array(x0, dtype=float), True, False)])


def check(ep):
    res = C.Result()
    w = World(ep)
    track = C.Result()
    j = C.GlobalJudge(w, track)
    j.use_def = False
    D = w.X0.shape[1]
    cls = ep["ops"][1]["cls"]
    for i, op in enumerate(ep["ops"]):
        if op["op"] == "fit" and "e0" in w.E:
            L = j.limits("e0")
            before = {}
            for s in range(D):
                lim = limits_in_force(w, "e0", s)
                g = np.linspace(L[0][s], L[1][s], 7)
                try:
                    before[s] = (lim, None if lim is None else answer(w, "e0", s, g), g)
                except Exception as e:
                    res.bad("bad-state", "a fitted feature cannot be evaluated: %s" % exc_name(e), i)
            if res.violations:
                break
        rec = w.do(op, i)
        if op["op"] == "new" and rec["status"] != "ok":
            break
        j.observe(rec)
        if op["op"] == "seed":
            continue
        R = j.rows["e0"]
        L = j.limits("e0")

        def req(s, cfg):
            return Request(cls, cfg, R[ref.rows_in(R, L, s), s], L[0][s], L[1][s])
        if op["op"] == "fit":
            cfg = {k: v for k, v in op["kw"].items() if k == "binning"}
            feats = j.features(op["features"])
            feas = {s: req(s, cfg).feasible() for s in feats}
            if rec["status"] == "ok":
                for s in feats:
                    if feas[s] is False:
                        res.bad("infeasible-accepted", "%s feature %d: %s was accepted although no such bins exist (%d rows in range, %d different values)"
                                % (cls, s, cfg.get("binning"), len(req(s, cfg).x), len(req(s, cfg).u)), i)
                    res.probes["requests-honoured"] += 1
            elif not rec["fired"]:
                if all(feas[s] is True for s in feats):
                    res.bad("feasible-refused", "%s features %s: %s was refused with %s although such bins exist" % (cls, feats, cfg.get("binning"), exc_name(rec["exc"])), i)
                res.probes["requests-refused"] += 1
                first = [s for s in feats if feas[s] is not True][:1]
                for s in range(D):
                    # a feature the failed call could not have completed keeps what it had
                    kept = s not in feats or feas[s] is False
                    if not kept or before[s][0] is None or res.violations:
                        continue
                    lim = limits_in_force(w, "e0", s)
                    a = answer(w, "e0", s, before[s][2])
                    if lim is None or not np.array_equal(lim, before[s][0]) or not all(close(p, q, 1e-12) for p, q in zip(a, before[s][1])):
                        res.bad("refusal-had-effect", "%s feature %d answers differently after the refused request %s" % (cls, s, cfg.get("binning")), i)
                    res.probes["refusals-without-effect"] += 1
                _ = first
        if res.violations:
            break
        for s in range(D):
            lim = limits_in_force(w, "e0", s)
            if lim is None:
                continue
            why = [req(s, c).breach(lim) for c in j.state["e0"][s]]
            if all(why):
                res.bad("bins-break-request", "%s feature %d, request %s: %s" % (cls, s, j.state["e0"][s], why[0]), i)
                break
            res.probes["bins-checked"] += 1
        if res.violations:
            break
    return C.finish(res, w)
