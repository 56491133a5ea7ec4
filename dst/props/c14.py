"""C14: interaction indices match their definition, are symmetric, and do not depend on the history."""
import re

import numpy as np

from .. import ref
from .. import sim as S
from .. import spec as G
from ..world import World, close, exc_name, worst
from . import common as C

QUICK, THOROUGH = 1500, 60000


def generate(r):
    d = G.gen_data(r, nmin=10, nmax=26, dmin=2, dmax=4, ints=r.random() < 0.1)
    if r.random() < 0.1:
        d["N"] = r.choice([320, 350])        # more rows than the default subsample of a PDP
        d["cols"] = d["cols"][:2]
        if all(c["k"] == "cat" for c in d["cols"]):
            d["cols"][0] = G.gen_col(r, ["uni"])
    ep = {"data": d, "model": G.gen_model(r, d), "np_seed": r.randrange(2**31), "faults": [], "latency": r.choice([0.0, 0.01])}
    big = d["N"] < 300 and r.random() < 0.05
    if big:
        d["N"] = r.choice([33, 65, 66, 90, 129])     # past the sizes at which an implementation may switch to blocks
    X = G.make_data(d)
    N, D = X.shape
    cls = r.choice(["HIndex", "HIndex", "REPID"])
    if N > 300:
        cls = "REPID"
    elif big:
        cls = "HIndex"
    kw = {}
    if r.random() < 0.5:
        kw["nof_instances"] = r.choice(["all", N, N + 5, max(8, N // 2)])
    ops = [{"op": "seed", "s": ep["np_seed"]}, {"op": "new", "e": "h0", "cls": cls, "kw": kw}]
    for _ in range(r.randint(2, 7)):
        c = r.random()
        if cls == "HIndex":
            if c < 0.45:
                i, j = r.sample(range(D), 2)
                ops.append({"op": "hpair", "e": "h0", "i": i, "j": j})
            elif c < 0.65:
                ops.append({"op": "hone", "e": "h0", "i": r.randrange(D)})
            elif c < 0.8:
                ops.append({"op": "hfit", "e": "h0", "kw": r.choice([{}, {}, {"pairwise_matrix": False}, {"one_vs_all": False}])})
            else:
                ops.append({"op": "hplot", "e": "h0", "kw": r.choice([{}, {}, {"interaction_matrix": False}, {"one_vs_all": False}])})
        else:
            if c < 0.5:
                ops.append({"op": "hone", "e": "h0", "i": r.randrange(D)})
            elif c < 0.8:
                ops.append({"op": "hfit", "e": "h0", "kw": r.choice([{}, {"features": r.randrange(D)}, {"features": r.sample(range(D), r.randint(1, D))}])})
            else:
                ops.append({"op": "hplot", "e": "h0", "kw": {}})
    ep["ops"] = ops
    G.gen_out(r, ep)
    if r.random() < 0.4:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["model"], ["model", "alloc"], ["stdout", "gui"], ["alloc"]]), r.choice([1, 2]), ops=set(range(2, len(ops))))
    # afterwards everything is asked
    for i in range(D):
        ops.append({"op": "hone", "e": "h0", "i": i})
        if cls == "HIndex":
            for j in range(D):
                if i < j:
                    ops.append({"op": "hpair", "e": "h0", "i": i, "j": j} if r.random() < 0.5 else {"op": "hpair", "e": "h0", "i": j, "j": i})
    return ep


def constant(R):
    return bool((np.min(R, axis=0) == np.max(R, axis=0)).any())


class Indices:
    def __init__(self, terms, R):
        self.T, self.R, self.memo = terms, np.asarray(R, dtype=float), {}

    def partial(self, feats):
        """Centred partial dependence on `feats` at every row."""
        R = self.R
        n = len(R)
        key = tuple(sorted(feats))
        if key not in self.memo:
            A = np.tile(R, (n, 1)).reshape(n, n, -1)      # A[k, i] = row i
            A[:, :, list(key)] = R[:, None, list(key)]
            y = S.f_terms(self.T, A.reshape(n * n, -1)).reshape(n, n).mean(axis=1)
            self.memo[key] = y - y.mean()
        return self.memo[key]

    def pair(self, i, j):
        a = self.partial([i, j])
        return self.ratio(a - self.partial([i]) - self.partial([j]), a)

    def one(self, i):
        f = S.f_terms(self.T, self.R)
        f = f - f.mean()
        rest = [k for k in range(self.R.shape[1]) if k != i]
        return self.ratio(f - self.partial([i]) - self.partial(rest), f)

    def ratio(self, a, b):
        d = np.mean(b * b)
        return None if d < 1e-9 else float(np.mean(a * a) / d)

    def repid(self, i):
        lo, hi = self.R[:, i].min(), self.R[:, i].max()
        e = np.linspace(lo, hi, 21)
        y = ref.ice(self.T, self.R, i, 0.5 * (e[:-1] + e[1:]))
        y = y - ref.ice(self.T, self.R, i, [lo])[0][None, :]
        return float(y.std(axis=1).mean())


def check(ep):
    res = C.Result()
    w = World(ep)
    ind, seen = None, {}
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        k = op["op"]
        if k == "seed":
            continue
        if rec["status"] == "exc":
            if not rec["fired"]:
                res.bad("spurious-failure", "%s of %s raised %s although no fault was injected" % (k, ep["ops"][1]["cls"], exc_name(rec["exc"])), i)
            if k == "new":
                break
        elif k == "new":
            ex = w.E["h0"]
            n = op["kw"].get("nof_instances", 1000 if op["cls"] == "HIndex" else "all")
            X = np.asarray(w.X0, dtype=float)
            R = X if n == "all" or n >= len(X) else np.array(ex.data, dtype=float)
            if len(R) != (len(X) if n == "all" else min(n, len(X))):
                res.bad("rows", "%d rows instead of %s" % (len(R), n), i)
            ind = Indices(w.terms, R)
            if constant(R):
                res.probes["constant-feature"] += 1      # nothing is defined on an axis of zero width
                break
        elif k in ("hpair", "hone"):
            cls = ep["ops"][1]["cls"]
            key = tuple(sorted((op["i"], op["j"]))) if k == "hpair" else (op["i"],)
            v = float(rec["val"])
            want = (ind.pair(*key) if k == "hpair" else ind.one(*key)) if cls == "HIndex" else ind.repid(*key)
            if want is None:
                res.probes["degenerate"] += 1
            elif not close(v, want, 1e-7):
                res.bad("wrong-index", "%s of features %s is %.9g; by definition it is %.9g" % (cls, key, v, want), i)
            else:
                res.probes["index-compared"] += 1
            if key in seen and np.isfinite(v) and want is not None and not close(v, seen[key], 1e-12):
                res.bad("unstable-index", "%s of features %s was %.12g and is now %.12g" % (cls, key, seen[key], v), i)
            seen[key] = v
        elif k == "hplot":
            check_plot(ep, op, rec, ind, res, i, w.dim, seen)
        if res.violations:
            break
    return C.finish(res, w)


def number(t):
    try:
        return float(t)
    except ValueError:
        return None


def misnamed(ticks):
    """Numbered labels ("feature 3") that are not in the order of the features."""
    num = [(k, re.findall(r"\d+", t)) for k, t in ticks]
    num = [(k, int(v[0])) for k, v in num if len(v) == 1 and k == round(k)]
    return bool(num) and not any(all(v == k + base for k, v in num) for base in (0, 1))


def check_plot(ep, op, rec, ind, res, i, D, seen):
    hindex = ep["ops"][1]["cls"] == "HIndex"
    images = [im for fig in rec["val"] for ax in fig for im in ax["images"] if im.shape == (D, D)]
    bars = [[b[1] for b in ax["bars"]] for fig in rec["val"] for ax in fig if len(ax["bars"]) == D]
    if hindex and op["kw"].get("interaction_matrix", True):
        if len(images) != 1:
            return res.bad("wrong-drawing", "%d interaction matrices are drawn" % len(images), i)
        for a in range(D):
            for b in range(D):
                want = ind.pair(a, b) if a < b else (ind.pair(b, a) if b < a else None)
                if want is not None and not close(images[0][a, b], want, 1e-7):
                    return res.bad("wrong-drawing", "the matrix drawn has %.9g for features %d, %d; it is %.9g" % (images[0][a, b], a, b, want), i)
        if "image" in seen and not close(images[0], seen["image"], 1e-9):
            return res.bad("wrong-drawing", "the matrix is drawn differently the second time: %s" % worst(images[0], seen["image"]), i)
        seen["image"] = images[0]
        ax = [ax for fig in rec["val"] for ax in fig if any(im.shape == (D, D) for im in ax["images"])][0]
        for (x, y), t in zip(ax["at"], ax["texts"]):
            a, b = int(round(y)), int(round(x))
            want = ind.pair(min(a, b), max(a, b)) if a != b and 0 <= a < D and 0 <= b < D else None
            if want is not None and number(t) is not None and abs(number(t) - want) > 0.006 * max(1, abs(want)):
                return res.bad("wrong-drawing", "the cell of features %d, %d says %s; the index is %.6g" % (a, b, t, want), i)
        if misnamed(ax["ticks"][0]) or misnamed(ax["ticks"][1]):
            return res.bad("wrong-drawing", "the matrix labels its features %s" % (ax["ticks"],), i)
    if op["kw"].get("one_vs_all", True):
        if len(bars) != 1:
            return res.bad("wrong-drawing", "%d bar charts are drawn" % len(bars), i)
        ax = [ax for fig in rec["val"] for ax in fig if len(ax["bars"]) == D and not ax["images"]]
        if ax and (not close(ax[0]["mid"], np.arange(D), 1e-9) or misnamed(ax[0]["ticks"][1])):
            return res.bad("wrong-drawing", "the bars are at %s, labelled %s" % (ax[0]["mid"], ax[0]["ticks"][1]), i)
        for a in range(D):
            want = ind.one(a) if hindex else ind.repid(a)
            if want is not None and not close(bars[0][a], want, 1e-7):
                return res.bad("wrong-drawing", "the bar of feature %d is %.9g; it is %.9g" % (a, bars[0][a], want), i)
    res.probes["plot-compared"] += 1
