"""C18: automatic bins are those of least cost (dp), or of the published left-to-right merging (greedy)."""
import numpy as np

from .. import ref
from .. import sim as S
from ..world import World, exc_name
from . import c13
from . import common as C

NEEDS_SHAP = False
QUICK, THOROUGH = 2600, 100000
ASSUMES = ["rows within rounding of a bin edge may count for either side", "costs that differ by rounding only count as equal"]


def auto_binning(r, cls, N):
    return c13.leave_out(r, _auto_binning(r, cls, N))


def _auto_binning(r, cls, N):
    mp = r.choice([0, 1, 2, 2, 3, 3, 5, 8, N // 5, N // 3])
    cat = r.choice([0, 1, 2, 5, 10])
    disc = r.choice([0.0, 0.1, 0.3, 0.3, 0.9])
    if r.random() < 0.08:
        return r.choice(["greedy", "dp"])
    if r.random() < 0.5:
        return {"b": "Greedy", "init_nof_bins": r.choice([2, 3, 5, 10, 20, 50]), "min_points_per_bin": mp, "discount": disc, "cat_limit": cat}
    return {"b": "DynamicProgramming", "max_nof_bins": r.choice([2, 3, 4, 5, 6, 8, 11]), "min_points_per_bin": mp, "discount": disc, "cat_limit": cat}


def generate(r):
    while True:
        ep = c13.generate(r)
        if ep["ops"][1]["cls"] == "RHALE":
            break
    N = ep["data"]["N"]
    fits = [op for op in ep["ops"] if op["op"] == "fit"]
    for op in fits:
        if r.random() < 0.9:
            op["kw"]["binning"] = auto_binning(r, "RHALE", N)
    if not ep["faults"] and r.random() < 0.2:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["jac", "model"], ["alloc"]]), 1, ops=set(range(2, len(ep["ops"]))))
    return ep


class Cost:
    """Cost of a bin of the automatic methods, as an interval: rows on an edge may count or not."""

    def __init__(self, x, e, lo, hi, minp, discount):
        self.x, self.e, self.lo, self.hi, self.minp, self.discount = x, e, lo, hi, minp, discount
        self.t = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
        self.n = len(x)
        self.memo = {}

    def one(self, e, w):
        """(cost, allowed) of a bin with effects e."""
        if len(e) < self.minp:
            return np.inf, False
        if len(e) == 0:
            return np.nan, True
        v = e - e.mean()
        return float((v * v).mean()) * w * (1 - self.discount * len(e) / self.n), True

    def __call__(self, a, b):
        """[(cost, allowed)] over the readings of the edges."""
        k = (a, b)
        if k not in self.memo:
            t, x = self.t, self.x
            out = []
            for l in ((a - t), (a + t)):
                for h in ((b + t), (b - t)):
                    # the ends of the axis are never in doubt
                    l2 = a - t if a <= self.lo + t else l
                    h2 = b + t if b >= self.hi - t else h
                    out.append(self.one(self.e[(x >= l2) & (x <= h2)], b - a))
            self.memo[k] = sorted(set(out), key=repr)
        return self.memo[k]

    def zero(self, w):
        m = float(np.abs(self.e).max()) if self.n else 0.0
        return 1e-11 * m * m * w


def grid(lo, hi, k):
    return lo + (hi - lo) * np.arange(k + 1) / k


def snap(lim, g, t):
    """Indices of limits on the grid, or None."""
    out = []
    for v in lim:
        i = int(np.argmin(np.abs(g - v)))
        if abs(g[i] - v) > t:
            return None
        out.append(i)
    return out


def dp_breach(c, lim, K):
    g = grid(c.lo, c.hi, K)
    ix = snap(lim, g, c.t)
    if ix is None:
        return "the limits %s are not on the grid of %d equal cells" % (lim, K)

    def lohi(a, b):
        # an empty bin is never allowed
        v = [np.inf if (not ok or np.isnan(cost)) else cost for cost, ok in c(g[a], g[b])]
        return min(v), max(v)
    best = [0.0] + [np.inf] * K
    back = [None] * (K + 1)
    for j in range(1, K + 1):
        for i in range(j):
            v = best[i] + lohi(i, j)[1]
            if v < best[j]:
                best[j], back[j] = v, i
    mine = sum(lohi(a, b)[0] for a, b in zip(ix[:-1], ix[1:]))
    if not np.isfinite(best[K]):
        return None
    tol = 1e-7 * best[K] + K * c.zero((c.hi - c.lo) / K)
    if mine > best[K] + tol:
        p, j = [K], K
        while j:
            j = back[j]
            p.append(j)
        return "bins %s cost %.9g, bins %s of the same grid cost %.9g" % (lim, mine, g[p[::-1]], best[K])
    return None


def decisions(c, left, g, i):
    """May the greedy scan close / keep open the bin [left, g[i+1]] before the last cell?"""
    out = set()
    for c1, ok1 in c(left, g[i + 1]):
        for c2, ok2 in c(left, g[i + 2]):
            if not (ok1 and ok2):
                out.add(False)
                continue
            if np.isnan(c1) or np.isnan(c2):      # an empty bin has no variance to compare
                return {True, False}
            z1, z2 = c.zero(g[i + 1] - left), c.zero(g[i + 2] - left)
            if c1 <= z1 and c2 <= z2:
                return {True, False}
            if abs(c1 - c2) <= 1e-7 * max(c1, c2) + z2:
                return {True, False}
            out.add(c2 > c1)
    return out


def greedy_breach(c, lim, K):
    g = grid(c.lo, c.hi, K)
    ix = snap(lim, g, c.t)
    if ix is None:
        return "the limits %s are not on the grid of %d equal cells" % (lim, K)

    def path(raw):
        """Is `raw` (grid indices) what the scan closes?"""
        left = 0
        for i in range(K - 1):
            closed = (i + 1) in raw
            if closed not in decisions(c, g[left], g, i):
                return "the scan %s at %.9g (bin from %.9g, next limit %.9g)" % ("closes" if closed else "does not close", g[i + 1], g[left], g[i + 2])
            if closed:
                left = i + 1
        return None
    valid = {ok for _, ok in c(g[ix[-2]], g[ix[-1]])}
    why = None
    if True in valid:
        why = path(set(ix))
        if why is None:
            return None
    # or the scan closed once more, and the last bin was too small and was merged
    for m in range(ix[-2] + 1, K):
        if False in {ok for _, ok in c(g[m], g[K])}:
            w = path(set(ix) | {m})
            if w is None:
                return None
            why = why or w
    return "bins %s are not those of the left-to-right merging: %s" % (lim, why or "the last bin has too few points")


def breach(w, j, s, cfg, lim):
    """Why these limits are not the ones the request describes; None: they are, or nothing is promised."""
    R, L = j.rows["e0"], j.limits("e0")
    kw = w.info["e0"]["kw"]
    m = ref.rows_in(R, L, s)
    x = R[m, s]
    q = c13.Request("RHALE", cfg, x, L[0][s], L[1][s])
    b = q.b
    if q.cat or b["b"] == "Fixed" or len(q.u) < 2:
        return None
    minp = q.minp
    if len(x) < 2 * max(1, minp) or np.allclose(q.lo, q.hi) or q.most < 2:
        return None
    e = S.jac_terms(w.terms, R)[m, s] * float(kw.get("eff") or 1.0)
    lim = np.asarray(lim, dtype=float)
    if lim.ndim != 1 or len(lim) < 2 or not np.isfinite(lim).all():
        return "the limits are %r" % (lim,)
    c = Cost(x, e, q.lo, q.hi, minp, b["discount"])
    if abs(lim[0] - q.lo) > c.t or abs(lim[-1] - q.hi) > c.t:
        return "the bins span [%.9g, %.9g], the axis is [%.9g, %.9g]" % (lim[0], lim[-1], q.lo, q.hi)
    return (dp_breach if b["b"] == "DynamicProgramming" else greedy_breach)(c, lim, q.most)


def check(ep):
    res = C.Result()
    w = World(ep)
    j = C.GlobalJudge(w, C.Result())
    j.use_def = False
    D = w.X0.shape[1]
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        if op["op"] == "new" and rec["status"] != "ok":
            break
        j.observe(rec)
        if op["op"] == "seed":
            continue
        for s in range(D):
            try:
                lim = c13.limits_in_force(w, "e0", s)
            except Exception as e:
                res.bad("bad-state", "the bins of a fitted feature cannot be read: %s" % exc_name(e), i)
                break
            if lim is None:
                continue
            why = [breach(w, j, s, c, lim) for c in j.state["e0"][s]]
            if all(why):
                res.bad("bins-not-optimal", "RHALE feature %d, request %s: %s" % (s, j.state["e0"][s], why[0]), i)
                break
            res.probes["auto-bins-checked"] += 1
        if res.violations:
            break
    return C.finish(res, w)
