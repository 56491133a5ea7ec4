"""C15: the model is only asked what the method needs."""
import inspect

import numpy as np

from .. import ref
from .. import regional as R
from .. import spec as G
from ..world import World, close, exc_name, worst
from . import c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1300, 40000
ASSUMES = ["an ALE edge is an edge of the bins in force; for regional ALE any position within half a gap of the feature's range",
           "a numerical derivative may move one feature by up to 1e-5 of its size"]


# ------------------------------------------------------------------ generation
def generate(r):
    c = r.random()
    if c < 0.5:
        classes = ["ShapDP"] if c < 0.08 else (["RHALE"] if c < 0.18 else (["ALE"] if c < 0.3 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(3, 8), plots=0.1, sample=True, nmax=26 if classes == ["ShapDP"] else 50, ints=r.random() < 0.15)
        if r.random() < 0.4:
            nonvec(ep)
        for op in ep["ops"]:
            if op["op"] == "new":
                op["kw"].pop("avg_output", None)
                if r.random() < 0.5:
                    op["kw"]["avg_output"] = r.choice([1.25, 0.0])
        # the same feature again, with a centering that is (or is not) the fitted one
        out = []
        for op in ep["ops"]:
            out.append(op)
            if op["op"] == "eval" and r.random() < 0.4:
                out.append(dict(op, het=r.random() < 0.5, centering=r.choice([op["centering"], False, r.choice(G.CENTERINGS)])))
        ep["ops"] = out
    elif c < 0.85:
        cls = ["RegionalShapDP"] if c < 0.53 else (["RegionalRHALE", "RegionalALE"] if c < 0.66 else ["RegionalPDP", "RegionalDerPDP"])
        ep = R.gen_session(r, cls, nops=(2, 5), sample=True, nmax=44, ints=r.random() < 0.1, mix={"fit": 4, "eval": 5, "plot": 2, "text": 1, "node": 1})
        if r.random() < 0.5:
            nonvec(ep)
    else:
        ep = c14.generate(r)
        ep["faults"] = []
        if ep["data"]["N"] > 100:
            ep["data"]["N"] = 40
        return ep
    if ep.get("capacity") is None and r.random() < 0.15:
        ep["faults"] = C.gen_faults(r, ep, ["model", "jac"], 1, ops=set(range(2, len(ep["ops"]))))
    return ep


def nonvec(ep):
    """A model of limited capacity, and a user who knows it."""
    X = G.make_data(ep["data"])
    cls = {o["e"]: o["cls"] for o in ep["ops"] if o["op"] == "new"}
    if not all(c in ("PDP", "DerPDP", "RegionalPDP", "RegionalDerPDP") for c in cls.values()):
        return
    ep["capacity"] = X.shape[0]
    for o in ep["ops"]:
        if o["op"] == "fit":
            o["kw"]["use_vectorized"] = False
        elif o["op"] == "eval" and not cls[o["e"]].startswith("Regional"):
            o["vec"] = False
        elif o["op"] == "plot" and not cls[o["e"]].startswith("Regional"):
            o["kw"]["use_vectorized"] = False
    if any(c.startswith("Regional") for c in cls.values()):
        # an unfitted regional feature would be fitted with the vectorised default
        done, out = set(), []
        for o in ep["ops"]:
            if o["op"] == "fit":
                done |= set(range(X.shape[1])) if o["features"] == "all" else ({o["features"]} if isinstance(o["features"], int) else set(o["features"]))
            if o["op"] in ("eval", "plot", "show", "describe", "node"):
                f = o.get("features", o.get("feature"))
                need = set(range(X.shape[1])) if f == "all" else ({f} if isinstance(f, int) else set(f))
                if not need <= done:
                    continue
            out.append(o)
        ep["ops"] = out


# ------------------------------------------------------------------ the oracle
_MIX = np.random.RandomState(12345).randint(1, 2**62, size=64).astype(np.uint64) * np.uint64(2) + np.uint64(1)


def rowset(a):
    """A 64-bit fingerprint of every row."""
    v = np.ascontiguousarray(np.asarray(a, dtype=float) + 0.0).view(np.uint64)
    v = (v ^ (v >> np.uint64(29))) * np.uint64(0xBF58476D1CE4E5B9)
    v = (v ^ (v >> np.uint64(32))) * _MIX[None, :v.shape[1]]
    return v.sum(axis=1, dtype=np.uint64)


class Rows:
    """Which questions are legal for an explainer holding rows R."""

    def __init__(self, R):
        self.R = np.asarray(R, dtype=float) + 0.0
        self.D = self.R.shape[1]
        self.sets = {}

    def others(self, s):
        if s not in self.sets:
            keep = [j for j in range(self.D) if j not in s]
            self.sets[s] = (keep, rowset(self.R[:, keep]))
        return self.sets[s]

    def replaced(self, q, s, lo, hi, step, edges=None):
        """Rows of R with at most feature s replaced by a value in [lo, hi] (or one of edges); step: one
        feature may be moved a little. Returns the illegal rows, and why the first of them is illegal."""
        q = np.asarray(q, dtype=float)
        keep, ok = self.others((s,) if s is not None else ())
        bad = ~np.isin(rowset(q[:, keep]), ok)
        for i in np.where(bad)[0] if step else ():
            bad[i] = not self._stepped(q[i], s, keep)
        if bad.any():
            why = "row %s is none of the explainer's rows with %s" % (q[np.argmax(bad)].tolist(), "feature %d replaced" % s if s is not None else "nothing replaced")
        if s is not None and not bad.all():
            if edges is None:
                t = (1e-5 * (1 + np.abs(q[:, s])) if step else 0) + 1e-9 * (abs(lo) + abs(hi) + 1e-300)
                out = (q[:, s] < lo - t) | (q[:, s] > hi + t)
                what = "outside [%.9g, %.9g]" % (lo, hi)
            else:
                e = np.sort(np.asarray(edges, dtype=float))
                k = np.clip(np.searchsorted(e, q[:, s]), 1, len(e) - 1)
                d = np.minimum(np.abs(q[:, s] - e[k - 1]), np.abs(q[:, s] - e[k]))
                out = d > 1e-7 * (1e-12 + abs(hi - lo) + np.abs(e).max())
                what = "which is no edge of its bins %s" % e
            if out.any() and not bad.any():
                why = "feature %d is set to %.9g, %s" % (s, q[np.argmax(out), s], what)
            bad = bad | out
        return q[bad], (why if bad.any() else None)

    def any_of(self, q, ways):
        """Every row is legal in one of several ways."""
        why = None
        for w in ways:
            q, why1 = self.replaced(q, *w)
            why = why or why1
            if not len(q):
                return None
        return why

    def _stepped(self, row, s, keep):
        d = np.abs(self.R[:, keep] - row[keep])
        t = 1e-5 * (1 + np.abs(row[keep]))
        return bool((((d != 0).sum(axis=1) <= 1) & (d <= t).all(axis=1)).any())

    def mixed(self, q, foregrounds=None, most=500):
        """Every row takes the features of one set from one row of R and the others from another."""
        q = np.asarray(q, dtype=float)
        for j in range(self.D):
            bad = ~np.isin(q[:, j], self.R[:, j])
            if bad.any():
                return "feature %d is set to %.9g, which no row of the explainer has" % (j, q[np.where(bad)[0][0], j])
        u = np.unique(q, axis=0)
        if len(u) > most:
            u = u[:: len(u) // most + 1]
        for row in u:
            m = self.R == row
            if m.all(axis=1).any():
                continue
            if foregrounds is None:
                if not any((m[:, ~m[a]]).all(axis=1).any() for a in np.where(m.any(axis=1))[0]):
                    return "row %s mixes more than two of the explainer's rows" % row.tolist()
            elif not any(m[:, list(f)].all(axis=1).any() and m[:, [j for j in range(self.D) if j not in f]].all(axis=1).any() for f in foregrounds):
                return "row %s is no row of the explainer with only the features under study taken from another" % row.tolist()
        return None


def pooled(queries):
    """The questions of one operation put together, the model's and the Jacobian's apart."""
    by = {}
    for kind, q in queries:
        if q.ndim == 2:
            by.setdefault(kind, []).append(q)
    return [(k, np.concatenate(v)) for k, v in sorted(by.items())]


def default_centering(ex):
    try:
        d = inspect.signature(ex.fit).parameters["centering"].default
        return norm(d)
    except Exception:
        return None


def norm(c):
    return "zero_integral" if c is True else c


def check(ep):
    first = [o["cls"] for o in ep["ops"] if o["op"] == "new"][0]
    if first in ("HIndex", "REPID"):
        return interactions(ep)
    res = C.Result()
    w = World(ep, record=True)
    regional = first.startswith("Regional")
    j = R.RegionalJudge(w, res) if regional else C.GlobalJudge(w, C.Result())
    j.use_def = False
    legal, fitted = {}, {}
    for i, op in enumerate(ep["ops"]):
        if op["op"] == "seed":
            w.do(op, i)
            continue
        name = op["e"]
        before = {}
        if not regional and name in w.E:
            before = {s: list(j.state[name][s]) for s in range(w.dim)}
        rec = w.do(op, i)
        j.observe(rec)
        if any(f["seam"] == "capacity" for f in rec["fired"]):
            res.bad("capacity-exceeded", "%s of %s with use_vectorized=False sends more rows than the %d there are: %s" % (op["op"], w.info[name]["cls"] if name in w.info else op.get("cls"), w.X0.shape[0], exc_name(rec["exc"])), i)
            break
        if op["op"] == "new":
            if rec["status"] != "ok":
                break
            born(w, res, rec, op, legal, fitted, name)
            if res.violations:
                break
            continue
        if name not in w.E:
            continue
        (regional_op if regional else global_op)(w, j, res, rec, op, legal[name], fitted[name], name, before)
        if res.violations:
            break
    return C.finish(res, w)


def numeric(w, name):
    info = w.info[name]
    return info["cls"] in ("DerPDP", "RHALE", "RegionalDerPDP", "RegionalRHALE") and not info["kw"].get("jac") and not info["kw"].get("eff")


def born(w, res, rec, op, legal, fitted, name):
    d = np.array(w.E[name].data, dtype=float)
    legal[name], fitted[name] = Rows(d), {}
    cls, kw = op["cls"], op["kw"]
    if "avg_output" in kw and not cls.startswith("Regional"):
        res.probes["silent-constructions"] += 1
        if rec["queries"]:
            res.bad("asked-for-nothing", "constructing %s with a given average output asks the model for %d rows" % (cls, sum(len(q) for _, q in rec["queries"])), rec["i"])
            return
    for kind, q in rec["queries"]:
        why = legal[name].any_of(q, [(None, 0, 0, numeric(w, name))])
        if why:
            res.bad("illegal-question", "constructing %s: %s" % (cls, why), rec["i"])
            return
    res.probes["constructions"] += 1


def global_op(w, j, res, rec, op, rows, fit, name, before):
    info = w.info[name]
    cls, ex = info["cls"], w.E[name]
    L = j.limits(name)
    feats = j.features(op.get("features", op.get("feature")))
    want = norm(op.get("centering", op.get("kw", {}).get("centering", default_centering(ex) if op["op"] == "fit" else False)))
    n = sum(len(q) for _, q in rec["queries"])
    # ---- nothing at all
    if cls in ("ALE", "RHALE", "ShapDP") and op["op"] == "eval":
        s = op["feature"]
        if s in fit and (want is False or fit[s] == want):
            res.probes["silent-evaluations"] += 1
            if n:
                res.bad("asked-for-nothing", "%s.eval of the fitted feature %d asks the model for %d rows" % (cls, s, n), rec["i"])
                return
    # ---- batches
    vec = op.get("vec", True) if op["op"] == "eval" else op.get("kw", {}).get("use_vectorized", True)
    if not vec and cls in ("PDP", "DerPDP"):
        res.probes["bounded-batches"] += 1
        big = max([len(q) for _, q in rec["queries"]] or [0])
        if big > len(rows.R):
            res.bad("batch-too-big", "%s of %s with use_vectorized=False sends %d rows at once, the explainer has %d" % (op["op"], cls, big, len(rows.R)), rec["i"])
            return
        if op["op"] == "eval" and rec["status"] == "ok":
            same_answer(w, res, rec, op, ex)
            if res.violations:
                return
    # ---- every question
    for kind, q in pooled(rec["queries"]):
        why = None
        if cls == "ShapDP":
            why = rows.mixed(q)
        elif cls == "RHALE":
            why = rows.any_of(q, [(None, 0, 0, numeric(w, name))])
        else:
            ways = []
            for s in feats:
                edges = None
                if cls == "ALE":
                    edges = all_edges(j, name, s, before.get(s, []) + j.state[name][s])
                xs = [L[0][s], L[1][s]] + (op.get("xs", []) if edges is None else [])
                ways.append((s, min(xs), max(xs), numeric(w, name), edges))
            why = rows.any_of(q, ways)
        if why:
            res.bad("illegal-question", "%s of %s, features %s: %s" % (op["op"], cls, feats, why), rec["i"])
            return
        res.probes["questions"] += len(q)
    # ---- what is fitted now
    for s in feats:
        if rec["status"] != "ok":
            fit.pop(s, None)
        elif op["op"] == "fit":
            fit[s] = want
        elif s not in fit or want is not False and fit[s] != want:
            fit[s] = want


def all_edges(j, name, s, cfgs):
    out = []
    for c in cfgs:
        try:
            lim = j.bin_limits(name, s, c)
        except ref.Refuse:
            x = j.rows[name][ref.rows_in(j.rows[name], j.limits(name), s), s]
            lim = []
            L = j.limits(name)
            b = c.get("binning")
            k = b.get("nof_bins", 100) if isinstance(b, dict) else 20
            lim = np.concatenate([np.linspace(L[0][s], L[1][s], k + 1), half(x)])
        if lim is None:
            return None
        out += list(lim)
    return out


def half(x):
    u = np.unique(x)
    if len(u) < 2:
        return u
    d = np.diff(u)
    return np.concatenate([[u[0] - d[0] / 2], u[:-1] + d / 2, [u[-1] + d[-1] / 2]])


def same_answer(w, res, rec, op, ex):
    kw = {"return_all": True} if op.get("all") else {}
    cap, w.sim.capacity = w.sim.capacity, None
    try:
        r = w.quiet(lambda: ex.eval(op["feature"], np.array(op["xs"], dtype=float), op.get("het", False), op["centering"], use_vectorized=True, **kw))
    except Exception as e:
        res.bad("vectorised-differs", "the vectorised evaluation fails with %s, the other does not" % exc_name(e), rec["i"])
        return
    finally:
        w.sim.capacity = cap
    a = rec["val"] if isinstance(rec["val"], tuple) else (rec["val"],)
    b = r if isinstance(r, tuple) else (r,)
    rt = 1e-9 if not numeric(w, op["e"]) else 1e-6
    if len(a) != len(b) or not all(close(x, y, rt) for x, y in zip(a, b)):
        res.bad("vectorised-differs", "eval of feature %d: %s" % (op["feature"], "; ".join(worst(x, y) for x, y in zip(a, b))), rec["i"])
    res.probes["vectorised-compared"] += 1


def regional_op(w, j, res, rec, op, rows, fit, name, before):
    info = w.info[name]
    cls = info["cls"]
    X = rows.R
    feats = j.features(op.get("features", op.get("feature")))
    cfgs = [c for s in feats for c in j.state[name][s]]
    vec = op.get("kw", {}).get("use_vectorized", True) if op["op"] == "fit" else any(c is None or c.get("use_vectorized", True) for c in cfgs)
    if cls in ("RegionalPDP", "RegionalDerPDP") and not vec:
        res.probes["bounded-batches"] += 1
        big = max([len(q) for _, q in rec["queries"]] or [0])
        if big > len(X):
            res.bad("batch-too-big", "%s of %s with use_vectorized=False sends %d rows at once, the explainer has %d" % (op["op"], cls, big, len(X)), rec["i"])
            return
    for kind, q in pooled(rec["queries"]):
        why = None
        if cls == "RegionalShapDP":
            why = rows.mixed(q)
        elif cls == "RegionalRHALE":
            why = rows.any_of(q, [(None, 0, 0, numeric(w, name))])
        else:
            ways = []
            for s in feats:
                lo, hi = w.X0[:, s].min(), w.X0[:, s].max()
                if cls == "RegionalALE":
                    lo, hi = lo - 0.5 * (hi - lo), hi + 0.5 * (hi - lo)
                xs = [lo, hi] + op.get("xs", [])
                ways.append((s, min(xs), max(xs), numeric(w, name)))
            why = rows.any_of(q, ways)
        if why:
            res.bad("illegal-question", "%s of %s, features %s: %s" % (op["op"], cls, feats, why), rec["i"])
            return
        res.probes["questions"] += len(q)


def interactions(ep):
    res = C.Result()
    w = World(ep, record=True)
    rows = None
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        if op["op"] == "new":
            if rec["status"] != "ok":
                break
            rows = Rows(np.array(w.E[op["e"]].data, dtype=float))
            cls = op["cls"]
        if rows is None:
            continue
        D = rows.D
        for kind, q in rec["queries"]:
            single = [{s} for s in range(D)]
            if op["op"] == "hpair":
                fg = [{op["i"]}, {op["j"]}, {op["i"], op["j"]}]
            elif op["op"] == "hone":
                fg = [{op["i"]}]
            else:
                fg = single + [{a, b} for a in range(D) for b in range(a)]
            if cls == "REPID":
                why = rows.any_of(q, [(s, rows.R[:, s].min(), rows.R[:, s].max(), False) for f in fg if len(f) == 1 for s in f])
            else:
                why = rows.mixed(q, fg)
            if why:
                res.bad("illegal-question", "%s of %s: %s" % (op["op"], cls, why), i)
                break
            res.probes["questions"] += len(q)
        if res.violations:
            break
    return C.finish(res, w)
