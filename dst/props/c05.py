"""C05: exactly min(n, N) distinct rows, chosen once, each with its own effects."""
import numpy as np

from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import World, asked_rows, close, exc_name
from . import c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1300, 40000
ASSUMES = ["RegionalPDP.fit(nof_instances=<int>) is not exercised: it asks for another sample per region by design"]


def some_n(r, N, low=12):
    return r.choice([low, N // 2, N - 1, N - 1, N, N + 5, "all", max(low, N // 3), None])


def reseeds(r, ep, at=2):
    for _ in range(r.choice([0, 1, 2])):
        ep["ops"].insert(r.randint(at, len(ep["ops"])), {"op": "seed", "s": r.randrange(2**31)})


def generate(r):
    c = r.random()
    if c < 0.5:
        c2 = r.random()
        classes = ["ShapDP"] if c2 < 0.15 else (["RHALE"] if c2 < 0.55 else (["ALE"] if c2 < 0.7 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(2, 6), plots=0.12, sample=True, nmax=36 if classes == ["ShapDP"] else 60, nexp=(1, 2), idcol=True)
        big = r.random() < 0.06 and classes != ["ShapDP"]
        if big:
            ep["data"]["N"] = N = r.choice([310, 400])
        for op in ep["ops"]:
            if op["op"] == "new":
                op["kw"]["nof_instances"] = some_n(r, N) if not big else r.choice([None, None, 305])
                op["kw"].pop("avg_output", None)
                if op["cls"] == "RHALE" and r.random() < 0.5:
                    op["kw"]["eff"] = r.choice([1.0, 2.5, -1.0])
                if op["kw"].get("limits") and r.random() < 0.5:
                    op["kw"]["limits"] = None
    elif c < 0.9:
        c2 = r.random()
        cls = ["RegionalShapDP"] if c2 < 0.04 else (["RegionalRHALE"] if c2 < 0.55 else (["RegionalALE"] if c2 < 0.7 else ["RegionalPDP", "RegionalDerPDP"]))
        ep = R.gen_session(r, cls, nops=(2, 5), sample=True, nmax=44, mix={"fit": 4, "eval": 4, "plot": 1, "text": 1, "node": 2}, idcol=True)
        N = ep["data"]["N"]
        for op in ep["ops"]:
            if op["op"] == "new":
                op["kw"]["nof_instances"] = some_n(r, N, 16)
                if op["cls"] == "RegionalRHALE" and r.random() < 0.5:
                    op["kw"]["eff"] = r.choice([1.0, 2.5, -1.0])
    else:
        ep = c14.generate(r)
        ep["faults"] = []
        if ep["data"]["N"] < 100:
            N = ep["data"]["N"]
            ep["ops"][1]["kw"]["nof_instances"] = some_n(r, N, 8)
    reseeds(r, ep)
    for op in ep["ops"]:
        if op["op"] == "new" and op["kw"].get("nof_instances", 0) is None:
            del op["kw"]["nof_instances"]
    return ep


def ids_of(a, k, N):
    """Row numbers shown by the id column of an array of queries (a numerical derivative moves it a little)."""
    v = np.asarray(a, dtype=float)[:, k]
    n = np.rint(v)
    return (set(n[np.abs(v - n) < 1e-3].astype(int).tolist()), bool((np.abs(v - n) >= 1e-3).any() or n.size and (n.min() < 0 or n.max() >= N)))


def studied(op, D):
    f = op.get("features", op.get("feature"))
    return list(range(D)) if f == "all" else ([] if f is None else ([f] if isinstance(f, int) else list(f)))


def check(ep):
    cls = [o["cls"] for o in ep["ops"] if o["op"] == "new"][0]
    if cls in ("HIndex", "REPID"):
        return inter(ep)
    res = C.Result()
    w = World(ep, record=True)
    N, D = w.X0.shape
    k = D - 1
    regional = cls.startswith("Regional")
    j = R.RegionalJudge(w, res) if regional else C.GlobalJudge(w, res)
    sel = {}
    X0 = np.asarray(w.X0, dtype=float)
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if res.violations:
            break
        name = op.get("e")
        if op["op"] == "new" and rec["status"] == "ok":
            n = asked_rows(op["cls"], op["kw"], N)
            d = np.array(w.E[name].data, dtype=float)
            got, junk = ids_of(d, k, N)
            if len(d) != n or len(got) != n or junk:
                res.bad("wrong-count", "%s asked for %s of %d rows holds %d rows, %d of them distinct" % (op["cls"], op["kw"].get("nof_instances", "the default number"), N, len(d), len(got)), i)
                break
            if not np.array_equal(d, X0[np.rint(d[:, k]).astype(int)]):
                res.bad("foreign-rows", "%s holds a row that is not one of the given data" % op["cls"], i)
                break
            sel[name] = got
            res.probes["selections-checked"] += 1
        if name in sel and rec["status"] == "ok" and k not in studied(op, D):
            seen = set()
            for kind, q in rec["queries"]:
                g, junk = ids_of(q, k, N)
                seen |= g
                if junk or not g <= sel[name]:
                    res.bad("unselected-row-used", "%s of %s sends rows to the model that the explainer did not select: row numbers %s" % (op["op"], w.info[name]["cls"], sorted(g - sel[name])[:6]), i)
                    break
            res.probes["queries-checked"] += bool(rec["queries"])
        if name in sel and not res.violations:
            d = np.array(w.E[name].data, dtype=float)
            g, junk = ids_of(d, k, N)
            if g != sel[name] or len(d) != len(g):
                res.bad("selection-changed", "after %s the %s explainer holds other rows than before" % (op["op"], w.info[name]["cls"]), i)
            elif regional and op["op"] in ("fit", "eval", "plot", "show", "describe"):
                for s in range(D):
                    for which in (True, False):
                        try:
                            t = w.quiet(lambda: R.tree_of(w.E[name], s, which))
                        except (KeyError, AttributeError):
                            t = None
                        if t:
                            pairs(w, res, name, s, t, d, i)
            elif not regional and w.info[name]["cls"] == "RHALE":
                e = getattr(w.E[name], "data_effect", None)
                if isinstance(e, np.ndarray) and e.shape == d.shape:
                    same(w, res, name, d, e, "the explainer", i)
        if res.violations:
            break
    return C.finish(res, w)


def same(w, res, name, rows, eff, where, i):
    kw = w.info[name]["kw"]
    want = S.jac_terms(w.terms, rows) * float(kw.get("eff") or 1.0)
    numeric = not kw.get("eff") and not kw.get("jac")
    if numeric and any(t[0] in ("gate", "gatecat") for t in w.terms):
        return
    res.probes["effects-paired"] += 1
    if not close(eff, want, 1e-3 if numeric else 1e-9):
        bad = np.where(np.abs(np.asarray(eff) - want).max(axis=1) > 1e-3 * (1 + np.abs(want).max()))[0]
        res.bad("effects-mispaired", "in %s the effects of row %s are not its own" % (where, rows[bad[0], -1] if len(bad) else "?"), i)


def pairs(w, res, name, s, tree, d, i):
    k = d.shape[1] - 1
    for l in range(max(n["level"] for n in tree) + 1):
        rows = np.concatenate([n["rows"] for n in tree if n["level"] == l])
        if sorted(rows[:, k].tolist()) != sorted(d[:, k].tolist()):
            res.bad("rows-lost", "feature %d, level %d: the subregions hold %d rows of the %d selected" % (s, l, len(rows), len(d)), i)
            return
    if w.info[name]["cls"] == "RegionalRHALE":
        for n in tree:
            if n["eff"] is None or n["eff"].shape != n["rows"].shape:
                res.bad("effects-mispaired", "feature %d, node %d has %s effects for %d rows" % (s, n["idx"], None if n["eff"] is None else n["eff"].shape, len(n["rows"])), i)
            else:
                same(w, res, name, n["rows"], n["eff"], "node %d of feature %d" % (n["idx"], s), i)


def inter(ep):
    """Interaction indices are judged against the definition on the rows held right after construction."""
    res = c14.check(ep)
    return res


_ = (G, exc_name)
