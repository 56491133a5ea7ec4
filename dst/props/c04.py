"""C04: what the caller passes in stays the caller's: never written, never read again later."""
import numpy as np

from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import positions, World, binning, exc_name
from . import c11, c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1300, 40000


def add_mutations(r, ep, lo=2):
    ops = ep["ops"]
    last_new = max(i for i, o in enumerate(ops) if o["op"] == "new")
    for _ in range(r.choice([1, 1, 2, 3])):
        at = r.randint(max(lo, last_new + 1), len(ops))
        ops.insert(at, {"op": "mutate", "what": r.choice(["data", "data", "effects", "result", "result"]), "s": r.randrange(10**6)})


def generate(r):
    c = r.random()
    if c < 0.5:
        c2 = r.random()
        classes = ["ShapDP"] if c2 < 0.15 else (["RHALE"] if c2 < 0.5 else (["ALE"] if c2 < 0.65 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(3, 8), plots=0.15, sample=True, nmax=36, ints=r.random() < 0.15)
        for i, op in enumerate(ep["ops"]):
            if op["op"] == "new" and op["cls"] == "RHALE" and r.random() < 0.5:
                op["kw"]["eff"] = r.choice([1.0, 2.5, -1.0])
            if op["op"] == "fit" and ep["data"]["N"] <= 40 and [e for e in exps if e[0] == op["e"]][0][1] == "RHALE" and r.random() < 0.2:
                # more bins than some features have values
                op["kw"]["binning"] = {"b": "DynamicProgramming", "max_nof_bins": r.choice([9, 14]), "min_points_per_bin": 1, "discount": 0.3, "cat_limit": r.choice([2, 5])}
            if op["op"] == "plot" and r.random() < 0.6:
                name, cls, lim = [e for e in exps if e[0] == op["e"]][0]
                ep["ops"][i] = c11.rich_plot(r, name, cls, D, lim, N)
    elif c < 0.9:
        c2 = r.random()
        cls = ["RegionalShapDP"] if c2 < 0.05 else (["RegionalRHALE"] if c2 < 0.5 else (["RegionalALE"] if c2 < 0.7 else ["RegionalPDP", "RegionalDerPDP"]))
        ep = R.gen_session(r, cls, nops=(2, 6), sample=True, nmax=40, ints=r.random() < 0.15, mix={"fit": 4, "eval": 4, "plot": 2, "text": 2, "node": 1})
        for op in ep["ops"]:
            if op["op"] == "new" and op["cls"] == "RegionalRHALE" and r.random() < 0.5:
                op["kw"]["eff"] = r.choice([1.0, 2.5, -1.0])
            if op["op"] == "new" and r.random() < 0.3:
                X = G.make_data(ep["data"])
                op["kw"]["feature_types"] = R.feature_types(X, op["kw"].get("cat_limit", 10))
    else:
        ep = c14.generate(r)
        ep["faults"] = []
        if ep["data"]["N"] > 100:
            ep["data"]["N"] = 20
    add_mutations(r, ep)
    if r.random() < 0.1 and ep["ops"][1]["cls"] not in ("HIndex", "REPID"):
        ep["faults"] = C.gen_faults(r, ep, ["model", "alloc"], 1, ops={i for i, o in enumerate(ep["ops"]) if o["op"] in ("fit", "eval", "plot")})
    return ep


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "__dict__") and hasattr(b, "__dict__") and not callable(a):
        return type(a) is type(b) and same(vars(a), vars(b))
    if callable(a):
        return True
    return type(a) is type(b) and (a == b or a != a and b != b)


def pristine(w, key, op, X0):
    """The arguments of operation `op` as they were handed over."""
    i, kind = key
    kw = op.get("kw", {})
    if kind == "ctor":
        a = {}
        for k, v in w.args[key].items():
            if k == "axis_limits":
                a[k] = np.array(kw["limits"], dtype=float)
            elif k in ("data_effect", "instance_effects"):
                a[k] = w.args[key][k] if "effects" in w.mutated else S.jac_terms(w.terms, np.asarray(X0, dtype=float)) * float(kw["eff"])
            elif k == "model_jac":
                a[k] = v
            else:
                a[k] = kw[k]
        return a
    if kind == "eval":
        return {"xs": positions(op["xs"], op.get("xf"))}
    if kind == "fit":
        a = {("binning_method" if k == "binning" else k): (binning(v) if k == "binning" else v) for k, v in kw.items()}
        return dict(a, features=op["features"])
    return kw


def check(ep):
    res = C.Result()
    w = World(ep)
    X0 = G.make_data(ep["data"])
    w.model.keep = w.jac.keep = True
    cls = [o["cls"] for o in ep["ops"] if o["op"] == "new"][0]
    inter = cls in ("HIndex", "REPID")
    regional = cls.startswith("Regional")
    j = None if inter else (R.RegionalJudge(w, res) if regional else C.GlobalJudge(w, res))
    ind = None
    if j is not None:
        j.use_def = False
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        if op["op"] == "mutate":
            for m in (w.model, w.jac):      # an answer may be a view of what the model returned: the caller wrote there
                m.returned = []
            continue
        if "data" not in w.mutated:
            b, b0 = (w.X, X0) if w.X.base is None else (w.X.base, X0.base)
            if not same(np.array(w.X), np.array(X0)) or b0 is not None and not same(np.array(b), np.array(b0)):
                res.bad("data-modified", "%s of %s modified the caller's data" % (op["op"], cls), i)
        for key in list(w.args):
            if not same(w.args[key], pristine(w, key, ep["ops"][key[0]], X0)):
                p = pristine(w, key, ep["ops"][key[0]], X0)
                which = [k for k in p if k not in w.args[key] or not same(w.args[key][k], p[k])] + [k for k in w.args[key] if k not in p]
                res.bad("argument-modified", "after %s of %s, argument %s of the %s call of operation %d is no longer what the caller passed"
                        % (op["op"], cls, which, key[1], key[0]), i)
        for m in (w.model, w.jac):
            for a, c in m.returned:
                if not same(a, c):
                    res.bad("output-modified", "%s of %s wrote into an array the user's %s returned" % (op["op"], cls, "model" if m.kind == "f" else "Jacobian"), i)
                    break
            m.returned = m.returned[-50:]
        res.probes["arguments-checked"] += len(w.args)
        if res.violations:
            break
        if inter:
            if op["op"] == "new":
                n = op["kw"].get("nof_instances", 1000 if cls == "HIndex" else "all")
                full = np.asarray(X0, dtype=float)
                ind = c14.Indices(w.terms, full if n == "all" or n >= len(full) else np.array(w.E["h0"].data, dtype=float))
                if c14.constant(ind.R):
                    break
            elif rec["status"] == "exc" and not rec["fired"]:
                res.bad("spurious-failure", "%s raised %s" % (op["op"], exc_name(rec["exc"])), i)
            elif op["op"] in ("hpair", "hone") and rec["status"] == "ok":
                key = (op["i"], op["j"]) if op["op"] == "hpair" else (op["i"],)
                want = (ind.pair(*sorted(key)) if len(key) == 2 else ind.one(*key)) if cls == "HIndex" else ind.repid(*key)
                if want is not None and not C.close(np.array(rec["val"], dtype=float), want, 1e-7):
                    res.bad("wrong-index", "after the caller changed %s, %s of %s is %r instead of %r" % (sorted(w.mutated), cls, key, float(rec["val"]), want), i)
                res.probes["answers-after-change"] += bool(w.mutated)
        else:
            j.observe(rec)
            if regional and not res.violations and op["op"] in ("fit", "plot", "show", "describe", "eval") and op["e"] in w.E:
                j.check_state(op["e"], i=i)
            res.probes["answers-after-change"] += bool(w.mutated) and op["op"] == "eval"
        if res.violations:
            for v in res.violations:
                if w.mutated:
                    v["msg"] = "after the caller changed %s in place: " % sorted(w.mutated) + v["msg"]
            break
    return C.finish(res, w)
