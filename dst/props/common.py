"""Shared generation and judging of global-effect sessions."""
import collections
import json

import numpy as np

from .. import ref
from .. import sim as S
from .. import spec as G
from ..world import World, asked_rows, binning, close, cls_of, exc_name, worst

RT_FRESH = 1e-8
RT_DEF = 1e-6
RT_SHAP = 5e-5     # shap takes values within 1e-5 of each other for one
RT_NUM = 2e-4


class Result:
    def __init__(self):
        self.violations = []
        self.probes = collections.Counter()
        self.fired = collections.Counter()
        self.clock = 0.0
        self.sig = ""
        self.events = 0
        self.digest = ""

    def bad(self, kind, msg, i=None):
        self.violations.append({"kind": kind, "msg": msg, "op": i})

    def absorb(self, world):
        for f in world.sim.fired:
            self.fired[f["seam"] + ":" + f["exc"]] += 1
        self.clock += world.sim.clock
        self.events += sum(world.sim.counts.values())
        for v in world.sim.violations:
            self.bad("illegal-query", v)


# ------------------------------------------------------------------ generation
def gen_ctor(r, cls, ep, X, sample=False, limits=True, jac=None):
    kw = {"nof_instances": "all"}
    if sample and r.random() < 0.4:
        kw["nof_instances"] = r.choice([max(20, X.shape[0] // 2), X.shape[0], X.shape[0] + 5])
    if limits and r.random() < 0.5:
        kw["limits"] = G.gen_limits(r, X)
    if cls in ("DerPDP", "RHALE"):
        smooth = all(t[0] not in ("gate", "gatecat") for t in ep["model"]["terms"])
        kw["jac"] = True if not smooth else (r.random() < 0.7 if jac is None else jac)
    if cls == "RHALE" and r.random() < 0.2:
        kw["eff"] = r.choice([1.0, 2.5, -1.0])
    if r.random() < 0.3:
        kw["avg_output"] = r.choice([1.25, 1.25, -2.0, 0.0])
    if r.random() < 0.3:
        kw["feature_names"] = ["feat_%d" % i for i in range(X.shape[1])]
    if r.random() < 0.3:
        kw["target_name"] = "tgt"
    return kw


def limits_of(kw, X):
    if kw.get("limits") is not None:
        return [list(kw["limits"][0]), list(kw["limits"][1])]
    X = np.asarray(X, dtype=float)
    return [X.min(axis=0).tolist(), X.max(axis=0).tolist()]


def gen_fit(r, name, cls, D, N, allow_all=True, bins=None):
    c = r.random()
    if c < 0.5 or D == 1:
        feats = r.randrange(D)
    elif c < 0.75 and allow_all:
        feats = "all"
    else:
        feats = r.sample(range(D), r.randint(1, D))
    kw = {}
    if r.random() < 0.8:
        kw["centering"] = r.choice(G.CENTERINGS)
    if cls in ("ALE", "RHALE"):
        if r.random() < 0.85:
            kw["binning"] = (bins or G.gen_binning)(r, cls, N)
    else:
        if r.random() < 0.6:
            kw["points_for_centering"] = r.choice([2, 3, 7, 20, 50, 120, "all"])
        if cls != "ShapDP" and r.random() < 0.3:
            kw["use_vectorized"] = False
    return {"op": "fit", "e": name, "features": feats, "kw": kw}


def gen_eval(r, name, cls, D, limits, feature=None, centering=None):
    s = r.randrange(D) if feature is None else feature
    op = {"op": "eval", "e": name, "feature": s, "xs": G.gen_xs(r, limits[0][s], limits[1][s]),
          "het": r.random() < 0.5, "centering": r.choice(G.CENTERINGS) if centering is None else centering}
    if cls in ("PDP", "DerPDP"):
        if r.random() < 0.25:
            op["vec"] = False
        if r.random() < 0.2:
            op["all"] = True
    return G.with_form(r, op)


def gen_plot(r, name, cls, D, scaled=False):
    kw = {"heterogeneity": r.choice([False, True, "std"]), "centering": r.choice(G.CENTERINGS)}
    if cls in ("PDP", "DerPDP") and r.random() < 0.4:
        kw["heterogeneity"] = "ice"
    if cls == "ShapDP" and r.random() < 0.4:
        kw["heterogeneity"] = "shap_values"
    if r.random() < 0.3:
        kw["show_avg_output"] = True
    return {"op": "plot", "e": name, "feature": r.randrange(D), "kw": defaults(r, kw)}


def defaults(r, kw):
    """Leave an option out, as users do."""
    for k in ("heterogeneity", "centering"):
        if r.random() < 0.12:
            del kw[k]
    return kw


BINNING_ALT = {"nof_bins": [1, 2, 3, 5, 8], "min_points_per_bin": [0, 2, 3, 5, 8], "cat_limit": [5, 10, 15], "init_nof_bins": [5, 10, 20],
               "max_nof_bins": [1, 2, 4, 6], "discount": [0.1, 0.3, 0.6]}


def twin(r, op, D):
    """The same request with exactly one thing changed (or nothing at all)."""
    op = json.loads(json.dumps(op))
    kw = op.setdefault("kw", {}) if op["op"] == "fit" else op
    keys = [k for k in kw if k in ("centering", "binning", "points_for_centering", "het", "xs", "heter_pcg_drop_thres", "heter_small_enough", "max_depth",
                                   "nof_candidate_splits_for_numerical", "min_points_per_subregion", "split_categorical_features", "node")]
    if op["op"] == "fit" and r.random() < 0.1 or not keys:
        return op
    k = r.choice(keys)
    v = kw[k]
    if k == "binning":
        if isinstance(v, dict):
            j = r.choice([x for x in v if x != "b"])
            alt = [x for x in BINNING_ALT[j] if x != v[j]]
            if j == "min_points_per_bin" and v["b"] == "Fixed":
                alt = [x for x in (0, 2) if x != v[j]]
            v[j] = r.choice(alt)
    elif k == "centering":
        kw[k] = r.choice([c for c in G.CENTERINGS if c != v])
    elif k == "xs":
        kw[k] = v[::-1] if r.random() < 0.5 else v[:1]
    elif k == "node":
        kw[k] = (v + 1) % 8
    elif isinstance(v, bool):
        kw[k] = not v
    elif k == "max_depth":
        kw[k] = 1 if v > 1 or D < 3 else 2
    else:
        kw[k] = {"points_for_centering": r.choice([2, 5, 9, 33, "all"]), "heter_pcg_drop_thres": r.choice([0.0, 0.2, 0.6]), "heter_small_enough": r.choice([0.0, 0.2, 2.0]),
                 "nof_candidate_splits_for_numerical": r.choice([2, 4, 7]), "min_points_per_subregion": r.choice([2, 4, 9])}[k]
    return op


def twins(r, ops, D, probe):
    """Ask for nearly the same thing again, later in the session, and look at the answer."""
    out = list(ops)
    cand = [i for i, o in enumerate(out) if o["op"] in ("fit", "eval")]
    for _ in range(r.choice([1, 1, 2, 3])):
        if not cand:
            break
        i = r.choice(cand)
        t = twin(r, ops[i], D)
        at = len(out) if r.random() < 0.5 else r.randint(i + 1, len(out))
        new = [t]
        f = t.get("features", t.get("feature"))
        s = r.randrange(D) if f == "all" else (f if isinstance(f, int) else r.choice(f))
        if t["op"] == "fit" or r.random() < 0.4:
            new.append(probe(t["e"], s))
        out[at:at] = new
        ops, cand = out, [k for k, o in enumerate(out) if o["op"] in ("fit", "eval")]
    return out


def gen_session(r, classes=G.GLOBAL, nops=(3, 9), plots=0.12, sample=False, nexp=(1, 2), ints=False, kinds=None, smooth=None, nmax=60, idcol=False):
    d = G.gen_data(r, nmax=nmax, ints=ints, idcol=idcol, dmax=3 if idcol else 4, **({"kinds": kinds} if kinds else {}))
    G.grow(r, d, nmax, wide=classes != ["ShapDP"] and not idcol and nmax >= 40 and "ShapDP" not in classes)
    smooth = r.random() < 0.4 if smooth is None else smooth
    ep = {"data": d, "model": G.gen_model(r, d, smooth=smooth), "np_seed": r.randrange(2**31), "faults": [],
          "latency": r.choice([0.0, 0.001, 0.05])}
    if idcol:
        id_terms(r, ep)
    X = G.make_data(d)
    D, N = X.shape[1], X.shape[0]
    ops = [{"op": "seed", "s": ep["np_seed"]}]
    exps = []
    for k in range(r.randint(*nexp)):
        cls = r.choice(classes)
        name = "e%d" % k
        kw = gen_ctor(r, cls, ep, X, sample)
        ops.append({"op": "new", "e": name, "cls": cls, "kw": kw})
        exps.append((name, cls, limits_of(kw, X)))
    for _ in range(r.randint(*nops)):
        name, cls, lim = r.choice(exps)
        c = r.random()
        if c < plots:
            ops.append(gen_plot(r, name, cls, D))
        elif c < 0.45:
            ops.append(gen_fit(r, name, cls, D, N))
        else:
            ops.append(gen_eval(r, name, cls, D, lim))
    if r.random() < 0.4:
        of = {name: (cls, lim) for name, cls, lim in exps}
        ops = twins(r, ops, D, lambda e, s: gen_eval(r, e, of[e][0], D, of[e][1], feature=s))
    ep["ops"] = ops
    G.gen_out(r, ep, whole=not idcol and all(cls in ("PDP", "ALE") for _, cls, _ in exps))
    return ep, exps, D, N


def id_terms(r, ep):
    """Make every feature's local effect different in every row, through the id column."""
    k = len(ep["data"]["cols"]) - 1
    for j in range(k):
        ep["model"]["terms"].append(["prod", j, k, r.choice([0.0625, -0.125, 0.25])])


# ------------------------------------------------------------------ judging
def is_numeric(cls, kw):
    return cls in ("DerPDP", "RHALE") and not kw.get("jac") and not kw.get("eff")


class GlobalJudge:
    """Knows, for each explainer and feature, the fit configurations that may be in force, and
    what each of them must answer."""

    def __init__(self, world, res):
        self.w, self.res = world, res
        self.state = {}       # name -> {feature: [config, ...]}
        self.rows = {}        # name -> the rows the explainer selected
        self.cache = {}
        self.use_def = True   # also compare with the published definition

    # ---- construction
    def born(self, name):
        ex, info = self.w.E[name], self.w.info[name]
        X = np.asarray(self.w.X0, dtype=float)
        if asked_rows(info["cls"], info["kw"], X.shape[0]) == X.shape[0]:
            R = X.copy()
        else:
            R = np.array(getattr(ex, "data"), dtype=float)
        self.rows[name] = R
        self.state[name] = {s: [{}] for s in range(X.shape[1])}

    def limits(self, name):
        kw = self.w.info[name]["kw"]
        return limits_of(kw, self.rows[name])

    # ---- fresh explainer: same rows, nothing but the configuration in force
    def fresh(self, name, s, cfg, centering):
        key = ("fresh", name, s, repr(sorted(cfg.items(), key=str)), centering)
        if key not in self.cache:
            info = self.w.info[name]
            cls, kw = info["cls"], info["kw"]
            R = self.rows[name]

            def make():
                a = {"nof_instances": "all", "avg_output": 0.0}
                if kw.get("limits") is not None:
                    a["axis_limits"] = np.array(kw["limits"], dtype=float)
                if cls in ("DerPDP", "RHALE") and kw.get("jac"):
                    a["model_jac"] = S.SimModel(self.w.terms, self.w.dim, "jac")
                if cls == "RHALE" and kw.get("eff"):
                    a["data_effect"] = S.jac_terms(self.w.terms, R) * kw["eff"]
                ex = cls_of(cls)(R.copy(), S.SimModel(self.w.terms, self.w.dim, "f"), **a)
                fk = {("binning_method" if k == "binning" else k): (binning(v) if k == "binning" else v) for k, v in cfg.items()}
                ex.fit(s, centering=centering, **fk)
                return ex
            try:
                self.cache[key] = (self.w.quiet(make), None)
            except Exception as e:
                self.cache[key] = (None, e)
        return self.cache[key]

    def fresh_eval(self, name, s, cfg, op):
        ex, err = self.fresh(name, s, cfg, op["centering"])
        if err is not None:
            return None, err
        kw = {"return_all": True} if op.get("all") else {}
        try:
            r = self.w.quiet(lambda: ex.eval(s, np.array(op["xs"], dtype=float), op.get("het", False), op["centering"], **kw))
        except Exception as e:
            return None, e
        return (tuple(np.array(v) for v in r) if isinstance(r, tuple) else np.array(r)), None

    # ---- the definition
    def bin_limits(self, name, s, cfg):
        info = self.w.info[name]
        b = cfg.get("binning")
        L = self.limits(name)
        R = self.rows[name]
        x = R[ref.rows_in(R, L, s), s]
        if b is None and info["cls"] == "ALE" or b == "fixed":
            return ref.fixed_limits(x, L[0][s], L[1][s], 20, 0, 15)
        if isinstance(b, dict) and b["b"] == "Fixed":
            return ref.fixed_limits(x, L[0][s], L[1][s], b.get("nof_bins", 100), b.get("min_points_per_bin", 10), b.get("cat_limit", 15))
        ex, err = self.fresh(name, s, cfg, False)
        if err is not None:
            raise ref.Refuse(str(err))
        try:
            return np.array(ex.feature_effect["feature_%d" % s]["limits"], dtype=float)
        except Exception:
            return None

    def definition(self, name, s, cfg, op):
        """Expected value by the definition; None if this reference cannot say; raises Refuse."""
        info = self.w.info[name]
        cls, kw = info["cls"], info["kw"]
        R, L, c, xs = self.rows[name], self.limits(name), op["centering"], op["xs"]
        T = self.w.terms
        if cls in ("PDP", "DerPDP"):
            y = ref.pdp(T, R, L, s, xs, c, cfg.get("points_for_centering", 100), cls == "DerPDP")
            if op.get("all"):
                return y
            return (y.mean(axis=1), y.std(axis=1)) if op.get("het") else y.mean(axis=1)
        if cls in ("ALE", "RHALE"):
            lim = self.bin_limits(name, s, cfg)
            if lim is None:
                return None
            eff = None
            if cls == "RHALE":
                eff = S.jac_terms(T, R) * (kw.get("eff") or 1.0)
            y, sd = ref.ale(T, R, L, s, lim, xs, c, eff)
            return (y, sd) if op.get("het") else y
        x = R[ref.rows_in(R, L, s), s]
        if len(x) and (min(xs) < x.min() or max(xs) > x.max()):     # extrapolated: the spline's own business
            return None
        if self.rows[name].shape[0] > 100 or len(np.unique(R[ref.rows_in(R, L, s), s])) < 7:
            return None
        try:
            ph = self.cache.get(("phi", name, s))
            if ph is None:
                ph = self.cache[("phi", name, s)] = ref.shapley(T, R[ref.rows_in(R, L, s)])
            p = cfg.get("points_for_centering", 100)
            a = ref.shap_dp(T, R, L, s, xs, c, p, 0.0, ph)
            b = ref.shap_dp(T, R, L, s, xs, c, p, 1e-9, ph)
        except Exception as e:
            raise ref.Refuse(str(e))
        if not (np.isfinite(a[0]).all() and np.isfinite(a[1]).all()):
            return None
        sc = max(1.0, np.abs(ph).max())
        wild = max(np.abs(a[0]).max(), np.abs(a[1]).max()) > 100 * sc      # FITPACK lost the curve between its knots
        if wild or not (close(a[0], b[0], 1e-7, sc) and close(a[1], b[1], 1e-7, sc)):
            self.res.probes["shap-spline-unstable"] += 1
            return None
        return a if op.get("het") else a[0]

    # ---- state updates
    def features(self, f):
        return list(range(self.w.dim)) if f == "all" else ([f] if isinstance(f, int) else list(f))

    def after_fit(self, rec):
        op = rec["op"]
        cfg = {k: v for k, v in op["kw"].items() if k in ("binning", "points_for_centering")}
        st = self.state[op["e"]]
        for s in self.features(op["features"]):
            st[s] = [cfg] if rec["status"] == "ok" else (st[s] if cfg in st[s] else st[s] + [cfg])

    def refusal(self, op, s, cfg):
        """Does the library refuse this request even on a fresh explainer, and may it?"""
        probe = dict(op, centering=op.get("centering", op.get("kw", {}).get("centering", False)), xs=[self.limits(op["e"])[0][s]])
        probe.pop("all", None)
        v, err = self.fresh_eval(op["e"], s, cfg, probe)
        if err is None:
            return None
        try:
            d = self.definition(op["e"], s, cfg, dict(probe, het=True))
        except ref.Refuse:
            return err
        cls = self.w.info[op["e"]]["cls"]
        if d is None or (cls == "RHALE" and not self._fixed(cfg)):
            return err
        self.res.bad("feasible-request-refused", "%s: a feasible request (feature %d, config %s) is refused even by a fresh explainer: %s"
                     % (cls, s, cfg, exc_name(err)))
        return err

    @staticmethod
    def _fixed(cfg):
        b = cfg.get("binning")
        return b == "fixed" or isinstance(b, dict) and b["b"] == "Fixed"

    def check_fit(self, rec):
        op = rec["op"]
        if rec["status"] == "exc" and not rec["fired"]:
            cfg = {k: v for k, v in op["kw"].items() if k in ("binning", "points_for_centering")}
            if not any(self.refusal(op, s, cfg) is not None for s in self.features(op["features"])):
                self.res.bad("spurious-failure", "fit failed with %s although no fault was injected and a fresh explainer accepts the same request" % exc_name(rec["exc"]), rec["i"])
            else:
                self.res.probes["refused"] += 1
        self.after_fit(rec)

    def matches(self, name, got, exp, rt):
        if got is None or exp is None:
            return False
        g = got if isinstance(got, tuple) else (got,)
        e = exp if isinstance(exp, tuple) else (exp,)
        if len(g) != len(e):
            return False
        sc = 1.0 + max(float(np.abs(v).max()) if np.asarray(v).size else 0.0 for v in e)
        return all(close(a, b, rt, sc) for a, b in zip(g, e))

    def describe(self, got, exp):
        g = got if isinstance(got, tuple) else (got,)
        e = exp if isinstance(exp, tuple) else (exp,)
        return "; ".join(worst(a, b) for a, b in zip(g, e))

    def check_eval(self, rec):
        op, res = rec["op"], self.res
        name, s = op["e"], op["feature"]
        info = self.w.info[name]
        cfgs = self.state[name][s]
        if rec["status"] == "exc":
            if rec["fired"]:
                return
            errs = [self.refusal(op, s, c) for c in cfgs]
            if all(e is None for e in errs):
                res.bad("spurious-failure", "eval raised %s although no fault was injected in this call and a fresh explainer answers" % exc_name(rec["exc"]), rec["i"])
            else:
                res.probes["refused"] += 1
            return
        got = rec["val"]
        if not all(np.isfinite(v).all() for v in (got if isinstance(got, tuple) else (got,))):
            res.probes["nonfinite"] += 1
        ok, why = [], ""
        for c in cfgs:
            exp, err = self.fresh_eval(name, s, c, op)
            if err is not None:
                why = why or "a fresh explainer refuses with %s" % exc_name(err)
                continue
            if self.matches(name, got, exp, RT_FRESH):
                ok.append(c)
            else:
                why = self.describe(got, exp)
        if not ok:
            res.bad("history-dependent", "%s.eval(feature=%d, centering=%r) differs from a fresh explainer with the configuration in force (%s): %s"
                    % (info["cls"], s, op["centering"], " or ".join(map(str, cfgs)), why), rec["i"])
            return
        self.state[name][s] = ok
        for c in ok[:1] if self.use_def else []:
            try:
                d = self.definition(name, s, c, op)
            except ref.Refuse as e:
                res.bad("infeasible-accepted", "%s answered a request that has no valid answer: %s" % (info["cls"], e), rec["i"])
                return
            if d is None or not all(np.isfinite(v).all() for v in (d if isinstance(d, tuple) else (d,))):
                res.probes["definition-skipped"] += 1
                continue
            res.probes["definition-compared"] += 1
            rt = RT_NUM if is_numeric(info["cls"], info["kw"]) else (RT_SHAP if info["cls"] == "ShapDP" else RT_DEF)
            if not self.matches(name, got, d, rt):
                res.bad("wrong-by-definition", "%s.eval(feature=%d, centering=%r, het=%r) differs from the definition (config %s): %s"
                        % (info["cls"], s, op["centering"], op.get("het"), c, self.describe(got, d)), rec["i"])

    def observe(self, rec):
        k = rec["op"]["op"]
        if k == "new":
            if rec["status"] == "ok":
                self.born(rec["op"]["e"])
            elif not rec["fired"]:
                self.res.bad("spurious-failure", "constructor raised %s without any fault" % exc_name(rec["exc"]), rec["i"])
        elif rec["op"].get("e") not in self.w.E and k != "seed":
            return
        elif k == "fit":
            self.check_fit(rec)
        elif k == "eval":
            self.check_eval(rec)
        elif k == "plot" and rec["status"] == "exc" and not rec["fired"]:
            op = rec["op"]
            cfgs = self.state[op["e"]][op["feature"]]
            errs = [self.refusal(dict(op, het=True), op["feature"], c) for c in cfgs]
            if all(e is None for e in errs):
                self.res.bad("spurious-failure", "plot raised %s although no fault was injected" % exc_name(rec["exc"]), rec["i"])


def signature(world):
    """The history as a state-machine trace: operation kinds, relations and outcomes, not values."""
    out = []
    for rec in world.h:
        op = rec["op"]
        k = op["op"]
        t = [k, op.get("cls") or world.info.get(op.get("e"), {}).get("cls", "")]
        if k in ("eval", "plot", "fit"):
            t += [str(op.get("feature", op.get("features"))), str(op.get("centering", op.get("kw", {}).get("centering")))]
            if k == "fit":
                b = op["kw"].get("binning")
                t.append(b["b"] if isinstance(b, dict) else str(b))
            if "node" in op:
                t.append(str(op["node"]))
        t.append(rec["status"])
        t += ["%s/%s" % (f["seam"], f["exc"]) for f in rec["fired"]]
        out.append(":".join(t))
    return "|".join(out)


def digest(world):
    """Digest of everything observable in a run: events, outcomes and exact values."""
    import hashlib
    h = hashlib.sha256()
    for rec in world.h:
        h.update(repr((rec["i"], rec["op"]["op"], rec["status"], type(rec["exc"]).__name__, rec["out"])).encode())
        feed(h, rec["val"])
    h.update(repr(world.sim.events).encode())
    h.update(repr(sorted(world.sim.counts.items())).encode())
    return h.hexdigest()


def feed(h, v):
    if isinstance(v, np.ndarray):
        h.update(str(v.shape).encode())
        h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v).encode())
    elif isinstance(v, (tuple, list)):
        for x in v:
            feed(h, x)
    elif isinstance(v, dict):
        for k in sorted(v):
            h.update(str(k).encode())
            feed(h, v[k])
    else:
        h.update(repr(v).encode())


def finish(res, world):
    res.absorb(world)
    res.sig = signature(world)
    res.digest = digest(world)
    return res


# ------------------------------------------------------------------ faults
def profile(ep):
    """Fault-free dry run: how often each operation crosses each seam."""
    w = World(dict(ep, faults=[]))
    w.run()
    return w.sim.counts, w.h


def gen_faults(r, ep, seams, k, ops=None, exc=None):
    """k faults placed inside operations that really cross the seam; positions biased to the
    first, last and middle crossings."""
    counts, h = profile(ep)
    sites = [(op, seam) for (op, seam), n in sorted(counts.items()) if seam in seams and op >= 0 and (ops is None or op in ops)]
    out = []
    for _ in range(k):
        if not sites:
            break
        by = {}
        for s in sites:
            by.setdefault(s[1], []).append(s)
        op, seam = r.choice(by[r.choice(sorted(by))])
        n = counts[(op, seam)]
        c = r.random()
        pos = 0 if c < 0.2 else (n - 1 if c < 0.4 else r.randrange(n))
        pool = {"model": S.MODEL_EXC, "jac": S.MODEL_EXC, "alloc": S.ALLOC_EXC, "stdout": S.STREAM_EXC, "gui": S.GUI_EXC, "rng": ["MemoryError"]}[seam]
        f = {"op": op, "seam": seam, "n": pos, "exc": r.choice(exc or pool)}
        if not any(g["op"] == f["op"] for g in out):
            out.append(f)
    return sorted(out, key=lambda f: f["op"])
