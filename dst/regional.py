"""Regional effects: generation of sessions, independent reference for trees, and the judge."""
import contextlib
import io
import re

import numpy as np

from . import ref
from . import sim as S
from . import spec as G
from .props import common as C
from .world import World, asked_rows, binning, close, cls_of, exc_name, worst  # noqa: F401

BIG_M = 1e8
GLOBAL_OF = {"RegionalPDP": "PDP", "RegionalDerPDP": "DerPDP", "RegionalALE": "ALE", "RegionalRHALE": "RHALE", "RegionalShapDP": "ShapDP"}
DEFAULTS = {"heter_pcg_drop_thres": 0.1, "heter_small_enough": 0.1, "max_depth": 1, "nof_candidate_splits_for_numerical": 20,
            "min_points_per_subregion": 10, "candidate_conditioning_features": "all", "split_categorical_features": False}


# ------------------------------------------------------------------ generation
def gen_ctor(r, cls, ep, X, sample=False):
    kw = {"nof_instances": "all"}
    D, N = X.shape[1], X.shape[0]
    if sample and r.random() < 0.4:
        kw["nof_instances"] = r.choice([max(20, N * 2 // 3), N, N + 5])
    smooth = all(t[0] not in ("gate", "gatecat") for t in ep["model"]["terms"])
    if cls in ("RegionalDerPDP", "RegionalRHALE"):
        kw["jac"] = True if not smooth else r.random() < 0.75
    if cls == "RegionalRHALE" and r.random() < 0.2:
        kw["eff"] = r.choice([1.0, 2.5, -1.0])
    if r.random() < 0.3:
        kw["cat_limit"] = r.choice([4, 6, 10])
    if r.random() < 0.12:
        # the user says himself what is categorical, whatever the number of values
        kw["feature_types"] = [t if r.random() < 0.6 else r.choice(["cat", "cont", "numerical"]) for t in feature_types(X, kw.get("cat_limit", 10))]
    if r.random() < 0.3:
        kw["feature_names"] = ["feat_%d" % i for i in range(D)]
    if r.random() < 0.3:
        kw["target_name"] = "tgt"
    return kw


def gen_binning(r, cls):
    if cls == "RegionalALE":
        return {"b": "Fixed", "nof_bins": r.choice([1, 2, 3, 5]), "min_points_per_bin": r.choice([0, 0, 2]), "cat_limit": r.choice([5, 10, 15])}
    c = r.random()
    if c < 0.55:
        return {"b": "Fixed", "nof_bins": r.choice([1, 2, 3, 5]), "min_points_per_bin": r.choice([0, 0, 2]), "cat_limit": r.choice([5, 10, 15])}
    if c < 0.65:
        return "greedy"
    if c < 0.85:
        return {"b": "Greedy", "init_nof_bins": r.choice([5, 10]), "min_points_per_bin": r.choice([2, 3]), "discount": r.choice([0.1, 0.3]), "cat_limit": r.choice([5, 10])}
    return {"b": "DynamicProgramming", "max_nof_bins": r.choice([2, 4]), "min_points_per_bin": r.choice([2, 3]), "discount": 0.3, "cat_limit": r.choice([5, 10])}


def gen_fit(r, name, cls, D, single=False, deep=False):
    c = r.random()
    feats = r.randrange(D) if single or c < 0.7 else ("all" if c < 0.85 else r.sample(range(D), r.randint(1, D)))
    shap = cls == "RegionalShapDP"
    kw = {}
    kw["max_depth"] = r.choice([1, 2, 2]) if D > 2 and not shap else 1
    if D > 3 and not shap and r.random() < 0.4:
        kw["max_depth"] = 3
    if deep and D > 2 and not shap:      # a whole tree however little the levels bring
        kw["max_depth"] = r.choice([2, 3, 3]) if D > 3 else 2
        kw["nof_candidate_splits_for_numerical"] = r.choice([1, 2, 3, 5])
    kw["nof_candidate_splits_for_numerical"] = r.choice([2, 3]) if shap else r.choice([2, 3, 5, 5, 8, 10])
    kw["min_points_per_subregion"] = r.choice([6, 8]) if shap else r.choice([2, 3, 5, 8, 10])
    if r.random() < 0.8:
        kw["heter_pcg_drop_thres"] = r.choice([0.0, 0.05, 0.1, 0.3])
    if r.random() < 0.8:
        kw["heter_small_enough"] = r.choice([0.0, 0.0, 0.05, 0.5])
    if r.random() < 0.25 and isinstance(feats, int):
        cand = [i for i in range(D) if i != feats]
        k = r.randint(kw["max_depth"], len(cand))
        kw["candidate_conditioning_features"] = sorted(r.sample(cand, k))
    if r.random() < 0.4:
        kw["split_categorical_features"] = True
    if r.random() < 0.5:
        kw["centering"] = r.choice(G.CENTERINGS)
    if cls in ("RegionalALE", "RegionalRHALE"):
        if r.random() < 0.85:
            kw["binning"] = gen_binning(r, cls)
    elif r.random() < 0.5:
        kw["points_for_centering"] = r.choice([2, 7, 20, 20, "all"])
    if cls in ("RegionalPDP", "RegionalDerPDP") and r.random() < 0.25:
        kw["use_vectorized"] = False
    return {"op": "fit", "e": name, "features": feats, "kw": kw}


def gen_scale(r, D):
    return [{"mean": r.choice([0.0, 3.0, -1.5]), "std": r.choice([0.5, 2.0, 10.0])} for _ in range(D)]


def gen_eval(r, name, D, limits, feature=None, node=None):
    s = r.randrange(D) if feature is None else feature
    return G.with_form(r, {"op": "eval", "e": name, "feature": s, "node": r.randrange(8) if node is None else node, "xs": G.gen_xs(r, limits[0][s], limits[1][s]),
                           "het": r.random() < 0.5, "centering": r.choice(G.CENTERINGS)})


def gen_plot(r, name, cls, D):
    het = r.choice([False, True, "std"])
    if cls == "RegionalPDP" and r.random() < 0.3:
        het = "ice"
    if cls == "RegionalShapDP" and r.random() < 0.3:
        het = "shap_values"
    kw = C.defaults(r, {"heterogeneity": het, "centering": r.choice(G.CENTERINGS)})
    if r.random() < 0.4:
        kw["scale_x_list"] = gen_scale(r, D)
        if r.random() < 0.5:
            kw["scale_y"] = gen_scale(r, 1)[0]
    return {"op": "plot", "e": name, "feature": r.randrange(D), "node": r.randrange(8), "kw": kw}


def gen_text(r, name, D, full=0.3):
    c = r.random()
    feats = r.randrange(D) if c < 0.6 else ("all" if c < 0.8 else r.sample(range(D), r.randint(1, D)))
    kw = {}
    if r.random() < full:
        kw["only_important"] = False
    elif r.random() < 0.4:
        kw["only_important"] = True
    if r.random() < 0.4:
        kw["scale_x_list"] = gen_scale(r, D)
    return {"op": r.choice(["show", "describe"]), "e": name, "features": feats, "kw": kw}


def gen_world(r, cls, nmin=24, nmax=60, ints=False, kinds=("uni", "uni", "norm", "cat", "grid", "int"), idcol=False):
    shap = cls == "RegionalShapDP"
    dmax = 3 if shap or idcol else 4
    d = G.gen_data(r, nmin=nmin, nmax=28 if shap else nmax, dmin=2, dmax=dmax - (shap and idcol), ints=ints, kinds=kinds, idcol=idcol)
    if not shap and not idcol and nmax >= 40 and r.random() < 0.05:
        d["N"] = r.choice([65, 80, 101, 130, 180, 305, 320, 340])
    edge = not shap and not idcol and d["dtype"] == "f8" and r.random() < 0.04
    if edge:       # hardly anything can be split
        d["N"] = r.choice([9, 10, 16, 20, 24, 26, 28])
        d["cols"] = [G.gen_col(r, ["uni", "norm"]), G.gen_col(r, ["minor"])]
    ep = {"data": d, "model": G.gen_model(r, d, smooth=r.random() < 0.3), "np_seed": r.randrange(2**31), "faults": [], "latency": r.choice([0.0, 0.01])}
    if edge:
        ep["edge"] = True
        if r.random() < 0.7:
            ep["model"] = {"terms": [["const", 1.0], ["lin", 0, r.choice([-1.5, 0.5, 2.0])]]}
    if idcol:
        C.id_terms(r, ep)
    return ep


def gen_session(r, classes=G.REGIONAL, nops=(2, 6), sample=False, ints=False, mix=None, nexp=1, nmin=24, nmax=60, idcol=False, deep=0.0):
    """mix: weights of fit / eval / plot / text / node."""
    mix = mix or {"fit": 3, "eval": 4, "plot": 1, "text": 1, "node": 1}
    cls = r.choice(classes)
    ep = gen_world(r, cls, nmin=nmin, nmax=nmax, ints=ints, idcol=idcol)
    X = G.make_data(ep["data"])
    D = X.shape[1]
    lim = C.limits_of({}, X)
    ops = [{"op": "seed", "s": ep["np_seed"]}]
    exps = []
    for k in range(nexp):
        name = "r%d" % k
        ops.append({"op": "new", "e": name, "cls": cls, "kw": gen_ctor(r, cls, ep, X, sample)})
        exps.append((name, cls))
    feats = list(range(D))
    kinds = [k for k, w in mix.items() for _ in range(w)]
    focus = r.sample(feats, min(D, 2))
    first = True
    for _ in range(r.randint(*nops)):
        name, cls = r.choice(exps)
        k = "fit" if first and r.random() < 0.8 else r.choice(kinds)
        first = False
        if k == "fit":
            op = gen_fit(r, name, cls, D, deep=deep > 0 and r.random() < deep)
            if ep.get("edge"):
                op["kw"]["min_points_per_subregion"] = ep["data"]["N"] - r.choice([0, 0, 1, 2])
                op["features"] = r.choice([0, 0, "all"])
                op["kw"].pop("candidate_conditioning_features", None)
            if isinstance(op["features"], int) and "candidate_conditioning_features" not in op["kw"] and r.random() < 0.7:
                op["features"] = r.choice(focus)
        elif k == "eval":
            op = gen_eval(r, name, D, lim, feature=r.choice(focus))
        elif k == "plot":
            op = gen_plot(r, name, cls, D)
            op["feature"] = r.choice(focus)
        elif k == "text":
            op = gen_text(r, name, D, full=0.8 if deep else 0.3)
        else:
            op = {"op": "node", "e": name, "feature": r.choice(focus), "node": r.randrange(8)}
            if r.random() < 0.4:
                op["kw"] = {"scale_x_list": gen_scale(r, D)}
        ops.append(op)
    if r.random() < 0.35:
        ops = C.twins(r, ops, D, lambda e, s: gen_eval(r, e, D, lim, feature=s))
    ep["ops"] = ops
    G.gen_out(r, ep, whole=not idcol and cls in ("RegionalPDP", "RegionalALE"))
    return ep


# ------------------------------------------------------------------ observing a tree
def tree_of(ex, s, full=False):
    """The nodes of a fitted feature as plain data, or None when there is no tree."""
    t = (ex.tree_full if full else ex.tree_pruned).get("feature_%d" % s)
    if t is None:
        return None
    out = []
    for n in t.nodes:
        out.append({"idx": n.idx, "name": n.name, "level": n.level, "parent": None if n.parent_node is None else n.parent_node.idx,
                    "heter": float(n.heterogeneity), "weight": float(n.weight), "n": int(n.nof_instances),
                    "rows": np.array(n.data["data"], dtype=float),
                    "eff": None if n.data["data_effect"] is None else np.array(n.data["data_effect"], dtype=float),
                    "foc": n.foc, "cmp": n.comparison, "pos": None if n.foc_position is None else float(n.foc_position), "type": n.foc_type})
    return out


def same_tree(a, b, rt=1e-8):
    if a is None or b is None:
        return a is b or "one has no tree"
    if len(a) != len(b):
        return "%d nodes instead of %d" % (len(a), len(b))
    for x, y in zip(a, b):
        for k in ("idx", "name", "level", "parent", "n", "foc", "cmp", "pos", "type"):
            if x[k] != y[k]:
                return "node %d: %s is %r instead of %r" % (x["idx"], k, x[k], y[k])
        for k in ("heter", "weight", "rows"):
            if not close(x[k], y[k], rt):
                return "node %d: %s differs (%s)" % (x["idx"], k, worst(x[k], y[k]))
        if (x["eff"] is None) != (y["eff"] is None) or x["eff"] is not None and not close(x["eff"], y["eff"], rt):
            return "node %d: effects differ" % x["idx"]
    return True


NODE_LINE = re.compile(r"Node id: *(\d+), *name: *(.*?), *heter: *\S+ *\|\| *nof_instances: *(\d+)")


def printed_nodes(ex, s, important, scale):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        ex.show_partitioning(s, important, scale)
    return NODE_LINE.findall(b.getvalue())


def same_views(ex, fx, s, D):
    """The scaled views of a tree (node info, printed tree) are those of the same tree."""
    scale = [{"mean": 0.5 * (f - 1), "std": 2.0} for f in range(D)]
    for important in (True, False):
        a, b = printed_nodes(ex, s, important, scale), printed_nodes(fx, s, important, scale)
        if a != b:
            return "with a scale the partition is printed as %s instead of %s" % (a, b)
    t = fx.tree_pruned["feature_%d" % s]
    for n in (t.nodes if t is not None else []):
        (d1, e1, m1), (d2, e2, m2) = ex.get_node_info(s, n.idx, scale), fx.get_node_info(s, n.idx, scale)
        if m1 != m2 or not np.array_equal(d1, d2) or (e1 is None) != (e2 is None) or e1 is not None and not close(e1, e2, 1e-8):
            return "node %d with a scale is %r with %d rows instead of %r with %d rows" % (n.idx, m1, len(d1), m2, len(d2))
    return True


# ------------------------------------------------------------------ reference heterogeneity
def lims(R):
    R = np.asarray(R, dtype=float)
    return [R.min(axis=0).tolist(), R.max(axis=0).tolist()]


class Heter:
    """Heterogeneity of a set of rows by definition (None: this reference cannot say).

    Where the definition leaves room (greedy and dynamic-programming bins, splines), `glob` gives the heterogeneity of
    the real global method on exactly these rows: whether that is right is C01's question."""

    def __init__(self, cls, terms, s, cfg, full_limits, eff_scale=None, glob=None):
        self.glob = glob
        self.cls, self.terms, self.s, self.cfg, self.full, self.eff_scale = cls, terms, s, cfg, full_limits, eff_scale
        self.minp = cfg.get("min_points_per_subregion", 10)
        self.memo = {}
        self.cell = {}

    def __call__(self, R, lib_effects=None):
        key = R.tobytes()
        if key not in self.memo:
            v = self.compute(R)
            self.memo[key] = self.glob(R) if v is None and self.glob is not None else v
        return self.memo[key]

    def compute(self, R):
        s, cls, cfg = self.s, self.cls, self.cfg
        if len(R) < self.minp:
            return BIG_M
        L = lims(R)
        lo, hi = L[0][s], L[1][s]
        if cls in ("RegionalPDP", "RegionalDerPDP"):
            if not self.full[0][s] < self.full[1][s]:
                return BIG_M
            m = ref.rows_in(R, self.full, s)
            y = ref.ice(self.terms, R[m], s, np.linspace(lo, hi, 10), cls == "RegionalDerPDP")
            return float(y.std(axis=1).mean())
        if cls in ("RegionalALE", "RegionalRHALE"):
            try:
                lim = self.bins(R, L)
            except ref.Refuse:
                return BIG_M
            if lim is None:
                return None
            eff = None
            if cls == "RegionalRHALE":
                eff = S.jac_terms(self.terms, R) * (self.eff_scale or 1.0)
            try:
                return float(ref.ale(self.terms, R, L, s, lim, [hi], False, eff)[1][0])
            except ref.Refuse:
                return BIG_M
        return None

    def bins(self, R, L):
        b = self.cfg.get("binning")
        x = R[:, self.s]
        if b is None and self.cls == "RegionalALE":
            return ref.fixed_limits(x, L[0][self.s], L[1][self.s], 20, 0, 15)
        if isinstance(b, dict) and b["b"] == "Fixed":
            return ref.fixed_limits(x, L[0][self.s], L[1][self.s], b.get("nof_bins", 100), b.get("min_points_per_bin", 10), b.get("cat_limit", 15))
        return None


def feature_types(X, cat_limit):
    X = np.asarray(X, dtype=float)
    return ["cat" if len(np.unique(X[:, j])) < cat_limit else "cont" for j in range(X.shape[1])]


def candidates(R, f, typ, nof):
    x = R[:, f]
    if typ == "cat":
        return np.unique(x)
    lo, hi = x.min(), x.max()
    return np.array([lo + (k + 0.5) * ((hi - lo) / nof) for k in range(nof)])


def roundings(R, f, typ, nof, k):
    """The k-th candidate position, as equally good ways to compute it round it."""
    if typ == "cat":
        return [candidates(R, f, typ, nof)[k]]
    lo, hi = R[:, f].min(), R[:, f].max()
    e = np.linspace(lo, hi, nof + 1)
    return sorted({float(v) for v in (lo + (k + 0.5) * ((hi - lo) / nof), 0.5 * (e[k] + e[k + 1]), lo + (hi - lo) * (k + 0.5) / nof, lo + (hi - lo) * ((k + 0.5) / nof))})


def holds(x, cmp, pos):
    return {"<=": x <= pos, "<": x < pos, ">": x > pos, ">=": x >= pos, "==": x == pos, "!=": x != pos}[cmp]


# ------------------------------------------------------------------ the judge
class RegionalJudge:
    """Sets of configurations that may be in force per feature, and what each must give."""

    def __init__(self, world, res):
        self.w, self.res = world, res
        self.state, self.rows, self.cache = {}, {}, {}
        self.use_def = True

    def born(self, name):
        ex, info = self.w.E[name], self.w.info[name]
        X = np.asarray(self.w.X0, dtype=float)
        self.rows[name] = X.copy() if asked_rows(info["cls"], info["kw"], X.shape[0]) == X.shape[0] else np.array(ex.data, dtype=float)
        self.state[name] = {s: [None] for s in range(X.shape[1])}

    def types(self, name):
        kw = self.w.info[name]["kw"]
        return kw.get("feature_types") or feature_types(self.w.X0, kw.get("cat_limit", 10))

    def names(self, name):
        return self.w.info[name]["kw"].get("feature_names") or ["x_%d" % i for i in range(self.w.dim)]

    def features(self, f):
        return list(range(self.w.dim)) if f == "all" else ([f] if isinstance(f, int) else list(f))

    @staticmethod
    def key(cfg):
        return repr(sorted(cfg.items(), key=str)) if cfg is not None else "None"

    def fresh(self, name, s, cfg):
        """A fresh explainer on the same rows, fitted with nothing but cfg."""
        key = ("fresh", name, s, self.key(cfg))
        if key not in self.cache:
            info = self.w.info[name]
            cls, kw, R = info["cls"], info["kw"], self.rows[name]

            def make():
                a = {"nof_instances": "all", "axis_limits": np.array(lims(self.w.X0)), "feature_types": list(self.types(name)),
                     "cat_limit": kw.get("cat_limit", 10), "feature_names": list(self.names(name)), "target_name": kw.get("target_name")}
                if cls in ("RegionalDerPDP", "RegionalRHALE") and kw.get("jac"):
                    a["model_jac"] = S.SimModel(self.w.terms, self.w.dim, "jac")
                if cls == "RegionalRHALE" and kw.get("eff"):
                    a["instance_effects"] = S.jac_terms(self.w.terms, R) * float(kw["eff"])
                ex = cls_of(cls)(R.copy(), S.SimModel(self.w.terms, self.w.dim, "f"), **a)
                fk = {("binning_method" if k == "binning" else k): (binning(v) if k == "binning" else v) for k, v in cfg.items()}
                ex.fit(s, **fk)
                return ex
            try:
                self.cache[key] = (self.w.quiet(make), None)
            except Exception as e:
                self.cache[key] = (None, e)
        return self.cache[key]

    # ---- updates
    def after_fit(self, rec):
        op = rec["op"]
        st = self.state[op["e"]]
        cfg = dict(op["kw"])
        for s in self.features(op["features"]):
            st[s] = [cfg] if rec["status"] == "ok" else (st[s] if cfg in st[s] else st[s] + [cfg])

    def implicit(self, name, s, ok):
        """eval/plot/print fit an unfitted feature with default settings."""
        st = self.state[name]
        if None in st[s]:
            rest = [c for c in st[s] if c is not None]
            st[s] = rest + ([{}] if {} not in rest else []) + ([] if ok else [None])

    def possible(self, name, s):
        return [c for c in self.state[name][s] if c is not None]

    def refused(self, name, s, cfg):
        return self.fresh(name, s, cfg)[1]

    def feasible(self, name, s, cfg):
        """A regional fit has an answer unless it may split more often than there are features to split on."""
        foc = cfg.get("candidate_conditioning_features", "all")
        n = self.w.dim - 1 if foc == "all" else len(foc)
        return self.w.info[name]["cls"] != "RegionalShapDP" and cfg.get("max_depth", DEFAULTS["max_depth"]) <= n

    def check_fit(self, rec):
        op = rec["op"]
        if rec["status"] == "exc" and not rec["fired"]:
            feats = self.features(op["features"])
            if not any(self.refused(op["e"], s, dict(op["kw"])) is not None for s in feats):
                self.res.bad("spurious-failure", "regional fit failed with %s although no fault was injected and a fresh explainer accepts the same request"
                             % exc_name(rec["exc"]), rec["i"])
            elif all(self.feasible(op["e"], s, op["kw"]) for s in feats):
                self.res.bad("spurious-failure", "regional fit of %s failed with %s although the request has an answer"
                             % (self.w.info[op["e"]]["cls"], exc_name(rec["exc"])), rec["i"])
            else:
                self.res.probes["refused"] += 1
        self.after_fit(rec)

    # ---- state against fresh explainers
    def check_state(self, name, features=None, i=None):
        """Every feature's trees are those of one of its possible configurations."""
        ex = self.w.E[name]
        for s in (range(self.w.dim) if features is None else features):
            cfgs = self.state[name][s]
            fitted = bool(ex.is_fitted[s])
            ok, why = [], ""
            for c in cfgs:
                if c is None:
                    if not fitted:
                        ok.append(c)
                    continue
                fx, err = self.fresh(name, s, c)
                if err is not None:
                    why = why or "a fresh explainer refuses with %s" % exc_name(err)
                    continue
                if not fitted:
                    why = why or "not fitted"
                    continue
                try:
                    a = same_tree(self.w.quiet(lambda: tree_of(ex, s, True)), tree_of(fx, s, True))
                    b = same_tree(self.w.quiet(lambda: tree_of(ex, s)), tree_of(fx, s))
                except (KeyError, AttributeError) as e:
                    a, b = "tree missing: %s" % exc_name(e), True
                if a is True and b is True:
                    v = self.w.quiet(lambda: same_views(ex, fx, s, self.w.dim))
                    if v is not True:
                        why = v
                        continue
                    ok.append(c)
                else:
                    why = str(a if a is not True else b)
            if not ok:
                self.res.bad("regional-state", "%s feature %d: the stored partition is none of those its possible configurations (%s) give: %s"
                             % (self.w.info[name]["cls"], s, " or ".join(map(str, cfgs)), why), i)
                return False
            self.res.probes["tree-compared"] += 1
            self.state[name][s] = ok
        return True

    # ---- the node's global method
    def node_global(self, name, s, cfg, node):
        key = ("glob", name, s, self.key(cfg), node)
        if key not in self.cache:
            fx, err = self.fresh(name, s, cfg)
            if err is not None:
                return None, err
            info = self.w.info[name]
            kw, cls = info["kw"], info["cls"]
            t = tree_of(fx, s)
            if t is None:
                return None, AssertionError("no tree")
            nd = [n for n in t if n["idx"] == node]
            if not nd:
                return None, AssertionError("no such node")
            nd = nd[0]
            a = {"nof_instances": "all", "avg_output": 0.0}
            g = GLOBAL_OF[cls]
            if g in ("DerPDP", "RHALE") and kw.get("jac"):
                a["model_jac"] = S.SimModel(self.w.terms, self.w.dim, "jac")
            if g == "RHALE" and nd["eff"] is not None:
                a["data_effect"] = nd["eff"].copy()
            ex = self.w.quiet(lambda: cls_of(g)(nd["rows"].copy(), S.SimModel(self.w.terms, self.w.dim, "f"), **a))
            self.cache[key] = ((ex, nd), None)
        return self.cache[key]

    def global_heter(self, name, s, cfg, R):
        """Heterogeneity of the real global method on rows R (BIG_M: it refuses them; None: no reference)."""
        info = self.w.info[name]
        kw, g = info["kw"], GLOBAL_OF[info["cls"]]
        if g not in ("RHALE", "ShapDP"):
            return None
        a = {"nof_instances": "all", "avg_output": 0.0}
        if g == "RHALE":
            if kw.get("eff"):
                a["data_effect"] = S.jac_terms(self.w.terms, R) * float(kw["eff"])
            elif kw.get("jac"):
                a["model_jac"] = S.SimModel(self.w.terms, self.w.dim, "jac")
        L = lims(R)
        xs = np.array([L[1][s]]) if g == "RHALE" else np.linspace(L[0][s], L[1][s], 10)

        def go():
            ex = cls_of(g)(R.copy(), S.SimModel(self.w.terms, self.w.dim, "f"), **a)
            fa = self.global_fit_args(info["cls"], cfg)
            if isinstance(fa.get("binning_method"), str):
                # the search reads the shorthands as the classes' own defaults (>= 10 rows per bin), unlike the global methods
                fa["binning_method"] = binning({"b": {"greedy": "Greedy", "dp": "DynamicProgramming", "fixed": "Fixed"}[fa["binning_method"]]})
            ex.fit(s, centering=False, **fa)
            return float(np.mean(ex.eval(s, xs, True)[1]))
        try:
            v = self.w.quiet(go)
        except Exception:
            return BIG_M if g == "RHALE" else None
        return v if np.isfinite(v) else None

    def global_fit_args(self, cls, cfg):
        g = GLOBAL_OF[cls]
        if g in ("PDP", "DerPDP", "ShapDP"):
            return {"points_for_centering": cfg.get("points_for_centering", 100)}
        b = cfg.get("binning")
        if b is None:
            b = "greedy" if g == "RHALE" else {"b": "Fixed", "nof_bins": 20, "min_points_per_bin": 0}
        return {"binning_method": binning(b)}

    def expected(self, name, s, cfg, node, op):
        """What the global method gives on the node's rows."""
        got, err = self.node_global(name, s, cfg, node)
        if err is not None:
            return None, err
        ex, nd = got
        try:
            def go():
                ex.fit(s, centering=op["centering"], **self.global_fit_args(self.w.info[name]["cls"], cfg))
                return ex.eval(s, np.array(op["xs"], dtype=float), op.get("het", False), op["centering"])
            r = self.w.quiet(go)
        except Exception as e:
            return None, e
        return (tuple(np.array(v) for v in r) if isinstance(r, tuple) else np.array(r)), None

    def definition(self, name, s, cfg, node, op):
        info = self.w.info[name]
        got, err = self.node_global(name, s, cfg, node)
        if err is not None:
            return None
        R = got[1]["rows"]
        L = lims(R)
        c, xs, T = op["centering"], op["xs"], self.w.terms
        cls = info["cls"]
        if cls in ("RegionalPDP", "RegionalDerPDP"):
            y = ref.pdp(T, R, L, s, xs, c, cfg.get("points_for_centering", 100), cls == "RegionalDerPDP")
            return (y.mean(axis=1), y.std(axis=1)) if op.get("het") else y.mean(axis=1)
        if cls in ("RegionalALE", "RegionalRHALE"):
            h = Heter(cls, T, s, cfg, L, info["kw"].get("eff"))
            lim = h.bins(R, L)
            if lim is None:
                return None
            eff = S.jac_terms(T, R) * float(info["kw"].get("eff") or 1.0) if cls == "RegionalRHALE" else None
            y, sd = ref.ale(T, R, L, s, lim, xs, c, eff)
            return (y, sd) if op.get("het") else y
        return None

    def check_eval(self, rec):
        op, res = rec["op"], self.res
        name, s, node = op["e"], op["feature"], rec["node"]
        info = self.w.info[name]
        was = self.possible(name, s)
        self.implicit(name, s, rec["status"] == "ok")
        cfgs = self.possible(name, s) if rec["status"] == "ok" or None not in self.state[name][s] else was + [{}]
        if rec["status"] == "exc":
            if rec["fired"]:
                return
            if all(self.expected(name, s, c, node, op)[1] is None for c in cfgs):
                res.bad("spurious-failure", "%s.eval raised %s although no fault was injected and the global method answers on the node's rows"
                        % (info["cls"], exc_name(rec["exc"])), rec["i"])
            else:
                res.probes["refused"] += 1
            return
        ok, why = [], ""
        for c in cfgs:
            exp, err = self.expected(name, s, c, node, op)
            if err is not None:
                why = why or "the global method refuses with %s" % exc_name(err)
            elif C.GlobalJudge.matches(self, name, rec["val"], exp, C.RT_FRESH):
                ok.append(c)
            else:
                why = C.GlobalJudge.describe(self, rec["val"], exp)
        if not ok:
            res.bad("regional-eval", "%s.eval(feature=%d, node=%d, centering=%r) is not what the global method gives on the node's rows (%s): %s"
                    % (info["cls"], s, node, op["centering"], " or ".join(map(str, cfgs)), why), rec["i"])
            return
        self.state[name][s] = ok
        res.probes["node-eval-compared"] += 1
        if not self.use_def:
            return
        try:
            d = self.definition(name, s, ok[0], node, op)
        except ref.Refuse as e:
            res.bad("infeasible-accepted", "%s answered a request that has no valid answer: %s" % (info["cls"], e), rec["i"])
            return
        if d is None or not all(np.isfinite(v).all() for v in (d if isinstance(d, tuple) else (d,))):
            return
        res.probes["definition-compared"] += 1
        numeric = info["cls"] in ("RegionalDerPDP", "RegionalRHALE") and not info["kw"].get("jac") and not info["kw"].get("eff")
        if not C.GlobalJudge.matches(self, name, rec["val"], d, C.RT_NUM if numeric else (C.RT_SHAP if info["cls"] == "RegionalShapDP" else C.RT_DEF)):
            res.bad("wrong-by-definition", "%s.eval(feature=%d, node=%d, centering=%r) differs from the definition on the node's rows: %s"
                    % (info["cls"], s, node, op["centering"], C.GlobalJudge.describe(self, rec["val"], d)), rec["i"])

    def check_other(self, rec):
        """plot / show / describe / node: only their failures and implicit fits matter here."""
        op = rec["op"]
        name = op["e"]
        feats = self.features(op.get("features", op.get("feature")))
        if op["op"] != "node":
            for s in feats:
                self.implicit(name, s, rec["status"] == "ok")
        if rec["status"] == "exc" and not rec["fired"]:
            probs = []
            for s in feats:
                for c in self.possible(name, s) + ([{}] if None in self.state[name][s] and op["op"] != "node" else []):
                    if op["op"] == "plot":
                        probs.append(self.expected(name, s, c, rec["node"], {"centering": op["kw"].get("centering", False), "xs": [0.0], "het": True})[1])
                    elif op["op"] == "node":
                        probs.append(self.node_global(name, s, c, rec["node"])[1])
                    else:
                        probs.append(self.refused(name, s, c))
                if op["op"] == "node" and None in self.state[name][s]:
                    probs.append(AssertionError("not fitted"))
            if all(p is None for p in probs):
                self.res.bad("spurious-failure", "%s on %s raised %s although no fault was injected"
                             % (op["op"], self.w.info[name]["cls"], exc_name(rec["exc"])), rec["i"])
            else:
                self.res.probes["refused"] += 1

    def observe(self, rec):
        k = rec["op"]["op"]
        if k == "new":
            if rec["status"] == "ok":
                self.born(rec["op"]["e"])
            elif not rec["fired"]:
                self.res.bad("spurious-failure", "constructor raised %s without any fault" % exc_name(rec["exc"]), rec["i"])
        elif rec["op"].get("e") not in self.w.E and k != "seed":
            return
        elif k == "fit":
            self.check_fit(rec)
        elif k == "eval":
            self.check_eval(rec)
        elif k in ("plot", "show", "describe", "node"):
            self.check_other(rec)

    # ---- C09: the tree by definition
    def check_tree(self, name, s, cfg, i=None):
        bad = lambda kind, msg: self.res.bad(kind, "%s feature %d (%s): %s" % (self.w.info[name]["cls"], s, cfg, msg), i)
        info = self.w.info[name]
        cls, R0, ex = info["cls"], self.rows[name], self.w.E[name]
        cf = dict(DEFAULTS, **{k: v for k, v in cfg.items() if k in DEFAULTS})
        types = self.types(name)
        names = self.names(name)
        full, pruned = tree_of(ex, s, True), tree_of(ex, s)
        n0 = len(R0)
        h = Heter(cls, self.w.terms, s, cfg, lims(self.w.X0), info["kw"].get("eff"), lambda R: self.global_heter(name, s, cfg, R))
        numeric = cls in ("RegionalDerPDP", "RegionalRHALE") and not info["kw"].get("jac") and not info["kw"].get("eff")
        rt = 1e-3 if numeric else 1e-6
        # --- must there be a tree at all?
        expect_none = (types[s] == "cat" and not cf["split_categorical_features"]) or n0 < cf["min_points_per_subregion"]
        if expect_none != (full is None):
            return bad("tree-existence", "a tree was %s" % ("made although the feature may not be split" if expect_none else "not made"))
        if full is None:
            return
        eff0 = None
        if cls == "RegionalRHALE" and not numeric:
            eff0 = S.jac_terms(self.w.terms, R0) * float(info["kw"].get("eff") or 1.0)
        foc = [f for f in range(self.w.dim) if f != s] if cf["candidate_conditioning_features"] == "all" else list(cf["candidate_conditioning_features"])
        for which, tree in (("full", full), ("pruned", pruned)):
            if not self.check_partition(bad, which, tree, R0, eff0, names, h, rt, numeric):
                return
        # --- splits
        depth = max(n["level"] for n in full)
        levels = [[n for n in full if n["level"] == l] for l in range(depth + 1)]
        for l, nodes in enumerate(levels):
            if len(nodes) != 2 ** l:
                return bad("tree-shape", "level %d has %d nodes" % (l, len(nodes)))
        small = lambda nodes: any(n["n"] < cf["min_points_per_subregion"] for n in nodes)
        for l in range(depth):
            if small(levels[l]):
                return bad("split-too-small", "a region with fewer than %d rows was split further" % cf["min_points_per_subregion"])
        if depth > cf["max_depth"]:
            return bad("too-deep", "depth %d exceeds max_depth %d" % (depth, cf["max_depth"]))
        if depth < cf["max_depth"] and not small(levels[depth]):
            return bad("stopped-early", "depth %d although max_depth is %d and every region is large enough" % (depth, cf["max_depth"]))
        wh = []
        for l, nodes in enumerate(levels):
            n = np.array([x["n"] for x in nodes], dtype=float)
            wh.append(float(np.sum((n + 1) / np.sum(n + 1) * np.array([x["heter"] for x in nodes]))))
        for l in range(1, depth + 1):
            f, pos, typ = levels[l][0]["foc"], levels[l][0]["pos"], levels[l][0]["type"]
            if f not in foc or typ != types[f]:
                return bad("illegal-split", "level %d splits on feature %r as %r" % (l, f, typ))
            cand = {g: candidates(R0, g, types[g], cf["nof_candidate_splits_for_numerical"]) for g in foc}
            if np.min(np.abs(cand[f] - pos)) > 1e-9 * (1 + abs(pos)):
                return bad("illegal-split", "level %d splits feature %d at %r, which is not a candidate position" % (l, f, pos))
            if any(x["foc"] != f or x["pos"] != pos for x in levels[l]):
                return bad("illegal-split", "level %d is split in different ways" % l)
            before = [x["heter"] for x in levels[l - 1]]
            def drop_of(g, p):
                """The weighted drop of this split; None: not to be told."""
                hs, ns = [], []
                for x in levels[l - 1]:
                    a = x["rows"][:, g] == p if types[g] == "cat" else x["rows"][:, g] <= p
                    for m in (a, ~a):
                        v = h(x["rows"][m])
                        if v is None:
                            return None
                        hs.append(v)
                        ns.append(int(m.sum()))
                wgt = (np.array(ns) + 1.0) / np.sum(np.array(ns) + 1.0)
                return float(np.sum(wgt * (np.repeat(before, 2) - np.array(hs))))

            best, arg = -np.inf, None
            mine = drop_of(f, pos)
            unsure = mine is None
            for g in foc:
                for k, p in enumerate(cand[g]):
                    # rows that lie on a position to rounding may be on either side of it
                    rd = roundings(R0, g, types[g], cf["nof_candidate_splits_for_numerical"], k)
                    if len({(R0[:, g] <= q).sum() for q in rd}) == 1:
                        rd = rd[:1]
                    drops = [drop_of(g, q) for q in rd] if not unsure else [None]
                    unsure = unsure or None in drops
                    if not unsure and min(drops) > best:
                        best, arg = min(drops), (g, float(p))
            if unsure:
                self.res.probes["split-search-skipped"] += 1
                continue
            self.res.probes["split-search-compared"] += 1
            tol = (1e-3 if numeric else 1e-7) * (1 + max(abs(v) for v in before if v < BIG_M) if any(v < BIG_M for v in before) else 1) + 1e-9 * max(map(abs, before)) + (1e-6 if abs(best) > 1e5 else 0)
            if best > 1e5 or best < -1e5:
                tol += 1e-7 * abs(best)
            if mine < best - tol:
                return bad("not-best-split", "level %d splits feature %d at %.6g (weighted drop %s) although feature %d at %.6g drops %.9g"
                           % (l, f, pos, mine, arg[0], arg[1], best))
        # --- pruning
        if 0.5 * BIG_M < max(map(abs, wh)) and abs(wh[0] / BIG_M - 1) > 1e-9 and any(abs(v) > 1e6 and abs(v / BIG_M - 1) > 1e-9 for v in [n["heter"] for n in full]):
            keep = None      # an exploding spline: indistinguishable from the "cannot be fitted" mark
        elif wh[0] >= BIG_M * 0.999 or wh[0] < cf["heter_small_enough"]:
            keep = 0
            if abs(wh[0] - cf["heter_small_enough"]) < 1e-9:
                keep = None
        else:
            keep = 0
            for l in range(1, depth + 1):
                d = (wh[l - 1] - wh[l]) / wh[l - 1] if wh[l - 1] != 0 else 0.0
                if abs(d - cf["heter_pcg_drop_thres"]) < 1e-9:
                    keep = None
                    break
                if d > cf["heter_pcg_drop_thres"]:
                    keep = l
                else:
                    break
        if keep is not None:
            got = max(n["level"] for n in pruned)
            if got != keep:
                return bad("pruning", "the pruned tree keeps %d levels instead of %d (weighted heterogeneities %s, threshold %s)"
                           % (got, keep, ["%.6g" % v for v in wh], cf["heter_pcg_drop_thres"]))
            self.res.probes["pruning-compared"] += 1
        self.res.probes["tree-by-definition"] += 1

    def check_partition(self, bad, which, tree, R0, eff0, names, h, rt, numeric):
        root = [n for n in tree if n["parent"] is None]
        if len(root) != 1 or root[0]["level"] != 0 or [n["idx"] for n in tree] != list(range(len(tree))):
            bad("tree-shape", "%s tree: not one root with consecutive node numbers" % which)
            return False
        by = {n["idx"]: n for n in tree}
        order = np.lexsort(R0.T)
        for l in range(max(n["level"] for n in tree) + 1):
            nodes = [n for n in tree if n["level"] == l]
            rows = np.concatenate([n["rows"] for n in nodes])
            if rows.shape != R0.shape or not np.array_equal(rows[np.lexsort(rows.T)], R0[order]):
                bad("not-a-partition", "%s tree, level %d: the regions together do not hold exactly the explainer's rows (%d of %d)" % (which, l, len(rows), len(R0)))
                return False
        for n in tree:
            if n["n"] != len(n["rows"]):
                bad("wrong-count", "%s tree, node %d says %d rows and holds %d" % (which, n["idx"], n["n"], len(n["rows"])))
                return False
            if abs(n["weight"] - len(n["rows"]) / len(R0)) > 1e-12:
                bad("wrong-weight", "%s tree, node %d: weight %r for %d of %d rows" % (which, n["idx"], n["weight"], len(n["rows"]), len(R0)))
                return False
            if n["eff"] is not None:
                if n["eff"].shape != n["rows"].shape:
                    bad("wrong-effects", "%s tree, node %d: %s effects for %s rows" % (which, n["idx"], n["eff"].shape, n["rows"].shape))
                    return False
                if eff0 is not None:
                    e = S.jac_terms(self.w.terms, n["rows"]) * (eff0_scale(eff0, self.w.terms, R0))
                    if not close(n["eff"], e, 1e-9):
                        bad("wrong-effects", "%s tree, node %d: effects are not those of its rows" % (which, n["idx"]))
                        return False
            if n["parent"] is not None:
                p = by[n["parent"]]
                x = n["rows"][:, n["foc"]]
                if n["cmp"] not in ("<=", "<", ">", ">=", "==", "!=") or not holds(x, n["cmp"], n["pos"]).all():
                    bad("false-label", "%s tree, node %d is labelled %s %s %r but holds a row with %s" % (which, n["idx"], names[n["foc"]], n["cmp"], n["pos"],
                        x[~holds(x, n["cmp"], n["pos"])][:1]))
                    return False
                want = "%s %s %s" % (names[n["foc"]], n["cmp"], np.float64(n["pos"]).round(2))
                if not " ".join(n["name"].split()).endswith(want) or not n["name"].startswith(p["name"]):
                    bad("false-label", "%s tree, node %d is named %r but its condition is %r under %r" % (which, n["idx"], n["name"], want, p["name"]))
                    return False
                m = holds(p["rows"][:, n["foc"]], n["cmp"], n["pos"])
                if int(m.sum()) != len(n["rows"]):
                    bad("false-label", "%s tree, node %d holds %d rows, its condition selects %d of its parent" % (which, n["idx"], len(n["rows"]), int(m.sum())))
                    return False
            v = h(n["rows"])
            if v is None:
                self.res.probes["heter-skipped"] += 1
            elif not close(n["heter"], v, rt):
                bad("wrong-heterogeneity", "%s tree, node %d: heterogeneity %.9g, its rows give %.9g" % (which, n["idx"], n["heter"], v))
                return False
            else:
                self.res.probes["heter-compared"] += 1
        return True


def eff0_scale(eff0, terms, R0):
    j = S.jac_terms(terms, R0)
    k = np.argmax(np.abs(j))
    return float(eff0.flat[k] / j.flat[k]) if j.flat[k] else 1.0
