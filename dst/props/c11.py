"""C11: a plot draws what eval returns, transformed and labelled as asked, and changes nothing."""
import numpy as np

from .. import ref
from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import World, close, worst
from . import common as C
from .c12 import name_ok

NEEDS_SHAP = True
QUICK, THOROUGH = 900, 24000


# ------------------------------------------------------------------ generation
def scale(r):
    return {"mean": r.choice([0.0, 3.0, -1.5]), "std": r.choice([0.5, 2.0, 10.0])}


def rich_plot(r, name, cls, D, vec_limits, n):
    op = C.gen_plot(r, name, cls, D)
    kw = op["kw"]
    if r.random() < 0.35:
        kw["scale_x"] = scale(r)
    if r.random() < 0.35:
        kw["scale_y"] = scale(r)
    if r.random() < 0.3:
        kw["y_limits"] = [-5.0, 7.5]
    if cls in ("ALE", "RHALE"):
        if r.random() < 0.3:
            kw["dy_limits"] = [-4.0, 3.5]
    else:
        if r.random() < 0.4:
            kw["nof_points"] = r.choice([5, 12, 40])
    if cls in ("PDP", "DerPDP"):
        if r.random() < 0.4:
            kw["nof_ice"] = r.choice([1, 5, 10, n + 7])
        if r.random() < 0.3:
            kw["use_vectorized"] = r.random() < 0.5
    if cls == "ShapDP" and r.random() < 0.4:
        kw["nof_shap_values"] = r.choice([2, 5, n + 7])
    return op


def generate(r):
    c = r.random()
    if c < 0.45:
        classes = ["ShapDP"] if c < 0.08 else (["RHALE"] if c < 0.18 else (["ALE"] if c < 0.26 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(2, 6), plots=0.0, sample=True, nmax=32 if classes == ["ShapDP"] else 45, ints=r.random() < 0.1)
        out = []
        for op in ep["ops"]:
            out.append(op)
            if op["op"] != "seed" and r.random() < 0.7:
                name, cls, lim = r.choice([e for e in exps if any(o["op"] == "new" and o["e"] == e[0] for o in out)] or [(None, None, None)])
                if name:
                    pl = rich_plot(r, name, cls, D, lim, N)
                    out.append(pl)
                    if r.random() < 0.5:
                        out.append(C.gen_eval(r, name, cls, D, lim, feature=pl["feature"]))
        ep["ops"] = out
    else:
        cls = ["RegionalShapDP"] if c < 0.49 else (["RegionalRHALE"] if c < 0.65 else (["RegionalALE"] if c < 0.8 else ["RegionalPDP", "RegionalDerPDP"]))
        ep = R.gen_session(r, cls, nops=(3, 7), sample=True, ints=r.random() < 0.1, mix={"fit": 3, "eval": 2, "plot": 7, "text": 1, "node": 1})
        for op in ep["ops"]:
            if op["op"] == "plot":
                op["kw"].pop("scale_y", None)
                if r.random() < 0.35:
                    op["kw"]["scale_y"] = scale(r)
                if r.random() < 0.3:
                    op["kw"]["y_limits"] = [-5.0, 7.5]
    if r.random() < 0.25:
        n = len(ep["ops"])
        ep["faults"] = C.gen_faults(r, ep, r.choice([["gui"], ["gui"], ["gui", "alloc", "model"]]), r.choice([1, 2]), ops={i for i, o in enumerate(ep["ops"]) if o["op"] == "plot"})
        for f in ep["faults"]:
            ep["ops"].append(dict(ep["ops"][f["op"]]))       # the user plots again
        assert len(ep["ops"]) >= n
    return ep


def check(ep):
    res = C.Result()
    w = World(ep)
    regional = any(o.get("cls", "").startswith("Regional") for o in ep["ops"])
    j = (R.RegionalJudge if regional else C.GlobalJudge)(w, res)
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if not res.violations and op["op"] == "plot" and rec["status"] == "ok" and op["e"] in w.E:
            (RegionalView if regional else GlobalView)(j, rec).check()
        if not res.violations and regional and op["op"] == "plot" and op["e"] in w.E:
            j.check_state(op["e"], i=i)
        if res.violations:
            break
    return C.finish(res, w)


# ------------------------------------------------------------------ the drawing
class View:
    def __init__(self, j, rec):
        self.j, self.rec, self.op, self.kw = j, rec, rec["op"], rec["op"]["kw"]
        self.name, self.s = self.op["e"], self.op["feature"]
        self.info = j.w.info[self.name]
        self.cen = self.kw.get("centering", False)
        self.why = None

    def fail(self, kind, msg):
        if self.why is None:
            self.why = (kind, msg)
        return False

    def check(self):
        """Some configuration that may be in force explains the whole drawing."""
        first = None
        for cfg in self.configs():
            self.cfg, self.why = cfg, None
            if self.matches() or self.why is None:
                self.j.res.probes["plot-compared" if self.why is None else "x"] += 1
                return
            first = first or self.why
        if first:
            self.j.res.bad(first[0], "%s.plot(feature=%d, %s): %s" % (self.info["cls"], self.s, self.kw, first[1]), self.rec["i"])

    def same(self, what, got, exp, rt=1e-6):
        got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        if exp.size and (not np.isfinite(exp).all() or np.abs(exp).max() > 1e6):
            return True
        sc = 1.0 + (np.abs(exp).max() if exp.size else 0.0)
        return True if close(got, exp, rt, sc) else self.fail("wrong-drawing", "%s: %s" % (what, worst(got, exp)))

    def matches(self):
        kw, cls = self.kw, self.g
        sx, sy = self.sx(), kw.get("scale_y")
        ux = (lambda v: (np.asarray(v, dtype=float) - sx["mean"]) / sx["std"]) if sx else (lambda v: np.asarray(v, dtype=float))
        ty = (lambda v: np.asarray(v) * sy["std"] + sy["mean"]) if sy else np.asarray
        ky = sy["std"] if sy else 1.0
        kx = sx["std"] if sx else 1.0
        if cls == "DerPDP":
            ky = kd = ky / kx
            ty = lambda v: np.asarray(v) * kd
        figs = self.rec["val"]
        if len(figs) != 1:
            return self.fail("wrong-drawing", "%d figures" % len(figs))
        axs = figs[0]
        if len(axs) != (2 if cls in ("ALE", "RHALE") else 1):
            return self.fail("wrong-drawing", "%d axes" % len(axs))
        ax = axs[0]
        # ---- labels
        t = ax["title"].lower()
        okt = {"PDP": "pdp" in t and "d-pdp" not in t, "DerPDP": "d-pdp" in t, "ALE": "ale" in t and "rhale" not in t, "RHALE": "rhale" in t, "ShapDP": "shap" in t}[cls]
        if not okt:
            return self.fail("wrong-label", "a %s is titled %r" % (cls, ax["title"]))
        if not self.xlabel_ok(axs[-1]["xlabel"]):
            return False
        want = "dy/dx" if cls == "DerPDP" else (self.info["kw"].get("target_name") or "y")
        if ax["ylabel"] != want:
            return self.fail("wrong-label", "the y axis is labelled %r instead of %r" % (ax["ylabel"], want))
        if kw.get("y_limits") and not close(ax["ylim"], kw["y_limits"], 1e-9):
            return self.fail("wrong-label", "y limits %s instead of %s" % (ax["ylim"], kw["y_limits"]))
        # ---- the curve
        curve_label = {"PDP": "PDP", "DerPDP": "d-PDP", "ALE": "average effect", "RHALE": "average effect", "ShapDP": "SHAP curve"}[cls]
        cur = [l for l in ax["lines"] if l["label"] == curve_label]
        if len(cur) != 1:
            return self.fail("wrong-drawing", "%d curves labelled %r" % (len(cur), curve_label))
        x, y = cur[0]["x"], cur[0]["y"]
        xs = ux(x)
        lo, hi = self.range()
        if cls in ("ALE", "RHALE"):
            bars = sorted(axs[1]["bars"])
            if not bars:
                return self.fail("wrong-drawing", "no bins are drawn")
            e = np.array([b[0] for b in bars] + [bars[-1][0] + bars[-1][1]])
            if not self.same("bins are not contiguous", [b[0] + b[1] for b in bars][:-1], e[1:-1]):
                return False
            eu = ux(e)
            lo, hi = eu[0], eu[-1]
        if not self.same("range of the curve", [xs[0], xs[-1]], [lo, hi]):
            return False
        if "nof_points" in kw and len(xs) != kw["nof_points"]:
            return self.fail("wrong-drawing", "%d points instead of %d" % (len(xs), kw["nof_points"]))
        if not (np.diff(xs) >= 0).all() or len(xs) < 2 or not self.same("positions", xs, np.linspace(xs[0], xs[-1], len(xs))):
            return self.fail("wrong-drawing", "positions are not evenly spread")
        got = self.oracle(xs, True)
        if got is None:
            return True
        m, sd = got
        if not self.same("curve", y, ty(m)):
            return False
        # ---- heterogeneity
        het = kw.get("heterogeneity", False)
        het = "std" if het is True else het
        red = [l for l in ax["lines"] if l["color"] == "red" and l["label"] != curve_label]
        pts = [l for l in ax["lines"] if l["marker"] == "x"]
        ice = [l for l in red if l["marker"] != "x"]
        if cls in ("ALE", "RHALE"):
            yb, sb = self.oracle(eu, True)
            wdt = np.diff(eu)
            if not self.same("bin heights", [b[2] for b in bars], np.diff(yb) / wdt * (ky / kx), 1e-5):
                return False
            err = [s for segs in axs[1]["err"] for s in segs]
            if bool(err) != bool(het):
                return self.fail("wrong-drawing", "heterogeneity=%r and %d error bars" % (het, len(err)))
            if err:
                sdb = np.diff(sb) / wdt * (ky / kx)
                segs = sorted((float(s[0][0]), float(np.min(s[:, 1])), float(np.max(s[:, 1]))) for s in err)
                h = np.array([b[2] for b in bars])
                if len(segs) != len(bars) or not self.same("error bars (low)", [s[1] for s in segs], h - sdb, 1e-5) or not self.same("error bars (high)", [s[2] for s in segs], h + sdb, 1e-5):
                    return self.fail("wrong-drawing", "error bars")
            if kw.get("dy_limits") and not close(axs[1]["ylim"], kw["dy_limits"], 1e-9):
                return self.fail("wrong-label", "dy limits %s" % axs[1]["ylim"])
        else:
            if bool(ax["bands"]) != (het == "std"):
                return self.fail("wrong-drawing", "heterogeneity=%r and %d bands" % (het, len(ax["bands"])))
            if ax["bands"] and np.isfinite(sd).all() and np.isfinite(m).all():
                v = ax["bands"][0]
                low, high = [], []
                for xx in x:
                    at = v[np.abs(v[:, 0] - xx) <= 1e-9 * (1 + abs(xx)), 1]
                    if not len(at):
                        return self.fail("wrong-drawing", "the band misses a position")
                    low.append(at.min())
                    high.append(at.max())
                s_ = np.abs(np.asarray(sd) * ky)
                if cls == "ShapDP":
                    b = np.stack([ty(m) - sd * ky, ty(m) + sd * ky])
                    if not self.same("band", [low, high], [b.min(axis=0), b.max(axis=0)]):
                        return False
                elif not self.same("band", [low, high], [ty(m) - s_, ty(m) + s_]):
                    return False
            if bool(ice) != (het == "ice") or bool(pts) != (het == "shap_values"):
                return self.fail("wrong-drawing", "heterogeneity=%r, %d single curves, %d sets of points" % (het, len(ice), len(pts)))
            if ice and not self.ice_ok(ice, xs, ty):
                return False
            if pts and not self.points_ok(pts, ux, ty, m, xs):
                return False
        # ---- average output
        avg = [l for l in ax["lines"] if l["label"] == "avg output"]
        if bool(avg) != bool(kw.get("show_avg_output")):
            return self.fail("wrong-drawing", "show_avg_output=%r, %d lines" % (kw.get("show_avg_output"), len(avg)))
        if avg:
            a = self.info["kw"].get("avg_output")
            a = S.f_terms(self.j.w.terms, self.rows()).mean() if a is None else a
            a = a * sy["std"] + sy["mean"] if sy else a
            if not self.same("average output", avg[0]["y"], [a] * len(avg[0]["y"])):
                return False
        return True

    def ice_ok(self, ice, xs, ty):
        Y = self.curves(xs)
        if Y is None:
            return True
        Y = ty(Y)
        lab = [l for l in ice if not l["label"].startswith("_")]
        rest = [l for l in ice if l["label"].startswith("_")]
        k = self.kw.get("nof_ice", "all")
        k = Y.shape[1] if k == "all" else min(k, Y.shape[1])
        if len(lab) > 1 or len(rest) != k:
            return self.fail("wrong-drawing", "%d single curves are drawn, %d were asked for" % (len(rest), k))
        D = np.array([l["y"] for l in rest])
        sc = 1 + np.abs(Y).max()
        used = []
        for d in D:
            near = [i for i in np.where(np.abs(Y - d[:, None]).max(axis=0) <= 1e-6 * sc)[0] if i not in used]
            if not near:
                return self.fail("wrong-drawing", "a single curve is drawn that belongs to no row (or is drawn twice)")
            used.append(near[0])
        return True

    def points_ok(self, pts, ux, ty, m, xs):
        P = self.points(m, xs)
        if P is None:
            return True
        px, py = P
        drawn = pts[1:] if len(pts) > 1 else pts
        x = np.concatenate([l["x"] for l in drawn])
        y = np.concatenate([l["y"] for l in drawn])
        k = self.kw.get("nof_shap_values", "all")
        k = len(px) if k == "all" else min(k, len(px))
        if len(x) != k:
            return self.fail("wrong-drawing", "%d points are drawn, %d were asked for" % (len(x), k))
        py = ty(py)
        sc = 1 + np.abs(py).max()
        used = set()
        for a, b in zip(ux(x), y):
            near = [i for i in np.where((np.abs(px - a) <= 1e-9 * (1 + abs(a))) & (np.abs(py - b) <= 1e-6 * sc))[0] if i not in used]
            if not near:
                return self.fail("wrong-drawing", "point (%.6g, %.6g) is the SHAP value of no row" % (a, b))
            used.add(near[0])
        return True


class GlobalView(View):
    def __init__(self, j, rec):
        super().__init__(j, rec)
        self.g = self.info["cls"]

    def configs(self):
        return self.j.state[self.name][self.s]

    def sx(self):
        return self.kw.get("scale_x")

    def rows(self):
        return self.j.rows[self.name]

    def range(self):
        L = self.j.limits(self.name)
        return L[0][self.s], L[1][self.s]

    def xlabel_ok(self, t):
        nm = self.info["kw"].get("feature_names")
        want = nm[self.s] if nm else "x_%d" % self.s
        return t == want or self.fail("wrong-label", "feature %d is labelled %r instead of %r" % (self.s, t, want))

    def oracle(self, xs, het):
        v, err = self.j.fresh_eval(self.name, self.s, self.cfg, {"xs": list(xs), "het": het, "centering": self.cen})
        if err is not None:
            self.fail("wrong-drawing", "drawn although a fresh explainer refuses: %r" % err)
            return None
        return v

    def curves(self, xs):
        v, err = self.j.fresh_eval(self.name, self.s, self.cfg, {"xs": list(xs), "all": True, "centering": self.cen})
        return None if err is not None else v

    def points(self, m, xs):
        L, s = self.j.limits(self.name), self.s
        Rr = self.rows()
        Rr = Rr[ref.rows_in(Rr, L, s)]
        phi = ref.shapley(self.j.w.terms, Rr)
        c = 0.0
        if self.cen is not False:
            v, err = self.j.fresh_eval(self.name, s, self.cfg, {"xs": [xs[0]], "centering": False})
            if err is not None:
                return None
            c = float(v[0] - m[0])
            if not np.isfinite(c) or abs(c) > 1e6:
                return None
        return Rr[:, s], phi[:, s] - c


class RegionalView(View):
    def __init__(self, j, rec):
        super().__init__(j, rec)
        self.g = R.GLOBAL_OF[self.info["cls"]]
        self.node = rec["node"]

    def configs(self):
        return self.j.possible(self.name, self.s)

    def sx(self):
        k = self.kw.get("scale_x_list")
        return k[self.s] if k else None

    def nd(self):
        got, err = self.j.node_global(self.name, self.s, self.cfg, self.node)
        return None if err is not None else got[1]

    def rows(self):
        return self.nd()["rows"]

    def range(self):
        L = R.lims(self.rows())
        return L[0][self.s], L[1][self.s]

    def matches(self):
        if self.nd() is None:
            return self.fail("wrong-drawing", "no such node")
        return super().matches()

    def xlabel_ok(self, t):
        fx, _ = self.j.fresh(self.name, self.s, self.cfg)
        tree = R.tree_of(fx, self.s)
        nd = [n for n in tree if n["idx"] == self.node][0]
        return name_ok(self.j, self.name, tree, nd, t, self.kw.get("scale_x_list")) or \
            self.fail("wrong-label", "node %d (%r) is labelled %r" % (self.node, nd["name"], t))

    def oracle(self, xs, het):
        v, err = self.j.expected(self.name, self.s, self.cfg, self.node, {"xs": list(xs), "het": het, "centering": self.cen})
        if err is not None:
            self.fail("wrong-drawing", "drawn although the global method refuses: %r" % err)
            return None
        return v

    def curves(self, xs):
        if self.oracle(xs, True) is None:
            return None
        ex = self.j.node_global(self.name, self.s, self.cfg, self.node)[0][0]
        return self.j.w.quiet(lambda: ex.eval(self.s, np.array(xs), False, self.cen, return_all=True))

    def points(self, m, xs):
        Rr = self.rows()
        phi = ref.shapley(self.j.w.terms, Rr)
        c = 0.0
        if self.cen is not False:
            v, err = self.j.expected(self.name, self.s, self.cfg, self.node, {"xs": [xs[0]], "het": False, "centering": False})
            if err is not None:
                return None
            c = float(v[0] - m[0])
            if not np.isfinite(c) or abs(c) > 1e6:
                return None
        return Rr[:, self.s], phi[:, self.s] - c


_ = G
