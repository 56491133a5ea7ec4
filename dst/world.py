"""Executes the operations of an episode against the real library and records a history."""
import copy

import numpy as np

from . import sim as S
from . import spec as G


def cls_of(name):
    import effector
    import effector.interaction as inter
    return getattr(effector, name, None) or getattr(inter, name)


def asked_rows(cls, kw, N):
    """How many of N rows an explainer constructed with kw must use."""
    n = kw.get("nof_instances")
    if n is None:
        import inspect
        n = inspect.signature(cls_of(cls).__init__).parameters["nof_instances"].default
        if n is inspect.Parameter.empty:
            n = "all"
    return N if n == "all" else min(int(n), N)


def binning(b):
    import effector
    if b is None or isinstance(b, str):
        return b
    k = dict(b)
    return getattr(effector, k.pop("b"))(**k)


def positions(v, form):
    """The positions as the caller's array: plain, whole numbers, read-only, or a view of something larger."""
    a = np.array(v, dtype=float)
    if form == "int":
        return a.astype(np.int64)
    if form == "ro":
        a.setflags(write=False)
    elif form == "view":
        b = np.full((2 * len(a), 2), 0.125)
        b[::2, 1] = a
        a = b[::2, 1]
    return a


class World:
    """One simulated user session: caller-owned arrays, a model, some explainers, and a Sim."""

    def __init__(self, ep, faults=None, record=False, sched=None):
        self.ep = ep
        self.X = G.make_data(ep["data"])
        self.X0 = np.array(self.X)          # pristine, for the oracles
        self.dim = self.X.shape[1]
        self.terms = ep["model"]["terms"]
        self.model = S.SimModel(self.terms, self.dim, "f", ep["model"].get("out"))
        self.jac = S.SimModel(self.terms, self.dim, "jac", ep["model"].get("out"))
        self.sim = S.Sim(ep.get("faults", []) if faults is None else faults, sched=sched, latency=ep.get("latency", 0.0))
        self.sim.record = record
        self.sim.capacity = ep.get("capacity")
        self.E = {}                # explainers by name
        self.info = {}             # construction info by name
        self.mutated = set()
        self.shared = {}           # argument objects the user hands over more than once
        self.args = {}             # caller-owned argument objects, by (op, name)
        self.watch = False         # figures and stdout belong to the caller of this class
        self.h = []                # history

    # -------------------------------------------------------------- one operation
    def run(self, ops=None, start=0):
        for i, op in enumerate(self.ep["ops"] if ops is None else ops):
            self.do(op, start + i)
        return self.h

    def do(self, op, i):
        sim = self.sim
        rec = {"i": i, "op": op, "status": "ok", "exc": None, "val": None}
        self.node = None
        f0, q0 = len(sim.fired), len(sim.queries)
        sim.begin(i)
        sim.out = []
        prev, S.CUR = S.CUR, sim
        try:
            rec["val"] = getattr(self, "op_" + op["op"])(op, i)
        except S.Stop:
            raise
        except BaseException as e:   # noqa: the simulated user catches everything at the call boundary
            if getattr(e, "dst_harness", False):
                raise
            rec["status"], rec["exc"] = "exc", e
        finally:
            S.CUR = prev
        rec["fired"] = sim.fired[f0:]
        rec["fired_exc"] = sim.fired_exc[f0:]
        rec["queries"] = sim.queries[q0:]
        rec["node"] = self.node
        rec["out"] = "".join(sim.out)
        if op["op"] in ("plot", "hplot") and not self.watch:
            import matplotlib.pyplot as plt
            plt.close("all")
        self.h.append(rec)
        return rec

    def quiet(self, fn):
        """Run an oracle step with every seam transparent."""
        prev, S.CUR = S.CUR, None
        try:
            return fn()
        finally:
            S.CUR = prev

    def pick_node(self, op):
        """Which node the simulated user asks for: one that exists, as far as can be seen."""
        if op.get("exact"):
            return op["node"]
        try:
            return op["node"] % len(self.E[op["e"]].tree_pruned["feature_%d" % op["feature"]].nodes)
        except Exception:
            return 0

    def share(self, spec, make):
        """A fresh argument object, or the one the user made for the same purpose before."""
        if not self.ep.get("share_args"):
            return make(spec)
        return self.shared.setdefault(repr(spec), make(spec))

    def run_threads(self, plans, sched):
        """plans: one list of (index, op) per thread, run under the scheduler. Records in index order."""
        import sys
        sim = self.sim
        sim.sched = sched
        recs = {}

        def body(ops):
            def go(t):
                for i, op in ops:
                    sched.ops[t] = i
                    sched.yield_point("call")
                    rec = {"i": i, "op": op, "status": "ok", "exc": None, "val": None, "fired": [], "fired_exc": [], "queries": [], "node": None}
                    try:
                        rec["val"] = getattr(self, "op_" + op["op"])(op, i)
                    except S.Stop:
                        raise
                    except BaseException as e:   # noqa
                        if getattr(e, "dst_harness", False):
                            raise
                        rec["status"], rec["exc"] = "exc", e
                    recs[i] = rec
                    sched.yield_point("return")
            return go
        prev, S.CUR = S.CUR, sim
        old, sys.stdout = sys.stdout, S.SimStream("stdout")
        try:
            errs = sched.run([body(p) for p in plans])
        finally:
            S.CUR, sys.stdout = prev, old
            sim.sched = None
        for i in sorted(recs):
            rec = recs[i]
            rec["out"] = "".join(sim.outs[i])
            rec["fired"] = [f for f in sim.fired if f["op"] == i]
            self.h.append(rec)
        return recs, errs

    # -------------------------------------------------------------- operations
    def op_seed(self, op, i):
        np.random.seed(op["s"])

    def op_new(self, op, i):
        cls, kw = op["cls"], op.get("kw", {})
        X = self.X
        a = {}
        for k in ("nof_instances", "avg_output", "feature_names", "target_name", "cat_limit", "feature_types"):
            if k in kw:
                a[k] = copy.deepcopy(kw[k])
        if kw.get("limits") is not None:
            a["axis_limits"] = np.array(kw["limits"], dtype=float)
        if cls in ("DerPDP", "RHALE", "RegionalDerPDP", "RegionalRHALE") and kw.get("jac"):
            a["model_jac"] = self.jac
        if kw.get("eff") and cls in ("RHALE", "RegionalRHALE"):
            e = S.jac_terms(self.terms, np.asarray(X, dtype=float)) * float(kw["eff"])
            a["data_effect" if cls == "RHALE" else "instance_effects"] = e
        self.args[(i, "ctor")] = a
        if "np_seed" in op:
            np.random.seed(op["np_seed"])
        if cls == "REPID":
            a = {"model_jac": None, "nof_instances": kw.get("nof_instances", "all")}
        ex = cls_of(cls)(X, self.model, **a)
        self.E[op["e"]] = ex
        self.info[op["e"]] = {"cls": cls, "kw": kw, "op": i}

    def op_mutate(self, op, i):
        """The user changes something of his own in place."""
        rs = np.random.RandomState(op["s"])
        junk = lambda a: rs.uniform(-9, 9, a.shape).astype(a.dtype)
        if op["what"] == "data":
            if self.X.flags.writeable:
                self.X[...] = junk(self.X)
        elif op["what"] == "effects":
            for (k, kind), a in self.args.items():
                for n in ("data_effect", "instance_effects"):
                    if kind == "ctor" and n in a:
                        a[n][...] = junk(a[n])
        elif op["what"] == "result":
            r = getattr(self, "last_raw", None)
            for a in (r if isinstance(r, tuple) else (r,)):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = junk(a)
        self.mutated.add(op["what"])

    def op_fit(self, op, i):
        ex = self.E[op["e"]]
        kw = {}
        for k, v in op.get("kw", {}).items():
            if k == "binning":
                kw["binning_method"] = self.share(v, binning)
            else:
                kw[k] = copy.deepcopy(v)
        feats = copy.deepcopy(op["features"])
        self.args[(i, "fit")] = dict(kw, features=feats)
        ex.fit(feats, **kw)

    def op_eval(self, op, i):
        ex = self.E[op["e"]]
        cls = self.info[op["e"]]["cls"]
        form = op.get("xf")
        xs = self.share(op["xs"] if form is None else [form, op["xs"]], lambda v: positions(op["xs"], form))
        self.args[(i, "eval")] = {"xs": xs}
        kw = {}
        if op.get("all"):
            kw["return_all"] = True
        if "vec" in op and cls in ("PDP", "DerPDP"):
            kw["use_vectorized"] = op["vec"]
        how = (op.get("het", False), op.get("centering", False))
        if i % 2 and how[1] is False:     # the documented defaults
            how = how[:1] if how[0] else ()
        if cls.startswith("Regional"):
            node = self.node = self.pick_node(op)
            r = ex.eval(op["feature"], node, xs, *how)
        else:
            r = ex.eval(op["feature"], xs, *how, **kw)
        self.last_raw = r
        return tuple(np.array(v) for v in r) if isinstance(r, tuple) else np.array(r)

    def op_plot(self, op, i):
        import matplotlib.pyplot as plt
        if not self.watch:
            plt.close("all")
        ex = self.E[op["e"]]
        cls = self.info[op["e"]]["cls"]
        kw = copy.deepcopy(op.get("kw", {}))
        self.args[(i, "plot")] = kw
        if cls.startswith("Regional"):
            node = self.node = self.pick_node(op)
            ex.plot(op["feature"], node, **kw)
        else:
            ex.plot(op["feature"], **kw)
        return self.quiet(lambda: figure_content(plt)) if not self.watch else None

    def op_show(self, op, i):
        kw = copy.deepcopy(op.get("kw", {}))
        self.args[(i, "show")] = kw
        self._with_stdout(lambda: self.E[op["e"]].show_partitioning(copy.deepcopy(op["features"]), **kw))

    def op_describe(self, op, i):
        kw = copy.deepcopy(op.get("kw", {}))
        self.args[(i, "describe")] = kw
        self._with_stdout(lambda: self.E[op["e"]].describe_subregions(copy.deepcopy(op["features"]), **kw))

    def op_node(self, op, i):
        node = self.node = self.pick_node(op)
        kw = copy.deepcopy(op.get("kw", {}))
        self.args[(i, "node")] = kw
        d, e, n = self.E[op["e"]].get_node_info(op["feature"], node, **kw)
        return np.array(d), None if e is None else np.array(e), n

    def op_transform(self, op, i):
        """The user turns data into one column per subregion, with the splits the explainer found."""
        from effector.partitioning import DataTransformer
        ex = self.E[op["e"]]
        splits = {}
        for s in range(self.dim):
            p = ex.partitioners.get("feature_%d" % s)
            splits["feat_%d" % s] = p.important_splits if p is not None else {}
        x = G.make_data(op["data"]) if op.get("data") else np.array(ex.data)
        self.args[(i, "transform")] = {"X": x}
        t = DataTransformer(splits)
        out = []
        # the same transformer is used for other data, too
        for x in [x] + ([np.array(ex.data)] if op.get("again") else []) + ([x] if op.get("again") == 2 else []):
            y = t.transform(x)
            out.append((np.array(y), list(t.new_names), x))
        return out

    def op_hfit(self, op, i):
        ex = self.E[op["e"]]
        self._with_stdout(lambda: ex.fit(**op.get("kw", {})))

    def op_hpair(self, op, i):
        return np.array(self.E[op["e"]].eval_pairwise(op["i"], op["j"]))

    def op_hone(self, op, i):
        return np.array(self.E[op["e"]].eval_one_vs_all(op["i"]))

    def op_hplot(self, op, i):
        import matplotlib.pyplot as plt
        if not self.watch:
            plt.close("all")
        ex = self.E[op["e"]]
        self._with_stdout(lambda: ex.plot(**op.get("kw", {})))
        return self.quiet(lambda: figure_content(plt)) if not self.watch else None

    def _with_stdout(self, fn):
        import sys
        old = sys.stdout
        if self.sim.sched is not None or self.watch:      # the simulated stream is already installed
            return fn()
        sys.stdout = S.SimStream("stdout")
        try:
            fn()
        finally:
            sys.stdout = old


def figure_content(plt):
    """Everything drawn, as data: lines, bars, bands, error bars."""
    out = []
    for num in plt.get_fignums():
        fig = plt.figure(num)
        axs = []
        for ax in fig.axes:
            a = {"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "ylim": list(ax.get_ylim()),
                 "lines": [], "bars": [], "bands": [], "err": []}
            for ln in ax.get_lines():
                a["lines"].append({"label": str(ln.get_label()), "x": np.array(ln.get_xdata(), dtype=float),
                                   "y": np.array(ln.get_ydata(), dtype=float), "color": str(ln.get_color()), "ls": ln.get_linestyle(), "marker": ln.get_marker()})
            for p in ax.patches:
                if hasattr(p, "get_width"):
                    a["bars"].append((p.get_x(), p.get_width(), p.get_height()))
            for c in ax.collections:
                if type(c).__name__ in ("PolyCollection", "FillBetweenPolyCollection"):
                    a["bands"].append(np.array(c.get_paths()[0].vertices) if c.get_paths() else np.zeros((0, 2)))
                elif type(c).__name__ == "LineCollection":
                    a["err"].append([np.array(s) for s in c.get_segments()])
            a["images"] = [np.array(im.get_array(), dtype=float) for im in ax.images]
            a["texts"] = [t.get_text() for t in ax.texts]
            if not a["lines"] and (a["images"] or a["bars"]):
                a["at"] = [t.get_position() for t in ax.texts]
                a["mid"] = [p.get_y() + p.get_height() / 2 for p in ax.patches if hasattr(p, "get_width")]
                a["ticks"] = [[(float(k), t.get_text()) for k, t in zip(x.get_ticklocs(), x.get_ticklabels())] for x in (ax.xaxis, ax.yaxis)]
            axs.append(a)
        out.append(axs)
    return out


def close(a, b, rtol, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return bool(np.array_equal(a, b, equal_nan=True))
    s = scale + float(np.abs(b).max())
    return bool((np.abs(a - b) <= rtol * s).all())


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    return "max |difference| %.6g (values up to %.6g)" % (np.nanmax(np.abs(a - b)) if a.size else 0, np.nanmax(np.abs(b)) if b.size else 0)


def exc_name(e):
    return "%s(%s)" % (type(e).__name__, str(e)[:160])
