"""C07: concurrent use does not mix up answers.

Real threads run the real library one at a time; the seeded plan in ep["preempt"] decides at which
step (model call, numpy call, print, or source line of effector) which thread continues.  Oracle:
the same calls, with the same faults, made one thread after another.
"""
import numpy as np

from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import World, close, exc_name, worst
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 700, 30000
ASSUMES = ["two threads never ask for the same unfitted thing (one feature of one explainer) at the same time",
           "drawing is left out: pyplot itself is not thread-safe", "at most 10 features (above, shap draws from numpy's global generator)"]
KEEP = ("fit", "eval", "node", "show", "describe")


# ------------------------------------------------------------------ generation
def one_world(r, regional, shap):
    if regional:
        cls = "RegionalShapDP" if shap else r.choice(["RegionalPDP", "RegionalDerPDP", "RegionalALE", "RegionalRHALE"])
        ep = R.gen_world(r, cls, nmin=24, nmax=36)
    else:
        cls = "ShapDP" if shap else r.choice(["PDP", "DerPDP", "ALE", "RHALE"])
        d = G.gen_data(r, nmin=12 if shap else 20, nmax=18 if shap else 40, dmin=2, dmax=3)
        ep = {"data": d, "model": G.gen_model(r, d, smooth=r.random() < 0.4), "np_seed": r.randrange(2**31), "faults": [], "latency": 0.01}
    return cls, ep


def gen_new(r, name, cls, ep, X, sample):
    kw = R.gen_ctor(r, cls, ep, X, sample) if cls.startswith("Regional") else C.gen_ctor(r, cls, ep, X, sample)
    return {"op": "new", "e": name, "cls": cls, "kw": kw}


def gen_fit(r, name, cls, D, N, feats):
    if cls.startswith("Regional"):
        op = R.gen_fit(r, name, cls, D, single=True)
        op["kw"].pop("candidate_conditioning_features", None)
        op["kw"]["max_depth"] = 1
        op["kw"]["nof_candidate_splits_for_numerical"] = r.choice([2, 3])
    else:
        op = C.gen_fit(r, name, cls, D, N, allow_all=False)
    op["features"] = feats[0] if len(feats) == 1 else (r.choice(feats) if r.random() < 0.6 else r.sample(feats, r.randint(1, len(feats))))
    return op


def gen_call(r, name, cls, D, N, lim, feats):
    c = r.random()
    s = r.choice(feats)
    if cls.startswith("Regional"):
        if c < 0.45:
            return gen_fit(r, name, cls, D, N, feats)
        if c < 0.8:
            return R.gen_eval(r, name, D, lim, feature=s)
        if c < 0.9:
            op = R.gen_text(r, name, D)
            op["features"] = s
            return op
        return {"op": "node", "e": name, "feature": s, "node": r.randrange(4)}
    if c < 0.4:
        return gen_fit(r, name, cls, D, N, feats)
    return C.gen_eval(r, name, cls, D, lim, feature=s)


def split(r, items, n):
    items = list(items)
    r.shuffle(items)
    out = [[] for _ in range(n)]
    for k, x in enumerate(items):
        out[k if k < n else r.randrange(n)].append(x)
    return out


def generate(r):
    mode = r.choice(["apart", "apart", "features", "features", "features", "readers", "readers", "readers", "index", "index"])
    regional = mode != "index" and r.random() < 0.35
    shap = r.random() < (0.05 if regional else 0.1)
    cls, ep = one_world(r, regional, shap)
    X = G.make_data(ep["data"])
    N, D = X.shape
    n = 2 if r.random() < 0.7 else 3
    setup, threads = [{"op": "seed", "s": ep["np_seed"]}], None
    small = 1 if regional or shap else 2
    if mode == "apart":
        threads = []
        for t in range(n):
            c2 = cls if r.random() < 0.6 else r.choice(G.REGIONAL[:4] if regional else G.GLOBAL[:4])
            if c2 in ("RegionalShapDP", "ShapDP") and not shap:
                c2 = cls
            name, ops = "e%d" % t, []
            inside = r.random() < 0.4          # constructed inside its thread (and then it must not draw rows)
            new = gen_new(r, name, c2, ep, X, sample=not inside)
            (ops if inside else setup).append(new)
            lim = C.limits_of(new["kw"], X)
            for _ in range(r.randint(1, 1 + small)):
                ops.append(gen_call(r, name, c2, D, N, lim, list(range(D))))
            threads.append(ops)
    elif mode in ("features", "readers"):
        new = gen_new(r, "e0", cls, ep, X, sample=True)
        setup.append(new)
        lim = C.limits_of(new["kw"], X)
        n = min(n, D)
        mine = split(r, range(D), n)
        threads = [[] for _ in range(n)]
        if mode == "features":
            for s in range(D):
                if r.random() < 0.4:
                    setup.append(gen_fit(r, "e0", cls, D, N, [s]))
            for t in range(n):
                for _ in range(r.randint(1, 1 + small)):
                    threads[t].append(gen_call(r, "e0", cls, D, N, lim, mine[t]))
        else:
            fitted = {}
            for s in range(D):
                op = gen_fit(r, "e0", cls, D, N, [s])
                op["kw"]["centering"] = fitted[s] = r.choice(G.CENTERINGS)
                setup.append(op)
            # one thread may repeat a fit: the same request gives the same result at any time
            again = []
            if r.random() < 0.55:
                again = [o for o in setup if o["op"] == "fit" and (regional or o["kw"]["centering"] is not False or r.random() < 0.3)]
                again = r.sample(again, min(len(again), 1))
            for t in range(n):
                for _ in range(r.randint(1, 1 + small)):
                    s = again[0]["features"] if again and r.random() < 0.7 else r.randrange(D)
                    if regional:
                        op = R.gen_eval(r, "e0", D, lim, feature=s)
                    else:
                        op = C.gen_eval(r, "e0", cls, D, lim, feature=s, centering=fitted[s] if again and r.random() < 0.7 else r.choice([False, fitted[s]]))
                    threads[t].append(op)
            for o in again:
                ops = threads[r.randrange(n)]
                ops.insert(r.randint(0, len(ops)), dict(o, again=True))
    else:
        cls = r.choice(["HIndex", "HIndex", "REPID"])
        ep["data"]["N"] = N = min(N, 16)
        X = G.make_data(ep["data"])
        setup.append({"op": "new", "e": "e0", "cls": cls, "kw": {}})
        asks = [{"op": "hone", "e": "e0", "i": i} for i in range(D)]
        if cls == "HIndex":
            asks += [{"op": "hpair", "e": "e0", "i": i, "j": j} for i in range(D) for j in range(i)]
        threads = [p for p in split(r, asks, n) if p]
    ep["share_args"] = r.random() < 0.4
    ep["setup"] = len(setup)
    ep["ops"] = setup + [dict(o, thread=t) for t, ops in enumerate(threads) for o in ops]
    # afterwards every feature is asked again, from one thread
    if mode == "index":
        ep["ops"] += [dict(o) for o in asks]
    else:
        for o in [o for o in ep["ops"] if o["op"] == "new"]:
            lim = C.limits_of(o["kw"], X)
            for s in range(D):
                if regional:
                    ep["ops"].append(R.gen_eval(r, o["e"], D, lim, feature=s, node=0))
                    ep["ops"].append({"op": "show", "e": o["e"], "features": s, "kw": {"only_important": False}})
                else:
                    ep["ops"].append(dict(C.gen_eval(r, o["e"], o["cls"], D, lim, feature=s), het=True))
    inside = [i for i, o in enumerate(ep["ops"]) if "thread" in o]
    # (the Jacobian all features of one RHALE share is asked for by whoever comes first: a fault there is not one call's own)
    lazy = mode == "features" and cls == "RHALE" and not any(o["op"] == "fit" for o in setup)
    if r.random() < 0.2 and not lazy and not any(o.get("again") for o in ep["ops"]):
        ep["faults"] = C.gen_faults(r, ep, ["model", "jac", "alloc"], 1, ops=set(inside), exc=["SimModelError", "RuntimeError", "MemoryError", "KeyboardInterrupt"])
    ep["lines"] = r.random() < (0.6 if mode == "index" else 0.3)
    ep["preempt"], ep["first"] = [], r.randrange(len(parts(ep)[1]))
    _, (recs, _), sched = concurrent(ep, log=True)
    if any(o.get("again") for o in ep["ops"]) and any(recs[i]["status"] != "ok" for i in range(len(setup))):
        # what was refused is not fitted: nobody repeats it next to others
        ep["ops"] = [o for o in ep["ops"] if not o.get("again")]
        ep["first"] = r.randrange(max(1, len(parts(ep)[1])))
        sched = concurrent(ep, log=True)[2]
    log = sched.log
    # [operation, its k-th step, thread that continues]
    ep["preempt"] = concurrent(ep, choose=policy(r, log, {i for i, o in enumerate(ep["ops"]) if o.get("again")}))[2].made
    return ep


HOT = ("model", "jac", "call", "return")


def is_hot(what):
    return what in HOT or what.startswith("stored:")


def policy(r, log, prefer=()):
    """A way to choose the interleaving, as a function asked at every step."""
    total = len(log)
    hot = sum(is_hot(e[2]) for e in log)
    if r.random() < 0.5:
        # random walk with a given expected number of switches, half of them at model calls and call boundaries
        want = r.choice([2, 4, 10, 30, 100])
        ph, pc = min(0.7, 0.5 * want / max(1, hot)), min(0.7, 0.5 * want / max(1, total - hot))
        return lambda t, op, k, what, others: r.choice(others) if r.random() < (ph if is_hot(what) else pc) else None
    # park a thread inside one of its calls until the others have made some calls, or have ended
    sites = [e for e in log if e[2] != "return"]
    if prefer and r.random() < 0.5:
        sites = [e for e in sites if e[0] in prefer] or sites
    hots = [e for e in sites if e[2] in HOT]
    stored = [e for e in sites if e[2].startswith("stored:")]

    def site():
        c = r.random()
        if stored and c < 0.4:          # just after something was stored, every place in the source alike
            w = r.choice(sorted({e[2] for e in stored}))
            return r.choice([e for e in stored if e[2] == w])
        if c < 0.6:
            return r.choice(hots or sites)
        if c < 0.8:
            w = r.choice(sorted({e[2] for e in sites}))
            return r.choice([e for e in sites if e[2] == w])
        return r.choice(sites)
    park = {e[:2]: r.choice([1, 2, 99]) for e in (site() for _ in range(r.randint(1, 3)))}
    left = {}                       # parked thread -> returns of the others to wait for

    def choose(t, op, k, what, others):
        if what == "return":
            for q in list(left):
                left[q] -= 1
                if left[q] <= 0 and q != t and q in others:
                    del left[q]
                    return q
        free = [q for q in others if q not in left]
        if (op, k) in park and free:
            left[t] = park[(op, k)]
            return r.choice(free)
        return None
    return choose


# ------------------------------------------------------------------ execution
def parts(ep):
    ops = list(enumerate(ep["ops"]))
    th = [i for i, o in ops if "thread" in o]
    first, last = (th[0], th[-1]) if th else (len(ops), len(ops) - 1)
    plans = {}
    for i, o in ops:
        if "thread" in o:
            plans.setdefault(o["thread"], []).append((i, o))
    return [x for x in ops if x[0] < first], [plans[t] for t in sorted(plans)], [x for x in ops if x[0] > last and "thread" not in x[1]]


def run(w, ep, sched):
    """setup, the threads (or, without a scheduler, one thread after another), the final questions."""
    before, plans, after = parts(ep)
    recs, errs = {}, []
    for i, o in before:
        recs[i] = w.do(o, i)
    if sched is None:
        for p in plans:
            for i, o in p:
                recs[i] = w.do(o, i)
    elif plans:
        r2, errs = w.run_threads(plans, sched)
        recs.update(r2)
    if not any(errs):
        for i, o in after:
            recs[i] = w.do(o, i)
    return recs, errs


def concurrent(ep, log=False, choose=None):
    n = len(parts(ep)[1])
    sched = S.Scheduler(max(1, n), {(o, k): t for o, k, t in ep.get("preempt", [])}, lines=ep.get("lines", False), log=log, first=ep.get("first", 0), choose=choose)
    w = World(ep)
    recs, errs = run(w, ep, sched)
    return w, (recs, errs), sched


def differs(a, b):
    if a["status"] != b["status"]:
        return "%s instead of %s" % tuple("an answer" if x["status"] == "ok" else exc_name(x["exc"]) for x in (a, b))
    if a["status"] == "exc":
        return None if type(a["exc"]) is type(b["exc"]) else "%s instead of %s" % (exc_name(a["exc"]), exc_name(b["exc"]))
    if a["out"] != b["out"]:
        return "it printed %r instead of %r" % (a["out"][:200], b["out"][:200])
    return val(a["val"], b["val"])


def val(x, y):
    if isinstance(x, (tuple, list)):
        if not isinstance(y, (tuple, list)) or len(x) != len(y):
            return "another kind of answer"
        for a, b in zip(x, y):
            d = val(a, b)
            if d:
                return d
        return None
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        return None if close(x, y, 1e-9) else worst(x, y)
    if type(x) is not type(y):
        return "another kind of answer"
    return None if x == y else "%r instead of %r" % (x, y)


def check(ep):
    res = C.Result()
    w0 = World(ep)
    alone, _ = run(w0, ep, None)
    w, (recs, errs), sched = concurrent(ep)
    if any(errs):
        res.bad("no-progress", "the threads do not finish (%s)" % errs)
        return C.finish(res, w)
    for i in sorted(recs):
        op = recs[i]["op"]
        if op["op"] == "seed":
            continue
        d = differs(recs[i], alone[i])
        cls = w.info.get(op.get("e"), {}).get("cls", "?")
        if d:
            what = "%s of %s %s" % (op["op"], cls, {k: op[k] for k in ("feature", "features", "node", "i", "j", "centering") if k in op})
            if "thread" in op:
                res.bad("mixed-up", "%s in thread %d, interleaved with the other threads, gives %s than alone" % (what, op["thread"], d), i)
            else:
                res.bad("mixed-up-afterwards", "after the threads ended, %s gives %s than after running them one by one" % (what, d), i)
            break
        res.probes["concurrent-call-compared" if "thread" in op else "later-call-compared"] += 1
    res.probes["switches"] += len(sched.trace)
    res.probes["stalls"] += sched.stalls
    res.probes["line-steps" if ep.get("lines") else "seam-steps"] += sched.step
    C.finish(res, w)
    res.sig += "|" + ";".join("%s>%s@%s" % (t[1], t[2], t[3]) for t in sched.trace)
    return res


def shrink(ep):
    """Fewer preemptions first (halves), then fewer calls."""
    from ..runner import drop_op
    p = ep["preempt"]
    if len(p) > 3:
        yield dict(ep, preempt=p[:len(p) // 2])
        yield dict(ep, preempt=p[len(p) // 2:])
    ops = ep["ops"]
    for i in range(len(ops) - 1, -1, -1):
        if ops[i]["op"] not in ("new", "seed"):
            e = drop_op(ep, i)
            e["preempt"] = [[o - (o > i), k, t] for o, k, t in p if o != i]
            if any("thread" in o for o in e["ops"]):
                yield e
    for i, o in enumerate(ops):
        if o["op"] == "new" and not any(q.get("e") == o["e"] and q is not o for q in ops):
            e = drop_op(ep, i)
            e["preempt"] = [[q - (q > i), k, t] for q, k, t in p]
            yield e
