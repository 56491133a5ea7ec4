"""C03: a call that fails or is interrupted leaves the explainer as before or as after the call."""
from .. import regional as R
from .. import spec as G
from ..world import World
from . import c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 1300, 36000


def gen_global(r):
    c = r.random()
    if c < 0.12:
        classes = ["ShapDP"]
    elif c < 0.45:
        classes = ["RHALE"]
    elif c < 0.75:
        classes = ["ALE"]
    else:
        classes = ["PDP", "DerPDP"]
    ep, exps, D, N = C.gen_session(r, classes, nops=(3, 7), plots=0.12, nexp=(1, 1), nmax=32 if classes == ["ShapDP"] else 45)
    # probes: after everything, each feature is asked again under every centering
    for name, cls, lim in exps:
        for s in range(D):
            for c in r.sample(G.CENTERINGS, 2):
                op = C.gen_eval(r, name, cls, D, lim, feature=s, centering=c)
                op["het"] = True
                op.pop("all", None)
                ep["ops"].append(op)
    main = set(range(len(ep["ops"]) - 2 * D * len(exps)))
    seams = r.choice([["model", "jac"], ["model", "jac", "alloc"], ["alloc"], ["alloc"], ["model", "jac", "alloc", "gui"]])
    ep["faults"] = C.gen_faults(r, ep, seams, r.choice([1, 1, 2, 3]), ops=main - {0, 1})
    if r.random() < 0.3:
        # the user repeats the call that failed
        for f in ep["faults"]:
            ep["ops"].append(dict(ep["ops"][f["op"]]))
    return ep


def gen_regional(r):
    c = r.random()
    cls = ["RegionalShapDP"] if c < 0.04 else (["RegionalRHALE"] if c < 0.4 else (["RegionalALE"] if c < 0.65 else ["RegionalPDP", "RegionalDerPDP"]))
    ep = R.gen_session(r, cls, nops=(2, 5), sample=True, nmax=44, mix={"fit": 6, "eval": 3, "plot": 1, "text": 1, "node": 0})
    main = set(range(2, len(ep["ops"])))
    seams = r.choice([["model", "jac"], ["model", "jac", "alloc"], ["alloc"], ["alloc"], ["stdout", "gui", "alloc"]])
    ep["faults"] = C.gen_faults(r, ep, seams, r.choice([1, 1, 2]), ops=main)
    D = len(ep["data"]["cols"])
    X = G.make_data(ep["data"])
    for f in ep["faults"]:
        o = ep["ops"][f["op"]]
        feats = o.get("features", o.get("feature"))
        feats = range(D) if feats == "all" else ([feats] if isinstance(feats, int) else feats)
        for s in list(feats)[:2]:
            ep["ops"].append(R.gen_eval(r, o["e"], D, C.limits_of({}, X), feature=s))
        if r.random() < 0.4:
            ep["ops"].append(dict(o))
    return ep


def generate(r):
    c = r.random()
    if c < 0.6:
        return gen_global(r)
    if c < 0.86:
        return gen_regional(r)
    while True:
        ep = c14.generate(r)
        if ep["faults"] and ep["data"]["N"] < 60:
            # what failed is asked again, and shown
            for f in ep["faults"]:
                o = dict(ep["ops"][f["op"]])
                if r.random() < 0.6:
                    ep["ops"].append({"op": "hplot", "e": "h0", "kw": o["kw"] if o["op"] == "hplot" else {}})
                if r.random() < 0.5:
                    ep["ops"].append(o)
            return ep


def check(ep):
    cls = [o["cls"] for o in ep["ops"] if o["op"] == "new"][0]
    if cls in ("HIndex", "REPID"):
        return c14.check(ep)
    res = C.Result()
    w = World(ep)
    regional = cls.startswith("Regional")
    j = R.RegionalJudge(w, res) if regional else C.GlobalJudge(w, res)
    j.use_def = False
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if regional and rec["fired"] and not res.violations and op.get("e") in w.E and op["op"] != "new":
            res.probes["state-after-failure"] += 1
            j.check_state(op["e"], i=i)
        if res.violations:
            break
    return C.finish(res, w)
