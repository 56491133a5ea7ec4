"""C02: a failing model, exhausted memory or an interrupt always reaches the caller."""
from .. import regional as R
from .. import sim as S
from .. import spec as G
from ..world import World, exc_name
from . import c11, c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 3500, 100000


def generate(r):
    c = r.random()
    if c < 0.3:
        c2 = r.random()
        classes = ["ShapDP"] if c2 < 0.15 else (["RHALE"] if c2 < 0.45 else (["ALE"] if c2 < 0.65 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(1, 4), plots=0.25, sample=True, nexp=(1, 1), nmax=30)
        for i, op in enumerate(ep["ops"]):
            if op["op"] == "plot" and r.random() < 0.6:
                name, cls, lim = exps[0]
                ep["ops"][i] = c11.rich_plot(r, name, cls, D, lim, N)
    elif c < 0.85:
        c2 = r.random()
        cls = ["RegionalShapDP"] if c2 < 0.05 else (["RegionalRHALE"] if c2 < 0.35 else (["RegionalALE"] if c2 < 0.55 else ["RegionalPDP", "RegionalDerPDP"]))
        ep = R.gen_session(r, cls, nops=(1, 3), sample=True, nmax=40, mix={"fit": 6, "eval": 2, "plot": 2, "text": 2, "node": 0})
    else:
        ep = c14.generate(r)
        ep["ops"] = ep["ops"][:r.randint(3, 5)]
        if ep["data"]["N"] > 100:
            ep["data"]["N"] = 20
    seams = r.choice([["model", "jac"], ["model", "jac"], ["model", "jac", "alloc"], ["alloc"], ["alloc", "rng"], ["gui", "stdout", "model"]])
    ep["faults"] = C.gen_faults(r, ep, seams, r.choice([1, 2, 3]))
    if r.random() < 0.12:
        ep["capacity"] = r.choice([1, 5, ep["data"]["N"] - 1])
    return ep


def must_propagate(f):
    return f["seam"] in ("model", "jac", "capacity") or f["exc"] in ("MemoryError", "KeyboardInterrupt", "SystemExit")


def check(ep):
    res = C.Result()
    w = World(ep)
    for i, op in enumerate(ep["ops"]):
        if op["op"] not in ("seed", "new") and op["e"] not in w.E:
            continue
        rec = w.do(op, i)
        for f, e in zip(rec["fired"], rec["fired_exc"]):
            if not must_propagate(f):
                continue
            res.probes["fault-propagation-checked"] += 1
            what = "%s of %s (%s): injected %s at crossing %d of the %s seam" % (op["op"], w.info.get(op["e"], {}).get("cls") or op.get("cls"), {k: v for k, v in op.items() if k in ("features", "feature", "node", "i", "j")}, f["exc"], f["n"], f["seam"])
            if rec["status"] == "ok":
                res.bad("swallowed", what + " was swallowed: the call returned normally", i)
            elif not S.caused_by(rec["exc"], e):
                res.bad("replaced", what + " was replaced by the unrelated %s" % exc_name(rec["exc"]), i)
        if res.violations:
            break
    return C.finish(res, w)


_ = G
