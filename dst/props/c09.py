"""C09: subregions truly partition the rows, with true labels, weights and heterogeneity."""
from .. import regional as R
from .. import spec as G
from ..world import World
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 700, 20000


def generate(r):
    c = r.random()
    cls = ["RegionalShapDP"] if c < 0.05 else (["RegionalRHALE"] if c < 0.4 else (["RegionalALE"] if c < 0.65 else ["RegionalPDP", "RegionalDerPDP"]))
    ep = R.gen_session(r, cls, nops=(2, 4), sample=True, ints=r.random() < 0.15, mix={"fit": 5, "eval": 1, "plot": 1, "text": 1, "node": 1})
    if r.random() < 0.2:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["model", "jac"], ["alloc"]]), 1, ops=set(range(2, len(ep["ops"]))))
    return ep


def check(ep):
    res = C.Result()
    w = World(ep)
    j = R.RegionalJudge(w, res)
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if not res.violations and op.get("e") in w.E and op["op"] != "new":
            if j.check_state(op["e"], i=i):
                done = set()
                for s in j.features(op.get("features", op.get("feature"))):
                    cfgs = [c for c in j.state[op["e"]][s] if c is not None]
                    if len(cfgs) == 1 and (s, j.key(cfgs[0])) not in done:
                        done.add((s, j.key(cfgs[0])))
                        w.quiet(lambda: j.check_tree(op["e"], s, cfgs[0], i))
        if res.violations:
            break
    return C.finish(res, w)
