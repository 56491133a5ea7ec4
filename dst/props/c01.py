"""C01: a global effect is a function of the selected rows, the model and the configuration in force."""
from ..world import World
from .common import GlobalJudge, Result, finish, gen_session

NEEDS_SHAP = True
QUICK, THOROUGH = 1400, 40000


def generate(r):
    c = r.random()
    if c < 0.2:
        classes = ["ShapDP"]
    elif c < 0.4:
        classes = ["RHALE"]
    elif c < 0.6:
        classes = ["ALE"]
    else:
        classes = ["PDP", "DerPDP", "ALE", "RHALE"]
    ep, exps, D, N = gen_session(r, classes, nops=(3, 9), plots=0.08, sample=True, ints=r.random() < 0.15, nmax=45 if classes == ["ShapDP"] else 60)
    return ep


def check(ep):
    res = Result()
    w = World(ep)
    j = GlobalJudge(w, res)
    for i, op in enumerate(ep["ops"]):
        j.observe(w.do(op, i))
        if res.violations:
            break
    return finish(res, w)
