"""C10: evaluating a regional effect at a node is the global method on that node's rows."""
from .. import regional as R
from ..world import World
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 800, 20000


def generate(r):
    c = r.random()
    cls = ["RegionalShapDP"] if c < 0.06 else (["RegionalRHALE"] if c < 0.35 else (["RegionalALE"] if c < 0.6 else ["RegionalPDP", "RegionalDerPDP"]))
    many = r.random() < 0.06       # regions larger than the sizes the methods sample down to by default
    if many:
        cls = [r.choice(["RegionalPDP", "RegionalDerPDP", "RegionalDerPDP", "RegionalALE"])]
    ep = R.gen_session(r, cls, nops=(2, 4) if many else (3, 8), sample=not many, ints=r.random() < 0.15, nexp=1 if many else r.choice([1, 1, 2]),
                       nmin=305 if many else 24, nmax=345 if many else 60,
                       mix={"fit": 3, "eval": 8, "plot": 1, "text": 1, "node": 1})
    ops = ep["ops"]
    # the user asks the same thing again later
    evs = [o for o in ops if o["op"] == "eval"]
    if evs and r.random() < 0.5:
        ops.append(dict(r.choice(evs)))
    if r.random() < 0.15:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["model", "jac"], ["alloc"], ["gui", "stdout"]]), 1, ops=set(range(2, len(ops))))
    return ep


def check(ep):
    res = C.Result()
    w = World(ep)
    j = R.RegionalJudge(w, res)
    asked = {}
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if res.violations:
            break
        k = op["op"]
        if k == "fit" or rec["fired"]:
            asked.clear()
        elif k == "node" and rec["status"] == "ok":
            check_node(j, rec)
        elif k == "eval" and rec["status"] == "ok":
            key = (op["e"], op["feature"], rec["node"], tuple(op["xs"]), op["het"], str(op["centering"]))
            if key in asked:
                res.probes["repeated"] += 1
                if not C.GlobalJudge.matches(j, op["e"], rec["val"], asked[key], C.RT_FRESH):
                    res.bad("not-repeatable", "the same regional eval gave different answers: %s" % C.GlobalJudge.describe(j, rec["val"], asked[key]), i)
            asked[key] = rec["val"]
        if res.violations:
            break
    return C.finish(res, w)


def check_node(j, rec):
    """get_node_info hands out the rows, effects and name of the node that evaluation uses."""
    op = rec["op"]
    name, s = op["e"], op["feature"]
    why = ""
    for c in j.possible(name, s):
        got, err = j.node_global(name, s, c, rec["node"])
        if err is not None:
            continue
        nd = got[1]
        d, e, nm = rec["val"]
        if not C.close(d, nd["rows"], 1e-9):
            why = "its rows differ"
        elif (e is None) != (nd["eff"] is None) or e is not None and not C.close(e, nd["eff"], 1e-8):
            why = "its effects differ"
        elif nm != nd["name"] and not (op.get("kw") or {}).get("scale_x_list"):      # scaled names: C12
            why = "it is called %r instead of %r" % (nm, nd["name"])
        else:
            j.res.probes["node-compared"] += 1
            return
    if why:
        j.res.bad("node-info", "get_node_info(feature=%d, node=%d): %s" % (s, rec["node"], why), rec["i"])
