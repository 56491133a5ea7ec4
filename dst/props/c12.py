"""C12: what show_partitioning and describe_subregions print is the tree that is used; printing only reads."""
import contextlib
import io
import re

import numpy as np

from .. import regional as R
from ..world import World, exc_name
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 800, 20000
NUM = r"([-+]?(?:nan|inf|\d+(?:\.\d*)?(?:e[-+]?\d+)?))"


def generate(r):
    c = r.random()
    cls = ["RegionalShapDP"] if c < 0.04 else (["RegionalRHALE"] if c < 0.35 else (["RegionalALE"] if c < 0.6 else ["RegionalPDP", "RegionalDerPDP"]))
    ep = R.gen_session(r, cls, nops=(3, 7), sample=True, ints=r.random() < 0.15, deep=r.choice([0.0, 0.7, 0.7]),
                       mix={"fit": 4, "eval": 1, "plot": 2, "text": 7, "node": 2})
    if r.random() < 0.3:
        ep["faults"] = C.gen_faults(r, ep, r.choice([["stdout"], ["stdout"], ["gui"], ["model", "alloc"]]), r.choice([1, 2]), ops=set(range(2, len(ep["ops"]))))
        # the user prints again after the failure
        for f in list(ep["faults"]):
            ep["ops"].append(dict(ep["ops"][f["op"]]))
    return ep


def check(ep):
    res = C.Result()
    w = World(ep)
    j = R.RegionalJudge(w, res)
    for i, op in enumerate(ep["ops"]):
        rec = w.do(op, i)
        j.observe(rec)
        if res.violations or op.get("e") not in w.E or op["op"] in ("seed", "new"):
            if res.violations:
                break
            continue
        j.check_state(op["e"], i=i)
        if op["op"] in ("show", "describe") and not res.violations:
            if rec["status"] == "ok":
                w.quiet(lambda: (check_show if op["op"] == "show" else check_describe)(j, rec))
            elif rec["fired"] and all(f["seam"] == "stdout" for f in rec["fired"]):
                w.quiet(lambda: check_prefix(j, rec))
        if op["op"] == "node" and rec["status"] == "ok" and not res.violations:
            w.quiet(lambda: check_node(j, rec))
        if res.violations:
            break
    return C.finish(res, w)


def check_node(j, rec):
    """get_node_info tells the rows and the condition of a node of the tree in force, and only of those."""
    op, i, res = rec["op"], rec["i"], j.res
    ex, s, scale = j.w.E[op["e"]], op["feature"], op.get("kw", {}).get("scale_x_list")
    tree = R.tree_of(ex, s)
    nd = [n for n in tree if n["idx"] == rec["node"]]
    d, e, text = rec["val"]
    if not nd or not np.array_equal(d, nd[0]["rows"]):
        res.bad("node-rows", "get_node_info gives other rows than node %d of the tree has" % rec["node"], i)
    elif not name_ok(j, op["e"], tree, nd[0], text, scale):
        res.bad("node-name", "get_node_info (scaled: %s) names node %d %r, the tree %r" % (scale is not None, rec["node"], text, nd[0]["name"]), i)
    else:
        for kw in ({}, {"scale_x_list": scale or [{"mean": 1.0, "std": 2.0}] * j.w.dim}):
            try:
                ex.get_node_info(s, max(n["idx"] for n in tree) + 1, **kw)
            except Exception:
                continue
            res.bad("node-unknown", "get_node_info (scaled: %s) answers for a node that is not in the tree" % bool(kw), i)
            break
        res.probes["node-compared"] += 1


def near(shown, true, tol=0.0051):
    if not (true == true) or not (shown == shown):
        return True
    return abs(float(shown) - float(true)) <= tol + 1e-6 * abs(float(true))


def name_ok(j, name, tree, nd, text, scale):
    """Is `text` the chain of conditions of node nd, in the units of `scale`?"""
    names = j.names(name)
    by = {n["idx"]: n for n in tree}
    chain = []
    n = nd
    while n["parent"] is not None:
        chain.append(n)
        n = by[n["parent"]]
    chain.reverse()
    text = " ".join(text.split())
    root = " ".join(n["name"].split())
    if not chain:
        return text == root
    if not text.startswith(root + " | "):
        return False
    conds = text[len(root) + 3:].split(" and ")
    if len(conds) != len(chain):
        return False
    for c, n in zip(conds, chain):
        m = re.match(r"^(.*) (<=|>=|==|!=|<|>) " + NUM + "$", c)
        if not m or m.group(1) != names[n["foc"]] or m.group(2) != n["cmp"]:
            return False
        pos = n["pos"] if scale is None else n["pos"] * scale[n["foc"]]["std"] + scale[n["foc"]]["mean"]
        if not near(m.group(3), pos):
            return False
    return True


def whsum(tree, l):
    return sum(n["heter"] * n["weight"] for n in tree if n["level"] == l)


def sections(text, j, feats, res, i):
    """Split the printed text per requested feature (show)."""
    parts = re.split(r"^Feature (\d+) - Full partition tree:\s*$", text, flags=re.M)
    got = [int(parts[k]) for k in range(1, len(parts), 2)]
    if got != list(feats):
        res.bad("print-features", "asked for features %s, printed %s" % (list(feats), got), i)
        return None
    return [parts[k] for k in range(2, len(parts), 2)]


def check_show(j, rec):
    op, i, res = rec["op"], rec["i"], j.res
    name = op["e"]
    ex = j.w.E[name]
    only = op["kw"].get("only_important", True)
    scale = op["kw"].get("scale_x_list")
    feats = j.features(op["features"])
    secs = sections(rec["out"], j, feats, res, i)
    if secs is None:
        return
    for s, sec in zip(feats, secs):
        tree = R.tree_of(ex, s, full=not only)
        bad = lambda kind, msg: res.bad(kind, "show_partitioning(feature %d, only_important=%s, scaled=%s): %s" % (s, only, scale is not None, msg), i)
        top, _, stats = sec.partition("Statistics per tree level:")
        lines = re.findall(r"Node id:\s*(\d+), name:\s*(.*?), heter:\s*" + NUM + r" \|\| nof_instances:\s*(\d+) \|\| weight:\s*" + NUM, top)
        if tree is None:
            if lines or "No splits found" not in top:
                return bad("print-tree", "there is no tree but it printed %r" % top[:120])
            res.probes["print-compared"] += 1
            continue
        if sorted(int(x[0]) for x in lines) != [n["idx"] for n in tree]:
            return bad("print-tree", "printed nodes %s, the tree has %s" % ([x[0] for x in lines], [n["idx"] for n in tree]))
        by = {n["idx"]: n for n in tree}
        for idx, nm, h, cnt, wt in lines:
            n = by[int(idx)]
            if not name_ok(j, name, tree, n, nm, scale):
                return bad("print-condition", "node %s is printed as %r; it is %r, split at %r" % (idx, nm, n["name"], n["pos"]))
            if not near(h, n["heter"]) or int(cnt) != len(n["rows"]) or not near(wt, len(n["rows"]) / len(tree[0]["rows"])):
                return bad("print-numbers", "node %s is printed with heter %s, %s rows, weight %s; it has %.6g, %d, %.6g" % (idx, h, cnt, wt, n["heter"], len(n["rows"]), n["weight"]))
        lv = re.findall(r"Level\s*(\d*), heter:\s*" + NUM + r"(?: \|\| heter drop:\s*" + NUM + r" \(" + NUM + r"%\))?", stats)
        depth = max(n["level"] for n in tree)
        if [int(x[0] or 0) for x in lv] != list(range(depth + 1)):
            return bad("print-levels", "printed levels %s of a tree of depth %d" % ([x[0] for x in lv], depth))
        for l, (_, h, d, p) in enumerate(lv):
            now = whsum(tree, l)
            if not near(h, now):
                return bad("print-numbers", "level %d is printed with heterogeneity %s; its nodes give %.6g" % (l, h, now))
            if l:
                before = whsum(tree, l - 1)
                if d == "" or not near(d, before - now):
                    return bad("print-numbers", "level %d is printed with drop %s; it is %.6g" % (l, d, before - now))
                if before != 0 and not near(p, 100 * (before - now) / before):
                    return bad("print-numbers", "level %d is printed with drop %s%%; it is %.6g%%" % (l, p, 100 * (before - now) / before))
        res.probes["print-compared"] += 1


def check_describe(j, rec):
    op, i, res = rec["op"], rec["i"], j.res
    name = op["e"]
    ex = j.w.E[name]
    only = op["kw"].get("only_important", True)
    scale = op["kw"].get("scale_x_list")
    names = j.names(name)
    want = []
    for s in j.features(op["features"]):
        tree = R.tree_of(ex, s, full=not only)
        if tree is None:
            continue
        if len(tree) == 1 and only:
            want.append((s, None))
        else:
            want.append((s, tree))
    parts = re.split(r"^(No important splits found for feature .*|Important splits for feature .*|All splits for feature .*)$", rec["out"], flags=re.M)
    heads = [parts[k] for k in range(1, len(parts), 2)]
    bodies = [parts[k] for k in range(2, len(parts), 2)]
    bad = lambda kind, msg: res.bad(kind, "describe_subregions(%s, only_important=%s, scaled=%s): %s" % (op["features"], only, scale is not None, msg), i)
    if len(heads) != len(want):
        return bad("print-features", "%d features with a tree, printed %s" % (len(want), heads))
    for (s, tree), head, body in zip(want, heads, bodies):
        if tree is None:
            if not head.startswith("No important") or head.split()[-1] not in (str(s), names[s]) or body.strip():
                return bad("print-tree", "feature %d has no important split but it printed %r" % (s, head + body[:80]))
            continue
        if head.startswith("No important") or head.split()[-1] != names[s] or head.startswith("Important") != only:
            return bad("print-tree", "feature %d has a tree of %d nodes but it printed %r" % (s, len(tree), head))
        lev = re.findall(r"- On feature (\S+) \((\w+)\)\s*- Position of split:\s*" + NUM + r"\s*- Heterogeneity before split:\s*" + NUM +
                         r"\s*- Heterogeneity after split:\s*" + NUM + r"\s*- Heterogeneity drop:\s*" + NUM + r" \(" + NUM + r" ?%\)" +
                         r"\s*- Number of instances before split:\s*(\[.*?\])\s*- Number of instances after split:\s*(\[.*?\])", body)
        depth = max(n["level"] for n in tree)
        if len(lev) != depth:
            return bad("print-levels", "feature %d: %d splits printed for a tree of depth %d" % (s, len(lev), depth))
        for l, (f, typ, pos, b, a, d, p, nb, na) in enumerate(lev):
            up = [n for n in tree if n["level"] == l]
            dn = [n for n in tree if n["level"] == l + 1]
            g = dn[0]["foc"]
            tp = dn[0]["pos"] if scale is None else dn[0]["pos"] * scale[g]["std"] + scale[g]["mean"]
            if f != names[g] or typ != dn[0]["type"] or not near(pos, tp):
                return bad("print-condition", "feature %d: split printed on %s (%s) at %s; it is on %s (%s) at %.6g" % (s, f, typ, pos, names[g], dn[0]["type"], tp))
            hb, ha = whsum(tree, l), whsum(tree, l + 1)
            if not near(b, hb) or not near(a, ha) or not near(d, hb - ha) or hb != 0 and not near(p, 100 * (hb - ha) / hb):
                return bad("print-numbers", "feature %d level %d: printed %s -> %s, drop %s (%s%%); it is %.6g -> %.6g" % (s, l + 1, b, a, d, p, hb, ha))
            ints = lambda t: [int(v) for v in re.findall(r"(?<![\w.])\d+", t)]
            if ints(nb) != [n["n"] for n in up] or ints(na) != [n["n"] for n in dn]:
                return bad("print-numbers", "feature %d level %d: printed counts %s -> %s; they are %s -> %s" % (s, l + 1, nb, na, [n["n"] for n in up], [n["n"] for n in dn]))
        res.probes["print-compared"] += 1


def check_prefix(j, rec):
    """What came out before the stream failed is the beginning of the truth."""
    op = rec["op"]
    ex = j.w.E[op["e"]]
    if any(not ex.is_fitted[s] for s in j.features(op["features"])):
        return
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            (ex.show_partitioning if op["op"] == "show" else ex.describe_subregions)(op["features"], **op["kw"])
    except Exception as e:
        j.res.bad("print-after-failure", "after the stream failed once, printing fails: %s" % exc_name(e), rec["i"])
        return
    if not buf.getvalue().startswith(rec["out"]):
        j.res.bad("print-after-failure", "what was printed before the stream failed is not the beginning of what is printed afterwards", rec["i"])
    j.res.probes["prefix-compared"] += 1
