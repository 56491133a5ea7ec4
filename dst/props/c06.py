"""C06: with numpy seeded, a session is bit-for-bit repeatable; only construction draws."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

import numpy as np

from .. import regional as R
from .. import spec as G
from ..world import World
from . import c11, c14
from . import common as C

NEEDS_SHAP = True
QUICK, THOROUGH = 360, 16000
XQUICK, XTHOROUGH = 64, 2400          # sessions repeated in whole other processes
HASHSEEDS = ["0", "1", "31337", "random"]
ASSUMES = ["bit-identity is claimed for one machine, one set of installed packages and one BLAS thread",
           "a plot that is asked for fewer curves than there are may draw from the generator, going forward only"]


# ------------------------------------------------------------------ generation
def one(r, light=False):
    c = r.random()
    if c < 0.06 and not light:
        return wide_shap(r)
    if c < 0.5:
        classes = ["ShapDP"] if c < 0.14 else (["RHALE"] if c < 0.25 else (["ALE"] if c < 0.33 else ["PDP", "DerPDP"]))
        ep, exps, D, N = C.gen_session(r, classes, nops=(2, 5), plots=0.0, sample=True, nmax=32 if classes == ["ShapDP"] else 50, ints=r.random() < 0.1)
        for name, cls, lim in exps:
            for _ in range(r.randint(0, 2)):
                ep["ops"].append(c11.rich_plot(r, name, cls, D, lim, N))
                if r.random() < 0.5:
                    ep["ops"].append(C.gen_eval(r, name, cls, D, lim))
    elif c < 0.87:
        cls = ["RegionalShapDP"] if c < 0.54 else G.REGIONAL[:4]
        ep = R.gen_session(r, cls, nops=(2, 5), sample=True, nmax=44, nexp=r.choice([1, 1, 2]), mix={"fit": 4, "eval": 3, "plot": 2, "text": 3, "node": 1})
    else:
        ep = c14.generate(r)
        ep["faults"] = []
        ep["ops"] = ep["ops"][:12]
    return ep


def wide_shap(r):
    """More than ten features: shap switches to sampled permutations."""
    d = {"seed": r.randrange(10**9), "N": r.randint(12, 16), "cols": [{"k": "uni", "a": 0.0, "b": r.choice([1.0, 2.0])} for _ in range(11)], "order": "C", "dtype": "f8"}
    ep = {"data": d, "np_seed": r.randrange(2**31), "faults": [], "latency": 0.0}
    t = [["lin", i, r.choice([1.0, -2.0, 0.5])] for i in range(11)] + [["prod", i, (i * 3 + 1) % 11, r.choice([1.5, -2.0, 3.0])] for i in range(11)]
    t += [["gate", i, 0.4375, (i + 5) % 11, r.choice([2.0, -3.0])] for i in range(0, 11, 2)]
    ep["model"] = {"terms": t}
    ops = [{"op": "seed", "s": ep["np_seed"]}, {"op": "new", "e": "e0", "cls": "ShapDP", "kw": {"nof_instances": r.choice(["all", 10])}}]
    for _ in range(r.choice([1, 2])):
        s = r.randrange(11)
        ops.append({"op": "eval", "e": "e0", "feature": s, "xs": [0.25, 0.5, 0.75], "het": r.random() < 0.5, "centering": r.choice(G.CENTERINGS)})
    if r.random() < 0.4:
        ops.append({"op": "new", "e": "e1", "cls": "PDP", "kw": {"nof_instances": 8}})
        ops.append({"op": "eval", "e": "e1", "feature": 0, "xs": [0.5], "het": True, "centering": False})
    ep["ops"] = ops
    return ep


def generate(r):
    ep = one(r)
    noise = one(r, light=True)
    noise["ops"] = noise["ops"][:5]
    noise["faults"] = []
    ep["noise"] = noise
    ep["shift"] = r.randrange(2**31)
    return ep


# ------------------------------------------------------------------ running
def draws(op, cls):
    """May this operation draw from the generator?"""
    if op["op"] in ("new", "seed"):
        return True
    kw = op.get("kw", {})
    return op["op"] == "plot" and (cls.startswith("Regional") or "nof_ice" in kw or "nof_shap_values" in kw)


def outcome(w, rec):
    """Digest of everything a caller can see of one operation."""
    h = hashlib.sha256()
    h.update(repr((rec["status"], type(rec["exc"]).__name__, rec["out"])).encode())
    C.feed(h, rec["val"])
    op = rec["op"]
    if op["op"] == "new" and rec["status"] == "ok":
        d = getattr(w.E[op["e"]], "data", None)
        if isinstance(d, np.ndarray):
            C.feed(h, np.array(d))
    elif op.get("cls", w.info.get(op.get("e"), {}).get("cls", "")).startswith("Regional") and op["op"] == "fit":
        for s in range(w.dim):
            for full in (True, False):
                try:
                    C.feed(h, R.tree_of(w.E[op["e"]], s, full))
                except (KeyError, AttributeError):
                    pass
    return h.hexdigest()


def state():
    return np.random.get_state()


def same_state(a, b):
    return a[2] == b[2] and np.array_equal(a[1], b[1])


def forward(a, b, blocks=400):
    """Can the generator have moved from state a to state b by drawing?"""
    rs = np.random.RandomState()
    rs.set_state(("MT19937", a[1], a[2], 0, 0.0))
    for _ in range(blocks):
        s = rs.get_state()
        if np.array_equal(s[1], b[1]):
            return s[2] <= b[2]
        rs.randint(0, 2**32, size=624 - s[2] + 1 if s[2] < 624 else 1, dtype=np.uint32)
    return False


def run(ep, before=None, prep=None):
    """Outcomes and generator states of every operation of a session."""
    w = World(ep)
    outs = []
    for i, op in enumerate(ep["ops"]):
        if prep:
            prep(i, op, w)
        a = state()
        rec = w.do(op, i)
        outs.append((outcome(w, rec), a, state(), rec))
    return w, outs


def check(ep):
    res = C.Result()
    w, A = run(ep)
    cls = lambda op: op.get("cls") or w.info.get(op.get("e"), {}).get("cls", "")
    for i, (o, a, b, rec) in enumerate(A):
        op = ep["ops"][i]
        if op["op"] == "seed":
            continue
        if draws(op, cls(op)):
            if not forward(a, b):
                res.bad("generator-rewound", "%s of %s left numpy's global generator in a state that no drawing leads to (it was reseeded or rewound)" % (op["op"], cls(op)), i)
        elif not same_state(a, b):
            res.bad("generator-touched", "%s of %s changed the state of numpy's global generator" % (op["op"], cls(op)), i)
        res.probes["generator-states-checked"] += 1
    if not res.violations:
        # the same session again, in a process that has done other work meanwhile
        World(ep["noise"]).run()
        np.random.seed(ep["shift"] ^ 0x5A5A5A)
        _, B = run(ep)
        compare(res, ep, A, B, cls, "not-repeatable", "when the seeded session is repeated after unrelated work in the same process")
    if not res.violations:
        # the same session, the generator disturbed wherever no draw is due
        def prep(i, op, w2):
            if op["op"] == "seed":
                return
            if draws(op, cls(op)):
                np.random.set_state(A[i][1])
            else:
                np.random.seed((ep["shift"] + i) % 2**31)
        _, D = run(ep, prep=prep)
        compare(res, ep, A, D, cls, "generator-dependent", "when numpy's generator is in another state although nothing is sampled")
    return C.finish(res, w)


def compare(res, ep, A, B, cls, kind, how):
    for i, (x, y) in enumerate(zip(A, B)):
        if x[0] != y[0]:
            op = ep["ops"][i]
            res.bad(kind, "%s of %s (operation %d) gives other bits %s: %s" % (op["op"], cls(op), i, how, detail(x[3], y[3])), i)
            return
        res.probes["outcomes-compared"] += 1


def detail(a, b):
    if a["status"] != b["status"]:
        return "%s, then %s" % (a["status"], b["status"])
    if a["out"] != b["out"]:
        return "other text"
    try:
        va, vb = (x["val"] if isinstance(x["val"], tuple) else (x["val"],) for x in (a, b))
        return "; ".join("max |difference| %.3g" % np.abs(np.asarray(p, dtype=float) - np.asarray(q, dtype=float)).max() for p, q in zip(va, vb) if p is not None)
    except Exception:
        return "other values"


def shrink(ep):
    if ep["noise"]["ops"]:
        yield dict(ep, noise=dict(ep["noise"], ops=[]))


# ------------------------------------------------------------------ other processes
WORKER = """
import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True
from dst import boot; boot.boot(need_shap=False)
from dst.props import c06; c06.worker(sys.argv[1])
"""


def worker(path):
    """In a fresh interpreter: run a list of [key, episode], print the outcome digests of each."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    for key, ep in json.load(open(path)):
        _, A = run(ep)
        print(json.dumps([key, [a[0] for a in A]]), flush=True)


def spawn(hashseed, items, d, tag):
    path = os.path.join(d, "in%s.json" % tag)
    with open(path, "w") as f:
        json.dump(items, f)
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    out = open(os.path.join(d, "out%s" % tag), "w")
    p = subprocess.Popen([sys.executable, "-c", WORKER % verif, path], stdout=out, stderr=subprocess.DEVNULL, env=env)
    return p, out.name


def across(items, hashseeds, limit=600, orders=True):
    """{key: [digest list per process]} for the same sessions in several processes, each in its own order."""
    got = {}
    with tempfile.TemporaryDirectory(prefix="dst-c06-") as d:
        ps = []
        for t, hs in enumerate(hashseeds):
            k = (len(items) * t) // max(1, len(hashseeds))
            mine = items[k:] + items[:k] if orders else items
            ps.append(spawn(hs, mine if t % 2 == 0 or not orders else mine[::-1], d, t))
        end = time.time() + limit
        for p, _ in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q, _ in ps:
                    q.kill()
                raise RuntimeError("a process of the cross-process comparison did not finish")
            if p.returncode != 0:
                raise RuntimeError("a process of the cross-process comparison failed with status %s" % p.returncode)
        for _, o in ps:
            for line in open(o):
                key, dig = json.loads(line)
                got.setdefault(key, []).append(dig)
    return got


def verdict(ep, digs, hashseeds):
    for t, d in enumerate(digs):
        if d != digs[0]:
            i = next(k for k in range(len(d)) if d[k] != digs[0][k])
            op = ep["ops"][i]
            return {"kind": "process-dependent", "op": i, "extra": True,
                    "msg": "%s (operation %d) gives other bits in another process (hash seeds %s and %s)" % (op["op"], i, hashseeds[0], hashseeds[t])}
    return None


def extra(seed, tier, log):
    n = XQUICK if tier == "quick" else XTHOROUGH
    t0 = time.time()
    eps = []
    for i in range(n):
        ep = one(G.rng_for("C06x", seed, i), light=i % 24 != 0)
        eps.append(json.loads(json.dumps(ep)))
    procs = HASHSEEDS * (1 if tier == "quick" else 2)
    halves = max(1, 8 // len(procs))
    done, distinct = 0, set()
    step = max(1, min(n, 400))
    for a in range(0, n, step):
        items = [[i, eps[i]] for i in range(a, min(n, a + step))]
        got = {}
        # two groups of processes share the machine
        import threading
        parts = [items[k::halves] for k in range(halves)]
        outs = [None] * halves

        def go(k):
            try:
                outs[k] = across(parts[k], procs)
            except BaseException as e:
                outs[k] = e
        ths = [threading.Thread(target=go, args=(k,)) for k in range(halves)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for o in outs:
            if isinstance(o, BaseException):
                raise o
            got.update(o)
        for i, _ in items:
            v = verdict(eps[i], got[i], procs)
            distinct.add(json.dumps(got[i][0]))
            done += 1
            if v:
                ep = minimise(eps[i], log)
                return {"violation": v, "episode": ep, "sessions": done}
    log("%d sessions gave identical bits in %d processes with hash seeds %s (%.0f s)" % (done, len(procs), ",".join(sorted(set(procs))), time.time() - t0))
    return {"sessions": done, "processes_per_session": len(procs), "hash_seeds": procs, "distinct_outcomes": len(distinct), "wall_s": round(time.time() - t0, 1)}


def minimise(ep, log):
    """Smaller sessions that still differ between processes, several candidates per process."""
    from .. import runner
    hs = ["0", "1", "2", "3"]
    t0 = time.time()
    while time.time() - t0 < 60:
        cands = []
        for c in runner.shrink(sys.modules[__name__], dict(ep, noise={"ops": []})):
            c = dict(c)
            c.pop("noise", None)
            cands.append(c)
            if len(cands) >= 40:
                break
        if not cands:
            break
        try:
            got = across([[k, c] for k, c in enumerate(cands)], hs, limit=120, orders=False)
        except RuntimeError:
            break
        nxt = next((c for k, c in enumerate(cands) if verdict(c, got[k], hs)), None)
        if nxt is None:
            break
        ep = nxt
    return ep


def replay_extra(doc):
    hs = ["0", "1", "2", "3"] * 2
    ep = doc["episode"]
    got = across([[0, ep]], hs, orders=False)
    return verdict(ep, got[0], hs)
