"""Runs episodes of one property over forked workers, minimises and replays violations,
writes the evidence.

Exit status: 0 the property held on everything explored; 1 a violation was found, replayed
and printed; 2 the harness itself failed (never used to hide a violation).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EP_LIMIT = 90            # real seconds one episode may take (they take about 0.1 s)
CHUNK = 20


class Hang(BaseException):
    dst_harness = True


class HarnessError(Exception):
    pass


def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


def episode(mod, prop, seed, i):
    from .spec import rng_for
    ep = mod.generate(rng_for(prop, seed, i))
    return json.loads(json.dumps(ep))


def run_one(mod, ep):
    """Execute one episode under a real-time guard."""
    def alarm(*a):
        raise Hang("episode exceeded %d s of real time" % EP_LIMIT)
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(EP_LIMIT)
    from . import sim
    try:
        sim.CUR = None
        return mod.check(ep)
    except Hang as e:
        from .props.common import Result
        res = Result()
        res.bad("no-progress", "a call did not return within %d s of real time: %s" % (EP_LIMIT, e))
        return res
    finally:
        sim.CUR = None
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _quiet_child():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    sys.stderr = open(os.devnull, "w")


def _child(conn, fn, args):
    try:
        _quiet_child()
        out = ("ok", fn(*args))
    except BaseException:
        out = ("err", traceback.format_exc())
    try:
        conn.send(out)
        conn.close()
    finally:
        os._exit(0)


class Job:
    def __init__(self, fn, args, limit):
        ctx = mp.get_context("fork")
        self.r, w = ctx.Pipe(False)
        self.p = ctx.Process(target=_child, args=(w, fn, args), daemon=False)
        self.p.start()
        w.close()
        self.deadline = time.time() + limit

    def result(self):
        try:
            out = self.r.recv()
        except EOFError:
            self.p.join()
            raise HarnessError("worker died with status %s" % self.p.exitcode)
        self.p.join()
        self.r.close()
        if out[0] != "ok":
            raise HarnessError("worker failed:\n" + out[1])
        return out[1]

    def kill(self):
        self.p.kill()
        self.p.join()
        self.r.close()


def isolated(fn, *args, limit=600):
    j = Job(fn, args, limit)
    if not j.r.poll(limit):
        j.kill()
        raise HarnessError("worker timed out")
    return j.result()


# ---------------------------------------------------------------- chunks
def run_chunk(mod, prop, seed, idx):
    out = {"eps": 0, "sigs": set(), "nontrivial": set(), "probes": collections.Counter(), "fired": collections.Counter(),
           "clock": 0.0, "events": 0, "bad": [], "samples": [], "dig": hashlib.sha256(), "ops": 0, "faults_planned": 0}
    for k, i in enumerate(idx):
        ep = i if isinstance(i, dict) else episode(mod, prop, seed, i)
        res = run_one(mod, ep)
        out["eps"] += 1
        out["ops"] += len(ep.get("ops", []))
        out["faults_planned"] += len(ep.get("faults", []))
        s = hashlib.sha256(res.sig.encode()).digest()[:8]
        out["sigs"].add(s)
        if sum(res.probes.values()) or res.fired:
            out["nontrivial"].add(s)
        out["probes"].update(res.probes)
        out["fired"].update(res.fired)
        out["clock"] += res.clock
        out["events"] += res.events
        out["dig"].update(res.digest.encode())
        if res.violations:
            out["bad"].append((k, i if not isinstance(i, dict) else -1, ep, res.violations[0]))
            break
        if k == 0:
            out["samples"].append(ep)
    out["dig"] = out["dig"].hexdigest()
    return out


def run_all(mod, prop, seed, n, workers, hard_s, corpus, log):
    work = [[c] for c in corpus] + [list(range(a, min(n, a + CHUNK))) for a in range(0, n, CHUNK)]
    results, live, nxt = {}, {}, 0
    t0 = time.time()
    stop_at = len(work)
    timed_out = False
    while nxt < stop_at or live:
        while nxt < stop_at and len(live) < workers and not timed_out:
            live[nxt] = Job(run_chunk, (mod, prop, seed, work[nxt]), EP_LIMIT * 3)
            nxt += 1
        if not live:
            break
        mpc.wait([j.r for j in live.values()], timeout=1.0)
        for k in list(live):
            j = live[k]
            if j.r.poll(0):
                results[k] = j.result()
                del live[k]
                if results[k]["bad"]:
                    stop_at = min(stop_at, nxt)
            elif time.time() > j.deadline:
                j.kill()
                del live[k]
                raise HarnessError("chunk %d (%s...) ran out of time" % (k, str(work[k])[:80]))
        if time.time() - t0 > hard_s and not timed_out:
            timed_out = True
            log("time limit reached after %d of %d chunks" % (len(results), len(work)))
    return work, results, timed_out


# ---------------------------------------------------------------- minimisation
def fails_alone(mod, prefix, ep, kind):
    """Run prefix then ep in this (forked) process; the violation of ep if of that kind."""
    for p in prefix:
        run_one(mod, p)
    res = run_one(mod, ep)
    for v in res.violations:
        if kind is None or v["kind"] == kind:
            return v
    return None


def minimise(mod, prefix, ep, kind, budget, log):
    t0 = time.time()
    tries = [0]

    def bad(pre, e):
        if time.time() - t0 > budget or tries[0] > 400:
            return False
        tries[0] += 1
        try:
            return isolated(fails_alone, mod, pre, json.loads(json.dumps(e)), kind, limit=EP_LIMIT * 2) is not None
        except HarnessError:
            return False
    # prefix first
    k = len(prefix)
    while k >= 1 and prefix:
        i = 0
        while i < len(prefix):
            cand = prefix[:i] + prefix[i + k:]
            if bad(cand, ep):
                prefix = cand
            else:
                i += k
        k //= 2
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for cand in shrink(mod, ep):
            if bad(prefix, cand):
                ep, changed = cand, True
                break
        while changed and time.time() - t0 < budget and tries[0] <= 400:
            for cand in shrink(mod, ep):
                if bad(prefix, cand):
                    ep = cand
                    break
            else:
                break
    log("minimised in %d runs" % tries[0])
    return prefix, ep


def drop_op(ep, i):
    e = dict(ep)
    e["ops"] = ep["ops"][:i] + ep["ops"][i + 1:]
    e["faults"] = [dict(f, op=f["op"] - (f["op"] > i)) for f in ep.get("faults", []) if f["op"] != i]
    return e


def shrink(mod, ep):
    """Smaller candidates, most aggressive first."""
    if hasattr(mod, "shrink"):
        yield from mod.shrink(ep)
    ops = ep.get("ops", [])
    if ops and not any("thread" in o for o in ops):
        for i in range(len(ops) - 1, -1, -1):
            if ops[i]["op"] not in ("new",):
                yield drop_op(ep, i)
        names = [o["e"] for o in ops if o["op"] == "new"]
        for nm in names:
            if len(names) > 1:
                e = ep
                for i in range(len(ops) - 1, -1, -1):
                    if ops[i].get("e") == nm:
                        e = drop_op(e, i)
                yield e
    for i in range(len(ep.get("faults", []))):
        yield dict(ep, faults=ep["faults"][:i] + ep["faults"][i + 1:])
    for i, f in enumerate(ep.get("faults", [])):
        for n in sorted({0, f["n"] // 2}):
            if n < f["n"]:
                yield dict(ep, faults=ep["faults"][:i] + [dict(f, n=n)] + ep["faults"][i + 1:])
    for i in range(len(ep.get("preempt", []))):
        yield dict(ep, preempt=ep["preempt"][:i] + ep["preempt"][i + 1:])
    terms = ep.get("model", {}).get("terms", [])
    for i in range(len(terms)):
        if len(terms) > 1:
            yield dict(ep, model=dict(ep["model"], terms=terms[:i] + terms[i + 1:]))
    d = ep.get("data")
    if d:
        for n in (8, 12, 16, 24, d["N"] // 2):
            if 8 <= n < d["N"] and all(c["k"] != "id" for c in d["cols"]):
                yield dict(ep, data=dict(d, N=n))
        if d.get("order") != "C":
            yield dict(ep, data=dict(d, order="C"))
    for i, o in enumerate(ops):
        if len(o.get("xs", [])) > 1:
            yield dict(ep, ops=ops[:i] + [dict(o, xs=o["xs"][:1])] + ops[i + 1:])
        for k in list(o.get("kw", {})):
            kw = {a: b for a, b in o["kw"].items() if a != k}
            yield dict(ep, ops=ops[:i] + [dict(o, kw=kw)] + ops[i + 1:])
        for k in ("het", "all", "vec"):
            if o.get(k):
                yield dict(ep, ops=ops[:i] + [{a: b for a, b in o.items() if a != k}] + ops[i + 1:])
        if isinstance(o.get("features"), (list, str)) and o["op"] == "fit":
            for s in ([0, 1, 2] if o["features"] == "all" else o["features"]):
                if o["features"] != [s]:
                    yield dict(ep, ops=ops[:i] + [dict(o, features=[s])] + ops[i + 1:])


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return [f for f in json.load(open(p))["findings"] if f["property"] == prop]
    except FileNotFoundError:
        return []


def corpus_of(prop):
    d = os.path.join(VERIF, "corpus", prop)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                out.append(json.load(open(os.path.join(d, f)))["episode"])
    return out


# ---------------------------------------------------------------- main
def replay_file(path):
    doc = json.load(open(path))
    mod = load(doc["property"])
    if doc["violation"].get("extra"):
        return doc, mod.replay_extra(doc)
    return doc, isolated(fails_alone, mod, doc.get("prefix", []), doc["episode"], None)


def main(prop, tier, seed, n=None, workers=None, out_dir=None, quiet=False, hard_s=None):
    t0 = time.time()
    log = lambda m: None if quiet else print("[%s %6.1fs] %s" % (prop, time.time() - t0, m), flush=True)
    from . import boot
    mod = load_light(prop)
    boot.boot(need_shap=mod["NEEDS_SHAP"])
    mod = load(prop)
    n = n or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    workers = workers or min(8, os.cpu_count() or 1)
    hard_s = hard_s or (520 if tier == "quick" else 6 * 3600)
    print("[%s] seed=%s tier=%s episodes=%d workers=%d repo=%s" % (prop, seed, tier, n, workers, boot.REPO), flush=True)
    t_run = time.time()
    corpus = corpus_of(prop)
    work, results, timed_out = run_all(mod, prop, seed, n, workers, hard_s, corpus, log)
    extra = None
    bad = None
    for k in sorted(results):
        if results[k]["bad"]:
            bad = (k,) + results[k]["bad"][0]
            break
    if bad is None and hasattr(mod, "extra"):
        # property-specific work that needs whole processes (C06)
        extra = mod.extra(seed, tier, log)
        if extra.get("violation"):
            bad = (-1, 0, -1, extra["episode"], extra["violation"])
    run_s = time.time() - t_run
    violations = 0
    path = None
    if bad is not None:
        violations = 1
        k, pos, idx, ep, v = bad
        log("violation [%s] in episode %s: %s" % (v["kind"], idx, v["msg"]))
        if v.get("extra"):
            path = write_replay(prop, seed, idx, [], ep, v, out_dir)
        else:
            path = confirm(mod, prop, seed, work[k], pos, idx, ep, v, out_dir, log)
    write_evidence(mod, prop, tier, seed, results, n, corpus, run_s, time.time() - t0, violations, timed_out, workers, extra, path)
    done = sum(r["eps"] for r in results.values())
    if bad is not None:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if done < 0.25 * n:
        print("[%s] only %d of %d episodes were executed in the time limit" % (prop, done, n))
        return 2
    log("held on %d episodes (%d distinct histories), %.0f episodes/h, digest %s" % (
        done, len(set().union(*[r["sigs"] for r in results.values()])), done / run_s * 3600, run_digest(results)[:16]))
    return 0


def run_digest(results):
    """One hash over every event and every returned bit of every episode."""
    return hashlib.sha256("".join(results[k]["dig"] for k in sorted(results)).encode()).hexdigest()


def load_light(prop):
    """Read module constants without importing numpy-heavy code before boot."""
    import ast
    src = open(os.path.join(VERIF, "dst", "props", prop.lower() + ".py")).read()
    out = {"NEEDS_SHAP": False}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id == "NEEDS_SHAP":
            out["NEEDS_SHAP"] = ast.literal_eval(node.value)
    return out


def write_replay(prop, seed, idx, prefix, ep, v, out_dir):
    d = out_dir or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-%s.json" % (prop, seed, idx if idx >= 0 else "x"))
    doc = {"property": prop, "verif_seed": seed, "episode_index": idx, "violation": v,
           "replay_with": "cd /verif && ./check.sh --replay %s" % path, "prefix": prefix, "episode": ep}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def confirm(mod, prop, seed, chunk, pos, idx, ep, v, out_dir, log):
    """Reproduce in isolation, minimise, and prove the replay file in a fresh interpreter."""
    prefix = []
    if isolated(fails_alone, mod, [], ep, v["kind"], limit=EP_LIMIT * 2) is None:
        prefix = [c if isinstance(c, dict) else episode(mod, prop, seed, c) for c in chunk[:pos]]
        log("does not fail alone: keeping the %d earlier episodes of its process" % len(prefix))
    m_prefix, m_ep = minimise(mod, prefix, ep, v["kind"], 60, log)
    for pre, e in ((m_prefix, m_ep), (prefix, ep), (prefix, ep)):
        try:
            vv = isolated(fails_alone, mod, pre, e, v["kind"], limit=EP_LIMIT * 3)
        except HarnessError:
            vv = None
        if vv is None:
            continue
        path = write_replay(prop, seed, idx, pre, e, vv, out_dir)
        rc = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        if rc.returncode == 1:
            log("replay in a fresh process reproduces it: %s" % vv["msg"])
            return path
        log("the replay did not reproduce in a fresh process")
    if v["kind"] == "no-progress":
        raise HarnessError("a run that did not end could not be repeated: %s" % v["msg"])
    # the harness is deterministic, so the code under test is not; what was seen is still a violation
    v = dict(v, msg=v["msg"] + " [the code under test does not repeat this on every execution]", flaky=True)
    return write_replay(prop, seed, idx, prefix, ep, v, out_dir)


def write_evidence(mod, prop, tier, seed, results, n, corpus, run_s, wall, violations, timed_out, workers, extra, path):
    tot = collections.Counter()
    probes, fired = collections.Counter(), collections.Counter()
    sigs, nt = set(), set()
    clock = 0.0
    samples = []
    for k in sorted(results):
        r = results[k]
        for f in ("eps", "ops", "events", "faults_planned"):
            tot[f] += r[f]
        probes.update(r["probes"])
        fired.update(r["fired"])
        sigs |= r["sigs"]
        nt |= r["nontrivial"]
        clock += r["clock"]
        if len(samples) < 3:
            samples += r["samples"]
    eps = tot["eps"]
    seams = collections.Counter()
    for k, v in fired.items():
        seams[k.split(":")[0]] += v
    cov = {
        "evaluations": eps,
        "distinct_nontrivial": len(nt),
        "rule": "one evaluation is one simulated session generated from (property, VERIF_SEED, index); two are the same if "
                "operation kinds, explainer classes, features, centerings, binning kinds, outcomes and fired faults agree in order; "
                "non-trivial means an oracle compared at least one answer or at least one injected fault really fired",
        "samples": samples[:3],
        "planned_episodes": n,
        "corpus_episodes": len(corpus),
        "distinct_histories": len(sigs),
        "operations_executed": tot["ops"],
        "seam_crossings": tot["events"],
        "simulated_runs_per_hour": round(eps / run_s * 3600) if run_s else 0,
        "seeds_per_hour": round(eps / run_s * 3600) if run_s else 0,
        "simulated_seconds": round(clock, 3),
        "faults_planned": tot["faults_planned"],
        "faults_fired": dict(sorted(seams.items())),
        "faults_fired_by_kind": dict(sorted(fired.items())),
        "oracle_probes": dict(sorted(probes.items())),
        "workers": workers,
        "stopped_by_time_limit": timed_out,
        "run_digest": run_digest(results),
        "real_components": ["effector (all modules, unmodified)", "numpy", "scipy", "shap", "matplotlib (Agg)", "tqdm", "threads (parked and released by the scheduler)"],
        "simulated_components": ["model and Jacobian callables", "clock read by tqdm", "stdout/stderr", "pyplot.show and the moment a figure is created",
                                 "allocation failures and interrupts at numpy calls made by effector", "thread scheduling"],
    }
    if extra:
        cov["cross_process"] = {k: v for k, v in extra.items() if k not in ("episode",)}
    if path:
        cov["replay"] = path
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMES", [])) + [
              "sampling, not enumeration: a clean batch is evidence, not proof",
              "models are deterministic row-wise functions built from linear, quadratic, rational, product and gated terms",
          ], "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    if os.environ.get("DST_NO_EVIDENCE") != "1":
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
