"""Seeded generation of episodes, and materialisation of their data.

An episode is plain JSON.  Everything is drawn from one random.Random; executing an episode
draws nothing (the library's own numpy draws are seeded by the episode).
"""
import random

import numpy as np

GLOBAL = ["PDP", "DerPDP", "ALE", "RHALE", "ShapDP"]
REGIONAL = ["RegionalPDP", "RegionalDerPDP", "RegionalALE", "RegionalRHALE", "RegionalShapDP"]
CENTERINGS = [False, True, "zero_integral", "zero_start"]


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


# ------------------------------------------------------------------ data
def gen_col(r, kinds):
    k = r.choice(kinds)
    if k == "uni":
        a = r.choice([0.0, -1.0, -2.0, 1.0])
        return {"k": "uni", "a": a, "b": a + r.choice([1.0, 2.0, 3.0])}
    if k == "norm":
        return {"k": "norm", "m": r.choice([0.0, 1.0]), "s": r.choice([0.5, 1.0])}
    if k == "cat":
        n = r.randint(2, 5)
        lv, v = [], r.choice([0.0, -1.0])
        for _ in range(n):
            lv.append(v)
            v += r.choice([1.0, 1.0, 2.0, 0.5])
        return {"k": "cat", "levels": lv}
    if k == "grid":
        return {"k": "grid", "n": r.choice([12, 20, 21]), "a": 0.0, "b": r.choice([1.0, 2.0])}
    if k == "int":
        return {"k": "int", "a": r.choice([0, -3]), "n": r.choice([11, 14, 18, 25])}
    if k == "skew":
        return {"k": "skew", "w": r.choice([1.0, 10.0, 1000.0]), "frac": r.choice([0.05, 0.2, 0.5])}
    if k == "ties":
        return {"k": "ties", "n": r.choice([1, 2, 4]), "frac": r.choice([0.3, 0.6, 0.9])}
    if k == "big":
        return {"k": "uni", "a": r.choice([0.0, 1.6e9, -3e10]), "b": None, "w": r.choice([1e6, 1e10])}
    if k == "tiny":
        return {"k": "uni", "a": r.choice([0.0, 1e-9]), "b": None, "w": r.choice([1e-9, 1e-5])}
    if k == "minor":
        return {"k": "minor", "n": r.choice([1, 2, 3, 4])}
    if k == "const":
        return {"k": "const", "v": r.choice([0.0, 2.5])}
    raise AssertionError(k)


def gen_data(r, nmin=24, nmax=60, dmin=2, dmax=4, kinds=("uni", "uni", "norm", "cat", "grid"), cont_first=True, idcol=False, ints=False):
    D = r.randint(dmin, dmax)
    N = r.randint(nmin, nmax)
    cols = [gen_col(r, kinds) for _ in range(D)]
    if cont_first and all(c["k"] == "cat" for c in cols):
        cols[0] = gen_col(r, ["uni"])
    d = {"seed": r.randrange(10**9), "N": N, "cols": cols, "order": r.choice(["C", "C", "F", "view", "ro"]), "dtype": "f8"}
    if ints and r.random() < 0.5:
        d["cols"] = [gen_col(r, ["int", "int", "cat"]) for _ in range(D)]
        for c in d["cols"]:
            if c["k"] == "cat":
                c["levels"] = list(range(r.randint(2, 5)))
        if all(c["k"] == "cat" for c in d["cols"]):
            d["cols"][0] = gen_col(r, ["int"])
        d["dtype"] = r.choice(["i8", "i4"])
    if idcol:
        d["cols"].append({"k": "id"})
    return d


def grow(r, d, nmax, wide=False):
    """Now and then more rows, or more columns, than usual: code may change its ways with size."""
    c = r.random()
    if nmax >= 40 and c < 0.07:
        d["N"] = r.choice([65, 70, 97, 101, 129, 150, 201, 257, 305, 340])
    elif wide and c < 0.11 and d["dtype"] == "f8":
        d["cols"] += [gen_col(r, ["uni", "norm", "cat", "grid"]) for _ in range(r.randint(1, 4))]


def make_data(d):
    rs = np.random.RandomState(d["seed"] % (2**31))
    N = d["N"]
    cols = []
    for c in d["cols"]:
        k = c["k"]
        if k == "uni":
            v = rs.uniform(c["a"], c["a"] + c["w"] if c["b"] is None else c["b"], N)
        elif k == "norm":
            v = np.clip(rs.normal(c["m"], c["s"], N), c["m"] - 3 * c["s"], c["m"] + 3 * c["s"])
        elif k == "cat":
            lv = np.array(c["levels"], dtype=float)
            v = lv[rs.randint(0, len(lv), N)]
            v[:len(lv)] = lv[:N]
        elif k == "grid":
            g = np.linspace(c["a"], c["b"], c["n"])
            v = g[rs.randint(0, c["n"], N)]
            v[0], v[1] = g[0], g[-1]
        elif k == "int":
            v = c["a"] + rs.randint(0, c["n"], N).astype(float)
            v[0], v[1] = c["a"], c["a"] + c["n"] - 1
        elif k == "skew":      # most values close together, some far away
            v = rs.uniform(0, 0.1, N)
            far = rs.uniform(0, 1, N) < c["frac"]
            v[far] = c["w"] * rs.uniform(0.1, 1.0, N)[far]
            v[0] = c["w"]
        elif k == "ties":      # a few values taken by many rows, the others all different
            v = rs.uniform(-1, 1, N)
            t = rs.uniform(0, 1, N) < c["frac"]
            v[t] = np.linspace(-0.5, 0.75, c["n"])[rs.randint(0, c["n"], N)][t]
            v[0], v[1] = -1.0, 1.0
        elif k == "minor":     # two values, one of them rare
            v = np.where(np.arange(N) < c["n"], 0.0, 1.0)
        elif k == "const":
            v = np.full(N, c["v"])
        elif k == "id":
            v = np.arange(N, dtype=float)
        else:
            raise AssertionError(k)
        p = rs.permutation(N) if k not in ("id",) else np.arange(N)
        cols.append(v[p])
    x = np.stack(cols, axis=1)
    if d["dtype"] != "f8":
        x = x.astype(d["dtype"])
    o = d["order"]
    if o == "F":
        x = np.asfortranarray(x)
    elif o == "view":
        big = np.full((2 * N, x.shape[1] + 2), 7, dtype=x.dtype)
        big[::2, 1:-1] = x
        x = big[::2, 1:-1]
    elif o == "ro":
        x = x.copy()
        x.setflags(write=False)
    return x


# ------------------------------------------------------------------ model
def gen_model(r, d, smooth=False, gates=True, scale=1.0):
    """Terms over the non-id columns; gates sit strictly between data values so that a
    derivative is never taken across one."""
    cols = [i for i, c in enumerate(d["cols"]) if c["k"] != "id"]
    X = make_data(d)
    w = lambda: scale * r.choice([-3.0, -2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 3.0]) * (1 + r.randrange(8) / 16.0)
    terms = [["const", w()]]
    for i in cols:
        if r.random() < 0.7:
            terms.append([r.choice(["lin", "lin", "quad", "rat"]), i, w()])
    if len(cols) > 1:
        for _ in range(r.randint(1, 3)):
            i, j = r.sample(cols, 2)
            k = r.choice(["prod", "gate", "gatecat"]) if gates and not smooth else "prod"
            if k == "prod":
                terms.append(["prod", i, j, w()])
            elif k == "gate":
                u = np.unique(np.asarray(X[:, i], dtype=float))
                if len(u) < 2:
                    continue
                q = min(len(u) - 2, max(0, int(len(u) * r.choice([0.3, 0.5, 0.7]))))
                # not between two values that shap takes for one (np.isclose)
                wide = np.flatnonzero(np.diff(u) > 1e-4 * np.maximum(np.abs(u[1:]), np.abs(u[:-1])) + 1e-7)
                if len(wide):
                    q = int(wide[np.argmin(np.abs(wide - q))])
                terms.append(["gate", i, float(0.63 * u[q] + 0.37 * u[q + 1]), j, w()])
            else:
                u = np.unique(np.asarray(X[:, i], dtype=float))
                terms.append(["gatecat", i, float(u[r.randrange(len(u))]), j, w()])
    return {"terms": terms}


def gen_out(r, ep, whole=True):
    """Now and then the model answers in whole numbers, or with an array that must not be written to."""
    c = r.random()
    if c < 0.05 and whole:
        ep["model"]["terms"].append(["floor", 0.1371])
        ep["model"]["out"] = "i8"
    elif c < 0.09:
        ep["model"]["out"] = "ro"


# ------------------------------------------------------------------ arguments
def gen_binning(r, cls, N, feasible=True):
    if cls in ("ALE", "RegionalALE"):
        c = r.random()
        if c < 0.3 and cls == "ALE":
            return "fixed"
        return {"b": "Fixed", "nof_bins": r.choice([1, 2, 3, 5, 8]), "min_points_per_bin": 0, "cat_limit": r.choice([5, 10, 15])}
    c = r.random()
    if c < 0.15:
        return "fixed" if N >= 40 else {"b": "Fixed", "nof_bins": 4, "min_points_per_bin": 0}
    if c < 0.25:
        return "greedy"
    if c < 0.32:
        return "dp"
    if c < 0.6:
        return {"b": "Fixed", "nof_bins": r.choice([1, 2, 3, 5]), "min_points_per_bin": 0, "cat_limit": r.choice([5, 10, 15])}
    if c < 0.85:
        return {"b": "Greedy", "init_nof_bins": r.choice([5, 10, 10, 20, 20, 40] if r.random() < 0.9 else [1, 2, 100]), "min_points_per_bin": r.choice([2, 3, 5] if r.random() < 0.85 else [0, 1, 10]), "discount": r.choice([0.1, 0.3, 0.6]), "cat_limit": r.choice([5, 10])}
    return {"b": "DynamicProgramming", "max_nof_bins": r.choice([2, 4, 6] if r.random() < 0.8 else [1, 3, 9, 14]), "min_points_per_bin": r.choice([2, 3, 5] if r.random() < 0.8 else [0, 1]), "discount": r.choice([0.1, 0.3]), "cat_limit": r.choice([5, 10])}


def gen_limits(r, X):
    """User-given axis limits: the full range, or a range that excludes some rows."""
    X = np.asarray(X, dtype=float)
    out = [[], []]
    for j in range(X.shape[1]):
        s = np.sort(X[:, j])
        lo, hi = float(s[0]), float(s[-1])
        c = r.random()
        n = len(s)
        if len(np.unique(s)) < 9:
            pass
        elif c < 0.3:
            lo, hi = float(s[int(n * 0.15)]), float(s[int(n * 0.9) - 1])
        elif c < 0.6:
            lo = float(0.5 * (s[int(n * 0.1)] + s[int(n * 0.1) + 1]))
            hi = float(0.5 * (s[int(n * 0.9) - 2] + s[int(n * 0.9) - 1]))
        elif c < 0.7:
            lo, hi = lo - 0.25, hi + 0.25
        if not hi - lo > 1e-3:
            lo, hi = float(s[0]), float(s[-1])
        out[0].append(lo)
        out[1].append(hi)
    return out


def gen_xs(r, lo, hi, k=None):
    k = k or r.choice([1, 2, 5, 9, 9, 33])
    pts = [lo, hi, 0.5 * (lo + hi)] + [lo + (hi - lo) * r.randrange(1, 64) / 64.0 for _ in range(8)]
    xs = [float(min(max(r.choice(pts), lo), hi)) for _ in range(k)]
    if r.random() < 0.08:       # positions outside the range are answered too
        for i in range(len(xs)):
            if r.random() < 0.4:
                xs[i] = float(r.choice([lo - 0.5 * (hi - lo), hi + 0.25 * (hi - lo), hi + 0.01 * (hi - lo)]))
    return xs


def with_form(r, op):
    """Now and then the positions come as another kind of array."""
    if r.random() < 0.12:
        lo, hi = min(op["xs"]), max(op["xs"])
        f = r.choice(["int", "ro", "view"])
        if f == "int":
            xs = [float(np.rint(x)) for x in op["xs"]]
            xs = [x for x in xs if lo <= x <= hi]
            if not xs or max(map(abs, xs)) > 1e15:
                return op
            op["xs"] = xs
        op["xf"] = f
    return op
