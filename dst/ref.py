"""Independent executable reference: the published definitions, written directly from the
terms of the model.  No code of the library under test is used here."""
import itertools

import numpy as np

from .sim import f_terms, jac_terms


class Refuse(Exception):
    """The request has no valid answer; the library must refuse it too."""


def rows_in(X, limits, s):
    X = np.asarray(X, dtype=float)
    m = (X[:, s] >= limits[0][s]) & (X[:, s] <= limits[1][s])
    return m


# ------------------------------------------------------------------ PDP
def ice(terms, X, s, xs, der=False):
    X = np.asarray(X, dtype=float)
    out = np.empty((len(xs), len(X)))
    for t, v in enumerate(xs):
        Z = X.copy()
        Z[:, s] = v
        out[t] = jac_terms(terms, Z)[:, s] if der else f_terms(terms, Z)
    return out


def pdp(terms, X, limits, s, xs, centering, points=100, der=False):
    R = np.asarray(X, dtype=float)[rows_in(X, limits, s)]
    y = ice(terms, R, s, xs, der)
    if centering in (True, "zero_integral"):
        c = R[:, s] if points == "all" else np.linspace(limits[0][s], limits[1][s], points)
        y = y - ice(terms, R, s, c, der).mean(axis=0)[None, :]
    elif centering == "zero_start":
        y = y - ice(terms, R, s, [limits[0][s]], der)[0][None, :]
    return y


# ------------------------------------------------------------------ ALE / RHALE
def fixed_limits(x, lo, hi, nof_bins, min_points, cat_limit):
    u = np.unique(x)
    if len(u) < 2 or len(x) < (min_points or 0):
        raise Refuse("no binning")
    if len(u) <= cat_limit:
        d = np.diff(u)
        lim = np.concatenate([[u[0] - d[0] / 2], u[:-1] + d / 2, [u[-1] + d[-1] / 2]])
    else:
        lim = np.linspace(lo, hi, nof_bins + 1)
    if min_points is not None:
        for a, b in zip(lim[:-1], lim[1:]):
            if np.sum((x >= a) & (x <= b)) < min_points:
                raise Refuse("too few points in a bin")
    return lim


def bin_of(x, lim):
    k = np.searchsorted(lim, x, side="right") - 1
    return np.clip(k, 0, len(lim) - 2)


def fill(v):
    v = np.array(v, dtype=float)
    bad = np.isnan(v)
    if bad.all():
        raise Refuse("no bin has enough points")
    i = np.arange(len(v))
    v[bad] = np.interp(i[bad], i[~bad], v[~bad])
    return v


def bin_stats(x, eff, lim):
    k = bin_of(x, lim)
    K = len(lim) - 1
    mean, var, cnt = np.full(K, np.nan), np.full(K, np.nan), np.zeros(K, dtype=int)
    for b in range(K):
        e = eff[k == b]
        cnt[b] = len(e)
        if len(e) > 0:
            mean[b] = e.mean()
        if len(e) > 1:
            var[b] = ((e - e.mean()) ** 2).mean()
    return fill(mean), fill(var), cnt


def accumulate(xs, lim, h):
    out = np.zeros(len(xs))
    for i, x in enumerate(xs):
        t = 0.0
        for b in range(len(lim) - 1):
            t += h[b] * min(max(x - lim[b], 0.0), lim[b + 1] - lim[b])
        out[i] = t
    return out


def ale_local(terms, R, s, lim):
    k = bin_of(R[:, s], lim)
    A, B = R.copy(), R.copy()
    A[:, s], B[:, s] = lim[k + 1], lim[k]
    return (f_terms(terms, A) - f_terms(terms, B)) / (lim[k + 1] - lim[k])


def ale(terms, X, limits, s, lim, xs, centering, effects=None):
    """(mean curve, accumulated std) given bin limits; effects given => RHALE."""
    m = rows_in(X, limits, s)
    R = np.asarray(X, dtype=float)[m]
    e = ale_local(terms, R, s, lim) if effects is None else np.asarray(effects, dtype=float)[m][:, s]
    h, v, _ = bin_stats(R[:, s], e, lim)
    y = accumulate(xs, lim, h)
    if centering in (True, "zero_integral"):
        g = np.linspace(limits[0][s], limits[1][s], 100)
        y = y - accumulate(0.5 * (g[:-1] + g[1:]), lim, h).mean()
    elif centering == "zero_start":
        y = y - accumulate([limits[0][s]], lim, h)[0]
    return y, accumulate(xs, lim, np.sqrt(v))


# ------------------------------------------------------------------ SHAP
def shapley(terms, R):
    R = np.asarray(R, dtype=float)
    N, D = R.shape
    v = {}
    A = np.repeat(R, N, axis=0)
    B = np.tile(R, (N, 1))
    for k in range(D + 1):
        for S in itertools.combinations(range(D), k):
            Z = B.copy()
            Z[:, list(S)] = A[:, list(S)]
            v[S] = f_terms(terms, Z).reshape(N, N).mean(axis=1)
    from math import factorial as F
    phi = np.zeros((N, D))
    for S in v:
        for j in range(D):
            if j not in S:
                w = F(len(S)) * F(D - len(S) - 1) / F(D)
                phi[:, j] += w * (v[tuple(sorted(S + (j,)))] - v[S])
    return phi


def spline(x, y):
    from scipy.interpolate import UnivariateSpline
    return UnivariateSpline(x, y)


def shap_dp(terms, X, limits, s, xs, centering, points=100, noise=0.0, phi=None):
    """(mean spline at xs, std spline at xs)."""
    R = np.asarray(X, dtype=float)[rows_in(X, limits, s)]
    phi = shapley(terms, R) if phi is None else phi
    o = np.argsort(R[:, s], kind="stable")
    x, y = R[o, s], phi[o, s]
    if noise:
        y = y + noise * (np.abs(y).max() + 1e-3) * np.cos(np.arange(len(y)) * 1.7)
    f = spline(x, y)
    g = spline(x, np.abs(y - f(x)))
    xs = np.asarray(xs, dtype=float)
    m = f(xs)
    if centering in (True, "zero_integral"):
        t = x if points == "all" else np.linspace(x[0], x[-1], points)
        w = f(t)
        m = m - np.sum(0.5 * (w[1:] + w[:-1]) * np.diff(t)) / (x[-1] - x[0])
    elif centering == "zero_start":
        m = m - f(x[0])
    return m, g(xs)
