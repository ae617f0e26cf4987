"""P21: time series interpolation"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import utility as U

from ..core import RULES, sub
from ..gen import Src, T, close, fd, laid, need, same_shape, sf, snapshot, unchanged, vals

RULES["P21"] = (
    "Cases: uneven time grids per sample, values with plateaus and jumps, queries inside, at nodes and at both "
    "ends, with extra leading dimensions; oracle is numpy's scalar piecewise-linear interpolation per sample."
)


def grid(c, src, nt, nb, kind):
    """(nt, nb) increasing times"""
    if kind == "sample":
        dt = src.u(0.05, 2.0, (nt - 1, nb))
    elif kind == "uneven":
        dt = src.lu(1e-3, 1e3, (nt - 1, 1)) + np.zeros((1, nb))
    else:
        dt = np.full((nt - 1, nb), c["dt"])
    t = np.zeros((nt, nb))
    t[1:] = np.cumsum(dt, axis=0)
    return t + c["t0"]


def queries(src, t, n, mode):
    """(n, nb) queries inside the range of every sample"""
    nt, nb = t.shape
    q = np.zeros((n, nb))
    for i in range(n):
        for b in range(nb):
            k = src.i(0, nt - 1)
            w = src.i(0, 5)
            lo, hi = t[min(k, nt - 2), b], t[min(k, nt - 2) + 1, b]
            if mode == "end" or w == 0:
                q[i, b] = t[-1, b]
            elif mode == "start" or w == 1:
                q[i, b] = t[0, b]
            elif mode == "node" or w == 2:
                q[i, b] = t[k, b]
            else:
                q[i, b] = min(max(lo + (hi - lo) * src.rs.random_sample(), lo), hi)
    return q


def expect(t, v, q):
    out = np.zeros(q.shape)
    for i in np.ndindex(*q.shape):
        b = i[-1]
        out[i] = np.interp(q[i], t[:, b], v[:, b])
    return out


def tol(t, v):
    with np.errstate(divide="ignore", invalid="ignore"):
        s = np.diff(v, axis=0) / np.diff(t, axis=0)
    s = s[np.isfinite(s)]
    return 1e-13 * (np.max(np.abs(v)) + 10 * np.max(np.abs(s), initial=0.0) * np.max(np.abs(t))) + 1e-300


def values(c, src, nt, nb):
    v = src.n((nt, nb)) * c["mag"]
    if c["vals"] == "plateau":
        v = np.round(v / c["mag"]) * c["mag"]
    elif c["vals"] == "const":
        v = np.zeros((nt, nb)) + v[:1]
    elif c["vals"] == "same":  # same data in every sample
        v = v[:, :1] + np.zeros((1, nb))
    return v


base = dict(
    nt=st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(2, 12), sf(40, 130, 300)),
    nb=st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), sf(17, 70)),
    t0=sf(0.0, 0.0, 3.5, -20.0, 1e5, 1e7),
    dt=sf(0.1, 1.0, 30.0),
    mag=sf(1e-4, 1.0, 1e5),
    vals=sf("any", "any", "plateau", "const", "same"),
    mode=sf("mix", "mix", "node", "start", "end"),
    grid=sf("sample", "sample", "uneven", "uniform"),
    v=vals((2, 2, 1)),
)

arb = fd(**base, lead=st.lists(st.integers(1, 4), max_size=3), repeat=sf("", "", "some", "start"))


@sub("P21", "any_batch", arb, 4000, "more than one sample or leading dimension, or repeated times")
def any_batch(c):
    src = Src(c["v"])
    nt, nb = c["nt"], c["nb"]
    t = grid(c, src, nt, nb, c["grid"])
    v = values(c, src, nt, nb)
    if c["repeat"]:
        # repeat the time of one or several nodes
        k = src.p(0.3, (nt - 1,))
        if c["repeat"] == "start":
            k[0] = True
        if k.all() and nt > 2:
            k[-1] = False
        if not k.all():
            dt = np.diff(t, axis=0) * np.where(k, 0.0, 1.0)[:, None]
            t = t[:1] + np.concatenate([np.zeros((1, nb)), np.cumsum(dt, axis=0)])
    tt, vt = laid(t, c["v"]["seed"]), laid(v, c["v"]["seed"] // 7)
    f = U.ArbitraryBatchTimeSeriesInterpolator(tt, vt)
    n = int(np.prod(c["lead"])) if c["lead"] else 1
    q = queries(src, t, n, c["mode"]).reshape(tuple(c["lead"]) + (nb,))
    qt = laid(q, c["v"]["seed"] // 49)
    before = snapshot(tt, vt, qt)
    got = f(qt)
    same_shape(got, q.shape, "interpolated values")
    unchanged(before, (tt, vt, qt), "interpolation")
    atol = tol(t, v)
    ex = expect(t, v, q)
    g = got.numpy()
    for i in np.ndindex(*q.shape):
        b = i[-1]
        at = np.nonzero(t[:, b] == q[i])[0]
        if len(at) > 1:
            need(
                min(abs(g[i] - v[at[0], b]), abs(g[i] - v[at[-1], b])) <= atol,
                f"at the repeated time {q[i]} got {g[i]}, the values there are {v[at, b]}",
            )
        else:
            need(
                abs(g[i] - ex[i]) <= atol,
                f"at {i}: t={q[i]!r} got {g[i]!r}, expected {ex[i]!r} from times {t[:, b]} values {v[:, b]}",
            )
    close(f(qt), got, "interpolating again", rtol=0, atol=0)
    # the same interpolator asked for one row, for the rows in another order in the same tensor, and in another shape
    if n * nb * c["nt"] < 3000:
        rows = got.reshape(-1, nb)
        j = int(src.i(0, n - 1))
        close(f(qt.reshape(-1, nb)[j]), rows[j], f"row {j} alone", rtol=0, atol=atol)
        q2 = qt.reshape(-1, nb).clone()
        p = torch.tensor(src.rs.permutation(n))
        with torch.no_grad():
            q2.copy_(q2[p].clone())
        close(f(q2), rows[p], "rows in another order", rtol=0, atol=atol)
        q2.copy_(qt.reshape(-1, nb))
        close(f(q2), rows, "the same tensor with its first values", rtol=0, atol=atol)
        close(f(q2[:, None]), rows[:, None], "another shape", rtol=0, atol=atol)
    # at all the nodes at once
    if not c["repeat"]:
        close(f(tt), v, "values at the nodes", rtol=1e-12, atol=atol)
    if nb > 1 or c["lead"] or c["repeat"]:
        return c["grid"] + (f",lead{len(c['lead'])}" if c["lead"] else "") + (",repeat" if c["repeat"] else "")


@sub("P21", "one_time_per_sample", fd(**base), 3000, "more than one sample")
def per_sample(c):
    """The class and the function that take one time for each sample"""
    src = Src(c["v"])
    nt, nb = c["nt"], c["nb"]
    t = grid(c, src, nt, nb, c["grid"])
    v = values(c, src, nt, nb)
    tt, vt = laid(t, c["v"]["seed"]), laid(v, c["v"]["seed"] // 7)
    f = U.BatchTimeSeriesInterpolator(tt, vt)
    q = queries(src, t, 4, c["mode"])
    ex = expect(t, v, q)
    atol = tol(t, v)
    for i in range(4):
        qt = T(q[i])
        before = snapshot(tt, vt, qt)
        close(f(qt), ex[i], "interpolator", rtol=1e-12, atol=atol)
        close(U.timeseries_interpolate_batch_times(tt, vt, qt), ex[i], "function", rtol=1e-12, atol=atol)
        unchanged(before, (tt, vt, qt), "interpolation")
    if nb > 1:
        return c["grid"]


@sub("P21", "single_times", fd(**base), 2000, "more than one sample")
def single_times(c):
    src = Src(c["v"])
    nt, nb = c["nt"], c["nb"]
    t = grid(c, src, nt, 1, c["grid"])
    v = values(c, src, nt, nb)
    tt, vt = T(t[:, 0]), T(v)
    q = queries(src, t, 4, c["mode"])[:, 0]
    for i in range(4):
        ex = np.array([np.interp(q[i], t[:, 0], v[:, b]) for b in range(nb)])
        qt = T(q[i])
        before = snapshot(tt, vt, qt)
        got = U.timeseries_interpolate_single_times(tt, vt, qt)
        unchanged(before, (tt, vt, qt), "interpolation")
        close(got, ex, "interpolated values", rtol=1e-12, atol=tol(t, v))
    if nb > 1:
        return c["grid"]


@sub("P21", "structured", fd(**base), 2000, "more than one sample")
def structured(c):
    """The interpolator for samples whose time series have the same structure"""
    src = Src(c["v"])
    nt, nb = c["nt"], c["nb"]
    b0 = grid(c, src, nt, 1, c["grid"])
    scale = src.lu(0.1, 10.0, (nb,))
    shift = src.u(-1.0, 1.0, (nb,))
    t = b0 * scale + shift
    v = values(c, src, nt, nb)
    tt, vt = laid(t, c["v"]["seed"]), laid(v, c["v"]["seed"] // 7)
    f = U.CheaterBatchTimeSeriesInterpolator(tt, vt)
    ex, qs = [], []
    for _ in range(4):
        k = src.i(0, nt - 1)
        if c["mode"] == "start":
            k = 0
        elif c["mode"] == "end":
            k = nt - 1
        if c["mode"] != "mix" or src.i(0, 2) == 0:
            q = t[k]
        else:
            k = min(k, nt - 2)
            w = src.rs.uniform(0.05, 0.95)
            q = t[k] + w * (t[k + 1] - t[k])
        qt = laid(q, c["v"]["seed"] // 49)
        before = snapshot(tt, vt, qt)
        close(f(qt), expect(t, v, q), "interpolated values", rtol=1e-12, atol=tol(t, v))
        unchanged(before, (tt, vt, qt), "interpolation")
    if nb > 1:
        return c["grid"]
