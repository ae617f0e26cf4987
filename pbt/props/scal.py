"""P20: scaling functions and bound helpers"""

import re

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import optimize as O
from pyoptmat import scaling as S

from ..core import RULES, sub
from ..gen import Src, T, close, fd, need, sf, snapshot, unchanged, vals

RULES["P20"] = "Cases: generated bounds (scalar or per entry), scales and arguments in and out of range."

case = fd(
    k=sf("simple", "bounded", "log"),
    clamp=sf(None, True, False),
    shape=st.lists(st.integers(1, 4), max_size=2),
    vec=st.booleans(),
    mag=sf(1e-8, 1.0, 1e6),
    wide=st.booleans(),
    v=vals((2, 2, 1)),
)


def bounds(c, src, log):
    bs = tuple(c["shape"][-1:]) if (c["vec"] and c["shape"]) else ()
    if log:
        l = src.lu(1e-3, 1.0, bs) * c["mag"]
        u = l * src.lu(1.5, 1e18 if c["wide"] else 1e6, bs)
    else:
        l = src.u(-2.0, 2.0, bs) * c["mag"]
        u = l + src.u(0.1, 3.0, bs) * c["mag"]
    return l, u


def make(c, src):
    if c["k"] == "simple":
        bs = tuple(c["shape"][-1:]) if (c["vec"] and c["shape"]) else ()
        s = src.u(0.1, 3.0, bs) * c["mag"]
        return S.SimpleScalingFunction(T(s)), s, None, lambda x: x * s
    l, u = bounds(c, src, c["k"] == "log")
    kw = {} if c["clamp"] is None else {"clamp": c["clamp"]}
    cl = (lambda x: np.clip(x, 0, 1)) if c["clamp"] in (None, True) else (lambda x: x)
    if c["k"] == "bounded":
        return S.BoundedScalingFunction(T(l), T(u), **kw), l, u, lambda x: l + (u - l) * cl(x)
    return (
        S.LogBoundedScalingFunction(T(l), T(u), **kw),
        l,
        u,
        lambda x: np.exp(np.log(l) + (np.log(u) - np.log(l)) * cl(x)),
    )


@sub("P20", "scaling", case, 5000, "every case with an argument strictly inside the range")
def scaling(c):
    src = Src(c["v"])
    f, l, u, ref = make(c, src)
    shape = tuple(c["shape"])
    x = src.u(-0.5, 1.5, shape)
    xt = T(x)
    before = snapshot(xt)
    y = f.scale(xt)
    ex = ref(x)
    tol = dict(rtol=1e-9, atol=1e-13 * c["mag"])
    close(y, ex, "scaled value", **tol)
    close(f(xt), y, "calling the scaling function", rtol=0, atol=0)
    unchanged(before, (xt,), "scaling function")
    # round trips on the range
    xi = np.clip(x, 0.0, 1.0) if c["k"] != "simple" else x
    close(f.unscale(f.scale(T(xi))), xi, "unscale(scale(x))", rtol=1e-6, atol=1e-7)
    yi = ref(xi)
    close(f.scale(f.unscale(T(yi))), yi, "scale(unscale(y))", rtol=1e-8, atol=1e-12 * c["mag"] + 1e-15)
    # unscale does not clamp
    if c["k"] == "bounded":
        yo = l + (u - l) * x
        close(f.unscale(T(yo)), x, "unscale outside the bounds", rtol=1e-6, atol=1e-7)
    if c["k"] != "simple":
        close(f.scale(torch.zeros(shape)), l + np.zeros(shape), "scale(0) is the lower bound", **tol)
        close(f.scale(torch.ones(shape)), u + np.zeros(shape), "scale(1) is the upper bound", rtol=1e-9, atol=1e-12 * c["mag"])
        if c["clamp"] in (None, True):
            far = f.scale(T(src.n(shape) * 10.0)).numpy()
            e = 1e-9 * (np.abs(u) + np.abs(l))
            need(bool(np.all(far >= l - e) and np.all(far <= u + e)), f"clamped scaling leaves [{l}, {u}]: {far}")
    x2 = T(x + 0.05)
    e = T(1e-12 * (np.abs(ex) + c["mag"] * 1e-3))
    need(bool(torch.all(f.scale(x2) >= y - e)), "scaling is not increasing")
    if bool(np.any((x > 0) & (x < 1))):
        return c["k"] + (",clamped" if c["clamp"] in (None, True) else "")


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def stat_numbers(msg, label, pre=""):
    m = re.search(r"\t" + pre + label + r":\n(.*?)(?=\n\t[a-z]+:|\n\s*and|\Z)", msg, re.S)
    need(m is not None, f"no '{label}' entry in {msg!r}")
    txt = re.sub(r"tensor|dtype=[\w.]+|grad_fn=<\w+>|device=.*?[,)]", "", m.group(1))
    return np.array([float(z) for z in re.findall(NUM, txt)])


@sub("P20", "statistics", case, 1500, "every case")
def statistics(c):
    """Location and scale of a normal unit variable, in physical parameters"""
    src = Src(c["v"])
    f, l, u, ref = make(c, src)
    c_shape = tuple(c["shape"])
    loc = src.u(0.1, 0.9, c_shape)
    sd = src.u(0.01, 0.3, c_shape)
    if c["k"] in ("simple", "bounded"):
        close(f.scale_mean(T(loc), T(sd)), ref(loc), "mean", rtol=1e-9, atol=1e-13 * c["mag"])
    msg = f.scale_stat(T(loc), T(sd))
    if c["k"] == "simple":
        a, b = loc * l, sd * l
    elif c["k"] == "bounded":
        a, b = ref(loc), sd * (u - l)
    else:
        w = np.log(u) - np.log(l)
        a, b = np.log(l) + w * loc, w * sd
    a, b = a + np.zeros(c_shape), b + np.zeros(c_shape)
    # printed with 4 decimals (scaled by the largest when in scientific notation)
    for lab, e in (("loc", a), ("scale", b)):
        got = stat_numbers(msg, lab)
        need(got.size == e.size, f"{lab}: {got.size} numbers for {e.size} parameters in {msg!r}")
        close(got, e.ravel(), f"reported {lab}", rtol=2e-3, atol=2e-4 * (1.0 if np.max(np.abs(e)) < 1e3 else np.max(np.abs(e))) + 1e-9)
    if c["k"] not in ("simple", "bounded"):
        # the mean of the logarithm, the median or the mean of the log-normal distribution
        m = f.scale_mean(T(loc), T(sd)).numpy()
        need(m.shape == np.shape(a), f"mean of shape {m.shape}, expected {np.shape(a)}")
        readings = [a, np.exp(a), np.exp(a + b**2 / 2)]
        need(any(np.allclose(m, r, rtol=1e-8, atol=1e-10) for r in readings), f"mean {m} is none of {readings}")
        got = stat_numbers(msg, "mean values", "and ")
        e = readings[2]
        need(got.size == e.size, f"mean values: {got.size} numbers for {e.size} parameters in {msg!r}")
        close(got, e.ravel(), "reported mean values", rtol=2e-3, atol=2e-4 * (1.0 if np.max(np.abs(e)) < 1e3 else np.max(np.abs(e))) + 1e-9)
    return c["k"]


hcase = fd(
    k=sf("factor", "bounded", "clamp", "scale", "logscale"),
    shape=st.lists(st.integers(1, 4), max_size=2),
    vec=st.booleans(),
    minb=sf(None, "low", "in"),
    mag=sf(1.0, 1e3),
    v=vals(),
)


@sub("P20", "helpers", hcase, 3000, "some argument inside and some outside of the bounds")
def helpers(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    bs = shape[-1:] if (c["vec"] and shape) else ()
    k = c["k"]
    mb = None
    if k == "factor":
        mean, fac = src.u(0.5, 5.0, bs) * c["mag"], src.u(0.0, 0.99, bs)
        lo, hi = mean * (1 - fac), mean * (1 + fac)
    else:
        lo = src.u(-2.0, 2.0, bs) * c["mag"]
        hi = lo + src.u(0.1, 3.0, bs) * c["mag"]
    if k in ("factor", "bounded"):
        kw = {}
        if c["minb"]:
            mb = lo - 1.0 if c["minb"] == "low" else 0.5 * (lo + hi)
            kw = {"min_bound": T(mb)}
        f = O.bound_factor(T(mean), T(fac), **kw) if k == "factor" else O.bounded_scale_function((T(lo), T(hi)), **kw)
        x = src.u(-0.5, 1.5, shape)
        ex = np.clip(x, 0, 1) * (hi - lo) + lo
        if mb is not None:
            ex = np.maximum(ex, mb)
        inside = (x > 0) & (x < 1)
    elif k == "clamp":
        f = O.clamp_scale_function((T(lo), T(hi)))
        x = src.u(-6.0, 6.0, shape) * c["mag"]
        ex = np.clip(x, lo, hi)
        inside = (x > lo) & (x < hi)
    else:
        s = src.u(0.5, 4.0, bs)
        x = src.u(-8.0, 8.0, shape)
        z = x / s
        if k == "scale":
            f = O.bound_and_scale(T(s), (T(lo / c["mag"]), T(hi / c["mag"])))
        else:
            lo, hi = np.abs(lo), np.abs(lo) + (hi - lo)
            f = O.log_bound_and_scale(T(s), (T(lo / c["mag"]), T(hi / c["mag"])))
            z = np.exp(z)
        ex = np.clip(z, lo / c["mag"], hi / c["mag"])
        inside = (z > lo / c["mag"]) & (z < hi / c["mag"])
    xt = T(x)
    before = snapshot(xt)
    close(f(xt), ex + np.zeros(shape), k, rtol=1e-12, atol=1e-12)
    unchanged(before, (xt,), k)
    if k == "bounded" and mb is None:
        g = S.BoundedScalingFunction(T(lo), T(hi))
        close(f(xt), g.scale(xt), "helper and scaling function", rtol=1e-12, atol=1e-12)
    if np.any(inside) and np.any(~inside):
        return k
