"""P19: temperature-dependent parameters"""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import temperature as TP

from .. import mat
from ..core import RULES, sub
from ..gen import Src, T, close, fd, need, sf, snapshot, unchanged, vals

RULES["P19"] = (
    "Cases: every parameter class with generated values, scalar or per-sample, generated scaling functions, "
    "and temperatures of any shape; oracle is the documented formula on Python floats."
)

SC = {
    "id": (None, lambda x: x),
    "x2": (lambda x: 2.0 * x, lambda x: 2.0 * x),
    "aff": (lambda x: 0.5 * x + 0.25, lambda x: 0.5 * x + 0.25),
    "sq": (lambda x: x**2, lambda x: x**2),
}
sc_st = st.sampled_from(sorted(SC))

KINDS = ("const", "shear", "shearexp", "mts", "kmn", "kmeta", "poly", "pw", "arr", "iarr")
case = fd(
    k=st.sampled_from(KINDS),
    nb=st.integers(1, 4),
    batch=st.booleans(),
    lead=st.lists(st.integers(1, 3), max_size=2),
    scalar_T=st.booleans(),
    s1=sc_st,
    s2=sc_st,
    s3=sc_st,
    s4=sc_st,
    so=sc_st,
    mu=sf("const", "poly"),
    n=st.integers(1, 5),
    cut=sf(None, 3.0, 20.0, 50.0),
    node=st.booleans(),
    v=vals((2, 2, 1)),
)


def inv(name, y):
    """The argument that the scaling function maps to y"""
    if name == "id":
        return y
    if name == "x2":
        return y / 2.0
    if name == "aff":
        return (y - 0.25) / 0.5
    return np.sqrt(y)


@sub("P19", "formulas", case, 6000, "more than one temperature or a non-identity scaling")
def formulas(c):
    src = Src(c["v"])
    nb = c["nb"]
    bs = (nb,) if c["batch"] else ()
    shape = () if (c["scalar_T"] and not c["batch"]) else tuple(c["lead"]) + (nb,)
    Tv = src.u(300.0, 1000.0, shape)
    so = SC[c["so"]]
    kw = {} if so[0] is None else {"scaling": so[0]}
    at = lambda x, ib: float(np.asarray(x)[ib]) if np.ndim(x) else float(x)

    muc = float(src.u(5e4, 1e5))
    if c["mu"] == "const":
        mu, muf = TP.ConstantParameter(T(muc)), lambda t: muc
    else:
        m1 = -float(src.u(5.0, 30.0))
        mu, muf = TP.PolynomialScaling(T([m1, muc])), lambda t: m1 * t + muc
    kb, b = 1.38e-20, 2.0e-7

    def par(lo, hi, scn, kwname, signed=False):
        """raw tensor value, effective value; adds the scaling keyword"""
        eff = src.u(lo, hi, bs)
        f = SC[scn]
        neg = False
        if scn == "sq" and np.any(eff < 0):
            f, scn = SC["x2"], "x2"
        raw = inv(scn, eff)
        if f[0] is not None:
            kw[kwname] = f[0]
        return T(raw), f[1](raw)

    k = c["k"]
    if k == "const":
        a, av = par(0.5, 100.0, c["s1"], "p_scale")
        obj, shp = TP.ConstantParameter(a, **kw), a.shape
        f = lambda t, ib: at(av, ib)
    elif k in ("shear", "shearexp"):
        a, av = par(-3.0, 3.0, c["s1"], "A_scale")
        if k == "shear":
            obj = TP.ShearModulusScaling(a, mu, **kw)
            f = lambda t, ib: at(av, ib) * muf(t)
        else:
            obj = TP.ShearModulusScalingExp(a, mu, **kw)
            f = lambda t, ib: math.exp(at(av, ib)) * muf(t)
        shp = a.shape
    elif k == "mts":
        t0, t0v = par(50.0, 300.0, c["s1"], "tau0_scale")
        g0, g0v = par(0.5, 2.0, c["s2"], "g0_scale")
        q, qv = par(0.7, 2.0, c["s3"], "q_scale")
        p, pv = par(0.5, 1.5, c["s4"], "p_scale")
        obj = TP.MTSScaling(t0, g0, q, p, T(kb), T(b), mu, **kw)
        shp = t0.shape

        def f(t, ib):
            x = kb * t / (muf(t) * b**3 * at(g0v, ib))
            return at(t0v, ib) * (1.0 - x ** (1.0 / at(qv, ib))) ** (1.0 / at(pv, ib))

    elif k == "kmn":
        A, Av = par(-15.0, -1.0, c["s1"], "A_scale")
        if c["cut"] is not None:
            kw["cutoff"] = c["cut"]
        cut = 20.0 if c["cut"] is None else c["cut"]
        obj = TP.KMRateSensitivityScaling(A, mu, T(b), T(kb), **kw)
        shp = A.shape
        f = lambda t, ib: min(max(-muf(t) * b**3 / (kb * t * at(Av, ib)), 1.0), cut)
    elif k == "kmeta":
        A, Av = par(-15.0, -0.5, c["s1"], "A_scale")
        B, Bv = par(-6.0, -1.0, c["s2"], "B_scale")
        eps0 = float(src.lu(1e4, 1e10))
        obj = TP.KMViscosityScaling(A, B, mu, T(eps0), T(b), T(kb), **kw)
        shp = B.shape

        def f(t, ib):
            n = min(max(-muf(t) * b**3 / (kb * t * at(Av, ib)), 1.0), 1000.0)
            return math.exp(at(Bv, ib)) * muf(t) * eps0 ** (-1.0 / n)

    elif k == "poly":
        co = src.n((c["n"],) + bs) * (0.01 ** np.arange(c["n"])[::-1]).reshape((-1,) + (1,) * len(bs))
        if SC[c["s1"]][0] is not None:
            kw["coef_scale_fn"] = SC[c["s1"]][0]
        cv = SC[c["s1"]][1](co)
        obj = TP.PolynomialScaling(T(co), **kw)
        shp = bs
        f = lambda t, ib: float(np.polyval(cv[:, ib] if bs else cv, t))
    elif k == "pw":
        n = c["n"] + 1
        ctrl = np.cumsum(np.concatenate([[300.0 - 5.0], src.u(30.0, 300.0, (n - 1,))]))
        vv = src.u(-10.0, 100.0, bs + (n,))
        if SC[c["s1"]][0] is not None:
            kw["values_scale_fn"] = SC[c["s1"]][0]
        ve = SC[c["s1"]][1](vv)
        Tv = src.u(float(ctrl[0]), float(ctrl[-1]), shape)
        if c["node"]:  # some temperatures exactly at control points
            w = src.p(0.5, shape)
            Tv = np.where(w, ctrl[src.i(0, n - 1, shape)], Tv)
        obj = TP.PiecewiseScaling(T(ctrl), T(vv), **kw)
        shp = bs
        f = lambda t, ib: float(np.interp(t, ctrl, ve[ib] if bs else ve))
    else:
        A, Av = par(1.0, 100.0, c["s1"], "A_scale")
        Q, Qv = par(100.0, 5000.0, c["s2"], "Q_scale")
        if k == "arr":
            obj = TP.ArrheniusScaling(A, Q, **kw)
            f = lambda t, ib: at(Av, ib) * math.exp(-at(Qv, ib) / t)
        else:
            obj = TP.InverseArrheniusScaling(A, Q, **kw)
            f = lambda t, ib: at(Av, ib) * (1.0 - math.exp(-at(Qv, ib) / t))
        shp = A.shape

    Tt = T(Tv)
    before = snapshot(Tt)
    got = obj(Tt)
    again = obj(Tt)
    unchanged(before, (Tt,), f"{k} parameter")
    if k == "const":  # does not depend on the temperature, keeps the shape of the value
        ex = so[1](np.asarray(av))
        close(got, ex, "constant parameter", rtol=1e-12, atol=0)
    else:
        ex = np.zeros(shape)
        for i in np.ndindex(*shape):
            ex[i] = so[1](f(float(np.asarray(Tv)[i]), i[-1] if (shape and c["batch"]) else 0))
        sc = float(np.max(np.abs(ex), initial=0.0))
        g = got
        if k in ("shear", "shearexp", "kmn", "kmeta") and c["mu"] == "const" and isinstance(got, torch.Tensor):
            # may not depend on the temperature: what counts is the value it broadcasts to
            need(
                torch.broadcast_shapes(tuple(got.shape), tuple(shape)) == tuple(shape),
                f"{k} parameter: shape {tuple(got.shape)} for temperatures {tuple(shape)}",
            )
            g = got.expand(shape)
        close(g, ex, f"{k} parameter", rtol=1e-10, atol=1e-12 * (sc + 1e-3))
    close(again, got, f"{k} parameter evaluated again", rtol=0, atol=0)
    need(tuple(obj.shape) == tuple(shp), f"{k}: reported shape {tuple(obj.shape)}, true {tuple(shp)}")
    if int(np.prod(shape)) > 1 or any(c[x] != "id" for x in ("s1", "s2", "so")):
        return k + (",batch" if c["batch"] else "")


@sub("P19", "gradients", case, 1500, "every differentiable parameter")
def grads(c):
    """The parameters keep receiving gradients through the formula"""
    src = Src(c["v"])
    if c["k"] not in ("const", "shear", "poly", "pw", "arr", "iarr"):
        return None
    nb = c["nb"]
    shape = tuple(c["lead"]) + (nb,)
    Tv = T(src.u(300.0, 1000.0, shape))
    k = c["k"]
    w = T(src.n(shape))
    mu = TP.ConstantParameter(T(7.0))
    if k == "const":
        p = [T(src.u(1, 5))]
        mk = lambda q: TP.ConstantParameter(q[0])
    elif k == "shear":
        p = [T(src.u(1, 5))]
        mk = lambda q: TP.ShearModulusScaling(q[0], mu)
    elif k == "poly":
        p = [T(src.n((c["n"],)) * 0.01 ** np.arange(c["n"])[::-1])]
        mk = lambda q: TP.PolynomialScaling(q[0])
    elif k == "pw":
        ctrl = T(np.linspace(299.0, 1001.0, c["n"] + 1))
        p = [T(src.u(0, 10, (c["n"] + 1,)))]
        mk = lambda q: TP.PiecewiseScaling(ctrl, q[0])
    else:
        p = [T(src.u(1, 5)), T(src.u(500.0, 3000.0))]
        mk = lambda q: (TP.ArrheniusScaling if k == "arr" else TP.InverseArrheniusScaling)(q[0], q[1])
    q = [x.clone().requires_grad_(True) for x in p]
    L = torch.sum(w * mk(q)(Tv))
    g = torch.autograd.grad(L, q, allow_unused=True)
    for i, x in enumerate(p):
        need(g[i] is not None, f"{k}: no gradient for parameter {i}")
        for j in np.ndindex(*x.shape):
            h = 1e-4 * max(1.0, abs(float(x[j])))
            v = []
            for s in (h, -h):
                y = [z.clone() for z in p]
                y[i][j] += s
                v.append(float(torch.sum(w * mk(y)(Tv))))
            mag = float(torch.sum(torch.abs(w * mk(p)(Tv)))) + 1.0
            close(float(g[i][j]), (v[0] - v[1]) / (2 * h), f"{k}: gradient of parameter {i}", rtol=1e-5, atol=1e-7 * mag / h * 1e-4 + 1e-8 * mag)
    return k
