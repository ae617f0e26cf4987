"""Generated full constitutive models, scalar references and load histories"""

import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import models as M

from . import mat
from .gen import T, fd, often, sf

model_st = fd(
    flow=mat.flow_st(1),
    dam=st.one_of(st.none(), mat.dam_st, mat.dam_st),
    E=sf("c", "b", "poly", "pw"),
)

# no dependence of the flow on the strain rate: any control is well posed
plain_flow = st.one_of(
    mat.leaf_st,
    mat.leaf_st,
    fd(k=st.just("sup"), m=st.lists(mat.leaf_st, min_size=1, max_size=2)),
)
plain_st = fd(flow=plain_flow, dam=st.one_of(st.none(), mat.dam_st), E=sf("c", "b", "poly", "pw"))


class RefModel:
    """Scalar model: rate(y, e, t, T, ib) with y = [stress, history..., (damage)]"""

    def __init__(self, E, flow, dam):
        self.E, self.flow, self.dam = E, flow, dam
        self.n = 1 + flow.nhist + (dam is not None)

    def rate(self, y, e, t, Tv, ib):
        d = y[-1] if self.dam is not None else 0.0
        h = list(y[1 : 1 + self.flow.nhist])
        s = y[0] / (1.0 - d)
        r = [(1.0 - d) * self.E(Tv, ib) * (e - self.flow.flow(s, h, t, Tv, e, ib))]
        r += list(self.flow.hist(s, h, t, Tv, e, ib))
        if self.dam is not None:
            r.append(self.dam(s, d, t, Tv, e, ib))
        return np.array(r)

    def stress_driven(self, y, sr, s, t, Tv, ib):
        """Rate of y = [strain, history..., (damage)] when the stress is s with rate sr"""
        y = [s] + list(y[1:])
        d = y[-1] if self.dam is not None else 0.0
        base = sr / ((1.0 - d) * self.E(Tv, ib))
        h = list(y[1 : 1 + self.flow.nhist])
        g = lambda e: e - base - self.flow.flow(s / (1.0 - d), h, t, Tv, e, ib)
        e = base + self.flow.flow(s / (1.0 - d), h, t, Tv, 0.0, ib)
        for _ in range(100):  # secant steps, exact when the flow does not depend on the rate
            ge = g(e)
            if abs(ge) <= 1e-14 * (abs(e) + 1e-300):
                break
            dl = 1e-6 * abs(e) + 1e-14
            e2 = e - ge * dl / (g(e + dl) - ge)
            if e2 == e:
                break
            e = e2
        r = self.rate(y, e, t, Tv, ib)
        r[0] = e
        return r


def build_model(c, src, nb, kinks=None, slow=1.0):
    E = mat.mk_par(src, c["E"], 5e4, 2e5, nb)
    flow, rf = mat.build_flow(c["flow"], src, nb, kinks)
    if c["dam"] is None:
        return M.InelasticModel(E.obj, flow), RefModel(E, rf, None)
    dam, rd = mat.build_damage(c["dam"], src, nb, slow)
    if c["dam"]["k"] == "none":
        return M.DamagedInelasticModel(E.obj, flow), RefModel(E, rf, rd)
    return M.DamagedInelasticModel(E.obj, flow, dmodel=dam), RefModel(E, rf, rd)


load_st = fd(
    nt=often(st.integers(2, 12), 25),
    path=sf("mono", "cyclic", "hold", "random"),
    temp=sf("const", "ramp", "random", "loop"),
    start0=sf(True, True, False, "far"),
    same=st.booleans(),
    still=sf(False, False, True),
)


def load(c, src, nb, de=8e-4, rlo=1e-6, rhi=1e-2):
    """(times, strains, temperatures), each (nt, nb)"""
    nt = c["nt"]
    w = src.u(0.2, 1.0, (nt - 1, nb)) * de
    sg = src.sign((1, nb))
    if c["path"] == "cyclic":
        k = max(1, nt // 3)
        ph = (np.arange(nt - 1) // k) % 2
        sg = sg * np.where(ph == 0, 1.0, -1.0)[:, None]
    elif c["path"] == "random":
        sg = src.sign((nt - 1, nb))
    rate = src.lu(rlo, rhi, (1 if c["path"] != "random" else nt - 1, nb))
    dt = w / rate
    de_ = w * sg
    if c["path"] == "hold":
        de_ = np.where((np.arange(nt - 1) >= max(1, nt // 2))[:, None], 0.0, de_)
    if c["same"]:
        dt = dt[:, :1] + np.zeros((1, nb))
    still = np.zeros((nt - 1, nb), dtype=bool)
    if c["still"]:  # some samples repeat some points
        still = src.p(0.25, (nt - 1, nb))
        still[-1] = still[-1] & ~still[:-1].all(axis=0)
        if nt == 2:
            still[:] = False
        dt, de_ = np.where(still, 0.0, dt), np.where(still, 0.0, de_)
    z = np.zeros((1, nb))
    t = np.vstack([z, np.cumsum(dt, axis=0)]) + {True: 0.0, False: 3.0, "far": np.linspace(10.0, 2000.0, nb)}[c["start0"]]
    e = np.vstack([z, np.cumsum(de_, axis=0)])
    if c["temp"] == "const":
        Tv = src.u(mat.T_LO, mat.T_HI, (1, nb)) + np.zeros((nt, nb))
    elif c["temp"] == "ramp":
        a, b = src.u(mat.T_LO, mat.T_HI, (2, 1, nb))
        Tv = a + (b - a) * (t - t[0]) / (t[-1] - t[0])
    else:
        Tv = src.u(mat.T_LO, mat.T_HI, (nt, nb))
        if c["temp"] == "loop":
            Tv[-1] = Tv[0]
        for k in range(nt - 1):
            Tv[k + 1] = np.where(still[k], Tv[k], Tv[k + 1])
    return t, e, Tv


class Quiet:
    """Collects warnings of a solve"""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.w = self.cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    @property
    def failed(self):
        return any("did not succeed" in str(x.message) for x in self.w)


def backward_rates(t, x):
    dt = np.diff(t, axis=0)
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.where(dt == 0, 0.0, np.diff(x, axis=0) / dt)
    return np.vstack([np.zeros((1, x.shape[1])), r])
