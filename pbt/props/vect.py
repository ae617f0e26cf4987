"""P29: evaluating a batch equals evaluating each entry alone"""

import copy

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import temperature as TP

from .. import mat, mdl
from ..core import RULES, sub
from ..gen import Skip, Src, T, close, fd, lead_dims, need, sf, snapshot, unchanged, vals
from .model import state

RULES["P29"] = (
    "Cases: every component class with generated scalar and per-sample parameters at batches of any leading shape; "
    "metamorphic oracle: a component rebuilt with the parameters of one sample, evaluated on one entry."
)


def compare(what, build, evaluate, args, nb, shape, tol=None):
    """
    build() -> object with all samples, build(ib) -> object with those of one;
    evaluate(obj, *args) -> {name: tensor}; args: tensors with leading ``shape``
    """
    obj = build(None)
    before = snapshot(*args)
    full = evaluate(obj, *args)
    unchanged(before, args, what)
    again = evaluate(obj, *args)
    for k in full:
        close(again[k], full[k], f"{what}: {k} evaluated twice", rtol=0, atol=0)
    # in a different order of entries
    singles = {}
    every = list(np.ndindex(*shape))
    if len(every) > 24:
        every = [every[k] for k in np.linspace(0, len(every) - 1, 24).astype(int)]
    for i in every:
        ib = i[-1]
        if ib not in singles:
            singles[ib] = build(ib)
        one = evaluate(singles[ib], *[a[i].unsqueeze(0) for a in args])
        for k in full:
            f, o = full[k].detach().numpy(), one[k].detach().numpy()
            need(o.shape[:1] == (1,), f"{what}: {k} of a single entry has shape {o.shape}")
            need(f.shape == tuple(shape) + o.shape[1:], f"{what}: {k} has shape {f.shape} for a batch {tuple(shape)}, a single entry gives {o.shape}")
            sc = float(np.max(np.abs(f[np.isfinite(f)]), initial=0.0))
            close(f[i], o[0], f"{what}: {k} at {i} against the entry alone", rtol=1e-9, atol=1e-13 * sc + 1e-300)


def equal(what, a, b):
    for k in b:
        f = b[k].detach().numpy()
        sc = float(np.max(np.abs(f[np.isfinite(f)]), initial=0.0))
        close(a[k], f, f"{what}: {k}", rtol=1e-9, atol=1e-13 * sc + 1e-300)


def strided(a, how):
    """The same values in another memory layout"""
    if how == 0:
        b = torch.full(tuple(a.shape) + (2,), float("nan"))
        b[..., 0] = a
        return b[..., 0]
    return a.transpose(0, -1).contiguous().transpose(0, -1)


def history(what, build, evaluate, args, nb, shape, src):
    """
    One object used for a series of different evaluations, against objects used once: other values in the same
    tensors, other batch shapes, other memory layouts, parameters changed in place
    """
    regs = []

    def fresh():
        reg = []
        with mat.building(reg=reg):
            o = build(None)
        for a, b in zip(reg, regs):
            with torch.no_grad():
                a.copy_(b)
        return o, reg

    obj, regs = fresh()
    args = [a.clone() for a in args]
    evaluate(obj, *args)
    base = [a.clone() for a in args]
    for _ in range(4):
        k = int(src.i(0, 8))
        use, grad = obj, True
        if k == 0:  # other values in the same tensors
            p = torch.tensor(src.rs.permutation(shape[0]))
            j = int(src.i(0, len(args) - 1))
            with torch.no_grad():
                for q, a in enumerate(args):
                    if len(shape) > 1 or q == j:
                        a.copy_(a[p].clone())
            now = args
        elif k == 1:  # a part of the batch
            m = int(src.i(1, shape[0]))
            now = [a[:m] for a in args] if len(shape) > 1 else [a.unsqueeze(0).repeat((m + 1,) + (1,) * a.dim()) for a in args]
        elif k == 2:
            now = [strided(a, int(src.i(0, 1))) for a in args]
        elif k == 3:  # every entry the same tensor
            z = tuple(0 for _ in shape)
            now = [a[z].expand(a.shape) for a in args]
        elif k == 4 and regs:  # a parameter changes, as an optimiser changes it
            with torch.no_grad():
                j = int(src.i(0, len(regs) - 1))
                regs[j].mul_(1.0 + 0.05 * float(src.u(0.1, 1.0)))
            now = args
        elif k == 5:  # a copy of the object
            use, now = copy.deepcopy(obj), args
        elif k == 6:  # trained or only evaluated
            obj.train(bool(src.p(0.5)))
            now = args
        elif k == 7:  # without recording gradients
            grad, now = False, args
        else:
            now = [a.clone() for a in base]
        with torch.set_grad_enabled(grad):
            got = evaluate(use, *now)
        equal(f"{what} used before", got, evaluate(fresh()[0], *[a.contiguous().clone() for a in now]))


def rebuilder(fn, v, pre=None):
    """Build from the same numbers every time; returns build(ib), and runs ``pre`` on the first"""

    def build(ib):
        src = Src(v)
        with mat.building(take=ib, reg=mat.REG, leaf=mat.LEAF):
            return fn(src)

    return build


def tshape(c):
    return tuple(c["shape"])


def seeds(c, k):
    return Src({"dig": c["v"]["dig"], "seed": (c["v"]["seed"] + 7919 * k) % (2**31 - 1)})


big = lead_dims()
shapes = st.one_of(big, big, big, sf([70], [3, 40], [33, 2]), st.lists(st.integers(2, 3), min_size=2, max_size=4), st.integers(2, 4).map(lambda n: [n, n]))


def rule(c, kind):
    p = int(np.prod(c["shape"]))
    return kind if p > 1 else None


flow_case = fd(m=mat.flow_st(2), shape=shapes, v=vals((2, 2, 1)))


@sub("P29", "flow", flow_case, 500, "two or more entries")
def flow(c):
    shape, nb = tshape(c), c["shape"][-1]
    kinks = mat.Kinks()
    _, ref = mat.build_flow(c["m"], Src(c["v"]), nb, kinks)
    build = rebuilder(lambda s: mat.build_flow(c["m"], s, nb)[0], c["v"])
    s2 = seeds(c, 1)
    nh = ref.nhist
    args = [
        T(s2.u(-200.0, 200.0, shape)),
        T(s2.u(-50.0, 50.0, shape + (nh,))),
        T(s2.u(0.0, 50.0, shape)),
        T(s2.u(mat.T_LO, mat.T_HI, shape)),
        T(s2.lu(1e-7, 1e-1, shape) * s2.sign(shape)),
    ]
    n = [a.numpy() for a in args]
    for i, ib in mat.over(shape):
        ref.flow(float(n[0][i]), [float(x) for x in n[1][i]], float(n[2][i]), float(n[3][i]), float(n[4][i]), ib)
    if kinks.d < 1e-9:
        raise Skip()

    def ev(o, *a):
        r, dr = o.flow_rate(*a)
        h, dh = o.history_rate(*a)
        return {
            "flow rate": r, "its stress derivative": dr, "history rate": h, "its history derivative": dh,
            "dflow_dhist": o.dflow_dhist(*a), "dflow_derate": o.dflow_derate(*a),
            "dhist_dstress": o.dhist_dstress(*a), "dhist_derate": o.dhist_derate(*a),
        }

    compare(c["m"]["k"], build, ev, args, nb, shape)
    history(c["m"]["k"], build, ev, args, nb, shape, seeds(c, 2))
    return rule(c, c["m"]["k"])


hard_case = fd(m=mat.iso_or_kin, shape=shapes, v=vals((2, 2, 1)))


@sub("P29", "hardening", hard_case, 600, "two or more entries")
def hardening(c):
    shape, nb = tshape(c), c["shape"][-1]
    m = c["m"]
    iso = m["k"] in ("voce", "theta", "rec")
    mk = mat.build_iso if iso else mat.build_kin
    _, ref = mk(m, Src(c["v"]), nb)
    build = rebuilder(lambda s: mk(m, s, nb)[0], c["v"])
    s2 = seeds(c, 1)
    args = [
        T(s2.u(-200.0, 200.0, shape)),
        T(s2.u(-50.0, 50.0, shape + (ref.nhist,))),
        T(s2.u(0.0, 50.0, shape)),
        T(s2.lu(1e-7, 1e-1, shape) * s2.sign(shape)),
        T(s2.u(mat.T_LO, mat.T_HI, shape)),
        T(s2.lu(1e-7, 1e-1, shape) * s2.sign(shape)),
    ]

    def ev(o, s, h, t, ep, Tv, e):
        r, *_ = (o.history_rate(s, h, t, ep, Tv, e),)
        return {
            "value": o.value(h), "dvalue": o.dvalue(h), "history rate": r,
            "dstress": o.dhistory_rate_dstress(s, h, t, ep, Tv, e),
            "dhistory": o.dhistory_rate_dhistory(s, h, t, ep, Tv, e),
            "derate": o.dhistory_rate_derate(s, h, t, ep, Tv, e),
            "dtotalrate": o.dhistory_rate_dtotalrate(s, h, t, ep, Tv, e),
        }

    compare(m["k"], build, ev, args, nb, shape)
    history(m["k"], build, ev, args, nb, shape, seeds(c, 2))
    return rule(c, m["k"])


@sub("P29", "damage", fd(m=mat.dam_st, shape=shapes, v=vals((2, 2, 1))), 300, "two or more entries")
def damage(c):
    shape, nb = tshape(c), c["shape"][-1]
    build = rebuilder(lambda s: mat.build_damage(c["m"], s, nb)[0], c["v"])
    s2 = seeds(c, 1)
    args = [
        T(s2.u(-200.0, 200.0, shape)),
        T(s2.u(0.0, 0.9, shape)),
        T(s2.u(0.0, 50.0, shape)),
        T(s2.u(mat.T_LO, mat.T_HI, shape)),
        T(s2.lu(1e-7, 1e-1, shape) * s2.sign(shape)),
    ]

    def ev(o, *a):
        r, dr = o.damage_rate(*a)
        return {"rate": r, "d/dd": dr, "d/ds": o.d_damage_rate_d_s(*a), "d/de": o.d_damage_rate_d_e(*a)}

    compare(c["m"]["k"], build, ev, args, nb, shape)
    history(c["m"]["k"], build, ev, args, nb, shape, seeds(c, 2))
    return rule(c, c["m"]["k"])


model_case = fd(m=mdl.model_st, shape=shapes, v=vals((2, 2, 1)))


@sub("P29", "model", model_case, 500, "two or more entries")
def models(c):
    shape, nb = tshape(c), c["shape"][-1]
    kinks = mat.Kinks()
    _, ref = mdl.build_model(c["m"], Src(c["v"]), nb, kinks)
    build = rebuilder(lambda s: mdl.build_model(c["m"], s, nb)[0], c["v"])
    s2 = seeds(c, 1)
    y = state(s2, shape, ref.n, int(ref.dam is not None))
    e = s2.lu(1e-7, 1e-1, shape) * s2.sign(shape)
    t = s2.u(0.0, 50.0, shape)
    Tv = s2.u(mat.T_LO, mat.T_HI, shape)
    for i, ib in mat.over(shape):
        ref.rate([float(x) for x in y[i]], float(e[i]), float(t[i]), float(Tv[i]), ib)
    if kinks.d < 1e-9:
        raise Skip()

    def ev(o, yy, ee, t_, T_):
        a = o(t_, yy, ee, T_)
        return dict(zip(("rates", "Jacobian", "strain rate derivative", "temperature derivative"), a))

    compare("model", build, ev, [T(y), T(e), T(t), T(Tv)], nb, shape)
    history("model", build, ev, [T(y), T(e), T(t), T(Tv)], nb, shape, seeds(c, 2))
    return rule(c, c["m"]["flow"]["k"] + (",damage" if ref.dam is not None else ""))


KINDS = ("const", "shear", "shearexp", "mts", "kmn", "kmeta", "poly", "pw", "arr", "iarr")
par_case = fd(
    k=st.sampled_from(KINDS),
    b=st.lists(st.booleans(), min_size=4, max_size=4),
    mu=sf("c", "b", "poly"),
    n=st.integers(1, 4),
    shape=shapes,
    v=vals((2, 2, 1)),
)


def mk_temp(c, src):
    nb = c["shape"][-1]
    k = c["k"]
    pos = [0]

    def par(lo, hi, trail=(), lead=()):
        b = c["b"][pos[0]]
        pos[0] += 1
        v = src.u(lo, hi, lead + (nb,) + trail)
        if b:
            if mat.TAKE is not None:
                v = v[..., mat.TAKE : mat.TAKE + 1] if lead else v[mat.TAKE : mat.TAKE + 1]
            return mat.par_t(v)
        return mat.par_t(v[..., 0] if lead else v[0])

    mu = mat.mk_par(src, c["mu"], 5e4, 1e5, nb).obj
    kb, b = 1.38e-20, 2.0e-7
    if k == "const":
        return TP.ConstantParameter(par(1.0, 5.0))
    if k == "shear":
        return TP.ShearModulusScaling(par(-3.0, 3.0), mu)
    if k == "shearexp":
        return TP.ShearModulusScalingExp(par(-3.0, 3.0), mu)
    if k == "mts":
        return TP.MTSScaling(par(50.0, 300.0), par(0.5, 2.0), par(0.7, 2.0), par(0.5, 1.5), T(kb), T(b), mu)
    if k == "kmn":
        return TP.KMRateSensitivityScaling(par(-15.0, -1.0), mu, T(b), T(kb))
    if k == "kmeta":
        return TP.KMViscosityScaling(par(-15.0, -0.5), par(-6.0, -1.0), mu, T(1e7), T(b), T(kb))
    if k == "poly":
        s = (0.01 ** np.arange(c["n"])[::-1]).reshape(-1)
        co = par(-2.0, 2.0, lead=(c["n"],))
        with torch.no_grad():
            co.mul_(T(s).reshape((-1,) + (1,) * (co.dim() - 1)))
        return TP.PolynomialScaling(co)
    if k == "pw":
        n = c["n"] + 1
        ctrl = np.linspace(mat.T_LO - 5.0, mat.T_HI + 5.0, n)
        return TP.PiecewiseScaling(T(ctrl), par(-10.0, 100.0, trail=(n,)))
    return (TP.ArrheniusScaling if k == "arr" else TP.InverseArrheniusScaling)(par(1.0, 100.0), par(100.0, 5000.0))


@sub("P29", "temperature", par_case, 1500, "two or more entries")
def temperature(c):
    shape, nb = tshape(c), c["shape"][-1]
    build = rebuilder(lambda s: mk_temp(c, s), c["v"])
    Tv = T(seeds(c, 1).u(mat.T_LO, mat.T_HI, shape))

    def ev(o, x):
        # a parameter may be independent of the temperature: what counts is the value it broadcasts to
        return {"value": o(x).expand(x.shape)}

    compare(c["k"], build, ev, [Tv], nb, shape)
    history(c["k"], build, ev, [Tv], nb, shape, seeds(c, 2))
    return rule(c, c["k"] + (",batched" if any(c["b"]) else ""))
