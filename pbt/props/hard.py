"""P13 derivatives, P14 equations and equivalences of the hardening models"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import hardening as H
from pyoptmat import temperature as TP

from .. import mat
from ..core import RULES, Skip, sub
from ..gen import Src, T, close, fd, grad_sum, lead_dims, need, same_shape, sf, snapshot, unchanged, vals

RULES["P13"] = "Cases: every hardening model (and superpositions) with generated parameters at random states."
RULES["P14"] = "Cases: models against scalar references, and pairs of equivalent models, at random states."


def state(src, shape, nh):
    s = T(src.u(-300.0, 300.0, shape) * mat.UNIT)
    h = mat.offzero(T(src.u(-80.0, 120.0, tuple(shape) + (nh,)) * mat.UNIT))
    t = T(src.u(0.0, 100.0, shape))
    ep = T(src.lu(1e-6, 1.0, shape) * src.sign(shape))
    Tv = T(src.u(mat.T_LO, mat.T_HI, shape))
    e = T(src.lu(1e-6, 1.0, shape) * src.sign(shape))
    z = T(src.p(0.08, shape).astype(float)).bool()
    return s, h, t, torch.where(z, 0.0, ep), Tv, e


def build(sp, src, nb):
    if sp["k"] in ("voce", "theta", "rec"):
        return mat.build_iso(sp, src, nb)
    return mat.build_kin(sp, src, nb)


base = dict(m=mat.iso_or_kin, shape=lead_dims(), v=vals())
case = fd(**base)
wide = fd(w=mat.range_st, **base)


@sub("P13", "derivs", wide, 4000, "model with internal variables and a nonzero inelastic rate in the batch")
@mat.ranged
def hard_derivs(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = build(c["m"], src, shape[-1])
    nh = ref.nhist
    need(obj.nhist == nh, f"nhist {obj.nhist}, expected {nh}")
    s, h, t, ep, Tv, e = state(src, shape, nh)
    # the recovery terms have a kink of their derivative only at zero: keep off
    h = torch.where(torch.abs(h) < 1e-6, 3.0, h)
    if c["m"]["k"] == "rec":
        d = obj.R0(Tv) - h[..., 0]
        if bool((torch.abs(d) < 1e-6).any()):
            raise Skip()
    ep = torch.where(ep == 0, 1e-3, ep)
    for x in (s, h, ep, e):
        x.requires_grad_(True)
    before = snapshot(s, h, t, ep, Tv, e)
    hr = obj.history_rate(s, h, t, ep, Tv, e)
    v = obj.value(h)
    dv = obj.dvalue(h)
    ds = obj.dhistory_rate_dstress(s, h, t, ep, Tv, e)
    dh = obj.dhistory_rate_dhistory(s, h, t, ep, Tv, e)
    dr = obj.dhistory_rate_derate(s, h, t, ep, Tv, e)
    dt = obj.dhistory_rate_dtotalrate(s, h, t, ep, Tv, e)
    unchanged(before, (s, h, t, ep, Tv, e), "hardening model")
    same_shape(v, shape, "value")
    same_shape(hr, shape + (nh,), "history rate")
    same_shape(dv, shape + (nh,), "derivative of the value")
    same_shape(ds, shape + (nh,), "derivative with respect to stress")
    same_shape(dh, shape + (nh, nh), "derivative with respect to history")
    same_shape(dr, shape + (nh, 1), "derivative with respect to inelastic rate")
    same_shape(dt, shape + (nh,), "derivative with respect to total rate")
    if nh == 0:
        return None
    tol = dict(rtol=1e-9, atol=1e-12 * (1.0 + float(hr.detach().abs().max())))
    close(dv, grad_sum(v, h), "derivative of the value", **tol)
    J = lambda x: [grad_sum(hr[..., i], x) for i in range(nh)]
    close(ds, torch.stack(J(s), -1), "derivative with respect to stress", **tol)
    close(dh, torch.stack(J(h), -2), "derivative with respect to history", **tol)
    close(dr[..., 0], torch.stack(J(ep), -1), "derivative with respect to inelastic rate", **tol)
    close(dt, torch.stack(J(e), -1), "derivative with respect to total rate", **tol)
    return c["m"]["k"]


@sub("P13", "derivs_fd", wide, 1500, "model with internal variables; differences of the scalar reference")
@mat.ranged
def hard_derivs_fd(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = build(c["m"], src, shape[-1])
    nh = ref.nhist
    s, h, t, ep, Tv, e = state(src, shape, nh)
    h = torch.where(torch.abs(h) < mat.UNIT, 3.0 * mat.UNIT, h)
    ep = torch.where(ep == 0, 1e-3, ep)
    if c["m"]["k"] == "rec" and bool((torch.abs(obj.R0(Tv) - h[..., 0]) < mat.UNIT).any()):
        raise Skip()
    dh = obj.dhistory_rate_dhistory(s, h, t, ep, Tv, e)
    dr = obj.dhistory_rate_derate(s, h, t, ep, Tv, e)
    dv = obj.dvalue(h)
    if nh == 0:
        return None
    for i, ib in list(mat.over(shape))[:4]:
        a = [float(x) for x in h[i]]
        f = lambda hh, p: np.array(ref.rate(float(s[i]), hh, float(t[i]), p, float(Tv[i]), float(e[i]), ib))
        for j in range(nh):
            st_ = 1e-4 * max(1.0, abs(a[j]))
            up, dn = list(a), list(a)
            up[j] += st_
            dn[j] -= st_
            p0 = float(ep[i])
            ex = (f(up, p0) - f(dn, p0)) / (2 * st_)
            noise = 1e-12 * (1 + np.max(np.abs(f(a, p0)))) / st_
            close(dh[i][:, j], ex, f"derivative with respect to history {j}", rtol=1e-5, atol=noise + 1e-9)
            close(float(dv[i][j]), (ref.value(up) - ref.value(dn)) / (2 * st_), "derivative of value", rtol=1e-6, atol=1e-9)
        p0 = float(ep[i])
        st_ = 1e-4 * abs(p0)
        ex = (f(a, p0 + st_) - f(a, p0 - st_)) / (2 * st_)
        noise = 1e-12 * (1e-8 + np.max(np.abs(f(a, p0)))) / st_
        close(dr[i][:, 0], ex, "derivative with respect to the inelastic rate", rtol=1e-5, atol=noise + 1e-7)
    return c["m"]["k"]


@sub("P13", "at_rest", case, 800, "every model with internal variables")
def hard_rest(c):
    """Everything is finite at zero history and zero inelastic rate"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = build(c["m"], src, shape[-1])
    s, h, t, ep, Tv, e = state(src, shape, ref.nhist)
    h, ep = torch.zeros_like(h), torch.zeros_like(ep)
    for n in ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate"):
        v = getattr(obj, n)(s, h, t, ep, Tv, e)
        need(v.numel() == 0 or bool(torch.all(torch.isfinite(v))), f"{n} is not finite at rest: {v.tolist()}")
        if n == "history_rate" and c["m"]["k"] != "rec" and v.numel():
            close(v, torch.zeros_like(h), "history rate at rest", rtol=0, atol=0)
    return c["m"]["k"] if ref.nhist else None


@sub("P14", "equations", wide, 5000, "model with internal variables and a nonzero inelastic rate in the batch")
@mat.ranged
def hard_equations(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = build(c["m"], src, shape[-1])
    nh = ref.nhist
    need(obj.nhist == nh, f"nhist {obj.nhist}, expected {nh}")
    s, h, t, ep, Tv, e = state(src, shape, nh)
    v, hr = np.zeros(shape), np.zeros(shape + (nh,))
    for i, ib in mat.over(shape):
        a = [float(x) for x in h[i]]
        v[i] = ref.value(a)
        hr[i] = ref.rate(float(s[i]), a, float(t[i]), float(ep[i]), float(Tv[i]), float(e[i]), ib)
    close(obj.value(h), v, "hardening value", rtol=1e-12, atol=1e-12)
    close(
        obj.history_rate(s, h, t, ep, Tv, e),
        hr,
        "history rate",
        rtol=1e-9,
        atol=1e-13 * (1 + float(np.max(np.abs(hr), initial=0.0))),
    )
    if nh and bool((ep != 0).any()):
        return c["m"]["k"]


PAIRS = ("voce", "fa_nor", "fa_b0", "fa_def", "cha1", "cha_sup", "char_sup", "cha_r0", "rec_r0", "sup1")


@sub(
    "P14",
    "equivalences",
    fd(pair=sf(*PAIRS), shape=lead_dims(), n=st.integers(1, 4), b=st.booleans(), v=vals()),
    2000,
    "every case",
)
def hard_equiv(c):
    """Parameterisations that describe the same model give the same numbers"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    nb, n = shape[-1], c["n"]
    CP = lambda x: TP.ConstantParameter(T(x))
    pr = c["pair"]
    bs = (nb,) if c["b"] else ()
    if pr == "voce":
        R, d = src.u(20, 200, bs), src.u(0.5, 20, bs)
        a = H.VoceIsotropicHardeningModel(CP(R), CP(d))
        b = H.Theta0VoceIsotropicHardeningModel(CP(R), CP(R * d))
        nh = 1
    elif pr == "rec_r0":
        tau, th = src.u(20, 200, bs), src.u(100, 4000, bs)
        a = H.Theta0VoceIsotropicHardeningModel(CP(tau), CP(th))
        b = H.Theta0RecoveryVoceIsotropicHardeningModel(
            CP(tau), CP(th), CP(src.u(5, 100, bs)), CP(np.zeros(bs)), CP(src.u(1.5, 3.0, bs))
        )
        nh = 1
    else:
        C = src.u(500, 8000, bs + (n,))
        g = src.u(0, 100, bs + (n,))
        bb = src.lu(1e-7, 1e-4, bs + (n,))
        r = src.u(1.2, 3.0, bs + (n,))
        if pr in ("fa_nor", "fa_b0", "fa_def", "cha1", "sup1"):
            n = 1
            C, g, bb, r = C[..., 0], g[..., 0], bb[..., 0], r[..., 0]
        nh = n
        if pr == "fa_nor":
            a = H.FAKinematicHardeningModelNoRecovery(CP(C), CP(g))
            b = H.FAKinematicHardeningModel(CP(C), CP(g), b=CP(0 * bb), r=CP(r))
        elif pr == "fa_b0":
            a = H.FAKinematicHardeningModel(CP(C), CP(g))
            b = H.FAKinematicHardeningModel(CP(C), CP(g), b=CP(0 * bb), r=CP(np.ones_like(r)))
        elif pr == "fa_def":
            a = H.FAKinematicHardeningModel(CP(C), CP(g))
            b = H.FAKinematicHardeningModelNoRecovery(CP(C), CP(g))
        elif pr == "cha1":
            a = H.FAKinematicHardeningModel(CP(C), CP(g), b=CP(bb), r=CP(r))
            b = H.ChabocheHardeningModelRecovery(
                CP(C[..., None]), CP(g[..., None]), CP(bb[..., None]), CP(r[..., None])
            )
        elif pr == "sup1":
            a = H.FAKinematicHardeningModel(CP(C), CP(g), b=CP(bb), r=CP(r))
            b = H.SuperimposedKinematicHardening([a])
        elif pr == "cha_sup":
            a = H.ChabocheHardeningModel(CP(C), CP(g))
            b = H.SuperimposedKinematicHardening(
                [H.FAKinematicHardeningModelNoRecovery(CP(C[..., i]), CP(g[..., i])) for i in range(n)]
            )
        elif pr == "char_sup":
            a = H.ChabocheHardeningModelRecovery(CP(C), CP(g), CP(bb), CP(r))
            b = H.SuperimposedKinematicHardening(
                [
                    H.FAKinematicHardeningModel(CP(C[..., i]), CP(g[..., i]), b=CP(bb[..., i]), r=CP(r[..., i]))
                    for i in range(n)
                ]
            )
        else:
            a = H.ChabocheHardeningModel(CP(C), CP(g))
            b = H.ChabocheHardeningModelRecovery(CP(C), CP(g), CP(0 * bb), CP(r))
    need(a.nhist == nh and b.nhist == nh, f"nhist {a.nhist}, {b.nhist}, expected {nh}")
    s, h, t, ep, Tv, e = state(src, shape, nh)
    h = torch.where(h == 0, 2.0, h)
    close(b.value(h), a.value(h), f"{pr}: value", rtol=1e-12, atol=1e-12)
    close(b.dvalue(h), a.dvalue(h), f"{pr}: dvalue", rtol=1e-12, atol=1e-12)
    for nm in ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate"):
        x, y = (getattr(m, nm)(s, h, t, ep, Tv, e) for m in (a, b))
        close(y, x, f"{pr}: {nm}", rtol=1e-9, atol=1e-11)
    return pr


@sub(
    "P14",
    "saturation",
    fd(k=sf("voce", "theta", "fa", "cha"), nb=st.integers(1, 4), steps=st.integers(2, 30), v=vals((2, 1))),
    600,
    "hardening has saturated to at least half somewhere",
)
def hard_saturation(c):
    """Integrated from zero under monotone straining the value rises towards saturation, never past it"""
    src = Src(c["v"])
    nb = c["nb"]
    CP = lambda x: TP.ConstantParameter(T(x))
    if c["k"] == "voce":
        sat, d = src.u(20, 200, (nb,)), src.u(0.5, 20, (nb,))
        m = H.VoceIsotropicHardeningModel(CP(sat), CP(d))
        rate, nh = d, 1
    elif c["k"] == "theta":
        sat, th = src.u(20, 200, (nb,)), src.u(100, 4000, (nb,))
        m = H.Theta0VoceIsotropicHardeningModel(CP(sat), CP(th))
        rate, nh = th / sat, 1
    elif c["k"] == "fa":
        C, g = src.u(500, 8000, (nb,)), src.u(5, 100, (nb,))
        m = H.FAKinematicHardeningModel(CP(C), CP(g))
        sat, rate, nh = C / g, g, 1
    else:
        C, g = src.u(500, 8000, (nb, 2)), src.u(5, 100, (nb, 2))
        m = H.ChabocheHardeningModel(CP(C), CP(g))
        sat, rate, nh = np.sum(C / g, -1), np.max(g, -1), 2
    h = torch.zeros(nb, nh)
    z = torch.zeros(nb)
    last = z.clone()
    # explicit steps small enough (rate * dp <= 0.5) to stay monotone
    for _ in range(c["steps"]):
        dp = T(src.u(0.05, 0.5, (nb,)) / rate)
        h = h + m.history_rate(z, h, z, dp, z + 500.0, z)
        v = m.value(h)
        need(bool(torch.all(v >= last)), f"value falls: {last.tolist()} -> {v.tolist()}")
        need(bool(torch.all(v <= T(sat) * (1 + 1e-12))), f"value {v.tolist()} above saturation {sat.tolist()}")
        last = v
    if bool(torch.any(last > 0.5 * T(sat))):
        return c["k"]
