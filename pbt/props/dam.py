"""P15 damage models"""

import numpy as np
import torch
from hypothesis import strategies as st

from .. import mat
from ..core import RULES, sub
from ..gen import Src, T, close, fd, grad_sum, lead_dims, need, same_shape, sf, snapshot, unchanged, vals

RULES["P15"] = "Cases: every damage model with generated parameters at stresses of both signs and damage in [0, 1)."

case = fd(m=mat.dam_st, shape=lead_dims(), w=mat.range_st, v=vals())


def state(src, shape):
    s = src.u(1.0, 400.0, shape) * src.sign(shape) * mat.UNIT
    d = src.u(0.0, 0.95, shape)
    return T(s), T(d), T(src.u(0, 100, shape)), T(src.u(mat.T_LO, mat.T_HI, shape)), T(src.lu(1e-6, 1e-1, shape) * src.sign(shape))


def ref_rate(ref, s, d, t, Tv, e):
    out = np.zeros(tuple(s.shape))
    for i, ib in mat.over(tuple(s.shape)):
        out[i] = ref(float(s[i]), float(d[i]), float(t[i]), float(Tv[i]), float(e[i]), ib)
    return out


@sub("P15", "equations", case, 4000, "a model with nonzero damage rate")
@mat.ranged
def dam_eq(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = mat.build_damage(c["m"], src, shape[-1])
    s, d, t, Tv, e = state(src, shape)
    before = snapshot(s, d, t, Tv, e)
    r, dr = obj.damage_rate(s, d, t, Tv, e)
    ex = ref_rate(ref, s, d, t, Tv, e)
    close(r, ex, "damage rate", rtol=1e-9, atol=1e-300)
    need(bool(torch.all(r >= 0)), f"negative damage rate {r.tolist()}")
    same_shape(dr, shape, "derivative with respect to damage")
    ds = obj.d_damage_rate_d_s(s, d, t, Tv, e)
    de = obj.d_damage_rate_d_e(s, d, t, Tv, e)
    same_shape(ds, shape, "derivative with respect to stress")
    same_shape(de, shape, "derivative with respect to strain rate")
    unchanged(before, (s, d, t, Tv, e), "damage model")
    # derivatives from differences of the reference
    for x, g, nm in ((s, ds, "stress"), (d, dr, "damage"), (e, de, "strain rate")):
        h = 1e-5 * torch.abs(x) if nm != "damage" else 1e-5 * (1 - d)
        a = [s, d, t, Tv, e]
        k = {"stress": 0, "damage": 1, "strain rate": 4}[nm]
        up, dn = list(a), list(a)
        up[k] = x + h
        dn[k] = x - h
        fdv = (ref_rate(ref, *up) - ref_rate(ref, *dn)) / (2 * h.numpy())
        close(g, fdv, f"derivative with respect to {nm}", rtol=1e-6, atol=1e-9 * float(np.max(np.abs(ex) / h.numpy())) * 1e-1)
    if np.any(ex > 0):
        return c["m"]["k"]


@sub("P15", "derivs", case, 4000, "a model with nonzero damage rate; derivatives against autodiff")
@mat.ranged
def dam_derivs(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = mat.build_damage(c["m"], src, shape[-1])
    s, d, t, Tv, e = state(src, shape)
    for x in (s, d, e):
        x.requires_grad_(True)
    r, dr = obj.damage_rate(s, d, t, Tv, e)
    close(dr, grad_sum(r, d), "derivative with respect to damage", rtol=1e-9, atol=1e-300)
    close(obj.d_damage_rate_d_s(s, d, t, Tv, e), grad_sum(r, s), "derivative with respect to stress", rtol=1e-9, atol=1e-300)
    close(obj.d_damage_rate_d_e(s, d, t, Tv, e), grad_sum(r, e), "derivative with respect to strain rate", rtol=1e-9, atol=1e-300)
    if bool((r > 0).any()):
        return c["m"]["k"]


@sub("P15", "symmetry", case, 800, "a model with nonzero damage rate")
@mat.ranged
def dam_sym(c):
    """The rate does not depend on the sign of stress; it grows with |stress|; zero stress is finite"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, _ = mat.build_damage(c["m"], src, shape[-1])
    s, d, t, Tv, e = state(src, shape)
    r, dr = obj.damage_rate(s, d, t, Tv, e)
    rm, drm = obj.damage_rate(-s, d, t, Tv, e)
    close(rm, r, "damage rate under reversed stress", rtol=1e-13, atol=0)
    close(drm, dr, "damage derivative under reversed stress", rtol=1e-13, atol=0)
    close(
        obj.d_damage_rate_d_s(-s, d, t, Tv, e),
        -obj.d_damage_rate_d_s(s, d, t, Tv, e),
        "stress derivative under reversed stress",
        rtol=1e-13,
        atol=0,
    )
    r2, _ = obj.damage_rate(1.1 * s, d, t, Tv, e)
    need(bool(torch.all(r2 >= r)), "damage rate falls with stress")
    z = torch.zeros_like(s)
    r0, _ = obj.damage_rate(z, d, t, Tv, e)
    need(bool(torch.all(torch.isfinite(r0))), "damage rate at zero stress is not finite")
    if bool((r > 0).any()):
        return c["m"]["k"]
