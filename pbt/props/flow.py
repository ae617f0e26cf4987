"""P10 derivatives, P11 equations and physics, P12 regime selection of flow rules"""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import flowrules as F

from .. import mat
from ..core import RULES, Skip, sub
from ..gen import Src, T, close, fd, grad_sum, lead_dims, need, same_shape, sf, unchanged, snapshot, vals

RULES["P10"] = (
    "Cases: a recursive composition of flow rules and hardening models with generated "
    "(constant, batched, temperature-dependent, scaled) parameters, at random states of any batch shape."
)
RULES["P11"] = "Cases: viscoplastic models and superpositions at random states, compared with scalar references."
RULES["P12"] = "Cases: regime-switching, blended and wrapped models with mixed regimes in one batch."


def state(src, shape, nh, iso_pos=()):
    """A random state (s, h, t, T, e)"""
    s = src.u(-300.0, 300.0, shape) * mat.UNIT
    h = src.u(-60.0, 60.0, tuple(shape) + (nh,)) * mat.UNIT
    t = src.u(0.0, 100.0, shape)
    Tv = src.u(mat.T_LO, mat.T_HI, shape)
    e = src.lu(1e-7, 1e-1, shape) * src.sign(shape)
    return T(s), mat.offzero(T(h)), T(t), T(Tv), T(e)


def ref_eval(ref, s, h, t, Tv, e):
    """Scalar evaluation of flow and history rate at every entry"""
    f = np.zeros(tuple(s.shape))
    hr = np.zeros(tuple(h.shape))
    for i, ib in mat.over(tuple(s.shape)):
        a = (float(s[i]), [float(x) for x in h[i]], float(t[i]), float(Tv[i]), float(e[i]), ib)
        f[i] = ref.flow(*a)
        hr[i] = ref.hist(*a)
    return f, hr


flow_case = fd(m=mat.flow_st(2), shape=lead_dims(), w=mat.range_st, v=vals((2, 2, 1)))


@sub("P10", "derivs", flow_case, 3200, "some inelastic flow somewhere in the batch")
@mat.ranged
def flow_derivs(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    kinks = mat.Kinks()
    obj, ref = mat.build_flow(c["m"], src, shape[-1], kinks)
    nh = ref.nhist
    need(obj.nhist == nh, f"nhist {obj.nhist}, expected {nh}")
    s, h, t, Tv, e = state(src, shape, nh)
    f, _ = ref_eval(ref, s, h, t, Tv, e)
    if kinks.d < 1e-9:
        raise Skip()
    s.requires_grad_(True)
    h.requires_grad_(True)
    e.requires_grad_(True)
    before = snapshot(s, h, t, Tv, e)
    r, dr = obj.flow_rate(s, h, t, Tv, e)
    hr, dhr = obj.history_rate(s, h, t, Tv, e)
    dfh = obj.dflow_dhist(s, h, t, Tv, e)
    dfe = obj.dflow_derate(s, h, t, Tv, e)
    dhs = obj.dhist_dstress(s, h, t, Tv, e)
    dhe = obj.dhist_derate(s, h, t, Tv, e)
    unchanged(before, (s, h, t, Tv, e), "flow rule")
    same_shape(r, shape, "flow rate")
    same_shape(hr, shape + (nh,), "history rate")
    tol = dict(rtol=1e-7, atol=1e-12)
    close(dr, grad_sum(r, s), "d(flow)/d(stress)", **tol)
    # 1 - tanh^2 (autodiff) cancels where cosh^-2 (the rule) does not
    etol = 1e-12 + 2e-14 * kinks.big * 50.0
    close(dfe, grad_sum(r, e), "d(flow)/d(strain rate)", rtol=1e-7, atol=etol)
    if nh == 0:
        same_shape(dhr, shape + (0, 0), "d(history rate)/d(history)")
        same_shape(dhs, shape + (0,), "d(history rate)/d(stress)")
    else:
        close(dfh, grad_sum(r, h)[..., None, :], "d(flow)/d(history)", **tol)
        tol = dict(rtol=1e-7, atol=1e-9 * max(1e-3, float(hr.detach().abs().max())))
        close(
            dhr,
            torch.stack([grad_sum(hr[..., i], h) for i in range(nh)], dim=-2),
            "d(history rate)/d(history)",
            **tol,
        )
        close(
            dhs,
            torch.stack([grad_sum(hr[..., i], s) for i in range(nh)], dim=-1),
            "d(history rate)/d(stress)",
            **tol,
        )
        close(
            dhe,
            torch.stack([grad_sum(hr[..., i], e) for i in range(nh)], dim=-1),
            "d(history rate)/d(strain rate)",
            rtol=1e-7,
            atol=tol["atol"] + etol,
        )
    if np.any(f != 0):
        return c["m"]["k"] + (",nested" if c["m"]["k"] in ("ri", "sup", "km", "soft") else "")


@sub(
    "P10",
    "derivs_fd",
    flow_case,
    1200,
    "some inelastic flow somewhere in the batch; derivatives from differences of the scalar reference",
)
@mat.ranged
def flow_derivs_fd(c):
    """Same derivatives, from finite differences of the independent scalar reference"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    kinks = mat.Kinks()
    obj, ref = mat.build_flow(c["m"], src, shape[-1], kinks)
    nh = ref.nhist
    s, h, t, Tv, e = state(src, shape, nh)
    r, dr = obj.flow_rate(s, h, t, Tv, e)
    hr, dhr = obj.history_rate(s, h, t, Tv, e)
    dfh = obj.dflow_dhist(s, h, t, Tv, e)
    dfe = obj.dflow_derate(s, h, t, Tv, e)
    dhs = obj.dhist_dstress(s, h, t, Tv, e)
    dhe = obj.dhist_derate(s, h, t, Tv, e)
    idx = list(mat.over(shape))
    pick = [idx[int(i)] for i in src.rs.permutation(len(idx))[:3]]
    on = False
    for i, ib in pick:
        x0 = [float(s[i])] + [float(x) for x in h[i]] + [float(e[i])]
        tt, TT = float(t[i]), float(Tv[i])

        def both(x):
            a = (x[0], x[1:-1], tt, TT, x[-1], ib)
            return np.array([ref.flow(*a)] + list(ref.hist(*a)))

        kinks.d, kinks.tail = math.inf, 1.0
        v0 = both(x0)
        if kinks.d < 2e-6 or kinks.tail < 1e-6:
            continue  # next to a kink, or in the round-off tail of a tanh blend
        on = on or v0[0] != 0.0
        J = np.zeros((nh + 1, nh + 2))
        err = np.zeros((nh + 1, nh + 2))
        for j in range(nh + 2):
            st_ = 1e-4 * abs(x0[j]) if j == nh + 1 else 1e-4 * max(abs(x0[j]), 1.0)

            def at(f):
                y = list(x0)
                y[j] += f * st_
                return both(y)

            d1 = (at(1.0) - at(-1.0)) / (2 * st_)
            d2 = (at(0.5) - at(-0.5)) / st_
            J[:, j] = (4 * d2 - d1) / 3
            err[:, j] = np.abs(d1 - d2)
            # crossing a kink inside the stencil makes the two disagree
            scale = np.max(np.abs(d2)) + 1e-300
            if np.any(np.abs(d1 - d2) > 1e-3 * np.abs(d2) + 1e-6 * scale):
                J[:, j] = np.nan
        row = np.concatenate([[float(dr[i])], dfh[i].detach().numpy().reshape(-1)[:nh] if nh else [], [float(dfe[i])]])
        rows = [row]
        for k in range(nh):
            rows.append(
                np.concatenate([[float(dhs[i][k])], dhr[i][k].detach().numpy(), [float(dhe[i][k])]])
            )
        G = np.array(rows)
        J2 = np.where(np.isnan(J), G, J)
        for j in range(nh + 2):
            sc = np.max(np.abs(J2[:, j])) + 1e-300
            vs = np.max(np.abs(v0)) / (abs(x0[j]) if j == nh + 1 else max(abs(x0[j]), 1.0))
            close(
                G[:, j],
                J2[:, j],
                f"derivatives with respect to variable {j} of (stress, history..., strain rate)",
                rtol=2e-5,
                atol=1e-7 * sc + 1e-8 * vs + 1e-14 + 10.0 * np.max(np.where(np.isnan(J[:, j]), 0.0, err[:, j])),
            )
    if on:
        return c["m"]["k"]


@sub(
    "P10",
    "at_rest",
    fd(m=mat.flow_st(2), shape=lead_dims(), what=st.lists(sf("s", "h", "e", "thr"), min_size=1, max_size=4), v=vals()),
    800,
    "every case (states on kinks)",
)
def flow_at_rest(c):
    """Rates and derivatives are finite on the kinks; nothing flows at zero stress and history"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    obj, ref = mat.build_flow(c["m"], src, shape[-1])
    nh = ref.nhist
    s, h, t, Tv, e = state(src, shape, nh)
    w = c["what"]
    h = torch.abs(h)
    if "h" in w:
        h = torch.zeros_like(h)
    if "s" in w:
        s = torch.zeros_like(s)
    if "e" in w:
        e = torch.zeros_like(e)
    if "thr" in w and c["m"]["k"] == "ik":
        s = torch.sum(h[..., 1:], -1) + obj.s0(Tv) + h[..., 0]
    out = all_out(obj, s, h, t, Tv, e)
    for k, v in out.items():
        if v.numel():
            need(bool(torch.all(torch.isfinite(v))), f"{k} is not finite: {v.tolist()}")
    if "s" in w and "h" in w:
        close(out["flow_rate"], np.zeros(shape), "flow rate at zero stress and history", rtol=0, atol=0)
    return ",".join(sorted(set(w))) or None


base_st = st.one_of(
    mat.leaf_st,
    fd(k=st.just("sup"), m=st.lists(mat.leaf_st, min_size=1, max_size=4)),
    mat.flow_st(2),
)


@sub("P11", "equations", fd(m=base_st, shape=lead_dims(), w=mat.range_st, v=vals()), 4000, "some inelastic flow in the batch")
@mat.ranged
def flow_equations(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    kinks = mat.Kinks()
    obj, ref = mat.build_flow(c["m"], src, shape[-1], kinks)
    need(obj.nhist == ref.nhist, f"nhist {obj.nhist}, expected {ref.nhist}")
    s, h, t, Tv, e = state(src, shape, ref.nhist)
    f, hr = ref_eval(ref, s, h, t, Tv, e)
    if mat.has(c["m"], "km") and kinks.d < 1e-9:
        raise Skip()  # a sharp switch within round-off of its threshold
    if mat.HIGH and kinks.tail < 1e-6:
        raise Skip()  # rates of any size times the rounding error of a tanh weight
    r, _ = obj.flow_rate(s, h, t, Tv, e)
    g, _ = obj.history_rate(s, h, t, Tv, e)
    close(r, f, "flow rate", rtol=1e-8, atol=1e-18)
    close(g, hr, "history rate", rtol=1e-8, atol=1e-13 * (1 + float(np.max(np.abs(hr), initial=0.0))))
    if np.any(f != 0):
        return c["m"]["k"]


# -- physics of the two base models, without using the reference equations
@sub(
    "P11",
    "physics",
    fd(m=mat.leaf_st, n=st.integers(1, 6), v=vals()),
    2000,
    "at least one entry flows and one does not, or the model is the perfect one",
)
def flow_physics(c):
    src = Src(c["v"])
    nb = c["n"]
    obj, ref = mat.build_flow(c["m"], src, nb)
    nh = ref.nhist
    s, h, t, Tv, e = state(src, (nb,), nh)
    r, _ = obj.flow_rate(s, h, t, Tv, e)
    # reversal of stress and backstress (index 0 is the isotropic variable)
    hm = h.clone()
    if nh:
        hm[..., 1:] = -hm[..., 1:]
    rm, _ = obj.flow_rate(-s, hm, t, Tv, e)
    close(rm, -r, "flow rate under reversal of stress and backstress", rtol=1e-12, atol=0)
    if nh:
        hr, _ = obj.history_rate(s, h, t, Tv, e)
        hrm, _ = obj.history_rate(-s, hm, t, Tv, e)
        close(hrm[..., 1:], -hr[..., 1:], "backstress rates under reversal", rtol=1e-11, atol=1e-20)
        close(hrm[..., 0], hr[..., 0], "isotropic rate under reversal", rtol=1e-11, atol=1e-20)
    if c["m"]["k"] == "perf":
        x = s
        thr = torch.zeros_like(s)
    else:
        x = s - torch.sum(h[..., 1:], -1)  # all kinematic models here sum their backstresses
        iso = h[..., 0]
        thr = obj.s0(Tv) + iso
    need(bool(torch.all(r * x >= 0)), f"negative dissipation: rate {r.tolist()} at effective stress {x.tolist()}")
    # threshold: zero at and below
    below = torch.abs(x) <= thr
    need(bool(torch.all(r[below] == 0)), f"flow below the threshold: {r.tolist()}")
    # a state exactly on / just beyond the threshold
    pos = thr > 1.0
    s_in = (x - s) * -1.0 + 0.999999 * thr
    s_out = (x - s) * -1.0 + thr + 30.0
    if c["m"]["k"] != "perf":
        rin, _ = obj.flow_rate(s_in, h, t, Tv, e)
        need(bool(torch.all(rin[pos] == 0)), f"flow inside the threshold: {rin.tolist()}")
    rout, _ = obj.flow_rate(s_out, h, t, Tv, e)
    ok = (x - s) * -1.0 + thr + 30.0 - (s - x) > 0
    need(bool(torch.all(rout[ok] > 0)), f"no flow beyond the threshold: {rout.tolist()}")
    # monotone in stress
    r2, _ = obj.flow_rate(s + 7.5, h, t, Tv, e)
    need(bool(torch.all(r2 >= r)), f"flow rate falls with stress: {r.tolist()} -> {r2.tolist()}")
    if c["m"]["k"] == "perf" or (bool((r != 0).any()) and bool((r == 0).any())):
        return c["m"]["k"]


@sub(
    "P11",
    "superposition",
    fd(m=st.lists(mat.flow_st(1), min_size=1, max_size=4), shape=lead_dims(), v=vals()),
    1600,
    "two or more models, one with internal variables",
)
def flow_superposition(c):
    """The superposition against its own parts, each with its slice of the history"""
    src = Src(c["v"])
    shape = tuple(c["shape"])
    parts = [mat.build_flow(m, src, shape[-1])[0] for m in c["m"]]
    nh = [p.nhist for p in parts]
    obj = F.SuperimposedFlowRule(parts)
    need(obj.nhist == sum(nh), f"nhist {obj.nhist}, expected {sum(nh)}")
    s, h, t, Tv, e = state(src, shape, sum(nh))
    off = np.concatenate([[0], np.cumsum(nh)])
    sl = [h[..., off[i] : off[i + 1]] for i in range(len(nh))]
    rs = [p.flow_rate(s, x, t, Tv, e) for p, x in zip(parts, sl)]
    hs = [p.history_rate(s, x, t, Tv, e) for p, x in zip(parts, sl)]
    r, dr = obj.flow_rate(s, h, t, Tv, e)
    hr, dhr = obj.history_rate(s, h, t, Tv, e)
    tol = dict(rtol=1e-11, atol=1e-20)
    close(r, sum(x[0] for x in rs), "sum of strain rates", **tol)
    close(dr, sum(x[1] for x in rs), "sum of stress derivatives", **tol)
    close(hr, torch.cat([x[0] for x in hs], -1), "stacked history rates", **tol)
    blk = torch.zeros(shape + (sum(nh), sum(nh)))
    for i, x in enumerate(hs):
        blk[..., off[i] : off[i + 1], off[i] : off[i + 1]] = x[1]
    close(dhr, blk, "block-diagonal history derivative", **tol)
    close(
        obj.dflow_derate(s, h, t, Tv, e),
        sum(p.dflow_derate(s, x, t, Tv, e) for p, x in zip(parts, sl)),
        "sum of rate derivatives",
        **tol,
    )
    for nm in ("dflow_dhist", "dhist_dstress", "dhist_derate"):
        got = getattr(obj, nm)(s, h, t, Tv, e)
        exp = torch.cat([getattr(p, nm)(s, x, t, Tv, e) for p, x in zip(parts, sl)], -1)
        close(got, exp, nm, **tol)
    if len(nh) > 1 and sum(nh) > 0:
        return f"n{len(nh)}"


# ---------------------------------------------------------------- P12
km_case = fd(
    a=mat.leaf_st,
    b=st.one_of(st.none(), mat.leaf_st),
    shape=lead_dims(),
    gs=st.booleans(),
    ms=st.booleans(),
    mt=sf("const", "batch", "poly"),
    gb=st.booleans(),
    sfv=sf(0.5, 3.0, 20.0, 100.0),
    w=sf("", "", "", "slowref"),
    v=vals(),
)


def build_km(c, src):
    from pyoptmat import temperature as TP

    nb = c["shape"][-1]
    bsp = c["b"]
    if bsp is None or mat.nhist_of(bsp) != mat.nhist_of(c["a"]):
        bsp = c["a"]
    m1, r1 = mat.build_flow(c["a"], src, nb)
    m2, _ = mat.build_flow(bsp, src, nb)
    ms = 1000.0 if c["ms"] else 1.0
    sc = (lambda x: x * 1000.0) if c["ms"] else (lambda x: x)
    if c["mt"] == "const":
        muv = float(src.u(3e4, 1e5))
        mu = TP.ConstantParameter(T(muv / ms), scaling=sc)
        muf = lambda Tv, ib: muv
    elif c["mt"] == "batch":
        muv = src.u(3e4, 1e5, (nb,))
        mu = TP.ConstantParameter(T(muv / ms), scaling=sc)
        muf = lambda Tv, ib: muv[ib]
    else:
        c1, c0 = -float(src.u(10, 50)), float(src.u(7e4, 1e5))
        mu = TP.PolynomialScaling(T([c1 / ms, c0 / ms]), scaling=sc)
        muf = lambda Tv, ib: c1 * Tv + c0
    kb, bv = 1.38064e-20, 2.019e-7
    eps0 = float(src.lu(1e-6, 1e2) if mat.SLOWREF else src.lu(1e4, 1e10))
    g0 = src.u(0.2, 0.9, (nb,) if c["gb"] else ())
    if c["gs"]:
        g0raw, gsc = (g0 - 0.1) / 2.0, (lambda x: 2.0 * x + 0.1)
        kw = {"g0_scale": gsc}
    else:
        g0raw, kw = g0, {}
    args = (T(g0raw), mu, T(bv), T(eps0), T(kb))

    def g(Tv, e, ib):
        return kb * Tv / (muf(Tv, ib) * bv**3) * math.log(eps0 / (abs(e) + 1e-20))

    return m1, m2, args, kw, g, lambda ib: float(g0[ib]) if c["gb"] else float(g0), r1.nhist


NAMES = ("flow_rate", "history_rate", "dflow_dhist", "dflow_derate", "dhist_dstress", "dhist_derate")


def all_out(m, s, h, t, Tv, e):
    out = {}
    for n in NAMES:
        v = getattr(m, n)(s, h, t, Tv, e)
        if isinstance(v, tuple):
            out[n], out[n + "_d"] = v[0], v[1]
        else:
            out[n] = v
    return out


@sub("P12", "switch", km_case, 2000, "both regimes present in the batch")
@mat.ranged
def km_switch(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    m1, m2, args, kw, g, g0, nh = build_km(c, src)
    obj = F.KocksMeckingRegimeFlowRule(m1, m2, *args, **kw)
    soft = F.SoftKocksMeckingRegimeFlowRule(m1, m2, *args, T(c["sfv"]), **kw)
    s, h, t, Tv, e = state(src, shape, nh)
    z = src.p(0.1, shape)
    e = T(np.where(z, 0.0, e.numpy()))
    gv = np.zeros(shape)
    gg = np.zeros(shape)
    for i, ib in mat.over(shape):
        gv[i] = g(float(Tv[i]), float(e[i]), ib)
        gg[i] = g0(ib)
    if np.any(np.abs(gv - gg) < 1e-9):
        raise Skip()
    close(obj.g(Tv, e), gv, "normalised activation energy", rtol=1e-10, atol=1e-14)
    close(soft.g(Tv, e), gv, "normalised activation energy (smooth rule)", rtol=1e-10, atol=1e-14)
    o1, o2 = all_out(m1, s, h, t, Tv, e), all_out(m2, s, h, t, Tv, e)
    o = all_out(obj, s, h, t, Tv, e)
    second = gv > gg
    f = T((np.tanh(c["sfv"] * (gv - gg)) + 1.0) / 2.0)
    q = all_out(soft, s, h, t, Tv, e)
    for k in o1:
        m = T(second.astype(float)).bool()
        w = f
        while m.dim() < o1[k].dim():
            m = m[..., None]
            w = w[..., None]
        close(o[k], torch.where(m, o2[k], o1[k]), f"{k} of the switched rule", rtol=1e-13, atol=0)
        if k in ("flow_rate", "flow_rate_d", "history_rate", "history_rate_d", "dflow_dhist", "dhist_dstress"):
            sc = float(torch.max(torch.abs(o1[k]).max(), torch.abs(o2[k]).max())) if o1[k].numel() else 0.0
            close(q[k], (1 - w) * o1[k] + w * o2[k], f"{k} of the blended rule", rtol=1e-9, atol=1e-13 * sc)
    need(obj.nhist == nh and soft.nhist == nh, "number of internal variables")
    if second.any() and not second.all():
        return "mixed"


@sub("P12", "soft_limit", km_case, 800, "both regimes present in the batch")
def km_limit(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    m1, m2, args, kw, g, g0, nh = build_km(c, src)
    hard = F.KocksMeckingRegimeFlowRule(m1, m2, *args, **kw)
    s, h, t, Tv, e = state(src, shape, nh)
    gd = np.array([g(float(Tv[i]), float(e[i]), ib) - g0(ib) for i, ib in mat.over(shape)])
    dmin = np.min(np.abs(gd))
    if dmin < 1e-4:
        raise Skip()
    soft = F.SoftKocksMeckingRegimeFlowRule(m1, m2, *args, T(40.0 / dmin), **kw)
    a, b = all_out(hard, s, h, t, Tv, e), all_out(soft, s, h, t, Tv, e)
    for k in a:
        sc = float(a[k].abs().max()) if a[k].numel() else 0.0
        close(b[k], a[k], f"{k}: smooth rule with very steep blending", rtol=1e-7, atol=1e-12 * (sc + 1e-3))
    if (gd > 0).any() and (gd < 0).any():
        return "mixed"


@sub(
    "P12",
    "wrapper",
    fd(m=mat.flow_st(1), shape=lead_dims(), lam=sf(0.0, 0.1, 0.5, 0.99, 1.0), ref=st.booleans(), v=vals()),
    1600,
    "some inelastic flow and a blending factor above zero",
)
def ri_wrapper(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    base, rb = mat.build_flow(c["m"], src, shape[-1])
    eref = float(src.lu(1e-6, 1e-1))
    obj = F.RateIndependentFlowRuleWrapper(base, T(c["lam"]), T(eref))
    s, h, t, Tv, e = state(src, shape, rb.nhist)
    if c["ref"]:
        e = T(eref * src.sign(shape))
    b = all_out(base, s, h, t, Tv, e)
    o = all_out(obj, s, h, t, Tv, e)
    lam = c["lam"]
    sc = 1.0 - lam + lam * e.abs() / eref
    for k in b:
        w, x = sc, b[k]
        ws = lam / eref * torch.sign(e)
        while w.dim() < x.dim():
            w, ws = w[..., None], ws[..., None]
        exp = w * x
        if k == "dflow_derate":
            exp = exp + ws * b["flow_rate"]
        if k == "dhist_derate":
            exp = exp + ws * b["history_rate"]
        mx = float(exp.abs().max()) if exp.numel() else 0.0
        close(o[k], exp, f"{k} of the wrapped rule", rtol=1e-10, atol=1e-14 * mx)
    if c["ref"] or lam == 0.0:
        close(o["flow_rate"], b["flow_rate"], "identity at the reference rate / no blending", rtol=1e-9, atol=0)
    need(obj.nhist == rb.nhist, "number of internal variables")
    if lam > 0 and bool((b["flow_rate"] != 0).any()):
        return "flow"
