"""P16: constitutive rates; P17: agreement of controls; P18: simulated histories"""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import models as M
from pyoptmat import utility as U

from .. import mat, mdl, odes
from ..core import RULES, sub
from ..gen import Skip, Src, T, Violation, close, fd, grad_sum, laid, lead_dims, need, same_shape, sf, snapshot, unchanged, vals

RULES["P16"] = (
    "Cases: generated models (all flow rules, hardening and damage models nested) at random states; oracle: scalar "
    "reference for the rates, autodiff and differences of the reference for the Jacobians."
)
RULES["P17"] = "Cases: generated models and load histories run under strain, stress and mixed control; metamorphic relations between the runs."
RULES["P18"] = "Cases: generated models and load histories; the residual of every time step is evaluated with the scalar reference."


def state(src, shape, n, dam):
    y = np.zeros(tuple(shape) + (n,))
    y[..., 0] = src.u(-200.0, 200.0, shape)
    nh = n - 1 - dam
    y[..., 1 : 1 + nh] = src.u(-50.0, 50.0, tuple(shape) + (nh,))
    if dam:
        y[..., -1] = src.u(0.0, 0.7, shape)
        if src.rs.rand() < 0.3:  # some samples nearly failed
            y[..., -1] = np.where(src.p(0.4, shape), 1.0 - src.lu(1e-4, 0.2, shape), y[..., -1])
            y[..., 0] *= np.where(y[..., -1] > 0.7, (1 - y[..., -1]) * 2.0, 1.0)
    return y


def ref_rates(ref, y, e, t, Tv):
    out = np.zeros(y.shape)
    for i, ib in mat.over(y.shape[:-1]):
        out[i] = ref.rate(list(y[i]), float(e[i]), float(t[i]), float(Tv[i]), ib)
    return out


def scales(ex):
    """Per-component magnitude over the batch"""
    return np.max(np.abs(ex).reshape(-1, ex.shape[-1]), axis=0)


pt = fd(m=mdl.model_st, shape=lead_dims(), v=vals((2, 2, 1)))


@sub("P16", "rates", pt, 2500, "some inelastic flow in the batch")
def rates(c):
    src = Src(c["v"])
    shape = tuple(c["shape"])
    kinks = mat.Kinks()
    model, ref = mdl.build_model(c["m"], src, shape[-1], kinks)
    dam = int(ref.dam is not None)
    n = ref.n
    need(model.nhist == n, f"number of state variables {model.nhist}, expected {n}")
    y = state(src, shape, n, dam)
    e = src.lu(1e-7, 1e-1, shape) * src.sign(shape)
    t = src.u(0.0, 50.0, shape)
    Tv = src.u(mat.T_LO, mat.T_HI, shape)
    ex = ref_rates(ref, y, e, t, Tv)
    if kinks.d < 1e-9:
        raise Skip()
    yt, et, tt, TT = T(y).requires_grad_(True), T(e).requires_grad_(True), T(t), T(Tv)
    before = snapshot(yt, et, tt, TT)
    f, J, Je, JT = model(tt, yt, et, TT)
    unchanged(before, (yt, et, tt, TT), "model")
    same_shape(f, shape + (n,), "rate")
    same_shape(J, shape + (n, n), "Jacobian")
    same_shape(Je, shape + (n,), "derivative with respect to strain rate")
    same_shape(JT, shape + (n,), "derivative with respect to temperature")
    sc = scales(ex)
    for j in range(n):
        close(f[..., j], ex[..., j], f"rate of variable {j}", rtol=1e-8, atol=1e-12 * sc[j] + 1e-13)
    Ja = torch.stack([grad_sum(f[..., j], yt) for j in range(n)], dim=-2).detach().numpy()
    Jea = torch.stack([grad_sum(f[..., j], et) for j in range(n)], dim=-1).detach().numpy()
    row = np.abs(Ja).reshape(-1, n, n).max(axis=(0, 2)) if Ja.size else np.zeros(n)
    for j in range(n):
        close(J[..., j, :], Ja[..., j, :], f"Jacobian row {j}", rtol=1e-7, atol=1e-11 * row[j] + 1e-12 * sc[j] + 1e-300)
        close(
            Je[..., j],
            Jea[..., j],
            f"strain rate derivative of variable {j}",
            rtol=1e-7,
            atol=1e-12 * sc[j] + (2e-12 * kinks.big + 1e-12) * (2e5 if j == 0 else 1e5),
        )
    if np.any(np.abs(f[..., 0].detach().numpy() - 0) > 0) and np.any(ex[..., 1:] != 0):
        return c["m"]["flow"]["k"] + (",damage" if dam else "")


driven = fd(
    m=fd(flow=mat.flow_st(1), dam=st.one_of(st.none(), mat.dam_st), E=sf("c", "b", "poly")),
    nb=st.integers(1, 4),
    nq=st.integers(1, 3),
    ld=mdl.load_st,
    mode=sf("strain", "stress", "stress", "both", "both"),
    v=vals((2, 2, 1)),
)


def fd_jac(fun, x0, steps):
    """Central differences with two steps: (Jacobian, disagreement)"""
    n = len(x0)
    cols, errs = [], []
    for j in range(n):
        d = []
        for f in (1.0, 0.5):
            a, b = list(x0), list(x0)
            a[j] += f * steps[j]
            b[j] -= f * steps[j]
            d.append((fun(a) - fun(b)) / (2 * f * steps[j]))
        cols.append((4 * d[1] - d[0]) / 3)
        errs.append(np.abs(d[0] - d[1]))
    return np.stack(cols, axis=1), np.stack(errs, axis=1)


def implicit_jac(fe, z, e, steps):
    """Derivatives of the rates under stress control, where the strain rate e keeps the stress rate fixed"""
    G, err = fd_jac(lambda w: fe(w[:-1], w[-1]), list(z) + [e], list(steps) + [1e-4 * abs(e)])
    G, Ge, err, erre = G[:, :-1], G[:, -1], err[:, :-1], err[:, -1]
    G[:, 0] = err[:, 0] = 0.0  # the stress is given, it is not part of the state
    de = -G[0] / Ge[0]
    derr = err[0] / abs(Ge[0]) + np.abs(G[0]) * erre[0] / Ge[0] ** 2
    J = G + Ge[:, None] * de[None, :]
    err = err + np.abs(Ge)[:, None] * derr[None, :] + erre[:, None] * np.abs(de)[None, :]
    J[0], err[0] = de, derr
    return J, err


@sub("P16", "driven", driven, 1200, "some inelastic flow in the batch")
def driven_systems(c):
    """The systems that are integrated, at any time of a history; Jacobian from differences of the reference"""
    src = Src(c["v"])
    nb, mode = c["nb"], c["mode"]
    # the strain rate under stress control is then a root of an equation, to be checked as such
    rooted = mode != "strain" and mat.has(c["m"]["flow"], "km", "soft", "ri")
    kinks = mat.Kinks()
    model, ref = mdl.build_model(c["m"], src, nb, kinks)
    dam = int(ref.dam is not None)
    n = ref.n
    t, x, Tv = mdl.load(c["ld"], src, nb)
    ctrl = np.zeros(nb, dtype=int)
    if mode == "stress":
        ctrl[:] = 1
    elif mode == "both":
        ctrl = src.i(0, 1, (nb,))
    x = np.where(ctrl == 1, x * 5e4, x)
    r = mdl.backward_rates(t, x)
    interp = lambda q: U.ArbitraryBatchTimeSeriesInterpolator(laid(t, c["v"]["seed"]), laid(q, c["v"]["seed"] // 7))
    if mode == "strain":
        obj = M.StrainBasedModel(model, interp(r), interp(Tv))
    elif mode == "stress":
        obj = M.StressBasedModel(model, interp(r), interp(x), interp(Tv))
    else:
        obj = M.BothBasedModel(model, interp(r), interp(x), interp(Tv), torch.tensor(ctrl))
    nq = c["nq"]
    w = src.u(0.0, 1.0, (nq, nb))
    q = t[0] + w * (t[-1] - t[0])
    y = state(src, (nq, nb), n, dam)
    y[..., 0] = np.where(ctrl == 1, y[..., 0] * 1e-4, y[..., 0])
    qt, yt = laid(q, c["v"]["seed"] + 1), laid(y, c["v"]["seed"] // 7 + 1)
    before = snapshot(qt, yt)
    with mdl.Quiet() as quiet:
        f, J = obj(qt, yt)
    unchanged(before, (qt, yt), "driven model")
    same_shape(f, (nq, nb, n), "rate")
    same_shape(J, (nq, nb, n, n), "Jacobian")
    f, J = f.detach().numpy(), J.detach().numpy()
    if rooted and (quiet.failed or not np.all(np.isfinite(f))):
        raise Skip()  # the solve for the strain rate did not converge
    on = False
    for k in range(nq):
        for b in range(nb):
            at = lambda z: float(np.interp(q[k, b], t[:, b], z[:, b]))
            rr, xx, TT = at(r), at(x), at(Tv)

            def fun(z):
                if ctrl[b] == 0:
                    return ref.rate(z, rr, q[k, b], TT, b)
                return ref.stress_driven(z, rr, xx, q[k, b], TT, b)

            z0 = [float(v) for v in y[k, b]]
            if rooted and ctrl[b] == 1:
                er = float(f[k, b, 0])
                fe = lambda z, e: ref.rate([xx] + list(z[1:]), e, q[k, b], TT, b)

                def fun(z):
                    out = fe(z, er)
                    out[0] = er
                    return out

            ex = fun(z0)
            near = t[np.argmin(np.abs(t[:, b] - q[k, b])), b]
            if abs(near - q[k, b]) < 1e-9 * (abs(near) + 1):
                continue
            kinks.d, kinks.tail = math.inf, 1.0
            fun(z0)
            if kinks.d < 1e-9:
                continue
            if mat.has(c["m"]["flow"], "km", "soft") and abs(rr) < 1e-7 * np.max(np.abs(r)):
                continue  # the logarithm of the rate amplifies the rounding of a zero rate
            if rooted and ctrl[b] == 1:
                if abs(er) < 1e-9 or np.max(np.abs(f[k])) > 1e6:
                    continue
                kd, kt = kinks.d, kinks.tail
                R, R0 = fe(z0, er)[0] - rr, fe(z0, 0.0)[0] - rr
                noise = abs(fe(z0, er * (1 + 1e-11))[0] - rr - R)
                kinks.d, kinks.tail = kd, kt
                need(
                    abs(R) <= 2e-6 * abs(R0) + 1e-9 * (1 + abs(rr)) + noise,
                    f"the strain rate {er} found under stress control misses the stress rate {rr} by {R} (by {R0} at no strain rate)",
                )
            close(f[k, b], ex, f"rates under {['strain', 'stress'][ctrl[b]]} control", rtol=1e-6, atol=1e-9 * np.abs(ex).max() * 1e-3 + 1e-13)
            on = on or np.any(ex[1:] != 0)
            if kinks.d < 2e-6 or kinks.tail < 1e-6:
                continue
            steps = [1e-4 * max(abs(v), 1.0) for v in z0]
            if dam:
                steps[-1] = 1e-4 * (1 - z0[-1])
            try:
                if rooted and ctrl[b] == 1:
                    Jr, err = implicit_jac(fe, z0, er, steps)
                else:
                    Jr, err = fd_jac(fun, z0, steps)
            except (OverflowError, ZeroDivisionError):
                continue
            if not np.all(np.isfinite(Jr)):
                continue
            for i in range(n):
                sc = np.max(np.abs(Jr[i]))
                if np.any(err[i] > 1e-3 * np.abs(Jr[i]) + 1e-6 * sc):
                    continue  # a kink inside the stencil
                nz = np.max(np.abs(ex[i])) * 1e-9 / min(steps)
                close(J[k, b, i], Jr[i], f"Jacobian row {i} under {['strain', 'stress'][ctrl[b]]} control", rtol=1e-5, atol=1e-7 * sc + nz + 10 * np.max(err[i]))
    if on:
        return mode + (",damage" if dam else "")


# --------------------------------------------------------------------- P18
hist_st = fd(
    m=mdl.model_st,
    ld=mdl.load_st,
    nb=st.integers(1, 4),
    sol=odes.solver_st,
    mode=sf("strain", "strain", "both"),
    method=sf("backward-euler", "backward-euler", "backward-euler", "forward-euler"),
    adj=st.booleans(),
    off=st.booleans(),
    v=vals((2, 2, 1)),
)


def skw(c, atol):
    kw = odes.solver_kw(c["sol"], tight=False)
    kw.update(rtol=1e-16, atol=atol, miter=60)
    return kw


def stress_history(src, t, e, cap=60.0):
    """A mild stress history with the shape of the strain history"""
    m = np.max(np.abs(e), axis=0, initial=0.0)
    return e / np.where(m == 0, 1.0, m) * src.u(5.0, cap, (1, e.shape[1]))


def step_errors(ref, y, t, x, Tv, ctrl, explicit=False, km=False):
    """Residual of every step of a simulated history, from the scalar reference: (message or None, flow)"""
    r = mdl.backward_rates(t, x)
    on = False
    nt, nb = t.shape
    for b in range(nb):
        for k in range(1, nt):
            dt = t[k, b] - t[k - 1, b]
            j = k - 1 if explicit else k
            z = [float(v) for v in y[j, b]]
            if r[j, b] == 0 and km:
                continue  # the activation energy amplifies the rounding of a zero rate
            rj, tj, Tj = float(r[j, b]), float(t[j, b]), float(Tv[j, b])

            def rate(q):
                if ctrl[b] == 0:
                    return ref.rate(q, rj, tj, Tj, b)
                return ref.stress_driven(q, rj, float(x[j, b]), tj, Tj, b)

            f = rate(z)
            ex = y[k - 1, b] + dt * f
            on = on or np.any(f[1:] != 0)
            # rounding of the state and of the interpolated rate, amplified by the stiffness
            sens = np.zeros(ref.n)
            for q in range(ref.n):
                zz = list(z)
                zz[q] += 1e-7 * max(abs(zz[q]), 1e-3)
                sens += np.abs(dt * (rate(zz) - f)) * 1e-5
            tol = 1e-7 + 1e-9 * (np.abs(y[k, b]) + np.abs(y[k - 1, b])) + sens + 1e-9 * np.abs(dt * f)
            if not np.all(np.abs(y[k, b] - ex) <= tol):
                return (
                    f"step {k} of sample {b} ({['strain', 'stress'][ctrl[b]]} control): state {y[k, b]}, "
                    f"the discretised equations give {ex} from {y[k - 1, b]} (dt={dt}, rate={rj}, T={Tj})"
                ), on
    return None, on


@sub("P18", "residuals", hist_st, 1400, "inelastic strain in some step of some sample")
def residuals(c):
    src = Src(c["v"])
    nb = c["nb"]
    stressy = c["mode"] == "both"
    if stressy and mat.has(c["m"]["flow"], "km", "soft", "ri"):
        stressy = False
    explicit = c["method"] == "forward-euler"
    model, ref = mdl.build_model(c["m"], src, nb, slow=1e-3)
    # explicit steps use the rate at their start, which is not unique at a repeated time
    t, e, Tv = mdl.load(dict(c["ld"], still=c["ld"]["still"] and c["method"] != "forward-euler"), src, nb, de=2e-5 if explicit else 8e-4)
    ctrl = src.i(0, 1, (nb,)) if stressy else np.zeros(nb, dtype=int)
    x = np.where(ctrl == 1, stress_history(src, t, e), e)
    if c["off"]:  # the first strain or stress is not zero
        x = x + np.where(ctrl == 1, src.u(-20.0, 20.0, (nb,)), src.u(-0.01, 0.01, (nb,)))
    kw = skw(c, 1e-8)
    integ = M.ModelIntegrator(model, use_adjoint=c["adj"], method=c["method"], **kw)
    tt, xt, TT = laid(t, c["v"]["seed"]), laid(x, c["v"]["seed"] + 3), laid(Tv, c["v"]["seed"] // 7)
    before = snapshot(tt, xt, TT)
    integ.train(c["v"]["seed"] % 5 != 0)
    with mdl.Quiet() as qt, torch.set_grad_enabled(c["v"]["seed"] % 3 != 0):
        if not stressy:
            y = integ.solve_strain(tt, xt, TT)
        elif ctrl.all():
            y = integ.solve_stress(tt, xt, TT)
        else:
            y = integ.solve_both(tt, TT, xt, torch.tensor(ctrl))
    unchanged(before, (tt, xt, TT), "simulation")
    nt = t.shape[0]
    same_shape(y, (nt, nb, ref.n), "simulated history")
    y = y.detach().numpy()
    close(y[0], np.zeros((nb, ref.n)), "initial state", rtol=0, atol=0)
    if qt.failed or not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 1e5:
        raise Skip()
    msg, on = step_errors(ref, y, t, x, Tv, ctrl, explicit, mat.has(c["m"]["flow"], "km", "soft"))
    need(msg is None, msg)
    if on:
        return c["m"]["flow"]["k"] + (",mixed" if stressy else "") + (",damage" if ref.dam is not None else "") + ("," + c["method"][:3])


elastic = fd(
    iso=sf("voce", "theta"),
    kin=mat.kin_st,
    ld=mdl.load_st,
    nb=st.integers(1, 4),
    sol=odes.solver_st,
    method=odes.method_st,
    mode=sf("strain", "stress", "both"),
    dam=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P18", "elastic", elastic, 500, "every case")
def elastic_range(c):
    """Below the threshold: stress = E strain, nothing else changes"""
    src = Src(c["v"])
    nb = c["nb"]
    # explicit steps use the rate at their start, which is not unique at a repeated time
    t, e, Tv = mdl.load(dict(c["ld"], still=c["ld"]["still"] and c["method"] != "forward-euler"), src, nb)
    m = np.max(np.abs(e))
    if m == 0:
        return None
    E = float(src.u(5e4, 2e5))
    s0 = float(src.u(5.0, 100.0))
    e = e * (0.98 * s0 / (E * m))
    iso, _ = mat.build_iso({"k": c["iso"], "p": "c"}, src, nb)
    kin, rk = mat.build_kin(c["kin"], src, nb)
    cp = lambda v: mat.TP.ConstantParameter(T(v))
    flow = mat.F.IsoKinViscoplasticity(cp(src.u(1.2, 7.0)), cp(src.u(50.0, 300.0)), cp(s0), iso, kin)
    model = M.DamagedInelasticModel(cp(E), flow) if c["dam"] else M.InelasticModel(cp(E), flow)
    ctrl = {"strain": np.zeros(nb, dtype=int), "stress": np.ones(nb, dtype=int), "both": src.i(0, 1, (nb,))}[c["mode"]]
    x = np.where(ctrl == 1, E * e, e)
    integ = M.ModelIntegrator(model, method=c["method"], **skw(c, 1e-10))
    with mdl.Quiet() as q:
        if c["mode"] == "strain":
            y = integ.solve_strain(T(t), T(x), T(Tv))
        elif c["mode"] == "stress":
            y = integ.solve_stress(T(t), T(x), T(Tv))
        else:
            y = integ.solve_both(T(t), T(Tv), T(x), torch.tensor(ctrl))
    if q.failed and c["method"] == "forward-euler":
        raise Skip()  # a chunk of explicit steps is solved from a guess that may be far outside of the elastic range
    ex = np.zeros(tuple(y.shape))
    ex[..., 0] = np.where(ctrl == 1, e, E * e)
    if c["method"] == "forward-euler":
        # explicit steps use the rate at their start
        dt = np.diff(t, axis=0)
        r = mdl.backward_rates(t, ex[..., 0])
        ex[1:, :, 0] = np.cumsum(dt * r[:-1], axis=0)
        if np.max(np.abs(ex[..., 0]) * np.where(ctrl == 1, E, 1.0)) > 0.99 * s0:
            return None
    close(y, ex, "elastic response", rtol=1e-8, atol=1e-9 * max(1.0, len(t) / 5))
    return c["mode"]


@sub("P18", "no_damage", fd(m=mdl.model_st, ld=mdl.load_st, nb=st.integers(1, 4), sol=odes.solver_st, method=odes.method_st, v=vals((2, 2, 1))), 500, "inelastic flow")
def no_damage(c):
    src = Src(c["v"])
    nb = c["nb"]
    explicit = c["method"] == "forward-euler"
    E = mat.mk_par(src, c["m"]["E"], 5e4, 2e5, nb)
    flow, rf = mat.build_flow(c["m"]["flow"], src, nb)
    t, e, Tv = mdl.load(c["ld"], src, nb, de=2e-5 if explicit else 8e-4)
    a = M.InelasticModel(E.obj, flow)
    b = M.DamagedInelasticModel(E.obj, flow)
    out = []
    for m in (a, b):
        with mdl.Quiet() as q:
            out.append(M.ModelIntegrator(m, method=c["method"], **skw(c, 1e-8)).solve_strain(T(t), T(e), T(Tv)).detach())
        if q.failed or not bool(torch.all(torch.isfinite(out[-1]))):
            raise Skip()
    ya, yb = out
    if float(ya.abs().max()) > 1e5:
        raise Skip()
    close(yb[..., -1], np.zeros(yb.shape[:2]), "damage without a damage model", rtol=0, atol=1e-9)
    close(yb[..., :-1], ya, "history without damage", rtol=1e-6, atol=1e-5)
    if bool((ya[..., 1:] != 0).any()) or float((ya[..., 0]).abs().max()) > 0:
        return c["m"]["flow"]["k"]


# --------------------------------------------------------------------- P17
ctl_st = fd(
    m=mdl.plain_st,
    ld=mdl.load_st,
    nb=st.integers(1, 4),
    sol=odes.solver_st,
    sol2=odes.solver_st,
    v=vals((2, 2, 1)),
)


def solved(integ, mode, t, x, Tv, ctrl=None):
    k = int(1e6 * abs(np.sum(x)))  # memory layouts that depend on the case
    args = (laid(t, k), laid(x, k + 3), laid(Tv, k // 7))
    before = snapshot(*args)
    with mdl.Quiet() as q:
        if mode == "strain":
            y = integ.solve_strain(*args)
        elif mode == "stress":
            y = integ.solve_stress(*args)
        else:
            y = integ.solve_both(args[0], args[2], args[1], torch.tensor(ctrl))
    unchanged(before, args, f"{mode} controlled simulation")
    if q.failed or not bool(torch.all(torch.isfinite(y))):
        raise Skip()
    return y.detach().numpy()


def agree(parts, ref, z, t, x, Tv, ctrl):
    """
    Compare, but accept another exact solution of the discretised equations
    (under stress control softening models can have several)
    """
    try:
        for p in parts:
            close(*p[:3], **p[3])
    except Violation:
        if step_errors(ref, z, t, x, Tv, ctrl)[0] is None:
            raise Skip() from None
        raise


@sub("P17", "round_trip", ctl_st, 400, "inelastic strain")
def round_trip(c):
    src = Src(c["v"])
    nb = c["nb"]
    model, ref = mdl.build_model(c["m"], src, nb, slow=1e-3)
    t, e, Tv = mdl.load(c["ld"], src, nb)
    i1 = M.ModelIntegrator(model, **skw(c, 1e-9))
    i2 = M.ModelIntegrator(model, **skw({"sol": c["sol2"]}, 1e-9))
    y = solved(i1, "strain", t, e, Tv)
    if np.max(np.abs(y)) > 1e4 or (ref.dam is not None and np.max(y[..., -1]) > 0.5):
        raise Skip()
    z = solved(i2, "stress", t, y[..., 0], Tv)
    sc = np.max(np.abs(e))
    agree(
        [
            (z[..., 0], e, "strain from the stress of the strain controlled run", dict(rtol=1e-5, atol=1e-6 * sc + 1e-10)),
            (z[..., 1:], y[..., 1:], "internal variables", dict(rtol=1e-5, atol=1e-6 * np.max(np.abs(y)) + 1e-8)),
        ],
        ref, z, t, y[..., 0], Tv, np.ones(nb, dtype=int),
    )
    if np.any(y[..., 1:] != 0) or c["m"]["flow"]["k"] == "perf":
        return c["m"]["flow"]["k"] + (",damage" if ref.dam is not None else "")


@sub("P17", "round_trip_reverse", ctl_st, 300, "inelastic strain")
def round_trip_reverse(c):
    src = Src(c["v"])
    nb = c["nb"]
    model, ref = mdl.build_model(c["m"], src, nb, slow=1e-3)
    t, e, Tv = mdl.load(c["ld"], src, nb)
    s = stress_history(src, t, e, 80.0)
    i1 = M.ModelIntegrator(model, **skw(c, 1e-9))
    i2 = M.ModelIntegrator(model, **skw({"sol": c["sol2"]}, 1e-9))
    y = solved(i1, "stress", t, s, Tv)
    if np.max(np.abs(np.diff(y[..., 0], axis=0)), initial=0.0) > 0.01 or (ref.dam is not None and np.max(y[..., -1]) > 0.5):
        raise Skip()
    z = solved(i2, "strain", t, y[..., 0], Tv)
    agree(
        [
            (z[..., 0], s, "stress from the strain of the stress controlled run", dict(rtol=1e-5, atol=1e-4)),
            (z[..., 1:], y[..., 1:], "internal variables", dict(rtol=1e-5, atol=1e-4)),
        ],
        ref, z, t, y[..., 0], Tv, np.zeros(nb, dtype=int),
    )
    if np.any(y[..., 1:] != 0) or c["m"]["flow"]["k"] == "perf":
        return c["m"]["flow"]["k"] + (",damage" if ref.dam is not None else "")


@sub("P17", "mixed", ctl_st, 350, "both kinds of control in the batch")
def mixed(c):
    src = Src(c["v"])
    nb = c["nb"]
    model, ref = mdl.build_model(c["m"], src, nb, slow=1e-3)
    t, e, Tv = mdl.load(c["ld"], src, nb)
    s = stress_history(src, t, e)
    ctrl = src.i(0, 1, (nb,))
    i1 = M.ModelIntegrator(model, **skw(c, 1e-9))
    i2 = M.ModelIntegrator(model, **skw({"sol": c["sol2"]}, 1e-9))
    a = solved(i2, "strain", t, e, Tv)
    b = solved(i2, "stress", t, s, Tv)
    if max(np.max(np.abs(a)), np.max(np.abs(b))) > 1e4:
        raise Skip()
    m = solved(i1, "both", t, np.where(ctrl == 1, s, e), Tv, ctrl)
    ex = np.where((ctrl == 1)[None, :, None], b, a)
    k = ctrl == 1
    agree(
        [
            (m, ex, "mixed control against single control", dict(rtol=1e-5, atol=1e-7 * max(1.0, np.max(np.abs(ex))))),
            (m[:, k, 0], b[:, k, 0], "strains of the stress controlled samples", dict(rtol=1e-5, atol=1e-9 + 1e-7 * np.max(np.abs(b[..., 0]), initial=0.0))),
        ],
        ref, m, t, np.where(k, s, e), Tv, ctrl,
    )
    if 0 < ctrl.sum() < nb:
        return c["m"]["flow"]["k"] + (",damage" if ref.dam is not None else "")


@sub("P17", "zero_steps", fd(m=mdl.plain_st, ld=mdl.load_st, nb=st.integers(1, 4), sol=odes.solver_st, sol2=odes.solver_st, mode=sf("strain", "stress", "both"), start=st.booleans(), adj=st.booleans(), v=vals((2, 2, 1))), 300, "every case")
def zero_steps(c):
    """Steps of zero duration with unchanged loading"""
    src = Src(c["v"])
    nb, mode = c["nb"], c["mode"]
    model, ref = mdl.build_model(c["m"], src, nb, slow=1e-3)
    t, e, Tv = mdl.load(c["ld"], src, nb)
    ctrl = {"strain": np.zeros(nb, dtype=int), "stress": np.ones(nb, dtype=int), "both": src.i(0, 1, (nb,))}[mode]
    x = np.where(ctrl == 1, stress_history(src, t, e), e)
    nt = t.shape[0]
    rep = np.where(src.p(0.4, (nt,)), src.i(1, 2, (nt,)), 0)
    if c["start"]:
        rep[0] = max(rep[0], 1)
    if rep.sum() == 0:
        rep[-1] = 1
    idx = np.repeat(np.arange(nt), rep + 1)
    a = solved(M.ModelIntegrator(model, use_adjoint=c["adj"], **skw({"sol": c["sol2"]}, 1e-9)), mode, t, x, Tv, ctrl)
    if np.max(np.abs(a)) > 1e4:
        raise Skip()
    b = solved(M.ModelIntegrator(model, use_adjoint=c["adj"], **skw(c, 1e-9)), mode, t[idx], x[idx], Tv[idx], ctrl)
    same = np.all(np.isfinite(b))
    need(same, "not finite with repeated times")
    agree(
        [(b, a[idx], "history with repeated times", dict(rtol=1e-5, atol=1e-7 * max(1.0, np.max(np.abs(a)))))],
        ref, b, t[idx], x[idx], Tv[idx], ctrl,
    )
    for i in range(1, len(idx)):
        if idx[i] == idx[i - 1]:
            close(b[i], b[i - 1], "state after a step of zero duration", rtol=1e-9, atol=1e-8)
    return mode + (",start" if rep[0] else "")
