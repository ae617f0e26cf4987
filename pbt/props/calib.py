"""P30: gradients of simulated material histories with respect to the material parameters"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import models as M

from .. import mat, mdl, odes
from ..core import RULES, sub
from ..gen import Skip, Src, T, close, fd, need, sf, vals
from .model import stress_history

RULES["P30"] = (
    "Cases: generated models with every material value trainable, load histories under all controls and smooth losses; "
    "adjoint gradients against backpropagation (with other solver options) and both against differences of the loss."
)

case = fd(
    m=st.one_of(mdl.model_st, mdl.plain_st),
    ld=mdl.load_st,
    nb=st.integers(1, 4),
    s=odes.solver_st,
    s2=odes.solver_st,
    mode=sf("strain", "strain", "stress", "both"),
    method=odes.method_st,
    loss=sf("all", "last", "stress", "norm"),
    give=sf("param", "param", "extra", "derived"),
    rest=st.booleans(),
    v=vals((2, 2, 1)),
)


class Problem:
    def __init__(self, c):
        self.c = c
        src = Src(c["v"])
        nb = c["nb"]
        self.mode = c["mode"]
        if self.mode != "strain" and mat.has(c["m"]["flow"], "km", "soft", "ri"):
            self.mode = "strain"
        reg = []
        with mat.building(reg=reg):
            mdl.build_model(c["m"], src, nb, slow=1e-3)
        self.p0 = [p.detach().clone() for p in reg]
        explicit = c["method"] == "forward-euler"
        t, e, Tv = mdl.load(c["ld"], src, nb, de=2e-5 if explicit else 8e-4)
        self.ctrl = {"strain": np.zeros(nb, dtype=int), "stress": np.ones(nb, dtype=int), "both": src.i(0, 1, (nb,))}[self.mode]
        x = np.where(self.ctrl == 1, stress_history(src, t, e, 40.0), e)
        if c["rest"]:  # start with an unloaded hold
            x = np.concatenate([x[:1], x])
            Tv = np.concatenate([Tv[:1], Tv])
            t = np.concatenate([t[:1], t + 1.0])
        self.t, self.x, self.T = T(t), T(x), T(Tv)
        self.src = src
        self.w = None

    def build(self, vals_, kind="param"):
        """Model with the given parameter values: (model, tensors to differentiate, extra parameters)"""
        c = self.c
        src = Src(c["v"])
        it = iter(vals_)
        leaves, used = [], []
        old = mat.par_t

        def par_t(v, batched=False):
            x = next(it).detach().clone()
            if kind == "param":
                x = torch.nn.Parameter(x)
                leaves.append(x)
            else:
                x.requires_grad_(True)
                leaves.append(x)
                if kind == "derived":
                    x = x * 1.0
            used.append(x)
            return x

        mat.par_t = par_t
        try:
            model, _ = mdl.build_model(c["m"], src, c["nb"], slow=1e-3)
        finally:
            mat.par_t = old
        need(next(it, None) is None, "harness: parameters left over")
        return model, leaves, ([] if kind == "param" else used)

    def run(self, vals_, s, adjoint, kind="param"):
        c = self.c
        model, leaves, extra = self.build(vals_, kind)
        kw = odes.solver_kw(s, tight=False)
        kw.update(rtol=1e-16, atol=1e-10, miter=60)
        if adjoint:
            kw["extra_params"] = extra
        integ = M.ModelIntegrator(model, use_adjoint=adjoint, method=c["method"], **kw)
        with mdl.Quiet() as q:
            if self.mode == "strain":
                y = integ.solve_strain(self.t, self.x, self.T)
            elif self.mode == "stress":
                y = integ.solve_stress(self.t, self.x, self.T)
            else:
                y = integ.solve_both(self.t, self.T, self.x, torch.tensor(self.ctrl))
        if q.failed or not bool(torch.all(torch.isfinite(y.detach()))) or float(y.detach().abs().max()) > 1e4:
            raise Skip()
        return y, leaves

    def loss(self, y):
        c = self.c
        if self.w is None:
            W = self.src.n(tuple(y.shape))
            sc = np.max(np.abs(y.detach().numpy()), axis=(0, 1)) + 1e-3
            sc[0] = 1.0
            # strains and stresses of a batch with both kinds of control
            W = W / sc
            W[:, :, 0] /= np.where(self.ctrl == 1, 1e-3, 50.0)
            if c["loss"] == "last":
                W[:-1] = 0
            elif c["loss"] == "stress":
                W[..., 1:] = 0
            self.w = T(W)
        z = self.w * y
        if c["loss"] == "norm":
            return torch.sqrt(torch.sum(z**2) + 0.1)
        return torch.sum(z) + 0.3 * torch.sum(z**2)

    def grad(self, s, adjoint, kind="param"):
        y, leaves = self.run(self.p0, s, adjoint, kind)
        L = self.loss(y)
        if not L.requires_grad:
            return float(L), [torch.zeros_like(p) for p in self.p0], y.detach()
        L.backward()
        g = [torch.zeros_like(p) if p.grad is None else p.grad for p in leaves]
        return float(L.detach()), g, y.detach()


def label(pb, c, nz):
    if nz:
        return ",".join([pb.mode, c["m"]["flow"]["k"], c["method"][:3]] + (["damage"] if c["m"]["dam"] else []) + [c["give"]])


@sub("P30", "adjoint_vs_autodiff", case, 360, "the gradient of some flow parameter is nonzero")
def adjoint_vs_autodiff(c):
    pb = Problem(c)
    la, ga, ya = pb.grad(c["s2"], False)
    lb, gb, yb = pb.grad(c["s"], True, c["give"])
    sc = np.max(np.abs(ya.numpy()))
    if float((ya - yb).abs().max()) > 1e-5 * sc:
        raise Skip()  # another solution of a softening model
    close(lb, la, "loss", rtol=1e-6, atol=1e-6)
    # sensitivities per relative change of the parameter
    tot = max([float((g * p).abs().max()) for g, p in zip(ga, pb.p0)] + [0.0])
    for i, (a, b, p) in enumerate(zip(gb, ga, pb.p0)):
        need(bool(torch.all(torch.isfinite(b))), f"backpropagation gradient of parameter {i} not finite: {b}")
        need(bool(torch.all(torch.isfinite(a))), f"adjoint gradient of parameter {i} not finite: {a}")
        s = float(p.abs().max()) + 1e-12
        close(a * s, b * s, f"adjoint gradient of parameter {i} (times its size) against autodiff", rtol=1e-5, atol=1e-7 * (tot + 1e-3))
    nz = any(bool(torch.any(g != 0)) for g in ga[-1:] + ga[1:2])
    return label(pb, c, nz)


@sub("P30", "differences", case, 200, "the directional derivative is nonzero")
def differences(c):
    pb = Problem(c)
    la, g, y0 = pb.grad(c["s"], True, c["give"])
    s = pb.src
    # direction: relative changes of some parameters
    some = s.p(0.5, (len(pb.p0),))
    if not some.any():
        some[int(s.i(0, len(pb.p0) - 1))] = True
    D = [T(s.u(0.2, 1.0, tuple(p.shape)) * s.sign(tuple(p.shape))) * p * float(k) for p, k in zip(pb.p0, some)]
    h = 1e-4

    def at(f):
        y, _ = pb.run([p + f * h * d for p, d in zip(pb.p0, D)], c["s2"], False)
        if float((y.detach() - y0).abs().max()) > 0.3 * float(y0.abs().max()):
            raise Skip()
        return float(pb.loss(y).detach())

    d1 = (at(1) - at(-1)) / (2 * h)
    d2 = (at(0.5) - at(-0.5)) / h
    ex = (4 * d2 - d1) / 3
    tot = sum(float((a * b).sum()) for a, b in zip(g, D))
    mag = sum(float((a * b).abs().sum()) for a, b in zip(g, D))
    if abs(d1 - d2) > 1e-3 * (abs(d2) + 1e-6 * abs(la)) + 1e-8:
        raise Skip()
    close(tot, ex, "directional derivative of the loss", rtol=1e-4, atol=1e-6 * (1 + abs(la)) + 1e-6 * mag + abs(d1 - d2))
    return label(pb, c, abs(ex) > 1e-4 * abs(la))


hist_case = fd(
    m=st.one_of(mdl.model_st, mdl.plain_st),
    ld=st.lists(mdl.load_st, min_size=2, max_size=3),
    nb=st.integers(1, 3),
    s=odes.solver_st,
    adj=st.sampled_from([True, True, False]),
    ops=st.lists(
        fd(
            load=st.integers(0, 2),
            mode=sf("strain", "stress", "both"),
            plain=sf(False, False, True),  # without gradients
            late=st.booleans(),  # gradients only after the next simulation
            change=sf("", "", "params", "data"),  # afterwards
        ),
        min_size=2,
        max_size=5,
    ),
    v=vals((2, 2, 1)),
)


@sub("P30", "reuse", hist_case, 120, "two or more simulations with gradients")
def reuse(c):
    """One integrator for a series of simulations and gradients, against integrators used once"""
    src = Src(c["v"])
    nb = c["nb"]
    pb = Problem(dict(c, ld=c["ld"][0], mode="strain", method="backward-euler", rest=False, loss="all", give="param"))
    only = mat.has(c["m"]["flow"], "km", "soft", "ri")
    data = []
    for l in c["ld"]:
        t, e, Tv = mdl.load(l, src, nb)
        data.append([T(t), T(e), T(stress_history(src, t, e, 40.0)), T(Tv)])
    kw = odes.solver_kw(c["s"], tight=False)
    kw.update(rtol=1e-16, atol=1e-9, miter=60)
    model, leaves, _ = pb.build(pb.p0)
    integ = M.ModelIntegrator(model, use_adjoint=c["adj"], **kw)
    W = None

    def simulate(it, d, mode, ctrl):
        t, e, s, Tv = d
        with mdl.Quiet() as q:
            if mode == "strain":
                y = it.solve_strain(t, e, Tv)
            elif mode == "stress":
                y = it.solve_stress(t, s, Tv)
            else:
                y = it.solve_both(t, Tv, torch.where(ctrl == 1, s, e), ctrl)
        if q.failed or not bool(torch.all(torch.isfinite(y.detach()))) or float(y.detach().abs().max()) > 1e4:
            raise Skip()
        return y

    def gradient(y, w, lv):
        L = torch.sum(w * y)
        g = torch.autograd.grad(L, lv, allow_unused=True) if L.requires_grad else [None] * len(lv)
        return [torch.zeros_like(p) if x is None else x for x, p in zip(g, lv)]

    wait, count = [], 0

    def settle():
        for y, w, lv2, y2, what in wait:
            g, g2 = gradient(y, w, leaves), gradient(y2, w, lv2)
            for k, (a, b) in enumerate(zip(g, g2)):
                close(a, b, f"gradient of parameter {k}, {what}", rtol=1e-9, atol=1e-9 * (1e-9 + float(b.abs().max())))
        wait.clear()

    for i, op in enumerate(c["ops"]):
        mode = "strain" if only else op["mode"]
        d = data[op["load"] % len(data)]
        ctrl = torch.tensor(src.i(0, 1, (nb,)))
        what = f"simulation {i + 1} ({mode} control) with one integrator"
        m2, lv2, _ = pb.build([p.detach() for p in leaves])
        fresh = M.ModelIntegrator(m2, use_adjoint=c["adj"], **kw)
        y2 = simulate(fresh, [x.clone() for x in d], mode, ctrl)
        if op["plain"]:
            with torch.no_grad():
                y = simulate(integ, d, mode, ctrl)
        else:
            y = simulate(integ, d, mode, ctrl)
        close(y, y2, what, rtol=1e-10, atol=1e-12)
        if not op["plain"]:
            count += 1
            wait.append((y, T(src.n(tuple(y.shape))), lv2, y2, what))
            if not op["late"]:
                settle()
        if op["change"] and i + 1 < len(c["ops"]):
            settle()
            with torch.no_grad():
                if op["change"] == "params" and leaves:
                    leaves[int(src.i(0, len(leaves) - 1))].mul_(1.0 + 0.05 * float(src.u(0.1, 1.0)))
                else:
                    d[int(src.i(1, 2))].mul_(0.9)
    settle()
    if count > 1:
        return ("adjoint" if c["adj"] else "autodiff") + "," + c["m"]["flow"]["k"]
