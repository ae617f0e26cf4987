"""P01: adjoint gradients = backpropagated gradients = finite differences"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import ode

from .. import odes
from ..core import RULES, Skip, sub
from ..gen import Src, T, close, fd, laid, need, often, same_shape, sf, vals

RULES["P01"] = (
    "Cases: generated ODEs, grids, integrator options and loss weights over the whole history; "
    "gradients of the adjoint, of plain backpropagation, and finite differences of a numpy integrator."
)

PARTS = dict(
    ode=odes.ode_st,
    grid=odes.grid_st,
    nb=often(st.integers(1, 4), 10, 33),
    method=odes.method_st,
    s=odes.solver_st,
    s2=odes.solver_st,
    extra=st.integers(0, 2),
    y0grad=st.booleans(),
    loss=sf("all", "all", "last", "one", "norm", "mid"),
    v=vals((2, 2, 1)),
)
case = fd(**PARTS)


class OdeX(odes.Ode):
    """The ODE with extra tensors that are not registered as parameters"""

    def __init__(self, k, extra, unit, yu, **kw):
        super().__init__(k, **kw)
        self.unit, self.yu = unit, yu
        self.ex = tuple(extra)  # a plain tuple: invisible to parameters()

    def forward(self, t, y):
        f, J = super().forward(t, y)
        if len(self.ex) > 0:
            f = f + self.ex[0] * torch.sin(t[..., None] / self.unit) * self.yu / self.unit
        if len(self.ex) > 1:
            th = torch.tanh(y / self.yu)
            f = f - self.ex[1] * th * self.yu / self.unit
            J = J - torch.diag_embed(self.ex[1] * (1 - th**2)) / self.unit
        return f, J


def setup(c):
    src = Src(c["v"])
    k = odes.coefs(c["ode"], src, c["nb"])
    n, nb = c["ode"]["n"], c["nb"]
    y0 = src.n((nb, n))
    if c["ode"]["rest"]:
        y0 = y0 * 0.0
    g = dict(c["grid"])
    if c["method"] == "forward-euler":
        g["dt"] = min(g["dt"], 0.1)
        y0 = np.clip(y0, -1.5, 1.5)
    times = odes.grid(g, src, nb)
    k, times, y0 = odes.stretch(c["ode"], k, times, y0)
    ex = [src.u(-0.5, 0.5, (n,)), src.u(0.0, 0.5, (nb, n))][: c["extra"]]
    nt = times.shape[0]
    W = src.n((nt, nb, n))
    V = 0.2 * src.n((nt, nb, n))
    if c["loss"] == "last":
        W[:-1], V[:-1] = 0, 0
    elif c["loss"] == "one":
        keep = int(src.i(0, nt - 1))
        m = np.zeros((nt, 1, 1))
        m[keep] = 1
        W, V = W * m, V * m
    elif c["loss"] == "mid":
        W[-1], V[-1] = 0, 0
    return src, k, y0, times, ex, W, V


def loss_of(y, W, V, kind):
    if kind == "norm":
        return torch.sqrt(torch.sum((y * W) ** 2) + 0.1)
    return torch.sum(W * y) + torch.sum(V * y**2)


def grads(c, fn, s, k, y0, times, ex, W, V, give_extra):
    ext = [T(e).requires_grad_(True) for e in ex]
    yu = c["ode"]["yunit"]
    m = OdeX(k, ext, c["ode"]["unit"], yu, frozen=c["ode"]["frozen"], unused=c["ode"]["unused"])
    y0t = laid(y0, c["v"]["seed"]).detach().requires_grad_(c["y0grad"])
    kw = odes.solver_kw(s, yu=yu)
    if give_extra:
        kw["extra_params"] = ext
    y = fn(m, y0t, laid(times, c["v"]["seed"] // 7), method=c["method"], **kw)
    L = loss_of(y / yu, T(W), T(V), c["loss"])
    if L.requires_grad:  # not when there is no step at all
        L.backward()
    out = {n: p.grad for n, p in m.named_parameters()}
    for i, e in enumerate(ext):
        out[f"extra{i}"] = e.grad
    if c["y0grad"]:
        out["y0"] = y0t.grad
    # gradients with respect to the quantities in their natural units
    f = dict(odes.factors(c["ode"]), y0=yu)
    out = {n: g if g is None else g * f.get(n, 1.0) for n, g in out.items()}
    shapes = {n: p.shape for n, p in m.named_parameters()}
    shapes.update({f"extra{i}": e.shape for i, e in enumerate(ext)})
    shapes["y0"] = y0t.shape
    return float(L.detach()), out, shapes, y.detach() / yu


@sub("P01", "adjoint_vs_autodiff", case, 4200, "some gradient is nonzero")
def adjoint_vs_ad(c):
    src, k, y0, times, ex, W, V = setup(c)
    la, a, sh, ya = grads(c, ode.odeint_adjoint, c["s"], k, y0, times, ex, W, V, True)
    lb, b, _, yb = grads(c, ode.odeint, c["s2"], k, y0, times, ex, W, V, False)
    close(ya, yb, "forward history", rtol=1e-8, atol=1e-8)
    nz = False
    for n in a:
        if n == c["ode"]["frozen"]:
            need(a[n] is None or not bool(torch.any(a[n] != 0)), f"gradient for frozen parameter {n}: {a[n]}")
            continue
        x = torch.zeros(sh[n]) if a[n] is None else a[n]
        y = torch.zeros(sh[n]) if b[n] is None else b[n]
        sc = max(1.0, float(y.abs().max()))
        close(x, y, f"adjoint gradient of {n} against autodiff", rtol=1e-7, atol=1e-7 * sc)
        nz = nz or bool(torch.any(y != 0))
        if n == "extra_unused":
            need(not bool(torch.any(x != 0)), f"gradient for unused parameter: {x}")
    if nz:
        nt, bs = c["grid"]["nt"], c["s"]["block"]
        chunk = "one-chunk" if bs >= nt - 1 else ("even-chunks" if (nt - 1) % bs == 0 else "partial-chunk")
        return ",".join(
            [c["method"].split("-")[0], c["grid"]["kind"], chunk, c["loss"]]
            + (["extra"] if c["extra"] else [])
            + (["rest"] if c["ode"]["rest"] else [])
            + (["frozen"] if c["ode"]["frozen"] else [])
        )


@sub("P01", "against_differences", case, 900, "the directional derivative is nonzero")
def against_fd(c):
    """Both gradients against differences of the numpy integrator, in a random direction"""
    src, k, y0, times, ex, W, V = setup(c)
    if ex:
        c = dict(c, extra=0)
        ex = []
    nm = sorted(k)
    f, yu = odes.factors(c["ode"]), c["ode"]["yunit"]
    D = {n: src.n(k[n].shape) for n in nm}
    dy = src.n(y0.shape) if c["y0grad"] else np.zeros_like(y0)
    # directions of coefficients that are structurally off stay off in the reference too
    frz = c["ode"]["frozen"]
    if frz:
        D[frz] = D[frz] * 0.0

    def L(eps):
        kk = {n: k[n] + eps * D[n] * f[n] for n in nm}
        y = odes.NpOde(kk, yu).integrate(y0 + eps * dy * yu, times, c["method"]) / yu
        if c["loss"] == "norm":
            return np.sqrt(np.sum((y * W) ** 2) + 0.1)
        return np.sum(W * y) + np.sum(V * y**2)

    h = 1e-4
    d1 = (L(h) - L(-h)) / (2 * h)
    d2 = (L(h / 2) - L(-h / 2)) / h
    ex_ = (4 * d2 - d1) / 3
    if not np.isfinite(ex_) or abs(d1 - d2) > 1e-3 * (1 + abs(d2)):
        raise Skip()
    for nme, fn in (("adjoint", ode.odeint_adjoint), ("backpropagation", ode.odeint)):
        _, g, _, _ = grads(c, fn, c["s"], k, y0, times, ex, W, V, True)
        tot = sum(float(torch.sum(g[n] * T(D[n]))) for n in nm if g[n] is not None)
        if c["y0grad"]:
            tot += float(torch.sum(g["y0"] * T(dy)))
        mag = sum(float(torch.sum(torch.abs(g[n] * T(D[n])))) for n in nm if g[n] is not None)
        close(tot, ex_, f"directional derivative by {nme}", rtol=1e-5, atol=1e-6 * (1 + mag) + abs(d1 - d2) * 0.1)
    if abs(ex_) > 1e-8:
        return c["method"].split("-")[0] + "," + c["loss"]


@sub("P01", "history", fd(runs=st.lists(st.tuples(odes.solver_st, odes.solver_st, st.booleans()), min_size=2, max_size=3), passes=st.integers(2, 5), **{k: v for k, v in PARTS.items() if k not in ("s", "s2", "loss", "y0grad")}), 500, "two or more passes with nonzero gradients")
def passes(c):
    """
    One ODE integrated several times, possibly from the end of an earlier run, then several losses of the histories
    taken back in any order, repeatedly
    """
    c = dict(c, loss="all", y0grad=True)
    src, k, y0, times, ex, _, _ = setup(c)
    f, yu = odes.factors(c["ode"]), c["ode"]["yunit"]
    starts = [y0] + [y0 + yu * 0.3 * src.n(y0.shape) for _ in c["runs"][1:]]
    nts = [times.shape[0]] + [int(src.i(1, times.shape[0])) for _ in c["runs"][1:]]
    plan = []
    for _ in range(c["passes"]):
        which = [int(q) for q in src.rs.permutation(len(nts))[: int(src.i(1, 2))]]
        w = [(src.n((nts[q],) + y0.shape), 0.2 * src.n((nts[q],) + y0.shape)) for q in which]
        plan.append((which, w, bool(src.p(0.3))))

    def go(fn, j):
        ext = [T(e).requires_grad_(True) for e in ex]
        m = OdeX(k, ext, c["ode"]["unit"], yu, frozen=c["ode"]["frozen"], unused=c["ode"]["unused"])
        ys, y0s = [], []
        for q, (run, n, z) in enumerate(zip(c["runs"], nts, starts)):
            kw = odes.solver_kw(run[j], yu=yu)
            if fn is ode.odeint_adjoint:
                kw["extra_params"] = ext
            a = ys[-1][-1] if q and run[2] else T(z).requires_grad_(True)
            if a.is_leaf:
                y0s.append(a)
            ys.append(fn(m, a, T(times[:n]), method=c["method"], **kw))
        wrt = {n: p for n, p in m.named_parameters() if p.requires_grad}
        wrt.update({f"extra{i}": e for i, e in enumerate(ext)})
        wrt.update({f"y0_{i}": e for i, e in enumerate(y0s)})
        out = []
        for which, w, last in plan:
            L = sum(loss_of(ys[q][-1:] / yu if last else ys[q] / yu, T(W[-1:] if last else W), T(V[-1:] if last else V), "all") for q, (W, V) in zip(which, w))
            g = torch.autograd.grad(L, list(wrt.values()), retain_graph=True, allow_unused=True)
            sc = dict(f, **{f"y0_{i}": yu for i in range(len(y0s))})
            out.append({n: torch.zeros_like(p) if x is None else x * sc.get(n, 1.0) for (n, p), x in zip(wrt.items(), g)})
        return out

    got, ref = go(ode.odeint_adjoint, 0), go(ode.odeint, 1)
    nz = 0
    for i, (a, b) in enumerate(zip(got, ref)):
        for n in b:
            sc = max(1.0, float(b[n].abs().max()))
            close(a[n], b[n], f"pass {i} over {plan[i][0]}: adjoint gradient of {n} against autodiff", rtol=1e-7, atol=1e-7 * sc)
        nz += any(bool(torch.any(x != 0)) for x in b.values())
    if nz > 1:
        return c["method"].split("-")[0] + (",chained" if any(r[2] for r in c["runs"][1:]) else "")
