"""P22: derivative helpers; P31: small tensor building blocks"""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import neuralode
from pyoptmat import utility as U

from ..core import RULES, sub
from ..gen import Src, T, close, fd, need, same_shape, sf, snapshot, unchanged, vals

RULES["P22"] = (
    "Cases: generated nonlinear functions with per-sample coefficients and unequal argument and result shapes; "
    "oracle is the hand-written Jacobian in numpy."
)
RULES["P31"] = "Cases: generated shapes and values including zeros; oracle is numpy."

dims = st.lists(st.integers(1, 4), max_size=2)
SHAPES = st.one_of(st.just([]), st.lists(st.integers(1, 4), min_size=1, max_size=2))


# ------------------------------------------------------- numerical derivatives
num = fd(
    which=sf("batch", "batch", "new", "old"),
    s1=SHAPES,
    s2=SHAPES,
    nb=st.lists(st.integers(1, 4), min_size=1, max_size=3),
    zero=st.booleans(),
    eps=sf(None, 1e-5),
    mag=sf(1.0, 100.0),
    v=vals((2, 2, 1)),
)


@sub("P22", "numerical", num, 3000, "more than one argument or result component")
def numerical(c):
    src = Src(c["v"])
    bs = tuple(c["nb"]) if c["which"] == "batch" else tuple(c["nb"][:1])
    s1, s2 = tuple(c["s1"]), tuple(c["s2"])
    n1, n2 = math.prod(s1), math.prod(s2)
    W = src.n(bs + (n1, n2))
    Q = src.n(bs + (n1, n2, n2))
    Wt, Qt = T(W), T(Q)
    m = c["mag"]

    def fn(x):
        y = x.reshape(bs + (n2,)) / m
        r = torch.einsum("...ij,...j->...i", Wt, torch.sin(y)) + 0.5 * torch.einsum("...ijk,...j,...k->...i", Qt, y, y)
        return r.reshape(bs + s1)

    x = src.u(-1.0, 1.0, bs + s2) * m
    if c["zero"]:
        x = np.where(src.p(0.3, bs + s2), 0.0, x)
    xt = T(x)
    before = snapshot(xt)
    kw = {} if c["eps"] is None else {"eps": c["eps"]}
    if c["which"] == "batch":
        if len(bs) > 1 or src.rs.rand() < 0.5:  # one batch dimension is the default
            kw["nbatch_dim"] = len(bs)
        got = U.batch_differentiate(fn, xt, **kw)
    else:
        got = (U.new_differentiate if c["which"] == "new" else U.differentiate)(fn, xt, **kw)
    unchanged(before, (xt,), "numerical differentiation")
    y = x.reshape(bs + (n2,)) / m
    J = W * np.cos(y)[..., None, :] + 0.5 * (
        np.einsum("...ijk,...k->...ij", Q, y) + np.einsum("...ijk,...j->...ik", Q, y)
    )
    J = (J / m).reshape(bs + s1 + s2)
    if c["which"] == "new":  # keeps single entries as a dimension
        J = J.reshape(bs + (s1 or (1,)) + (s2 or (1,)))
    eps = c["eps"] or 1e-6
    h = np.max(np.abs(x), initial=1.0) * eps
    big = np.max(np.abs(W), initial=1.0) + n2 * n2 * np.max(np.abs(Q), initial=1.0)
    # truncation + cancellation (the increment is never less than eps)
    tol = 10 * big * n2 / m**2 * h + 1e-14 * big * n2 / eps
    close(got, J, f"{c['which']}: numerical derivative", rtol=1e-9, atol=tol)
    if n1 * n2 > 1:
        return f"{c['which']}:{len(s1)},{len(s2)}"


# ------------------------------------------------------------- jacobianize
jac = fd(
    na=st.integers(1, 3),
    n=st.lists(st.integers(1, 4), min_size=3, max_size=3),
    m=st.integers(1, 4),
    lead=st.lists(st.integers(1, 3), max_size=3),
    how=sf("all", "all", "decorator", "call", "int"),
    pick=st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True),
    grad=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P22", "jacobianize", jac, 800, "more than one sample and argument component")
def jacobianize(c):
    src = Src(c["v"])
    na, m, lead = c["na"], c["m"], tuple(c["lead"])
    n = c["n"][:na]
    W = [src.n((m, k)) for k in n]
    P = src.n((m, n[0], n[-1]))
    Wt, Pt = [T(w) for w in W], T(P)
    if c["grad"]:
        Wt = [w.requires_grad_(True) for w in Wt]

    def fn(*a):
        r = sum(torch.matmul(torch.sin(x), w.T) for x, w in zip(a, Wt))
        return r + torch.einsum("mjk,...j,...k->...m", Pt, a[0], a[-1])

    pick = tuple(i for i in c["pick"] if i < na) or (0,)
    x = [src.n(lead + (k,)) for k in n]
    xt = [T(v) for v in x]
    before = snapshot(*xt)
    if c["how"] == "all":
        res = U.jacobianize()(fn)(*xt)
        chosen = tuple(range(na))
    elif c["how"] == "decorator":
        res = U.jacobianize(argnums=pick)(fn)(*xt)
        chosen = pick
    elif c["how"] == "int":
        res = U.jacobianize(argnums=pick[0])(fn)(*xt)
        chosen = pick[:1]
    else:
        res = U.jacobianize()(fn)(*xt, argnums=pick)
        chosen = pick
    unchanged(before, xt, "the Jacobian decorator")
    val, J = res
    if c["how"] == "int":
        J = (J,)
    ex = sum(np.sin(a) @ w.T for a, w in zip(x, W)) + np.einsum("mjk,...j,...k->...m", P, x[0], x[-1])
    close(val, ex, "value", rtol=1e-10, atol=1e-10)
    need(len(J) == len(chosen), f"{len(J)} Jacobians for {len(chosen)} arguments")
    for j, i in zip(J, chosen):
        e = np.cos(x[i])[..., None, :] * W[i]
        if i == 0:
            e = e + np.einsum("mjk,...k->...mj", P, x[-1])
        if i == na - 1:
            e = e + np.einsum("mjk,...j->...mk", P, x[0])
        close(j, e, f"Jacobian for argument {i}", rtol=1e-10, atol=1e-10)
    if c["grad"]:
        # parameters receive gradients through the value and the Jacobian
        g = torch.autograd.grad(J[0].sum() + val.sum(), Wt[chosen[0]])[0]
        i = chosen[0]
        e = (np.sin(x[i]) + np.cos(x[i])).reshape(-1, n[i]).sum(axis=0) + np.zeros((m, 1))
        close(g, e, "gradient of the value and the Jacobian", rtol=1e-9, atol=1e-9)
    if math.prod(lead) > 1 and max(n) > 1:
        return f"{c['how']},lead{len(lead)}"


# ---------------------------------------------------------------- neural ODE
net = fd(
    n=st.integers(1, 4),
    s=st.integers(1, 3),
    hid=st.lists(st.integers(1, 6), max_size=2),
    lead=st.lists(st.integers(1, 4), min_size=1, max_size=2),
    v=vals((2, 2, 1)),
)


@sub("P22", "neural_ode", net, 800, "more than one sample and state component")
def neural_ode(c):
    src = Src(c["v"])
    n, s, lead = c["n"], c["s"], tuple(c["lead"])
    sizes = [n + s] + c["hid"] + [n]
    layers, WB = [], []
    for a, b in zip(sizes[:-1], sizes[1:]):
        lin = torch.nn.Linear(a, b)
        W, B = src.n((b, a)) / np.sqrt(a), src.n((b,))
        with torch.no_grad():
            lin.weight.copy_(T(W))
            lin.bias.copy_(T(B))
        WB.append((W, B))
        layers += [lin, torch.nn.Tanh()]
    model = torch.nn.Sequential(*layers)
    w = src.u(0.5, 3.0, (s,))
    wt = T(w)
    ode = neuralode.NeuralODE(model, lambda t: torch.cos(t.unsqueeze(-1) * wt))
    t, y = src.u(0.0, 5.0, lead), src.n(lead + (n,))
    tt, yt = T(t), T(y)
    before = snapshot(tt, yt)
    f, J = ode(tt, yt)
    unchanged(before, (tt, yt), "the neural ODE")
    ex, eJ = np.zeros(lead + (n,)), np.zeros(lead + (n, n))
    for i in np.ndindex(*lead):
        x = np.concatenate([y[i], np.cos(t[i] * w)])
        D = np.eye(n + s)
        for W, B in WB:
            x = np.tanh(W @ x + B)
            D = (1 - x**2)[:, None] * (W @ D)
        ex[i], eJ[i] = x, D[:, :n]
    close(f, ex, "rate", rtol=1e-9, atol=1e-10)
    close(J, eJ, "Jacobian", rtol=1e-9, atol=1e-10)
    if math.prod(lead) > 1 and n > 1:
        return f"lead{len(lead)}"


# -------------------------------------------------------------------- P31
mm = fd(
    lead=st.lists(st.integers(1, 4), max_size=3),
    ijk=st.lists(st.integers(1, 4), min_size=3, max_size=3),
    bc=st.booleans(),
    v=vals(),
)


@sub("P31", "mbmm", mm, 3000, "more than one block and inner size")
def mbmm(c):
    src = Src(c["v"])
    i, j, k = c["ijk"]
    lead = tuple(c["lead"])
    l2 = tuple(1 if c["bc"] and q % 2 else d for q, d in enumerate(lead))
    a, b = src.n(lead + (i, j)), src.n(l2 + (j, k))
    at, bt = T(a), T(b)
    before = snapshot(at, bt)
    close(U.mbmm(at, bt), a @ b, "block product", rtol=1e-11, atol=1e-11)
    unchanged(before, (at, bt), "block product")
    if math.prod(lead) > 1 and j > 1:
        return f"lead{len(lead)}"


pts = fd(shape=st.lists(st.integers(1, 5), max_size=3), mag=sf(1e-300, 1e-8, 1.0, 1e8), v=vals((2, 2, 0)))


@sub("P31", "pointwise", pts, 3000, "positive, zero and negative arguments")
def pointwise(c):
    src = Src(c["v"])
    x = src.n(tuple(c["shape"])) * c["mag"]
    x = np.where(src.p(0.2, x.shape), 0.0, x)
    xt = T(x).requires_grad_(True)
    before = snapshot(xt)
    h, m = U.heaviside(xt), U.macaulay(xt)
    close(h, np.where(x > 0, 1.0, np.where(x < 0, 0.0, 0.5)), "unit step", rtol=0, atol=0)
    close(m, np.maximum(x, 0.0), "positive part", rtol=0, atol=0)
    g = torch.autograd.grad(m.sum(), xt)[0]
    close(g, np.where(x > 0, 1.0, np.where(x < 0, 0.0, 0.5)), "slope of the positive part", rtol=0, atol=0)
    unchanged(before, (xt,), "pointwise function")
    if np.any(x > 0) and np.any(x < 0) and np.any(x == 0):
        return "mixed"


@sub("P31", "power", fd(shape=st.lists(st.integers(1, 4), max_size=2), per=st.booleans(), v=vals((2, 2, 0))), 1500, "zero and other arguments")
def power(c):
    """|x|^p and its derivatives, also where x is zero"""
    fn = getattr(U, "abs_pow", None)
    if fn is None:
        return None
    src = Src(c["v"])
    x = np.where(src.p(0.3, tuple(c["shape"])), 0.0, src.n(tuple(c["shape"])))
    p = src.u(0.1, 6.0, x.shape if c["per"] else ())
    p = np.where(src.p(0.2, p.shape), 1.0, p)
    xt, pt = T(x).requires_grad_(True), T(p).requires_grad_(True)
    y = fn(xt, pt)
    close(y, np.abs(x) ** p, "power", rtol=1e-12, atol=0)
    gx, gp = torch.autograd.grad(y.sum(), (xt, pt))
    a = np.where(x == 0, 1.0, np.abs(x))
    ok = (x != 0) | (p > 1)  # the derivative at zero exists
    close(np.where(ok, gx, 0.0), np.where(x == 0, 0.0, p * a ** (p - 1) * np.sign(x)), "derivative in the base", rtol=1e-10, atol=0)
    ep = np.where(x == 0, 0.0, a**p * np.log(a))
    ep = ep if c["per"] else np.sum(ep)
    close(gp, ep, "derivative in the exponent", rtol=1e-10, atol=1e-12)
    if np.any(x == 0) and np.any(x != 0):
        return "per-element exponents" if c["per"] else "one exponent"


band = fd(
    nt=st.integers(2, 12),
    na=st.integers(20, 60),
    np=st.integers(20, 60),
    alpha=sf(None, 0.05, 0.1, 0.25, 0.5),
    v=vals((2, 1)),
)


@sub("P31", "variance_plot", band, 150, "the actual and predicted data have different sizes")
def variance_plot(c):
    """The plot of the spread: read back from the figure"""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    src = Src(c["v"])
    x = np.sort(src.u(0.0, 0.1, (c["nt"],)))
    data = src.n((c["nt"], c["na"])) * 10 + 100, src.n((c["nt"], c["np"])) * 5 + 80
    args = T(x), T(data[0]), T(data[1])
    before = snapshot(*args)
    plt.close("all")
    U.visualize_variance(*args, **({} if c["alpha"] is None else {"alpha": c["alpha"]}))
    unchanged(before, args, "variance plot")
    need(len(plt.get_fignums()) > 0, "no figure")
    ax = plt.gcf().axes[0]
    lines = [np.asarray(l.get_xydata()) for l in ax.lines]
    need(len(lines) == 2, f"{len(lines)} lines, expected the two means")
    for l, d in zip(lines, data):
        close(l, np.stack([x, d.mean(axis=1)], axis=1), "mean line", rtol=1e-12, atol=1e-12)
    need(len(ax.collections) == 2, f"{len(ax.collections)} filled bands, expected two")
    al = c["alpha"] or 0.05
    for k, (col, d) in enumerate(zip(ax.collections, data)):
        pts = col.get_paths()[0].vertices
        s = np.sort(d, axis=1)
        n = d.shape[1]
        for i in range(c["nt"]):
            if np.sum(x == x[i]) > 1:
                continue
            ys = pts[np.isclose(pts[:, 0], x[i], rtol=1e-12, atol=0), 1]
            for e, q, what in ((ys.min(), al * n, "lower"), (ys.max(), (1 - al) * n, "upper")):
                r = np.flatnonzero(np.abs(s[i] - e) < 1e-9 * abs(e)) + 1  # more than one for equal values
                need(r.size > 0, f"{what} edge {e} of band {k} is not one of the values")
                need(bool(np.any(np.abs(r - q) <= 1 + 1e-6)), f"{what} edge of band {k}: value number {r} of {n}, expected about {q}")
    plt.close("all")
    if c["na"] != c["np"]:
        return "default" if c["alpha"] is None else str(c["alpha"])


ids = fd(nb=st.integers(1, 5), m=st.integers(1, 5), v=vals())


@sub("P31", "identity", ids, 1000, "more than one block with more than one row")
def identity(c):
    src = Src(c["v"])
    a = src.n((c["nb"], c["m"], c["m"]))
    at = T(a)
    before = snapshot(at)
    close(U.add_id(at), a + np.eye(c["m"]), "adding the identity", rtol=1e-15, atol=0)
    unchanged(before, (at,), "adding the identity")
    if c["nb"] > 1 and c["m"] > 1:
        return "ok"


@sub("P31", "compose", fd(k=st.lists(st.integers(0, 3), min_size=1, max_size=6), v=vals()), 1000, "two or more functions")
def compose(c):
    src = Src(c["v"])
    fs = [lambda x: x + 3.0, lambda x: x * 2.0, lambda x: -x, lambda x: x * x]
    x = float(src.n())
    from functools import reduce

    got = reduce(U.compose, [x] + [fs[k] for k in c["k"]])
    ex = x
    for k in c["k"]:
        ex = fs[k](ex)
    need(got == ex, f"composition gives {got}, expected {ex}")
    # composing functions of functions
    g = reduce(U.compose, [fs[c["k"][0]]] + [(lambda k: lambda f: lambda y: fs[k](f(y)))(k) for k in c["k"][1:]])
    need(g(x) == ex, f"composed function gives {g(x)}, expected {ex}")
    if len(c["k"]) > 1:
        return "ok"
