"""P02 option independence, P03 scheme equations, P04 causality and batches, P05 failure contract"""

import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import chunktime, ode

from .. import odes
from ..core import RULES, Skip, sub
from ..gen import Src, T, close, fd, laid, need, often, same_shape, sf, snapshot, unchanged, vals

RULES["P02"] = "Cases: generated ODEs and grids integrated with two generated sets of integrator options."
RULES["P03"] = "Cases: generated ODEs and grids; oracle is a per-sample numpy integrator / closed forms."
RULES["P04"] = "Cases: generated ODEs and grids; oracle is the same integrator on split, permuted, extended problems."
RULES["P05"] = "Cases: generated batched chunk systems, solvable and not; oracle is the recomputed residual."

base = dict(ode=odes.ode_st, grid=odes.grid_st, nb=often(st.integers(1, 5), 11, 33), v=vals((2, 2, 1)), method=odes.method_st)


def setup(c):
    src = Src(c["v"])
    k = odes.coefs(c["ode"], src, c["nb"])
    y0 = src.n((c["nb"], c["ode"]["n"]))
    if c["ode"]["rest"] and not c["ode"]["force"]:
        y0 = y0 * 0.0
    g = dict(c["grid"])
    if c["method"] == "forward-euler":  # stay in the stable range of the explicit scheme
        g["dt"] = min(g["dt"], 0.1)
        y0 = np.clip(y0, -1.5, 1.5)
    times = odes.grid(g, src, c["nb"])
    k, times, y0 = odes.stretch(c["ode"], k, times, y0)
    return src, k, y0, times


def moving(y, c):
    yu = c["ode"]["yunit"] if "ode" in c else 1.0
    return "moves" if float(np.max(np.abs(np.asarray(y)[-1] - np.asarray(y)[0]))) > 1e-6 * yu else None


def lay(c, x, k):
    """``x`` in a memory layout that depends on the case and on ``k``"""
    return laid(x, c["v"]["seed"] + k)


def skw(c, s):
    return odes.solver_kw(s, yu=c["ode"]["yunit"])


def near(c, a, b, what, rtol=1e-8, atol=1e-8):
    """Equal to within the tolerances of the solver, in the unit of the state"""
    return close(a, b, what, rtol=rtol, atol=atol * c["ode"]["yunit"])


def tags(c, *more):
    t = [c["method"].split("-")[0], c["grid"]["kind"]]
    nt, b = c["grid"]["nt"], (c.get("s") or {}).get("block")
    if b:
        t.append("one-chunk" if b >= nt - 1 else ("even-chunks" if (nt - 1) % b == 0 else "partial-chunk"))
    return ",".join(t + list(more))


@sub("P02", "options", fd(s=odes.solver_st, s2=odes.solver_st, adj=st.booleans(), **base), 3000, "the state moves and options differ")
def options(c):
    src, k, y0, times = setup(c)
    m = odes.Ode(k)
    a = ode.odeint(m, lay(c, y0, 1), lay(c, times, 2), method=c["method"], **skw(c, c["s"]))
    fn = ode.odeint_adjoint if c["adj"] else ode.odeint
    m.train(c["v"]["seed"] % 5 != 0)
    if c["v"]["seed"] % 7 == 0:
        m.requires_grad_(False)
    with torch.set_grad_enabled(c["v"]["seed"] % 3 != 0):  # with or without recording gradients
        b = fn(m, lay(c, y0, 3), lay(c, times, 4), method=c["method"], **skw(c, c["s2"]))
    same_shape(a, times.shape + (y0.shape[1],), "result")
    near(c, b, a, "history with other integrator options")
    if moving(a.detach().numpy(), c) and (c["s"] != c["s2"] or c["adj"]):
        return tags(c, "adjoint" if c["adj"] else "plain")


@sub("P02", "defaults", fd(s=odes.solver_st, adj=st.booleans(), **base), 1500, "the state moves")
def default_tol(c):
    """With the default tolerances every option agrees to those tolerances"""
    if c["ode"]["yunit"] < 1:  # the default tolerance is absolute
        c = dict(c, ode=dict(c["ode"], yunit=1.0))
    src, k, y0, times = setup(c)
    m = odes.Ode(k)
    ex = odes.NpOde(k).integrate(y0, times, c["method"])
    fn = ode.odeint_adjoint if c["adj"] else ode.odeint
    a = fn(m, lay(c, y0, 5), lay(c, times, 6), method=c["method"], **odes.solver_kw(c["s"], tight=False))
    close(a, ex, "history with default tolerances", rtol=1e-4, atol=2e-5 * (1 + float(np.max(np.abs(ex)))))
    # no option at all
    z = ode.odeint(m, lay(c, y0, 7), lay(c, times, 8))
    if c["method"] == "backward-euler":
        close(z, ex, "history with default options", rtol=1e-4, atol=2e-5 * (1 + float(np.max(np.abs(ex)))))
    if moving(ex, c):
        return tags(c)


@sub("P03", "scheme", fd(s=odes.solver_st, adj=st.booleans(), **base), 4000, "the state moves")
def scheme(c):
    src, k, y0, times = setup(c)
    m = odes.Ode(k)
    fn = ode.odeint_adjoint if c["adj"] else ode.odeint
    y = fn(m, lay(c, y0, 9), lay(c, times, 10), method=c["method"], **skw(c, c["s"]))
    same_shape(y, times.shape + (y0.shape[1],), "result")
    y = y.detach().numpy()
    close(y[0], y0, "first entry", rtol=0, atol=0)
    ref = odes.NpOde(k, c["ode"]["yunit"])
    nt, nb = times.shape
    for i in range(1, nt):
        for ib in range(nb):
            dt = times[i, ib] - times[i - 1, ib]
            if c["method"] == "backward-euler":
                rate = ref.f(times[i, ib], y[i, ib], ib)
            else:
                rate = ref.f(times[i - 1, ib], y[i - 1, ib], ib)
            near(c, y[i, ib] - y[i - 1, ib], dt * rate, f"step {i} of sample {ib}", atol=1e-9)
    near(c, y, ref.integrate(y0, times, c["method"]), "history", rtol=1e-7)
    if moving(y, c):
        return tags(c)


lin_st = fd(
    n=st.integers(1, 4), nb=st.integers(1, 4), per=st.booleans(), grid=odes.grid_st, s=odes.solver_st,
    method=odes.method_st, unit=sf(1.0, 1.0, 100.0, 1e4, 1e-9), v=vals((2, 1)),
)


@sub("P03", "linear", lin_st, 2500, "the state moves")
def linear(c):
    """y' = A y: the history is the product of the step matrices (no Newton iteration needed)"""
    src = Src(c["v"])
    n, nb = c["n"], c["nb"]
    A = src.n((nb if c["per"] else 1, n, n)) / n - np.eye(n)
    y0 = src.n((nb, n))
    times = odes.grid(c["grid"], src, nb) * c["unit"]
    A = A / c["unit"]
    At = T(A)

    def f(t, y):
        return torch.matmul(At, y[..., None])[..., 0], At.expand(*y.shape[:-1], n, n)

    # one Newton step per chunk is exact
    kw = odes.solver_kw(c["s"], tight=False, miter=4, throw_on_fail=True)
    y = ode.odeint(f, lay(c, y0, 11), lay(c, times, 12), method=c["method"], **kw)
    ex = np.zeros(times.shape + (n,))
    ex[0] = y0
    for ib in range(nb):
        M = A[ib] if c["per"] else A[0]
        for i in range(1, times.shape[0]):
            dt = times[i, ib] - times[i - 1, ib]
            if c["method"] == "backward-euler":
                ex[i, ib] = np.linalg.solve(np.eye(n) - dt * M, ex[i - 1, ib])
            else:
                ex[i, ib] = (np.eye(n) + dt * M) @ ex[i - 1, ib]
    # a forward-Euler chunk is linear too, one Newton step is exact
    close(y, ex, "product of step matrices", rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(ex))))
    if moving(ex, c):
        return tags(c)


@sub(
    "P03",
    "convergence",
    fd(n=st.integers(1, 3), nb=st.integers(1, 3), block=st.integers(1, 60), method=odes.method_st, v=vals((2, 1))),
    160,
    "the error at the coarse step is above 1e-8",
)
def convergence(c):
    src = Src(c["v"])
    n, nb = c["n"], c["nb"]
    Q = np.linalg.qr(src.n((n, n)) + 3 * np.eye(n))[0]
    A = Q @ np.diag(-src.u(0.3, 1.5, (n,))) @ Q.T
    y0 = src.n((nb, n))
    At = T(A)
    f = lambda t, y: (torch.matmul(At, y[..., None])[..., 0], At.expand(*y.shape[:-1], n, n))
    w, V = np.linalg.eigh(A)
    ex = (y0 @ V * np.exp(w)) @ V.T
    err = []
    for N in (32, 64):
        t = T(np.linspace(0, 1, N + 1)[:, None] * np.ones((1, nb)))
        y = ode.odeint(f, lay(c, y0, 13), t, method=c["method"], block_size=c["block"])
        err.append(np.max(np.abs(y[-1].numpy() - ex)))
    if err[0] < 1e-8:
        return None
    need(err[0] < 0.1 * (1 + np.max(np.abs(y0))), f"not converging: error {err[0]}")
    need(1.7 < err[0] / err[1] < 2.4, f"not first order: errors {err} at 32 and 64 steps")
    return c["method"]


@sub("P04", "restart", fd(s=odes.solver_st, s2=odes.solver_st, cut=st.integers(1, 12), **base), 1500, "the state moves, both pieces have steps")
def restart(c):
    src, k, y0, times = setup(c)
    cut = min(c["cut"], times.shape[0] - 1)
    m = odes.Ode(k)
    go = lambda y, t, s: ode.odeint(m, y, t, method=c["method"], **skw(c, s)).detach()
    full = go(lay(c, y0, 14), lay(c, times, 15), c["s"])
    pre = go(lay(c, y0, 16), lay(c, times[: cut + 1], 17), c["s2"])
    near(c, pre, full[: cut + 1], "prefix")
    post = go(full[cut].clone(), lay(c, times[cut:], 18), c["s2"])
    near(c, post, full[cut:], "restart from the end of the prefix")
    # later times do not matter
    t2 = times.copy()
    t2[cut + 1 :] += 0.3 * c["ode"]["unit"]
    near(c, go(lay(c, y0, 19), lay(c, t2, 20), c["s"])[: cut + 1], full[: cut + 1], "history before a changed time")
    if moving(full.numpy(), c) and 0 < cut < times.shape[0] - 1:
        return tags(c)


@sub("P04", "batch", fd(s=odes.solver_st, s2=odes.solver_st, adj=st.booleans(), **base), 2000, "two or more samples and the state moves")
def batch(c):
    src, k, y0, times = setup(c)
    nb = c["nb"]
    pick = src.rs.randint(0, nb, int(src.i(1, 5)))
    fn = ode.odeint_adjoint if c["adj"] else ode.odeint

    def go(y, t, s, take=None):
        return fn(odes.Ode(k, take=take), y, t, method=c["method"], **skw(c, s)).detach()

    full = go(lay(c, y0, 21), lay(c, times, 22), c["s"])
    part = go(lay(c, y0[pick], 23), lay(c, times[:, pick], 24), c["s2"], take=pick)
    near(c, part, full[:, pick], f"samples {pick.tolist()} alone")
    # changing one sample leaves the others
    if nb > 1:
        j = int(src.i(0, nb - 1))
        y1, t1 = y0.copy(), times.copy()
        y1[j] += 0.7 * c["ode"]["yunit"]
        t1[:, j] = times[0, j] + 1.3 * (times[:, j] - times[0, j])
        o = [i for i in range(nb) if i != j]
        near(c, go(lay(c, y1, 25), lay(c, t1, 26), c["s"])[:, o], full[:, o], "other samples of the batch")
        if moving(full.numpy(), c):
            return tags(c)


@sub("P04", "hold", fd(s=odes.solver_st, s2=odes.solver_st, adj=st.booleans(), **base), 1500, "the state moves and a step of zero length exists")
def hold(c):
    """Repeating times repeats states and changes nothing else; inputs are left alone"""
    src, k, y0, times = setup(c)
    rep = src.i(1, 3, times.shape[0])
    idx = np.repeat(np.arange(times.shape[0]), rep)
    fn = ode.odeint_adjoint if c["adj"] else ode.odeint
    m = odes.Ode(k)
    y0t, tt, t2 = lay(c, y0, 27), lay(c, times, 28), lay(c, times[idx], 29)
    before = snapshot(y0t, tt, t2, *m.parameters())
    a = fn(m, y0t, tt, method=c["method"], **skw(c, c["s"])).detach()
    b = fn(m, y0t, t2, method=c["method"], **skw(c, c["s2"])).detach()
    unchanged(before, (y0t, tt, t2, *m.parameters()), "integrator")
    # a repeated time is one step followed by zero-length steps
    near(c, b, a[idx], "history with repeated times")
    a.zero_()
    unchanged(before[:1], (y0t,), "writing into the result")
    if moving(b.numpy(), c) and np.any(rep > 1):
        return tags(c)


# ------------------------------------------------------------------ P05
chunk_st = fd(
    nb=often(st.integers(1, 4), 14),
    n=often(st.integers(1, 4), 9, 17),
    size=st.integers(1, 3),
    kind=sf("ok", "ok", "nan", "noroot", "limit", "start"),
    lin=sf("direct", "dense"),
    op=sf("thomas", "pcr", "hybrid"),
    miter=sf(1, 2, 3, 50),
    rtol=sf(1e-12, 1e-8, 1e-4, 1e-1),
    atol=sf(1e-12, 1e-8, 1e-3),
    throw=st.booleans(),
    v=vals((2, 1)),
)

OPS = {
    "thomas": chunktime.BidiagonalThomasFactorization,
    "pcr": chunktime.BidiagonalPCRFactorization,
    "hybrid": chunktime.BidiagonalHybridFactorization,
}


@sub("P05", "chunk_newton", chunk_st, 5000, "the iteration runs (the start is not the root)")
def chunk_newton(c):
    """Systems D(x_k) - B x_{k-1} = r with a smooth monotone D; some have no root or give NaN"""
    src = Src(c["v"])
    nb, n, m = c["nb"], c["n"], c["size"]
    a = T(src.u(1.0, 3.0, (n, nb, m)))
    cub = T(src.u(0.0, 0.5, (n, nb, m)))
    B = T(0.5 * src.n((max(n - 1, 0), nb, m, m)) / m)
    root = T(src.n((n, nb, m)))
    kind = c["kind"]
    bad = int(src.i(0, nb - 1))
    calls = []

    def resid(x):
        r = a * (x - root) + cub * (x**3 - root**3)
        d = a + 3 * cub * x**2
        if kind == "noroot":  # x^2 + 1 = 0 in one sample
            r, d = r.clone(), d.clone()
            r[:, bad] = x[:, bad] ** 2 + 1.0
            d[:, bad] = 2 * x[:, bad]
        if kind == "nan":
            r = r.clone()
            r[0, bad] = torch.sqrt(-1.0 - x[0, bad] ** 2)
        if n > 1:
            e = x - root
            r = r.clone()
            r[1:] += torch.matmul(B, e[:-1, ..., None])[..., 0]
        return r, d

    def flat(z):
        return z.transpose(0, 1).reshape(nb, n * m)

    def fn(x):
        calls.append(1)
        z = x.reshape(nb, n, m).transpose(0, 1)
        r, d = resid(z)
        return flat(r), chunktime.BidiagonalForwardOperator(
            torch.diag_embed(d).contiguous(), B.contiguous(), inverse_operator=OPS[c["op"]]
        )

    x0 = T(src.n((nb, n * m)))
    if kind == "start":
        x0 = flat(root).clone()
    before = snapshot(x0)
    miter = c["miter"] if kind == "limit" else 60
    raised, x = False, None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            x = chunktime.newton_raphson_chunk(
                fn,
                x0,
                chunktime.ChunkTimeOperatorSolverContext(c["lin"]),
                rtol=c["rtol"],
                atol=c["atol"],
                miter=miter,
                throw_on_fail=c["throw"],
            )
        except RuntimeError as e:
            raised = True
            need(c["throw"], f"raised although not asked to: {e}")
    unchanged(before, (x0,), "chunk Newton starting point")
    need(len(calls) <= miter + 2, f"{len(calls)} evaluations with {miter} iterations allowed")

    def norms(x):
        r, _ = resid(x.reshape(nb, n, m).transpose(0, 1))
        return torch.norm(flat(r), dim=-1)

    n0 = norms(x0)
    if raised:
        if kind == "limit":
            # whatever the iteration did, a plain Newton with one more digit of room must not
            # have been done one iteration earlier
            z, ok = x0.clone(), False
            for _ in range(miter):
                if done(norms(z), n0, c, 0.5):
                    ok = True
                r, d = resid(z.reshape(nb, n, m).transpose(0, 1))
                z = z - dense_solve(d, B, flat(r), nb, n, m)
            need(not (ok or done(norms(z), n0, c, 0.5)), "raised although converged within the limit")
        else:
            need(kind in ("nan", "noroot"), f"raised on a solvable system ({kind})")
        return kind + ",raised"
    same_shape(x, x0.shape, "solution")
    warned = any("did not succeed" in str(i.message) for i in w)
    nn = norms(x)
    conv = done(nn, n0, c, 1.0 + 1e-6)
    if c["throw"]:
        need(conv, f"returned an unconverged point without raising: residuals {nn.tolist()}, start {n0.tolist()}")
    if not done(nn, n0, c, 1.0 + 1e-6):
        need(warned, f"no warning although not converged: residuals {nn.tolist()}")
    if done(nn, n0, c, 0.999):
        need(not warned, f"warned although converged: residuals {nn.tolist()}")
    if kind in ("ok", "start"):
        need(conv, f"did not converge on a solvable system: residuals {nn.tolist()}")
        tol = 10 * (c["atol"] + c["rtol"] * float(n0.max())) + 1e-9
        close(x, flat(root), "root", rtol=0, atol=tol)
    return kind + (",warned" if warned else ",ok")


def dense_solve(d, B, r, nb, n, m):
    out = torch.zeros(nb, n, m)
    rr = r.reshape(nb, n, m)
    for i in range(n):
        v = rr[:, i]
        if i:
            v = v - torch.matmul(B[i - 1], out[:, i - 1, :, None])[..., 0]
        out[:, i] = v / d[i]
    return out.reshape(nb, n * m)


def done(nn, n0, c, f):
    if bool(torch.any(torch.isnan(nn))):
        return False
    a = bool(torch.all(nn <= c["atol"] * f))
    q = nn / n0
    r = bool(torch.all((q <= c["rtol"] * f) | torch.isnan(q)))
    return a or r


@sub(
    "P05",
    "integrator_failure",
    fd(
        nb=st.integers(1, 4),
        nt=st.integers(2, 12),
        fail=sf("no", "yes", "nan"),
        throw=st.booleans(),
        adj=st.booleans(),
        s=odes.solver_st,
        v=vals((2, 1)),
    ),
    2500,
    "every case: the failing step is known in advance",
)
def integrator_failure(c):
    """y' = y^2: backward Euler has no real solution once 4 dt y >= 1"""
    src = Src(c["v"])
    nb, nt = c["nb"], c["nt"]
    y0 = src.u(0.05, 0.3, (nb, 1))
    dt = src.u(0.05, 0.2, (nt - 1, nb))
    k = int(src.i(0, nt - 2))
    j = int(src.i(0, nb - 1))
    if c["fail"] == "yes":
        dt[k, j] = 60.0
    elif c["fail"] == "nan":
        dt[k, j] = np.nan
    # exact backward Euler steps decide whether each step is solvable
    ok = True
    y = y0[:, 0].copy()
    ex = [y.copy()]
    for i in range(nt - 1):
        disc = 1 - 4 * dt[i] * y
        if not np.all(disc > 1e-2):
            ok = False
            break
        y = (1 - np.sqrt(disc)) / (2 * dt[i])
        ex.append(y.copy())
    if not ok and c["fail"] == "no":
        raise Skip()
    times = np.vstack([np.zeros((1, nb)), np.cumsum(dt, 0)])

    class F(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.tensor(1.0))

        def forward(self, t, y):
            return self.p * y**2, torch.diag_embed(2 * self.p * y)

    fn = ode.odeint_adjoint if c["adj"] else ode.odeint
    raised = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = fn(F(), T(y0), T(times), **odes.solver_kw(c["s"], tight=False, throw_on_fail=c["throw"], miter=40))
        except RuntimeError as e:
            raised = True
            need(c["throw"], f"raised although not asked to: {e}")
    if c["throw"]:
        need(raised == (not ok), "no error for an unsolvable step" if not raised else "error for solvable steps")
    if ok and not raised:
        close(r[..., 0], np.array(ex), "history", rtol=1e-3, atol=1e-4)
    return f"{c['fail']},{'throw' if c['throw'] else 'warn'}"
