"""Generated ODEs with an independent numpy reference, and generated time grids"""

import numpy as np
import torch
from hypothesis import strategies as st

from .gen import T, fd, often, sf

# f(t, y) = A y - d y^3 + B tanh(C y) + c cos(w t) + p   (per sample or shared matrices)
ode_st = fd(
    n=often(st.integers(1, 4), 7),
    lin=st.booleans(),
    cubic=st.booleans(),
    tanh=st.booleans(),
    force=st.booleans(),
    per=st.booleans(),  # per-sample coefficients
    frozen=sf("", "", "", "A", "c"),
    unused=st.booleans(),
    rest=st.booleans(),  # start in equilibrium when there is no forcing
    unit=often(sf(1.0, 1.0, 1.0, 100.0, 1e4), 1e-9, 1e-4, 1e8),  # time unit: long steps of a slow system
    yunit=often(st.just(1.0), 1e-9, 1e-4, 1e4),  # unit of the state
)

grid_st = fd(
    kind=sf("uniform", "uneven", "sample", "sample", "repeat", "repeat0", "back"),
    nt=often(st.integers(2, 14), 1, 25, 45),
    t0=sf(0.0, 0.0, 1.5, -2.0, 50.0),
    dt=sf(0.02, 0.1, 0.4),
)

solver_st = fd(
    block=often(st.integers(1, 16), 24, 60),
    lin=sf("direct", "direct", "dense"),
    direct=sf("thomas", "pcr", "hybrid"),
    ms=st.integers(0, 6),
    guess=sf("zero", "previous"),
)

method_st = sf("backward-euler", "backward-euler", "backward-euler", "forward-euler")


def solver_kw(c, tight=True, yu=1.0, **extra):
    kw = {
        "block_size": c["block"],
        "linear_solve_method": c["lin"],
        "direct_solve_method": c["direct"],
        "direct_solve_min_size": c["ms"],
        "guess_type": c["guess"],
    }
    if tight:
        kw.update(rtol=1e-11, atol=1e-11 * yu, throw_on_fail=False)
    kw.update(extra)
    return kw


def coefs(c, src, nb):
    """Coefficient arrays with an explicit leading batch dimension of nb or 1"""
    n = c["n"]
    m = nb if c["per"] else 1
    A = 0.3 * src.n((m, n, n)) / n
    A = A - np.eye(n) * src.u(0.3, 2.0, (m, n, 1))
    if not c["lin"]:
        A = A * 0.2
    k = {"A": A}
    k["d"] = src.u(0.05, 0.5, (m, n)) if c["cubic"] else np.zeros((m, n))
    k["B"] = 0.5 * src.n((m, n, n)) / n if c["tanh"] else np.zeros((m, n, n))
    k["C"] = src.n((m, n, n)) if c["tanh"] else np.zeros((m, n, n))
    k["c"] = src.n((m, n)) if c["force"] else np.zeros((m, n))
    k["w"] = src.u(0.5, 4.0, (m, n))
    k["p"] = src.n((m, n)) if c["force"] else np.zeros((m, n))
    return k


def factors(c):
    """What changing the units of time and of the state multiplies the coefficients by"""
    u, w = c["unit"], c["yunit"]
    return {"A": 1 / u, "d": 1 / (u * w * w), "B": w / u, "C": 1 / w, "c": w / u, "p": w / u, "w": 1 / u}


def stretch(c, k, times, y0):
    """The same problem in other units"""
    f = factors(c)
    return {n: v * f[n] for n, v in k.items()}, times * c["unit"], y0 * c["yunit"]


class Ode(torch.nn.Module):
    def __init__(self, k, frozen="", unused=False, take=None):
        super().__init__()
        self.k = {}
        for name, v in k.items():
            if take is not None and v.shape[0] > 1:
                v = v[take]
            setattr(self, name, torch.nn.Parameter(T(v), requires_grad=name != frozen))
        if unused:
            self.extra_unused = torch.nn.Parameter(torch.ones(2))

    def forward(self, t, y):
        mv = lambda M, x: torch.matmul(M, x[..., None])[..., 0]
        th = torch.tanh(mv(self.C, y))
        f = (
            mv(self.A, y)
            - self.d * y**3
            + mv(self.B, th)
            + self.c * torch.cos(self.w * t[..., None])
            + self.p
        )
        J = (
            self.A
            - torch.diag_embed(3 * self.d * y**2)
            + torch.matmul(self.B, (1 - th**2)[..., :, None] * self.C)
        )
        return f, J


class NpOde:
    """The same right-hand side, one sample at a time, in numpy"""

    def __init__(self, k, yu=1.0):
        self.k = k
        self.yu = yu

    def at(self, name, ib):
        v = self.k[name]
        return v[ib] if v.shape[0] > 1 else v[0]

    def f(self, t, y, ib):
        g = lambda nme: self.at(nme, ib)
        return (
            g("A") @ y
            - g("d") * y**3
            + g("B") @ np.tanh(g("C") @ y)
            + g("c") * np.cos(g("w") * t)
            + g("p")
        )

    def jac(self, t, y, ib):
        g = lambda nme: self.at(nme, ib)
        th = np.tanh(g("C") @ y)
        return g("A") - np.diag(3 * g("d") * y**2) + g("B") @ np.diag(1 - th**2) @ g("C")

    def integrate(self, y0, times, method):
        nt, nb = times.shape
        out = np.zeros((nt,) + y0.shape)
        out[0] = y0
        n = y0.shape[1]
        for ib in range(nb):
            y = y0[ib].copy()
            for i in range(1, nt):
                dt = times[i, ib] - times[i - 1, ib]
                if method == "forward-euler":
                    y = y + dt * self.f(times[i - 1, ib], y, ib)
                else:
                    z = y.copy()
                    for _ in range(60):
                        r = z - y - dt * self.f(times[i, ib], z, ib)
                        if np.linalg.norm(r) < 1e-14 * self.yu:
                            break
                        z = z - np.linalg.solve(np.eye(n) - dt * self.jac(times[i, ib], z, ib), r)
                    y = z
                out[i, ib] = y
        return out


def grid(c, src, nb):
    """Times (nt, nb); ``back`` runs backwards"""
    nt = c["nt"]
    dt = c["dt"] * min(1.0, 14 / nt)  # long histories have shorter steps, so that every step can be solved
    if c["kind"] == "uniform":
        d = np.full((nt - 1, nb), dt)
    elif c["kind"] == "uneven":
        d = np.repeat(src.u(0.2, 1.8, (nt - 1, 1)) * dt, nb, axis=1)
    else:
        d = src.u(0.2, 1.8, (nt - 1, nb)) * dt
        if c["kind"] == "repeat":
            d[src.p(0.3, (nt - 1, nb))] = 0.0
        if c["kind"] == "repeat0":
            d[:1, src.p(0.7, (nb,))] = 0.0
        if c["kind"] == "back":
            d = -0.003 * min(1.0, 14 / nt) * d / dt  # short: the inverse of a decay grows
    return np.vstack([np.full((1, nb), c["t0"]), c["t0"] + np.cumsum(d, axis=0)])
