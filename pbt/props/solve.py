"""P08 batched Newton solvers, P09 batched linear solvers"""

import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import solvers as S

from ..core import RULES, Skip, sub
from ..gen import Src, T, close, fd, need, often, same_shape, sf, snapshot, unchanged, vals

RULES["P08"] = "Cases: batches of diagonally dominant nonlinear systems with a known root, from nearby starts."
RULES["P09"] = "Cases: batches of nonsingular systems (some with zero right-hand side or solved at the start)."

new_st = fd(
    nb=often(st.integers(1, 5), 20, 65),
    n=often(st.integers(1, 5), 12),
    how=sf("plain", "bt", "reuse", "reuse", "plain_diag", "bt_diag"),
    lin=st.booleans(),
    far=sf(0.0, 0.1, 0.5, 1.5),
    tol=sf("tight", "default", "loose"),
    seq=st.integers(1, 4),
    v=vals((2, 1)),
)


def problem(c, src):
    nb, n = c["nb"], c["n"]
    A = 0.5 * np.clip(src.n((nb, n, n)), -2.5, 2.5) / n * (1 - np.eye(n))  # rows sum to less than the diagonal
    if c["how"].endswith("diag"):
        A = np.zeros_like(A)
    A = A + np.eye(n) * src.u(1.5, 3.0, (nb, n, 1)) * src.sign((nb, n, 1))
    q = np.zeros((nb, n)) if c["lin"] else src.u(0.0, 0.3, (nb, n)) * np.sign(A[:, range(n), range(n)])
    root = src.n((nb, n))
    return A, q, root


def system(A, q, root):
    At, qt, rt = T(A), T(q), T(root)

    def fn(x):
        R = torch.matmul(At, (x - rt)[..., None])[..., 0] + qt * (x**3 - rt**3)
        return R, At + torch.diag_embed(3 * qt * x**2)

    return fn


@sub("P08", "roots", new_st, 4000, "the start is not the root")
def roots(c):
    src = Src(c["v"])
    nb, n = c["nb"], c["n"]
    kw = {"tight": dict(rtol=1e-12, atol=1e-11), "loose": dict(rtol=1e-3, atol=1e-4)}.get(c["tol"], {})
    rtol, atol = kw.get("rtol", 1e-6), kw.get("atol", 1e-10)
    reuse = S.PreconditionerReuseNonlinearSolver()
    for _ in range(c["seq"] if c["how"] == "reuse" else 1):
        A, q, root = problem(c, src)
        fn = system(A, q, root)
        x0 = T(root + c["far"] * src.n((nb, n)))
        before = snapshot(x0)
        if c["how"].startswith("plain"):
            k2 = dict(kw, linsolver="diag") if c["how"].endswith("diag") else kw
            x, J = S.newton_raphson(fn, x0, **k2)
        elif c["how"].startswith("bt"):
            k2 = dict(kw, linsolver="diag") if c["how"].endswith("diag") else kw
            x, J = S.newton_raphson_bt(fn, x0, **k2)
        else:
            # the linear tolerance is absolute and has to be below the nonlinear one
            x, J = reuse.solve(fn, x0, **dict(kw, ltol=min(1e-10, 0.01 * atol)))
        unchanged(before, (x0,), f"{c['how']} Newton starting point")
        same_shape(x, (nb, n), "root")
        R, Jx = fn(x)
        nR, n0 = torch.norm(R, dim=-1), torch.norm(fn(x0)[0], dim=-1)
        ok = bool(torch.all(nR <= atol)) or bool(torch.all((nR <= rtol * n0 * (1 + 1e-9)) | (n0 == 0)))
        need(ok, f"residuals {nR.tolist()} from {n0.tolist()} do not meet rtol {rtol}, atol {atol}")
        close(J, Jx, "Jacobian returned with the root", rtol=1e-12, atol=1e-12)
        inv = np.max(np.abs(np.linalg.inv(A))) * n + 1
        close(x, root, "root", rtol=0, atol=inv * 3 * (atol + rtol * float(n0.max())) + 1e-11)
        if c["tol"] == "tight" and nb > 1:
            i = int(src.i(0, nb - 1))
            f1 = system(A[i : i + 1], q[i : i + 1], root[i : i + 1])
            s1 = S.newton_raphson if c["how"].startswith("plain") else S.newton_raphson_bt
            y, _ = s1(f1, x0[i : i + 1].clone(), **kw)
            close(y[0], x[i], "root of one sample alone", rtol=0, atol=1e-8)
    return c["how"] if c["far"] > 0 else None


@sub("P08", "linear", new_st, 1200, "every case")
def linear(c):
    """One step solves a linear system; the limit on iterations is respected"""
    c = dict(c, lin=True)
    src = Src(c["v"])
    A, q, root = problem(c, src)
    base = system(A, q, root)
    count = [0]

    def fn(x):
        count[0] += 1
        return base(x)

    x0 = T(root + src.n((c["nb"], c["n"])))
    k = dict(linsolver="diag") if c["how"].endswith("diag") else {}
    if c["how"].startswith("plain"):
        x, _ = S.newton_raphson(fn, x0, **k)
        need(count[0] <= 3, f"{count[0]} evaluations for a linear system")
        for lead in (x0.shape[:1] + (1,), (1,) + x0.shape[:1], (1, 1) + x0.shape[:1]):  # more batch dimensions

            def shaped(z):
                R, J = base(z.reshape(x0.shape))
                return R.reshape(z.shape), J.reshape(z.shape + (c["n"],))

            z, _ = S.newton_raphson(shaped, x0.reshape(lead + (c["n"],)), **k)
            same_shape(z, lead + (c["n"],), "root of a batch with more dimensions")
            close(z.reshape(x0.shape), root, "root of a linear system in a batch with more dimensions", rtol=1e-8, atol=1e-8)
    elif c["how"].startswith("bt"):
        x, _ = S.newton_raphson_bt(fn, x0, **k)
        need(count[0] <= 12, f"{count[0]} evaluations for a linear system")
    else:
        x, _ = S.PreconditionerReuseNonlinearSolver().solve(fn, x0)
    close(x, root, "root of a linear system", rtol=1e-8, atol=1e-8)
    return c["how"]


hard_st = fd(
    nb=st.integers(1, 6), n=st.integers(1, 3), kind=sf("atan", "asinh", "exp"), far=sf(0.5, 3.0, 10.0, 30.0), v=vals((2, 1)),
)


@sub("P08", "line_search", hard_st, 800, "a full Newton step overshoots")
def line_search(c):
    """Where full Newton steps overshoot, the line search still finds the roots, in a moderate number of iterations"""
    src = Src(c["v"])
    # the norm of several bounded residuals can fall on the way to infinity
    nb, n = c["nb"], 1 if c["kind"] == "atan" else c["n"]
    s, root = T(src.u(0.5, 3.0, (nb, n))), T(src.n((nb, n)))
    g, dg = {
        "atan": (torch.atan, lambda z: 1 / (1 + z**2)),
        "asinh": (torch.asinh, lambda z: 1 / torch.sqrt(1 + z**2)),
        "exp": (lambda z: torch.expm1(z.clamp(max=60.0)), lambda z: torch.exp(z.clamp(max=60.0))),
    }[c["kind"]]
    far = min(c["far"], 3.0) if c["kind"] == "exp" else c["far"]  # exp: a full step from far left overflows
    d0 = far * T(src.n((nb, n)))
    x0 = root + d0 / s

    def fn(x):
        z = s * (x - root)
        return g(z), torch.diag_embed(s * dg(z))

    with warnings.catch_warnings():
        warnings.simplefilter("error")
        x, J = S.newton_raphson_bt(fn, x0, rtol=1e-8, atol=1e-8, miter=60, max_bt=40)
    R, Jx = fn(x)
    nR, n0 = torch.norm(R, dim=-1), torch.norm(fn(x0)[0], dim=-1)
    need(bool(torch.all(nR <= 1e-8)) or bool(torch.all(nR <= 1e-8 * n0)), f"residuals {nR.tolist()}")
    close(J, Jx, "Jacobian returned with the root", rtol=1e-12, atol=1e-12)
    if bool(torch.any(torch.norm(g(d0 - g(d0) / dg(d0)), dim=-1) > torch.norm(g(d0), dim=-1))):
        return c["kind"]


fail_st = fd(
    nb=st.integers(1, 4),
    n=st.integers(1, 4),
    how=sf("plain", "bt", "reuse"),
    kind=sf("good", "noroot", "nan", "nan", "nan_later"),
    miter=sf(1, 2, 3, 10, 100),
    start=sf("near", "far"),
    v=vals((2, 1)),
)


@sub("P08", "failures", fail_st, 1200, "no root is reached")
def failures(c):
    """A point that does not meet the tolerances, invalid numbers included, comes with a warning"""
    src = Src(c["v"])
    nb, n = c["nb"], c["n"]
    A, q, root = problem(dict(c, lin=False), src)
    base = system(A, q, root)
    bad = int(src.i(0, nb - 1))
    calls = [0]

    def fn(x):
        R, J = base(x)
        calls[0] += 1
        if c["kind"] == "noroot":
            R = R.clone()
            R[bad, 0] = 1.0 + x[bad, 0] ** 2
            J = J.clone()
            J[bad, 0] = 0.0
            J[bad, 0, 0] = 2 * x[bad, 0] + 1e-3
        elif c["kind"] == "nan" or (c["kind"] == "nan_later" and calls[0] > 1):
            R = R.clone()
            R[bad, -1] = float("nan")
        return R, J

    x0 = T(root + (0.1 if c["start"] == "near" else 2.0) * src.n((nb, n)))
    before = snapshot(x0)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if c["how"] == "plain":
            x, J = S.newton_raphson(fn, x0, miter=c["miter"])
        elif c["how"] == "bt":
            x, J = S.newton_raphson_bt(fn, x0, miter=c["miter"])
        else:
            try:
                x, J = S.PreconditionerReuseNonlinearSolver().solve(fn, x0, miter=c["miter"])
            except RuntimeError:
                if not c["kind"].startswith("nan"):
                    raise
                return "reuse,error"
    unchanged(before, (x0,), f"{c['how']} Newton starting point")
    calls[0] = 0
    n0 = torch.norm(fn(x0)[0], dim=-1)
    calls[0] = 2
    nR = torch.norm(fn(x)[0], dim=-1)
    ok = bool(torch.all(nR <= 1e-10 * (1 + 1e-9))) or bool(torch.all((nR <= 1e-6 * n0 * (1 + 1e-9)) | (n0 == 0)))
    warned = any("did not succeed" in str(x.message) for x in w)
    need(ok or warned, f"no warning although the residuals are {nR.tolist()}, {n0.tolist()} at the start")
    if c["miter"] == 100 and c["kind"] == "good" and c["start"] == "near":
        need(ok and not warned, f"warned {warned} for a solvable system, residuals {nR.tolist()}")
    return None if ok else f"{c['how']},{c['kind']}"


# ------------------------------------------------------------------ P09
lin_st = fd(
    nb=often(st.integers(1, 6), 20, 65),
    n=often(st.integers(1, 10), 17, 30),
    how=sf("lu", "gmres", "jacobi", "lup", "wrongp"),
    spread=sf(0.0, 0.5, 1.5),
    start=sf("none", "zero", "random", "exact", "mixed"),
    check=sf(1, 2, 3, 5, 20),
    extra=sf(1, 1, 3, 20),
    zero=st.booleans(),
    sym=st.booleans(),
    it=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P09", "linear_solvers", lin_st, 5000, "some right-hand side is nonzero and the start is not exact")
def linear_solvers(c):
    src = Src(c["v"])
    nb, n = c["nb"], c["n"]
    A = src.n((nb, n, n)) / np.sqrt(n)
    A = A * 0.4 + np.eye(n) * np.exp(c["spread"] * src.n((nb, n, 1))) * 1.5 * src.sign((nb, 1, 1))
    if c["sym"]:
        A = 0.5 * (A + np.swapaxes(A, -1, -2))
    cond = float(np.max(np.linalg.cond(A)))
    if cond > 1e4:
        raise Skip()
    b = src.n((nb, n))
    if c["zero"]:
        b[int(src.i(0, nb - 1))] = 0.0
    ex = np.linalg.solve(A, b[..., None])[..., 0]
    At, bt = T(A), T(b)
    x0 = {
        "none": None,
        "zero": np.zeros_like(b),
        "random": src.n((nb, n)),
        "exact": ex.copy(),
        "mixed": np.where(src.p(0.5, (nb, 1)), ex, src.n((nb, n))),
    }[c["start"]]
    x0t = None if x0 is None else T(x0)
    before = snapshot(At, bt) + ([] if x0 is None else snapshot(x0t))
    kw = dict(x0=x0t, check=c["check"], maxiter=n + c["extra"], return_iters=c["it"])
    h = c["how"]
    if h == "lu":
        out = S.lu_linear_solve(At, bt)
    elif h == "gmres":
        out = S.gmres(At, bt, **kw)
    elif h == "jacobi":
        out = S.jacobi_gmres(At, bt, **kw)
    elif h == "lup":
        out = S.lu_gmres(At, bt, **kw)
    else:  # the factorization of a nearby matrix as preconditioner
        P = S.LUPreconitionerOperator(T(A + 0.05 * src.n((nb, n, n))))
        out = S.gmres(At, bt, M=P, **kw)
    if c["it"] and h != "lu":
        need(isinstance(out, tuple) and len(out) == 2, "no iteration count returned")
        x, it = out
        need(int(it) <= n + c["extra"], f"{it} iterations with {n + c['extra']} allowed")
    else:
        x = out
    same_shape(x, (nb, n), "solution")
    unchanged(before, [At, bt] + ([] if x0 is None else [x0t]), f"{h} linear solver")
    atol = 1e-13 * cond * (1 + float(np.max(np.abs(ex)))) + (0 if h == "lu" else 3e-9 * cond)
    close(x, ex, f"{h} solution", rtol=1e-12 * cond, atol=atol)
    if c["start"] != "exact" and np.any(b != 0):
        return h + "," + c["start"]


@sub("P09", "preconditioners", fd(nb=st.integers(1, 5), n=st.integers(1, 8), v=vals()), 800, "every case")
def preconditioners(c):
    src = Src(c["v"])
    nb, n = c["nb"], c["n"]
    A = src.n((nb, n, n)) * 0.3 / n + np.eye(n) * src.u(1.0, 3.0, (nb, n, 1)) * src.sign((nb, n, 1))
    x = src.n((nb, n))
    At, xt = T(A), T(x)
    before = snapshot(At, xt)
    close(S.NoOp().dot(xt), x, "identity preconditioner", rtol=0, atol=0)
    close(S.JacobiPreconitionerOperator(At).dot(xt), x / A[:, range(n), range(n)], "diagonal preconditioner", rtol=1e-13, atol=0)
    cond = float(np.max(np.linalg.cond(A)))
    lu = S.LUPreconitionerOperator(At)
    for _ in range(2):
        close(lu.dot(xt), np.linalg.solve(A, x[..., None])[..., 0], "factorization preconditioner", rtol=1e-12 * cond, atol=1e-12 * cond)
    close(S.jacobi_iteration_linear_solve(At, xt), x / A[:, range(n), range(n)], "one Jacobi iteration", rtol=1e-13, atol=0)
    unchanged(before, (At, xt), "preconditioner")
    return "yes"
