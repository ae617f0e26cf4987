"""P06 bidiagonal factorizations, P07 block-diagonal sparse formats"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import chunktime as C

from ..core import RULES, sub
from ..gen import often, Src, T, close, fd, need, same_shape, sf, snapshot, unchanged, vals

RULES["P06"] = "Cases: random batched lower-block-bidiagonal systems; oracle is the assembled dense system in numpy."
RULES["P07"] = "Cases: random sets of block diagonals; oracle is the matrix assembled block by block in numpy."

sys_st = fd(
    n=often(st.one_of(st.integers(1, 9), st.integers(1, 40)), 64, 65, 100, 130),
    b=often(st.integers(1, 4), 12, 33),
    m=often(st.integers(1, 4), 7, 11),
    op=sf("thomas", "pcr", "hybrid", "hybrid"),
    ms=often(st.integers(0, 20), 50, 200),
    dom=sf(2.0, 0.5),
    sc=often(st.just(1.0), 1e-13, 1e-6, 1e10),  # unit of the equations
    vs=often(st.just(1.0), 1e-9, 1e12),  # unit of the unknowns
    v=vals(),
)


def size(c):
    """Number of blocks, samples, block size: within what the dense reference can do"""
    n, b, m = c["n"], c["b"], c["m"]
    while b * (n * m) ** 3 > 2e7 and max(b, m) > 1:
        if b > 1:
            b = (b + 1) // 2
        else:
            m = (m + 1) // 2
    return dict(c, n=n, b=b, m=m)


def blocks(c, src):
    n, b, m = c["n"], c["b"], c["m"]
    A = src.n((n, b, m, m)) * 0.4 / m + np.eye(m) * src.sign((n, b, m, 1)) * src.u(1.0, 3.0, (n, b, m, 1))
    # keep products of B A^-1 bounded so that the dense system is well conditioned
    B = src.n((max(n - 1, 0), b, m, m)) / (m * c["dom"])
    if n == 1:
        B = np.zeros((0, b, m, m))
    return A * c.get("sc", 1.0), B * c.get("sc", 1.0)


def dense(A, B):
    n, b, m = A.shape[:3]
    M = np.zeros((b, n * m, n * m))
    for i in range(n):
        M[:, i * m : (i + 1) * m, i * m : (i + 1) * m] = A[i]
        if i:
            M[:, i * m : (i + 1) * m, (i - 1) * m : i * m] = B[i - 1]
    return M


def make(c, A, B):
    if c["op"] == "thomas":
        return C.BidiagonalThomasFactorization(A, B)
    if c["op"] == "pcr":
        return C.BidiagonalPCRFactorization(A, B)
    return C.BidiagonalHybridFactorization(A, B, min_size=c["ms"])


@sub("P06", "solve", sys_st, 5000, "two or more blocks")
def solve(c):
    c = size(c)
    src = Src(c["v"])
    A, B = blocks(c, src)
    M = dense(A, B)
    sv = np.linalg.svd(M, compute_uv=False)
    cond = float(np.max(sv[:, 0] / np.maximum(sv[:, -1], 1e-300)))
    if cond > 1e8:
        return None
    At, Bt = T(A), T(B)
    op = make(c, At, Bt)
    need(tuple(op.shape) == (c["b"], c["n"] * c["m"], c["n"] * c["m"]), f"shape {op.shape}")
    need(op.n == c["n"] * c["m"], f"n {op.n}")
    for k in range(3):
        v = src.n((c["b"], c["n"] * c["m"])) * c["vs"] * c["sc"]
        if k == 2:
            v[0] = 0.0
        vt = T(v)
        before = snapshot(At, Bt, vt)
        x = op(vt)
        unchanged(before, (At, Bt, vt), f"{c['op']} solve")
        ex = np.linalg.solve(M, v[..., None])[..., 0]
        close(x, ex, f"solution {k + 1} with the {c['op']} factorization", rtol=1e-12 * cond, atol=1e-13 * cond * (c["vs"] + np.max(np.abs(ex))))
        close(op(vt), x, f"the same solve again ({c['op']})", rtol=1e-12, atol=1e-13 * c["vs"])
    if c["n"] > 1:
        n = c["n"]
        return c["op"] + ("," + ("pow2" if n & (n - 1) == 0 else "odd" if n % 2 else "even"))


@sub("P06", "operator", sys_st, 2500, "two or more blocks")
def operator(c):
    c = size(c)
    src = Src(c["v"])
    A, B = blocks(c, src)
    M = dense(A, B)
    inv = {"thomas": C.BidiagonalThomasFactorization, "pcr": C.BidiagonalPCRFactorization}.get(
        c["op"], lambda a, b: C.BidiagonalHybridFactorization(a, b, min_size=c["ms"])
    )
    At, Bt = T(A), T(B)
    op = C.BidiagonalForwardOperator(At, Bt, inverse_operator=inv)
    sc, vs = c["sc"], c["vs"]
    v = src.n((c["b"], c["n"] * c["m"])) * vs
    vt = T(v)
    before = snapshot(At, Bt, vt)
    y = op(vt)
    close(y, (M @ v[..., None])[..., 0], "operator times vector", rtol=1e-12, atol=1e-12 * sc * vs)
    close(op.to_diag().to_dense(), M, "dense form", rtol=0, atol=0)
    need(tuple(op.shape) == M.shape, f"shape {op.shape}, expected {M.shape}")
    cond = float(np.max(np.linalg.cond(M)))
    if cond < 1e8:
        close(op.inverse()(y), v, "inverse of the product", rtol=1e-12 * cond, atol=1e-13 * cond * vs)
        ctx = C.ChunkTimeOperatorSolverContext("direct"), C.ChunkTimeOperatorSolverContext("dense")

        def both(J, M, v, vt, what):
            ex = np.linalg.solve(M, v[..., None])[..., 0]
            tol = dict(rtol=1e-12 * cond, atol=1e-13 * cond * (vs / sc + np.max(np.abs(ex))))
            close(ctx[0].solve(J, vt), ex, "direct chunk solve" + what, **tol)
            close(ctx[1].solve(J, vt), ex, "dense chunk solve" + what, **tol)

        both(op, M, v, vt, "")
        unchanged(before, (At, Bt, vt), "operator")
        # the same solver contexts with another operator, another right-hand side, and blocks changed in place
        A2, B2 = 1.5 * A, 1.5 * B
        At2, Bt2 = T(A2), T(B2)
        op2 = C.BidiagonalForwardOperator(At2, Bt2, inverse_operator=inv)
        both(op2, 1.5 * M, v, vt, " of a second operator")
        both(op, M, 2 * v, T(2 * v), " of the first operator again")
        both(op2, 1.5 * M, v, vt, " of the second operator again")
        At2 *= -2.0
        Bt2 *= -2.0
        both(op2, -3.0 * M, v, vt, " after the blocks were changed in place")
        both(C.BidiagonalForwardOperator(At2, Bt2, inverse_operator=inv), -3.0 * M, v, vt, " with a new operator over the changed blocks")
    unchanged(before, (At, Bt, vt), "operator")
    return c["op"] if c["n"] > 1 else None


@sub("P06", "backprop", sys_st, 500, "two or more blocks")
def backprop(c):
    """Gradients through the solve equal the gradients through a dense solve"""
    c = size(dict(c, n=min(c["n"], 12), b=min(c["b"], 5), sc=1.0))
    src = Src(c["v"])
    A, B = blocks(c, src)
    M = dense(A, B)
    cond = float(np.max(np.linalg.cond(M)))
    if cond > 1e6 or c["n"] == 1:
        return None
    v, w = src.n((c["b"], c["n"] * c["m"])), src.n((c["b"], c["n"] * c["m"]))
    At, Bt, vt = T(A).requires_grad_(True), T(B).requires_grad_(True), T(v).requires_grad_(True)
    x = make(c, At, Bt)(vt)
    g = torch.autograd.grad(torch.sum(T(w) * x), (At, Bt, vt))
    # closed form: lam = M^-T w, dL/dv = lam, dL/dM = -lam x^T
    xs = np.linalg.solve(M, v[..., None])[..., 0]
    lam = np.linalg.solve(np.swapaxes(M, -1, -2), w[..., None])[..., 0]
    dM = -lam[..., :, None] * xs[..., None, :]
    m = c["m"]
    gA = np.stack([dM[:, i * m : (i + 1) * m, i * m : (i + 1) * m] for i in range(c["n"])])
    gB = np.stack([dM[:, (i + 1) * m : (i + 2) * m, i * m : (i + 1) * m] for i in range(c["n"] - 1)])
    tol = dict(rtol=1e-9, atol=1e-10 * cond * (1 + np.max(np.abs(dM))))
    close(g[0], gA, "gradient of the diagonal blocks", **tol)
    close(g[1], gB, "gradient of the sub-diagonal blocks", **tol)
    close(g[2], lam, "gradient of the right-hand side", **tol)
    return c["op"]


diag_st = fd(
    n=st.integers(1, 8),
    b=st.integers(1, 4),
    m=st.integers(1, 4),
    d=st.lists(st.integers(-7, 7), min_size=1, max_size=8, unique=True),
    order=sf("given", "sorted"),
    v=vals((2, 1, 0)),
)


@sub("P07", "formats", diag_st, 5000, "two or more blocks and at least one off-diagonal")
def formats(c):
    src = Src(c["v"])
    n, b, m = c["n"], c["b"], c["m"]
    # fold the drawn diagonals into the matrix, keep them distinct
    d = list(dict.fromkeys([int(np.sign(x) * (abs(x) % n)) if abs(x) >= n else x for x in c["d"]]))
    if c["order"] == "sorted":
        d = sorted(d)
    data = [src.n((n - abs(k), b, m, m)) for k in d]
    M = np.zeros((b, n * m, n * m))
    for k, x in zip(d, data):
        for i in range(n - abs(k)):
            r, q = (i, i + k) if k >= 0 else (i - k, i)
            M[:, r * m : (r + 1) * m, q * m : (q + 1) * m] = x[i]
    dt = [T(x) for x in data]
    before = snapshot(*dt)
    S = C.SquareBatchedBlockDiagonalMatrix(dt, list(d))
    need(S.n == n * m, f"n {S.n}, expected {n * m}")
    need(tuple(S.shape) == (b, n * m, n * m), f"shape {S.shape}")
    need(S.nnz == sum((n - abs(k)) * m * m for k in d), f"nnz {S.nnz} for diagonals {d}")
    need(S.dtype == torch.float64, f"dtype {S.dtype}")
    close(S.to_dense(), M, "dense form", rtol=0, atol=0)
    coo = S.to_batched_coo()
    need(tuple(coo.shape) == (n * m, n * m, b), f"coordinate form has shape {tuple(coo.shape)}")
    close(coo.to_dense(), np.moveaxis(M, 0, -1), "coordinate form", rtol=0, atol=0)
    csr = S.to_unrolled_csr()
    need(len(csr) == b, f"{len(csr)} compressed-row matrices for {b} samples")
    for i in range(b):
        need(csr[i].layout == torch.sparse_csr, f"layout {csr[i].layout}")
        need(tuple(csr[i].shape) == (n * m, n * m), f"compressed-row form has shape {tuple(csr[i].shape)}")
        close(csr[i].to_dense(), M[i], f"compressed-row form of sample {i}", rtol=0, atol=0)
    unchanged(before, dt, "block-diagonal matrix")
    if n > 1 and any(d):
        return f"{'upper' if max(d) > 0 else ''}{'lower' if min(d) < 0 else ''}"


@sub(
    "P07",
    "large",
    fd(n=st.integers(40, 300), b=st.integers(1, 2), m=st.integers(1, 3), k=st.integers(1, 4), v=vals((2, 1))),
    60,
    "more than 256 rows",
)
def large(c):
    """Matrices of the size the integrator builds for long chunks"""
    src = Src(c["v"])
    n = c["n"]
    d = sorted({0, -1} | {int(x) for x in src.i(-(n - 1), n - 1, c["k"])})
    return formats(dict(c, n=n, d=d, order="given")) and (f"{n * c['m']} rows" if n * c["m"] > 256 else None)
