"""Generators and comparison helpers shared by the property modules"""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from .core import Skip, Violation  # noqa: F401


# ---------------------------------------------------------------- comparison
def show(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    s = np.array2string(np.asarray(x), precision=8, threshold=30, edgeitems=2)
    return s if len(s) < 900 else s[:900] + " ..."


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def same_shape(a, shape, what):
    need(isinstance(a, torch.Tensor), f"{what}: expected a tensor, got {type(a).__name__}")
    need(
        tuple(a.shape) == tuple(shape),
        f"{what}: shape {tuple(a.shape)}, expected {tuple(shape)}",
    )


def close(a, b, what, rtol=1e-8, atol=1e-10):
    """Violation unless the tensor ``a`` equals the expected ``b``"""
    if isinstance(a, torch.Tensor):
        a = a.detach().cpu().numpy()
    if isinstance(b, torch.Tensor):
        b = b.detach().cpu().numpy()
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    a = a.astype(float)
    b = b.astype(float)
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    both_inf = np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))
    bad &= ~both_inf
    bad &= ~(np.isnan(a) & np.isnan(b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: at {i} got {a[i]!r}, expected {b[i]!r} "
            f"({int(bad.sum())} of {a.size} entries differ; rtol={rtol}, atol={atol})\n"
            f"got {show(a)}\nexpected {show(b)}"
        )


def finite(a, what):
    need(bool(torch.all(torch.isfinite(a))), f"{what}: not finite: {show(a)}")


# ------------------------------------------------------------------- sources
class Src:
    """Numbers of a case: a seed and a coarseness, so that cases shrink to round values"""

    def __init__(self, v):
        self.rs = np.random.RandomState(v["seed"])
        self.dig = v["dig"]

    def u(self, lo, hi, shape=()):
        x = self.rs.random_sample(shape)
        if self.dig == 0:
            x = np.round(x * 4) / 4
        elif self.dig == 1:
            x = np.round(x * 40) / 40
        return lo + (hi - lo) * x

    def lu(self, lo, hi, shape=()):
        return np.exp(self.u(math.log(lo), math.log(hi), shape))

    def n(self, shape=()):
        x = self.rs.standard_normal(shape)
        if self.dig == 0:
            x = np.round(x)
        elif self.dig == 1:
            x = np.round(x * 8) / 8
        return x

    def i(self, lo, hi, shape=None):
        return self.rs.randint(lo, hi + 1, shape)

    def sign(self, shape=()):
        return np.where(self.rs.random_sample(shape) < 0.5, -1.0, 1.0)

    def p(self, prob, shape=()):
        return self.rs.random_sample(shape) < prob

    # torch versions
    def tu(self, lo, hi, shape=()):
        return torch.tensor(self.u(lo, hi, shape))

    def tn(self, shape=()):
        return torch.tensor(self.n(shape))


def T(x):
    return torch.tensor(np.array(x), dtype=torch.float64)


def vals(digs=(2, 2, 2, 1, 0)):
    return st.fixed_dictionaries(
        {"dig": st.sampled_from(list(dict.fromkeys(digs))), "seed": st.integers(0, 2**31 - 1)}
    )


def often(common, *rare):
    """Mostly from ``common``, one time in six from the rare values"""
    return st.one_of(common, common, common, common, common, st.sampled_from(rare))


def lead_dims(maxd=2):
    """Shapes (..., nbatch)"""
    few = st.lists(st.integers(1, 4), min_size=1, max_size=1 + maxd)
    return st.one_of(*[few] * 15, sf([70], [2, 33], [40, 2]))


def fd(**kw):
    return st.fixed_dictionaries(kw)


def sf(*a):
    return st.sampled_from(list(a))


def laid(x, k):
    """A tensor with the values of ``x`` in one of several memory layouts"""
    a = T(x)
    k = k % 7
    if k == 1 and a.dim() > 0:  # every other entry
        b = torch.full(tuple(a.shape) + (2,), float("nan"))
        b[..., 0] = a
        return b[..., 0]
    if k == 2 and a.dim() > 1:
        return a.transpose(0, -1).contiguous().transpose(0, -1)
    if k in (3, 4) and a.dim() > 1 and bool(torch.all(a == a[:, :1])):
        return a[:, :1].expand(a.shape)
    if k == 5 and a.dim() > 0:  # part of a larger tensor
        return torch.cat([torch.full_like(a[:1], float("nan")), a, torch.full_like(a[:1], float("nan"))])[1:-1]
    return a


def grad_sum(out, wrt):
    """d(sum out)/d wrt, zeros when unused"""
    if not out.requires_grad:
        return torch.zeros_like(wrt)
    g = torch.autograd.grad(out.sum(), wrt, retain_graph=True, allow_unused=True)[0]
    return torch.zeros_like(wrt) if g is None else g


def snapshot(*ts):
    return [t.detach().clone() for t in ts]


def unchanged(before, after, what):
    for b, a in zip(before, after):
        need(
            b.shape == a.shape and bool(torch.equal(torch.nan_to_num(b), torch.nan_to_num(a.detach()))),
            f"{what}: an input tensor was modified: {show(b)} -> {show(a)}",
        )
