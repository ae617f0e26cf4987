"""P23: tension and creep test generators; P24: random tests and load cycles"""

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import experiments as X

from ..core import RULES, sub
from ..gen import Src, T, close, fd, need, same_shape, sf, snapshot, unchanged, vals

RULES["P23"] = "Cases: generated rates, limits, temperatures, hold ends and step counts; oracle is the written description."
RULES["P24"] = "Cases: generated ranges and cycle descriptions, including zero holds, zero and positive R; oracle is the written description."


tens = fd(
    nb=st.integers(1, 6),
    n=st.integers(1, 40),
    comp=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P23", "tension", tens, 1500, "more than one test and point")
def tension(c):
    src = Src(c["v"])
    nb, n = c["nb"], c["n"]
    sg = np.where(src.p(0.5, (nb,)), -1.0, 1.0) if c["comp"] else np.ones(nb)
    rates = src.lu(1e-7, 1.0, (nb,)) * sg
    temps = src.u(250.0, 1200.0, (nb,))
    lim = src.u(0.001, 0.5, (nb,)) * sg
    a = [T(x) for x in (rates, temps, lim)]
    before = snapshot(*a)
    t, e, tt, cyc = X.make_tension_tests(*a, n)
    unchanged(before, a, "tension generator")
    for x, nm in ((t, "times"), (e, "strains"), (tt, "temperatures"), (cyc, "cycles")):
        same_shape(x, (n, nb), nm)
    need(not cyc.is_floating_point() and bool(torch.all(cyc == 0)), f"cycle marks of tension tests {cyc}")
    s = np.linspace(0.0, 1.0, n)[:, None]
    close(tt, np.zeros((n, nb)) + temps, "temperatures", rtol=0, atol=0)
    close(e, s * lim, "strains", rtol=1e-12, atol=1e-300)
    close(t, s * lim / rates, "times", rtol=1e-12, atol=1e-300)
    close(e, t.numpy() * rates, "strain against rate x time", rtol=1e-11, atol=1e-300)
    need(bool(torch.all(torch.diff(t, dim=0) > 0)), "times do not increase")
    if nb > 1 and n > 1:
        return "compression" if (sg < 0).any() else "tension"


creep = fd(
    nb=st.integers(1, 6),
    nl=st.integers(2, 20),
    nh=st.integers(1, 25),
    comp=st.booleans(),
    log=sf(None, False, True),
    v=vals((2, 2, 1)),
)


@sub("P23", "creep", creep, 1500, "more than one test")
def creep_tests(c):
    src = Src(c["v"])
    nb, nl, nh = c["nb"], c["nl"], c["nh"]
    sg = np.where(src.p(0.5, (nb,)), -1.0, 1.0) if c["comp"] else np.ones(nb)
    stress = src.u(1.0, 500.0, (nb,)) * sg
    rate = src.lu(1e-3, 100.0, (nb,)) * sg
    temps = src.u(250.0, 1200.0, (nb,))
    tl = stress / rate
    end = tl * (1.0 + src.lu(1e-2, 1e4, (nb,)))
    a = [T(x) for x in (stress, temps, rate, end)]
    before = snapshot(*a)
    kw = {} if c["log"] is None else {"logspace": c["log"]}
    t, s, tt, cyc = X.make_creep_tests(*a, nl, nh, **kw)
    unchanged(before, a, "creep generator")
    n = nl + nh
    for x, nm in ((t, "times"), (s, "stresses"), (tt, "temperatures"), (cyc, "cycles")):
        same_shape(x, (n, nb), nm)
    ec = np.concatenate([np.zeros((nl, nb)), np.ones((nh, nb))])
    need(not cyc.is_floating_point(), "cycle marks are not integers")
    close(cyc, ec, "cycle marks", rtol=0, atol=0)
    close(tt, np.zeros((n, nb)) + temps, "temperatures", rtol=0, atol=0)
    r = np.linspace(0.0, 1.0, nl)[:, None]
    close(s[:nl], r * stress, "stresses while loading", rtol=1e-12, atol=1e-300)
    close(t[:nl], r * tl, "times while loading", rtol=1e-12, atol=1e-300)
    close(s[nl:], np.zeros((nh, nb)) + stress, "held stress", rtol=0, atol=0)
    h = np.linspace(0.0, 1.0, nh + 1)[1:, None]
    if c["log"]:
        ex = 10.0 ** (np.log10(tl) + h * (np.log10(end) - np.log10(tl)))
    else:
        ex = tl + h * (end - tl)
    close(t[nl:], ex, "times of the hold", rtol=1e-9, atol=1e-300)
    need(bool(torch.all(torch.diff(t, dim=0) > 0)), f"times do not increase: {t}")
    if nb > 1:
        return ("log" if c["log"] else "lin") + (",compression" if (sg < 0).any() else "")


# -------------------------------------------------------------------- random
rnd = fd(seed=st.integers(0, 2**31 - 1), default=st.booleans(), rev=st.booleans(), v=vals((2, 2, 1)))


def inside(x, r, what):
    lo, hi = min(r), max(r)
    e = 1e-12 * (abs(lo) + abs(hi))
    x = np.asarray(x, float)
    need(bool(np.all(x >= lo - e) and np.all(x <= hi + e)), f"{what}: {x} outside [{lo}, {hi}]")


def spread(x, r, what):
    """200 draws reach both the lower and the upper third of the range"""
    lo, hi = min(r), max(r)
    if hi - lo < 1e-9 * (abs(lo) + abs(hi)):
        return
    u = (np.asarray(x) - lo) / (hi - lo)
    need(u.min() < 1 / 3 and u.max() > 2 / 3, f"{what}: 200 draws only in [{u.min()}, {u.max()}] of the range")


@sub("P24", "random_tests", rnd, 300, "every case (200 draws each)")
def random_tests(c):
    src = Src(c["v"])
    np.random.seed(c["seed"])
    N = 200

    def rng(lo, hi, neg=False):
        a, b = sorted(src.u(lo, hi, (2,)))
        return [float(b), float(a)] if c["rev"] else [float(a), float(b)]

    def lrng():
        a, b = sorted(src.lu(1e-8, 1.0, (2,)))
        return [float(b), float(a)] if c["rev"] else [float(a), float(b)]

    if c["default"]:
        sr, ms = [1e-6, 1e-2], 0.2
        d = [X.generate_random_tension() for _ in range(N)]
    else:
        sr, ms = lrng(), float(src.u(0.01, 1.0))
        d = [X.generate_random_tension(strain_rate=sr, max_strain=ms) for _ in range(N)]
    for z in d:
        need(z["max_strain"] == ms, f"maximum strain {z['max_strain']} instead of {ms}")
    inside([z["strain_rate"] for z in d], sr, "strain rate of a random tension test")
    spread(np.log10([z["strain_rate"] for z in d]), np.log10(sr), "tension strain rate")

    if c["default"]:
        R = dict(max_strain=[0, 0.02], R=[-1, 1], strain_rate=[1e-3, 1e-5], tension_hold=[0, 3600.0], compression_hold=[0, 600])
        d = [X.generate_random_cycle() for _ in range(N)]
    else:
        R = dict(
            max_strain=rng(0.0, 0.05), R=rng(-2.0, 1.0), strain_rate=lrng(), tension_hold=rng(10.0, 100.0), compression_hold=rng(200.0, 900.0)
        )
        d = [X.generate_random_cycle(**R) for _ in range(N)]
    for k, r in R.items():
        x = np.array([float(z[k]) for z in d])
        inside(x, r, f"{k} of a random cycle")
        spread(np.log10(x) if k == "strain_rate" else x, np.log10(r) if k == "strain_rate" else r, k)
    return "default" if c["default"] else "ranges"


# ------------------------------------------------------------------- cycles
cyc = fd(
    N=st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), sf(100, 129, 300)),
    nload=st.integers(1, 12),
    nhold=st.integers(1, 12),
    default=st.booleans(),
    emax=sf("pos", "pos", "neg", "zero"),
    R=sf("any", "any", -1.0, 0.0, 1.0),
    th=sf("any", "any", "zero"),
    ch=sf("any", "any", "zero"),
    rnd=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P24", "sample_cycle", cyc, 2500, "more than one cycle with nonzero strain")
def sample_cycle(c):
    src = Src(c["v"])
    if c["rnd"]:
        np.random.seed(c["v"]["seed"])
        d = X.generate_random_cycle()
    else:
        d = {
            "max_strain": {"pos": 1.0, "neg": -1.0, "zero": 0.0}[c["emax"]] * float(src.lu(1e-6, 0.2)),
            "R": float(src.u(-2.0, 1.0)) if c["R"] == "any" else c["R"],
            "strain_rate": float(src.lu(1e-9, 10.0)),
            "tension_hold": 0.0 if c["th"] == "zero" else float(src.lu(0.1, 5000.0)),
            "compression_hold": 0.0 if c["ch"] == "zero" else float(src.lu(0.1, 5000.0)),
        }
    N = c["N"]
    kw = {} if c["default"] else {"nload": c["nload"], "nhold": c["nhold"]}
    nl, nh = kw.get("nload", 10), kw.get("nhold", 10)
    keep = dict(d)
    emax, emin, r = d["max_strain"], d["R"] * d["max_strain"], d["strain_rate"]
    seg = [
        (0.0, emax, abs(emax) / r, nl),
        (emax, emax, d["tension_hold"], nh),
        (emax, emin, abs(emax - emin) / r, 2 * nl),
        (emin, emin, d["compression_hold"], nh),
        (emin, 0.0, abs(emin) / r, nl),
    ]
    period = sum(s[2] for s in seg)
    if period == 0:
        return None
    t, e, k = X.sample_cycle_normalized_times(d, N, **kw)
    need(d == keep, "the cycle description was modified")
    n1 = 4 * nl + 2 * nh
    for x, nm in ((t, "times"), (e, "strains"), (k, "cycles")):
        need(np.shape(x) == (1 + n1 * N,), f"{nm}: shape {np.shape(x)}")
    et, ee, ek = [0.0], [0.0], [0]
    for q in range(N):
        t0 = q * period
        for a, b, dt, n in seg:
            w = np.arange(1, n + 1) / n
            et += list(t0 + w * dt)
            ee += list(a + w * (b - a))
            ek += [q] * n
            t0 += dt
    te = 1e-12 * N * period
    close(t, np.array(et), "times", rtol=1e-12, atol=te)
    close(k, np.array(ek), "cycle numbers", rtol=0, atol=0)
    need(np.issubdtype(np.asarray(k).dtype, np.integer), "cycle numbers are not integers")
    close(e, np.array(ee), "strains", rtol=1e-10, atol=1e-12 * abs(emax) + 4 * r * te)
    need(bool(np.all(np.diff(t) >= 0)), "times decrease")
    if N > 1 and emax != 0:
        return f"R={c['R']}" + (",zero hold" if 0.0 in (d["tension_hold"], d["compression_hold"]) else "")


@sub("P24", "sample_tension", fd(n=sf(None, 1, 2, 7, 120), rnd=st.booleans(), v=vals((2, 2, 1))), 600, "more than one point")
def sample_tension(c):
    src = Src(c["v"])
    if c["rnd"]:
        np.random.seed(c["v"]["seed"])
        d = X.generate_random_tension()
    else:
        d = {"max_strain": float(src.u(0.001, 0.5)), "strain_rate": float(src.lu(1e-8, 10.0))}
    n = c["n"] or 50
    t, e = X.sample_tension(d, **({} if c["n"] is None else {"nsteps": n}))
    need(np.shape(t) == (n,) and np.shape(e) == (n,), f"{np.shape(t)} times, {np.shape(e)} strains for {n} points")
    w = np.linspace(0, 1, n)
    close(e, w * d["max_strain"], "strains", rtol=1e-12, atol=1e-300)
    close(t, w * d["max_strain"] / d["strain_rate"], "times", rtol=1e-12, atol=1e-300)
    if n > 1:
        return "ok"
