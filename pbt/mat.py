"""
Generated material models together with independent scalar references.

``build_*`` turns a structure (from the strategies below) and a number source
into a pair (pyoptmat object, reference).  References work on Python floats,
one point at a time, written from the documented equations.
"""

import functools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pyoptmat import damage as D
from pyoptmat import flowrules as F
from pyoptmat import hardening as H
from pyoptmat import temperature as TP

from .core import Skip
from .gen import T, fd, sf


# ------------------------------------------------------------ parameters
class Par:
    """A generated material parameter: pyoptmat object + f(T, ib)"""

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __call__(self, Tv, ib):
        return self.fn(Tv, ib)


T_LO, T_HI = 300.0, 900.0

# What the builders do with parameter values: keep only those of one sample
# (TAKE = its index), or make them trainable and record them (REG = a list)
TAKE = None
REG = None
LEAF = True  # False: trainable values are plain tensors instead of nn.Parameter


class building:
    """Context that sets TAKE and REG"""

    def __init__(self, take=None, reg=None, leaf=True):
        self.new = take, reg, leaf

    def __enter__(self):
        global TAKE, REG, LEAF
        self.old = TAKE, REG, LEAF
        TAKE, REG, LEAF = self.new

    def __exit__(self, *a):
        global TAKE, REG, LEAF
        TAKE, REG, LEAF = self.old


# Unusual ranges: another unit of stress, recovery exponents below one, large rate sensitivity exponents,
# reference strain rates below the applied ones
UNIT, LOW, HIGH, SLOWREF = 1.0, False, False, False
range_st = sf("", "", "", "", "unit", "unit", "high", "low", "slowref")


class ranges:
    """Context that selects unusual ranges by name"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        global UNIT, LOW, HIGH, SLOWREF
        UNIT, LOW = 1e6 if self.name == "unit" else 1.0, self.name == "low"
        HIGH, SLOWREF = self.name == "high", self.name == "slowref"

    def __exit__(self, *a):
        global UNIT, LOW, HIGH, SLOWREF
        UNIT, LOW, HIGH, SLOWREF = 1.0, False, False, False


def ranged(check):
    """A check that builds its case with the ranges named in it"""

    @functools.wraps(check)
    def run(c):
        with ranges(c["w"]):
            return check(c)

    return run


def recexp(lo, hi):
    """Range of a recovery exponent"""
    return (0.3, 0.95) if LOW else (lo, hi)


def offzero(h):
    """Internal variables away from zero when recovery exponents are below one (their powers are singular there)"""
    return torch.where(torch.abs(h) < 1e-3, 3.0, h) if LOW else h


def regular(x):
    """Skips the case at the singular point of a recovery term"""
    if LOW and abs(x) < 1e-3:
        raise Skip()
    return x


def senexp(lo, hi):
    """Range of a rate sensitivity exponent"""
    return (15.0, 200.0) if HIGH else (lo, hi)


def par_t(v, batched=False):
    """Tensor of a parameter value"""
    x = T(v)
    if batched and TAKE is not None:
        x = x[TAKE : TAKE + 1]
    if REG is not None:
        x = torch.nn.Parameter(x) if LEAF else x.requires_grad_(True)
        REG.append(x)
    return x


def mk_par(src, kind, lo, hi, nb, log=False):
    """Scalar parameter with values in [lo, hi] over the temperature range"""
    draw = src.lu if log else src.u
    if kind == "c":
        v = float(draw(lo, hi))
        return Par(TP.ConstantParameter(par_t(v)), lambda Tv, ib: v)
    if kind == "b":
        v = [float(x) for x in draw(lo, hi, (nb,))]
        return Par(TP.ConstantParameter(par_t(v, True)), lambda Tv, ib: v[ib])
    if kind == "s":  # scaled constant
        v = float(draw(lo, hi))
        f = 2.5
        return Par(
            TP.ConstantParameter(par_t(v / f), scaling=lambda x: x * 2.5),
            lambda Tv, ib: v / f * 2.5,
        )
    if kind == "poly":
        v1, v2 = float(draw(lo, hi)), float(draw(lo, hi))
        m = (v2 - v1) / (T_HI - T_LO)
        c = v1 - m * T_LO
        return Par(TP.PolynomialScaling(par_t([m, c])), lambda Tv, ib: m * Tv + c)
    if kind == "pw":
        ctrl = [T_LO - 10.0, 450.0, 700.0, T_HI + 10.0]
        v = [float(x) for x in draw(lo, hi, (4,))]
        return Par(
            TP.PiecewiseScaling(T(ctrl), par_t(v)), lambda Tv, ib: float(np.interp(Tv, ctrl, v))
        )
    if kind == "pwb":  # piecewise values per sample
        ctrl = [T_LO - 10.0, 600.0, T_HI + 10.0]
        v = draw(lo, hi, (nb, 3))
        return Par(
            TP.PiecewiseScaling(T(ctrl), par_t(v, True)),
            lambda Tv, ib: float(np.interp(Tv, ctrl, v[ib])),
        )
    raise ValueError(kind)


def mk_vec(src, kind, lo, hi, nb, n, log=False):
    """Vector parameter (per backstress)"""
    draw = src.lu if log else src.u
    if kind == "b":
        v = draw(lo, hi, (nb, n))
        return Par(TP.ConstantParameter(par_t(v, True)), lambda Tv, ib: [float(x) for x in v[ib]])
    v = draw(lo, hi, (n,))
    return Par(TP.ConstantParameter(par_t(v)), lambda Tv, ib: [float(x) for x in v])


par_kind = sf("c", "c", "b", "b", "poly", "pw", "s", "pwb")


# ------------------------------------------------------------ hardening
iso_st = fd(k=sf("voce", "theta", "rec"), p=par_kind)
kin1_st = st.one_of(
    fd(k=sf("none", "fa", "fanr", "fadef"), p=par_kind),
    fd(k=sf("cha", "char"), n=st.integers(1, 3), p=sf("c", "b")),
)
kin_st = st.one_of(
    kin1_st, kin1_st, fd(k=st.just("sup"), m=st.lists(kin1_st, min_size=1, max_size=3))
)
iso_or_kin = st.one_of(iso_st, kin_st)


class RefHard:
    """rate(s,h,t,ep,T,e,ib) -> list, value(h)"""

    def __init__(self, n, rate, value):
        self.nhist, self.rate, self.value = n, rate, value


def apow(x, p):
    """|x|^p with the limits used at zero"""
    if x == 0.0:
        return 1.0 if p == 0 else (0.0 if p > 0 else math.inf)
    return abs(x) ** p


def build_iso(sp, src, nb):
    k, p = sp["k"], sp["p"]
    if k == "voce":
        R = mk_par(src, p, 20.0 * UNIT, 200.0 * UNIT, nb)
        d = mk_par(src, p, 0.5, 20.0, nb)
        return H.VoceIsotropicHardeningModel(R.obj, d.obj), RefHard(
            1,
            lambda s, h, t, ep, Tv, e, ib: [d(Tv, ib) * (R(Tv, ib) - h[0]) * abs(ep)],
            lambda h: h[0],
        )
    tau = mk_par(src, p, 20.0 * UNIT, 200.0 * UNIT, nb)
    th = mk_par(src, p, 100.0 * UNIT, 4000.0 * UNIT, nb)
    if k == "theta":
        return H.Theta0VoceIsotropicHardeningModel(tau.obj, th.obj), RefHard(
            1,
            lambda s, h, t, ep, Tv, e, ib: [th(Tv, ib) * (1.0 - h[0] / tau(Tv, ib)) * abs(ep)],
            lambda h: h[0],
        )
    R0 = mk_par(src, p, 1.0 * UNIT, 20.0 * UNIT, nb)  # below the saturation value
    r1 = mk_par(src, p, 1e-6, 1e-3, nb, log=True)
    r2 = mk_par(src, p, *recexp(1.5, 3.0), nb)

    def rate(s, h, t, ep, Tv, e, ib):
        x = regular(R0(Tv, ib) - h[0])
        return [
            th(Tv, ib) * (1.0 - h[0] / tau(Tv, ib)) * abs(ep)
            + r1(Tv, ib) * x * apow(x, r2(Tv, ib) - 1.0)
        ]

    return (
        H.Theta0RecoveryVoceIsotropicHardeningModel(tau.obj, th.obj, R0.obj, r1.obj, r2.obj),
        RefHard(1, rate, lambda h: h[0]),
    )


def build_kin(sp, src, nb):
    k = sp["k"]
    if k == "none":
        return H.NoKinematicHardeningModel(), RefHard(
            0, lambda s, h, t, ep, Tv, e, ib: [], lambda h: 0.0
        )
    if k == "sup":
        subs = [build_kin(m, src, nb) for m in sp["m"]]
        off = [0]
        for m in subs:
            off.append(off[-1] + m[1].nhist)

        def rate(s, h, t, ep, Tv, e, ib):
            out = []
            for i, m in enumerate(subs):
                out += m[1].rate(s, h[off[i] : off[i + 1]], t, ep, Tv, e, ib)
            return out

        return H.SuperimposedKinematicHardening([m[0] for m in subs]), RefHard(
            off[-1],
            rate,
            lambda h: sum(m[1].value(h[off[i] : off[i + 1]]) for i, m in enumerate(subs)),
        )
    p = sp["p"]
    if k in ("cha", "char"):
        n = sp["n"]
        C = mk_vec(src, p, 500.0 * UNIT, 8000.0 * UNIT, nb, n)
        g = mk_vec(src, p, 0.0, 100.0, nb, n)
        if k == "cha":
            b = r = None
            obj = H.ChabocheHardeningModel(C.obj, g.obj)
        else:
            b = mk_vec(src, p, 1e-7, 1e-4, nb, n, log=True)
            r = mk_vec(src, p, *recexp(1.2, 3.0), nb, n)
            obj = H.ChabocheHardeningModelRecovery(C.obj, g.obj, b.obj, r.obj)

        def rate(s, h, t, ep, Tv, e, ib):
            out = []
            for i in range(n):
                v = C(Tv, ib)[i] * ep - g(Tv, ib)[i] * h[i] * abs(ep)
                if b is not None:
                    v -= b(Tv, ib)[i] * apow(regular(h[i]), r(Tv, ib)[i] - 1.0) * h[i]
                out.append(v)
            return out

        return obj, RefHard(n, rate, lambda h: sum(h))

    C = mk_par(src, p, 500.0 * UNIT, 8000.0 * UNIT, nb)
    g = mk_par(src, p, 0.0, 100.0, nb)
    if k == "fanr":
        obj = H.FAKinematicHardeningModelNoRecovery(C.obj, g.obj)
        b = None
    elif k == "fadef":
        obj = H.FAKinematicHardeningModel(C.obj, g.obj)
        b = None
    else:
        b = mk_par(src, p, 1e-7, 1e-4, nb, log=True)
        r = mk_par(src, p, *recexp(1.2, 3.0), nb)
        obj = H.FAKinematicHardeningModel(C.obj, g.obj, b=b.obj, r=r.obj)

    def rate(s, h, t, ep, Tv, e, ib):
        v = C(Tv, ib) * ep - g(Tv, ib) * h[0] * abs(ep)
        if b is not None:
            v -= b(Tv, ib) * apow(regular(h[0]), r(Tv, ib) - 1.0) * h[0]
        return [v]

    return obj, RefHard(1, rate, lambda h: h[0])


# ------------------------------------------------------------ flow rules
class RefFlow:
    def __init__(self, n, flow, hist):
        self.nhist, self.flow, self.hist = n, flow, hist


class Kinks:
    """Distance of the evaluated points from the kinks of the equations"""

    def __init__(self):
        self.d = math.inf
        self.tail = 1.0  # smallest weight of a smooth blend
        self.big = 0.0  # largest rate that entered a smooth blend, over |e|

    def blend(self, x, y, e, f):
        self.tail = min(self.tail, f, 1.0 - f)
        self.big = max(self.big, (abs(x) + abs(y)) / (abs(e) + 1e-20))

    def see(self, x):
        self.d = min(self.d, abs(x))


def sgn(x):
    return float(x > 0) - float(x < 0)


perfect_st = fd(k=st.just("perf"), p=par_kind)
isokin_st = fd(k=st.just("ik"), iso=iso_st, kin=kin_st, p=par_kind)
leaf_st = st.one_of(perfect_st, isokin_st, isokin_st)


def flow_st(depth=2):
    if depth == 0:
        return leaf_st
    inner = flow_st(depth - 1)
    return st.one_of(
        leaf_st,
        leaf_st,
        fd(k=st.just("ri"), m=inner),
        fd(k=st.just("sup"), m=st.lists(inner, min_size=1, max_size=3)),
        fd(k=sf("km", "soft"), m=inner, m2=st.one_of(st.none(), inner), gs=st.booleans(), ms=st.booleans()),
    )


def nhist_of(sp):
    k = sp["k"]
    if k == "perf":
        return 0
    if k == "ik":
        return 1 + nkin(sp["kin"])
    if k in ("ri", "km", "soft"):
        return nhist_of(sp["m"])
    return sum(nhist_of(m) for m in sp["m"])


def nkin(sp):
    k = sp["k"]
    if k == "none":
        return 0
    if k == "sup":
        return sum(nkin(m) for m in sp["m"])
    return sp.get("n", 1)


def has(sp, *kinds):
    if sp["k"] in kinds:
        return True
    for key in ("m", "m2", "iso", "kin"):
        v = sp.get(key)
        if isinstance(v, dict) and has(v, *kinds):
            return True
        if isinstance(v, list) and any(has(x, *kinds) for x in v):
            return True
    return False


def build_flow(sp, src, nb, kinks=None):
    kinks = kinks or Kinks()
    k = sp["k"]
    if k == "perf":
        n = mk_par(src, sp["p"], *senexp(1.2, 7.0), nb)
        eta = mk_par(src, sp["p"], 100.0 * UNIT, 400.0 * UNIT, nb)

        def flow(s, h, t, Tv, e, ib):
            kinks.see(s)
            return (abs(s) / eta(Tv, ib)) ** n(Tv, ib) * sgn(s)

        return F.PerfectViscoplasticity(n.obj, eta.obj), RefFlow(
            0, flow, lambda s, h, t, Tv, e, ib: []
        )
    if k == "ik":
        n = mk_par(src, sp["p"], *senexp(1.2, 7.0), nb)
        eta = mk_par(src, sp["p"], 50.0 * UNIT, 300.0 * UNIT, nb)
        s0 = mk_par(src, sp["p"], 0.0 * UNIT, 60.0 * UNIT, nb)
        iso, riso = build_iso(sp["iso"], src, nb)
        kin, rkin = build_kin(sp["kin"], src, nb)

        def flow(s, h, t, Tv, e, ib):
            x = s - rkin.value(h[1:])
            f = (abs(x) - s0(Tv, ib) - riso.value(h[:1])) / eta(Tv, ib)
            kinks.see(x)
            kinks.see(f)
            return max(f, 0.0) ** n(Tv, ib) * sgn(x)

        def hist(s, h, t, Tv, e, ib):
            ep = flow(s, h, t, Tv, e, ib)
            return riso.rate(s, h[:1], t, ep, Tv, e, ib) + rkin.rate(s, h[1:], t, ep, Tv, e, ib)

        return F.IsoKinViscoplasticity(n.obj, eta.obj, s0.obj, iso, kin), RefFlow(
            1 + rkin.nhist, flow, hist
        )
    if k == "ri":
        base, rb = build_flow(sp["m"], src, nb, kinks)
        lam = float(src.u(0.0, 0.95))
        eref = float(src.lu(1e-5, 1e-1))

        def sc(e):
            kinks.see(e)
            return 1.0 - lam + lam * abs(e) / eref

        return F.RateIndependentFlowRuleWrapper(base, par_t(lam), par_t(eref)), RefFlow(
            rb.nhist,
            lambda s, h, t, Tv, e, ib: sc(e) * rb.flow(s, h, t, Tv, e, ib),
            lambda s, h, t, Tv, e, ib: [sc(e) * x for x in rb.hist(s, h, t, Tv, e, ib)],
        )
    if k == "sup":
        subs = [build_flow(m, src, nb, kinks) for m in sp["m"]]
        off = [0]
        for m in subs:
            off.append(off[-1] + m[1].nhist)

        def flow(s, h, t, Tv, e, ib):
            return sum(
                m[1].flow(s, h[off[i] : off[i + 1]], t, Tv, e, ib) for i, m in enumerate(subs)
            )

        def hist(s, h, t, Tv, e, ib):
            out = []
            for i, m in enumerate(subs):
                out += m[1].hist(s, h[off[i] : off[i + 1]], t, Tv, e, ib)
            return out

        return F.SuperimposedFlowRule([m[0] for m in subs]), RefFlow(off[-1], flow, hist)
    if k in ("km", "soft"):
        m2 = sp["m2"]
        if m2 is None or nhist_of(m2) != nhist_of(sp["m"]):
            m2 = sp["m"]
        a, ra = build_flow(sp["m"], src, nb, kinks)
        b, rb = build_flow(m2, src, nb, kinks)
        mu1, mu2 = float(src.u(6e4, 1e5)), float(src.u(3e4, 6e4))
        c1 = (mu2 - mu1) / (T_HI - T_LO)
        c0 = mu1 - c1 * T_LO
        if sp["ms"]:
            mu = TP.PolynomialScaling(par_t([c1 / 1000.0, c0 / 1000.0]), scaling=lambda x: x * 1000.0)
        else:
            mu = TP.PolynomialScaling(par_t([c1, c0]))
        kb, bv = 1.38e-20, 2.019e-7
        eps0 = float(src.lu(1e-6, 1e2) if SLOWREF else src.lu(1e4, 1e10))
        g0 = float(src.u(0.2, 0.9))
        if sp["gs"]:
            g0raw, gscale = g0 / 2.0 - 0.05, (lambda x: 2.0 * x + 0.1)
        else:
            g0raw, gscale = g0, None
        kw = {} if gscale is None else {"g0_scale": gscale}

        def g(Tv, e):
            kinks.see(e)
            return kb * Tv / ((c1 * Tv + c0) * bv**3) * math.log(eps0 / (abs(e) + 1e-20))

        if k == "km":

            def mix(x, y, Tv, e):
                d = g(Tv, e) - g0
                kinks.see(d)
                return y if d > 0 else x

            obj = F.KocksMeckingRegimeFlowRule(
                a, b, par_t(g0raw), mu, T(bv), par_t(eps0), T(kb), **kw
            )
        else:
            sfv = float(src.lu(1.0, 50.0))

            def mix(x, y, Tv, e):
                f = (math.tanh(sfv * (g(Tv, e) - g0)) + 1.0) / 2.0
                kinks.blend(x, y, e, f)
                return (1.0 - f) * x + f * y

            obj = F.SoftKocksMeckingRegimeFlowRule(
                a, b, par_t(g0raw), mu, T(bv), par_t(eps0), T(kb), par_t(sfv), **kw
            )
        return obj, RefFlow(
            ra.nhist,
            lambda s, h, t, Tv, e, ib: mix(
                ra.flow(s, h, t, Tv, e, ib), rb.flow(s, h, t, Tv, e, ib), Tv, e
            ),
            lambda s, h, t, Tv, e, ib: [
                mix(x, y, Tv, e)
                for x, y in zip(ra.hist(s, h, t, Tv, e, ib), rb.hist(s, h, t, Tv, e, ib))
            ],
        )
    raise ValueError(k)


# ------------------------------------------------------------ damage
dam_st = fd(k=sf("none", "hl", "const", "lm"), p=par_kind)


def build_damage(sp, src, nb, slow=1.0):
    """``slow`` scales the damage rates down for integration"""
    k, p = sp["k"], sp["p"]
    if k == "none":
        return D.NoDamage(), lambda s, d, t, Tv, e, ib: 0.0
    if k == "const":
        R = mk_par(src, p, 1e-6 * slow, 1e-2 * slow, nb, log=True)
        return D.ConstantDamage(R.obj), lambda s, d, t, Tv, e, ib: R(Tv, ib)
    if k == "hl":
        A = mk_par(src, p, 500.0 * UNIT / slow**0.3, 2000.0 * UNIT / slow**0.3, nb)
        xi = mk_par(src, p, 1.2, 6.0, nb)
        phi = mk_par(src, p, 1.0, 8.0, nb)
        return D.HayhurstLeckie(A.obj, xi.obj, phi.obj), lambda s, d, t, Tv, e, ib: (
            abs(s) / A(Tv, ib)
        ) ** xi(Tv, ib) * (1.0 - d) ** (xi(Tv, ib) - phi(Tv, ib))
    # Larson-Miller: 10^(C - B/T) (|s|(1-d))^(-A/T), A < 0
    # (creep exponent -A/T above one)
    C = mk_par(src, p, -6.0 + math.log10(slow), -3.0 + math.log10(slow), nb)
    A = mk_par(src, p, -1800.0, -1000.0, nb)
    B = mk_par(src, p, 500.0, 2000.0, nb)
    return D.LarsonMillerDamage(C.obj, A.obj, B.obj), lambda s, d, t, Tv, e, ib: 10.0 ** (
        C(Tv, ib) - B(Tv, ib) / Tv
    ) * (abs(s) * (1.0 - d)) ** (-A(Tv, ib) / Tv)


def over(shape):
    """Indices of an array with the trailing (batch) index"""
    for i in np.ndindex(*shape):
        yield i, i[-1]
