"""P26: deterministic model; P27, P28: statistical models"""

import copy
import math

import numpy as np
import pyro
import torch
from hypothesis import strategies as st
from pyro import poutine
from pyro.infer import Trace_ELBO

from pyoptmat import flowrules as F
from pyoptmat import hardening as H
from pyoptmat import models as M
from pyoptmat import optimize as O
from pyoptmat import temperature as TP

from .. import mdl, odes
from ..core import RULES, sub
from ..gen import Skip, Src, T, close, fd, need, same_shape, sf, snapshot, unchanged, vals
from .convert import NAMES, gen_cycles, ref_convert

RULES["P26"] = (
    "Cases: batches mixing test types and controls, generated parameter values and solver options; oracle simulates "
    "and converts every test alone, gradients from a hand-built simulation."
)
RULES["P27"] = "Cases: generated priors, noise, test types and data with a synthetic or a real material model; oracle sums the density by hand."
RULES["P28"] = "Cases: generated priors, weights, noise, vector parameters and test types; oracle sums the density by hand for the sampled sites."

CTRL = {0: 0, 1: 0, 2: 0, 3: 1, 4: 1, 5: 0}


# ----------------------------------------------------- experiments and models
def experiments(src, types, nt, control=None):
    """(data, cycles, types, control) of a batch of tests, in numpy"""
    ne = len(types)
    data = np.zeros((3, nt, ne))
    cyc = np.zeros((nt, ne), dtype=int)
    ctl = np.zeros(ne, dtype=int)
    for i, ty in enumerate(types):
        c = gen_cycles(src, ty, nt)
        cyc[:, i] = c
        ctl[i] = CTRL.get(ty, src.i(0, 1))
        d = src.u(0.2, 1.0, nt - 1)
        if ty in (1, 3):
            d = np.where(c[1:] == 1, 0.0, d)
        elif ty in (2, 4):
            d = d * np.where(c[1:] % 2 == 0, 1.0, -1.0)
        elif ty == 6:
            d = d * src.sign(nt - 1)
        x = np.concatenate([[0.0], np.cumsum(d)])
        m = max(np.max(np.abs(x)), 1e-9)
        x = x / m * (src.u(10.0, 60.0) if ctl[i] else src.u(5e-4, 4e-3))
        dt = src.u(0.3, 1.0, nt - 1) * src.lu(1.0, 300.0)
        data[0, :, i] = np.concatenate([[0.0], np.cumsum(dt)])
        data[1, :, i] = src.u(300.0, 900.0) if src.p(0.5) else np.linspace(src.u(300, 600), src.u(600, 900), nt)
        data[2, :, i] = x
    return data, cyc, np.array(types), ctl


NPAR = ["n", "eta", "s0", "R", "d", "C", "g"]
BND = {
    "n": (2.0, 6.0),
    "eta": (100.0, 300.0),
    "s0": (2.0, 15.0),
    "R": (20.0, 100.0),
    "d": (1.0, 20.0),
    "C": (500.0, 5000.0),
    "g": (10.0, 80.0),
}


def scaling(name):
    lo, hi = BND[name]
    return O.bounded_scale_function((T(lo), T(hi)))


def real_maker(kw, calls=None):
    """Model maker for parameters in (0, 1), as the package's examples have"""

    def maker(n, eta, s0, R, d, C, g, **more):
        if calls is not None:
            calls.append(more)
        p = dict(zip(NPAR, (n, eta, s0, R, d, C, g)))
        q = {k: TP.ConstantParameter(v, scaling=scaling(k)) for k, v in p.items()}
        iso = H.VoceIsotropicHardeningModel(q["R"], q["d"])
        kin = H.ChabocheHardeningModel(q["C"], q["g"])
        flow = F.IsoKinViscoplasticity(q["n"], q["eta"], q["s0"], iso, kin)
        E = TP.PolynomialScaling(T([-40.0, 160000.0]))
        return M.ModelIntegrator(M.InelasticModel(E, flow), **dict(kw, **more))

    return maker


def one_at_a_time(model, data, cyc, types, ctl):
    """Simulate and convert every test alone"""
    out = np.zeros(data.shape[1:])
    for i in range(data.shape[2]):
        a = [T(data[k, :, i : i + 1]) for k in range(3)]
        f = model.solve_stress if ctl[i] else model.solve_strain
        y = f(a[0], a[2], a[1]).detach().numpy()[:, 0, 0]
        out[:, i] = ref_convert(y, cyc[:, i], int(types[i]))
    return out


def hand_convert(y, cyc, types):
    """Differentiable conversion by hand, one test at a time"""
    cols = []
    for i in range(y.shape[1]):
        c, ty = cyc[:, i], int(types[i])
        r = y[:, i]
        if ty in (0, 6):
            cols.append(r)
            continue
        v = []
        first = next((k for k in range(len(c)) if c[k] == 1), 0)
        for k in range(len(c)):
            if ty in (1, 3):
                v.append(r[k] - r[first] if c[k] == 1 else 0.0 * r[k])
            elif ty in (2, 4):
                j = [q for q in range(len(c)) if c[q] == c[k]]
                v.append(r[max(j, key=lambda q: float(r[q].detach()))])
            else:
                v.append(0.0 * r[k] if c[k] == 0 else (r[first] if c[k] == 1 else r[int(torch.argmax(r.detach()))]))
        cols.append(torch.stack(v))
    return torch.stack(cols, dim=1)


det = fd(
    types=st.lists(st.integers(0, 6), min_size=1, max_size=5),
    nt=st.integers(3, 9),
    nc=st.integers(1, 2),
    sol=odes.solver_st,
    adj=st.booleans(),
    grad=st.booleans(),
    change=st.booleans(),
    tie=sf(False, False, True),
    label=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P26", "deterministic", det, 260, "two or more tests")
def deterministic(c):
    src = Src(c["v"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    kw = odes.solver_kw(c["sol"], tight=False)
    kw.update(rtol=1e-16, atol=1e-9, miter=60, use_adjoint=c["adj"])
    maker = real_maker(kw)
    ics = [T(src.u(0.1, 0.9, (c["nc"],) if k in ("C", "g") else ())) for k in NPAR]
    # the order of the names is the order of the arguments, whatever the names are
    lab = src.rs.permutation(len(NPAR)) if c["label"] else [""] * len(NPAR)
    names = [f"p{a}_{k}" if c["label"] else k + "_p" for a, k in zip(lab, NPAR)]
    model = O.DeterministicModel(maker, names, [x.clone() for x in ics])
    par = dict(model.named_parameters())
    need(set(par) == set(names), f"trainable parameters {sorted(par)}, expected {sorted(names)}")
    for k, x in zip(names, ics):
        close(par[k], x, f"initial value of {k}", rtol=0, atol=0)
        need(par[k].requires_grad, f"{k} is not trainable")
        need(getattr(model, k) is par[k], f"{k} is not an attribute")
    if c["change"]:
        with torch.no_grad():
            for i, k in enumerate(names):
                ics[i] = T(src.u(0.1, 0.9, tuple(ics[i].shape)))
                par[k].copy_(ics[i])
    pairs = [(i, j) for i in range(len(names)) for j in range(len(names)) if i != j and ics[i].shape == ics[j].shape]
    tie = c["tie"] and pairs
    if tie:  # two names for one parameter
        i, j = pairs[int(src.i(0, len(pairs) - 1))]
        delattr(model, names[j])
        setattr(model, names[j], par[names[i]])
        par[names[j]], ics[j] = par[names[i]], ics[i]
    args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
    before = snapshot(*args)
    with mdl.Quiet() as q:
        pred = model(*args)
        ex = one_at_a_time(maker(*[x.clone() for x in ics]), data, cyc, types, ctl)
    if q.failed:
        raise Skip()
    unchanged(before, args, "deterministic model")
    ok = np.max(np.abs(ex))
    close(pred, ex, "prediction against simulating and converting each test by hand", rtol=1e-6, atol=1e-8 * max(1.0, ok))
    if c["grad"] and not tie:
        w = T(src.n(ex.shape)) / (T(np.abs(ex)) + 1e-3)
        g1 = torch.autograd.grad((w * pred).sum(), [par[k] for k in names])
        leaf = [x.clone().requires_grad_(True) for x in ics]
        y = real_maker(dict(kw, use_adjoint=False))(*leaf).solve_both(args[0][0], args[0][1], args[0][2], args[3])
        g2 = torch.autograd.grad((w * hand_convert(y[:, :, 0], cyc, types)).sum(), leaf)
        sc = max(float(x.abs().max()) for x in g2)
        for k, a, b in zip(names, g1, g2):
            close(a, b, f"gradient for {k}", rtol=1e-5, atol=1e-6 * sc + 1e-9)
    if len(types) > 1:
        return ("mixed control" if 0 < ctl.sum() < len(ctl) else "one control") + (",gradients" if c["grad"] else "")


rounds_st = fd(
    types=st.lists(st.integers(0, 6), min_size=1, max_size=3),
    nt=st.integers(3, 6),
    nc=st.integers(1, 2),
    sol=odes.solver_st,
    adj=st.booleans(),
    acts=st.lists(st.integers(0, 8), min_size=2, max_size=4),
    v=vals((2, 2, 1)),
)


@sub("P26", "history", rounds_st, 64, "the parameters change between evaluations")
def det_history(c):
    """One deterministic model over a series of calls, against making and simulating the model by hand for each"""
    src = Src(c["v"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    kw = odes.solver_kw(c["sol"], tight=False)
    kw.update(rtol=1e-16, atol=1e-9, miter=60)
    maker = real_maker(dict(kw, use_adjoint=c["adj"]))
    names = [k + "_p" for k in NPAR]
    cur = [T(src.u(0.1, 0.9, (c["nc"],) if k in ("C", "g") else ())) for k in NPAR]
    model = O.DeterministicModel(maker, names, [x.clone() for x in cur])
    par = dict(model.named_parameters())
    changes, failed = 0, False
    for n, act in enumerate([-1] + c["acts"]):
        new = [T(src.u(0.1, 0.9, tuple(x.shape))) for x in cur]
        j = int(src.i(0, len(names) - 1))
        grad = act != 5
        if act == 0:  # an optimiser's step
            with torch.no_grad():
                for k, x in zip(names, new):
                    par[k].copy_(x)
            cur = new
        elif act == 1:
            model.load_state_dict(dict(zip(names, new)))
            cur = new
        elif act == 2:
            par[names[j]].data = new[j].clone()
            cur[j] = new[j]
        elif act == 3:  # another parameter object under the same name
            setattr(model, names[j], torch.nn.Parameter(new[j].clone()))
            par[names[j]] = getattr(model, names[j])
            cur[j] = new[j]
        elif act == 4:
            model.train(n % 2 == 0)
            with torch.no_grad():
                par[names[j]].copy_(new[j])
            cur[j] = new[j]
        elif act == 6:  # other tests
            data, cyc, types, ctl = experiments(src, c["types"][::-1] + [0], c["nt"])
        elif act == 7:  # a parameter that is held
            par[names[j]].requires_grad_(not par[names[j]].requires_grad)
        elif act == 8:
            model = copy.deepcopy(model)
            par = dict(model.named_parameters())
        changes += act in (0, 1, 2, 3, 4)
        args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
        leaf = [x.clone().requires_grad_(True) for x in cur]
        with mdl.Quiet() as q:
            with torch.set_grad_enabled(grad):
                pred = model(*args)
            y = real_maker(dict(kw, use_adjoint=False))(*leaf).solve_both(args[0][0], args[0][1], args[0][2], args[3])
        failed = failed or q.failed
        if q.failed:
            continue
        ex = hand_convert(y[:, :, 0], cyc, types)
        close(pred, ex, f"call {n}: prediction against making the model by hand", rtol=1e-6, atol=1e-8 * max(1.0, float(ex.detach().abs().max())))
        need(pred.requires_grad == (grad and any(p.requires_grad for p in par.values())), f"call {n}: the prediction has requires_grad {pred.requires_grad}")
        if pred.requires_grad:
            w = T(src.n(tuple(ex.shape))) / (ex.detach().abs() + 1e-3)
            free = [i for i, k in enumerate(names) if par[k].requires_grad]
            g1 = torch.autograd.grad((w * pred).sum(), [par[names[i]] for i in free])
            g2 = torch.autograd.grad((w * ex).sum(), [leaf[i] for i in free])
            sc = max(float(x.abs().max()) for x in g2)
            for i, a, b in zip(free, g1, g2):
                close(a, b, f"call {n}: gradient for {names[i]}", rtol=1e-5, atol=1e-6 * sc + 1e-9)
    if failed:
        raise Skip()
    if changes:
        return "mixed control" if 0 < ctl.sum() < len(ctl) else "one control"


# ------------------------------------------------------- synthetic simulation
class Fake:
    """Stands in for a material model: a cheap formula per test that uses every input"""

    def __init__(self, p, bad=None):
        self.p, self.bad = p, bad

    def solve_both(self, times, temps, idata, control):
        x = sum((k + 1.0) * (q.flatten(1).sum(-1) if q.dim() > 1 else q.sum(-1) if q.dim() == 1 and k in self.vec else q) for k, q in enumerate(self.p))
        y = idata * (1.0 + 0.3 * x) + torch.sin(times * 0.1 + x) * (1.0 + control) + 1e-3 * temps
        if self.bad is not None:
            y = torch.where(self.bad, torch.nan, y)
        return torch.stack([y, 100.0 + y, -y], dim=-1)


def fake_np(p, data, ctl):
    """The same in numpy; p: list of (nexp,) or (nexp, m)"""
    x = sum((k + 1.0) * q.reshape(len(q), -1).sum(-1) for k, q in enumerate(p))
    return data[2] * (1.0 + 0.3 * x) + np.sin(data[0] * 0.1 + x) * (1.0 + ctl) + 1e-3 * data[1]


def fake_maker(vec, calls, bad=None):
    def maker(*p, **more):
        calls.append((p, more))
        f = Fake(p, bad)
        f.vec = vec
        return f

    return maker


def lognorm(x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)


def loghalf(x, s):
    return math.log(2.0) + lognorm(x, 0.0, s)


def total(trace):
    trace.compute_log_prob()
    return float(trace.log_prob_sum())


def other_tests(src, c, same=False):
    """Arguments of another batch of tests"""
    # only types of this batch, as others may have no weight
    types = c["types"][1:] + c["types"][:1]
    if not same and src.p(0.5):
        types = types + types[::-1]
    data, cyc, types, ctl = experiments(src, types, c["nt"])
    return T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl)


stat = fd(
    types=st.lists(st.integers(0, 6), min_size=1, max_size=6),
    nt=st.integers(3, 8),
    par=st.lists(st.integers(0, 3), min_size=1, max_size=4),  # 0: scalar, else length
    noise=sf("one", "type", "type"),
    nan=sf("no", "off", "on"),
    obs=st.booleans(),
    real=sf(False, False, False, False, True),
    v=vals((2, 2, 1)),
)


@sub("P27", "single_level", stat, 900, "two or more tests")
def single_level(c):
    src = Src(c["v"])
    pyro.clear_param_store()
    pyro.set_rng_seed(c["v"]["seed"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    ne, nt = len(types), c["nt"]
    real = c["real"]
    if real:
        names = list(NPAR)
        shapes = [(2,) if k in ("C", "g") else () for k in NPAR]
        locs = [src.u(0.3, 0.7, s) for s in shapes]
        scales = [src.u(0.02, 0.1, s) for s in shapes]
    else:
        names = [f"p{i}" for i in range(len(c["par"]))]
        shapes = [(k,) if k else () for k in c["par"]]
        locs = [src.n(s) for s in shapes]
        scales = [src.lu(0.05, 2.0, s) for s in shapes]
    eps = src.lu(0.01, 3.0, (7,) if c["noise"] == "type" else ())
    kw = {} if c["nan"] == "no" else {"nan_num": c["nan"] == "on"}
    bad = None
    if c["nan"] == "on" and not real:
        bad = torch.tensor(src.p(0.3, (nt, ne)))
    calls = []
    skw = dict(block_size=4, rtol=1e-16, atol=1e-9, miter=60)
    maker = real_maker(skw, calls) if real else fake_maker([i for i, s in enumerate(shapes) if s], calls, bad)
    model = O.StatisticalModel(maker, names, [T(x) for x in locs], [T(x) for x in scales], T(eps), **kw)
    args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
    obs = T(src.n((nt, ne))) if c["obs"] else None
    before = snapshot(*args)
    with mdl.Quiet():
        if not real and c["nan"] != "on" and c["v"]["seed"] % 2:  # the model was used for other tests before
            poutine.trace(model).get_trace(*other_tests(src, c))
        tr = poutine.trace(model).get_trace(*args, **({} if obs is None else {"exp_results": obs}))
    unchanged(before, args, "statistical model")
    sites = {k for k, v in tr.nodes.items() if v["type"] == "sample" and not isinstance(v["fn"], pyro.poutine.subsample_messenger._Subsample)}
    need(sites == set(names) | {"obs"}, f"sampled sites {sorted(sites)}, expected {sorted(names)} and obs")
    p = [tr.nodes[k]["value"].detach().numpy() for k in names]
    for k, x, s in zip(names, p, shapes):
        need(x.shape == s, f"{k}: sample of shape {x.shape}, expected {s}")
    if real:
        pred = one_at_a_time(real_maker(skw)(*[T(x) for x in p]), data, cyc, types, ctl)
    else:
        q = [np.broadcast_to(x, (ne,) + x.shape) for x in p]
        y = fake_np(q, data, ctl)
        if bad is not None:
            y = np.where(bad.numpy(), np.nan, y)
        # NaN makes the conversion of that test depend on the order of comparisons
        pred = np.stack([ref_convert(y[:, i], cyc[:, i], int(types[i])) for i in range(ne)], axis=1)
        if bad is not None:
            for i in range(ne):
                yi, ci, ty = y[:, i], cyc[:, i], int(types[i])
                for k in range(nt):
                    if ty in (2, 4) and np.any(np.isnan(yi[ci == ci[k]])):
                        pred[k, i] = np.nan
                    if ty == 5 and ci[k] == 2 and np.any(np.isnan(yi)):
                        pred[k, i] = np.nan
            pred = np.where(np.isnan(pred), 0.0, pred)
    noise = eps[types] if c["noise"] == "type" else np.zeros(ne) + eps
    o = tr.nodes["obs"]["value"].detach().numpy()
    need(o.shape == (nt, ne), f"observations of shape {o.shape}, expected {(nt, ne)}")
    if obs is not None:
        close(o, obs, "observations", rtol=0, atol=0)
    d = tr.nodes["obs"]["fn"]
    close(d.mean + torch.zeros(nt, ne), pred, "mean of the observations", rtol=1e-6, atol=1e-7 * max(1.0, np.max(np.abs(pred))))
    close(d.stddev + torch.zeros(nt, ne), np.zeros((nt, ne)) + noise, "noise of the observations", rtol=1e-12, atol=0)
    ex = sum(np.sum(lognorm(x, m, s)) for x, m, s in zip(p, locs, scales))
    ex += np.sum(lognorm(o, d.mean.detach().numpy() if real else pred, noise))
    close(total(tr), ex, "joint log density", rtol=1e-9, atol=1e-7)
    if not real and c["nan"] != "on":  # a failed simulation is replaced only on request
        bad = torch.ones((nt, ne), dtype=torch.bool)
        maker = fake_maker([i for i, s in enumerate(shapes) if s], calls, bad)
        model = O.StatisticalModel(maker, names, [T(x) for x in locs], [T(x) for x in scales], T(eps), **kw)
        try:
            tr = poutine.trace(model).get_trace(*args)
            mean = tr.nodes["obs"]["fn"].mean
        except ValueError:  # pyro refuses such a distribution
            mean = None
        need(mean is None or bool(torch.isnan(mean).all()), "failed predictions were replaced by numbers without being asked to")
    if len(types) > 1:
        return ("real" if real else "synthetic") + ("," + c["noise"]) + (",nan" if bad is not None else "")


hier = fd(
    types=st.lists(st.integers(0, 6), min_size=1, max_size=6),
    nt=st.integers(3, 8),
    par=st.lists(st.integers(0, 4), min_size=1, max_size=4),
    noise=sf("one", "type", "type"),
    include=st.booleans(),
    weights=sf("none", "all", "present"),
    suffix=st.booleans(),
    obs=st.booleans(),
    guide=st.booleans(),
    v=vals((2, 2, 1)),
)


def make_hier(c, src, maker, names, shapes, wide=True):
    ll = [src.n(s) if wide else src.u(0.3, 0.7, s) for s in shapes]
    ls = [src.lu(0.05, 1.0, s) if wide else src.u(0.02, 0.08, s) for s in shapes]
    ss = [src.lu(0.05, 1.0, s) if wide else src.u(0.02, 0.08, s) for s in shapes]
    noise = src.lu(0.05, 2.0, (7,) if c["noise"] == "type" else ())
    kw = {"include_noise": True} if c["include"] else {}
    w = np.ones(7)
    if c["weights"] != "none":
        keep = set(range(7)) if c["weights"] == "all" else set(c["types"])
        w = np.where([k in keep for k in range(7)], src.lu(0.1, 10.0, (7,)), 0.0)
        kw["weights"] = {NAMES[k]: float(w[k]) for k in sorted(keep, reverse=True)}
    suf = ("_loc", "_scale", "_param")
    if c["suffix"]:
        suf = ("_L", "_S", "_P")
        kw.update(loc_suffix="_L", scale_suffix="_S", param_suffix="_P")
    model = O.HierarchicalStatisticalModel(
        maker, names, [T(x) for x in ll], [T(x) for x in ls], [T(x) for x in ss], T(noise), **kw
    )
    return model, ll, ls, ss, noise, w, suf


def hand_density(names, val, o, pred, types, ll, ls, ss, noise, w, suf, include):
    """Joint log density of the hierarchical model"""
    ex = 0.0
    per = np.zeros(len(types))
    for k, a, b, s in zip(names, ll, ls, ss):
        loc, sc, x = val(k + suf[0]), val(k + suf[1]), val(k)
        ex += np.sum(lognorm(loc, a, b)) + np.sum(loghalf(sc, s))
        per += lognorm(x, loc, sc).reshape(len(types), -1).sum(axis=1)
    e = noise
    if include:
        e = val("eps")
        ex += np.sum(loghalf(e, noise))
    ev = e[types] if np.ndim(e) else np.zeros(len(types)) + e
    per += lognorm(o, pred, ev).sum(axis=0)
    return ex + np.sum(w[types] * per), ev


def sample_sites(tr):
    return {
        k: v for k, v in tr.nodes.items() if v["type"] == "sample" and not isinstance(v["fn"], pyro.poutine.subsample_messenger._Subsample)
    }


def set_params(src, names, suf, include):
    """Random values for all the parameters of a guide"""
    store = pyro.get_param_store()
    for k in list(store.keys()):
        x = store[k]
        new = T(src.n(tuple(x.shape)))
        if k.endswith(suf[1] + suf[2]) or k == "eps" + suf[2]:
            new = torch.exp(new)
        store[k] = new


@sub("P28", "density", hier, 900, "two or more tests")
def density(c):
    src = Src(c["v"])
    pyro.clear_param_store()
    pyro.set_rng_seed(c["v"]["seed"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    ne, nt = len(types), c["nt"]
    names = [f"p{i}" for i in range(len(c["par"]))]
    shapes = [(2, 3) if k == 4 else (k,) if k else () for k in c["par"]]
    calls = []
    model, ll, ls, ss, noise, w, suf = make_hier(c, src, fake_maker([], calls), names, shapes)
    args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
    obs = T(src.n((nt, ne))) if c["obs"] else None
    kw = {} if obs is None else {"exp_results": obs}
    before = snapshot(*args)
    gs = None
    if c["v"]["seed"] % 2:  # the model was used for other tests before
        poutine.trace(model).get_trace(*other_tests(src, c, bool(c["guide"])))
    if c["guide"]:
        for _ in range(int(src.i(1, 3))):  # a guide can be made more than once
            guide = model.make_guide()
        poutine.trace(guide).get_trace(*args, **kw)
        if c["v"]["seed"] % 2:
            poutine.trace(guide).get_trace(*other_tests(src, c, True))
        set_params(src, names, suf, c["include"])
        gt = poutine.trace(guide).get_trace(*args, **kw)
        gs = sample_sites(gt)
        tr = poutine.trace(poutine.replay(model, trace=gt)).get_trace(*args, **kw)
    else:
        tr = poutine.trace(model).get_trace(*args, **kw)
    unchanged(before, args, "hierarchical model")
    nodes = sample_sites(tr)
    lat = {k + s for k in names for s in (suf[0], suf[1], "")} | ({"eps"} if c["include"] else set())
    need(set(nodes) == lat | {"obs"}, f"sampled sites {sorted(nodes)}, expected {sorted(lat)} and obs")
    val = lambda k: nodes[k]["value"].detach().numpy()
    for k, s in zip(names, shapes):
        need(val(k).shape == (ne,) + s, f"{k}: per-test values of shape {val(k).shape}, expected {(ne,) + s}")
        need(val(k + suf[0]).shape == s and val(k + suf[1]).shape == s, f"{k}: population values of shape {val(k + suf[0]).shape}")
    p, more = calls[-1]
    for k, x in zip(names, p):
        close(x, val(k), f"{k} handed to the model maker", rtol=0, atol=0)
    y = fake_np([val(k) for k in names], data, ctl)
    pred = np.stack([ref_convert(y[:, i], cyc[:, i], int(types[i])) for i in range(ne)], axis=1)
    o = val("obs")
    ex, ev = hand_density(names, val, o, pred, types, ll, ls, ss, noise, w, suf, c["include"])
    d = nodes["obs"]["fn"]
    close(d.mean + torch.zeros(nt, ne), pred, "mean of the observations", rtol=1e-9, atol=1e-9)
    close(d.stddev + torch.zeros(nt, ne), np.zeros((nt, ne)) + ev, "noise of the observations", rtol=1e-12, atol=0)
    if obs is not None:
        close(o, obs, "observations", rtol=0, atol=0)
    close(total(tr), ex, "joint log density", rtol=1e-9, atol=1e-7)
    if gs is not None:
        need(set(gs) == lat, f"sites of the guide {sorted(gs)}, latent sites of the model {sorted(lat)}")
        ep = more.get("extra_params")
        need(ep is not None and len(ep) == len(names), "extra parameters were not handed to the model maker")
        for k, x in zip(names, ep):
            close(x, val(k), f"extra parameter for {k}", rtol=0, atol=0)
    if ne > 1:
        return ("guide" if c["guide"] else "prior") + "," + c["noise"] + (",noise inferred" if c["include"] else "") + ("," + c["weights"])


@sub("P28", "guide", hier, 500, "two or more tests")
def guide_check(c):
    """Initial values and learnable parameters of the guide; gradient of the loss"""
    src = Src(c["v"])
    pyro.clear_param_store()
    pyro.set_rng_seed(c["v"]["seed"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    ne, nt = len(types), c["nt"]
    names = [f"p{i}" for i in range(len(c["par"]))]
    shapes = [(2, 3) if k == 4 else (k,) if k else () for k in c["par"]]
    calls = []
    model, ll, ls, ss, noise, w, suf = make_hier(c, src, fake_maker([], calls), names, shapes)
    args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
    obs = T(src.n((nt, ne)))
    need(model.nparams == len(names), f"number of parameters {model.nparams}")
    for _ in range(int(src.i(1, 3))):
        guide = model.make_guide()
    gt = poutine.trace(guide).get_trace(*args, obs)
    gs = sample_sites(gt)
    get = lambda k: gs[k]["value"].detach().numpy()
    for k, s, a, b in zip(names, shapes, ll, ss):
        close(get(k + suf[0]), a, f"initial location of {k}", rtol=1e-12, atol=1e-12)
        close(get(k + suf[1]), b, f"initial scale of {k}", rtol=1e-10, atol=1e-12)
        close(get(k), np.zeros((ne,) + s) + a, f"initial values of {k}", rtol=1e-12, atol=1e-12)
    if c["include"]:
        close(get("eps"), noise, "initial noise", rtol=1e-10, atol=1e-12)
    store = pyro.get_param_store()
    exp = {k + x + suf[2] for k in names for x in (suf[0], suf[1], "")} | ({"eps" + suf[2]} if c["include"] else set())
    need(set(store.keys()) == exp, f"learnable parameters {sorted(store.keys())}, expected {sorted(exp)}")
    # scales stay positive for any unconstrained value
    with torch.no_grad():
        for k, u in store.named_parameters():
            u.copy_(T(src.n(tuple(u.shape)) * 2.0))
    gt = poutine.trace(guide).get_trace(*args, obs)
    gs = sample_sites(gt)
    for k in names:
        need(bool(np.all(get(k + suf[1]) > 0)), f"scale of {k} is not positive")
        for x in (suf[0], suf[1], ""):
            close(get(k + x), store[k + x + suf[2]], f"{k + x} against its parameter", rtol=0, atol=0)
    need(len(model.get_extra_params()) == len(names), f"{len(model.get_extra_params())} extra parameters, expected {len(names)}")
    for k, x in zip(names, model.get_extra_params()):
        close(x, get(k), f"extra parameter for {k}", rtol=0, atol=0)
    # loss and its gradient
    pyro.set_rng_seed(0)
    loss = Trace_ELBO().differentiable_loss(model, guide, *args, obs)
    y = fake_np([get(k) for k in names], data, ctl)
    pred = lambda: None
    conv = lambda yy: np.stack([ref_convert(yy[:, i], cyc[:, i], int(types[i])) for i in range(ne)], axis=1)
    hd = lambda v: hand_density(
        names, v, obs.numpy(), conv(fake_np([v(k) for k in names], data, ctl)), types, ll, ls, ss, noise, w, suf, c["include"]
    )[0]
    ex = -hd(get)
    close(float(loss), ex, "loss of variational inference", rtol=1e-9, atol=1e-7)
    # directional derivative in the constrained parameters
    vals_ = {k: store[k] for k in store.keys()}
    g = torch.autograd.grad(loss, [store.get_param(k).unconstrained() for k in store.keys()], allow_unused=True)
    key = list(store.keys())[int(src.i(0, len(exp) - 1))]
    site = key[: -len(suf[2])]
    gi = g[list(store.keys()).index(key)]
    need(gi is not None, f"no gradient for {key}")
    pos = site.endswith(suf[1]) or site == "eps"
    x0 = get(site).copy()
    i = tuple(int(src.i(0, n - 1)) for n in x0.shape)

    def at(h):
        z = x0.copy()
        z[i] = x0[i] * math.exp(h) if pos else x0[i] + h
        return -hd(lambda k: z if k == site else get(k))

    fds = [(at(h) - at(-h)) / (2 * h) for h in (1e-4, 5e-5)]
    if abs(fds[0] - fds[1]) < 1e-4 * abs(fds[1]) + 1e-5 * abs(ex) / 1e-1 * 1e-3:
        close(float(gi[i]), fds[1], f"gradient of the loss for {key}{list(i)}", rtol=1e-3, atol=1e-6 * (1 + abs(ex)))
    if ne > 1:
        return c["noise"] + (",noise inferred" if c["include"] else "") + "," + c["weights"]


real_h = fd(
    types=st.lists(st.integers(0, 6), min_size=1, max_size=4),
    nt=st.integers(3, 6),
    noise=sf("one", "type"),
    include=st.booleans(),
    weights=sf("none", "all"),
    suffix=st.booleans(),
    block=st.integers(1, 6),
    guides=sf(1, 1, 2),
    v=vals((2, 2, 1)),
)


@sub("P28", "simulated", real_h, 120, "two or more tests")
def simulated(c):
    """With a real material model: density, and gradients through the adjoint solver"""
    src = Src(c["v"])
    data, cyc, types, ctl = experiments(src, c["types"], c["nt"])
    ne, nt = len(types), c["nt"]
    shapes = [(2,) if k in ("C", "g") else () for k in NPAR]
    args = (T(data), torch.tensor(cyc), torch.tensor(types), torch.tensor(ctl))
    v2 = dict(c["v"])
    losses, grads = [], []
    obs = None
    for adj in (True, False):
        src = Src(v2)
        pyro.clear_param_store()
        skw = dict(block_size=c["block"], rtol=1e-16, atol=1e-9, miter=60, use_adjoint=adj)
        base = real_maker(skw)

        def maker(*p, extra_params=None, **more):
            if adj:
                more["extra_params"] = extra_params
            return base(*p, **more)

        model, ll, ls, ss, noise, w, suf = make_hier(c, src, maker, NPAR, shapes, wide=False)
        for _ in range(c["guides"]):
            guide = model.make_guide()
        obs = T(src.n((nt, ne)))
        poutine.trace(guide).get_trace(*args, obs)
        store = pyro.get_param_store()
        with torch.no_grad():
            for k in NPAR:
                store[k + suf[2]] = T(src.u(0.1, 0.9, tuple(store[k + suf[2]].shape)))
        gs = sample_sites(poutine.trace(guide).get_trace(*args, obs))
        with mdl.Quiet() as q:
            loss = Trace_ELBO().differentiable_loss(model, guide, *args, obs)
            if q.failed:
                raise Skip()
            keys = sorted(store.keys())
            grads.append(torch.autograd.grad(loss, [store.get_param(k).unconstrained() for k in keys]))
        losses.append(float(loss))
    get = lambda k: gs[k]["value"].detach().numpy()
    pred = np.zeros((nt, ne))
    for i in range(ne):
        one = real_maker(dict(rtol=1e-16, atol=1e-9, miter=60))(*[T(get(k)[i : i + 1]) for k in NPAR])
        pred[:, i : i + 1] = one_at_a_time(one, data[:, :, i : i + 1], cyc[:, i : i + 1], types[i : i + 1], ctl[i : i + 1])
    ex = -hand_density(NPAR, get, obs.numpy(), pred, types, ll, ls, ss, noise, w, suf, c["include"])[0]
    for l in losses:
        close(l, ex, "loss of variational inference", rtol=1e-6, atol=1e-5)
    sc = max(float(g.abs().max()) for g in grads[1])
    for k, a, b in zip(keys, *grads):
        close(a, b, f"gradient for {k}: adjoint against autodiff", rtol=1e-5, atol=1e-7 * sc)
    if ne > 1:
        return "mixed control" if 0 < ctl.sum() < ne else "one control"
