"""P25: experiment loading and conversion of results"""

import numpy as np
import torch
import xarray as xr
from hypothesis import strategies as st

from pyoptmat import experiments as X

from ..core import RULES, sub
from ..gen import Src, T, close, fd, need, same_shape, sf, snapshot, unchanged, vals

RULES["P25"] = (
    "Cases: generated batches mixing all test types with their own hold and cycle positions; oracle converts one "
    "test at a time with plain Python; metamorphic relations over order and composition of the batch."
)

NAMES = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data"]
CONTROL = {"tensile": 0, "relaxation": 0, "strain_cyclic": 0, "creep": 1, "stress_cyclic": 1, "abstract_tensile": 0}


def gen_cycles(src, typ, nt):
    """Cycle marks of one test"""
    c = np.zeros(nt, dtype=int)
    if typ in (1, 3):
        c[src.i(1, nt - 1) :] = 1
    elif typ in (2, 4):
        k = src.i(0, min(4, nt - 1))
        cuts = np.sort(src.rs.choice(np.arange(1, nt), size=k, replace=False))
        for q in cuts:
            c[q:] += 1
        how = src.i(0, 7)
        if how == 0:  # any labels, in any order
            c = src.i(0, 4, (nt,))
        elif how == 1:  # labels that skip numbers
            c = c * src.i(1, 90)
    elif typ == 5:
        a = src.i(1, nt - 2) if nt > 2 else 1
        b = src.i(a + 1, nt - 1) if a + 1 <= nt - 1 else nt
        c[a:b] = 1
        c[b:] = 2
    return c


def ref_convert(r, c, typ):
    nt = len(r)
    out = np.zeros(nt)
    if typ in (0, 6):
        return np.array(r)
    if typ in (1, 3):
        k = next(i for i in range(nt) if c[i] == 1)
        for i in range(nt):
            out[i] = r[i] - r[k] if c[i] == 1 else 0.0
    elif typ in (2, 4):
        for i in range(nt):
            out[i] = max(r[j] for j in range(nt) if c[j] == c[i])
    else:
        first = next((r[i] for i in range(nt) if c[i] == 1), 0.0)
        for i in range(nt):
            out[i] = 0.0 if c[i] == 0 else (first if c[i] == 1 else max(r))
    return out


conv = fd(
    nt=st.integers(2, 16),
    types=st.lists(st.integers(0, 6), min_size=1, max_size=9),
    mag=sf(1e-4, 1.0, 300.0),
    ties=st.booleans(),
    neg=st.booleans(),
    v=vals((2, 2, 0)),
)


@sub("P25", "convert", conv, 4000, "two or more tests of different types, or of one type with different marks")
def convert(c):
    src = Src(c["v"])
    nt, types = c["nt"], c["types"]
    nb = len(types)
    r = src.n((nt, nb)) * c["mag"]
    if c["ties"]:
        r = np.round(r / c["mag"]) * c["mag"]
    if c["neg"]:
        r = -np.abs(r) - c["mag"] * 0.1
    cyc = np.stack([gen_cycles(src, t, nt) for t in types], axis=1)
    rt = T(r).requires_grad_(True)
    ct, tt = torch.tensor(cyc), torch.tensor(types)
    before = snapshot(rt, ct, tt)
    got = X.convert_results(rt, ct, tt)
    unchanged(before, (rt, ct, tt), "conversion")
    ex = np.stack([ref_convert(r[:, i], cyc[:, i], types[i]) for i in range(nb)], axis=1)
    close(got, ex, "converted results", rtol=1e-13, atol=1e-300)
    # the conversion functions by name
    for i, t in enumerate(types):
        need(X.exp_map[NAMES[t]] == t, f"code of {NAMES[t]}")
        one = X.exp_fns[NAMES[t]](ct[:, i : i + 1], rt[:, i : i + 1])
        close(one, ex[:, i : i + 1], f"conversion of {NAMES[t]} alone", rtol=1e-13, atol=1e-300)
        two = X.exp_fns_num[t](ct[:, i : i + 1], rt[:, i : i + 1])
        close(two, one, f"conversion number {t} alone", rtol=0, atol=0)
    # any order and selection of the batch
    p = src.rs.permutation(nb)[: src.i(1, nb)]
    close(X.convert_results(rt[:, p], ct[:, p], tt[p]), ex[:, p], "conversion of a reordered part of the batch", rtol=1e-13, atol=1e-300)
    # gradients: weights reach only the values that are used
    w = T(src.n((nt, nb)))
    g = torch.autograd.grad((got * w).sum(), rt)[0].numpy()
    if not c["ties"] and c["v"]["dig"] == 2:
        h = 1e-6 * c["mag"]
        d = src.n((nt, nb))
        gap = min(
            (np.min(np.diff(np.sort(r[:, i])), initial=np.inf) for i in range(nb)),
            default=np.inf,
        )
        if gap > 1e-4 * c["mag"]:
            f = lambda q: sum((ref_convert(q[:, i], cyc[:, i], types[i]) * w[:, i].numpy()).sum() for i in range(nb))
            num = (f(r + h * d) - f(r - h * d)) / (2 * h)
            close(np.sum(g * d), num, "gradient of the conversion", rtol=1e-6, atol=1e-6 * (1 + np.abs(w).sum().item()))
    if len(set(types)) > 1 or any((cyc[:, 0] != cyc[:, i]).any() for i in range(nb)):
        return "mixed" if len(set(types)) > 1 else NAMES[types[0]]


load = fd(
    nt=st.integers(1, 12),
    types=st.lists(st.integers(0, 6), min_size=1, max_size=8),
    ctrl=sf("natural", "any"),
    dev=st.booleans(),
    v=vals((2, 2, 1)),
)


@sub("P25", "load", load, 600, "both kinds of control in one dataset")
def load_results(c):
    src = Src(c["v"])
    nt, names = c["nt"], [NAMES[t] for t in c["types"]]
    ne = len(names)
    cols = {k: src.n((nt, ne)) for k in ("time", "temperature", "strain", "stress")}
    cyc = src.i(0, 5, (nt, ne))
    ctl = [
        CONTROL[n] if (c["ctrl"] == "natural" and n in CONTROL) else int(src.i(0, 1)) for n in names
    ]
    ds = xr.Dataset(
        {
            **{k: (["ntime", "nexp"], v.copy()) for k, v in cols.items()},
            "cycle": (["ntime", "nexp"], cyc),
            "type": (["nexp"], names),
            "control": (["nexp"], [["strain", "stress"][k] for k in ctl]),
        },
        attrs={"nrates": 3},
    )
    kw = {"device": torch.device("cpu")} if c["dev"] else {}
    data, results, cycles, types, control = X.load_results(ds, **kw)
    k = np.array(ctl)
    same_shape(data, (3, nt, ne), "data")
    close(data[0], cols["time"], "times", rtol=0, atol=0)
    close(data[1], cols["temperature"], "temperatures", rtol=0, atol=0)
    close(data[2], np.where(k == 0, cols["strain"], cols["stress"]), "driven quantity", rtol=0, atol=0)
    close(results, np.where(k == 0, cols["stress"], cols["strain"]), "measured quantity", rtol=0, atol=0)
    close(cycles, cyc, "cycles", rtol=0, atol=0)
    close(types, np.array(c["types"]), "types", rtol=0, atol=0)
    close(control, k, "control", rtol=0, atol=0)
    for q, v in cols.items():
        need(np.array_equal(ds[q].values, v), f"the dataset's {q} was modified")
    if 0 < k.sum() < ne:
        return "both"
