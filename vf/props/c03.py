"""C03: NaN entries are marginalized exactly (metamorphic: sum/integral over completions of the same circuit)."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require


def ll(m, X):
    return m.log_likelihood(cc.to_torch(X)).detach().double().numpy()


def completions(case, row, vars_):
    opts = [range(case["vt"][v][1]) for v in vars_]
    out = []
    for comb in itertools.product(*opts):
        r = row.copy()
        r[list(vars_)] = comb
        out.append(r)
    return np.array(out)


@st.composite
def disc_case(draw):
    c = draw(cc.circuit(families=("cat",), root="any", reps=(1, 1, 2, 3), min_vars=2, max_vars=6, maxdepth=4,
                        maxstates=128))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=3))
    return c


def check_disc(case, rec):
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    rec.tag(*cc.spec_tags(case["spec"]))
    miss = [[v for v in range(case["n"]) if np.isnan(r[v])] for r in X]
    rec.nt(case["spec"]["t"] != "leaf" and any(0 < len(m) for m in miss))
    got = ll(b.module, X)  # one batch: all missingness patterns together
    exp = []
    for r, m in zip(X, miss):
        full = ll(b.module, completions(case, r, m)) if m else ll(b.module, r[None])
        # feature f depends on the variables of its block only: the other missing variables repeat its value
        red = cc.lse(full, 0)
        for f, blk in enumerate(b.ref.P):
            k = np.prod([case["vt"][v][1] for v in m if v not in blk] or [1])
            red[f] -= np.log(k)
        exp.append(red)
    t = cc.tol(case)
    close(got, np.stack(exp), "log-likelihood with missing entries vs sum over completions", **t)
    allnan = ll(b.module, np.full((2, case["n"]), np.nan))
    close(allnan, np.zeros_like(allnan), "log-likelihood of an all-missing row", rtol=0, atol=t["atol"] * 10)


@st.composite
def mixed_case(draw):
    c = draw(cc.circuit(families=("real", "cat", "pos", "count", "unit"), root="any", reps=(1, 1, 2), min_vars=2,
                        max_vars=4, maxdepth=3))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=3))
    c["target"] = draw(st.integers(0, c["n"] - 1))
    c["f64"] = True
    return c


GRID = {"count": (np.arange(0, 4000.0), np.ones(4000))}
for _k, _n in (("unit", 20001), ("real", 8001), ("pos", 12001)):
    if _k == "unit":
        _e = np.linspace(-6, 8, _n)
    elif _k == "real":
        _e = np.sinh(np.linspace(-6, 6, _n))
    else:
        _e = np.exp(np.linspace(-24, 7, _n))
    GRID[_k] = (0.5 * (_e[1:] + _e[:-1]), np.diff(_e))


def check_mixed(case, rec):
    """Marginalizing one more variable (NaN) equals integrating it out numerically, whatever else is missing."""
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    v = case["target"]
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf")
    vt = case["vt"][v]
    g, w = GRID[vt[0]] if vt[0] != "cat" else (np.arange(float(vt[1])), np.ones(vt[1]))
    base = ll(b.module, np.where(np.arange(case["n"]) == v, np.nan, X))
    for i, r in enumerate(X[:2]):
        full = np.repeat(r[None], len(g), 0)
        full[:, v] = g
        lf = ll(b.module, full)
        for f, blk in enumerate(b.ref.P):
            if v in blk:
                e = cc.lse(lf[:, f] + np.log(w)[:, None, None], 0)
            else:
                e = lf[0, f]
            close(base[i, f], e, f"missing variable {v} vs numerical integral (row {i}, feature {f})", rtol=0,
                  atol=1e-6 if vt[0] == "cat" else 1e-2)
    allnan = ll(b.module, np.full((1, case["n"]), np.nan))
    close(allnan, np.zeros_like(allnan), "log-likelihood of an all-missing row", rtol=0, atol=1e-6)
    require(not np.isnan(ll(b.module, X)).any(), "NaN log-likelihood for a partially observed row")


@st.composite
def wide_case(draw):
    c = draw(cc.wide_circuit(kinds=("Categorical",)))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=3))
    return c


PROP = Prop("C03", [
    Facet("discrete", disc_case(), check_disc, quick=2500, thorough=60000,
          rule="rows with per-row missingness vs explicit sum over completions; non-trivial: inner node and a missing entry"),
    Facet("wide", wide_case(), check_disc, quick=300, thorough=6000,
          rule="layers of up to 33 channels; non-trivial: a missing entry"),
    Facet("mixed", mixed_case(), check_mixed, quick=800, thorough=20000,
          rule="one variable integrated numerically; non-trivial: inner node"),
])
