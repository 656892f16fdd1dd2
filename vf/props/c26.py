"""C26: RAT-SPN, Einet, ConvPc and Factorize build valid, normalized models for every admissible architecture."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require
from vf.gof import gof, gof_multi

KINDS = ("rat", "rat", "einet", "einet", "conv", "fac")


def factorizations(m):
    from spflow.modules.rat import Factorize

    return [x for x in m.modules() if isinstance(x, Factorize)]


def scopes_of(f2s, r):
    return [set(s.query) for s in f2s[:, r]]


@st.composite
def norm_case(draw):
    c = draw(zz.zoo(kinds=KINDS, maxD=9, classes=(1, 1, 2, 3), families=("cat",), maxstates=600, maxR=4))
    c["keep"] = [draw(st.booleans()) for _ in range(c["n"])]
    return c


def check_norm(c, rec):
    """Total mass one; every marginal by NaN equals the sum over the marginalized states."""
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    rec.tag(*zz.tags(c))
    rec.nt(c["n"] > 1 and c["depth"] > 0)
    S = cc.all_states(c["vt"])
    n = c["n"]
    t = 1e-8 if c["f64"] else 3e-4
    with torch.no_grad():
        ll = cc.to_np(m.log_likelihood(cc.to_torch(S)))
        require(ll.shape == (len(S), 1, 1, 1), f"log-likelihood shape {ll.shape}")
        p = np.exp(ll[:, 0, 0, 0])
        require(not np.isnan(p).any(), "log-likelihood is NaN")
        close(p.sum(), 1.0, "sum over all states", rtol=t, atol=t)
        Z = cc.to_np(m.log_likelihood(torch.full((1, n), float("nan"))))
        close(Z[0, 0, 0, 0], 0.0, "log-likelihood of a fully missing row", rtol=t, atol=t)
        rec.n(len(S))
        keep = [v for v in range(n) if c["keep"][v]]
        if keep and len(keep) < n:
            Y = S.copy()
            Y[:, [v for v in range(n) if v not in keep]] = np.nan
            key = {}
            for i, row in enumerate(S[:, keep]):
                key.setdefault(tuple(row), []).append(i)
            idx = np.array([g[0] for g in key.values()])
            mar = np.exp(cc.to_np(m.log_likelihood(cc.to_torch(Y[idx])))[:, 0, 0, 0])
            close(mar, np.array([p[g].sum() for g in key.values()]), "marginal by missing values", rtol=10 * t, atol=t)
            rec.tag("marginal")
    require(set(m.scope.query) == set(range(n)), f"model scope {m.scope}")


# ------------------------------------------------------------------ structure of random factorizations


@st.composite
def fact_case(draw):
    c = draw(zz.zoo(kinds=("rat", "einet", "fac", "fac"), maxD=33, classes=(1, 2), families=("cat", "real", "count", "pos", "unit"), maxstates=None, maxR=5))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=4, extreme=True))
    c["f64"] = True
    return c


def check_fact(c, rec):
    """Each repetition splits the variables into 2^depth balanced disjoint groups; likelihoods add over each group."""
    import torch

    cc.set_dtype(c)
    m, refs = zz.build(c)
    rec.tag(*zz.tags(c))
    rec.nt(c["n"] > 2)
    fs = factorizations(m)
    if c["zoo"] in ("rat", "fac") or (c["zoo"] == "einet" and c["structure"] == "top-down" and c["depth"] > 0):
        require(len(fs) >= 1, "model has no random factorization")
    X = cc.to_np(c["rows"])
    memo = {}
    leaf = np.concatenate([r.ll(X, memo) for r in refs], 1)  # B,D,C,R
    leaf_vars = [v for r in c["leaves"] for v in r[1]]
    for f in fs:
        R = f.out_shape.repetitions
        require(R == c["R"], f"factorization has {R} repetitions, expected {c['R']}")
        f2s = f.feature_to_scope
        G = 2 ** (int(np.log2(c["n"])) if c.get("structure") == "bottom-up" else c["depth"])
        require(f2s.shape == (G, R), f"feature_to_scope shape {f2s.shape}, expected {(G, R)}")
        with torch.no_grad():
            ll = cc.to_np(f.log_likelihood(cc.to_torch(X)))
        require(ll.shape == (len(X), G, c["leafC"], R), f"log-likelihood shape {ll.shape}")
        for r in range(R):
            groups = scopes_of(f2s, r)
            flat = [v for g in groups for v in g]
            require(sorted(flat) == list(range(c["n"])), f"repetition {r}: groups {groups} do not cover every variable exactly once")
            sizes = [len(g) for g in groups]
            require(max(sizes) - min(sizes) <= 1, f"repetition {r}: unbalanced groups {sizes}")
            for o, g in enumerate(groups):
                want = sum(leaf[:, leaf_vars.index(v), :, r] for v in g)
                close(ll[:, o, :, r], want, f"likelihood of group {o} in repetition {r}", rtol=1e-8, atol=1e-8)
        rec.n(R * G)


# ------------------------------------------------------------------ sampling


def own(m, S):
    import torch

    with torch.no_grad():
        return np.exp(cc.to_np(m.log_likelihood(cc.to_torch(S)))[:, 0, 0, 0])


@st.composite
def samp_case(draw):
    return draw(zz.zoo(kinds=KINDS, maxD=6, classes=(1, 1, 2, 3), families=("cat",), maxstates=81, maxR=3))


def state_index(c, S):
    idx = np.zeros(len(S), dtype=np.int64)
    for v, vt in enumerate(c["vt"]):
        idx = idx * vt[1] + S[:, v].astype(np.int64)
    return idx


def check_domain(c, S):
    require(np.isfinite(S).all(), "sample is not complete")
    for v, vt in enumerate(c["vt"]):
        require(((S[:, v] >= 0) & (S[:, v] < vt[1]) & (S[:, v] == np.round(S[:, v]))).all(), f"variable {v} outside its domain")


def check_samp(c, rec):
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    rec.tag(*zz.tags(c))
    rec.nt(c["n"] > 1)
    p = own(m, cc.all_states(c["vt"]))
    torch.manual_seed(c["seed"] % 2**31)

    def draw(n):
        S = m.sample(num_samples=n)
        require(tuple(S.shape) == (n, c["n"]), f"sample shape {tuple(S.shape)}")
        S = cc.to_np(S)
        check_domain(c, S)
        return state_index(c, S)

    gof(draw, p, "sample(num_samples)", n=1200)


@st.composite
def cond_case(draw):
    c = draw(zz.zoo(kinds=(*KINDS, "nb"), maxD=6, classes=(1, 1, 2, 3), families=("cat",), maxstates=81, maxR=3))
    k = draw(st.integers(1, 3))
    c["ev"] = [[draw(st.one_of(st.none(), st.integers(0, c["vt"][v][1] - 1))) for v in range(c["n"])] for _ in range(k)]
    c["api"] = draw(st.booleans())
    return c


def check_cond(c, rec):
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    rec.tag(*zz.tags(c))
    S = cc.all_states(c["vt"])
    p = own(m, S)
    E, P, idx = [], [], state_index(c, S)
    require((idx == np.arange(len(S))).all(), "state order")
    for row in c["ev"]:
        e = np.array([np.nan if v is None else v for v in row], float)
        q = np.where(((S == e) | np.isnan(e)).all(1), p, 0)
        if q.sum() > 1e-20 and np.isnan(e).any():
            E.append(e)
            P.append(q / q.sum())
    if not E:
        return
    rec.nt(any((~np.isnan(e)).any() for e in E) and c["n"] > 1)
    rec.tag("mixed-rows" if len(E) > 1 else "one-row")
    E = np.array(E)
    torch.manual_seed(c["seed"] % 2**31)

    def draw(n):
        i = np.repeat(np.arange(len(E)), n)
        data = cc.to_torch(E[i])
        Y = cc.to_np(m.sample(data=data) if c["api"] else m.sample_with_evidence(data))
        require(Y.shape == (len(i), c["n"]), f"sample shape {Y.shape}")
        check_domain(c, Y)
        ob = ~np.isnan(E[i])
        require((Y[ob] == E[i][ob]).all(), "sampling changed the evidence")
        k = state_index(c, Y)
        return [k[j * n:(j + 1) * n] for j in range(len(E))]

    gof_multi(draw, P, "conditional sample")


# ------------------------------------------------------------------ structural marginalization


@st.composite
def marg_case(draw):
    c = draw(zz.zoo(kinds=("einet", "einet", "einet", "fac", "fac", "conv"), maxD=8, classes=(1, 1, 2, 3), families=("cat", "real", "count"), maxstates=None, maxR=3))
    c["rm"] = draw(st.lists(st.integers(0, c["n"] - 1), min_size=1, max_size=c["n"], unique=True))
    c["prune"] = draw(st.booleans())
    c["rows"] = draw(cc.rows(c["vt"], max_rows=4))
    return c


def check_marg(c, rec):
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    rec.tag(*zz.tags(c))
    rm = list(c["rm"])
    rec.nt(len(rm) < c["n"] and c["depth"] > 0)
    X = cc.to_np(c["rows"])
    Y = X.copy()
    Y[:, rm] = np.nan
    t = 1e-7 if c["f64"] else 1e-3
    with torch.no_grad():
        before = cc.to_np(m.log_likelihood(cc.to_torch(X)))
        want = cc.to_np(m.log_likelihood(cc.to_torch(Y)))
        k = m.marginalize(rm, prune=c["prune"])
        if len(rm) == c["n"]:
            require(k is None, "marginalizing every variable must return None")
            return
        require(k is not None, "marginalizing some variables returned None")
        require(set(k.scope.query) == set(range(c["n"])) - set(rm), f"scope {k.scope} after marginalizing {rm}")
        got = cc.to_np(k.log_likelihood(cc.to_torch(X)))
        require(got.shape[0] == len(X), "batch size")
        close(got.sum(1)[:, 0, 0], want.sum(1)[:, 0, 0], "structurally marginalized model", rtol=t, atol=t)
        close(cc.to_np(m.log_likelihood(cc.to_torch(X))), before, "the original model changed", rtol=1e-12, atol=1e-12)
    rec.n(len(X))


def known_marg(case):
    return "conv-structural" if case["zoo"] == "conv" and len(case["rm"]) < case["n"] else None


PROP = Prop("C26", [
    Facet("norm", norm_case(), check_norm, quick=900, thorough=20000, rule="several variables, depth > 0"),
    Facet("factorization", fact_case(), check_fact, quick=400, thorough=10000, rule="more than two variables"),
    Facet("sample", samp_case(), check_samp, quick=250, thorough=4000, rule="several variables"),
    Facet("conditional", cond_case(), check_cond, quick=250, thorough=4000, rule="several variables, partial evidence"),
    Facet("marginalize", marg_case(), check_marg, quick=500, thorough=10000, rule="partial marginalization, depth > 0", known=known_marg),
])
