"""C18: structure learners return valid circuits over all variables."""
import hashlib
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, raises, require

KIND = {"real": ("Normal", "Laplace"), "pos": ("Exponential", "LogNormal"), "bin": ("Bernoulli",), "count": ("Poisson", "Geometric")}


def leaf_class(name):
    import spflow.modules.leaves as L

    return getattr(L, name)


def content_rng(tag, *parts):
    h = hashlib.sha1(str(tag).encode())
    for p in parts:
        h.update(np.ascontiguousarray(p, dtype=np.float64).tobytes())
    return np.random.default_rng(int.from_bytes(h.digest()[:8], "big"))


def split_labels(X, k, salt):
    """Deterministic labels from the rows alone: k non-empty groups (needs len(X) >= k), spread-out label ids."""
    X = np.asarray(X, dtype=np.float64)
    n = len(X)
    k = min(k, n)
    rng = content_rng(salt, X)
    lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    rng.shuffle(lab)
    return lab


def split_columns(X, p_one, salt):
    """Deterministic partition ids of the columns."""
    X = np.asarray(X, dtype=np.float64)
    d = X.shape[1]
    rng = content_rng(salt, X)
    if rng.random() < p_one:
        return np.full(d, 3)
    return rng.integers(0, max(2, d // 2 + 1), d)


# ------------------------------------------------------------------ data


@st.composite
def data_case(draw, max_vars=5, kinds=("real", "pos", "bin", "count")):
    n = draw(st.sampled_from([k for k in range(1, max_vars + 1) for _ in range(k)]))
    c = {"n": n, "seed": draw(st.integers(0, 2**31 - 1)), "rows": draw(st.integers(2, 40))}
    groups = []  # leaf templates: (family, variables)
    vs = list(range(n))
    order = draw(st.permutations(vs))
    i = 0
    while i < n:
        k = draw(st.integers(1, n - i))
        g = list(order[i:i + k])
        if draw(st.booleans()):
            g.sort()
        kind = draw(st.sampled_from(kinds))
        groups.append([draw(st.sampled_from(KIND[kind])), g])
        i += k
    c["groups"] = groups
    c["extra"] = draw(st.sampled_from([0, 0, 1]))  # data columns outside of the scope
    c["oc"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["loc"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["min_rows"] = draw(st.integers(2, 12))
    c["min_feat"] = draw(st.integers(2, 4))
    c["clusters"] = draw(st.integers(2, 3))
    c["dup"] = draw(st.sampled_from([False, False, True]))
    c["f64"] = draw(st.booleans())
    c["sub"] = draw(st.sampled_from([False, False, True])) and n > 1  # learn over a part of the variables
    return c


def make_data(c):
    rng = np.random.default_rng(c["seed"])
    N, D = c["rows"], c["n"] + c["extra"]
    X = rng.normal(0, 3, (N, D))
    for fam, g in c["groups"]:
        for v in g:
            z = rng.normal(0, 1, N)
            X[:, v] = {"Normal": z * 2, "Laplace": z, "Exponential": np.exp(z), "LogNormal": np.exp(z), "Bernoulli": z > 0.3,
                       "Poisson": np.floor(np.exp(z)), "Geometric": np.floor(np.exp(z))}[fam]
    if c["dup"]:
        X = X[rng.integers(0, max(1, N // 4), N)]
    return X


def templates(c):
    from spflow.meta.data.scope import Scope

    return [leaf_class(f)(scope=Scope(list(g)), out_channels=c["loc"]) for f, g in c["groups"]]


def learn_scope(c):
    rng = np.random.default_rng(c["seed"] + 5)
    vs = list(range(c["n"]))
    if c["sub"]:
        vs = sorted(int(v) for v in rng.choice(c["n"], int(rng.integers(1, c["n"])), replace=False))
    return vs


class Fit:
    """Univariate leaf log-likelihoods estimated on a slice; the leaf estimator itself is decided by C14."""

    def __init__(self, c):
        self.fam = {v: f for f, g in c["groups"] for v in g}
        self.degenerate = False  # the density of a (nearly) constant continuous column is arbitrary

    def ll(self, v, S, X):
        import torch
        from spflow.meta.data.scope import Scope

        if self.fam[v] in ("Normal", "Laplace", "LogNormal"):
            col = np.log(S[:, v]) if self.fam[v] == "LogNormal" else S[:, v]
            self.degenerate |= bool(len(S) < 2 or np.abs(col - np.median(col)).mean() < 1e-2)
        m = leaf_class(self.fam[v])(scope=Scope([v]), out_channels=1)
        m.maximum_likelihood_estimation(cc.to_torch(S))
        with torch.no_grad():
            return cc.to_np(m.log_likelihood(cc.to_torch(X)))[:, 0, 0, 0]

    def factorized(self, vs, S, X):
        return sum(self.ll(v, S, X) for v in vs)


def torch_labels(lab, like):
    import torch

    return torch.as_tensor(np.asarray(lab), dtype=torch.long, device=like.device)


def set_dtype(c):
    import torch

    torch.set_default_dtype(torch.float64 if c["f64"] else torch.float32)


def check_model(m, c, vs, X, ref, what, rec):
    """Scope, likelihood (exact, per channel; ref (N, C) or None), sampling, conditioning and marginalization of a learned circuit."""
    import torch

    T = cc.to_torch(X)
    require(sorted(m.scope.query) == sorted(vs), f"{what}: the learned circuit covers {list(m.scope.query)} instead of {vs}")
    require(len(m.scope.evidence) == 0, f"{what}: the learned circuit has evidence variables")
    t = dict(rtol=1e-6, atol=1e-6) if c["f64"] else dict(rtol=2e-3, atol=2e-3)
    with torch.no_grad():
        a = cc.to_np(m.log_likelihood(T))
    require(a.ndim == 4 and a.shape[0] == len(X) and a.shape[3] == 1, f"{what}: log-likelihood shape {a.shape}")
    require(not np.isnan(a).any(), f"{what}: NaN log-likelihood")
    tot = a.sum(1)[:, :, 0]
    if ref is not None:
        ref = ref[:, None] if ref.ndim == 1 else ref
        close(tot, np.broadcast_to(ref, tot.shape) if ref.shape[1] == 1 else ref, f"{what}: log-likelihood", **t)
    # all variables missing: total mass one
    E = np.full_like(X[:1], np.nan)
    with torch.no_grad():
        close(cc.to_np(m.log_likelihood(cc.to_torch(E))).sum(1), np.zeros((1, tot.shape[1], 1)), f"{what}: log of the total mass", rtol=1e-5, atol=1e-4)
    # conditioning keeps the evidence and fills the rest
    if m.out_shape.features == 1:
        ev = np.array(X[: min(3, len(X))], dtype=np.float64)
        miss = np.random.default_rng(c["seed"] + 9).random(ev.shape) < 0.5
        ev[miss] = np.nan
        ev[:, [v for v in range(ev.shape[1]) if v not in vs]] = 0.0
        torch.manual_seed(c["seed"] % 1000)
        if np.isfinite(ref[: len(ev)]).all() if ref is not None else True:
            with torch.no_grad():
                out = cc.to_np(m.sample_with_evidence(cc.to_torch(ev)))
            keep = ~np.isnan(ev)
            require(np.array_equal(out[keep], cc.to_np(cc.to_torch(ev))[keep]), f"{what}: sampling changed the evidence")
            require(not np.isnan(out[:, vs]).any(), f"{what}: sampling left variables missing")
    rec.n(2)


# ------------------------------------------------------------------ LearnSPN


def ref_spn(fit, S, vs, X, c, oc, cluster, partition):
    """(N, C) log-likelihood of LearnSPN with the given clustering and partitioning; None where random weights enter."""
    if len(vs) < c["min_feat"]:
        return fit.factorized(vs, S, X)[:, None]
    parts = []
    if len(S) > 1:
        ids = partition(S[:, vs])
        parts = [[v for v, i in zip(vs, ids) if i == k] for k in sorted(set(ids.tolist()))]
    if len(parts) > 1:
        subs = [ref_spn(fit, S, p, X, c, oc, cluster, partition) for p in parts]
        if any(s is None for s in subs):
            return None
        ref_c = max(c["loc"], oc)
        out = 0.0
        for s in subs:
            if 1 < s.shape[1] < ref_c:
                return None  # adapted by a randomly initialized mixture
            out = out + s
        return out
    if len(S) < c["min_rows"]:
        return fit.factorized(vs, S, X)[:, None]
    cols = []
    for lab in [cluster(S) for _ in range(oc)]:
        terms = []
        for k in sorted(set(lab.tolist())):
            sel = lab == k
            s = ref_spn(fit, S[sel], vs, X, c, oc, cluster, partition)
            if s is None:
                return None
            terms.append(np.log(sel.mean()) + cc.lse(s, 1) - np.log(s.shape[1]))
        cols.append(cc.lse(np.stack(terms), 0))
    return np.stack(cols, 1)


class Callables:
    """Clustering and partitioning methods that depend on the data (and on how often it was seen) only."""

    def __init__(self, c):
        self.c, self.seen = c, {}

    def cluster(self, S):
        S = np.asarray(S, dtype=np.float64)
        key = S.tobytes()
        i = self.seen[key] = self.seen.get(key, -1) + 1
        return split_labels(S, self.c["clusters"], (self.c["seed"], i)) * 2 + 1

    def partition(self, S):
        return split_columns(S, self.c.get("p_one", 0.5), self.c["seed"])


@st.composite
def spn_case(draw):
    c = draw(data_case())
    c["p_one"] = draw(st.sampled_from([0.2, 0.6, 1.0]))
    c["min_rows"] = max(c["min_rows"], c["rows"] // (2 if c["oc"] > 1 else 6))
    c["single"] = draw(st.booleans())
    return c


def snapshot(T):
    return T.detach().clone()


def spn_check(c, rec):
    import torch
    from spflow.learn.learn_spn import learn_spn
    from spflow.meta.data.scope import Scope

    set_dtype(c)
    X = cc.to_np(cc.to_torch(make_data(c)))
    vs = learn_scope(c)
    T = cc.to_torch(X)
    before = snapshot(T)
    calls = Callables(c)
    leaves = templates(c)
    kw = {}
    if c["sub"]:
        kw["scope"] = Scope(vs)
    m = learn_spn(
        T, leaf_modules=leaves[0] if len(leaves) == 1 and c["single"] else leaves, out_channels=c["oc"],
        min_features_slice=c["min_feat"], min_instances_slice=c["min_rows"],
        clustering_method=lambda d: torch_labels(calls.cluster(cc.to_np(d)), d),
        partitioning_method=lambda d: torch_labels(calls.partition(cc.to_np(d)), d), **kw)
    require(torch.equal(T, before), "learn_spn changed the training data")
    calls2 = Callables(c)
    # without an explicit scope the variables are those of the templates, in their order
    order = vs if c["sub"] else [v for _, g in c["groups"] for v in g] if len(c["groups"]) > 1 else list(c["groups"][0][1])
    fit = Fit(c)
    ref = ref_spn(fit, X, scope_order(leaves, c, vs), X, c, c["oc"], calls2.cluster, calls2.partition)
    assert sorted(order) == sorted(vs)
    ref = None if fit.degenerate else ref
    check_model(m, c, vs, X, ref, "learn_spn", rec)
    rec.tag(f"oc{c['oc']}", f"leaf_oc{c['loc']}", "mixed" if len(leaves) > 1 else "one-family", "exact" if ref is not None else "random-adapter",
            "deep" if len(X) >= c["min_rows"] and len(vs) >= c["min_feat"] else "flat")
    rec.nt(len(vs) >= c["min_feat"] and len(X) >= c["min_rows"] and ref is not None)


def scope_order(leaves, c, vs):
    if c["sub"]:
        return vs
    s = leaves[0].scope
    for leaf in leaves[1:]:
        s = s.join(leaf.scope)
    return list(s.query)


# ------------------------------------------------------------------ Prometheus


def partitions_of(A):
    """Components after removing the weakest edges of the maximum spanning tree one by one (Kruskal from the other side)."""
    d = len(A)
    comp = [{i} for i in range(d)]
    out = [sorted(map(tuple, map(sorted, comp)))]
    for _, i, j in sorted(((A[i, j], i, j) for i in range(d) for j in range(i)), reverse=True):
        ci = next(s for s in comp if i in s)
        cj = next(s for s in comp if j in s)
        if ci is cj:
            continue
        comp = [s for s in comp if s is not ci and s is not cj] + [ci | cj]
        out.append(sorted(map(tuple, map(sorted, comp))))
    return out[:-1]


def affinity(X, c):
    d = X.shape[1]
    rng = content_rng(c["seed"], X)
    A = np.triu(rng.random((d, d)), 1)
    A = A + A.T
    if d > 2 and c["zero"]:
        k = int(rng.integers(d))
        A[k] = A[:, k] = 0.0
    np.fill_diagonal(A, 1.0)
    return A


def corr_affinity(X):
    Z = X - X.mean(0)
    n = np.maximum(np.sqrt((Z * Z).sum(0)), 1e-12)
    Z = Z / n
    return np.abs(Z.T @ Z)


class Ambiguous(Exception):
    pass


def ref_prometheus(fit, S, vs, X, c, cluster, aff):
    """(N,) log-likelihood (all leaf channels are equal) and the number of channels of the result."""
    if len(vs) < c["min_feat"] or len(S) < c["min_rows"]:
        return fit.factorized(vs, S, X)
    lab = cluster(S[:, vs])
    terms, lw = [], []
    for k in sorted(set(lab.tolist())):
        sub = S[lab == k]
        if len(sub) < 2 or len(vs) < 2:
            continue
        A = aff(sub[:, vs])
        if c["sim"] != "custom":
            w = np.sort(A[np.triu_indices(len(vs), 1)])
            if len(w) > 1 and np.diff(w).min() < 1e-4:
                raise Ambiguous
        ps = partitions_of(A)
        for p in ps:
            terms.append(sum(ref_prometheus(fit, sub, [vs[i] for i in comp], X, c, cluster, aff) for comp in p))
            lw.append(np.log(len(sub) / len(S) / len(ps)))
    if not terms:
        return fit.factorized(vs, S, X)
    lw = np.array(lw) - cc.lse(np.array(lw), 0)
    return cc.lse(np.stack([t + w for t, w in zip(terms, lw)]), 0)


@st.composite
def prom_case(draw):
    c = draw(data_case(max_vars=4))
    c["rows"] = draw(st.integers(3, 24))
    c["min_rows"] = draw(st.sampled_from([3, 4, 6, 10, 16]))
    c["min_feat"] = draw(st.sampled_from([1, 2, 2, 3]))
    c["oc"] = draw(st.sampled_from([1, 1, 2]))
    c["clusters"] = draw(st.integers(1, 3))
    c["zero"] = draw(st.booleans())
    c["sim"] = draw(st.sampled_from(["custom", "custom", "corr", "sampled"]))
    if c["sim"] != "custom":
        c["f64"] = True
    return c


def prom_check(c, rec):
    import torch
    from spflow.learn.prometheus import learn_prometheus
    from spflow.meta.data.scope import Scope

    set_dtype(c)
    X = cc.to_np(cc.to_torch(make_data(c)))
    vs = learn_scope(c)
    T = cc.to_torch(X)
    before = snapshot(T)
    leaves = templates(c)

    def clus(S):
        return split_labels(S, c["clusters"], c["seed"])

    def cl(d, n_clusters):
        require(n_clusters == c["clusters"], "clustering was asked for another number of clusters")
        return torch_labels(clus(cc.to_np(d)), d)

    kw = {"similarity": "corr"} if c["sim"] != "custom" else {
        "similarity": lambda d: torch.as_tensor(affinity(cc.to_np(d), c), dtype=torch.float64)}
    if c["sim"] == "sampled":
        kw.update(affinity_mode="sampled", sampling_per_var=7, sampling_seed=c["seed"] % 997)
    aff = (lambda S: affinity(S, c)) if c["sim"] == "custom" else corr_affinity
    fit = Fit(c)
    try:
        ref = ref_prometheus(fit, X, vs if c["sub"] else scope_order(leaves, c, vs), X, c, clus, aff)
    except Ambiguous:
        ref = None
    ref = None if fit.degenerate else ref
    m = learn_prometheus(T, leaf_modules=leaves, out_channels=c["oc"], min_features_slice=c["min_feat"], min_instances_slice=c["min_rows"],
                         scope=Scope(vs) if c["sub"] else None, n_clusters=c["clusters"], clustering_method=cl, **kw)
    require(torch.equal(T, before), "learn_prometheus changed the training data")
    check_model(m, c, vs, X, ref, "learn_prometheus", rec)
    deep = len(vs) >= max(2, c["min_feat"]) and len(X) >= c["min_rows"]
    rec.tag(c["sim"], "deep" if deep else "flat", "exact" if ref is not None else "ties")
    rec.nt(deep and ref is not None)


# ------------------------------------------------------------------ Cutset networks


@st.composite
def cnet_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4]))
    if draw(st.booleans()):
        cards = [draw(st.integers(2, 3))] * n
    else:
        cards = [draw(st.integers(2, 3)) for _ in range(n)]
    return {"n": n, "cards": cards, "rows": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 2**31 - 1)),
            "skew": draw(st.sampled_from([0.3, 1.0, 5.0])), "min_rows": draw(st.integers(1, 12)), "min_feat": draw(st.sampled_from([1, 1, 2, 3])),
            "oc": draw(st.sampled_from([1, 1, 2])), "alpha": draw(st.sampled_from([0.01, 0.5, 1.0])),
            "cond": draw(st.sampled_from(["naive_mle", "naive_mle", "random"])), "int": draw(st.booleans()),
            "domain": draw(st.booleans()), "f64": draw(st.booleans()), "extra": draw(st.sampled_from([0, 0, 1]))}


def cnet_known(c):
    return "cnet-mixed-cardinalities" if c["domain"] and len(set(c["cards"])) > 1 else None


def cnet_leaf(S, vs, c, X):
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical, CLTree

    if len(vs) == 1:
        m = Categorical(scope=Scope(vs), out_channels=1, K=c["cards"][vs[0]])
        m.maximum_likelihood_estimation(cc.to_torch(S))
        with torch.no_grad():
            return cc.to_np(m.log_likelihood(cc.to_torch(X)))[:, 0, 0, 0]
    m = CLTree(scope=Scope(vs), out_channels=1, K=max(c["cards"][v] for v in vs), alpha=c["alpha"])
    m.maximum_likelihood_estimation(cc.to_torch(S if len(S) > 1 else np.repeat(S, 2, 0)))
    with torch.no_grad():
        return cc.to_np(m.log_likelihood(cc.to_torch(X)))[:, 0, 0, 0]


def ref_cnet(S, vs, order, c, X):
    if len(vs) <= c["min_feat"] or len(S) < c["min_rows"] or len(vs) == 1:
        return cnet_leaf(S, vs, c, X)
    v = next(o for o in order if o in vs)
    out = np.full(len(X), -np.inf)
    for k in range(c["cards"][v]):
        sub = S[S[:, v] == k]
        at = X[:, v] == k
        if len(sub) and at.any():
            out[at] = np.log(len(sub) / len(S)) + ref_cnet(sub, [u for u in vs if u != v], order, c, X[at])
    return out


def entropy(col, K):
    p = np.bincount(col.astype(int), minlength=K) / len(col)
    p = p[p > 0]
    return -(p * np.log(p)).sum()


def cnet_check(c, rec):
    import torch
    from spflow.learn.cnet import learn_cnet

    set_dtype(c)
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    base = [rng.dirichlet(np.full(k, c["skew"])) for k in c["cards"]]
    S = np.stack([rng.choice(k, c["rows"], p=b) for k, b in zip(c["cards"], base)], 1).astype(float)
    if n > 1:  # some dependence
        cp = rng.random(c["rows"]) < 0.5
        S[cp, 1] = np.minimum(S[cp, 0], c["cards"][1] - 1)
    if c["extra"]:
        S = np.concatenate([S, rng.integers(0, 2, (len(S), 1)).astype(float)], 1)
    cards = list(c["cards"]) + [2] * c["extra"]
    vs = list(range(n))
    T = cc.to_torch(S)
    before = snapshot(T)
    same = len(set(cards)) == 1
    from spflow.meta.data.scope import Scope

    kw = {"scope": Scope(vs)} if c["extra"] else {}
    m = learn_cnet(T, cardinalities=cards[0] if same and c["int"] else cards, cond=c["cond"], min_instances_slice=c["min_rows"],
                   min_features_slice=c["min_feat"], out_channels=c["oc"], alpha=c["alpha"], seed=c["seed"] % 10007, **kw)
    m2 = learn_cnet(T, cardinalities=cards, cond=c["cond"], min_instances_slice=c["min_rows"],
                    min_features_slice=c["min_feat"], out_channels=c["oc"], alpha=c["alpha"], seed=c["seed"] % 10007, **kw)
    require(torch.equal(T, before), "learn_cnet changed the training data")
    require(sorted(m.scope.query) == vs, f"the learned circuit covers {list(m.scope.query)}")
    require(m.out_shape.channels == c["oc"], f"the learned circuit has {m.out_shape.channels} channels instead of {c['oc']}")
    G = np.array(list(itertools.product(*[range(k) for k in c["cards"]])), dtype=float)
    if c["extra"]:
        G = np.concatenate([G, np.zeros((len(G), 1))], 1)
    with torch.no_grad():
        a = cc.to_np(m.log_likelihood(cc.to_torch(G))).sum(1)[..., 0]
        b = cc.to_np(m2.log_likelihood(cc.to_torch(G))).sum(1)[..., 0]
        tr = cc.to_np(m.log_likelihood(T)).sum(1)[..., 0]
    require(np.array_equal(a, b), "learning with the same seed gives another circuit")
    require(not np.isnan(a).any() and not np.isnan(tr).any(), "NaN log-likelihood")
    require(np.isfinite(tr).all(), "a training row has no probability")
    if c["domain"]:
        close(cc.lse(a, 0), np.zeros(c["oc"]), "log of the mass of all states", rtol=1e-5, atol=1e-5)
    # the circuit is the cutset network of an admissible conditioning order
    ent = [entropy(S[:, v], cards[v]) for v in vs]
    best = None
    orders = [list(p) for p in itertools.permutations(vs)]
    if c["cond"] == "naive_mle":
        orders = [o for o in orders if all(ent[x] >= ent[y] - 1e-5 for x, y in zip(o, o[1:]))]
    t = 1e-6 if c["f64"] else 1e-3
    for o in orders:
        r = ref_cnet(S, vs, o, c, G)[:, None]
        with np.errstate(invalid="ignore"):
            d = np.where(np.isinf(r) | np.isinf(a), np.where(r == a, 0.0, np.inf), np.abs(r - a) / (1 + np.abs(r)))
        best = d.max() if best is None else min(best, d.max())
        if best < t:
            break
    require(best < t, f"the learned distribution is that of no admissible conditioning order (deviation {best:.3g} in log-likelihood)")
    if m.out_shape.features == 1:
        ev = G[: min(4, len(G))].copy()
        ok = np.isfinite(a[: len(ev)]).all(1)
        ev[:, :n][rng.random((len(ev), n)) < 0.5] = np.nan
        ev = ev[ok]
        if len(ev):
            with torch.no_grad():
                out = cc.to_np(m.sample_with_evidence(cc.to_torch(ev)))
            k = ~np.isnan(ev)
            require(np.array_equal(out[k], ev[k]), "sampling changed the evidence")
            require(not np.isnan(out).any(), "sampling left variables missing")
    split = n > c["min_feat"] and c["rows"] >= c["min_rows"] and n > 1
    rec.n(1)
    rec.tag(c["cond"], "split" if split else "leaf", "mixed-cards" if len(set(cards)) > 1 else "equal-cards")
    rec.nt(split)


# ------------------------------------------------------------------ default methods


@st.composite
def default_case(draw):
    c = draw(data_case(max_vars=4, kinds=("real", "bin")))
    c["rows"] = draw(st.integers(6, 80))
    c["algo"] = draw(st.sampled_from(["spn", "spn", "prometheus", "prometheus-rdc", "prometheus-sampled"]))
    c["min_rows"] = draw(st.integers(5, 40))
    c["mix"] = draw(st.sampled_from(["plain", "copy", "const", "shift"]))
    c["sub"] = False
    c["extra"] = 0
    return c


def default_check(c, rec):
    import torch
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus

    set_dtype(c)
    X = make_data(c)
    n = c["n"]
    fam = {v: f for f, g in c["groups"] for v in g}
    rng = np.random.default_rng(c["seed"] + 1)
    if c["mix"] == "copy" and n > 1:
        for v in range(1, n):
            if fam[v] == fam[0]:
                X[:, v] = X[:, 0]
    elif c["mix"] == "const":
        X[:, 0] = X[0, 0]
    elif c["mix"] == "shift":
        s = rng.random(len(X)) < 0.5
        for v in range(n):
            X[s, v] = 1.0 if fam[v] == "Bernoulli" else X[s, v] + 10
    X = cc.to_np(cc.to_torch(X))
    T = cc.to_torch(X)
    before = snapshot(T)

    def learn():
        torch.manual_seed(c["seed"] % 99991)
        np.random.seed(c["seed"] % 99991)
        kw = dict(leaf_modules=templates(c), out_channels=c["oc"], min_instances_slice=c["min_rows"], min_features_slice=2)
        if c["algo"] == "spn":
            return learn_spn(T, **kw)
        if c["algo"] == "prometheus-rdc":
            kw["similarity"] = "rdc"
        elif c["algo"] == "prometheus-sampled":
            kw.update(affinity_mode="sampled", sampling_seed=3)
        return learn_prometheus(T, **kw)

    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        dt = torch.get_default_dtype()
        m = learn()
        require(torch.get_default_dtype() == dt, "learning changed the default dtype")
        m2 = learn()
    require(torch.equal(T, before), "learning changed the training data")
    with torch.no_grad():
        a, b = cc.to_np(m.log_likelihood(T)), cc.to_np(m2.log_likelihood(T))
    require(a.shape == b.shape and np.array_equal(a, b), "learning with the same seed gives another circuit")
    vs = list(range(n))
    check_model(m, c, vs, X, None, c["algo"], rec)
    tot = a.sum(1)[..., 0]
    if c["algo"] == "spn":
        require(np.isfinite(tot).all(), "a training row has no probability")
    if all(f == "Bernoulli" for f in fam.values()):
        G = np.array(list(itertools.product([0.0, 1.0], repeat=n)))
        with torch.no_grad():
            g = cc.to_np(m.log_likelihood(cc.to_torch(G))).sum(1)[..., 0]
        close(cc.lse(g, 0), np.zeros(g.shape[1]), "log of the mass of all states", rtol=1e-4, atol=1e-4)
        rec.tag("enumerated")
    rec.tag(c["algo"], c["mix"])
    rec.nt(n > 1 and len(X) >= c["min_rows"])


# ------------------------------------------------------------------ pruning of nested sums


def prune_check(case, rec):
    import torch
    from spflow.learn.learn_spn import prune_sums
    from spflow.modules.sums import Sum

    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["X"])
    T = cc.to_torch(X)
    nest = 0
    for _, mod, ref in b.pairs:
        if type(ref) is cc.RSum and type(ref.kid) is cc.RCat and all(type(k) is cc.RSum for k in ref.kid.kids) and ref.kid.dim == 2:
            nest += 1
    with torch.no_grad():
        before = cc.to_np(b.module.log_likelihood(T))
        prune_sums(b.module)
        after = cc.to_np(b.module.log_likelihood(T))
    close(after, before, "log-likelihood after pruning nested sums", **cc.tol(case))
    rec.tag(f"nested{min(nest, 2)}", *cc.spec_tags(case["spec"]))
    rec.nt(nest > 0)


@st.composite
def prune_case(draw):
    c = draw(cc.circuit(families=("cat", "real"), nodes=("sum", "cat2", "product", "cat1"), max_vars=3, maxdepth=5, maxC=3,
                        root=draw(st.sampled_from(["single", "chan"])), reps=(1, 1, 2)))
    c["X"] = draw(cc.rows(c["vt"], 1, 4))
    return c


FACETS = [
    Facet("spn", spn_case(), spn_check, 1000, 16000, "at least one partitioning or clustering step; likelihoods compared exactly"),
    Facet("prometheus", prom_case(), prom_check, 900, 12000, "at least one decomposition; likelihoods compared exactly"),
    Facet("cnet", cnet_case(), cnet_check, 900, 14000, "at least one conditioning step", known=cnet_known),
    Facet("prune", prune_case(), prune_check, 700, 12000, "at least one mixture whose components are all mixtures"),
    Facet("default", default_case(), default_check, 200, 5000, "several variables and enough rows to split"),
]
PROP = Prop("C18", FACETS)
