"""C19: learned tree structures are optimal, tree models are exact."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require


# ------------------------------------------------------------------ spanning trees


def prufer_trees(n):
    """All labelled trees over n nodes as sorted edge tuples."""
    if n == 1:
        yield ()
        return
    if n == 2:
        yield ((0, 1),)
        return
    for seq in itertools.product(range(n), repeat=n - 2):
        deg = [1 + seq.count(v) for v in range(n)]
        edges = []
        for v in seq:
            u = min(i for i in range(n) if deg[i] == 1)
            edges.append((min(u, v), max(u, v)))
            deg[u] -= 1
            deg[v] -= 1
        a, b = (i for i in range(n) if deg[i] == 1)
        edges.append((min(a, b), max(a, b)))
        yield tuple(sorted(edges))


_TREES = {}


def all_trees(n):
    if n not in _TREES:
        _TREES[n] = list(prufer_trees(n))
        assert len(_TREES[n]) == (1 if n < 3 else n ** (n - 2))
    return _TREES[n]


def as_tree(edges, n, what):
    es = tuple(sorted((min(int(a), int(b)), max(int(a), int(b))) for a, b in edges))
    require(len(es) == max(n - 1, 0), f"{what}: {len(es)} edges for {n} variables")
    comp = list(range(n))
    for a, b in es:
        require(0 <= a < b < n, f"{what}: edge {(a, b)}")
        ca, cb = comp[a], comp[b]
        require(ca != cb, f"{what}: cycle through {(a, b)}")
        comp = [ca if x == cb else x for x in comp]
    return es


def total(W, tree):
    return math.fsum(W[a, b] for a, b in tree)


def check_ranking(W, trees, k, n, what, maximize, tol=1e-9):
    """`trees` are the k best spanning trees, best first, without repetition."""
    ts = [as_tree(t, n, what) for t in trees]
    require(len(set(ts)) == len(ts), f"{what}: repeated trees")
    every = sorted((total(W, t) for t in all_trees(n)), reverse=maximize)
    require(len(ts) == min(k, len(every)), f"{what}: {len(ts)} trees, expected {min(k, len(every))}")
    got = np.array([total(W, t) for t in ts])
    close(got, np.array(every[:len(ts)]), f"{what}: totals of the best trees", rtol=0, atol=tol * (1 + np.abs(W).max()))


@st.composite
def mst_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 5, 6]))
    m = n * (n - 1) // 2
    style = draw(st.sampled_from(["ties", "int", "real", "huge"]))
    el = {"ties": st.integers(0, 2), "int": st.integers(-9, 9), "real": st.floats(-5, 5, allow_nan=False, width=32),
          "huge": st.sampled_from([-1e9, -1.0, 0.0, 1e-6, 1.0, 1e9])}[style]
    return {"n": n, "w": [float(draw(el)) for _ in range(m)], "k": draw(st.sampled_from([1, 2, 3, 5, 8, 20, 200])),
            "maximize": draw(st.booleans()), "drop": draw(st.sampled_from([0.0, 0.0, 0.0, 0.3, 0.7])), "seed": draw(st.integers(0, 999)),
            "style": style}


def check_mst(c, rec):
    from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, topk_mst

    n, W = c["n"], np.zeros((c["n"], c["n"]))
    W[np.triu_indices(n, 1)] = c["w"]
    W = W + W.T
    mx = c["maximize"]
    rec.n(len(all_trees(n)))
    rec.tag(c["style"], "max" if mx else "min", f"n{n}")
    rec.nt(n > 2 and c["k"] > 1)
    W0 = W.copy()
    best = (max if mx else min)(total(W, t) for t in all_trees(n))
    tol = 1e-9 * (1 + np.abs(W).max())
    t = as_tree(kruskal_mst_complete(W, minimize=not mx), n, "kruskal")
    close(np.array(total(W, t)), np.array(best), "kruskal: total", rtol=0, atol=tol)
    if c["drop"]:
        rec.tag("dropout")
        trees = topk_mst(W, num_trees=c["k"], dropout_prob=c["drop"], rng=np.random.default_rng(c["seed"]), minimize=not mx)
        ts = [as_tree(t, n, "topk with dropout") for t in trees]
        require(1 <= len(ts) <= c["k"] and len(set(ts)) == len(ts), "topk with dropout: repeated or too many trees")
        close(np.array(total(W, ts[0])), np.array(best), "topk with dropout: best tree", rtol=0, atol=tol)
    else:
        check_ranking(W, topk_mst(W, num_trees=c["k"], minimize=not mx), c["k"], n, "topk", mx)
    require((W == W0).all(), "topk_mst changed its weights")


# ------------------------------------------------------------------ mutual information


@st.composite
def cat_data(draw, max_n=5, max_k=4, min_n=1):
    n = draw(st.integers(min_n, max_n))
    K = draw(st.integers(2, max_k))
    c = {"n": n, "K": K, "N": draw(st.sampled_from([1, 2, 3, 5, 8, 20, 60])), "seed": draw(st.integers(0, 2**31 - 1)),
         "dep": draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])), "weights": draw(st.sampled_from(["none", "none", "pos", "zero", "small"])),
         "pc": draw(st.sampled_from([0.0, 1e-3, 1.0, 10.0]))}
    return c


def make(c):
    rng = np.random.default_rng(c["seed"])
    X = rng.integers(0, c["K"], (c["N"], c["n"]))
    for j in range(1, c["n"]):
        p = rng.integers(0, j)
        X[:, j] = np.where(rng.random(c["N"]) < c["dep"], (X[:, p] + rng.integers(0, c["K"])) % c["K"], X[:, j])
    w = None
    if c["weights"] != "none":
        w = rng.gamma(0.7, 2.0, c["N"]) + 1e-3
        if c["weights"] == "zero":
            w[rng.random(c["N"]) < 0.4] = 0
            w[rng.integers(0, c["N"])] = 1.0
        if c["weights"] == "small":
            w /= 50
    return X, w


def joints(X, w, K, add, mass):
    """Smoothed pair tables (n, n, K, K): counts plus `mass` spread evenly, normalized; and the marginals."""
    N, n = X.shape
    w = np.ones(N) if w is None else w
    oh = np.eye(K)[X]  # N n K
    cnt = np.einsum("n,nia,njb->ijab", w, oh, oh)
    J = (cnt + mass / K**2) / (w.sum() + mass)
    P = (np.einsum("n,nia->ia", w, oh) + mass / K) / (w.sum() + mass)
    return J, P


def mi_matrix(J, P):
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(J > 0, J * (np.log(np.where(J > 0, J, 1)) - np.log(np.where(P > 0, P, 1))[:, None, :, None]
                                 - np.log(np.where(P > 0, P, 1))[None, :, None, :]), 0)
        H = -np.where(P > 0, P * np.log(np.where(P > 0, P, 1)), 0).sum(-1)
    M = t.sum((2, 3))
    M[np.diag_indices(len(M))] = H
    return M


@st.composite
def mi_case(draw):
    c = draw(cat_data())
    c["binary"] = draw(st.booleans())
    if c["binary"]:
        c["K"] = 2
    c["chunk"] = draw(st.sampled_from([1, 2, 3, 4096]))
    c["k"] = draw(st.sampled_from([1, 1, 2, 4, 30]))
    c["single"] = draw(st.booleans())
    c["dt"] = draw(st.sampled_from(["bool", "long", "float"])) if c["binary"] else draw(st.sampled_from(["long", "float"]))
    c["auto_k"] = draw(st.booleans())
    return c


def check_mi(c, rec):
    import torch
    from spflow.zoo.hclt import chow_liu as cl
    from spflow.zoo.hclt import mi as M

    X, w = make(c)
    n, K = c["n"], c["K"]
    Xt = torch.as_tensor(X)
    Xt = {"bool": Xt.bool(), "long": Xt, "float": Xt.float()}[c["dt"]]
    wt = None if w is None else torch.as_tensor(w, dtype=torch.float64)
    W = float(c["N"] if w is None else w.sum())
    rec.tag("binary" if c["binary"] else "categorical", c["weights"], f"pc{c['pc']}")
    rec.nt(n > 2 and c["dep"] > 0)
    rec.n(n * n)
    kw = {"weights": wt, "pseudocount": c["pc"]}
    if c["binary"]:
        J, P = joints(X, w, 2, None, c["pc"])
        got = M.pairwise_marginal_binary(Xt, **kw).numpy().reshape(n, n, 2, 2)
        ref = J.copy()
        for i in range(n):
            ref[i, i] = np.diag(P[i])
        close(got, ref, "pairwise marginals", rtol=1e-9, atol=1e-9)
        mi = M.pairwise_mi_binary(Xt, **kw).numpy()
    else:
        if c["auto_k"] and X.max() + 1 >= 2:
            K = int(X.max()) + 1
        else:
            kw["num_cats"] = K
        mass = c["pc"] if w is None else c["pc"] * W / c["N"]
        J, P = joints(X, w, K, None, mass)
        kw["chunk_size_pairs"] = c["chunk"]
        mi = M.pairwise_mi_categorical(Xt, **kw).numpy()
    ref = mi_matrix(J, P)
    close(mi, ref, "mutual information", rtol=1e-7, atol=1e-7)
    close(mi, mi.T, "mutual information: symmetry", rtol=1e-12, atol=1e-12)
    R = ref.copy()
    np.fill_diagonal(R, 0)
    name = "binary" if c["binary"] else "categorical"
    if c["single"]:
        trees = [getattr(cl, f"learn_chow_liu_tree_{name}")(Xt, **kw)]
        check_ranking(R, trees, 1, n, "chow-liu tree", True, tol=1e-6)
    else:
        trees = getattr(cl, f"learn_chow_liu_trees_{name}")(Xt, num_trees=c["k"], **kw)
        check_ranking(R, trees, c["k"], n, "chow-liu trees", True, tol=1e-6)


# ------------------------------------------------------------------ CLTree leaf


@st.composite
def cltree_case(draw):
    c = draw(cat_data(min_n=2))
    c["N"] = max(2, c["N"])
    c["C"] = draw(st.sampled_from([1, 1, 2]))
    c["R"] = draw(st.sampled_from([1, 1, 2]))
    c["alpha"] = draw(st.sampled_from([1e-6, 1e-6, 0.01, 1.0]))
    c["wide"] = draw(st.sampled_from([0, 0, 2]))  # further data columns
    c["perm"] = draw(st.permutations(range(c["n"] + c["wide"])))[:c["n"]]
    c["nan"] = draw(st.sampled_from([False, False, True]))
    c["how"] = draw(st.sampled_from(["mle", "mle", "fit", "refit"]))
    c["f64"] = draw(st.booleans())
    return c


def check_cltree(c, rec):
    import torch
    from spflow.meta import Scope
    from spflow.modules.leaves import CLTree

    torch.set_default_dtype(torch.float64 if c["f64"] else torch.float32)
    n, K, N, C, R = c["n"], c["K"], c["N"], c["C"], c["R"]
    X, _ = make(dict(c, weights="none"))
    rng = np.random.default_rng(c["seed"] + 1)
    D = np.full((N, n + c["wide"]), 0.0)
    D[:] = rng.integers(0, K, D.shape)
    D[:, c["perm"]] = X
    Wt = None
    if c["weights"] != "none" and c["how"] != "refit":
        Wt = rng.gamma(1.0, 2.0, (N, C, R)) + 1e-3
        if c["weights"] == "zero":
            Wt[rng.random(N) < 0.3] = 0
            Wt[:2] = 1.0
        if c["weights"] == "small":
            Wt /= 100
    full = np.ones(N, bool)
    if c["nan"]:
        full = rng.random(N) < 0.7
        full[:2] = True
        for r in np.nonzero(~full)[0]:
            D[r, c["perm"][int(rng.integers(0, n))]] = np.nan
    rec.tag(c["how"], c["weights"], f"alpha{c['alpha']}", "nan" if c["nan"] else "complete",
            "sorted" if list(c["perm"]) == sorted(c["perm"]) else "permuted")
    rec.nt(n > 2 and c["dep"] > 0)
    m = CLTree(Scope(list(c["perm"])), out_channels=C, num_repetitions=R, K=K, alpha=c["alpha"])
    data = cc.to_torch(D)
    tw = None if Wt is None else torch.as_tensor(np.repeat(Wt[:, None], n, 1), dtype=torch.get_default_dtype())
    ws = np.ones((N, C, R)) if Wt is None else Wt
    ws = ws[full] * (full.sum() / ws[full].sum(0))
    Xf = X[full]
    scalar = ws.sum((1, 2))
    if c["how"] == "fit":
        m.fit_structure(cc.to_torch(D[full]), sample_weights=torch.as_tensor(scalar))
    else:
        if c["how"] == "refit":  # structure of the first data set is kept, the tables follow the second
            order = rng.permutation(N)
            first = cc.to_torch(D)
            m.maximum_likelihood_estimation(first, nan_strategy="ignore")
            D = D[order]
            D[:, c["perm"]] = np.where(np.isnan(D[:, c["perm"]]), np.nan, (D[:, c["perm"]] + 1) % K)
            X = (X[order] + 1) % K
            before = m.parents.tolist()
            m.maximum_likelihood_estimation(cc.to_torch(D), nan_strategy="ignore")
            require(m.parents.tolist() == before, "refit changed the learned structure")
            full = full[order]
            Xf, ws = X[full], np.ones((int(full.sum()), C, R))
            scalar = ws.sum((1, 2))
        else:
            m.maximum_likelihood_estimation(data, weights=tw, nan_strategy="ignore")
    parents = m.parents.tolist()
    roots = [i for i, p in enumerate(parents) if p == -1]
    require(len(roots) == 1, f"structure has {len(roots)} roots")
    tree = as_tree([(i, p) for i, p in enumerate(parents) if p != -1], n, "CLTree structure")
    if c["alpha"] <= 1e-6:
        J, P = joints(Xf, scalar, K, None, 0.0)
        A = mi_matrix(J, P)
        np.fill_diagonal(A, 0)
        best = max(total(A, t) for t in all_trees(n))
        # smoothing by alpha moves every term by at most ~alpha * K^2 * log
        require(total(A, tree) >= best - 1e-3, f"learned structure has total information {total(A, tree)}, the best tree has {best}")
        rec.tag("optimal")
    if c["how"] == "fit":
        return
    # tables
    oh = np.eye(K)[Xf]
    T = np.exp(cc.to_np(m.log_cpt.detach()))
    ref = np.empty((n, C, R, K, K))
    for i in range(n):
        p = parents[i]
        if p == -1:
            t = np.einsum("ncr,na->cra", ws, oh[:, i]) + c["alpha"]
            ref[i] = (t / t.sum(-1, keepdims=True))[..., None]
        else:
            t = np.einsum("ncr,na,nb->crab", ws, oh[:, i], oh[:, p]) + c["alpha"]
            ref[i] = t / t.sum(-2, keepdims=True)
    rec.n(ref.size)
    close(T, ref, "estimated tables", rtol=1e-5 if c["f64"] else 3e-4, atol=1e-6 if c["f64"] else 1e-4)
    S = np.array(list(itertools.product(range(K), repeat=n)), dtype=np.float64)
    D = np.zeros((len(S), n + c["wide"]))
    D[:, c["perm"]] = S
    with torch.no_grad():
        ll = cc.to_np(m.log_likelihood(cc.to_torch(D)))
    lref = np.zeros((len(S), C, R))
    for i in range(n):
        p = parents[i]
        a = S[:, i].astype(int)
        b = np.zeros(len(S), int) if p == -1 else S[:, p].astype(int)
        lref += np.log(np.moveaxis(ref[i], (2, 3), (0, 1))[a, b])
    close(np.exp(ll.sum(1)), np.exp(lref), "joint distribution of the learned tree", rtol=1e-3, atol=1e-4)
    close(np.exp(ll.sum(1)).sum(0), np.ones((C, R)), "normalization of the learned tree", rtol=1e-4, atol=1e-4)


# ------------------------------------------------------------------ hidden Chow-Liu trees


@st.composite
def hclt_case(draw):
    c = draw(cat_data(max_n=4, max_k=3))
    c["binary"] = draw(st.booleans())
    if c["binary"]:
        c["K"] = 2
    c["H"] = draw(st.integers(1, 4))
    c["trees"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c["init"] = draw(st.sampled_from(["uniform", "random"]))
    c["reparam"] = draw(st.sampled_from([True, True, False]))
    c["drop"] = draw(st.sampled_from([0.0, 0.0, 0.4]))
    return c


def check_hclt(c, rec):
    import torch
    from spflow.zoo.hclt import chow_liu as cl
    from spflow.zoo.hclt.learn import learn_hclt_binary, learn_hclt_categorical

    X, w = make(c)
    n, K, H = c["n"], c["K"], c["H"]
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"])
    Xt = cc.to_torch(X.astype(float))
    kw = {"weights": None if w is None else torch.as_tensor(w), "pseudocount": c["pc"]}
    if not c["binary"]:
        kw["num_cats"] = K
    name = "binary" if c["binary"] else "categorical"
    rec.tag(name, c["init"], f"H{H}", f"trees{c['trees']}")
    rec.nt(n > 1 and H > 1)
    np.random.seed(c["seed"] % 2**31)
    m = (learn_hclt_binary if c["binary"] else learn_hclt_categorical)(
        Xt, num_hidden_cats=H, num_trees=c["trees"], init=c["init"], dropout_prob=c["drop"] if c["trees"] > 1 else 0.0, **kw)
    require(sorted(m.scope.query) == list(range(n)), f"scope {m.scope.query}")
    require(tuple(m.out_shape) == (1, 1, 1), f"shape {tuple(m.out_shape)}")
    if c["reparam"]:
        g = torch.Generator().manual_seed(c["seed"])
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(1.5 * torch.randn(p.shape, generator=g, dtype=p.dtype))
    S = np.array(list(itertools.product(range(K), repeat=n)), dtype=np.float64)
    with torch.no_grad():
        P = np.exp(cc.to_np(m.log_likelihood(cc.to_torch(S)))).reshape((K,) * n)
        rec.n(len(S))
        close(P.sum(), 1.0, "normalization", rtol=1e-6, atol=1e-6)
        for sub in itertools.product([0, 1], repeat=n):
            keep = [i for i in range(n) if sub[i]]
            E = S.copy()
            E[:, [i for i in range(n) if not sub[i]]] = np.nan
            ref = P.sum(axis=tuple(i for i in range(n) if not sub[i]), keepdims=True)
            ref = np.broadcast_to(ref, P.shape).reshape(-1)
            close(np.exp(cc.to_np(m.log_likelihood(cc.to_torch(E))).reshape(-1)), ref, f"marginal of {keep}", rtol=1e-6, atol=1e-9)
    if c["trees"] > 1 or n < 2:
        return
    tree = as_tree(getattr(cl, f"learn_chow_liu_tree_{name}")(Xt, **kw), n, "tree")
    if c["init"] == "uniform" and not c["reparam"]:
        # uniform transitions: the hidden states carry no information
        ind = np.ones_like(P)
        for i in range(n):
            mi = P.sum(axis=tuple(j for j in range(n) if j != i), keepdims=True)
            ind = ind * mi
        close(P, ind, "uniform initialization", rtol=1e-6, atol=1e-9)
    elif c["reparam"]:
        # every edge of the tree separates the variables through one hidden variable with H states
        for a, b in tree:
            side = {a}
            while True:
                more = {y for x, y in tree if x in side and (x, y) != (a, b)} | {x for x, y in tree if y in side and (x, y) != (a, b)}
                if more <= side:
                    break
                side |= more
            A = sorted(side)
            B = [i for i in range(n) if i not in side]
            mat = P.transpose(A + B).reshape(K ** len(A), -1)
            s = np.linalg.svd(mat, compute_uv=False)
            if len(s) > H:
                require(s[H] <= 1e-9 * s[0], f"edge {(a, b)}: dependence across it needs more than {H} hidden states ({s[H] / s[0]:.2e})")
                rec.tag("rank-bound")
            if H > 1:
                require(s[1] > 1e-8 * s[0], f"edge {(a, b)}: the two sides are independent for all parameters ({s[1] / s[0]:.2e})")
                rec.tag("dependent")


PROP = Prop("C19", [
    Facet("mst", mst_case(), check_mst, quick=2500, thorough=40000,
          rule="at least three nodes and more than one tree requested (compared with all labelled trees)"),
    Facet("chow-liu", mi_case(), check_mi, quick=2000, thorough=30000, rule="more than two variables, dependent data"),
    Facet("cltree", cltree_case(), check_cltree, quick=1600, thorough=25000, rule="more than two variables, dependent data"),
    Facet("hclt", hclt_case(), check_hclt, quick=900, thorough=15000, rule="at least two variables and two hidden states"),
])
