"""C07: most probable completions: deterministic, keep evidence, follow the greedy branch decisions, exact where promised."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require

TIE = 1e-3


class Tie(Exception):
    """A decision without a clear winner was reached: the completion is not determined."""


def decide(scores):
    s = np.asarray(scores, float)
    if len(s) > 1:
        t = np.sort(s)[::-1]
        if not t[0] - t[1] > TIE:
            raise Tie
    return int(np.argmax(s))


def descend(ref, X, memo, f, c, r, out):
    """Greedy decisions for one row X (1, n): appends (leaf node, [features], c, r) reached to out."""
    k = type(ref)
    if k is cc.RLeaf:
        out.append((ref, f, c, r))
    elif k is cc.RCLTree:
        out.append((ref, f, c, r))
    elif k is cc.RCat:
        for kid in ref.kids:
            m = len(kid.P) if ref.dim == 1 else kid.C
            i = f if ref.dim == 1 else c
            if i < m:
                return descend(kid, X, memo, *((i, c) if ref.dim == 1 else (f, i)), r, out)
            if ref.dim == 1:
                f -= m
            else:
                c -= m
    elif k is cc.RSum:
        a = ref.kid.ll(X, memo)[0, f, :, r] + np.log(ref.w[f, :, c, r])
        descend(ref.kid, X, memo, f, decide(a), r, out)
    elif k is cc.RElemSum:
        O = ref.w.shape[2]
        ci, o = divmod(c, O)
        cs = [ci if kid.C > 1 else 0 for kid in ref.kids]
        a = [kid.ll(X, memo)[0, f, q, r] + np.log(ref.w[f, ci, o, i, r]) for i, (kid, q) in enumerate(zip(ref.kids, cs))]
        i = decide(a)
        descend(ref.kids[i], X, memo, f, cs[i], r, out)
    elif k is cc.RProduct:
        for g in range(len(ref.kid.P)):
            descend(ref.kid, X, memo, g, c, r, out)
    elif k is cc.RFact:
        for g in ref.groups[f]:
            descend(ref.kid, X, memo, g, c, r, out)
    elif k is cc.RView:
        descend(ref.kid, X, memo, ref.feats[f], c, r, out)
    elif k is cc.RElemProd:
        for kid in ref.kids:
            descend(kid, X, memo, f if len(kid.P) > 1 else 0, c if kid.C > 1 else 0, r, out)
    elif k is cc.ROuter:
        idx = np.unravel_index(c, [kid.C for kid in ref.kids])
        for kid, q in zip(ref.kids, idx):
            descend(kid, X, memo, f, int(q), r, out)
    elif k is cc.REinsum:
        a = (ref.left.ll(X, memo)[0, f, :, r][:, None] + ref.right.ll(X, memo)[0, f, :, r][None]
             + np.log(ref.w[f, c, r]))
        i, j = divmod(decide(a.ravel()), a.shape[1])
        descend(ref.left, X, memo, f, i, r, out)
        descend(ref.right, X, memo, f, j, r, out)
    elif k is cc.RLinsum:
        a = ref.left.ll(X, memo)[0, f, :, r] + ref.right.ll(X, memo)[0, f, :, r] + np.log(ref.w[f, c, r])
        i = decide(a)
        descend(ref.left, X, memo, f, i, r, out)
        descend(ref.right, X, memo, f, i, r, out)
    elif k is cc.RRepMix:
        a = ref.kid.ll(X, memo)[0, f, c, :] + np.log(ref.w[f, c])
        descend(ref.kid, X, memo, f, c, decide(a), out)
    else:
        raise AssertionError(k)


def peak(leaf, f, c, r):
    """Maximal log density of leaf feature f, channel c, repetition r (None if unbounded)."""
    p, k = leaf.params, leaf.kind
    if k == "Categorical":
        return float(np.log(p["probs"][f, c, r].max()))
    if k == "Histogram":
        return 0.0
    q = {a: v[f, c, r] for a, v in p.items()}
    if k in ("Normal", "Laplace"):
        x = q["loc"]
    elif k == "LogNormal":
        x = np.exp(q["loc"] - q["scale"] ** 2)
    elif k == "Exponential":
        x = 0.0
    elif k == "Gamma":
        if q["concentration"] <= 1.02:
            return None
        x = (q["concentration"] - 1) / q["rate"]
    elif k == "Uniform":
        x = (q["low"] + q["high"]) / 2
    else:
        x = np.arange(0, 60)
    with np.errstate(divide="ignore", invalid="ignore"):
        return float(np.max(cc.leaf_logpdf(k, x, q)))


def verify(case, ref, row, got, f0c0, r, t):
    """Check one completed row against the greedy decisions. Returns True when fully determined."""
    X, memo, det = row[None], {}, True
    for f, c in f0c0:
        out = []
        try:
            descend(ref, X, memo, f, c, r, out)
        except Tie:
            det = False
            continue
        for leaf, lf, lc, lr in out:
            if isinstance(leaf, cc.RLeaf):
                v = leaf.vars[lf]
                if not np.isnan(row[v]):
                    continue
                best = peak(leaf, lf, lc, lr)
                if best is None:
                    continue
                if leaf.kind == "Histogram":  # documented: a point of the most probable bin (not the densest one)
                    e, pr = leaf.params["bin_edges"], leaf.params["probs"][lf, lc, lr]
                    i = int(np.clip(np.searchsorted(e, got[v], side="right") - 1, 0, len(pr) - 1))
                    require(e[0] <= got[v] < e[-1] and pr[i] >= pr.max() - 1e-6, f"variable {v}: completion {got[v]} is "
                            f"not in the most probable bin of {pr.tolist()} with edges {e.tolist()}")
                    continue
                have = leaf.ll(got[None])[0, lf, lc, lr]
                require(have >= best - t, f"variable {v}: completion {got[v]} has log density {have:.6g} in the selected "
                        f"{leaf.kind} component (channel {lc}, repetition {lr}), its mode has {best:.6g}")
            else:
                if lf != 0 or not np.isnan(row[leaf.vars]).any():
                    continue
                free = [i for i, v in enumerate(leaf.vars) if np.isnan(row[v])]
                best = max(leaf.joint(cand)[lc, lr] for cand in completions(row[leaf.vars], free, leaf.K))
                have = leaf.joint(got[leaf.vars])[lc, lr]
                require(have >= best - t, f"tree completion {got[leaf.vars].tolist()} of {row[leaf.vars].tolist()} has log "
                        f"probability {have:.6g}, the best completion has {best:.6g}")
    return det


def completions(x, free, K):
    import itertools

    for comb in itertools.product(range(K), repeat=len(free)):
        y = x.copy()
        y[free] = comb
        yield y


@st.composite
def mpe_case(draw, families, root="single", reps=(1,), nodes=cc.ALL_NODES, max_vars=6):
    c = draw(cc.circuit(families=families, root=root, reps=reps, min_vars=1, max_vars=max_vars, maxdepth=4, nodes=nodes,
                        maxstates=256))
    c["rows"] = draw(cc.rows(c["vt"], 1, 4))
    c["api"] = draw(st.sampled_from(["with_evidence", "mpe_data", "num_samples"]))
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    return c


def prepare(case):
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    if not case.get("f64", True):
        X = X.astype(np.float32).astype(np.float64)
    return b, X


def complete(b, X, api):
    data = cc.to_torch(X)
    if api == "num_samples":
        return b.module.mpe(num_samples=len(X))
    if api == "mpe_data":
        return b.module.mpe(data=data)
    return b.module.sample_with_evidence(evidence=data, is_mpe=True)


def check(case, rec):
    import torch

    b, X = prepare(case)
    rec.tag(case["api"], *cc.spec_tags(case["spec"]))
    F = len(b.ref.P)
    if case["api"] == "num_samples":
        X = np.full_like(X, np.nan)
    keep = np.isfinite(b.ref.ll(X)[:, :, 0, 0]).all(1) & (b.ref.ll(X)[:, :, 0, 0] > -40).all(1)
    X = X[keep]
    if not len(X):
        return
    obs = ~np.isnan(X)
    torch.manual_seed(1)
    S = complete(b, X, case["api"])
    torch.manual_seed(2)
    S2 = complete(b, X, case["api"])
    require(tuple(S.shape) == X.shape, f"completion shape {tuple(S.shape)} for {X.shape}")
    require(torch.equal(S, S2), "repeating the query changed the completion")
    G = S.detach().double().numpy()
    require(np.isfinite(G).all(), "completion is not finite everywhere")
    require((G[obs] == cc.to_torch(X).double().numpy()[obs]).all(), "an observed entry was changed")
    t = 1e-5 if case.get("f64", True) else 2e-3
    det = [verify(case, b.ref, X[i], G[i], [(f, 0) for f in range(F)], 0, t) for i in range(len(X))]
    rec.nt(any(det) and (~obs).any() and case["n"] > 1 and any(not isinstance(r, (cc.RLeaf, cc.RCat))
                                                              for r in cc.ref_nodes(b.ref)))


def check_chan(case, rec):
    """Completion of a chosen channel per feature and repetition of a multi-output circuit."""
    import torch
    from spflow.utils.cache import Cache
    from spflow.utils.sampling_context import SamplingContext

    b, X = prepare(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    F, C, R = len(b.ref.P), b.ref.C, b.ref.R
    if any(isinstance(r, cc.RRepMix) for r in cc.ref_nodes(b.ref)) and F > 1:
        return
    ch = [case["pick"][f % 6] % C for f in range(F)]
    r = case["pick"][6] % R
    ll = b.ref.ll(X)
    keep = np.array([all(ll[i, f, ch[f], r] > -40 for f in range(F)) for i in range(len(X))])
    X = X[keep]
    if not len(X):
        return
    data, cache = cc.to_torch(X), Cache()
    b.module.log_likelihood(data, cache=cache)
    N = len(X)
    ctx = SamplingContext(channel_index=torch.as_tensor(np.repeat(np.array(ch)[None], N, 0)),
                          mask=torch.ones((N, F), dtype=torch.bool),
                          repetition_index=torch.full((N,), r, dtype=torch.long), is_mpe=True)
    G = b.module._sample(data=data, sampling_ctx=ctx, cache=cache).detach().double().numpy()
    obs = ~np.isnan(X)
    require(np.isfinite(G).all(), "completion is not finite everywhere")
    require((G[obs] == cc.to_torch(X).double().numpy()[obs]).all(), "an observed entry was changed")
    t = 1e-5 if case.get("f64", True) else 2e-3
    det = [verify(case, b.ref, X[i], G[i], list(enumerate(ch)), r, t) for i in range(N)]
    rec.nt(any(det) and (~obs).any() and C * R > 1)


def check_exact(case, rec):
    """Without mixtures the completion attains the maximum likelihood over all completions."""
    b, X = prepare(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    if cc.num_states(case["vt"]) > 256 or b.ref.C != 1:
        return
    S = complete(b, X if case["api"] != "num_samples" else np.full_like(X, np.nan), case["api"])
    A = cc.all_states(case["vt"])
    la = b.ref.ll(A)[:, 0, 0, 0]
    G = S.detach().double().numpy()
    for i, row in enumerate(X):
        if case["api"] == "num_samples":
            row = np.full_like(row, np.nan)
        ok = (np.isnan(row)[None] | (A == row[None])).all(1)
        close(b.ref.ll(G[i][None])[0, 0, 0, 0], la[ok].max(), f"log-likelihood of the completion of {row.tolist()} against "
              "the best completion", **({"rtol": 1e-7, "atol": 1e-6} if case.get("f64", True) else {"rtol": 1e-3, "atol": 1e-3}))
        rec.n()
    rec.nt(case["n"] > 1)


PROP = Prop("C07", [
    Facet("decisions", mpe_case(("cat", "cat", "real", "pos", "count", "hist")), check, quick=2500, thorough=60000,
          rule="greedy posterior branch decisions and component modes; non-trivial: inner node, some entry completed, no tie"),
    Facet("channels", mpe_case(("cat", "cat", "real", "hist"), root="any", reps=(1, 2, 3)), check_chan, quick=2000,
          thorough=40000, rule="chosen channels and repetition; non-trivial: several channels or repetitions, no tie"),
    Facet("exact", mpe_case(("cat",), nodes=("product", "elemprod", "outer", "cltree", "cat1", "fact", "split", "share")),
          check_exact, quick=1500, thorough=40000, rule="mixture-free circuits: maximum over all completions by enumeration"),
])
