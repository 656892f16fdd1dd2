"""C16: expectation maximization performs the EM update and never lowers the training likelihood."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require
from vf.props.c14 import PARAMS, degenerate, optimum

EM_NODES = cc.ALL_NODES
FAMS = ("cat", "cat", "count", "real", "pos", "hist")
EM_KINDS = {"Normal", "Laplace", "LogNormal", "Exponential", "Bernoulli", "Binomial", "Geometric", "NegativeBinomial",
            "Poisson", "Categorical", "Histogram"}


# ------------------------------------------------------------------ reference EM


def flows(ref, X, root=None):
    """Flow of every node (B,F,C,R): d (sum of root * root outputs) / d (output of the node); root: ones."""
    memo, g, out = {}, {}, []
    y = ref.ll(X, memo)
    g[id(ref)] = np.ones_like(y) if root is None else root

    def add(k, v):
        v = np.broadcast_to(v, k.ll(X, memo).shape) if v.shape == k.ll(X, memo).shape else v
        g[id(k)] = g.get(id(k), 0.0) + v

    def fit(k, v):
        """Sum v over axes along which k's values were broadcast."""
        s = k.ll(X, memo).shape
        for ax in (1, 2):
            if s[ax] == 1 and v.shape[ax] > 1:
                v = v.sum(ax, keepdims=True)
        return v

    def resp(z, yy, gg):
        with np.errstate(invalid="ignore"):
            d = np.where(np.isneginf(z) | np.isneginf(yy), -np.inf, z - yy)
        return np.exp(d) * gg

    def visit(n):
        gn, y = g[id(n)], n.ll(X, memo)
        counts = None
        if isinstance(n, cc.RCat):
            o = 0
            for k in n.kids:
                w = k.ll(X, memo).shape[n.dim]
                add(k, np.take(gn, range(o, o + w), n.dim))
                o += w
        elif isinstance(n, cc.RSum):
            a = n.kid.ll(X, memo)
            r = resp(a[:, :, :, None] + np.log(n.w)[None], y[:, :, None], gn[:, :, None])
            counts = r.sum(0)
            add(n.kid, r.sum(3))
        elif isinstance(n, cc.RElemSum):
            F, I, O, m, R = n.w.shape
            a = np.stack([np.broadcast_to(k.ll(X, memo), (len(X), F, I, R)) for k in n.kids], 3)
            yy, gg = y.reshape(len(X), F, I, O, 1, R), gn.reshape(len(X), F, I, O, 1, R)
            r = resp(a[:, :, :, None] + np.log(n.w)[None], yy, gg)
            counts = r.sum(0)
            for i, k in enumerate(n.kids):
                add(k, fit(k, r[:, :, :, :, i].sum(3)))
        elif isinstance(n, cc.RProduct):
            add(n.kid, np.broadcast_to(gn, n.kid.ll(X, memo).shape).copy())
        elif isinstance(n, cc.RFact):
            v = np.zeros_like(n.kid.ll(X, memo))
            for o, mem in enumerate(n.groups):
                v[:, mem] = gn[:, [o]]
            add(n.kid, v)
        elif isinstance(n, cc.RView):
            v = np.zeros_like(n.kid.ll(X, memo))
            v[:, n.feats] = gn
            add(n.kid, v)
        elif isinstance(n, cc.RElemProd):
            for k in n.kids:
                add(k, fit(k, gn))
        elif isinstance(n, cc.ROuter):
            Cs = [k.C for k in n.kids]
            v = gn.reshape(gn.shape[0], gn.shape[1], *Cs, gn.shape[3])
            for i, k in enumerate(n.kids):
                add(k, v.sum(tuple(2 + j for j in range(len(Cs)) if j != i)))
        elif isinstance(n, (cc.REinsum, cc.RLinsum)):
            l, r_ = (np.moveaxis(k.ll(X, memo), 3, 2)[:, :, None] for k in (n.left, n.right))  # B F 1 R I
            yy, gg = np.moveaxis(y, 3, 2), np.moveaxis(gn, 3, 2)  # B F R O
            yy, gg = np.moveaxis(yy, 3, 2), np.moveaxis(gg, 3, 2)  # B F O R
            if isinstance(n, cc.REinsum):
                r = resp(l[..., :, None] + r_[..., None, :] + np.log(n.w)[None], yy[..., None, None], gg[..., None, None])
                counts = r.sum(0)
                add(n.left, np.moveaxis(r.sum(5).sum(2), 2, 3))
                add(n.right, np.moveaxis(r.sum(4).sum(2), 2, 3))
            else:
                r = resp(l + r_ + np.log(n.w)[None], yy[..., None], gg[..., None])
                counts = r.sum(0)
                for k in (n.left, n.right):
                    add(k, np.moveaxis(r.sum(2), 2, 3))
        elif isinstance(n, cc.RRepMix):
            r = resp(n.kid.ll(X, memo) + np.log(n.w)[None], y, gn)
            counts = r.sum(0)
            add(n.kid, r)
        elif isinstance(n, cc.RSumConv):
            a = n.kid.ll(X, memo)
            counts, back = np.zeros_like(n.w), np.zeros_like(a)
            F, K = a.shape[1], n.w.shape[2]
            H = int(round(F ** 0.5))
            for f in range(F):
                kh, kw = (f // H % K, f % H % K) if H >= K else (0, 0)
                r = resp(a[:, f, None] + np.log(n.w[:, :, kh, kw])[None], y[:, f, :, None], gn[:, f, :, None])
                counts[:, :, kh, kw] += r.sum(0)
                back[:, f] = r.sum(1)
            add(n.kid, back)
        else:
            assert isinstance(n, (cc.RLeaf, cc.RCLTree)), type(n)
        out.append((n, gn, counts))

    for n in order(ref):
        visit(n)
    return out


def order(ref):
    """Nodes, parents before children."""
    seen, post = set(), []

    def go(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        for k in getattr(n, "kids", None) or [getattr(n, a) for a in ("kid", "left", "right") if hasattr(n, a)]:
            go(k)
        post.append(n)

    go(ref)
    return post[::-1]


AXES = {cc.RSum: (1,), cc.RElemSum: (3,), cc.REinsum: (3, 4), cc.RLinsum: (3,), cc.RRepMix: (2,), cc.RSumConv: (1,)}


def em_weights(n, counts):
    """(new weights, mask of the parameters that received a non-negligible flow)."""
    ax = AXES[type(n)]
    tot = counts.sum(ax, keepdims=True)
    ok = tot > 1e-3
    return np.where(ok, counts / np.where(ok, tot, 1.0), n.w), np.broadcast_to(ok, counts.shape)


def em_cpt(n, X, w):
    """(log cpt, mask) of a Chow-Liu tree from flow weights (B,C,R)."""
    F, K = len(n.vars), n.K
    new = np.zeros((F, n.C, n.R, K, K))
    ok = np.zeros_like(new, dtype=bool)
    x = X[:, n.vars].astype(int)
    for f in range(F):
        pa = n.parents[f]
        for xp in range(K):
            sel = np.ones(len(X)) if pa < 0 else (x[:, pa] == xp).astype(float)
            c = np.stack([(w * (sel * (x[:, f] == k))[:, None, None]).sum(0) for k in range(K)], -1)  # C R K
            tot = c.sum(-1, keepdims=True)
            good = tot > 1e-3
            new[f, ..., xp] = np.where(good, c / np.where(good, tot, 1), 1.0)
            ok[f, ..., xp] = np.broadcast_to(good, c.shape)
    return new, ok


# ------------------------------------------------------------------ SPFlow parameters


def stored_weights(m, ref):
    return np.exp(m.log_weights.detach().double().numpy())


def finite(b, what):
    import torch

    for name, p in b.module.named_parameters():  # leaf logits of certain outcomes are infinite by definition
        ok = ~torch.isnan(p) if name.rsplit(".", 1)[-1] in ("_logits", "logits") else torch.isfinite(p)
        require(ok.all(), f"{what}: parameter {name} of {type(b.module).__name__} is not finite: {p.detach().flatten()[:8].tolist()}")
    for s, m, r in b.pairs:
        if type(r) in AXES:
            w = stored_weights(m, r)
            require(np.isfinite(w).all(), f"{what}: weights of {type(m).__name__} are not finite")
            close(w.sum(AXES[type(r)]), np.ones_like(w.sum(AXES[type(r)])), f"{what}: weights of {type(m).__name__} sum to one",
                  rtol=1e-5, atol=1e-5)


# ------------------------------------------------------------------ cases


@st.composite
def em_case(draw, extreme=False):
    c = draw(cc.circuit(families=FAMS, nodes=EM_NODES, max_vars=4, maxdepth=3, maxC=3, root=draw(st.sampled_from(["single", "chan", "any"])),
                        reps=(1, 1, 2), kinds=EM_KINDS, maxstates=64))
    c["N"] = draw(st.sampled_from([2, 3, 8, 20, 20, 40]))
    c["dseed"] = draw(st.integers(0, 2**31 - 1))
    c["f64"] = True
    c["far"] = draw(st.integers(0, 2)) if extreme else 0
    c["steps"] = draw(st.integers(1, 6))
    return c


def data(case):
    rng = np.random.default_rng(case["dseed"])
    N, cols = case["N"], []
    z = rng.integers(0, 2, N)  # correlated columns
    for vt in case["vt"]:
        k = vt[0]
        if k == "cat":
            c = np.where(rng.random(N) < 0.4, z % vt[1], rng.integers(0, vt[1], N)).astype(float)
        elif k == "bin":
            c = np.where(rng.random(N) < 0.4, z, rng.integers(0, 2, N)).astype(float)
        elif k == "count":
            c = rng.poisson(1 + 3 * z).astype(float)
        elif k == "real":
            c = rng.normal(3.0 * z - 1.5, 1.0)
        elif k == "pos":
            c = rng.gamma(1 + 2 * z, 1.0) + 0.05
        else:
            c = rng.uniform(-1.4, -1.0, N)
        if case.get("far") and k in ("real", "count"):
            far = rng.random(N) < (0.2 if case["far"] == 1 else 1.0)
            c = np.where(far, 300.0 if k == "count" else 3000.0 + c, c)
        cols.append(c)
    return np.stack(cols, 1)


def tiny_alpha(b):
    for s, m, r in b.pairs:
        if isinstance(r, cc.RCLTree):
            m.alpha = 1e-9


# ------------------------------------------------------------------ checks


def check_step(case, rec):
    from spflow.learn.expectation_maximization import expectation_maximization

    cc.set_dtype(case)
    b = cc.build(case)
    tiny_alpha(b)
    X = data(case)
    T = cc.to_torch(X)
    keep = T.clone()
    fl = flows(b.ref, X)
    y = b.ref.ll(X)
    rec.tag(*cc.spec_tags(case["spec"]))
    if not np.isfinite(y).all():
        rec.tag("zero density")
        return
    hist = expectation_maximization(b.module, T, max_steps=1, bias_correction=False)
    require(bool((T == keep).all()), "EM modified its data")
    close(hist.detach(), [y.sum() / len(X)], "returned average log-likelihood", rtol=1e-6, atol=1e-6)
    finite(b, "after one EM step")
    mods = {id(r): (s, m) for s, m, r in b.pairs}
    n = 0
    for node, g, counts in fl:
        if id(node) not in mods:
            continue
        s, m = mods[id(node)]
        if counts is not None:
            new, ok = em_weights(node, counts)
            got = stored_weights(m, node)
            n += int(ok.any())
            close(got[ok], new[ok], f"weights of {type(m).__name__} after one EM step", rtol=1e-4, atol=2e-5)
        elif isinstance(node, cc.RCLTree):
            new, ok = em_cpt(node, X, g[:, 0])
            got = np.exp(m.log_cpt.detach().double().numpy())
            close(got[ok], new[ok], "conditional probability tables of CLTree after one EM step", rtol=1e-4, atol=2e-5)
        elif isinstance(node, cc.RLeaf):
            n += check_leaf(node, m, g, X)
    rec.nt(n > 1 and len(X) > 2)
    rec.n(n)


def check_leaf(node, m, g, X):
    if node.kind not in EM_KINDS:
        return 0
    n = 0
    lc = {"kind": node.kind, "K": node.params["probs"].shape[-1] if node.kind == "Categorical" else 0}
    for f, v in enumerate(node.vars):
        for c in range(node.C):
            for r in range(node.R):
                w = g[:, f, c, r]
                if w.sum() < 1e-3 or degenerate(lc, X[:, v], w):
                    continue
                if node.kind == "Laplace":  # weighted median: not unique when half of the weight lies on one side
                    o = np.argsort(X[:, v])
                    cs = np.cumsum(w[o]) / w.sum()
                    if np.abs(cs - 0.5).min() < 1e-6:
                        continue
                n += 1
                e = optimum(lc, node.params, X[:, v], w, f, c, r)
                e2 = optimum(lc, node.params, X[:, v], w + 1e-12, f, c, r)  # how far a vanishing weight of every row reaches
                for k in PARAMS[node.kind]:
                    got = getattr(m, k).detach().double().numpy()[f, c, r]
                    require(np.isfinite(got).all(), f"{node.kind}.{k} not finite after one EM step")
                    close(got, np.asarray(e[k]), f"{node.kind}.{k} (feature {f}, channel {c}, repetition {r}) after one EM step, "
                          f"the maximizer under the posterior weights", rtol=1e-4, atol=2e-5 + 3 * np.max(np.abs(np.asarray(e2[k]) - np.asarray(e[k]))))
    return n


def check_monotone(case, rec):
    import torch
    from spflow.learn.expectation_maximization import expectation_maximization, expectation_maximization_batched

    cc.set_dtype(case)
    b, b2, b3 = cc.build(case), cc.build(case), cc.build(case)
    for x in (b, b2, b3):
        tiny_alpha(x)
    X = data(case)
    T = cc.to_torch(X)
    S = case["steps"]
    rec.tag(*cc.spec_tags(case["spec"]))
    if not np.isfinite(b.ref.ll(X)).all():
        rec.tag("zero density")
        return
    hist = expectation_maximization(b.module, T, max_steps=S, bias_correction=False).detach().double().numpy()
    require(1 <= len(hist) <= S, f"history of {len(hist)} entries for max_steps={S}")
    mean = lambda m: float(m.log_likelihood(T).sum().detach()) / len(X)
    # every history entry is the average log-likelihood of the model before that step
    seq, finals = [], []
    for _ in range(len(hist)):
        seq.append(mean(b2.module))
        h = expectation_maximization(b2.module, T, max_steps=1, bias_correction=False)
        close(h.detach(), [seq[-1]], "history of one step", rtol=1e-6, atol=1e-7)
    close(hist, seq, "history of several steps equals repeated single steps", rtol=1e-6, atol=1e-6)
    seq.append(mean(b2.module))
    close(mean(b.module), seq[-1], "model after several steps equals repeated single steps", rtol=1e-6, atol=1e-6)
    finite(b, f"after {len(hist)} EM steps")
    # leaves whose scale collapses leave the regime in which densities are bounded
    if collapsed(b):
        rec.tag("collapsed leaf")
    else:
        for t in range(len(seq) - 1):
            require(seq[t + 1] >= seq[t] - 1e-6 * (1 + abs(seq[t])),
                    f"EM step {t} lowered the average training log-likelihood from {seq[t]:.9f} to {seq[t + 1]:.9f}")
    # stops after the first step that brings no improvement, not before
    stop = [t for t in range(1, len(hist)) if hist[t] <= hist[t - 1]]
    require(not stop or stop[0] == len(hist) - 1, f"EM went on after a step without improvement: {hist.tolist()}")
    require(len(hist) == S or stop, f"EM stopped after {len(hist)} of {S} steps while still improving: {hist.tolist()}")
    # one batch per epoch is plain EM
    h3 = expectation_maximization_batched(b3.module, [T], num_epochs=len(hist), bias_correction=False)
    close(h3.detach(), hist, "batched EM with a single batch", rtol=1e-6, atol=1e-6)
    close(mean(b3.module), mean(b.module), "model of batched EM with a single batch", rtol=1e-6, atol=1e-6)
    rec.nt(len(seq) > 2 and seq[-1] > seq[0] + 1e-6)
    del torch


def collapsed(b):
    for s, m, r in b.pairs:
        if isinstance(r, cc.RLeaf) and r.kind in ("Normal", "Laplace", "LogNormal") and float(m.scale.min()) < 1e-4:
            return True
        if isinstance(r, cc.RLeaf) and r.kind == "Exponential" and float(m.rate.max()) > 1e4:
            return True
    return False


@st.composite
def conv_case(draw):
    k = draw(st.integers(1, 3))
    H = k * draw(st.integers(1, 2)) if draw(st.integers(0, 4)) else max(1, k - 1)
    return {"k": k, "H": H, "I": draw(st.integers(1, 3)), "O": draw(st.integers(1, 3)), "R": draw(st.integers(1, 2)),
            "N": draw(st.sampled_from([3, 10, 30])), "seed": draw(st.integers(0, 2**31 - 1)),
            "kind": draw(st.sampled_from(["Normal", "Bernoulli", "Categorical"])), "tied": draw(st.booleans()), "f64": True}


def check_conv(case, rec):
    """SumConv: every kernel position is a mixture of its own."""
    from spflow.learn.expectation_maximization import expectation_maximization
    from spflow.modules.conv.sum_conv import SumConv
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    cc.set_dtype(case)
    k, H, I, O, R, N = (case[x] for x in "k H I O R N".split())
    par = cc.Par(case["seed"], "mild")
    F, K = H * H, 3
    p = cc.leaf_params(case["kind"], F, I, R, K, par)
    leaf, rl = cc.make_leaf(case["kind"], range(F), I, R, p, K), cc.RLeaf(case["kind"], range(F), I, R, p)
    w = par.simplex((O, I, k, k, R), 1)
    if case["tied"]:
        w = np.broadcast_to(w[:, :, :1, :1], w.shape).copy()
    conv = SumConv(leaf, out_channels=O, kernel_size=k, num_repetitions=R)
    conv.weights = cc.to_torch(w)
    rc = cc.RSumConv(rl, w)
    prod, rp = Product(conv), cc.RProduct(rc)
    ws = par.simplex((1, O, 1, R), 1)
    top, rt = Sum(prod, weights=cc.to_torch(ws)), cc.RSum(rp, ws)
    vt = {"Normal": ["real"], "Bernoulli": ["bin"], "Categorical": ["cat", K]}[case["kind"]]
    X = data({"dseed": case["seed"] + 1, "N": N, "vt": [vt] * F})
    T = cc.to_torch(X)
    fl = flows(rt, X)
    before = rt.ll(X).sum() / N
    h = expectation_maximization(top, T, max_steps=1, bias_correction=False)
    close(h.detach(), [before], "returned average log-likelihood")
    rec.nt(I > 1 and O * k > 1 and N > 3)
    rec.tag(f"k={k}", "tied" if case["tied"] else "free", "small" if H < k else "patches")
    for node, g, counts in fl:
        for nd, m in ((rc, conv), (rt, top)):
            if nd is node:
                new, ok = em_weights(node, counts)
                close(stored_weights(m, node)[ok], new[ok], f"weights of {type(m).__name__} after one EM step", rtol=1e-4, atol=2e-5)
        if node is rl:
            check_leaf(rl, leaf, g, X)
    if not any(degenerate({"kind": case["kind"]}, X[:, v], np.ones(N)) for v in range(F)):
        after = float(top.log_likelihood(T).sum().detach()) / N
        sc = float(leaf.scale.min()) if case["kind"] == "Normal" else 1.0
        require(sc < 1e-4 or after >= before - 1e-6 * (1 + abs(before)),
                f"an EM step lowered the average training log-likelihood from {before:.9f} to {after:.9f}")


@st.composite
def far_case(draw):
    c = draw(em_case(extreme=True))
    if draw(st.booleans()):  # components under which some rows are impossible
        c["style"] = "sharp"
    return c


@st.composite
def wide_case(draw):
    c = draw(cc.wide_circuit(single=draw(st.booleans()), chans=(1, 3, 8, 16, 17)))
    c["N"] = draw(st.sampled_from([3, 8, 20]))
    c["dseed"] = draw(st.integers(0, 2**31 - 1))
    c["f64"] = True
    c["steps"] = 1
    return c


@st.composite
def mini_case(draw):
    c = draw(em_case())
    c["batches"] = draw(st.integers(2, 4))
    c["epochs"] = draw(st.integers(1, 3))
    return c


def check_mini(case, rec):
    """Mini-batch EM is one EM step per batch, in order; its history averages the likelihoods the batches had."""
    from spflow.learn.expectation_maximization import expectation_maximization, expectation_maximization_batched

    cc.set_dtype(case)
    X = data(case)
    parts = np.array_split(np.arange(len(X)), case["batches"])
    parts = [p for p in parts if len(p) >= 2]
    if not parts:
        return
    b, b2 = cc.build(case), cc.build(case)
    for x in (b, b2):
        tiny_alpha(x)
    wrap = (lambda t: (t,)) if case["dseed"] % 2 else (lambda t: t)
    loader = [wrap(cc.to_torch(X[p])) for p in parts]
    tot = sum(len(p) for p in parts)
    exp = []
    for _ in range(case["epochs"]):
        s = 0.0
        for p in parts:
            if not np.isfinite(b2.module.log_likelihood(cc.to_torch(X[p])).detach().double().numpy()).all():
                rec.tag("zero density")
                return
            h = expectation_maximization(b2.module, cc.to_torch(X[p]), max_steps=1, bias_correction=False)
            s += float(h[0]) * len(p)
        exp.append(s / tot)
    got = expectation_maximization_batched(b.module, loader, num_epochs=case["epochs"], bias_correction=False)
    rec.nt(len(parts) > 1)
    rec.tag(*cc.spec_tags(case["spec"]))
    close(got.detach(), exp, "history of mini-batch EM", rtol=1e-6, atol=1e-6)
    close(b.module.log_likelihood(cc.to_torch(X)).detach(), b2.module.log_likelihood(cc.to_torch(X)).detach(),
          "model after mini-batch EM", rtol=1e-6, atol=1e-6)


SUMS = {"Sum": 1, "ElementwiseSum": 3, "RepetitionMixingLayer": 2, "SumConv": 1, "EinsumLayer": (3, 4), "LinsumLayer": 3}


@st.composite
def zoo_case(draw):
    c = draw(zz.zoo(kinds=("rat", "rat", "einet", "einet", "conv", "nb", "nb", "fac"), maxD=6, maxstates=None, classes=(1, 2, 3), families=FAMS[:-1],
                    leafkinds=EM_KINDS))
    c["N"] = draw(st.sampled_from([3, 8, 20, 40]))
    c["dseed"] = draw(st.integers(0, 2**31 - 1))
    c["f64"] = True
    c["steps"] = draw(st.integers(1, 3))
    return c


def check_zoo(c, rec):
    """Library models. For softmax weights w with posterior counts n: d LL / d logit = n - w * sum(n), so the EM update
    n / sum(n) - w is the logit gradient divided by the (positive) flow into the node."""
    import torch
    from spflow.learn.expectation_maximization import expectation_maximization

    cc.set_dtype(c)
    m, refs = zz.build(c)
    X = data(c)
    T = cc.to_torch(X)
    sums = [(n, x) for n, x in m.named_modules() if type(x).__name__ in SUMS]
    rec.tag(*zz.tags(c))
    hist, after = [], None
    for _ in range(c["steps"]):
        m.zero_grad()
        y = m.log_likelihood(T)
        if not bool(torch.isfinite(y).all()):
            rec.tag("zero density")
            return
        fixed = [x for _, x in sums if not x.logits.requires_grad]
        y.sum().backward()
        g = {n: x.logits.grad.detach().double().numpy().copy() if x.logits.grad is not None else None for n, x in sums}
        old = {n: torch.exp(x.log_weights).detach().double().numpy().copy() for n, x in sums}
        m.zero_grad()
        before = float(y.sum().detach()) / len(X)
        hist.append(before)
        if c["zoo"] == "nb":
            lx = sum(r.ll(X).sum(1) for r in refs)[:, :, 0] if len(hist) == 1 else None
        h = expectation_maximization(m, T, max_steps=1, bias_correction=False)
        close(h.detach(), [before], "returned average log-likelihood", rtol=1e-6, atol=1e-6)
        for n, x in sums:
            new = torch.exp(x.log_weights).detach().double().numpy()
            what = f"weights of {n} ({type(x).__name__}) after one EM step"
            require(np.isfinite(new).all(), f"{what} are not finite")
            if x in fixed or g[n] is None:
                if c["zoo"] == "nb":
                    close(new, old[n], f"{what}: a fixed prior")
                continue
            ax = SUMS[type(x).__name__]
            d = new - old[n]
            gg, gd = (g[n] ** 2).sum(ax, keepdims=True), (g[n] * d).sum(ax, keepdims=True)
            big = gg > 1e-4
            require((gd[big] > 0).all(), f"{what}: the update goes against the gradient of the likelihood")
            tot = np.where(big, gg / np.where(big, gd, 1.0), 1.0)
            require((tot[big] < len(X) * y[0].numel() * 1.001 * c["R"] * max(c["n"], x.in_shape.features)).all(), f"{what}: update too small for the data's responsibilities")
            ok = np.broadcast_to(big, d.shape) & np.broadcast_to(tot > 1e-2, d.shape)
            close(d[ok], (g[n] / tot)[ok], f"{what}: not proportional to the posterior counts", rtol=2e-4, atol=2e-5)
        if c["zoo"] == "nb" and lx is not None:
            pr = old["root_node"].reshape(-1) if c["classes"] > 1 else np.ones(1)
            j = lx + np.log(pr)
            post = np.exp(j - cc.lse(j, 1)[:, None])
            if c["classes"] > 1 and c["learn"]:
                close(np.exp(m.root_node.log_weights.detach().double().numpy()).reshape(-1), post.mean(0), "class prior after one EM step", rtol=1e-4, atol=1e-5)
            for leaf, ref in zip(m.leaf_modules, refs):
                rec.n(check_leaf(ref, leaf, np.broadcast_to(post[:, None, :, None], (len(X), len(ref.vars), ref.C, 1)), X))
    after = float(m.log_likelihood(T).sum().detach()) / len(X)
    if not zoo_collapsed(m):
        seq = [*hist, after]
        for t in range(len(seq) - 1):
            require(seq[t + 1] >= seq[t] - 1e-6 * (1 + abs(seq[t])),
                    f"EM step {t} lowered the average training log-likelihood from {seq[t]:.9f} to {seq[t + 1]:.9f}")
    rec.nt(len(X) > 3 and after > hist[0] + 1e-6)


def zoo_collapsed(m):
    for x in m.modules():
        k = type(x).__name__
        if k in ("Normal", "Laplace", "LogNormal") and float(x.scale.min()) < 1e-4:
            return True
        if k == "Exponential" and float(x.rate.max()) > 1e4:
            return True
    return False


PROP = Prop("C16", [
    Facet("step", em_case(), check_step, quick=900, thorough=25000,
          rule="every weight, table and leaf parameter after one step vs reference EM; non-trivial: >1 parameter block, >2 rows"),
    Facet("monotone", em_case(), check_monotone, quick=500, thorough=12000,
          rule="likelihood history over several steps; non-trivial: >1 step and a strict improvement"),
    Facet("far", far_case(), check_step, quick=300, thorough=6000,
          rule="as 'step' with rows so far out, or so impossible, that components get no responsibility; non-trivial: >1 parameter block, >2 rows"),
    Facet("wide", wide_case(), check_step, quick=120, thorough=3000,
          rule="as 'step' with layers of up to 17 channels; non-trivial: >1 parameter block, >2 rows"),
    Facet("minibatch", mini_case(), check_mini, quick=250, thorough=6000, rule="sequences of batches; non-trivial: >1 batch"),
    Facet("zoo", zoo_case(), check_zoo, quick=800, thorough=20000,
          rule="RAT-SPN, Einet, convolutional, naive Bayes and Factorize models; non-trivial: >3 rows and a strict improvement"),
    Facet("conv", conv_case(), check_conv, quick=250, thorough=6000,
          rule="SumConv over a pixel grid; non-trivial: >1 mixture component and several mixtures"),
])
