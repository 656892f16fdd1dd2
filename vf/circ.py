"""Random circuits: Hypothesis generator of JSON specs, builder of SPFlow modules, and an
independent float64 reference evaluator written from the documented semantics.

A *feature partition* P is a list of variable lists: feature i of the module is a
distribution over exactly the variables P[i] (so generated circuits are smooth and
decomposable by construction).
"""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

# ----------------------------------------------------------------------------- reference


def lse(a, axis):
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(divide="ignore"):
        return np.squeeze(np.log(np.sum(np.exp(a - m), axis=axis, keepdims=True)) + m, axis=axis)


class Ref:
    """Reference node: log densities as an explicit function of full/partial rows (NaN = marginalized)."""

    P: list  # feature partition
    C: int
    R: int

    def ll(self, X, memo=None):
        memo = {} if memo is None else memo
        if id(self) not in memo:
            with np.errstate(divide="ignore", invalid="ignore"):
                memo[id(self)] = self._ll(X, memo)
        return memo[id(self)]


def leaf_logpdf(kind, x, p):
    """Log density of kind at x (broadcast), p = dict of broadcastable float64 arrays. NaN handled by caller."""
    if kind == "Normal":
        return stats.norm.logpdf(x, p["loc"], p["scale"])
    if kind == "Laplace":
        return -np.abs(x - p["loc"]) / p["scale"] - np.log(2 * p["scale"])
    if kind == "Exponential":
        return stats.expon.logpdf(x, scale=1.0 / p["rate"])
    if kind == "Gamma":
        return stats.gamma.logpdf(x, p["concentration"], scale=1.0 / p["rate"])
    if kind == "LogNormal":
        return stats.lognorm.logpdf(x, p["scale"], scale=np.exp(p["loc"]))
    if kind == "Uniform":
        inside = (x >= p["low"]) & (x <= p["high"])
        return np.where(inside, -np.log(p["high"] - p["low"]), -np.inf)
    if kind == "Bernoulli":
        return np.where(x == 1, np.log(p["probs"]), np.where(x == 0, np.log1p(-p["probs"]), -np.inf))
    if kind == "Binomial":
        return stats.binom.logpmf(x, p["total_count"], p["probs"])
    if kind == "Poisson":
        return stats.poisson.logpmf(x, p["rate"])
    if kind == "Geometric":  # failures before first success, support {0,1,...}
        return stats.geom.logpmf(x + 1, p["probs"])
    if kind == "NegativeBinomial":  # successes (prob p) before r failures
        return stats.nbinom.logpmf(x, p["total_count"], 1.0 - p["probs"])
    if kind == "Hypergeometric":
        return stats.hypergeom.logpmf(x, p["N"], p["K"], p["n"])
    raise KeyError(kind)


def frozen(kind, p):
    """scipy distribution with broadcastable parameters (None for Categorical/Histogram)."""
    return {
        "Normal": lambda: stats.norm(p["loc"], p["scale"]),
        "Laplace": lambda: stats.laplace(p["loc"], p["scale"]),
        "Exponential": lambda: stats.expon(scale=1.0 / p["rate"]),
        "Gamma": lambda: stats.gamma(p["concentration"], scale=1.0 / p["rate"]),
        "LogNormal": lambda: stats.lognorm(p["scale"], scale=np.exp(p["loc"])),
        "Uniform": lambda: stats.uniform(p["low"], p["high"] - p["low"]),
        "Bernoulli": lambda: stats.bernoulli(p["probs"]),
        "Binomial": lambda: stats.binom(p["total_count"], p["probs"]),
        "Poisson": lambda: stats.poisson(p["rate"]),
        "Geometric": lambda: stats.geom(p["probs"], loc=-1),
        "NegativeBinomial": lambda: stats.nbinom(p["total_count"], 1.0 - p["probs"]),
        "Hypergeometric": lambda: stats.hypergeom(p["N"], p["K"], p["n"]),
    }[kind]()


CONTINUOUS = {"Normal", "Laplace", "Exponential", "Gamma", "LogNormal", "Uniform", "Histogram"}


def leaf_interval(kind, lo, hi, p):
    """log P(lo <= x <= hi)."""
    d = frozen(kind, p)
    lo_, hi_ = (lo, hi) if kind in CONTINUOUS else (np.ceil(lo) - 1, np.floor(hi))
    upper = d.sf(lo_) - d.sf(hi_)
    lower = d.cdf(hi_) - d.cdf(lo_)
    m = np.where(d.cdf(lo_) > 0.5, upper, lower)
    return np.log(np.maximum(m, 0.0))


class RLeaf(Ref):
    def __init__(self, kind, vars_, C, R, params):
        self.kind, self.vars, self.C, self.R, self.params = kind, list(vars_), C, R, params
        self.P = [[v] for v in vars_]

    def _interval(self, f, lo, hi):
        """(B,) bounds -> (B,C,R) log mass of [lo, hi]."""
        if self.kind == "Categorical":
            pr = self.params["probs"][f]
            k = np.arange(pr.shape[-1])
            sel = (k[None] >= lo[:, None]) & (k[None] <= hi[:, None])
            return np.log(np.einsum("crk,bk->bcr", pr, sel.astype(float)))
        if self.kind == "Histogram":
            e, pr = self.params["bin_edges"], self.params["probs"][f]
            w = np.clip(np.minimum(hi[:, None], e[None, 1:]) - np.maximum(lo[:, None], e[None, :-1]), 0, None)
            return np.log(np.einsum("crk,bk->bcr", pr / np.diff(e), w))
        p = {k: a[f][None] for k, a in self.params.items()}
        return leaf_interval(self.kind, lo[:, None, None], hi[:, None, None], p)

    def _ll(self, X, memo):
        B = X.shape[0]
        if X.ndim == 3:
            pt = X[:, :, 0] == X[:, :, 1]
            none = np.isnan(X).all(-1)
            out = self._ll(np.where(pt, X[:, :, 0], np.nan), memo)
            for f, v in enumerate(self.vars):
                lo = np.where(np.isnan(X[:, v, 0]), -np.inf, X[:, v, 0])
                hi = np.where(np.isnan(X[:, v, 1]), np.inf, X[:, v, 1])
                use = ~pt[:, v] & ~none[:, v]
                if use.any():
                    out[use, f] = self._interval(f, lo[use], hi[use])
            return out
        out = np.zeros((B, len(self.vars), self.C, self.R))
        for f, v in enumerate(self.vars):
            x = X[:, v][:, None, None]
            miss = np.isnan(x)
            xx = np.where(miss, 0.0, x)
            if self.kind == "Categorical":
                pr = self.params["probs"][f]  # C R K
                K = pr.shape[-1]
                k = xx.astype(int)
                ok = (k >= 0) & (k < K) & (k == xx)
                idx = np.clip(k, 0, K - 1)[:, 0, 0]
                l = np.where(ok, np.log(np.moveaxis(pr[..., idx], -1, 0)), -np.inf)
            elif self.kind == "Histogram":
                edges, pr = self.params["bin_edges"], self.params["probs"][f]
                w = np.diff(edges)
                b = np.clip(np.searchsorted(edges, xx[:, 0, 0], side="right") - 1, 0, len(w) - 1)
                ok = (xx >= edges[0]) & (xx <= edges[-1])
                l = np.where(ok, np.log(np.moveaxis(pr[..., b] / w[b], -1, 0)), -np.inf)
            else:
                p = {k: a[f][None] for k, a in self.params.items()}
                l = leaf_logpdf(self.kind, xx, p)
            out[:, f] = np.where(miss, 0.0, np.broadcast_to(l, (B, self.C, self.R)))
        return out


class RCLTree(Ref):
    """Chow-Liu tree; cpt (F,C,R,K,K): [f,c,r,x,x_parent]; root uses [...,0]. Joint in feature 0, rest 0."""

    def __init__(self, vars_, C, R, K, parents, logcpt):
        self.vars, self.C, self.R, self.K, self.parents, self.logcpt = list(vars_), C, R, K, list(parents), logcpt
        self.P = [[v] for v in vars_]

    def joint(self, x):
        """x: row over self.vars with NaN -> (C,R) by brute-force enumeration."""
        F, K = len(self.vars), self.K
        if x.ndim == 2:
            opts = [[k for k in range(K) if not (k < v[0] or k > v[1])] for v in x]
        else:
            opts = [range(K) if np.isnan(v) else [int(v)] for v in x]
        if not all(len(o) for o in opts):
            return np.full((self.C, self.R), -np.inf)
        terms = []
        for comb in itertools.product(*opts):
            t = np.zeros((self.C, self.R))
            for f in range(F):
                pa = self.parents[f]
                t = t + self.logcpt[f, :, :, comb[f], 0 if pa < 0 else comb[pa]]
            terms.append(t)
        return lse(np.stack(terms), 0)

    def _ll(self, X, memo):
        out = np.zeros((X.shape[0], len(self.vars), self.C, self.R))
        for b in range(X.shape[0]):
            out[b, 0] = self.joint(X[b, self.vars])
        return out


class RCat(Ref):
    def __init__(self, kids, dim):
        self.kids, self.dim = kids, dim
        self.R = kids[0].R
        if dim == 1:
            self.P, self.C = [p for k in kids for p in k.P], kids[0].C
        else:
            self.P, self.C = kids[0].P, sum(k.C for k in kids)

    def _ll(self, X, memo):
        return np.concatenate([k.ll(X, memo) for k in self.kids], axis=self.dim)


class RSum(Ref):
    def __init__(self, kid, w):  # w: F,I,O,R
        self.kid, self.w = kid, w
        self.P, self.C, self.R = kid.P, w.shape[2], w.shape[3]

    def _ll(self, X, memo):
        a = self.kid.ll(X, memo)  # B F I R
        return lse(a[:, :, :, None, :] + np.log(self.w)[None], 2)


class RElemSum(Ref):
    def __init__(self, kids, w):  # w: F, Cin, O, n, R ; out channel = ci*O + o
        self.kids, self.w = kids, w
        self.P, self.C, self.R = kids[0].P, w.shape[1] * w.shape[2], w.shape[4]

    def _ll(self, X, memo):
        F, I, O, n, R = self.w.shape
        ls = [np.broadcast_to(k.ll(X, memo), (X.shape[0], F, I, R)) for k in self.kids]
        a = np.stack(ls, 3)[:, :, :, None] + np.log(self.w)[None]  # B F I O n R
        return lse(a, 4).reshape(X.shape[0], F, I * O, R)


class RProduct(Ref):
    def __init__(self, kid):
        self.kid = kid
        self.P, self.C, self.R = [[v for p in kid.P for v in p]], kid.C, kid.R

    def _ll(self, X, memo):
        return self.kid.ll(X, memo).sum(1, keepdims=True)


class RFact(Ref):
    """Factorize with the same feature groups in every repetition."""

    def __init__(self, kid, groups):
        self.kid, self.groups = kid, groups
        self.P, self.C, self.R = [[v for f in g for v in kid.P[f]] for g in groups], kid.C, kid.R

    def _ll(self, X, memo):
        a = self.kid.ll(X, memo)
        return np.stack([a[:, g].sum(1) for g in self.groups], 1)


def split_groups(F, mode, n, indices=None):
    if mode == "consecutive":
        k = F // n
        return [list(range(i * k, (i + 1) * k)) for i in range(n)]
    if mode == "interleaved":
        return [list(range(i, F, n)) for i in range(n)]
    return [list(g) for g in indices]


class RView(Ref):
    """Selected features of a child (one part of a split)."""

    def __init__(self, kid, feats):
        self.kid, self.feats = kid, list(feats)
        self.P, self.C, self.R = [kid.P[f] for f in feats], kid.C, kid.R

    def _ll(self, X, memo):
        return self.kid.ll(X, memo)[:, self.feats]


class RElemProd(Ref):
    def __init__(self, kids):
        self.kids = kids
        F = max(len(k.P) for k in kids)
        self.P = [[v for k in kids for v in k.P[f if len(k.P) > 1 else 0]] for f in range(F)]
        self.C, self.R = max(k.C for k in kids), kids[0].R

    def _ll(self, X, memo):
        out = 0.0
        for k in self.kids:
            out = out + np.broadcast_to(k.ll(X, memo), (X.shape[0], len(self.P), self.C, self.R))
        return out


class ROuter(Ref):
    def __init__(self, kids):
        self.kids = kids
        self.P = [[v for k in kids for v in k.P[f]] for f in range(len(kids[0].P))]
        self.C, self.R = int(np.prod([k.C for k in kids])), kids[0].R

    def _ll(self, X, memo):
        out = self.kids[0].ll(X, memo)
        for k in self.kids[1:]:
            b = k.ll(X, memo)
            out = (out[:, :, :, None] + b[:, :, None]).reshape(X.shape[0], len(self.P), -1, self.R)
        return out


class REinsum(Ref):
    def __init__(self, left, right, w):  # w: F O R I J
        self.left, self.right, self.w = left, right, w
        self.P = [list(a) + list(b) for a, b in zip(left.P, right.P)]
        self.C, self.R = w.shape[1], w.shape[2]

    def _ll(self, X, memo):
        l, r = self.left.ll(X, memo), self.right.ll(X, memo)  # B F I R
        l = np.moveaxis(l, 3, 2)[:, :, None, :, :, None]  # B F 1 R I 1
        r = np.moveaxis(r, 3, 2)[:, :, None, :, None, :]
        a = l + r + np.log(self.w)[None]
        return lse(a.reshape(*a.shape[:4], -1), 4)


class RLinsum(Ref):
    def __init__(self, left, right, w):  # w: F O R I
        self.left, self.right, self.w = left, right, w
        self.P = [list(a) + list(b) for a, b in zip(left.P, right.P)]
        self.C, self.R = w.shape[1], w.shape[2]

    def _ll(self, X, memo):
        a = self.left.ll(X, memo) + self.right.ll(X, memo)  # B F I R
        a = np.moveaxis(a, 3, 2)[:, :, None]  # B F 1 R I
        return lse(a + np.log(self.w)[None], 4)


class RRepMix(Ref):
    def __init__(self, kid, w):  # w: F C R
        self.kid, self.w = kid, w
        self.P, self.C, self.R = kid.P, kid.C, 1

    def _ll(self, X, memo):
        return lse(self.kid.ll(X, memo) + np.log(self.w)[None], 3)[..., None]


class RSumConv(Ref):
    def __init__(self, kid, w):  # w: O I K K R ; pixel (h, w) mixes with the weights of its kernel position
        self.kid, self.w = kid, w
        self.P, self.C, self.R = kid.P, w.shape[0], w.shape[4]

    def _ll(self, X, memo):
        a = self.kid.ll(X, memo)  # B F I R
        F, K = a.shape[1], self.w.shape[2]
        H = int(round(F ** 0.5))
        out = np.empty((a.shape[0], F, self.C, self.R))
        for f in range(F):
            kh, kw = (f // H % K, f % H % K) if H >= K else (0, 0)
            out[:, f] = lse(a[:, f, None] + np.log(self.w[:, :, kh, kw, :])[None], 2)
        return out


def ref_nodes(r, seen=None):
    """All distinct reference nodes below r."""
    seen = set() if seen is None else seen
    if id(r) in seen:
        return
    seen.add(id(r))
    yield r
    for k in getattr(r, "kids", None) or [getattr(r, a) for a in ("kid", "left", "right") if hasattr(r, a)]:
        yield from ref_nodes(k, seen)


# ----------------------------------------------------------------------------- params


class Par:
    """Parameter source for one case: deterministic numbers derived from the drawn seed."""

    def __init__(self, seed, style):
        self.rng = np.random.default_rng(seed)
        self.style = style

    def simplex(self, shape, axis):
        a = {"mild": 2.0, "flat": 20.0, "spiky": 0.25, "sharp": 2.0}[self.style]
        g = self.rng.gamma(a, 1.0, size=shape) + 1e-4
        return g / g.sum(axis=axis, keepdims=True)

    def unif(self, lo, hi, shape):
        return self.rng.uniform(lo, hi, size=shape)

    def prob(self, shape):
        if self.style == "spiky":
            return np.clip(self.rng.beta(0.4, 0.4, size=shape), 0.01, 0.99)
        if self.style == "sharp":  # outcomes of probability zero
            return np.where(self.rng.random(shape) < 0.6, self.rng.integers(0, 2, shape), self.rng.uniform(0.1, 0.9, size=shape))
        return self.rng.uniform(0.1, 0.9, size=shape)


def leaf_params(kind, F, C, R, K, par: Par):
    s = (F, C, R)
    if kind == "Categorical":
        p = par.simplex((F, C, R, K), 3)
        if par.style == "sharp" and K > 1:
            z = par.rng.random(p.shape) < 0.5
            p = np.where(z & (np.arange(K) != par.rng.integers(0, K, (F, C, R, 1))), 0.0, p)
            p = p / p.sum(-1, keepdims=True)
        return {"probs": p}
    if kind == "Bernoulli":
        return {"probs": par.prob(s)}
    if kind == "Binomial":
        return {"total_count": np.full(s, float(K - 1)), "probs": par.prob(s)}
    if kind == "Hypergeometric":
        n = K - 1
        Kh = int(par.rng.integers(n, n + 4))  # parameters must be identical within one leaf
        N = Kh + int(par.rng.integers(n, n + 4))
        return {"K": np.full(s, float(Kh)), "N": np.full(s, float(N)), "n": np.full(s, float(n))}
    if kind == "Poisson":
        return {"rate": par.unif(0.2, 4.0, s)}
    if kind == "Geometric":
        return {"probs": np.maximum(par.prob(s), 0.02)}
    if kind == "NegativeBinomial":
        return {"total_count": par.rng.integers(1, 5, size=s).astype(float), "probs": par.unif(0.1, 0.7, s)}
    if kind in ("Normal", "Laplace"):
        return {"loc": par.unif(-2, 2, s), "scale": par.unif(0.3, 2.0, s)}
    if kind == "LogNormal":
        return {"loc": par.unif(-1, 1, s), "scale": par.unif(0.3, 1.2, s)}
    if kind == "Exponential":
        return {"rate": par.unif(0.3, 3, s)}
    if kind == "Gamma":
        return {"concentration": par.unif(0.6, 4, s), "rate": par.unif(0.4, 3, s)}
    if kind == "Uniform":
        lo = par.unif(-1.5, 0.0, s)
        return {"low": lo, "high": lo + par.unif(0.5, 2.0, s)}
    if kind == "Histogram":
        nb = int(par.rng.integers(2, 5))
        edges = np.round(np.cumsum(np.concatenate([[-1.5], par.unif(0.25, 1.0, nb)])) * 8) / 8
        for i in range(1, len(edges)):
            if edges[i] <= edges[i - 1]:
                edges[i] = edges[i - 1] + 0.125
        return {"bin_edges": edges, "probs": par.simplex((F, C, R, nb), 3)}
    raise KeyError(kind)


def make_leaf(kind, vars_, C, R, params, K=None):
    """Instantiate the SPFlow leaf with explicit parameters."""
    import torch
    from spflow.modules import leaves as L

    t = lambda a: torch.as_tensor(np.asarray(a), dtype=torch.get_default_dtype())
    kw = {k: t(v) for k, v in params.items()}
    if kind == "Binomial":
        return L.Binomial(scope=list(vars_), out_channels=C, num_repetitions=R, **kw)
    if kind == "Uniform":  # unvalidated: points outside the support have density zero instead of raising
        kw["validate_args"] = False
    if kind == "Histogram":
        from spflow.meta.data.scope import Scope

        return L.Histogram(scope=Scope(list(vars_)), out_channels=C, num_repetitions=R, **kw)
    if kind == "Categorical":
        return L.Categorical(scope=list(vars_), out_channels=C, num_repetitions=R, K=K, **kw)
    return getattr(L, kind)(scope=list(vars_), out_channels=C, num_repetitions=R, **kw)


KINDS = {
    "cat": ["Categorical"],
    "bin": ["Bernoulli", "Categorical", "Binomial"],
    "count": ["Poisson", "Geometric", "NegativeBinomial"],
    "real": ["Normal", "Laplace"],
    "pos": ["Exponential", "Gamma", "LogNormal"],
    "unit": ["Uniform", "Histogram"],
    "hist": ["Histogram"],
}


def kinds_for(vt):
    if vt[0] == "cat":
        return ["Categorical", "Categorical", "Binomial", "Hypergeometric"] + (["Bernoulli"] * 2 if vt[1] == 2 else [])
    return KINDS[vt[0]]


# ----------------------------------------------------------------------------- builder


class Built:
    def __init__(self, module, ref, par, pairs):
        self.module, self.ref, self.par = module, ref, par
        self.pairs = pairs  # (spec node, module, reference) of every built node


def build(case):
    """case: {"spec":..., "seed":int, "style":str}. Returns Built (module, reference)."""
    par = Par(case["seed"], case["style"])
    memo = {"pairs": []}
    m, r = _build(case["spec"], par, memo)
    return Built(m, r, par, memo["pairs"])


def _t(a):
    import torch

    return torch.as_tensor(np.asarray(a), dtype=torch.get_default_dtype())


def _split_mode(s):
    from spflow.modules.ops.split import SplitMode

    if s["mode"] == "consecutive":
        return SplitMode.consecutive(s["n"])
    if s["mode"] == "interleaved":
        return SplitMode.interleaved(s["n"])
    return SplitMode.by_index(s["indices"])


def _build(s, par, memo):
    key = s.get("id")
    if s["t"] == "ref":
        return memo[s["to"]]
    out = _build0(s, par, memo)
    memo["pairs"].append((s, *out))
    if key is not None:
        memo[key] = out
    return out


def _build0(s, par, memo):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops import Cat
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.sums import ElementwiseSum, RepetitionMixingLayer, Sum

    t = s["t"]
    if t == "leaf":
        F = len(s["vars"])
        p = leaf_params(s["kind"], F, s["C"], s["R"], s.get("K"), par)
        return (make_leaf(s["kind"], s["vars"], s["C"], s["R"], p, s.get("K")),
                RLeaf(s["kind"], s["vars"], s["C"], s["R"], p))
    if t == "cltree":
        import torch
        from spflow.modules.leaves import CLTree

        F, K = len(s["vars"]), s["K"]
        cpt = par.simplex((F, s["C"], s["R"], K, K), 3)
        root = s["parents"].index(-1)
        cpt[root] = cpt[root][..., :1]
        m = CLTree(scope=list(s["vars"]), out_channels=s["C"], num_repetitions=s["R"], K=K,
                   parents=torch.tensor(s["parents"]), log_cpt=_t(np.log(cpt)))
        return m, RCLTree(s["vars"], s["C"], s["R"], K, s["parents"], np.log(cpt))
    if t == "cat":
        kids = [_build(k, par, memo) for k in s["kids"]]
        return Cat([k[0] for k in kids], dim=s["dim"]), RCat([k[1] for k in kids], s["dim"])
    if t == "sum":
        kids = [_build(k, par, memo) for k in s["kids"]]
        ref = kids[0][1] if len(kids) == 1 else RCat([k[1] for k in kids], 2)
        w = par.simplex((len(ref.P), ref.C, s["C"], ref.R), 1)
        mods = [k[0] for k in kids]
        if s.get("via") == "setter":
            m = Sum(mods if len(mods) > 1 else mods[0], out_channels=s["C"], num_repetitions=ref.R)
            m.weights = _t(w)
        elif s.get("via") == "logsetter":
            m = Sum(mods if len(mods) > 1 else mods[0], out_channels=s["C"], num_repetitions=ref.R)
            m.log_weights = _t(np.log(w))
        else:
            m = Sum(mods if len(mods) > 1 or s.get("aslist") else mods[0], weights=_t(w))
        return m, RSum(ref, w)
    if t == "elemsum":
        kids = [_build(k, par, memo) for k in s["kids"]]
        cin = max(k[1].C for k in kids)
        w = par.simplex((len(kids[0][1].P), cin, s["O"], len(kids), kids[0][1].R), 3)
        return ElementwiseSum([k[0] for k in kids], weights=_t(w)), RElemSum([k[1] for k in kids], w)
    if t == "product":
        kids = [_build(k, par, memo) for k in s["kids"]]
        ref = kids[0][1] if len(kids) == 1 else RCat([k[1] for k in kids], 1)
        mods = [k[0] for k in kids]
        return Product(mods if len(mods) > 1 else mods[0]), RProduct(ref)
    if t == "fact":
        import torch
        from spflow.modules.rat.factorize import Factorize

        kids = [_build(k, par, memo) for k in s["kids"]]
        ref = kids[0][1] if len(kids) == 1 else RCat([k[1] for k in kids], 1)
        ind = torch.zeros(len(ref.P), len(s["groups"]), ref.R)
        for o, g in enumerate(s["groups"]):
            ind[g, o] = 1
        m = Factorize([k[0] for k in kids], depth=len(s["groups"]).bit_length() - 1, num_repetitions=ref.R, indices=ind)
        return m, RFact(ref, s["groups"])
    if t in ("elemprod", "outer"):
        cls, rcls = (ElementwiseProduct, RElemProd) if t == "elemprod" else (OuterProduct, ROuter)
        kids = [_build(k, par, memo) for k in s["kids"]]
        if "mode" in s:
            m, r = kids[0]
            groups = split_groups(len(r.P), s["mode"], s["n"], s.get("indices"))
            return (cls(m, num_splits=s["n"], split_mode=_split_mode(s)), rcls([RView(r, g) for g in groups]))
        return cls([k[0] for k in kids]), rcls([k[1] for k in kids])
    if t in ("einsum", "linsum"):
        cls, rcls = (EinsumLayer, REinsum) if t == "einsum" else (LinsumLayer, RLinsum)
        kids = [_build(k, par, memo) for k in s["kids"]]
        if "mode" in s:
            m, r = kids[0]
            g = split_groups(len(r.P), s["mode"], 2, s.get("indices"))
            lr, rr = RView(r, g[0]), RView(r, g[1])
            inp, kw = m, {"split_mode": _split_mode(s)}
        else:
            lr, rr = kids[0][1], kids[1][1]
            inp, kw = [kids[0][0], kids[1][0]], {}
        if t == "einsum":
            w = par.simplex((len(lr.P), s["C"], lr.R, lr.C * rr.C), 3).reshape(len(lr.P), s["C"], lr.R, lr.C, rr.C)
        else:
            w = par.simplex((len(lr.P), s["C"], lr.R, lr.C), 3)
        return cls(inp, out_channels=s["C"], weights=_t(w), **kw), rcls(lr, rr, w)
    if t == "repmix":
        m, r = _build(s["kids"][0], par, memo)
        w = par.simplex((len(r.P), r.C, r.R), 2)
        mm = RepetitionMixingLayer(m, out_channels=r.C, num_repetitions=r.R)
        mm.log_weights = _t(np.log(w))
        return mm, RRepMix(r, w)
    raise KeyError(t)


# ----------------------------------------------------------------------------- generator

ALL_NODES = ("cat1", "cat2", "sum", "elemsum", "product", "elemprod", "outer", "einsum", "linsum", "split",
             "repmix", "cltree", "fact", "share")


class Gen:
    def __init__(self, draw, vtypes, nodes, maxdepth, maxC):
        self.draw, self.vt, self.nodes, self.maxdepth, self.maxC = draw, vtypes, set(nodes), maxdepth, maxC
        self.counter = 0
        self.pool = {}
        self.size = 0
        self.nosplit = 0
        self.kinds = None  # leaf families allowed (None: all)
        # node kinds preferred in this case: keeps rare layers from being crowded out by sums and products
        self.focus = draw(st.lists(st.sampled_from(sorted(self.nodes - {"share", "split"}) or ["sum"]), max_size=3))

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    # -- leaves
    def leaves(self, vars_, C, R):
        """Leaf modules over vars_ (in order); consecutive same-type vars may share one module."""
        groups = []
        for v in vars_:
            if groups and self.vt[groups[-1][-1]] == self.vt[v] and self.draw(st.booleans()):
                groups[-1].append(v)
            else:
                groups.append([v])
        out = []
        for g in groups:
            vt = self.vt[g[0]]
            ks = [k for k in kinds_for(vt) if self.kinds is None or k in self.kinds]
            kind = self.pick(ks or kinds_for(vt))
            if kind == "Histogram":  # univariate leaf
                out.extend({"t": "leaf", "kind": kind, "vars": [v], "C": C, "R": R} for v in g)
                continue
            s = {"t": "leaf", "kind": kind, "vars": list(g), "C": C, "R": R}
            if vt[0] == "cat":
                s["K"] = vt[1]
            out.append(s)
        return out[0] if len(out) == 1 else {"t": "cat", "dim": 1, "kids": out}

    def bottom(self, P, C, R):
        if all(len(b) == 1 for b in P):
            return self.leaves([b[0] for b in P], C, R)
        parts = []
        for b in P:
            if len(b) == 1:
                parts.append(self.leaves(b, C, R))
            else:
                parts.append({"t": "product", "kids": [self.leaves(b, C, R)]})
        return parts[0] if len(parts) == 1 else {"t": "cat", "dim": 1, "kids": parts}

    def parts_of(self, b, k):
        """Split block b into k non-empty ordered parts."""
        b = list(b)
        if self.draw(st.booleans()):
            b = self.draw(st.permutations(b))
        cuts = sorted(self.draw(st.lists(st.integers(1, len(b) - 1), min_size=k - 1, max_size=k - 1, unique=True)))
        cuts = [0] + cuts + [len(b)]
        return [list(b[cuts[i]:cuts[i + 1]]) for i in range(k)]

    def partition(self, b):
        k = min(self.i(1, len(b)), self.i(1, len(b)))
        return self.parts_of(b, k) if k > 1 else [list(b)]

    def gen(self, P, C, R, depth, rm=False, force=None):
        """force: layer kind to use here if possible. rm: a RepetitionMixingLayer may appear here (its declared shape keeps the input repetitions,
        so it only composes as a root or directly below a single-input Sum)."""
        self.size += 1
        if force is not None:
            return self._gen(P, C, R, depth, rm, force)
        if "share" in self.nodes:
            key = repr((P, C, R, rm, self.nosplit > 0))
            if self.pool.get(key) and self.i(0, 3) == 0:
                return {"t": "ref", "to": self.pick(self.pool[key])}
        s = self._gen(P, C, R, depth, rm)
        if "share" in self.nodes and s["t"] != "ref":
            if "id" not in s:
                s["id"] = self.counter
                self.counter += 1
            self.pool.setdefault(repr((P, C, R, rm, self.nosplit > 0)), []).append(s["id"])
        return s

    def _gen(self, P, C, R, depth, rm, force=None):
        if depth <= 0 or self.size > 14:
            return self.bottom(P, C, R)
        opts = []
        N = self.nodes
        if "sum" in N:
            opts += ["sum"] * 2
        if "elemsum" in N:
            opts.append("elemsum")
        if "cat1" in N and len(P) > 1:
            opts.append("cat1")
        if "cat2" in N and C > 1:
            opts.append("cat2")
        if len(P) == 1 and len(P[0]) > 1 and "product" in N:
            opts += ["product"]
        if "fact" in N and len(P) in (1, 2, 4) and any(len(b) > 1 for b in P):
            opts.append("fact")
        if all(len(b) >= 2 for b in P):
            for k in ("elemprod", "outer", "einsum", "linsum"):
                if k in N and not (k == "outer" and self.nosplit and len(P) > 1):
                    opts += [k] * 2
        if R == 1 and rm and "repmix" in N:
            opts += ["repmix"] * 2
        if "cltree" in N and len(P) == 1 and len(P[0]) > 1:
            ts = {repr(self.vt[v]) for v in P[0]}
            if len(ts) == 1 and self.vt[P[0][0]][0] == "cat":
                opts.append("cltree")
        if not opts:
            return self.bottom(P, C, R)
        pref = [o for o in opts if o in self.focus]
        o = self.pick(pref) if pref and self.i(0, 2) else self.pick(opts)
        if force in opts:
            o = force
        d = depth - 1
        if o == "cat1":
            c = self.i(1, len(P) - 1)
            return {"t": "cat", "dim": 1, "kids": [self.gen(P[:c], C, R, d), self.gen(P[c:], C, R, d)]}
        if o == "cat2":
            c = self.i(1, C - 1)
            return {"t": "cat", "dim": 2, "kids": [self.gen(P, c, R, d), self.gen(P, C - c, R, d)]}
        if o == "sum":
            n = self.i(1, 3)
            kids = [self.gen(P, self.i(1, self.maxC), R, d, rm=rm and n == 1) for _ in range(n)]
            return {"t": "sum", "C": C, "kids": kids, "via": self.pick(["init", "init", "setter", "logsetter"]),
                    "aslist": self.draw(st.booleans())}
        if o == "elemsum":
            # ElementwiseSum requires its inputs to report equal feature_to_scope maps, which the split/outer
            # layers misreport for several features (recorded finding of C10): avoid them below.
            self.nosplit += 1
            divs = [k for k in range(1, C + 1) if C % k == 0]
            O = self.pick(divs)
            n = self.i(2, 3)
            cin = C // O
            cs = [cin] + [self.pick([cin, 1]) for _ in range(n - 1)]
            kids = [self.gen(P, c, R, d) for c in cs]
            self.nosplit -= 1
            return {"t": "elemsum", "O": O, "kids": kids}
        if o == "product":
            if self.draw(st.booleans()):
                return {"t": "product", "kids": [self.gen(self.partition(P[0]), C, R, d)]}
            k = self.i(2, len(P[0]))
            parts = self.parts_of(P[0], k)
            return {"t": "product", "kids": [self.gen(self.partition(p), C, R, d) for p in parts]}
        if o == "fact":
            parts = [(gi, q) for gi, b in enumerate(P) for q in self.partition(b)]
            parts = list(self.draw(st.permutations(parts)))
            groups = [[i for i, (h, _) in enumerate(parts) if h == gi] for gi in range(len(P))]
            Q = [q for _, q in parts]
            cut = self.i(0, len(Q) - 1)
            kids = [self.gen(q, C, R, d) for q in (Q[:cut], Q[cut:]) if q]
            return {"t": "fact", "groups": groups, "kids": kids}
        if o in ("elemprod", "outer", "einsum", "linsum"):
            n = 2
            if o in ("elemprod", "outer") and all(len(b) >= 3 for b in P) and self.draw(st.booleans()):
                n = 3
            cols = [self.parts_of(b, n) for b in P]  # per feature: n parts
            if "split" in N and not (self.nosplit and len(P) > 1) and self.draw(st.booleans()):
                modes = ["consecutive", "interleaved"]
                if o in ("einsum", "linsum"):
                    modes.append("by_index")
                mode = self.pick(modes)
                F = len(P) * n
                s = {"t": o, "mode": mode, "n": n}
                if mode == "by_index":
                    perm = self.draw(st.permutations(list(range(F))))
                    s["indices"] = [list(perm[i * len(P):(i + 1) * len(P)]) for i in range(n)]
                Q = [None] * F
                for gi, g in enumerate(split_groups(F, mode, n, s.get("indices"))):
                    for fi, pos in enumerate(g):
                        Q[pos] = cols[fi][gi]
                if o == "outer":
                    root = round(C ** (1 / n))
                    if root ** n == C:
                        cin = root
                    else:
                        cin = self.pick([1, 2, 2])  # the channel count must be a power: mix the outer product down to C
                        s["kids"] = [self.gen(Q, cin, R, d)]
                        return {"t": "sum", "C": C, "kids": [s], "via": "init"}
                elif o == "elemprod":
                    cin = C
                else:
                    cin = self.i(1, self.maxC)
                    s["C"] = C
                s["kids"] = [self.gen(Q, cin, R, d)]
                return s
            Qs = [[cols[f][g] for f in range(len(P))] for g in range(n)]
            if o == "elemprod":
                cs = [C] + [self.pick([C, C, 1]) for _ in range(n - 1)]
                return {"t": o, "kids": [self.gen(q, c, R, d) for q, c in zip(Qs, cs)]}
            if o == "outer":
                cs, rem = [], C
                for g in range(n - 1):
                    c = self.pick([k for k in range(1, rem + 1) if rem % k == 0])
                    cs.append(c)
                    rem //= c
                cs.append(rem)
                return {"t": o, "kids": [self.gen(q, c, R, d) for q, c in zip(Qs, cs)]}
            if o == "einsum":
                cs = [self.i(1, self.maxC), self.i(1, self.maxC)]
            else:
                cs = [self.i(1, self.maxC)] * 2
            return {"t": o, "C": C, "kids": [self.gen(q, c, R, d) for q, c in zip(Qs, cs)]}
        if o == "repmix":
            return {"t": "repmix", "kids": [self.gen(P, C, self.i(2, 3), d)]}
        if o == "cltree":
            vs = list(P[0])
            parents = [-1] + [self.i(0, k - 1) for k in range(1, len(vs))]
            perm = self.draw(st.permutations(list(range(len(vs)))))
            inv = {p: i for i, p in enumerate(perm)}
            par = [-1] * len(vs)
            for a, pa in enumerate(parents):
                par[perm[a]] = -1 if pa < 0 else perm[pa]
            del inv
            K = self.vt[vs[0]][1]
            return {"t": "product", "kids": [{"t": "cltree", "vars": vs, "C": C, "R": R, "K": K, "parents": par}]}
        raise AssertionError(o)


def spec_nodes(s):
    yield s
    for k in s.get("kids", []):
        yield from spec_nodes(k)


def spec_tags(s):
    return sorted({(n["t"] + (":" + n["mode"] if "mode" in n else "")) if n["t"] != "leaf" else "leaf:" + n["kind"]
                   for n in spec_nodes(s)})


@st.composite
def vtypes(draw, n, families, maxstates=None):
    out = []
    for _ in range(n):
        f = draw(st.sampled_from(families))
        out.append(["cat", draw(st.sampled_from([2, 2, 3, 4]))] if f == "cat" else [f])
    if draw(st.booleans()):
        out = [out[0]] * n
    if maxstates:
        while math.prod(v[1] for v in out if v[0] == "cat") > maxstates:
            i = max((i for i in range(n) if out[i][0] == "cat"), key=lambda i: out[i][1])
            out[i] = ["cat", 2] if out[i][1] > 2 else out[i]
            if all(v[1] == 2 for v in out if v[0] == "cat"):
                break
    return out


@st.composite
def circuit(draw, families=("cat",), nodes=ALL_NODES, min_vars=1, max_vars=4, maxdepth=3, maxC=3,
            root="single", reps=(1,), exclude=(), maxstates=None, kinds=None):
    """JSON case describing a circuit. root: 'single' (F=1,C=1), 'chan' (F=1, any C), 'any' (any F,C)."""
    n = draw(st.sampled_from([k for k in range(min_vars, max_vars + 1) for _ in range(k)]))
    vt = draw(vtypes(n, list(families), maxstates))
    R = draw(st.sampled_from(list(reps)))
    g = Gen(draw, vt, [k for k in nodes if k not in exclude], maxdepth, maxC)
    g.kinds = kinds
    vars_ = list(range(n))
    C = 1 if root == "single" else draw(st.sampled_from([*range(1, maxC + 1), *([4] if maxC == 3 else [])]))
    if root == "any":
        P = g.partition(vars_)
    else:
        P = [draw(st.permutations(vars_))]
    spec = g.gen([list(b) for b in P], C, R, draw(st.integers(1, maxdepth)), rm=True)
    return {"n": n, "vt": vt, "spec": spec, "seed": draw(st.integers(0, 2**31 - 1)),
            "style": draw(st.sampled_from(["mild", "flat", "spiky"])),
            "f64": draw(st.sampled_from([True, True, True, False]))}


@st.composite
def routed_circuit(draw, families=("cat",), maxC=3, reps=(1,), maxstates=None, exclude=()):
    """A product over a multi-feature mixture of layers: different features of one row take different inputs."""
    F = draw(st.integers(2, 3))
    k = draw(st.integers(2, 3)) if F == 2 else 2
    n = F * k
    vt = draw(vtypes(n, list(families), maxstates))
    R = draw(st.sampled_from(list(reps)))
    g = Gen(draw, vt, [x for x in ALL_NODES if x not in exclude], 3, maxC)
    order = draw(st.permutations(list(range(n))))
    P = [list(order[i * k:(i + 1) * k]) for i in range(F)]
    kinds = [x for x in ("elemprod", "outer", "einsum", "linsum", "elemsum", "cat1") if x not in exclude]
    m = draw(st.integers(2, 3))
    kids = [g.gen(P, draw(st.sampled_from([1, 2, 3, 4][:maxC + 1])), R, draw(st.integers(1, 2)), force=draw(st.sampled_from(kinds))) for _ in range(m)]
    mid = {"t": "sum", "C": 1, "kids": kids, "via": "init", "aslist": False}
    return {"n": n, "vt": vt, "spec": {"t": "product", "kids": [mid]}, "seed": draw(st.integers(0, 2**31 - 1)),
            "style": draw(st.sampled_from(["mild", "flat", "spiky"])), "f64": draw(st.sampled_from([True, True, True, False]))}


LAYERS = ("cat1", "cat2", "sum", "elemsum", "product", "elemprod", "outer", "outer", "einsum", "einsum", "linsum", "linsum", "repmix", "cltree", "fact", "fact")


@st.composite
def layer_circuit(draw, families=("cat",), reps=(1, 2, 3), maxstates=64, kinds=None, exclude=(), maxF=2):
    """One chosen layer kind (rarely two deep) with several features, channels and repetitions: layers are exercised one by one."""
    t = draw(st.sampled_from([k for k in LAYERS if k not in exclude]))
    pair = t in ("elemprod", "outer", "einsum", "linsum")
    F = {"product": 1, "cltree": 1, "repmix": 1, "cat1": 2, "fact": 2}.get(t) or draw(st.sampled_from([1, 1, maxF] if pair else [1, maxF]))
    k = 2 if F > 1 else draw(st.sampled_from([3, 4, 4] if pair else [2, 3]))
    n = F * k
    if t == "cltree":
        vt = [["cat", draw(st.integers(2, 3))]] * n
    else:
        vt = draw(vtypes(n, list(families), maxstates))
    R = 1 if t == "repmix" else draw(st.sampled_from(list(reps)))
    C = draw(st.sampled_from([2, 3] if t == "cat2" else [1, 4, 4] if t == "outer" else [1, 2, 3]))
    g = Gen(draw, vt, [x for x in ALL_NODES if x not in exclude and x != "share"], 2, 3)
    g.kinds = kinds
    order = draw(st.permutations(list(range(n))))
    P = [list(order[i * k:(i + 1) * k]) for i in range(F)]
    spec = g.gen(P, C, R, draw(st.sampled_from([1, 1, 2])), rm=True, force=t)
    return {"n": n, "vt": vt, "spec": spec, "seed": draw(st.integers(0, 2**31 - 1)),
            "style": draw(st.sampled_from(["mild", "spiky", "spiky"])), "f64": draw(st.sampled_from([True, True, True, False]))}


@st.composite
def wide_circuit(draw, kinds=("Categorical", "Normal"), types=("einsum", "einsum", "linsum", "outer", "sum"), reps=(1, 2), Cs=(1, 2, 5, 15, 16, 40),
                 chans=(1, 3, 8, 15, 16, 17, 20, 33), K=3, single=False):
    """Tensorized layers over many channels (the contraction schedule depends on the channel counts)."""
    t = draw(st.sampled_from(list(types)))
    F = draw(st.integers(1, 2))
    R = draw(st.sampled_from(list(reps)))
    ch = st.sampled_from(list(chans))
    ci, cj = draw(ch), draw(ch)
    if t == "linsum":
        cj = ci
    kind = draw(st.sampled_from(list(kinds)))
    vt = ["cat", K] if kind == "Categorical" else ["real"]
    split = t == "einsum" and draw(st.booleans())

    def leaf(vs, c):
        s = {"t": "leaf", "kind": kind, "vars": vs, "C": c, "R": R}
        return {**s, "K": K} if kind == "Categorical" else s

    C = draw(st.sampled_from(list(Cs)))
    if split:
        spec = {"t": t, "C": C, "mode": draw(st.sampled_from(["consecutive", "interleaved"])), "n": 2,
                "kids": [leaf(list(range(2 * F)), ci)]}
    elif t == "sum":
        spec = {"t": t, "C": C, "kids": [leaf(list(range(F)), ci)], "via": "init", "aslist": False}
    elif t == "outer":
        spec = {"t": t, "kids": [leaf(list(range(F)), ci), leaf(list(range(F, 2 * F)), cj)]}
    else:
        spec = {"t": t, "C": C, "kids": [leaf(list(range(F)), ci), leaf(list(range(F, 2 * F)), cj)]}
    n = F if t == "sum" else 2 * F
    if single:
        spec = {"t": "sum", "C": 1, "kids": [{"t": "product", "kids": [spec]}], "via": "init", "aslist": False}
    return {"n": n, "vt": [vt] * n, "spec": spec, "seed": draw(st.integers(0, 2**31 - 1)),
            "style": draw(st.sampled_from(["mild", "spiky"])), "f64": draw(st.sampled_from([True, True, False]))}


def wide_pairs(spec):
    """(kind, number of channel pairs) of the wide layer of a wide_circuit."""
    while spec["t"] == "product" or (spec["t"] == "sum" and spec["kids"][0]["t"] != "leaf"):
        spec = spec["kids"][0]
    k = spec["kids"]
    return spec["t"], k[0]["C"] * k[1]["C"] if len(k) > 1 else k[0]["C"] ** 2, spec.get("C", 0)


# ----------------------------------------------------------------------------- data


def value_strategy(vt, extreme=False):
    if extreme and vt[0] in ("real", "pos", "count"):
        far = {"real": [-2000, -300, -40, 40, 300, 2000], "pos": [0.001, 40, 300, 2000], "count": [30, 90, 250]}[vt[0]]
        return st.one_of(value_strategy(vt), st.sampled_from([float(v) for v in far]))
    if vt[0] == "cat":
        return st.integers(0, vt[1] - 1).map(float)
    if vt[0] == "count":
        return st.integers(0, 8).map(float)
    if vt[0] == "real":
        return st.integers(-64, 64).map(lambda i: i / 16)
    if vt[0] == "pos":
        return st.integers(1, 80).map(lambda i: i / 16)
    if vt[0] in ("unit", "hist"):
        return st.integers(-26, 30).map(lambda i: i / 16 + 1 / 64)
    raise KeyError(vt)


@st.composite
def rows(draw, vt, min_rows=1, max_rows=4, missing=True, extreme=False):
    """extreme: rows may contain values so far out that densities underflow unless handled in log space."""
    B = draw(st.integers(min_rows, max_rows))
    extreme = extreme and draw(st.booleans())
    mode = draw(st.sampled_from(["none", "some", "some", "all1"])) if missing else "none"
    out = []
    for b in range(B):
        row = [draw(value_strategy(v, extreme)) for v in vt]
        if mode == "some":
            m = draw(st.lists(st.booleans(), min_size=len(vt), max_size=len(vt)))
            row = [None if k else x for k, x in zip(m, row)]
        elif mode == "all1" and b == 0:
            row = [None] * len(vt)
        out.append(row)
    return out


def to_np(rows_):
    return np.array([[math.nan if x is None else x for x in r] for r in rows_], dtype=np.float64)


def to_torch(X):
    import torch

    return torch.tensor(np.asarray(X), dtype=torch.get_default_dtype())


def set_dtype(case):
    import torch

    torch.set_default_dtype(torch.float64 if case.get("f64", True) else torch.float32)


def tol(case):
    """Tolerance for log-likelihood comparisons at the case's precision."""
    return {"rtol": 1e-8, "atol": 1e-7} if case.get("f64", True) else {"rtol": 2e-4, "atol": 2e-4}


def all_states(vt):
    return np.array(list(itertools.product(*[range(v[1]) for v in vt])), dtype=np.float64)


def num_states(vt):
    return int(np.prod([v[1] for v in vt]))


__all__ = [n for n in dir() if not n.startswith("_")]
del special
