"""Leaf cases: one leaf module of any family, with parameters over wide ranges, plus reference densities."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc

FAMILIES = ["Normal", "Laplace", "LogNormal", "Gamma", "Exponential", "Uniform", "Histogram", "Bernoulli", "Categorical",
            "Binomial", "Poisson", "Geometric", "NegativeBinomial", "Hypergeometric"]
LOGIT = {"Bernoulli", "Binomial", "Geometric", "NegativeBinomial", "Categorical", "Histogram"}
DISCRETE = {"Bernoulli", "Categorical", "Binomial", "Poisson", "Geometric", "NegativeBinomial", "Hypergeometric"}


@st.composite
def leaf_case(draw, families=tuple(FAMILIES), maxF=4, maxC=3, maxR=3, wide=True, f32=True):
    kind = draw(st.sampled_from(list(families)))
    F = 1 if kind == "Histogram" else draw(st.integers(1, maxF))
    D = F + draw(st.integers(0, 2))
    scope = draw(st.permutations(range(D)))[:F]
    return {
        "kind": kind, "F": F, "C": draw(st.integers(1, maxC)), "R": draw(st.integers(1, maxR)), "D": D,
        "K": draw(st.sampled_from([1, 2, 2, 3, 5])), "scope": list(scope), "seed": draw(st.integers(0, 2**31 - 1)),
        "style": draw(st.sampled_from(["mild", "mild", "wide"])) if wide else "mild",
        "f64": draw(st.sampled_from([True, True, False])) if f32 else True,
        "form": draw(st.sampled_from(["probs", "logits"])) if kind in LOGIT else "plain",
        "via": draw(st.sampled_from(["ctor", "setter"])), "degen": wide and draw(st.integers(0, 7)) == 0,
    }


def params(case):
    """float64 parameters (values exactly representable in the case's precision)."""
    kind, F, C, R, K = (case[k] for k in "kind F C R K".split())
    rng = np.random.default_rng(case["seed"])
    s = (F, C, R)
    wide = case["style"] == "wide" and case["f64"]
    lu = lambda a, b: np.exp(rng.uniform(np.log(a), np.log(b), s))
    prob = lambda: (1 / (1 + np.exp(-rng.uniform(-9, 9, s)))) if wide else rng.uniform(0.05, 0.95, s)
    simplex = lambda k: (lambda g: g / g.sum(-1, keepdims=True))(rng.gamma(0.2 if wide else 2.0, 1.0, (F, C, R, k)) + 1e-6)
    if kind in ("Normal", "Laplace"):
        p = {"loc": rng.normal(0, 100 if wide else 2, s), "scale": lu(1e-3, 1e3) if wide else lu(0.2, 3)}
    elif kind == "LogNormal":
        p = {"loc": rng.normal(0, 3 if wide else 0.7, s), "scale": lu(0.02, 4) if wide else lu(0.3, 1.2)}
    elif kind == "Gamma":
        p = {"concentration": lu(0.05, 80) if wide else lu(0.6, 5), "rate": lu(1e-2, 1e2) if wide else lu(0.3, 3)}
    elif kind == "Exponential":
        p = {"rate": lu(1e-3, 1e3) if wide else lu(0.3, 3)}
    elif kind == "Uniform":
        lo = rng.normal(0, 50 if wide else 1, s)
        p = {"low": lo, "high": lo + (lu(1e-2, 1e3) if wide else lu(0.5, 3))}
    elif kind == "Histogram":
        nb = int(rng.integers(1, 6))
        w = np.round(np.exp(rng.uniform(-2, 1.5, nb)) * 16 + 1) / 16
        e = np.concatenate([[0.0], np.cumsum(w)]) - float(rng.integers(0, 40)) / 8
        p = {"bin_edges": e, "probs": simplex(nb)}
    elif kind in ("Bernoulli", "Geometric"):
        p = {"probs": prob()}
        if kind == "Geometric":
            p["probs"] = np.clip(p["probs"], 0.01, 1)
    elif kind == "Categorical":
        p = {"probs": simplex(K)}
    elif kind == "Binomial":
        p = {"total_count": rng.integers(0 if wide else 1, 60 if wide else 8, s).astype(float), "probs": prob()}
    elif kind == "NegativeBinomial":
        p = {"total_count": rng.integers(1, 30 if wide else 5, s).astype(float), "probs": np.minimum(prob(), 0.97)}
    elif kind == "Poisson":
        p = {"rate": lu(1e-3, 200) if wide else lu(0.2, 6)}
    elif kind == "Hypergeometric":  # identical over the features of a leaf, free over channels and repetitions
        N = rng.integers(1, 30 if wide else 10, (1, C, R))
        Kh = rng.integers(0, N + 1)
        n = rng.integers(0, N + 1)
        p = {k: np.broadcast_to(v, s).astype(float).copy() for k, v in (("K", Kh), ("N", N), ("n", n))}
    else:
        raise KeyError(kind)
    if case.get("degen") and case["form"] == "probs" and kind in LOGIT - {"Histogram"}:  # certain outcomes
        sel = rng.random(s) < 0.5
        if kind == "Categorical":
            one = np.eye(K)[rng.integers(0, K, s)]
            p["probs"] = np.where(sel[..., None], one, p["probs"])
        else:
            sure = {"Geometric": 1.0, "NegativeBinomial": 0.0}.get(kind, (rng.random(s) < 0.5).astype(float))
            p["probs"] = np.where(sel, sure, p["probs"])
    dt = np.float64 if case["f64"] else np.float32
    return {k: np.asarray(v, dt).astype(np.float64) for k, v in p.items()}


def logit(p):
    return np.log(p) - np.log1p(-p)


def build(case, p, validate=True):
    """The SPFlow leaf holding the parameters p."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    kind, C, R = case["kind"], case["C"], case["R"]
    t = lambda a: torch.as_tensor(np.asarray(a), dtype=torch.get_default_dtype())
    q = dict(p)
    if case["form"] == "logits":
        pr = q.pop("probs")
        q["logits"] = np.log(pr) + 0.7 if kind in ("Categorical", "Histogram") else logit(pr)
    fixed = {k: t(q[k]) for k in ("bin_edges", "total_count", "K", "N", "n", "low", "high") if k in q}
    free = {k: t(v) for k, v in q.items() if k not in fixed}
    kw = dict(scope=Scope(case["scope"]), out_channels=C, num_repetitions=R, validate_args=validate)
    if kind == "Categorical":
        kw["K"] = case["K"]
    cls = getattr(L, kind)
    if case["via"] == "ctor" or not free:
        return cls(**kw, **fixed, **free)
    m = cls(**kw, **fixed)
    for k, v in free.items():
        if k == "loc":
            m.loc.data = v
        else:
            setattr(m, k, v)
    return m


def reference(case, p):
    return cc.RLeaf(case["kind"], case["scope"], case["C"], case["R"], p)


def points(case, p, n, rng, tails=True):
    """n rows over D columns with points of the support (of every channel and repetition) in the scope columns."""
    kind, F = case["kind"], case["F"]
    X = rng.normal(size=(n, case["D"]))
    for f, v in enumerate(case["scope"]):
        if kind == "Categorical":
            X[:, v] = rng.integers(0, case["K"], n)
        elif kind == "Histogram":
            e = p["bin_edges"]
            x = rng.uniform(e[0], e[-1], n)
            on = rng.random(n) < 0.3
            X[:, v] = np.where(on, e[rng.integers(0, len(e) - 1, n)], np.minimum(x, e[-1] - (e[-1] - e[-2]) * 1e-3))
        elif kind == "Uniform":
            lo, hi = p["low"][f].max(), p["high"][f].min()
            if lo < hi:
                X[:, v] = lo + (hi - lo) * rng.uniform(0, 0.999, n)
            else:
                X[:, v] = np.nan
        elif kind == "Bernoulli":
            X[:, v] = rng.integers(0, 2, n)
        elif kind == "Binomial":
            X[:, v] = rng.integers(0, int(p["total_count"][f].min()) + 1, n)
        elif kind == "Hypergeometric":
            lo = np.maximum(0, p["n"][f] + p["K"][f] - p["N"][f]).max()
            hi = np.minimum(p["n"][f], p["K"][f]).min()
            X[:, v] = rng.integers(int(lo), int(hi) + 1, n) if lo <= hi else np.nan
        else:
            c, r = rng.integers(0, case["C"]), rng.integers(0, case["R"])
            d = cc.frozen(kind, {k: a[f, c, r] for k, a in p.items()})
            u = rng.random(n)
            if tails:
                u = np.where(rng.random(n) < 0.3, rng.choice([1e-9, 1e-4, 1 - 1e-4, 1 - 1e-9], n), u)
            x = d.ppf(u)
            if kind in DISCRETE:
                x = np.maximum(x, 0.0)
            if kind in ("Exponential", "Gamma", "LogNormal"):
                x = np.clip(x, 1e-6, 1e8)  # keep clear of the boundary of an open support
            X[:, v] = x
    if not case["f64"]:
        X = X.astype(np.float32).astype(np.float64)
    return X


