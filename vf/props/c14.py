"""C14: leaf estimation maximizes the weighted likelihood."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import leafgen as lg
from vf.core import Facet, Prop, close, raises, require

EXACT = ("Normal", "Laplace", "LogNormal", "Exponential", "Bernoulli", "Binomial", "Geometric", "NegativeBinomial", "Poisson",
         "Categorical", "Histogram")
FIT = EXACT + ("Gamma",)


@st.composite
def fit_case(draw, kinds=EXACT):
    c = draw(lg.leaf_case(families=kinds, f32=False))
    c["degen"] = False
    c["style"] = "mild"
    c["N"] = draw(st.sampled_from([1, 2, 3, 5, 8, 20, 60]))
    c["weights"] = draw(st.sampled_from(["none", "ones", "random", "sparse", "onehot"]))
    c["data"] = draw(st.sampled_from(["model", "model", "ties", "const"]))
    c["nan"] = draw(st.sampled_from([0, 0, 0.2]))
    c["dseed"] = draw(st.integers(0, 2**31 - 1))
    return c


def make(case):
    """(leaf, data rows, weights or None, row filter); the leaf starts from unrelated parameters."""
    rng = np.random.default_rng(case["dseed"])
    p = lg.params(case)
    m = lg.build(case, p)
    N, F = case["N"], case["F"]
    X = lg.points(case, p, N, rng, tails=False)
    X[:, case["scope"]] = np.where(np.isnan(X[:, case["scope"]]), 0.0, X[:, case["scope"]])
    disc = case["kind"] in lg.DISCRETE
    if case["kind"] == "Histogram":
        e = p["bin_edges"]
        X[:, case["scope"]] = np.clip(X[:, case["scope"]], e[0], np.nextafter(e[-1], e[0]))
    if case["data"] == "ties" and not disc and case["kind"] != "Histogram":
        X = np.round(X * 2) / 2 + (0.5 if case["kind"] in ("LogNormal", "Gamma", "Exponential") else 0.0)
    elif case["data"] == "const":
        X[:] = X[0]
    shape = (N, F, case["C"], case["R"])
    k = case["weights"]
    if k in ("none", "ones"):
        W = np.ones(shape)
    else:
        W = rng.gamma(0.7, 1.0, shape) * 10.0 ** rng.integers(-3, 3, (1,) + shape[1:])
        if k == "sparse":
            W = W * (rng.random(shape) < 0.5)
        elif k == "onehot":
            W = W * (rng.integers(0, N, (1,) + shape[1:]) == np.arange(N)[:, None, None, None])
    keep = np.ones(N, bool)
    if case["nan"]:
        miss = rng.random((N, F)) < case["nan"]
        miss[int(rng.integers(0, N))] = False
        for f, v in enumerate(case["scope"]):
            X[miss[:, f], v] = np.nan
        keep = ~miss.any(1)
    Wk = W[keep]
    W[keep] += np.where(Wk.sum(0) == 0, 1.0, 0.0)  # every channel has some observation
    return m, p, X, W, keep


def fit(m, case, X, W, bias, rec=None):
    import torch

    T = cc.to_torch(X)
    w = None if case["weights"] == "none" else cc.to_torch(W)
    t0, w0 = T.clone(), None if w is None else w.clone()
    kw = {"nan_strategy": "ignore"} if case["nan"] else {}
    m.maximum_likelihood_estimation(T, weights=w, bias_correction=bias, **kw)
    require(torch.equal(torch.nan_to_num(T, nan=-7.0), torch.nan_to_num(t0, nan=-7.0)), "the data was modified")
    require(w is None or torch.equal(w, w0), "the weights were modified")


PARAMS = {"Normal": ("loc", "scale"), "Laplace": ("loc", "scale"), "LogNormal": ("loc", "scale"), "Exponential": ("rate",),
          "Gamma": ("concentration", "rate"), "Poisson": ("rate",), "Bernoulli": ("probs",), "Binomial": ("probs",),
          "Geometric": ("probs",), "NegativeBinomial": ("probs",), "Categorical": ("probs",), "Histogram": ("probs",)}
POSITIVE = {"scale", "rate", "concentration"}


def stored(m, case):
    out = {}
    for k in PARAMS[case["kind"]]:
        v = getattr(m, k).detach().double().numpy()
        s = (case["F"], case["C"], case["R"])
        require(v.shape[:3] == s, f"{case['kind']}.{k}: shape {v.shape} after fitting, expected {s}...")
        require(np.isfinite(v).all(), f"{case['kind']}.{k} is not finite after fitting: {v}")
        if k in POSITIVE:
            require((v > 0).all(), f"{case['kind']}.{k} is not positive after fitting: {v}")
        if k == "probs":
            require((v >= 0).all() and (v <= 1 + 1e-9).all(), f"{case['kind']}.probs outside of [0,1] after fitting")
            if case["kind"] in ("Categorical", "Histogram"):
                close(v.sum(-1), np.ones(s), "probabilities sum to one", rtol=0, atol=1e-6)
        out[k] = v
    return out


def wll(case, p, q, X, W):
    """Weighted log-likelihood per (feature, channel, repetition) in float64."""
    full = dict(p)
    full.update(q)
    with np.errstate(all="ignore"):
        l = lg.reference(case, full).ll(X)
        return np.where(W > 0, W * l, 0.0).sum(0)


def wquant(x, w):
    o = np.argsort(x, kind="stable")
    c = np.cumsum(w[o])
    return x[o][np.searchsorted(c, c[-1] / 2 * (1 - 1e-12))]


def optimum(case, p, x, w, f, c, r):
    """The maximum likelihood parameters, from the textbook."""
    k, n = case["kind"], w.sum()
    if k in ("Normal", "LogNormal"):
        y = x if k == "Normal" else np.log(x)
        mu = (w * y).sum() / n
        return {"loc": mu, "scale": np.sqrt((w * (y - mu) ** 2).sum() / n)}
    if k == "Laplace":
        mu = wquant(x, w)
        return {"loc": mu, "scale": (w * np.abs(x - mu)).sum() / n}
    if k == "Exponential":
        return {"rate": n / (w * x).sum()}
    if k == "Poisson":
        return {"rate": (w * x).sum() / n}
    if k == "Bernoulli":
        return {"probs": (w * x).sum() / n}
    if k == "Binomial":
        t = p["total_count"][f, c, r]
        return {"probs": (w * x).sum() / (n * t) if t else 0.5}
    if k == "Geometric":
        return {"probs": n / (n + (w * x).sum())}
    if k == "NegativeBinomial":
        t = p["total_count"][f, c, r]
        return {"probs": (w * x).sum() / ((w * x).sum() + n * t)}
    if k == "Categorical":
        return {"probs": np.array([w[x == j].sum() for j in range(case["K"])]) / n}
    if k == "Histogram":
        e = p["bin_edges"]
        b = np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(e) - 2)
        return {"probs": np.array([w[b == j].sum() for j in range(len(e) - 1)]) / n}
    raise KeyError(k)


def degenerate(case, x, w):
    """A continuous density with a free scale has unbounded likelihood on one distinct value."""
    s = x[w > 0]
    if case["kind"] in ("Normal", "Laplace", "LogNormal", "Gamma"):
        return len(s) < 2 or np.ptp(s) < 1e-3 * (1e-3 + np.abs(s).max()) or np.sort(w[w > 0])[:-1].sum() < 1e-6 * w.sum()
    if case["kind"] == "Exponential":
        return (w * x).sum() < 1e-5 * w.sum()
    return False


def check_optimal(case, rec):
    cc.set_dtype(case)
    m, p, X, W, keep = make(case)
    fit(m, case, X, W, False)
    q = stored(m, case)
    rec.tag(case["kind"], case["weights"], case["data"])
    X, W = X[keep], W[keep]
    rng = np.random.default_rng(case["dseed"] + 1)
    got = wll(case, p, q, X, W)
    n = 0
    for f, v in enumerate(case["scope"]):
        for c in range(case["C"]):
            for r in range(case["R"]):
                x, w = X[:, v], W[:, f, c, r]
                if degenerate(case, x, w):
                    continue
                n += 1
                best = optimum(case, p, x, w, f, c, r)
                alts = [best]
                for _ in range(3):  # alternatives around the stored parameters
                    e = {}
                    for k in q:
                        a = q[k][f, c, r]
                        z = rng.normal(0, rng.choice([1e-3, 0.1, 1.0]), np.shape(a))
                        if k == "loc":
                            e[k] = a + z
                        elif k == "probs" and np.ndim(a) == 0:
                            e[k] = 1 / (1 + np.exp(-(lg.logit(np.clip(a, 1e-9, 1 - 1e-9)) + z)))
                        else:
                            e[k] = a * np.exp(z)
                            if k == "probs":
                                e[k] = e[k] / e[k].sum()
                    alts.append(e)
                for i, e in enumerate(alts):
                    g = {k: q[k].copy() for k in q}
                    for k in e:
                        g[k][f, c, r] = e[k]
                    alt = wll(case, p, g, X, W)[f, c, r]
                    tol = w.sum() * 1e-5 + 1e-7 * abs(got[f, c, r])
                    require(not got[f, c, r] < alt - tol,
                            f"{case['kind']} feature {f} channel {c} repetition {r}: fitted parameters "
                            f"{ {k: q[k][f, c, r].tolist() for k in q} } reach weighted log-likelihood {got[f, c, r]:.6f}, "
                            f"{ {k: np.asarray(e[k]).tolist() for k in e} } reaches {alt:.6f}")
    rec.n(n)
    rec.nt(n > 0 and int(keep.sum()) > 1)
    # the model itself reports finite likelihoods on what it was fitted to
    ll = m.log_likelihood(cc.to_torch(X)).detach().double().numpy()
    require(np.isfinite(ll[W > 0]).all(), f"{case['kind']}: non-finite log-likelihood of a row the leaf was fitted to")


def check_bias(case, rec):
    """The documented estimates: bias-corrected scale (n-1), exponential rate ((n-1)/sum), Gamma's closed form."""
    cc.set_dtype(case)
    m, p, X, W, keep = make(case)
    bias = case["bias"]
    fit(m, case, X, W, bias)
    q = stored(m, case)
    X, W = X[keep], W[keep]
    N = int(keep.sum())
    rec.tag(case["kind"], f"bias={bias}")
    n = 0
    for f, v in enumerate(case["scope"]):
        for c in range(case["C"]):
            for r in range(case["R"]):
                x, w = X[:, v], W[:, f, c, r]
                if degenerate(case, x, w) or N < 2:
                    continue
                n += 1
                w = w * N / w.sum()
                k = case["kind"]
                if k == "Exponential":
                    exp = {"rate": (N - bias) / (w * x).sum()}
                elif k == "Gamma":
                    mx, ml, mxl = (w * x).sum() / N, (w * np.log(x)).sum() / N, (w * x * np.log(x)).sum() / N
                    th = mxl - mx * ml
                    a, b = mx / th, 1 / th
                    if bias:
                        a, b = a - (3 * a - 2 / 3 * a / (1 + a) - 4 / 5 * a / (1 + a) ** 2) / N, b * (N - 1) / N
                        if a <= 1e-3:
                            continue
                    exp = {"concentration": a, "rate": b}
                else:
                    exp = optimum(case, p, x, w, f, c, r)
                    if bias:
                        exp["scale"] = exp["scale"] * np.sqrt(N / (N - 1))
                for name, e in exp.items():
                    close(q[name][f, c, r], e, f"{k}.{name} (feature {f}, channel {c}, repetition {r}, bias_correction={bias})",
                          rtol=1e-5, atol=1e-7)
    rec.n(n)
    rec.nt(n > 0)


@st.composite
def bias_case(draw):
    c = draw(fit_case(kinds=("Normal", "LogNormal", "Exponential", "Gamma")))
    c["bias"] = draw(st.booleans())
    return c


@st.composite
def inv_case(draw):
    c = draw(fit_case(kinds=FIT))
    c["rel"] = draw(st.sampled_from(["perm", "dup", "scale", "columns", "channel", "drop", "again", "default"]))
    c["bias"] = draw(st.booleans()) and c["rel"] not in ("dup",)
    return c


def check_inv(case, rec):
    import torch

    cc.set_dtype(case)
    m, p, X, W, keep = make(case)
    rel, rng = case["rel"], np.random.default_rng(case["dseed"] + 2)
    rec.tag(case["kind"], rel)
    rec.nt(int(keep.sum()) > 1)
    if not keep.all():
        raises(lambda: m.maximum_likelihood_estimation(cc.to_torch(X)), "missing entries without a strategy", ValueError)
    fit(m, case, X, W, case["bias"])
    q = stored(m, case)
    m2 = lg.build(case, p)
    N = case["N"]
    X2, W2, case2, sel = X.copy(), W.copy(), case, (slice(None),) * 3
    if rel == "perm":
        o = rng.permutation(N)
        X2, W2 = X[o], W[o]
    elif rel == "dup":
        i = rng.integers(0, N, rng.integers(1, 4))
        X2, W2 = np.concatenate([X, X[i]]), np.concatenate([W, W[i]])
        case2 = dict(case, weights="random")
        W1 = W.copy()
        np.add.at(W1, i, W[i])
        m = lg.build(case, p)
        fit(m, case2, X, W1, case["bias"])
        q = stored(m, case)
    elif rel == "scale":
        W2 = W * float(10.0 ** rng.integers(-4, 5))
    elif rel == "columns":
        other = [v for v in range(case["D"]) if v not in case["scope"]]
        X2[:, other] = rng.choice([np.nan, 1e9, -3.0], (N, len(other)))
    elif rel == "channel":  # each feature/channel/repetition is an estimation problem of its own
        f, c, r = (int(rng.integers(0, k)) for k in (case["F"], case["C"], case["R"]))
        W2 = rng.gamma(0.7, 1.0, W.shape)
        W2[:, f, c, r] = W[:, f, c, r]
        case2 = dict(case, weights="random")
        sel = (f, c, r)
    elif rel == "drop":
        X2, W2 = X[keep], W[keep]
        case2 = dict(case, nan=0)
    elif rel == "again":
        fit(m2, case, X, W, case["bias"])
    elif rel == "default":
        if case["weights"] in ("none", "ones"):
            case2 = dict(case, weights="ones" if case["weights"] == "none" else "none")
    fit(m2, case2, X2, W2, case2["bias"])
    q2 = stored(m2, case)
    for k in q:
        if degenerate_any(case, X[keep], W[keep]):
            continue
        close(q2[k][sel], q[k][sel], f"{case['kind']}.{k} after '{rel}'", rtol=1e-5, atol=1e-6)
    # only the leaf's own parameters change
    for k in p:
        if k not in q:
            close(getattr(m2, k).detach(), p[k], f"fixed parameter {k}", rtol=1e-7, atol=0)
    require(not any(t.requires_grad is False for t in m2.parameters()), "fitting froze a parameter")
    del torch


def degenerate_any(case, X, W):
    return any(degenerate(case, X[:, v], W[:, f, c, r]) for f, v in enumerate(case["scope"])
               for c in range(case["C"]) for r in range(case["R"]))


PROP = Prop("C14", [
    Facet("optimal", fit_case(), check_optimal, quick=1500, thorough=40000,
          rule="weighted likelihood of fitted vs textbook optimum and perturbed parameters; non-trivial: >1 row, non-degenerate"),
    Facet("estimates", bias_case(), check_bias, quick=700, thorough=15000,
          rule="documented closed forms with and without bias correction; non-trivial: >1 row, non-degenerate"),
    Facet("invariance", inv_case(), check_inv, quick=1200, thorough=30000,
          rule="row order, duplication, weight scale, foreign columns, other channels, dropped rows; non-trivial: >1 row"),
])
