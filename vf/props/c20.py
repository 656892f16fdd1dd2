"""C20: class posteriors obey Bayes' rule."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, raises, require

FAMS = ("cat", "cat", "real", "count", "pos", "unit")


@st.composite
def nb_case(draw):
    c = draw(zz.zoo(kinds=("nb",), maxD=5, classes=(1, 2, 3, 4), families=FAMS, maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=5, extreme=True))
    return c


def bayes(lx, prior):
    """(B,C) class log-likelihoods, (C,) prior -> log posterior, log evidence."""
    j = lx + np.log(prior)[None]
    z = cc.lse(j, 1)
    with np.errstate(invalid="ignore"):
        return j - z[:, None], z


def check_posteriors(m, T, ref, what, t):
    """log_posterior, predict_proba and predict against the reference posteriors (B,C)."""
    import torch

    ok = ~np.isnan(ref).any(1)
    if not ok.any():
        return
    with torch.no_grad():
        T = T[torch.as_tensor(ok)]
        R = ref[ok]
        lp, pp = cc.to_np(m.log_posterior(T)), cc.to_np(m.predict_proba(T))
        y = m.predict(T)
    require(lp.shape == R.shape and pp.shape == R.shape, f"{what}: posterior shape {lp.shape}, expected {R.shape}")
    close(np.exp(lp), np.exp(R), f"{what}: posterior", rtol=t, atol=t)
    close(pp, np.exp(R), f"{what}: predict_proba", rtol=t, atol=t)
    close(pp.sum(1), np.ones(len(pp)), f"{what}: probabilities sum to one", rtol=t, atol=t)
    require((pp >= 0).all(), f"{what}: negative probability")
    fin = np.isfinite(R) & (R > -60)
    close(np.where(fin, lp, 0), np.where(fin, R, 0), f"{what}: log posterior", rtol=max(t, 1e-6), atol=max(10 * t, 1e-6))
    require(tuple(y.shape) == (len(R),), f"{what}: predict shape {tuple(y.shape)}")
    y = y.numpy()
    require((np.exp(R[np.arange(len(R)), y]) >= np.exp(R).max(1) - 10 * t).all(), f"{what}: predicted label is not a most probable class")


def check_nb(c, rec):
    import torch

    cc.set_dtype(c)
    m, refs = zz.build(c)
    X = cc.to_np(c["rows"])
    T = cc.to_torch(X)
    X = cc.to_np(T)
    memo = {}
    lx = sum(r.ll(X, memo).sum(1) for r in refs)[:, :, 0]  # B,C
    k = c["classes"]
    t = 1e-7 if c["f64"] else 2e-3
    rec.tag(f"classes{k}", c["prior"], "missing" if np.isnan(X).any() else "complete")
    rec.n(len(X) * k)
    rec.nt(k > 1 and c["n"] > 1)
    with torch.no_grad():
        ll = cc.to_np(m.log_likelihood(T))
    require(ll.shape == (len(X), 1, 1, 1), f"log-likelihood shape {ll.shape}")
    ltol = {"rtol": 1e-7, "atol": 1e-7} if c["f64"] else {"rtol": 1e-3, "atol": 1e-3}
    if k == 1:
        close(ll[:, 0, 0, 0], lx[:, 0], "log-likelihood", **ltol)
        raises(lambda: m.log_posterior(T), "posterior of a one-class model")
        return
    pr = np.ones(k) / k if c["prior"] == "none" else zz.prior_of(c) / zz.prior_of(c).sum()
    ref, z = bayes(lx, pr)
    close(ll[:, 0, 0, 0], z, "log-likelihood", **ltol)
    if not c["f64"]:
        ref = np.where((np.abs(lx).max(1) < 200)[:, None], ref, np.nan)  # rounding of large log densities
    check_posteriors(m, T, ref, "naive Bayes", t)


# ------------------------------------------------------------------ RAT-SPN, Einet


@st.composite
def model_case(draw):
    c = draw(zz.zoo(kinds=("rat", "einet"), maxD=6, classes=(2, 2, 3, 4), families=FAMS, maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=5))
    c["f64"] = True
    return c


def set_prior(m, w):
    import torch

    with torch.no_grad():
        m.root_node.weights = torch.as_tensor(np.asarray(w), dtype=torch.float64).reshape(1, -1, 1, 1)


def check_model(c, rec):
    """The likelihood is linear in the class prior: class likelihoods are recovered from several priors."""
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    T = cc.to_torch(cc.to_np(c["rows"]))
    k = c["classes"]
    rec.tag(*zz.tags(c), "missing" if bool(torch.isnan(T).any()) else "complete")
    rec.nt(c["n"] > 1)
    rec.n(len(c["rows"]) * k)
    with torch.no_grad():
        w0 = cc.to_np(m.root_node.weights).reshape(-1)
        require(w0.shape == (k,), f"prior has {w0.shape} entries for {k} classes")
        close(w0.sum(), 1.0, "prior sums to one", rtol=1e-9, atol=1e-9)
        base = cc.to_np(m.log_likelihood(T)).reshape(len(T))
        A = np.full((k, k), 0.2 / k) + 0.8 * np.eye(k)
        require(not np.isnan(base).any(), "log-likelihood is NaN")
        P = []
        for i in range(k):
            set_prior(m, A[i])
            P.append(np.exp(cc.to_np(m.log_likelihood(T)).reshape(len(T)) - np.where(np.isfinite(base), base, 0)))
        lik = np.maximum(np.linalg.solve(A, np.array(P)), 0).T  # B,C: p(x|y) / p(x)
        g = np.random.default_rng(c["seed"] + 3).uniform(0.1, 1.0, k)
        for name, w in (("own prior", w0), ("new prior", g / g.sum())):
            set_prior(m, w)
            j = lik * w[None]
            z = j.sum(1, keepdims=True)
            if name == "own prior":
                close(z[np.isfinite(base), 0], np.ones(int(np.isfinite(base).sum())), "likelihood under the stored prior", rtol=1e-6, atol=1e-6)
            with np.errstate(divide="ignore", invalid="ignore"):
                ref = np.log(np.where(z > 1e-9, j / z, np.nan))
            ref[~np.isfinite(base)] = np.nan
            check_posteriors(m, T, ref, name, 1e-6)


# ------------------------------------------------------------------ estimation of classifiers


@st.composite
def fit_case(draw):
    c = draw(zz.zoo(kinds=("nb",), maxD=4, classes=(2, 3), families=("cat", "real", "count", "pos"), maxstates=None))
    c["leaves"] = [["Poisson" if f == "NegativeBinomial" else f, g] for f, g in c["leaves"]]  # its trial count is not estimated
    c["N"] = draw(st.integers(2, 12)) * c["classes"]
    c["dtype"] = draw(st.sampled_from(["int64", "int32", "uint8"]))
    c["skew"] = draw(st.booleans())
    return c


def check_fit(c, rec):
    """Fitting estimates each class from its own rows and (when learnable) the prior from the label frequencies."""
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    k, N = c["classes"], c["N"]
    rng = np.random.default_rng(c["seed"] + 11)
    y = np.concatenate([np.repeat(np.arange(k), 2), rng.choice(k, N - 2 * k, p=(np.array([0.8] + [0.2 / (k - 1)] * (k - 1)) if c["skew"] else np.ones(k) / k))])
    rng.shuffle(y)
    X = np.empty((N, c["n"]))
    for v, vt in enumerate(c["vt"]):
        X[:, v] = (rng.integers(0, vt[1], N) if vt[0] == "cat" else rng.poisson(2 + y) if vt[0] == "count"
                   else rng.normal(y, 1.0) if vt[0] == "real" else np.exp(rng.normal(0.3 * y, 0.6)))
    T = cc.to_torch(X)
    X = cc.to_np(T)
    before = cc.to_np(m.root_node.weights.detach()).reshape(-1)
    m.maximum_likelihood_estimation(T, targets=torch.as_tensor(y).to(getattr(torch, c["dtype"])), bias_correction=False)
    rec.nt(True)
    rec.tag(f"classes{k}", "learnable" if c["learn"] else "fixed", c["dtype"])
    # reference: one-class leaves fitted on the rows of a class
    lx = np.zeros((N, k))
    with torch.no_grad():
        for cls in range(k):
            sub = dict(c, leafC=1)
            leaves, _ = zz.make_leaves(sub, cc.Par(5, "mild"))
            for leaf in leaves:
                leaf.maximum_likelihood_estimation(T[torch.as_tensor(y == cls)], bias_correction=False)
                lx[:, cls] += cc.to_np(leaf.log_likelihood(T)).sum(1)[:, 0, 0]
    n_c = np.bincount(y, minlength=k)
    pr = n_c / N if c["learn"] else before
    got = cc.to_np(m.root_node.weights.detach()).reshape(-1)
    close(got, pr, "prior after fitting", rtol=1e-5, atol=1e-6)
    ref, z = bayes(lx, pr)
    for i in range(N):  # degenerate class fits (a constant column) carry no information
        if np.abs(lx[i]).max() > (60 if c["f64"] else 20):
            ref[i] = np.nan
    check_posteriors(m, T, ref, "fitted naive Bayes", 1e-5 if c["f64"] else 2e-2)


# ------------------------------------------------------------------ the helper itself


@st.composite
def util_case(draw):
    B, C = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    el = st.one_of(st.floats(-50, 5), st.sampled_from([-np.inf, -1e4, -800.0, 700.0, -745.0]))
    return {"B": B, "C": C, "ll": [[draw(el.map(lambda v: "-inf" if v == -np.inf else float(v))) for _ in range(C)] for _ in range(B)],
            "prior": [draw(st.integers(1, 50)) for _ in range(C)], "f64": draw(st.booleans())}


def check_util(c, rec):
    import torch
    from spflow.utils.inference import log_posterior

    cc.set_dtype(c)
    L = np.array([[-np.inf if v == "-inf" else v for v in r] for r in c["ll"]])
    p = np.array(c["prior"], float)
    p /= p.sum()
    ref, z = bayes(L, p)
    keep = np.isfinite(z)
    rec.nt(c["C"] > 1 and keep.any())
    if not keep.any():
        return
    out = cc.to_np(log_posterior(cc.to_torch(L[keep]), cc.to_torch(np.log(p))))
    t = 1e-9 if c["f64"] else 2e-3
    close(np.exp(out), np.exp(ref[keep]), "log_posterior", rtol=t, atol=t)
    close(np.isneginf(out), np.isneginf(ref[keep]), "log_posterior: impossible classes")
    del torch


PROP = Prop("C20", [
    Facet("naive-bayes", nb_case(), check_nb, quick=1200, thorough=30000, rule="at least two classes and variables"),
    Facet("models", model_case(), check_model, quick=900, thorough=20000, rule="RAT-SPN / Einet classifiers over at least two variables"),
    Facet("fit", fit_case(), check_fit, quick=500, thorough=12000, rule="fitted classifiers vs per-class fits"),
    Facet("helper", util_case(), check_util, quick=600, thorough=20000, rule="several classes, some with finite likelihood"),
])
