"""C24: continuous mixtures equal their quadrature sums."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.special import log_softmax, logsumexp
from scipy.stats import kstest, norm

from vf import circ as cc
from vf.core import Facet, Prop, close, require
from vf.gof import gof

# ---------------------------------------------------------------------------------------------------------------------
# integration points


@st.composite
def points_case(draw):
    return {"N": draw(st.sampled_from([1, 2, 3, 5, 8, 16, 17, 64, 100, 256])), "d": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 2**40)), "f64": draw(st.booleans()),
            "eps": draw(st.sampled_from([1e-6, 1e-9, 1e-3])), "global": draw(st.integers(0, 2**31 - 1))}


def check_points(c, rec):
    import torch
    from spflow.zoo.cms import rqmc_sobol_normal

    torch.manual_seed(c["global"])
    state = torch.get_rng_state()
    dt = torch.float64 if c["f64"] else torch.float32
    kw = dict(num_points=c["N"], latent_dim=c["d"], dtype=dt, eps=c["eps"] if c["f64"] else max(c["eps"], 1e-6))
    p = rqmc_sobol_normal(seed=c["seed"], **kw)
    N, d = c["N"], c["d"]
    require(torch.equal(state, torch.get_rng_state()), "seeded points advance the global random state")
    require(tuple(p.z.shape) == (N, d) and p.z.dtype == dt and tuple(p.weights.shape) == (N,) and p.weights.dtype == dt, f"shapes {tuple(p.z.shape)} {tuple(p.weights.shape)}")
    w = p.weights.double().numpy()
    require((w > 0).all() and abs(w.sum() - 1) < 1e-5, f"weights sum to {w.sum()}")
    torch.manual_seed(c["global"] + 1)
    q = rqmc_sobol_normal(seed=c["seed"], **kw)
    require(torch.equal(p.z, q.z) and torch.equal(p.weights, q.weights), "equal seeds give different points")
    o = rqmc_sobol_normal(seed=c["seed"] + 1, **kw)
    require(not torch.equal(p.z, o.z), "different seeds give equal points")
    u = norm.cdf(p.z.double().numpy())
    eps = kw["eps"]
    tol = 1e-7 if c["f64"] else 2e-5
    require((u >= eps - tol).all() and (u <= 1 - eps + tol).all(), "points outside the clamped range")
    if N & (N - 1) == 0 and eps < 1e-5:  # a shifted net: every coordinate is equidistant on the circle
        for j in range(d):
            s = np.sort(u[:, j])
            gaps = np.diff(np.concatenate([s, s[:1] + 1]))
            require(np.allclose(gaps, 1 / N, atol=10 * tol + 2 * eps), f"coordinate {j} is not equidistributed: gaps {gaps.min()}..{gaps.max()}, expected {1 / N}")
        if d > 1 and N >= 4:  # two coordinates are a net: one point per elementary interval, up to the shift
            x = np.mod(u[:, :2] - u[:1, :2] + 1e-5, 1.0)
            m = int(np.log2(N))
            for a in range(m + 1):
                cells = set(zip(np.floor(x[:, 0] * 2**a).astype(int), np.floor(x[:, 1] * 2 ** (m - a)).astype(int)))
                require(len(cells) == N, f"{N} points share elementary intervals {2**a}x{2**(m - a)}")
    if N > 1:  # no dimension repeats another one
        for i, j in itertools.combinations(range(d), 2):
            require(N < 64 or not np.allclose(np.mod(u[:, i] - u[:1, i], 1), np.mod(u[:, j] - u[:1, j], 1), atol=1e-4), f"coordinates {i} and {j} are the same")
    rec.nt(N > 1)
    rec.tag(f"d{d}", f"N{N}")


def prior_case():
    return st.fixed_dictionaries({"N": st.sampled_from([1, 3, 8]), "d": st.integers(1, 4), "seed": st.integers(0, 2**31 - 1), "seeded": st.booleans()})


def check_prior(c, rec):
    """Every single point is distributed as the prior over the random shifts, with independent coordinates."""
    import torch
    from spflow.zoo.cms import rqmc_sobol_normal

    def draw(n, s0):
        torch.manual_seed(s0 % 2**31)
        return np.stack([rqmc_sobol_normal(num_points=c["N"], latent_dim=c["d"], dtype=torch.float64, seed=(s0 + i) if c["seeded"] else None).z.numpy() for i in range(n)])

    def tests(Z):
        out = {}
        i = c["seed"] % c["N"]
        for j in range(c["d"]):
            out[f"point {i} coordinate {j}"] = kstest(Z[:, i, j], "norm").pvalue
        for a, b in itertools.combinations(range(c["d"]), 2):
            r = np.corrcoef(Z[:, i, a], Z[:, i, b])[0, 1]
            out[f"independence of {a} and {b}"] = 2 * norm.sf(abs(np.arctanh(np.clip(r, -0.999999, 0.999999))) * np.sqrt(len(Z) - 3))
        return out

    p = tests(draw(300, c["seed"]))
    rec.nt(c["N"] > 1 or c["d"] > 1)
    for k in [k for k, v in p.items() if v < 1e-3]:
        q = tests(draw(4000, c["seed"] + 10**6))[k]
        require(q > 1e-9, f"{k} is not distributed as the prior (p = {q})")


# ---------------------------------------------------------------------------------------------------------------------
# learned mixtures

@st.composite
def mix_case(draw, tree=False):
    leaf = draw(st.sampled_from(["bernoulli", "categorical"] if tree else ["bernoulli", "categorical", "normal"]))
    K = 2 if leaf == "bernoulli" else draw(st.integers(2, 3))
    F = draw(st.integers(2, 4)) if tree else draw(st.integers(1, 4))
    c = {"leaf": leaf, "K": K, "F": F, "N": draw(st.integers(4, 40)), "tree": tree, "latent": draw(st.integers(1, 3)), "I": draw(st.integers(1, 6)), "Ie": draw(st.sampled_from([None, 1, 3, 7])),
         "epochs": draw(st.integers(1, 6)), "batch": draw(st.sampled_from([3, 8, 100])), "lr": draw(st.sampled_from([1e-3, 1e-2, 1e-1])), "patience": draw(st.sampled_from([0, 1, 2, 15])),
         "val": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)), "f64": draw(st.sampled_from([True, True, False])), "missing": False if tree else draw(st.sampled_from([0, 0, 0.2])),
         "lo": draw(st.sampled_from([None, None, 0, 3, 4])), "lor": draw(st.sampled_from([1e-2, 1.0])), "query": draw(st.integers(0, 2**31 - 1))}
    return c


class Recorder:
    """Outputs of the decoder network (linear layer of the right width), in order."""

    def __init__(self, width):
        import torch

        self.width, self.out = width, []
        self.h = torch.nn.modules.module.register_module_forward_hook(self.hook)

    def hook(self, m, args, y):
        import torch

        if isinstance(m, torch.nn.Linear) and m.out_features == self.width:
            self.out.append((torch.is_grad_enabled(), y.detach().double().numpy().copy(), args[0].detach().double().numpy().shape))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.h.remove()


def component_ll(c, raw, X, parents=None):
    """(components, rows) reference likelihoods of decoder outputs; NaN is marginalized (factorized only)."""
    F, K = c["F"], c["K"]
    I, B = len(raw), len(X)
    ll = np.zeros((I, B))
    if c["tree"]:
        root = parents.index(-1)
        lr = log_softmax(raw[:, :K], axis=1)
        cond = log_softmax(raw[:, K:].reshape(I, F, K, K), axis=2)
        xi = X.astype(int)
        for f in range(F):
            ll += lr[:, xi[:, f]] if f == root else cond[:, f, xi[:, f], xi[:, parents[f]]]
        return ll
    for f in range(F):
        ob = ~np.isnan(X[:, f])
        x = np.where(ob, X[:, f], 0)
        if c["leaf"] == "bernoulli":
            a = raw[:, f:f + 1]
            v = np.where(x[None] > 0.5, -np.logaddexp(0, -a), -np.logaddexp(0, a))
        elif c["leaf"] == "categorical":
            v = log_softmax(raw.reshape(I, F, K)[:, f], axis=1)[:, x.astype(int)]
        else:
            loc = raw[:, f:f + 1]
            scale = np.logaddexp(0, raw[:, F + f:F + f + 1]) + 1e-4
            v = norm.logpdf(x[None], loc, scale)
        ll += np.where(ob[None], v, 0)
    return ll


def mixture(c, raw, X, parents=None):
    return logsumexp(component_ll(c, raw, X, parents), axis=0) - np.log(len(raw))


def check_mix(c, rec):
    import torch
    from spflow.modules.leaves import CLTree
    from spflow.zoo.cms import LatentOptimizationConfig, learn_continuous_mixture_cltree, learn_continuous_mixture_factorized

    F, K, dt = c["F"], c["K"], torch.float64 if c["f64"] else torch.float32
    torch.set_default_dtype(dt)
    rng = np.random.default_rng(c["seed"])

    def make(n, missing):
        h = rng.integers(0, 2, n)
        if c["leaf"] == "normal":
            X = rng.normal(size=(n, F)) + 2.0 * h[:, None]
        else:
            X = np.where(rng.uniform(size=(n, F)) < 0.3, rng.integers(0, K, (n, F)), (h * (K - 1))[:, None]).astype(float)
        if missing:
            X[rng.uniform(size=X.shape) < missing] = np.nan
        return X

    X = make(c["N"], c["missing"])
    V = make(9, 0) if c["val"] else None
    X0 = X.copy()
    kw = dict(leaf=c["leaf"], latent_dim=c["latent"], num_points_train=c["I"], num_points_eval=c["Ie"], num_epochs=c["epochs"], batch_size=c["batch"], lr=c["lr"], patience=c["patience"],
              seed=c["seed"] % 1000, num_cats=K if c["leaf"] == "categorical" else None, val_data=None if V is None else torch.as_tensor(V, dtype=dt))
    if c["lo"] is not None:
        kw["lo"] = LatentOptimizationConfig(enabled=c["lo"] > 0, num_points=max(c["lo"], 1), num_epochs=4, batch_size=5, lr=c["lor"], patience=2, seed=c["seed"] % 77)
    width = K + F * K * K if c["tree"] else {"bernoulli": F, "categorical": F * K, "normal": 2 * F}[c["leaf"]]
    learn = learn_continuous_mixture_cltree if c["tree"] else learn_continuous_mixture_factorized
    T = torch.as_tensor(X, dtype=dt)
    torch.manual_seed(c["seed"] % 2**31)
    with Recorder(width) as r:
        m = learn(T, **kw)
    require(np.array_equal(T.double().numpy(), np.asarray(torch.as_tensor(X0, dtype=dt).double()), equal_nan=True), "the training data were modified")
    parents = None
    if c["tree"]:
        nodes = [x for x in m.modules() if isinstance(x, CLTree)]
        parents = nodes[0].parents.tolist()
        require(all(x.parents.tolist() == parents for x in nodes), "components have different trees")
    lo = c["lo"]
    I = lo if lo else (c["Ie"] or c["I"])
    require(len(r.out) > 0, "the decoder was never evaluated")
    raw = r.out[-1][1]
    require(len(raw) == I, f"{I} integration points were asked for, the mixture was compiled from {len(raw)}")
    # the model is the mixture of the decoded components
    if c["leaf"] == "normal":
        Q = rng.normal(size=(20, F)) * 2
    else:
        Q = np.array(list(itertools.product(range(K), repeat=F)), float)
    ref = mixture(c, raw, Q, parents)
    tol = 1e-7 if c["f64"] else 2e-4

    def ll(A):
        with torch.no_grad():
            y = m.log_likelihood(torch.as_tensor(A, dtype=dt))
        require(tuple(y.shape) == (len(A), 1, 1, 1), f"log-likelihood of shape {tuple(y.shape)}")
        return y.double().numpy().reshape(-1)

    close(ll(Q), ref, "log-likelihood of the compiled mixture", rtol=tol, atol=tol)
    require(sorted(m.scope.query) == list(range(F)), f"scope {m.scope.query}")
    # missing values
    Y = Q[rng.integers(0, len(Q), 6)].copy()
    Y[rng.uniform(size=Y.shape) < 0.5] = np.nan
    if c["leaf"] == "normal":
        want = mixture(c, raw, Y)
    else:
        want = np.array([logsumexp(ref[np.all(np.isnan(y)[None] | (Q == y[None]), axis=1)]) for y in Y])
    close(ll(Y), want, "log-likelihood with missing values", rtol=tol, atol=tol)
    # early stopping keeps the best parameters (and integration points)
    E = X if V is None else V
    evals = [(y, float(mixture(c, y, E, parents).mean())) for g, y, _ in r.out[:-1] if not g]
    final = float(mixture(c, raw, E, parents).mean())
    if lo:
        n_lo = 0
        for g, y, _ in reversed(r.out[:-1]):  # evaluations of the latent optimization: the trailing run with its number of points
            if len(y) != lo:
                break
            n_lo += not g
        scores = [s for y, s in evals][-n_lo:] if n_lo else []
        if lo == I and (c["Ie"] or c["I"]) == lo or c["I"] == lo:
            scores = []  # cannot be told from the training evaluations
    else:
        scores = [s for y, s in evals] if (c["val"] or c["patience"] > 0) else []
    if scores:
        require(abs(final - max(scores)) < (1e-6 if c["f64"] else 1e-3), f"returned parameters have score {final}, the best evaluated one {max(scores)} (history {np.round(scores, 5).tolist()})")
        rec.tag("kept the best of several" if len(scores) > 1 else "one evaluation")
    # repeatable
    torch.manual_seed(c["seed"] % 2**31)
    m2 = learn(T, **kw)
    with torch.no_grad():
        require(torch.equal(m2.log_likelihood(torch.as_tensor(Q, dtype=dt)), m.log_likelihood(torch.as_tensor(Q, dtype=dt))), "the same seeds give another model")
    # sampling
    if c["leaf"] != "normal":
        base = K ** np.arange(F - 1, -1, -1)

        def draw(n):
            s = m.sample(num_samples=n).double().numpy()
            require(s.shape == (n, F) and not np.isnan(s).any() and (s == np.round(s)).all() and (s >= 0).all() and (s < K).all(), "samples outside the domain")
            return s.astype(int) @ base

        gof(draw, np.exp(ref), "samples of the compiled mixture", n=600)
        if F > 1:
            ev = np.full(F, np.nan)
            ev[rng.integers(0, F)] = rng.integers(0, K)
            ok = np.all(np.isnan(ev)[None] | (Q == ev[None]), axis=1)
            pc = np.where(ok, np.exp(ref), 0)
            pc = pc / pc.sum()

            def draw2(n):
                s = m.sample_with_evidence(torch.as_tensor(np.repeat(ev[None], n, 0), dtype=dt)).double().numpy()
                require(not np.isnan(s).any(), "unfilled values")
                return s.astype(int) @ base

            gof(draw2, pc, "samples of the compiled mixture given evidence", n=600)
    rec.nt(I > 1 and F > 1)
    rec.tag(c["leaf"], "lo" if lo else "no lo", "missing" if c["missing"] else "complete", "tree" if c["tree"] else "factorized")


# ---------------------------------------------------------------------------------------------------------------------
# joint view


@st.composite
def joint_case(draw):
    c = draw(cc.circuit(families=["cat", "count", "real", "pos"], min_vars=1, max_vars=5, maxdepth=3, root="any", maxstates=200, exclude=("repmix",)))
    c["rows"] = draw(cc.rows(c["vt"], 1, 4, missing=True))
    return c


def check_joint(c, rec):
    import torch
    from spflow.utils.cache import Cache
    from spflow.zoo.cms import JointLogLikelihood

    cc.set_dtype(c)
    b = cc.build(c)
    X = cc.to_torch(cc.to_np(c["rows"]))
    t = cc.tol(c)
    multi = 0
    for spec, m, ref in b.pairs:
        if spec["t"] in ("repmix", "split") or not hasattr(m, "out_shape") or isinstance(m, (list, tuple)):
            continue
        j = JointLogLikelihood(m)
        with torch.no_grad():
            cache = Cache()
            g = j.log_likelihood(X, cache=cache)
            require(torch.equal(j.log_likelihood(X, cache=cache), g) and torch.equal(j.log_likelihood(X), g), "evaluation with and without a cache")
        want = ref.ll(cc.to_np(c["rows"])).sum(1, keepdims=True)
        close(g.double().numpy(), want, f"joint log-likelihood of {spec['t']}", rtol=t["rtol"], atol=t["atol"] * 3)
        require(tuple(j.out_shape) == tuple(g.shape[1:]), f"{spec['t']}: declared shape {tuple(j.out_shape)}, computed {tuple(g.shape[1:])}")
        fs = j.feature_to_scope
        require(fs.shape == (1, j.out_shape.repetitions) and all(set(x.query) == set(m.scope.query) for x in fs.reshape(-1)), f"{spec['t']}: feature scopes of the joint view")
        multi += len(ref.P) > 1
        rec.n()
    rec.nt(multi > 0)
    rec.tag("multi" if multi else "single")


PROP = Prop("C24", [
    Facet("points", points_case(), check_points, quick=600, thorough=8000, rule="several points"),
    Facet("prior", prior_case(), check_prior, quick=24, thorough=400, rule="several points or dimensions"),
    Facet("factorized", mix_case(False), check_mix, quick=200, thorough=4000, rule="several components and several variables"),
    Facet("trees", mix_case(True), check_mix, quick=60, thorough=3000, rule="several components and several variables"),
    Facet("joint", joint_case(), check_joint, quick=400, thorough=8000, rule="the wrapped module has several features"),
])
