"""C21: information measures equal their definitions."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, raises, require

KINDS = ("Categorical", "Bernoulli")
AGGS = ("default", "default", "logmeanexp", "first")


def _agg(a, axis, how):
    if a.shape[axis] == 1:
        return np.take(a, 0, axis)
    if how == "first":
        return np.take(a, 0, axis)
    z = cc.lse(a, axis)
    return z - (0 if how == "logsumexp" else math.log(a.shape[axis]))


def reduce_ref(ll, ca, ra):
    """(B,F,C,R) -> (B,): features multiply, then repetitions, then channels are averaged."""
    ca, ra = [("logmeanexp" if h == "default" else h) for h in (ca, ra)]
    return _agg(_agg(ll.sum(1), 2, ra), 1, ca)


def kw(c):
    d = {}
    if c["ca"] != "default":
        d["channel_agg"] = c["ca"]
    if c["ra"] != "default":
        d["repetition_agg"] = c["ra"]
    return d


@st.composite
def model_case(draw, aggs=AGGS, maxstates=72, roots=("single", "any")):
    if draw(st.sampled_from([True, False, False])):
        c = draw(zz.zoo(kinds=("rat", "einet", "nb", "fac"), maxD=5, maxstates=maxstates, families=("cat",), classes=(1, 1, 2), leafkinds=KINDS))
    else:
        c = draw(cc.circuit(families=("cat",), min_vars=2, max_vars=5, maxdepth=3, root=draw(st.sampled_from(list(roots))),
                            reps=(1, 1, 2), maxstates=maxstates, kinds=KINDS,
                            exclude=("cltree",)))
    c["ca"] = draw(st.sampled_from(list(aggs)))
    c["ra"] = draw(st.sampled_from(list(aggs)))
    return c


class Model:
    """The module and its joint distribution, as a table over all states (variables of the case)."""

    def __init__(self, c):
        import torch

        cc.set_dtype(c)
        if "zoo" in c:
            self.m, _ = zz.build(c)
            S = cc.all_states(c["vt"])
            # composite models: the likelihood itself is decided by C26/C20, here it is the definition of the joint
            with torch.no_grad():
                ll = npy(self.m.log_likelihood(cc.to_torch(S)))
        else:
            b = cc.build(c)
            self.m = b.module
            S = cc.all_states(c["vt"])
            ll = b.ref.ll(S, {})
        self.shape = ll.shape[1:]
        self.p = np.exp(reduce_ref(ll, c["ca"], c["ra"])).reshape([v[1] for v in c["vt"]])
        self.n = c["n"]

    def marg(self, vars_):
        """p over vars_ in the given order."""
        vars_ = list(vars_)
        drop = tuple(i for i in range(self.n) if i not in vars_)
        t = self.p.sum(axis=drop) if drop else self.p
        kept = [i for i in range(self.n) if i in vars_]
        return np.transpose(t, [kept.index(v) for v in vars_]) if vars_ else t

    def H(self, vars_):
        if not len(vars_):
            return 0.0
        t = self.marg(vars_).ravel()
        t = t[t > 0]
        return float(-(t * np.log(t)).sum())


def tol(c):
    return {"rtol": 1e-8, "atol": 1e-9} if c["f64"] else {"rtol": 1e-4, "atol": 1e-4}


@st.composite
def disjoint(draw, n, parts):
    """Disjoint non-empty ordered groups of variables."""
    perm = draw(st.permutations(list(range(n))))
    k = draw(st.integers(parts, n))
    cuts = sorted(draw(st.lists(st.integers(1, k - 1), min_size=parts - 1, max_size=parts - 1, unique=True))) if parts > 1 else []
    b = [0] + cuts + [k]
    return [list(perm[b[i]:b[i + 1]]) for i in range(parts)]


@st.composite
def exact_case(draw):
    c = draw(model_case(aggs=AGGS))
    n = c["n"]
    c["sets"] = [draw(disjoint(n, min(3, n))) for _ in range(3)]
    c["forms"] = draw(st.lists(st.sampled_from(["list", "scope", "tuple", "int"]), min_size=3, max_size=3))
    return c


def form(v, f):
    from spflow.meta.data.scope import Scope

    if f == "scope":
        return Scope(v)
    if f == "int" and len(v) == 1:
        return v[0]
    return tuple(v) if f == "tuple" else list(v)


def check_exact(c, rec):
    import torch
    from spflow.exceptions import InvalidParameterError
    from spflow.measures import conditional_mutual_information as cmi
    from spflow.measures import entropy, mutual_information

    M = Model(c)
    k = kw(c)
    t = tol(c)
    tags(c, M, rec)
    m = M.m

    def H(v, f="list"):
        with torch.no_grad():
            r = entropy(m, form(v, f), method="exact", **k)
        require(r.dim() == 0, f"entropy is not a scalar: {tuple(r.shape)}")
        return float(r)

    def MI(x, y, f="list"):
        with torch.no_grad():
            return float(mutual_information(m, form(x, f), form(y, f), method="exact", **k))

    def CMI(x, y, z, f="list"):
        with torch.no_grad():
            return float(cmi(m, form(x, f), form(y, f), form(z, f), method="exact", **k))

    slack = 20 * t["atol"]
    for parts, f in zip(c["sets"], c["forms"]):
        x = parts[0]
        hx = H(x, f)
        close(hx, M.H(x), f"entropy of {x}", **t)
        states = math.prod(c["vt"][v][1] for v in x)
        require(-slack <= hx <= math.log(states) + slack, f"entropy {hx} of {x} is outside [0, log {states}]")
        rec.n()
        if len(parts) > 1:
            y = parts[1]
            i = MI(x, y, f)
            close(i, M.H(x) + M.H(y) - M.H(x + y), f"mutual information of {x} and {y}", **t)
            close(MI(y, x), i, f"mutual information of {x} and {y} is not symmetric", **t)
            require(-slack <= i <= min(M.H(x), M.H(y)) + slack, f"mutual information {i} of {x}, {y} is out of range")
            rec.n(2)
        if len(parts) > 2:
            z = parts[2]
            j = CMI(x, y, z, f)
            close(j, M.H(x + z) + M.H(y + z) - M.H(z) - M.H(x + y + z), f"conditional mutual information of {x}, {y} given {z}", **t)
            close(CMI(y, x, z), j, "conditional mutual information is not symmetric", **t)
            require(j >= -slack, f"negative conditional mutual information {j}")
            close(MI(x, y + z), MI(x, z) + j, f"chain rule for {x}, {y}, {z}", rtol=t["rtol"], atol=10 * t["atol"])
            rec.n(4)
    x = c["sets"][0][0]
    for meth in ("exact", "mc"):
        raises(lambda: entropy(m, [], method=meth, num_samples=8), "entropy of an empty scope", InvalidParameterError)
        raises(lambda: mutual_information(m, x, x[:1], method=meth, num_samples=8), "mutual information of overlapping scopes", InvalidParameterError)
        if len(c["sets"][0]) > 1:
            y = c["sets"][0][1]
            for a in ((x, y, x[:1]), (x, x[:1], y), (y, x, y[:1])):
                raises(lambda: cmi(m, *a, method=meth, num_samples=8), f"conditional mutual information of overlapping scopes {a}", InvalidParameterError)
    raises(lambda: entropy(m, x, method="guess"), "unknown method", InvalidParameterError)


def npy(t):
    return t.detach().double().numpy()


def tags(c, M, rec):
    F, C, R = M.shape
    rec.tag(*(zz.tags(c) if "zoo" in c else cc.spec_tags(c["spec"])))
    rec.tag(f"agg:{c['ca']}" if C > 1 else "single-channel", f"ragg:{c['ra']}" if R > 1 else "single-repetition")
    p = M.p
    ind = p.sum() and abs(M.H(range(M.n)) - sum(M.H([i]) for i in range(M.n))) < 1e-5
    rec.tag("independent" if ind else "dependent")
    rec.nt(M.n > 1 and not ind)


# --------------------------------------------------------------------------- Monte Carlo


@st.composite
def mc_case(draw):
    c = draw(model_case(roots=("single", "chan")))  # several features above a repetition mixture cannot be sampled
    n = c["n"]
    c["sets"] = draw(disjoint(n, draw(st.integers(1, min(3, n)))))
    c["rng"] = draw(st.integers(0, 10**6))
    return c


def check_mc(c, rec):
    """Estimates converge: N samples, five-and-a-half standard errors (computed from the exact joint), then 16 N."""
    import torch
    from spflow.measures import conditional_mutual_information as cmi
    from spflow.measures import entropy, mutual_information

    M = Model(c)
    tags(c, M, rec)
    k = kw(c)
    parts = c["sets"]
    x, y, z = (parts + [[], []])[:3]
    full = list(range(M.n))

    def lp(v):
        """log p of the sub-vector v, broadcast to the full joint table"""
        t = M.p.sum(axis=tuple(i for i in full if i not in v), keepdims=True)
        with np.errstate(divide="ignore"):
            return np.broadcast_to(np.log(t), M.p.shape)

    if len(parts) == 1:
        g = -lp(x)
        f = lambda n, s: entropy(M.m, x, num_samples=n, seed=s, **k)
    elif len(parts) == 2:
        g = lp(x + y) - lp(x) - lp(y)
        f = lambda n, s: mutual_information(M.m, x, y, num_samples=n, seed=s, **k)
    else:
        g = lp(x + y + z) + lp(z) - lp(x + z) - lp(y + z)
        f = lambda n, s: cmi(M.m, x, y, z, num_samples=n, seed=s, **k)
    pos = M.p > 0
    w, g = M.p[pos] / M.p[pos].sum(), g[pos]
    mu = float((w * g).sum())
    sd = math.sqrt(float((w * (g - mu) ** 2).sum()))
    span = float(g.max() - g.min())
    slack = 1e-9 if c["f64"] else 1e-3

    def off(n, s):
        with torch.no_grad():
            r = f(n, s)
        require(r.dim() == 0 and bool(torch.isfinite(r)), f"estimate is not a finite scalar: {r}")
        # Bernstein: P(|err| > b) < 2 exp(-L)
        L = 16.0
        b = sd * math.sqrt(2 * L / n) + 2 * span * L / (3 * n) + slack
        return abs(float(r) - mu) <= b, float(r), b

    rec.tag(f"parts{len(parts)}")
    rec.n(2)
    N = 1500
    ok, r, b = off(N, c["rng"])
    if not ok:
        ok, r, b = off(16 * N, c["rng"] + 1)
        require(ok, f"Monte Carlo estimate {r:.5f} with {16 * N} samples differs from the exact value {mu:.5f} by more than {b:.5f}")
    # seeded estimates are reproducible and leave the caller's random state alone
    torch.manual_seed(c["rng"] % 97)
    before = torch.get_rng_state()
    with torch.no_grad():
        a = float(f(40, 5))
        require(torch.equal(before, torch.get_rng_state()), "a seeded estimate changed the global random state")
        torch.rand(3)
        require(float(f(40, 5)) == a, "estimates with the same seed differ")


# --------------------------------------------------------------------------- conditional probability, WoE


@st.composite
def cond_case(draw):
    c = draw(model_case(aggs=AGGS + ("logsumexp",)))
    c["y"] = draw(st.integers(0, c["n"] - 1))
    c["yv"] = draw(st.integers(0, c["vt"][c["y"]][1] - 1))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=1, max_rows=5))
    c["rows2"] = [draw(cc.rows(c["vt"], min_rows=1, max_rows=1))[0] for _ in c["rows"]]
    c["nn"] = draw(st.sampled_from([1, 3, 10, 1000, 10**7]))
    c["k"] = draw(st.sampled_from([None, None, 2, 5]))
    c["eps"] = draw(st.sampled_from([None, None, 0.05, 0.2]))
    return c


def check_cond(c, rec):
    import torch
    from spflow.exceptions import InvalidParameterError
    from spflow.measures import conditional_probability, weight_of_evidence, weight_of_evidence_leave_one_out

    M = Model(c)
    tags(c, M, rec)
    k = kw(c)
    y, yv, D = c["y"], c["yv"], c["n"]
    K = c["vt"][y][1]
    X, X2 = cc.to_np(c["rows"]), cc.to_np(c["rows2"])
    t = {"rtol": 1e-7, "atol": 1e-9} if c["f64"] else {"rtol": 1e-3, "atol": 1e-4}

    def post(row):
        """p(y | other observed entries of row), None if that evidence is impossible"""
        idx = tuple(slice(None) if (i == y or math.isnan(v)) else int(v) for i, v in enumerate(row))
        t_ = M.p[idx]
        ax = sum(1 for i, v in enumerate(row) if i < y and math.isnan(v))
        q = t_.sum(axis=tuple(a for a in range(t_.ndim) if a != ax))
        return q / q.sum() if q.sum() > 1e-12 * M.p.sum() else None

    def cp(T, v):
        with torch.no_grad():
            return npy(conditional_probability(M.m, y_index=y, y_value=v, evidence=T, **k))

    T, T2 = cc.to_torch(X), cc.to_torch(X2)
    P, P2 = [post(r) for r in X], [post(r) for r in X2]
    rec.n(len(X) * K)
    got = np.stack([cp(T, v) for v in range(K)], 1)
    require(got.shape == (len(X), K), f"conditional probabilities have shape {got.shape}")
    for b, q in enumerate(P):
        if q is not None:
            close(got[b], q, f"p(x{y} | evidence row {b})", **t)
    # logit differences
    n, kk, eps = c["nn"], c["k"] or K, c["eps"] or 1e-6
    kw2 = dict(k)
    if c["k"]:
        kw2["k"] = c["k"]
    if c["eps"]:
        kw2["eps"] = c["eps"]

    def logit(q):
        L = min(max((q * n + 1) / (n + kk), eps), 1 - eps)
        return math.log(L) - math.log1p(-L), L

    def cmp(actual, q1, q2, what):
        if q1 is None or q2 is None:
            return
        (a, la), (b, lb) = logit(q1[yv]), logit(q2[yv])
        cond = max(1 / (la * (1 - la)), 1 / (lb * (1 - lb)))  # conditioning of the logit
        e = (1e-9 if c["f64"] else 2e-5) * cond + 1e-7
        if e < 0.1:
            close(actual, a - b, what, rtol=1e-6, atol=e)

    with torch.no_grad():
        w = npy(weight_of_evidence(M.m, y_index=y, y_value=yv, evidence_full=T, evidence_reduced=T2, n=n, **kw2))
        wr = npy(weight_of_evidence(M.m, y_index=y, y_value=yv, evidence_full=T2, evidence_reduced=T, n=n, **kw2))
        w0 = npy(weight_of_evidence(M.m, y_index=y, y_value=yv, evidence_full=T, evidence_reduced=T, n=n, **kw2))
        loo = npy(weight_of_evidence_leave_one_out(M.m, y_index=y, y_value=yv, x_instance=T, n=n, **kw2))
    require(w.shape == (len(X),), f"weight of evidence has shape {w.shape}")
    for b in range(len(X)):
        cmp(w[b], P[b], P2[b], f"weight of evidence of row {b}")
        if P[b] is not None and P2[b] is not None:
            close(w[b], -wr[b], "weight of evidence is not antisymmetric", rtol=1e-9, atol=1e-9)
            close(w0[b], 0.0, "weight of evidence of equal evidence", atol=1e-12)
    require(loo.shape == X.shape, f"leave-one-out scores have shape {loo.shape}")
    scored = 0
    for b in range(len(X)):
        for j in range(D):
            if j == y or math.isnan(X[b, j]):
                require(math.isnan(loo[b, j]), f"entry ({b},{j}) has score {loo[b, j]}, but it is the target or missing")
                continue
            r = X[b].copy()
            r[j] = math.nan
            cmp(loo[b, j], P[b], post(r), f"leave-one-out score ({b},{j})")
            scored += 1
    rec.n(scored)
    require(np.array_equal(npy(T), X, equal_nan=True) and np.array_equal(npy(T2), X2, equal_nan=True), "the evidence was modified")
    raises(lambda: weight_of_evidence(M.m, y_index=y, y_value=yv, evidence_full=T, evidence_reduced=T2[:, :-1], n=n), "evidence of different shapes", InvalidParameterError)
    raises(lambda: weight_of_evidence(M.m, y_index=y, y_value=yv, evidence_full=T, evidence_reduced=T2, n=0), "n=0", InvalidParameterError)
    raises(lambda: conditional_probability(M.m, y_index=y, y_value=yv, evidence=T[0]), "one-dimensional evidence", InvalidParameterError)


# --------------------------------------------------------------------------- models without enumerable domains, shifted scopes


@st.composite
def shift_case(draw):
    c = draw(st.fixed_dictionaries({
        "vars": st.lists(st.integers(0, 6), min_size=1, max_size=3, unique=True),
        "K": st.integers(2, 4), "C": st.integers(1, 3), "f64": st.booleans(), "seed": st.integers(0, 10**6),
        "bad": st.sampled_from(["Normal", "Poisson", "Geometric", "Binomial", "Exponential"]),
    }))
    c["sub"] = draw(st.lists(st.sampled_from(c["vars"]), min_size=1, max_size=3, unique=True))
    return c


def check_shift(c, rec):
    """Scopes need not start at 0; leaves without an enumerable domain are refused unless they are marginalized out."""
    import torch
    from spflow.exceptions import UnsupportedOperationError
    from spflow.measures import entropy, weight_of_evidence
    from spflow.modules import leaves
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    cc.set_dtype(c)
    r = np.random.RandomState(c["seed"])
    V, K, C = c["vars"], c["K"], c["C"]
    p = r.dirichlet(np.ones(K), size=(len(V), C, 1))
    w = r.dirichlet(np.ones(C))
    leaf = leaves.Categorical(scope=V, probs=torch.tensor(p, dtype=torch.get_default_dtype()))
    extra = max(V) + 2
    bad = {"Normal": lambda: leaves.Normal(scope=[extra], out_channels=C), "Poisson": lambda: leaves.Poisson(scope=[extra], out_channels=C),
           "Geometric": lambda: leaves.Geometric(scope=[extra], out_channels=C), "Exponential": lambda: leaves.Exponential(scope=[extra], out_channels=C),
           "Binomial": lambda: leaves.Binomial(scope=[extra], out_channels=C, total_count=torch.tensor(3.0))}[c["bad"]]()
    W = torch.tensor(w, dtype=torch.get_default_dtype()).reshape(1, C, 1, 1)
    joint = np.zeros([K] * len(V))
    for ch in range(C):
        t = np.ones(())
        for i in range(len(V)):
            t = np.multiply.outer(t, p[i, ch, 0])
        joint = joint + w[ch] * t
    m1 = Sum(inputs=Product(inputs=leaf), weights=W)
    m2 = Sum(inputs=Product(inputs=[leaf, bad]), weights=W)
    rec.tag(c["bad"], "from-zero" if sorted(V) == list(range(len(V))) else "shifted")
    rec.nt(sorted(V) != list(range(len(V))))
    rec.n(3)
    sub = c["sub"]
    ax = tuple(i for i, v in enumerate(V) if v not in sub)
    t = joint.sum(axis=ax).ravel()
    href = float(-(t * np.log(np.maximum(t, 1e-300))).sum())
    tt = tol(c)
    with torch.no_grad():
        close(float(entropy(m1, sub, method="exact")), href, f"entropy of {sub} under a model over {V}", **tt)
        close(float(entropy(m2, sub, method="exact")), href, f"entropy of {sub} with a {c['bad']} leaf marginalized out", **tt)
    raises(lambda: entropy(m2, sub + [extra], method="exact"), f"exact entropy over a {c['bad']} leaf", UnsupportedOperationError)
    raises(lambda: entropy(m1, sub + [extra], method="exact"), "exact entropy of a variable the model does not have", UnsupportedOperationError)
    X = torch.full((2, extra + 1), torch.nan)
    raises(lambda: weight_of_evidence(m2, y_index=extra, y_value=0, evidence_full=X, evidence_reduced=X, n=5), f"cardinality of a {c['bad']} leaf", UnsupportedOperationError)


PROP = Prop("C21", [
    Facet("exact", exact_case(), check_exact, quick=600, thorough=15000, rule="joint over >= 2 variables that are not all independent"),
    Facet("mc", mc_case(), check_mc, quick=300, thorough=5000, rule="joint over >= 2 variables that are not all independent"),
    Facet("cond", cond_case(), check_cond, quick=500, thorough=12000, rule="joint over >= 2 variables that are not all independent"),
    Facet("scopes", shift_case(), check_shift, quick=120, thorough=3000, rule="scope is not 0..n-1"),
])
