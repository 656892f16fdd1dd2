"""C22: inner and triple products, and circuits built from squares."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import leafgen as lg
from vf.core import Facet, Prop, close, raises, require
from vf.gof import gof

# --------------------------------------------------------------------------- leaf products against numerical integration

PAIR = ["Normal", "Laplace", "LogNormal", "Gamma", "Exponential", "Uniform", "Histogram", "Bernoulli", "Categorical", "Binomial",
        "Poisson", "Geometric", "NegativeBinomial", "Hypergeometric", "SignedCategorical"]
TRIPLE = ["Normal", "Uniform", "Histogram", "Bernoulli", "Categorical", "Binomial", "Geometric", "NegativeBinomial", "Hypergeometric",
          "SignedCategorical"]
GLX, GLW = np.polynomial.legendre.leggauss(24)


@st.composite
def leaf_case(draw):
    three = draw(st.booleans())
    kind = draw(st.sampled_from(TRIPLE if three else PAIR))
    F = 1 if kind == "Histogram" else draw(st.integers(1, 2))
    one = kind == "Histogram" and draw(st.booleans())  # the only segment
    return {"kind": kind, "F": F, "R": draw(st.integers(1, 2)), "C": [draw(st.integers(1, 3)) for _ in range(3 if three else 2)],
            "K": 1 if one else draw(st.sampled_from([1, 2, 3, 5])), "scope": draw(st.permutations(range(3)))[:F], "seed": draw(st.integers(0, 2**31 - 1)),
            "style": draw(st.sampled_from(["mild", "wide"])), "same": one or draw(st.sampled_from([False, False, True])),
            "degen": draw(st.integers(0, 5)) == 0, "signs": [draw(st.booleans()) for _ in range(3)], "big": draw(st.booleans())}


def leaf_parts(c):
    """(modules, params, kinds) of the factors; float64."""
    import torch

    mods, ps, kinds = [], [], []
    rng = np.random.default_rng(c["seed"] + 5)
    N = rng.integers(2, 24)
    for i, C in enumerate(c["C"]):
        kind = c["kind"]
        if kind == "SignedCategorical" and not c["signs"][i] and i:
            kind = "Categorical"
        d = {"kind": kind, "F": c["F"], "C": C, "R": c["R"], "D": 3, "K": c["K"], "scope": list(c["scope"]), "f64": True, "degen": c["degen"],
             "seed": c["seed"] + (0 if c["same"] else i), "style": c["style"], "form": "probs" if kind in lg.LOGIT else "plain", "via": "ctor"}
        if kind == "SignedCategorical":
            from spflow.zoo.sos.signed_categorical import SignedCategorical

            r = np.random.default_rng(d["seed"])
            w = r.normal(size=(c["F"], C, c["R"], c["K"])) * (r.random((c["F"], C, c["R"], c["K"])) < 0.85)
            mods.append(SignedCategorical(scope=list(c["scope"]), out_channels=C, num_repetitions=c["R"], weights=torch.tensor(w)))
            p = {"weights": w}
        else:
            p = lg.params(d)
            r = np.random.default_rng(d["seed"] + 9)
            if kind == "Hypergeometric":  # products need one population size
                Kh, n = r.integers(0, N + 1, (1, C, c["R"])), r.integers(0, N + 1, (1, C, c["R"]))
                s = (c["F"], C, c["R"])
                p = {"K": np.broadcast_to(Kh, s).astype(float).copy(), "N": np.full(s, float(N)), "n": np.broadcast_to(n, s).astype(float).copy()}
            if kind == "Histogram" and c["same"]:  # shared edges
                e = lg.params({**d, "seed": c["seed"]})["bin_edges"][:c["K"] + 1]
                p = {"bin_edges": e, "probs": r.dirichlet(np.ones(len(e) - 1), size=(1, C, c["R"]))}
            if kind == "Poisson" and c["big"]:
                p["rate"] = r.uniform(200, 900, p["rate"].shape)
            if kind in ("Normal", "Laplace") and c["style"] == "wide":  # keep the factors near each other
                p["loc"] = p["loc"] * 0.02
            mods.append(lg.build(d, p))
        ps.append(p)
        kinds.append(kind)
    return mods, ps, kinds


def _entry(p, f, ch, r):
    return {k: v if k == "bin_edges" else v[f, ch, r] for k, v in p.items()}


def density(kind, x, e):
    if kind == "Categorical":
        return e["probs"][x.astype(int)]
    if kind == "SignedCategorical":
        return e["weights"][x.astype(int)]
    if kind == "Histogram":
        E, P = e["bin_edges"], e["probs"]
        i = np.searchsorted(E, x, side="right") - 1
        ok = (i >= 0) & (i < len(P))
        i = np.clip(i, 0, len(P) - 1)
        return np.where(ok, P[i] / (E[i + 1] - E[i]), 0.0)
    with np.errstate(all="ignore"):
        return np.exp(cc.leaf_logpdf(kind, x, e))


def integrate(kinds, es):
    """Integral / sum of the product of densities."""
    k = kinds[0]
    Q = np.concatenate([[1e-14, 1e-10, 1e-7], np.linspace(1e-5, 1 - 1e-5, 25), [1 - 1e-7, 1 - 1e-10]])
    f = lambda x: np.prod([density(kk, x, e) for kk, e in zip(kinds, es)], axis=0)
    if k in ("Categorical", "SignedCategorical"):
        return float(f(np.arange(len(es[0].get("probs", es[0].get("weights"))))).sum())
    if k in lg.DISCRETE:
        hi = max(float(cc.frozen(kk, e).ppf(1 - 1e-15)) for kk, e in zip(kinds, es))
        return float(f(np.arange(0, int(min(hi, 20000)) + 2, dtype=float)).sum())
    if k == "Histogram":
        b = np.unique(np.concatenate([e["bin_edges"] for e in es]))
        return float((f((b[1:] + b[:-1]) / 2) * np.diff(b)).sum())
    if k == "Uniform":
        b = np.unique(np.concatenate([[e["low"], e["high"]] for e in es]))
        return float((f((b[1:] + b[:-1]) / 2) * np.diff(b)).sum())
    qs = np.concatenate([cc.frozen(kk, e).ppf(Q) for kk, e in zip(kinds, es)])
    qs = qs[np.isfinite(qs)]
    if k in ("Gamma", "Exponential", "LogNormal"):  # x = exp(t)
        t = np.log(qs[qs > 0])
        b = np.unique(np.concatenate([t, np.linspace(t.min() - 300, t.max() + 8, 500), np.linspace(t.min() - 3, t.max() + 3, 200)]))
        b = b[b < 700]

        def lp(kk, t, e):
            if kk != "Gamma":
                return cc.leaf_logpdf(kk, np.exp(t), e)
            a, r = e["concentration"], e["rate"]  # exp(t) may underflow
            return a * np.log(r) - math.lgamma(a) + (a - 1) * t - r * np.exp(t)

        if k == "Gamma":
            b = np.unique(np.concatenate([b, np.linspace(t.min() - 45 / (sum(e["concentration"] for e in es) - 1), t.min(), 500)]))

        def g(t):
            with np.errstate(all="ignore"):
                return np.nan_to_num(np.exp(sum(lp(kk, t, e) for kk, e in zip(kinds, es)) + t), nan=0.0)
    else:
        ext = [e["loc"] for e in es]
        lo, hi = qs.min(), qs.max()
        w = hi - lo
        b = np.unique(np.concatenate([qs, ext, np.linspace(lo - w, hi + w, 60), *[np.linspace(e["loc"] - 12 * e["scale"], e["loc"] + 12 * e["scale"], 60) for e in es]]))
        g = f
    h, m = np.diff(b) / 2, (b[1:] + b[:-1]) / 2
    x = m[:, None] + h[:, None] * GLX[None]
    return float((g(x) * GLW[None] * h[:, None]).sum())


def check_leaf(c, rec):
    import torch
    from spflow.exceptions import ShapeError, UnsupportedOperationError
    from spflow.utils.inner_product import inner_product_matrix, leaf_inner_product, triple_product_tensor

    torch.set_default_dtype(torch.float64)
    mods, ps, kinds = leaf_parts(c)
    three = len(mods) == 3
    rec.tag(("triple:" if three else "pair:") + c["kind"], c["style"], "same" if c["same"] else "different")
    rec.nt(True)
    bad = c["kind"] == "Gamma" and any(
        (ps[0]["concentration"][:, i, :] + ps[1]["concentration"][:, j, :] <= 1.0).any() for i in range(c["C"][0]) for j in range(c["C"][1]))
    if bad:  # the integral diverges
        raises(lambda: leaf_inner_product(*mods), "divergent Gamma product", UnsupportedOperationError)
        return
    with torch.no_grad():
        if three:
            got = triple_product_tensor(*mods).numpy()
        else:
            got = leaf_inner_product(*mods).numpy()
            g2 = inner_product_matrix(*mods).numpy()
            require(np.array_equal(g2, got, equal_nan=True), "inner_product_matrix of two leaves differs from leaf_inner_product")
            rev = leaf_inner_product(mods[1], mods[0]).numpy()
            close(np.swapaxes(rev, 1, 2), got, "inner product is not symmetric", rtol=1e-10, atol=1e-300)
    if not three and any(q.requires_grad for m in mods for q in m.parameters()):  # gradients exist, also where both leaves have the same parameters
        leaf_inner_product(*mods).sum().backward()
        for k, mod in enumerate(mods):
            for n, q in mod.named_parameters():
                require(q.grad is None or bool(torch.isfinite(q.grad).all()), f"gradient of the inner product w.r.t. {n} of leaf {k} is not finite")
    shape = (c["F"], *c["C"], c["R"])
    require(got.shape == shape, f"product has shape {got.shape}, expected {shape}")
    want = np.empty(shape)
    for idx in np.ndindex(*shape):
        es = [_entry(p, idx[0], idx[1 + i], idx[-1]) for i, p in enumerate(ps)]
        want[idx] = integrate(kinds, es)
        rec.n()
    scale = np.maximum(np.abs(want), np.abs(got)).max()
    # tiny values sit in the far tails where the quadrature itself is unreliable
    norms = 1e-12 * max(1e-3, min(1.0, scale)) if c["kind"] != "SignedCategorical" else 1e-13
    close(got, want, f"{'triple' if three else 'inner'} product of {c['kind']} leaves", rtol=2e-6, atol=norms)
    other = [v for v in range(6) if v not in c["scope"]][:c["F"]]
    d = {"kind": "Normal", "F": c["F"], "C": 1, "R": c["R"], "D": 6, "K": 2, "scope": other, "f64": True, "seed": 1, "style": "mild", "form": "plain", "via": "ctor", "degen": False}
    foreign = lg.build(d, lg.params(d))
    raises(lambda: inner_product_matrix(mods[0], foreign), "inner product over different scopes", (ShapeError, UnsupportedOperationError))


@st.composite
def pwl_case(draw):
    F = draw(st.integers(1, 2))
    return {"F": F, "R": draw(st.integers(1, 2)), "C": [draw(st.integers(1, 2)) for _ in range(draw(st.integers(2, 3)))], "N": draw(st.sampled_from([6, 20, 60])),
            "seed": draw(st.integers(0, 2**31 - 1)), "alpha": draw(st.sampled_from([0.0, 0.5])), "apart": draw(st.sampled_from([0, 0, 1, 10])),
            "share": draw(st.booleans())}


def check_pwl(c, rec):
    import torch
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain
    from spflow.utils.inner_product import leaf_inner_product, triple_product_tensor

    torch.set_default_dtype(torch.float32)
    torch.manual_seed(c["seed"])
    mods = []
    for i, C in enumerate(c["C"]):
        rng = np.random.default_rng(c["seed"] + (0 if c["share"] else i))
        x = rng.normal(size=(c["N"], c["F"])) * rng.uniform(0.3, 2, c["F"]) + i * c["apart"]
        m = PiecewiseLinear(scope=list(range(c["F"])), out_channels=C, num_repetitions=c["R"], alpha=c["alpha"])
        m.initialize(torch.tensor(x, dtype=torch.float32), [Domain.continuous_range(float(a.min()), float(a.max())) for a in x.T.astype(np.float32)])
        mods.append(m)
    rec.tag(f"{len(mods)}factors", f"apart{c['apart']}")
    rec.nt(True)
    with torch.no_grad():
        got = (triple_product_tensor(*mods) if len(mods) == 3 else leaf_inner_product(*mods)).double().numpy()
    shape = (c["F"], *c["C"], c["R"])
    require(got.shape == shape, f"product has shape {got.shape}, expected {shape}")
    g, w = GLX[None] / 2 + 0.5, GLW / 2
    for idx in np.ndindex(*shape):
        kn = [(m.xs[idx[-1]][idx[1 + i]][idx[0]][0].double().numpy(), m.ys[idx[-1]][idx[1 + i]][idx[0]][0].double().numpy()) for i, m in enumerate(mods)]
        b = np.unique(np.concatenate([k[0] for k in kn]))
        x = b[:-1, None] + np.diff(b)[:, None] * g
        f = np.prod([np.interp(x, *k, left=0, right=0) for k in kn], axis=0)
        close(got[idx], float((f * w * np.diff(b)[:, None]).sum()), f"product of piecewise linear leaves at {idx}", rtol=1e-4, atol=1e-6)
        rec.n()


# --------------------------------------------------------------------------- circuits

KINDS = ("Categorical", "Bernoulli", "Binomial", "Hypergeometric")


@st.composite
def skeleton(draw, signed=True, maxstates=48, roots=True):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    vk = []
    for _ in range(n):
        k = draw(st.sampled_from(KINDS + ("Categorical",)))
        vk.append([k, 2 if k == "Bernoulli" else draw(st.sampled_from([2, 2, 3]))])
    if draw(st.booleans()):
        vk = [vk[0]] * n
    while math.prod(k[1] for k in vk) > maxstates:
        vk[max(range(n), key=lambda i: vk[i][1])] = ["Categorical", 2]

    def leafs(vars_):
        """a list of nodes covering vars_ (each a leaf over variables of one kind)"""
        out, rest = [], list(vars_)
        while rest:
            same = [v for v in rest if vk[v] == vk[rest[0]]]
            k = draw(st.integers(1, len(same)))
            b = list(draw(st.permutations(same)))[:k]
            if vk[b[0]][0] == "Categorical" and k > 1 and draw(st.integers(0, 3)) == 0:
                par = [-1] + [draw(st.integers(0, i - 1)) for i in range(1, k)]
                out.append({"t": "prod", "kids": [{"t": "cltree", "vars": b, "parents": par}]})
            else:
                out.append({"t": "leaf", "vars": b})
            rest = [v for v in rest if v not in b]
        return out

    def gen(vars_, d):
        """node over vars_, any number of features"""
        L = leafs(vars_)
        opts = []
        if len(L) == 1:
            opts += ["leaf"]
        if len(vars_) > 1 or len(L) > 1:
            opts += ["prod", "prod"]
        if d > 0:
            opts += ["sum"] * 4
        if len(vars_) > 1 and d > 0:
            opts += ["cat"]
        o = draw(st.sampled_from(opts))
        if o == "leaf":
            return L[0]
        if o == "sum":
            k = draw(st.integers(1, 2))
            kid = gen(vars_, d - 1)
            return {"t": "sum", "multi": k > 1, "kid": kid}
        if len(vars_) == 1:
            return {"t": "prod", "kids": L}
        perm = list(draw(st.permutations(vars_)))
        cut = draw(st.integers(1, len(perm) - 1))
        kids = [gen(perm[:cut], d - 1) if d > 0 else x for x in [perm[:cut]]] if d > 0 else leafs(perm[:cut])
        kids = kids + ([gen(perm[cut:], d - 1)] if d > 0 else leafs(perm[cut:]))
        return {"t": o if o == "cat" and len(kids) > 1 else "prod", "kids": kids}

    sk = gen(list(range(n)), draw(st.sampled_from([1, 2, 2, 2, 3])))
    sk = {"t": "prod", "kids": [sk]}
    if draw(st.integers(0, 3)):
        sk = {"t": "sum", "multi": draw(st.booleans()), "kid": sk}
    return {"n": n, "vk": vk, "sk": sk, "seed": draw(st.integers(0, 2**31 - 1)), "f64": draw(st.sampled_from([True, True, True, False])),
            "R": draw(st.sampled_from([1, 1, 2])), "signed": signed and draw(st.sampled_from([True, True, False])),
            "scale": draw(st.sampled_from(["unit", "unit", "tiny", "zeros"]))}


class Inst:
    """One circuit of the skeleton: SPFlow module plus a function giving its real values and the sum of absolute terms."""

    def __init__(self, c, which, C=1, R=None):
        self.c, self.R = c, R or c["R"]
        self.rng = np.random.default_rng([c["seed"], which])
        self.mod, self.fn = self.make(c["sk"], C)

    def kinds(self):
        return self.c["vk"]

    def weights(self, F, I, O, signed):
        r = self.rng
        if not signed:
            w = r.gamma(1.0, 1.0, (F, I, O, self.R)) + 1e-3
            return w / w.sum(1, keepdims=True)
        w = r.normal(size=(F, I, O, self.R))
        if self.c["scale"] == "tiny":
            w = w * 1e-3
        if self.c["scale"] == "zeros":
            w = np.where(r.random(w.shape) < 0.35, 0.0, w)
        return w

    def make(self, s, C):
        import torch
        from spflow.modules.leaves import CLTree
        from spflow.modules.ops import Cat
        from spflow.modules.products import Product
        from spflow.modules.sums import Sum
        from spflow.modules.sums.signed_sum import SignedSum
        from spflow.zoo.sos.signed_categorical import SignedCategorical

        T = lambda a: torch.tensor(a, dtype=torch.get_default_dtype())
        r64 = lambda t: t.detach().double().numpy()
        r = self.rng
        if s["t"] == "leaf":
            kind, K = self.c["vk"][s["vars"][0]]
            V, F = s["vars"], len(s["vars"])
            if kind == "Categorical" and self.c["signed"] and r.random() < 0.4:
                w = T(r.normal(size=(F, C, self.R, K)))
                m = SignedCategorical(scope=V, out_channels=C, num_repetitions=self.R, weights=w)
                W = r64(w)

                def fn(X):
                    v = np.stack([W[f][:, :, X[:, x].astype(int)].transpose(2, 0, 1) for f, x in enumerate(V)], 1)
                    return v, np.abs(v)
                return m, fn
            p = cc.leaf_params(kind, F, C, self.R, K, cc.Par(int(r.integers(2**31)), "mild"))
            if kind == "Hypergeometric":  # one population size, free K
                N = 9.0
                p = {"K": np.full((F, C, self.R), float(r.integers(K - 1, 10 - (K - 1)))), "N": np.full((F, C, self.R), N), "n": np.full((F, C, self.R), float(K - 1))}
            m = cc.make_leaf(kind, V, C, self.R, p, K)
            p = {k: r64(T(v)) for k, v in p.items()}
            ref = cc.RLeaf(kind, V, C, self.R, p)

            def fn(X):
                v = np.exp(ref.ll(X, {}))
                return v, v
            return m, fn
        if s["t"] == "cltree":
            V, F = s["vars"], len(s["vars"])
            K = self.c["vk"][V[0]][1]
            cpt = r.gamma(1.0, 1.0, (F, C, self.R, K, K)) + 0.02
            cpt[0] = cpt[0, :, :, :, :1]
            cpt = T(cpt / cpt.sum(3, keepdims=True))
            m = CLTree(scope=V, out_channels=C, num_repetitions=self.R, K=K, parents=torch.tensor(s["parents"]), log_cpt=cpt.log())
            P = r64(cpt.log().exp())

            def fn(X):
                out = np.ones((len(X), F, C, self.R))
                for f, v in enumerate(V):
                    x = X[:, v].astype(int)
                    xp = X[:, V[s["parents"][f]]].astype(int) if s["parents"][f] >= 0 else np.zeros(len(X), int)
                    out[:, 0] *= P[f][:, :, x, xp].transpose(2, 0, 1)
                return out, out
            return m, fn
        if s["t"] in ("prod", "cat"):
            kids = [self.make(k, C) for k in s["kids"]]
            mods = [k[0] for k in kids]

            def cat(X):
                vs = [k[1](X) for k in kids]
                return np.concatenate([v[0] for v in vs], 1), np.concatenate([v[1] for v in vs], 1)
            if s["t"] == "cat":
                return Cat(mods, dim=1), cat
            m = Product(mods[0] if len(mods) == 1 and r.random() < 0.5 else mods)

            def fn(X):
                a, b = cat(X)
                return a.prod(1, keepdims=True), b.prod(1, keepdims=True)
            return m, fn
        k = (3 if r.random() < 0.15 else 2) if s["multi"] else 1
        kids = [self.make(s["kid"], int(r.integers(1, 4))) for _ in range(k)]
        mods = [x[0] for x in kids]
        F, I = mods[0].out_shape.features, sum(m.out_shape.channels for m in mods)
        has_signed = any(type(x).__name__ in ("SignedSum", "SignedCategorical") for m in mods for x in m.modules())
        signed = self.c["signed"] and (has_signed or bool(r.random() < 0.7))
        w = T(self.weights(F, I, C, signed))
        cls = SignedSum if signed else Sum
        kw = {"out_channels": C, "num_repetitions": self.R} if signed else {}
        m = cls(inputs=mods if k > 1 or r.random() < 0.5 else mods[0], weights=w, **kw)
        W = r64(m.weights)

        def fn(X):
            vs = [x[1](X) for x in kids]
            a, b = np.concatenate([v[0] for v in vs], 2), np.concatenate([v[1] for v in vs], 2)
            return np.einsum("bfir,fior->bfor", a, W), np.einsum("bfir,fior->bfor", b, np.abs(W))
        return m, fn


def states(c):
    return cc.all_states([["cat", k[1]] for k in c["vk"]])


def has_signed(m):
    return any(type(x).__name__ in ("SignedSum", "SignedCategorical") for x in m.modules())


def tags(c, rec, *mods):
    def walk(s):
        yield s
        for k in s.get("kids", []) + ([s["kid"]] if "kid" in s else []):
            yield from walk(k)
    ts = [s["t"] + (":list" if s.get("multi") else "") for s in walk(c["sk"])]
    rec.tag(*sorted(set(ts)), f"R{c['R']}", "signed" if any(has_signed(m) for m in mods) else "monotone", *(k[0] for k in c["vk"]), c["scale"])
    rec.nt(c["n"] > 1 and any(t.startswith("sum") for t in ts))


@st.composite
def prod_case(draw):
    c = draw(skeleton())
    c["C"] = [draw(st.integers(1, 3)) for _ in range(3)]
    return c


def check_products(c, rec):
    import torch
    from spflow.exceptions import UnsupportedOperationError
    from spflow.modules.sos.socs import _signed_eval
    from spflow.utils.cache import Cache
    from spflow.utils.inner_product import inner_product_matrix, log_self_inner_product_scalar, triple_product_scalar, triple_product_tensor

    cc.set_dtype(c)
    A = [Inst(c, i, c["C"][i]) for i in range(3)]
    tags(c, rec, *[a.mod for a in A])
    X = states(c)
    T = cc.to_torch(X)
    V = [a.fn(X) for a in A]
    e = 1e-10 if c["f64"] else 2e-5
    rec.n(len(X))
    # signed evaluation
    for a, (v, s) in zip(A, V):
        with torch.no_grad():
            la, sg = _signed_eval(a.mod, T, Cache())
        got = (la.double().exp() * sg.double()).numpy()
        require(got.shape == v.shape, f"signed evaluation has shape {got.shape}, expected {v.shape}")
        require(set(np.unique(sg.numpy())) <= {-1, 0, 1}, "signs are not in {-1,0,1}")
        err = np.abs(got - v)
        bad = err > e * s + 1e-25
        require(not bad.any(), lambda: f"signed value {got[bad][0]} differs from {v[bad][0]} (state {X[np.argwhere(bad)[0][0]]})")
    m = [a.mod for a in A]
    (a, sa), (b, sb), (d, sd) = V
    want = np.einsum("bfir,bfjr->fijr", a, b)
    lim = np.einsum("bfir,bfjr->fijr", sa, sb)
    cache = Cache()
    with torch.no_grad():
        got = inner_product_matrix(m[0], m[1]).double().numpy()
        c1 = inner_product_matrix(m[0], m[1], cache=cache).double().numpy()
        c2 = inner_product_matrix(m[1], m[0], cache=cache).double().numpy()
        c3 = inner_product_matrix(m[0], m[1], cache=cache).double().numpy()
        tree = any(s["t"] == "cltree" for s in _walk(c["sk"]))
        if tree:
            raises(lambda: triple_product_tensor(*m), "triple product with CLTree leaves", UnsupportedOperationError)
        else:
            t1 = triple_product_tensor(*m, cache=cache).double().numpy()
            t2 = triple_product_tensor(m[1], m[0], m[2], cache=cache).double().numpy()
            t3 = triple_product_tensor(m[2], m[0], m[1], cache=cache).double().numpy()
            # without a cache the cost is exponential in the depth
            tri = triple_product_tensor(*m).double().numpy() if sum(x["t"] == "sum" for x in _walk(c["sk"])) < 3 and max(c["C"]) < 3 else t1
        self_ = inner_product_matrix(m[2], m[2], cache=cache).double().numpy()

    def cmp(x, w, l, what):
        require(x.shape == w.shape, f"{what}: shape {x.shape}, expected {w.shape}")
        bad = np.abs(x - w) > e * l + 1e-28
        require(not bad.any(), lambda: f"{what}: {x[bad][0]}, expected {w[bad][0]}")

    cmp(got, want, lim, "inner product")
    cmp(c1, want, lim, "inner product (empty cache)")
    cmp(c2, np.swapaxes(want, 1, 2), np.swapaxes(lim, 1, 2), "inner product (swapped, cached)")
    cmp(c3, want, lim, "inner product (cached)")
    wt = np.einsum("bfir,bfjr,bfkr->fijkr", a, b, d)
    lt = np.einsum("bfir,bfjr,bfkr->fijkr", sa, sb, sd)
    if tree:
        return
    cmp(tri, wt, lt, "triple product")
    cmp(t1, wt, lt, "triple product (empty cache)")
    cmp(t2, np.swapaxes(wt, 1, 2), np.swapaxes(lt, 1, 2), "triple product (swapped, cached)")
    cmp(t3, wt.transpose(0, 3, 1, 2, 4), lt.transpose(0, 3, 1, 2, 4), "triple product (rotated, cached)")
    cmp(self_, np.einsum("bfir,bfjr->fijr", d, d), np.einsum("bfir,bfjr->fijr", sd, sd), "self inner product (cached)")
    if tuple(m[0].out_shape) == (1, 1, 1):
        with torch.no_grad():
            z = float(log_self_inner_product_scalar(m[0]))
        zz = float((a * a).sum())
        if zz > 1e-250 and zz > 1e-4 * float((sa * sa).sum()):
            close(z, math.log(zz), "log self inner product", rtol=1e-6, atol=1e-6 if c["f64"] else 1e-2)
        if all(tuple(x.out_shape) == (1, 1, 1) for x in m):
            with torch.no_grad():
                t = float(triple_product_scalar(*m))
            require(abs(t - wt.item()) <= e * lt.item() + 1e-28, f"triple product scalar {t}, expected {wt.item()}")


def _walk(s):
    yield s
    for k in s.get("kids", []) + ([s["kid"]] if "kid" in s else []):
        yield from _walk(k)


# --------------------------------------------------------------------------- SOCS


@st.composite
def socs_case(draw):
    c = draw(skeleton())
    c["exp"] = draw(st.booleans())
    c["C"] = 1 if c["exp"] else draw(st.sampled_from([1, 1, 2, 3]))
    if c["exp"]:
        c["R"] = 1
        s = c["sk"]
        if any(x["t"] == "cltree" for x in _walk(s)):
            c["exp"] = False
    c["r"] = draw(st.integers(1, 3))
    c["rng"] = draw(st.integers(0, 10**6))
    return c


def mono(c):
    return {**c, "signed": False, "scale": "unit"}


def build_socs_case(c):
    comps = [Inst(c, i, c["C"]) for i in range(c["r"])]
    M = Inst(mono(c), 99, 1) if c["exp"] else None
    return comps, M


def check_socs(c, rec):
    import torch
    from spflow.exceptions import UnsupportedOperationError
    from spflow.zoo.sos import ExpSOCS, SOCS

    cc.set_dtype(c)
    comps, M = build_socs_case(c)
    m = ExpSOCS(monotone=M.mod, components=[k.mod for k in comps]) if c["exp"] else SOCS([k.mod for k in comps])
    tags(c, rec, *[k.mod for k in comps])
    rec.tag("exp" if c["exp"] else "socs", f"components{c['r']}")
    X = states(c)
    T = cc.to_torch(X)
    vs = [k.fn(X) for k in comps]
    w = sum(v**2 for v, _ in vs)
    lim = sum(s**2 for _, s in vs)
    if M:
        mv = M.fn(X)[0]
        w, lim = w * mv, lim * mv
    Z = w.sum(0)
    rec.n(len(X))
    ok = (Z > 1e-25) & (Z > (1e-5 if c["f64"] else 1e-2) * lim.sum(0))  # cancellation leaves enough digits
    with torch.no_grad():
        ll = m.log_likelihood(T)
    require(tuple(ll.shape) == w.shape, f"log-likelihood has shape {tuple(ll.shape)}, expected {w.shape}")
    require(tuple(m.out_shape) == w.shape[1:], f"out_shape is {tuple(m.out_shape)}, expected {w.shape[1:]}")
    require(set(m.scope.query) == set(range(c["n"])), f"scope is {m.scope}")
    p = ll.double().exp().numpy()
    e = 1e-9 if c["f64"] else 2e-4
    for idx in np.argwhere(ok):
        i = (slice(None), *idx)
        cond = (lim[i] / Z[tuple(idx)]).max()
        t = e * max(1.0, lim[i].sum() / Z[tuple(idx)])
        require(np.isfinite(p[i]).all(), f"log-likelihood is not finite or -inf for output {tuple(idx)}")
        close(p[i], w[i] / Z[tuple(idx)], f"density of output {tuple(idx)}", rtol=0, atol=t + 10 * e * cond)
        close(p[i].sum(), 1.0, f"total probability of output {tuple(idx)}", rtol=0, atol=len(X) * t)
    if c["exp"]:
        raises(lambda: m.sample(num_samples=2), "ExpSOCS.sample", UnsupportedOperationError)


# --------------------------------------------------------------------------- sampling


def check_sample(c, rec):
    """Independence Metropolis-Hastings: after 60 steps the distance to the target is at most (1 - 1/M)^60."""
    import torch
    from spflow.learn.build_socs import build_abs_weight_proposal
    from spflow.zoo.sos import SOCS

    cc.set_dtype(c)
    c = {**c, "C": 1, "R": 1, "exp": False}
    comps, _ = build_socs_case(c)
    m = SOCS([k.mod for k in comps])
    X = states(c)
    T = cc.to_torch(X)
    vs = [k.fn(X) for k in comps]
    zs = [float((v**2).sum()) for v, _ in vs]
    slow = 0.0
    for k, (v, s), z in zip(comps, vs, zs):
        with torch.no_grad():
            q = build_abs_weight_proposal(k.mod) if has_signed(k.mod) else k.mod
            lq = q.log_likelihood(T).double().exp().numpy().ravel()
        close(lq.sum(), 1.0, "total probability of the proposal", rtol=1e-6 if c["f64"] else 1e-3)
        require(not has_signed(q), "the proposal still contains signed nodes")
        t = (v**2).ravel()
        require(((lq > 0) | (t <= 1e-12 * max(z, 1e-300))).all(), "the proposal does not cover the component")
        if z < 1e-20 or z < 1e-4 * float((s**2).sum()):
            return
        M = float((t[lq > 0] / z / lq[lq > 0]).max())
        slow = max(slow, (1 - 1 / max(M, 1.0)) ** 60)
    tags(c, rec, *[k.mod for k in comps])
    if slow > 1e-4:
        rec.tag("slow-mixing")
        return
    rec.tag("tested")
    rec.nt(len(X) > 2 and c["r"] > 1)
    rec.n(2000)
    w = sum(v**2 for v, _ in vs).ravel()
    mult = np.cumprod([1] + [k[1] for k in c["vk"]][::-1])[::-1][1:]
    torch.manual_seed(c["rng"])

    def draw(n):
        with torch.no_grad():
            s = m.sample(num_samples=n).double().numpy()
        require(s.shape == (n, c["n"]) and np.isfinite(s).all(), "samples are incomplete")
        return (s @ mult).astype(int)

    gof(draw, w / w.sum(), "samples of the sum of squares", n=1500, n2=12000)


# --------------------------------------------------------------------------- builders


@st.composite
def builder_case(draw):
    c = draw(skeleton(signed=False))
    c["r"] = draw(st.integers(1, 4))
    c["flip"] = draw(st.sampled_from([0.0, 0.5, 1.0]))
    c["noise"] = draw(st.sampled_from([0.0, 0.0, 0.05, 0.5]))
    c["sgn"] = draw(st.sampled_from([True, True, False]))
    c["bs"] = draw(st.one_of(st.none(), st.integers(0, 1000)))
    return c


def check_builder(c, rec):
    import copy

    import torch
    from spflow.learn.build_socs import build_complex_socs, build_socs
    from spflow.modules.sums import Sum
    from spflow.modules.sums.signed_sum import SignedSum

    cc.set_dtype(c)
    A = Inst(c, 0, 1)
    tags(c, rec, A.mod)
    rec.tag("signed" if c["sgn"] else "unsigned", f"flip{c['flip']}", f"noise{c['noise']}")
    X = states(c)
    T = cc.to_torch(X)
    before = copy.deepcopy(A.mod.state_dict())
    kw = dict(num_components=c["r"], signed=c["sgn"], noise_scale=c["noise"], flip_prob=c["flip"], seed=c["bs"])
    torch.manual_seed(3)
    m = build_socs(A.mod, **kw)
    require(all(torch.equal(v, before[k]) for k, v in A.mod.state_dict().items()), "build_socs changed the template")
    require(len(m.components) == c["r"], f"{len(m.components)} components, expected {c['r']}")
    tw = [x.weights.detach() for x in A.mod.modules() if isinstance(x, Sum)]
    rec.n(c["r"])
    for comp in m.components:
        ss = [x for x in comp.modules() if isinstance(x, SignedSum)]
        require(not c["sgn"] or not any(isinstance(x, Sum) for x in comp.modules()), "a sum was not converted")
        if not c["sgn"]:
            require(not ss, "unsigned component has signed sums")
            with torch.no_grad():
                require(torch.equal(comp.log_likelihood(T), A.mod.log_likelihood(T)), "unsigned component differs from the template")
            continue
        require(len(ss) == len(tw), f"{len(ss)} signed sums for {len(tw)} sums")
        if c["noise"] == 0:
            for x, w in zip(ss, tw):
                close(x.weights.detach().abs().double().numpy(), w.double().numpy(), "weights without noise", rtol=1e-6)
                if c["flip"] in (0.0, 1.0):
                    require(bool(((x.weights < 0) == (c["flip"] == 1.0)).all()), f"flip probability {c['flip']} not respected")
    if c["bs"] is not None:
        torch.manual_seed(4)
        n = build_socs(A.mod, **kw)
        require(all(torch.equal(a, b) for a, b in zip(m.parameters(), n.parameters())), "the same seed gives different components")
    with torch.no_grad():
        p = m.log_likelihood(T).double().exp().numpy()
    if c["noise"] == 0 and (c["flip"] == 0.0 or not c["sgn"]):
        t = A.fn(X)[0] ** 2
        close(p, t / t.sum(0), "density of unperturbed components", rtol=1e-6 if c["f64"] else 1e-3, atol=1e-9)
    if np.isfinite(p).all() and c["noise"] == 0:
        pass
    # |a + ib|^2
    B = Inst(c, 1, 1)
    z = build_complex_socs(A.mod, B.mod)
    with torch.no_grad():
        q = z.log_likelihood(T).double().exp().numpy()
    v = np.abs(A.fn(X)[0] + 1j * B.fn(X)[0]) ** 2
    close(q, v / v.sum(0), "density of the complex square", rtol=1e-6 if c["f64"] else 1e-3, atol=1e-9)


@st.composite
def model_case(draw):
    img = draw(st.sampled_from([None, None, [1, 1, 2], [1, 2, 2], [2, 1, 2], [1, 1, 4], [1, 1, 3], [2, 2, 1]]))
    n = math.prod(img) if img else draw(st.integers(1, 5))
    inp = draw(st.sampled_from(["categorical", "embedding", "embedding", "gaussian"]))
    return {"img": img, "n": n, "inp": inp, "K": draw(st.sampled_from([2, 3] if n < 5 else [2])),
            "iu": draw(st.integers(1, 3)), "su": draw(st.integers(1, 3)), "mi": draw(st.integers(1, 3)), "ms": draw(st.integers(1, 3)), "sq": draw(st.integers(1, 3)),
            "rg": draw(st.sampled_from(["rnd-bt", "rnd-lt", "lt"] + (["qt", "qt-2", "qt-4"] if img else []))),
            "sd": draw(st.booleans()), "cplx": draw(st.booleans()), "nm": draw(st.sampled_from([None, None, True, False])),
            "exp": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "f64": draw(st.sampled_from([True, True, False]))}


def check_model(c, rec):
    import torch
    from spflow.zoo.sos import ExpSOSModel, SOSModel

    cc.set_dtype(c)
    kw = dict(num_variables=c["n"], image_shape=tuple(c["img"]) if c["img"] else None, num_input_units=c["iu"], num_sum_units=c["su"], input_layer=c["inp"],
              input_layer_kwargs={"categorical": {"num_categories": c["K"]}, "embedding": {"num_states": c["K"]}, "gaussian": None}[c["inp"]],
              region_graph=c["rg"], structured_decomposable=c["sd"], complex=c["cplx"], non_monotonic_inputs=c["nm"], seed=c["seed"])
    if c["exp"]:
        kw.update(mono_num_input_units=c["mi"], mono_num_sum_units=c["ms"])
    else:
        kw["num_squares"] = c["sq"]
    cls = ExpSOSModel if c["exp"] else SOSModel
    torch.manual_seed(1)
    m = cls(**kw)
    rec.tag(cls.__name__, c["rg"], c["inp"], "complex" if c["cplx"] else "real")
    rec.nt(c["n"] > 1)
    require(sorted(m.scope.query) == list(range(c["n"])), f"model covers {m.scope}, not {c['n']} variables")
    k = (1 if c["exp"] else c["sq"]) * (2 if c["cplx"] else 1)
    require(len(m.components) == k, f"{len(m.components)} components, expected {k}")
    require(len(m.complex_component_pairs) == (k // 2 if c["cplx"] else 0), "wrong number of real/imaginary pairs")
    leaves = {}
    for comp in m.components:
        require(sorted(comp.scope.query) == list(range(c["n"])), f"component covers {comp.scope}")
        seen = sorted(v for x in comp.modules() if type(x).__name__ in ("Normal", "Categorical", "SignedCategorical") for v in x.scope.query)
        require(seen == list(range(c["n"])), f"leaves cover {seen}")
    from spflow.modules.sos.socs import _signed_eval
    from spflow.utils.cache import Cache

    if c["inp"] == "gaussian":
        # the 1-D marginal densities cannot be enumerated: the density is integrated for one or two variables
        if c["n"] > 2:
            return
        g = np.linspace(-14, 14, 281)
        X = g[:, None] if c["n"] == 1 else np.stack(np.meshgrid(g, g, indexing="ij"), -1).reshape(-1, 2)
        vol = (g[1] - g[0]) ** c["n"]
        scales = [x.scale.detach() for x in m.modules() if type(x).__name__ == "Normal"]
        if min(float(s.min()) for s in scales) < 0.3 or max(float(s.max()) for s in scales) > 2.5:
            return
    else:
        X, vol = cc.all_states([["cat", c["K"]]] * c["n"]), 1.0
    rec.n(len(X))
    T = cc.to_torch(X)
    with torch.no_grad():
        p = m.log_likelihood(T).double().exp().numpy()
        w = 0
        for comp in m.components:
            la, _ = _signed_eval(comp, T, Cache())
            w = w + (2 * la.double()).exp().numpy()
        if c["exp"]:
            w = w * m.monotone.log_likelihood(T).double().exp().numpy()
    require(p.shape == (len(X), 1, 1, 1), f"log-likelihood has shape {p.shape}")
    if w.sum() < 1e-25:
        return
    t = 1e-6 if c["f64"] else 5e-3
    close(p.sum() * vol, 1.0, "total probability", rtol=t, atol=t)
    close(p, w / (w.sum() * vol), "density", rtol=t, atol=t * p.max())
    torch.manual_seed(1)
    n = cls(**kw)
    with torch.no_grad():
        require(np.array_equal(n.log_likelihood(T).double().exp().numpy(), p), "the same seed gives a different model")
    del leaves


# --------------------------------------------------------------------------- wide models, missing entries


@st.composite
def wide_case(draw):
    return {"n": draw(st.integers(20, 150)), "C": draw(st.sampled_from([1, 2, 2, 3])), "seed": draw(st.integers(0, 10**6)), "exp": draw(st.booleans()),
            "r": draw(st.integers(1, 2)), "zero": draw(st.booleans())}


def check_wide(c, rec):
    """Many variables: the normalizer is a product of many small numbers."""
    import torch
    from spflow.modules import leaves as L
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spflow.modules.sums.signed_sum import SignedSum
    from spflow.zoo.sos import ExpSOCS, SOCS

    torch.set_default_dtype(torch.float64)
    r = np.random.default_rng(c["seed"])
    n, C = c["n"], c["C"]

    def comp(signed):
        p = r.dirichlet(np.ones(4), size=(n, C, 1))
        w = r.normal(size=(1, C, 1, 1)) if signed else r.dirichlet(np.ones(C)).reshape(1, C, 1, 1)
        if signed and c["zero"] and C > 1:  # the channel without weight is far larger than the others
            w[:, 0] = 0.0
            p[:, 0] = [1 - 3e-6, 1e-6, 1e-6, 1e-6]
            p[:, 1:, :, 0] *= 1e-6
            p /= p.sum(-1, keepdims=True)
        leaf = L.Categorical(scope=list(range(n)), probs=torch.tensor(p))
        cls = SignedSum if signed else Sum
        return cls(inputs=Product(leaf), weights=torch.tensor(w)), p[:, :, 0], w.ravel()

    parts = [comp(True) for _ in range(c["r"])]
    M = comp(False) if c["exp"] else None
    m = ExpSOCS(monotone=M[0], components=[x[0] for x in parts]) if c["exp"] else SOCS([x[0] for x in parts])
    Z = 0.0
    for _, p, w in parts:
        if M:
            G = np.einsum("nik,njk,nlk->nijl", p, p, M[1])
            Z += np.einsum("i,j,l,ijl->", w, w, M[2], G.prod(0))
        else:
            G = np.einsum("nik,njk->nij", p, p)
            Z += np.einsum("i,j,ij->", w, w, G.prod(0))
    rec.tag("exp" if c["exp"] else "socs", "below-1e-30" if Z < 1e-30 else "large")
    rec.nt(Z < 1e-30)
    X = np.concatenate([r.integers(0, 4, (3, n)), np.zeros((1, n), int)])
    want = []
    for x in X:
        v = []
        for _, p, w in parts:
            a = np.log(p[np.arange(n), :, x]).sum(0)
            k = a[w != 0].max()
            v.append(2 * (k + np.log(np.abs(w @ np.exp(np.minimum(a - k, 700) * (w != 0))))))
        v = cc.lse(np.array(v), 0)
        if M:
            v = v + cc.lse(np.log(M[1][np.arange(n), :, x]).sum(0) + np.log(M[2]), 0)
        want.append(v)
    want = np.array(want)
    if Z < 1e-290:
        return
    rec.n(len(X))
    rec.tag("zero-weight" if c["zero"] and C > 1 else "no-zero-weight")
    with torch.no_grad():
        ll = m.log_likelihood(torch.tensor(X, dtype=torch.float64)).numpy().ravel()
    close(ll, want - np.log(Z), "log-likelihood", rtol=1e-5, atol=1e-4)


def missing_known(c):
    """Missing entries and structural marginalization give (integral of c)^2 instead of the integral of c^2."""
    return "socs-nan" if c["how"] == "nan" else "socs-marginalize"


@st.composite
def missing_case(draw):
    c = draw(skeleton(signed=False))
    c["how"] = draw(st.sampled_from(["nan", "structural"]))
    c["r"] = draw(st.integers(1, 2))
    c["drop"] = draw(st.lists(st.integers(0, c["n"] - 1), min_size=1, max_size=c["n"], unique=True))
    if c["how"] == "structural" and len(c["drop"]) == c["n"]:
        c["drop"] = c["drop"][1:]
    return c


def check_missing(c, rec):
    import torch
    from spflow.zoo.sos import SOCS

    cc.set_dtype(c)
    c = {**c, "C": 1, "exp": False}
    comps, _ = build_socs_case(c)
    m = SOCS([k.mod for k in comps])
    tags(c, rec, m)
    X = states(c)
    p = sum(k.fn(X)[0] ** 2 for k in comps)
    p = p / p.sum(0)
    want = np.stack([p[(np.delete(X, c["drop"], 1) == np.delete(x, c["drop"])).all(1)].sum(0) for x in X])
    T = cc.to_torch(X).clone()
    rec.n(len(X))
    with torch.no_grad():
        if c["how"] == "nan":
            T[:, c["drop"]] = torch.nan
            got = m.log_likelihood(T).double().exp().numpy()
        else:
            q = m.marginalize(c["drop"])
            got = q.log_likelihood(T).double().exp().numpy()
    close(got, want, f"marginal without {c['drop']}", rtol=1e-6, atol=1e-6 if c["f64"] else 1e-3)


PROP = Prop("C22", [
    Facet("leaves", leaf_case(), check_leaf, quick=700, thorough=15000, rule="every case: a product of two or three leaves against numerical integration"),
    Facet("piecewise", pwl_case(), check_pwl, quick=120, thorough=3000, rule="every case"),
    Facet("circuits", prod_case(), check_products, quick=320, thorough=10000, rule="at least two variables and a sum node"),
    Facet("squares", socs_case(), check_socs, quick=320, thorough=15000, rule="at least two variables and a sum node"),
    Facet("sample", socs_case(), check_sample, quick=40, thorough=1000, rule="several components, fast mixing (others are only checked for the proposal)"),
    Facet("builders", builder_case(), check_builder, quick=250, thorough=8000, rule="at least two variables and a sum node"),
    Facet("models", model_case(), check_model, quick=250, thorough=8000, rule="at least two variables"),
    Facet("wide", wide_case(), check_wide, quick=60, thorough=1500, rule="normalizer below 1e-30"),
    Facet("missing", missing_case(), check_missing, quick=60, thorough=1000, rule="at least two variables and a sum node", known=missing_known),
])
