"""C12: leaf densities equal the named distributions for the stored parameters; total mass one."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import leafgen as lg
from vf.core import Facet, Prop, close, require


@st.composite
def dens_case(draw):
    c = draw(lg.leaf_case())
    c["pts"] = draw(st.integers(1, 6))
    c["miss"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    return c


def check_density(case, rec):
    import torch

    cc.set_dtype(case)
    p = lg.params(case)
    m = lg.build(case, p)
    ref = lg.reference(case, p)
    rng = np.random.default_rng(case["seed"] + 1)
    X = lg.points(case, p, case["pts"], rng)
    X[rng.random(X.shape) < case["miss"]] = np.nan
    rec.tag(case["kind"], case["form"], "f64" if case["f64"] else "f32", case["style"])
    rec.nt(bool(np.isfinite(X[:, case["scope"]]).any()))
    T = cc.to_torch(X)
    ll = m.log_likelihood(T)
    require(tuple(ll.shape) == (len(X), case["F"], case["C"], case["R"]), f"{case['kind']}: shape {tuple(ll.shape)}")
    with np.errstate(all="ignore"):
        exp = ref.ll(X)
    if case["f64"]:
        tol = {"rtol": 1e-7, "atol": 1e-6}
    else:  # single precision: the terms of the density cancel
        tol = {"rtol": 2e-4, "atol": 3e-3}
    ok = exp > (-1e5 if case["f64"] else -200)  # beyond, only the order of magnitude is comparable
    got = ll.detach().double().numpy()
    close(np.where(ok, got, 0), np.where(ok, exp, 0), f"{case['kind']}({case['form']}) log density", **tol)
    require(bool((got[~ok] < -100).all()) if (~ok).any() else True, "density too large far out in the tail")
    # the public parameters are the stored ones
    for k, v in p.items():
        if k == "bin_edges":
            got_p = m.bin_edges
        else:
            got_p = getattr(m, k)
        close(got_p.detach(), v, f"{case['kind']}.{k}", rtol=1e-9 if case["f64"] else 1e-4,
              atol=1e-12 if case["f64"] else 1e-5)


@st.composite
def mass_case(draw):
    c = draw(lg.leaf_case(maxF=2, f32=False))
    c["init"] = draw(st.sampled_from(["given", "given", "random"]))
    return c


def check_mass(case, rec):
    """Total mass: sum over the (bulk of the) support / Gauss-Legendre panels between far quantiles."""
    import torch

    cc.set_dtype(case)
    p = lg.params(case)
    kind = case["kind"]
    if case["init"] == "random" and kind not in ("Uniform", "Hypergeometric", "Binomial", "NegativeBinomial", "Histogram"):
        from spflow.modules import leaves as L

        torch.manual_seed(case["seed"] % 2**31)
        kw = {"K": case["K"]} if kind == "Categorical" else {}
        m = getattr(L, kind)(scope=case["scope"], out_channels=case["C"], num_repetitions=case["R"], **kw)
        for k in p:
            p[k] = getattr(m, k).detach().double().numpy()
            require(p[k].shape == p[k].shape and tuple(p[k].shape[:3]) == (case["F"], case["C"], case["R"]),
                    f"random {kind}.{k} has shape {p[k].shape}")
            require(np.isfinite(p[k]).all(), f"random {kind}.{k} is not finite")
            if k != "loc":
                require((p[k] > 0).all(), f"random {kind}.{k} is not positive")
    else:
        m = lg.build(case, p, validate=kind not in ("Uniform", "Binomial", "Hypergeometric"))
    rec.tag(kind, case["init"])
    rec.nt()
    D, sc = case["D"], case["scope"]

    def dens(xs, f):
        X = torch.full((len(xs), D), float("nan"))
        X[:, sc[f]] = torch.as_tensor(xs)
        return np.exp(m.log_likelihood(X).detach().numpy()[:, f])  # B C R

    for f in range(case["F"]):
        if kind == "Categorical":
            tot = dens(np.arange(case["K"], dtype=float), f).sum(0)
        elif kind == "Bernoulli":
            tot = dens(np.arange(2.0), f).sum(0)
        elif kind in ("Binomial", "Hypergeometric"):
            key = "total_count" if kind == "Binomial" else "n"
            tot = np.zeros((case["C"], case["R"]))
            for c in range(case["C"]):
                for r in range(case["R"]):
                    q = {k: a[f, c, r] for k, a in p.items()}
                    lo = 0 if kind == "Binomial" else max(0, q["n"] + q["K"] - q["N"])
                    hi = q[key] if kind == "Binomial" else min(q["n"], q["K"])
                    tot[c, r] = dens(np.arange(lo, hi + 1), f)[:, c, r].sum()
        elif kind in ("Poisson", "Geometric", "NegativeBinomial"):
            q = {k: a[f] for k, a in p.items()}
            hi = float(np.max(cc.frozen(kind, q).ppf(1 - 1e-10))) + 2
            tot = dens(np.arange(0, min(hi, 2e5)), f).sum(0)
        elif kind == "Histogram":
            e = p["bin_edges"]
            tot = (dens((e[1:] + e[:-1]) / 2, f) * np.diff(e)[:, None, None]).sum(0)
            require((dens(np.array([e[0] - 0.01, e[-1], e[-1] + 0.01]), f) == 0).all(), "histogram mass outside its bins")
        elif kind == "Uniform":
            tot = np.zeros((case["C"], case["R"]))
            for c in range(case["C"]):
                for r in range(case["R"]):
                    a, b = p["low"][f, c, r], p["high"][f, c, r]
                    w = b - a
                    xs = a + w * np.array([0.0, 0.25, 0.5, 0.75, 0.999])
                    d = dens(xs, f)[:, c, r]
                    require(np.allclose(d, 1 / w, rtol=1e-6), f"uniform density {d.tolist()} on [{a},{b}]")
                    out = dens(np.array([a - 0.01 * w, b + 0.01 * w]), f)[:, c, r]
                    require((out == 0).all(), "uniform mass outside its bounds")
                    tot[c, r] = 1.0
        else:
            tot = np.zeros((case["C"], case["R"]))
            g, w = np.polynomial.legendre.leggauss(24)
            qs = np.concatenate([np.logspace(-9, -2, 15), np.linspace(0.02, 0.98, 25), 1 - np.logspace(-2, -9, 15)])
            for c in range(case["C"]):
                for r in range(case["R"]):
                    d = cc.frozen(kind, {k: a[f, c, r] for k, a in p.items()})
                    e = d.ppf(qs)
                    if kind == "Laplace":
                        e = np.sort(np.append(e, p["loc"][f, c, r]))
                    if kind == "Gamma":  # the density may be unbounded at zero: integrate only where it is resolved
                        e = np.maximum(e, 1e-250)
                        e = e[np.concatenate([[True], np.diff(e) > 0])]
                    lo, hi = e[:-1], e[1:]
                    if kind in ("Gamma", "LogNormal"):
                        lo, hi = np.log(lo), np.log(hi)
                    x = (lo[:, None] + hi[:, None]) / 2 + (hi - lo)[:, None] / 2 * g
                    ww = (hi - lo)[:, None] / 2 * w
                    if kind in ("Gamma", "LogNormal"):
                        x = np.exp(x)
                        ww = ww * x
                    mass = (dens(x.ravel(), f)[:, c, r] * ww.ravel()).sum()
                    tot[c, r] = mass + (1 - (d.cdf(e[-1]) - d.cdf(e[0])))
        close(tot, np.ones_like(tot), f"total mass of {kind} feature {f}", rtol=0, atol=1e-5)


@st.composite
def cond_case(draw):
    c = draw(lg.leaf_case(families=("Normal", "Laplace", "LogNormal", "Exponential", "Bernoulli", "Categorical", "Poisson",
                                    "Geometric", "Gamma"), maxF=3, wide=False))
    c["E"] = draw(st.integers(1, 2))
    c["pts"] = draw(st.integers(1, 5))
    c["miss"] = draw(st.sampled_from([0.0, 0.3]))
    return c


def check_cond(case, rec):
    """Conditional leaves: per-row parameters produced from the evidence variables."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    cc.set_dtype(case)
    kind, F, C, R, E, n = (case[k] for k in "kind F C R E pts".split())
    rng = np.random.default_rng(case["seed"])
    D = case["D"] + E
    ev = list(range(case["D"], D))
    keys = {"Normal": ("loc", "scale"), "Laplace": ("loc", "scale"), "LogNormal": ("loc", "scale"),
            "Exponential": ("rate",), "Poisson": ("rate",), "Bernoulli": ("probs",), "Geometric": ("probs",),
            "Categorical": ("logits",), "Gamma": ("concentration", "rate")}[kind]
    W = {k: rng.normal(size=(E, F, C, R) + ((case["K"],) if kind == "Categorical" else ())) * 0.6 for k in keys}

    def raw(k, e):  # e: (n,E) float64
        v = np.tensordot(e, W[k], 1)
        if k in ("loc", "logits"):
            return v
        if k == "probs":
            return 0.02 + 0.96 / (1 + np.exp(-v))
        return np.exp(v)

    def fn(evidence):
        e = evidence.detach().double().numpy()
        out = {}
        for k in keys:
            v = raw(k, e)
            if kind == "Gamma":  # documented: Gamma exponentiates the network outputs
                v = np.log(v)
            out[k] = torch.as_tensor(v, dtype=torch.get_default_dtype())
        return out

    kw = {"K": case["K"]} if kind == "Categorical" else {}
    m = getattr(L, kind)(scope=Scope(case["scope"], evidence=ev), out_channels=C, num_repetitions=R, parameter_fn=fn, **kw)
    X = np.full((n, D), np.nan)
    X[:, ev] = rng.normal(size=(n, E))
    disc = kind in lg.DISCRETE
    for v in case["scope"]:
        if kind in ("Bernoulli", "Categorical"):
            X[:, v] = rng.integers(0, 2 if kind == "Bernoulli" else case["K"], n)
        elif disc:
            X[:, v] = rng.integers(0, 6, n)
        else:
            x = rng.normal(size=n)
            X[:, v] = np.abs(x) + 0.05 if kind in ("LogNormal", "Exponential", "Gamma") else x
    miss = rng.random(X.shape) < case["miss"]
    miss[:, ev] = False
    X[miss] = np.nan
    if not case["f64"]:
        X = X.astype(np.float32).astype(np.float64)
    rec.tag(kind)
    rec.nt(n > 1)
    ll = m.log_likelihood(cc.to_torch(X)).detach().double().numpy()
    exp = np.zeros((n, F, C, R))
    for i in range(n):
        pr = {k: raw(k, X[i:i + 1, ev])[0] for k in keys}
        if kind == "Categorical":
            z = np.exp(pr.pop("logits"))
            pr["probs"] = z / z.sum(-1, keepdims=True)
        exp[i] = cc.RLeaf(kind, case["scope"], C, R, pr).ll(X[i:i + 1])[0]
    close(ll, exp, f"conditional {kind} log density", **({"rtol": 1e-7, "atol": 1e-6} if case["f64"] else
                                                         {"rtol": 5e-4, "atol": 5e-3}))


@st.composite
def pwl_case(draw):
    F = draw(st.integers(1, 3))
    return {"F": F, "D": F + draw(st.integers(0, 1)), "seed": draw(st.integers(0, 2**31 - 1)),
            "types": draw(st.lists(st.sampled_from(["cont", "disc"]), min_size=F, max_size=F)),
            "N": draw(st.sampled_from([12, 30, 80])), "C": draw(st.integers(1, 2)), "R": draw(st.integers(1, 2)),
            "alpha": draw(st.sampled_from([0.0, 0.5])), "lo": draw(st.integers(-2, 2))}


def check_pwl(case, rec):
    """PiecewiseLinear: a normalized density that interpolates its own support points linearly; discrete variables sum to one."""
    import torch
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain

    torch.set_default_dtype(torch.float32)
    F = case["F"]
    rng = np.random.default_rng(case["seed"])
    cols, doms = [], []
    for ty in case["types"]:
        if ty == "disc":
            k = int(rng.integers(2, 6))
            cols.append(rng.integers(0, k, case["N"]) + case["lo"])
            doms.append(Domain.discrete_range(case["lo"], case["lo"] + k - 1))
        else:
            x = rng.normal(size=case["N"]) + 2 * rng.integers(0, 2, case["N"])
            cols.append(x)
            doms.append(Domain.continuous_range(float(x.min()), float(x.max())))
    torch.manual_seed(case["seed"] % 2**31)
    m = PiecewiseLinear(scope=list(range(F)), out_channels=case["C"], num_repetitions=case["R"], alpha=case["alpha"])
    data = torch.tensor(np.stack(cols, 1), dtype=torch.float32)
    keep = data.clone()
    m.initialize(data, doms)
    require(bool((data == keep).all()), "initialize modified the data")
    rec.tag(*case["types"])
    rec.nt()
    D = case["D"]
    for f, ty in enumerate(case["types"]):
        if ty == "disc":
            v = np.array(doms[f].values, float)
            X = np.full((len(v), D), np.nan)
            X[:, f] = v
            ll = m.log_likelihood(torch.tensor(X, dtype=torch.float32))
            require(tuple(ll.shape) == (len(v), 1, F, case["C"], case["R"]), f"shape {tuple(ll.shape)}")
            d = np.exp(ll.double().numpy())[:, 0, f]
            close(d.sum(0), np.ones_like(d[0]), f"total mass of discrete piecewise-linear feature {f}", rtol=0, atol=1e-3)
        else:
            for c in range(case["C"]):
                for r in range(case["R"]):
                    xs = m.xs[r][c][f][0].double().numpy()
                    ys = m.ys[r][c][f][0].double().numpy()
                    lo, hi = xs[0] - 0.5, xs[-1] + 0.5
                    x = np.linspace(lo, hi, 4001).astype(np.float32)
                    X = np.full((len(x), D), np.nan, np.float32)
                    X[:, f] = x
                    d = np.exp(m.log_likelihood(torch.tensor(X)).double().numpy())[:, 0, f, c, r]
                    xx = x.astype(np.float64)
                    out = (xx < xs[0] - 1e-3) | (xx > xs[-1] + 1e-3)
                    require((d[out] < 1e-6).all(), "piecewise-linear mass outside its support")
                    near = np.min(np.abs(xx[:, None] - xs[None, [0, -1]]), 1) < 1e-3  # jumps at the two ends
                    e = np.interp(xx, xs, ys)
                    close(np.where(near | out, 0, d), np.where(near | out, 0, e), "piecewise-linear density", rtol=1e-2, atol=1e-3)
                    mass = np.trapezoid(ys, xs)
                    close(mass, 1.0, "total mass of a piecewise-linear feature", rtol=0, atol=1e-3)


PROP = Prop("C12", [
    Facet("density", dens_case(), check_density, quick=9000, thorough=150000,
          rule="one leaf of any family vs. its textbook density (scipy / explicit formula); non-trivial: some observed entry"),
    Facet("mass", mass_case(), check_mass, quick=2500, thorough=40000,
          rule="total mass by enumeration of the support or Gauss-Legendre panels, also for randomly initialized leaves"),
    Facet("conditional", cond_case(), check_cond, quick=2500, thorough=40000,
          rule="per-row parameters computed from evidence variables; non-trivial: more than one row"),
    Facet("piecewise", pwl_case(), check_pwl, quick=500, thorough=8000,
          rule="piecewise-linear leaves fitted to data: interpolation and total mass"),
])
