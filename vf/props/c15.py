"""C15: samples and modes of leaves agree with the leaf density, per channel and repetition."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import leafgen as lg
from vf.core import Facet, Prop, close, require
from vf.gof import gof, gof_multi

NC = 7


def scalar(p, f, c, r):
    return {k: (a if k == "bin_edges" else a[f, c, r]) for k, a in p.items()}


class Dist:
    """Cells of one univariate distribution with their probabilities; cells of probability zero cover the non-support."""

    def __init__(self, kind, q, K, cells=NC):
        self.kind = kind
        if kind == "Categorical":
            self.vals = np.arange(K)
            self.probs = np.append(q["probs"], 0.0)
        elif kind == "Histogram":
            e = q["bin_edges"]
            mid = (e[1:] + e[:-1]) / 2
            self.cuts = np.sort(np.concatenate([e, mid]))
            self.probs = np.concatenate([[0.0], np.repeat(q["probs"] / 2, 2), [0.0]])
        else:
            d = cc.frozen(kind, q)
            with np.errstate(all="ignore"):
                c = np.unique(d.ppf(np.arange(1, cells) / cells))
            c = c[np.isfinite(c)]
            if kind in lg.DISCRETE:
                c = c.astype(float) + 0.5
            elif kind == "Uniform":
                c = np.unique(np.concatenate([[q["low"]], c, [q["high"]]]))
            c = np.unique(np.concatenate([c, [0.0]])) if kind in ("LogNormal", "Gamma", "Exponential") else c
            self.cuts = c
            cdf = np.concatenate([[0.0], d.cdf(c), [1.0]])
            if kind == "Uniform":
                cdf[1], cdf[-2] = 0.0, 1.0
            self.probs = np.maximum(np.diff(cdf), 0.0)

    def index(self, x):
        if self.kind == "Categorical":
            ok = (x >= 0) & (x < len(self.vals)) & (x == np.round(x))
            return np.where(ok, x, len(self.vals)).astype(int)
        return np.searchsorted(self.cuts, x, side="right" if self.kind == "Histogram" else "left")


def context(ch, rep, mask=None, mpe=False):
    import torch
    from spflow.utils.sampling_context import SamplingContext

    return SamplingContext(channel_index=torch.as_tensor(ch, dtype=torch.long),
                           mask=torch.ones(ch.shape, dtype=torch.bool) if mask is None else torch.as_tensor(mask),
                           repetition_index=torch.as_tensor(rep, dtype=torch.long), is_mpe=mpe)


def draw_from(m, data, ch, rep, mask=None, mpe=False):
    from spflow.utils.cache import Cache

    return m._sample(data=data, sampling_ctx=context(ch, rep, mask, mpe), cache=Cache())


def support(kind, x, what):
    require(np.isfinite(x).all(), f"{what}: {kind} sample is not finite")
    if kind in lg.DISCRETE:
        require((x == np.round(x)).all() and (x >= 0).all(), f"{what}: {kind} sample outside of its support")


@st.composite
def samp_case(draw):
    c = draw(lg.leaf_case())
    if c["kind"] == "Uniform":
        c["style"] = "mild"
    return c


def check_sampling(case, rec):
    import torch

    cc.set_dtype(case)
    p = lg.params(case)
    m = lg.build(case, p)
    kind, F, C, R = (case[k] for k in "kind F C R".split())
    rng = np.random.default_rng(case["seed"] + 3)
    torch.manual_seed(case["seed"] % 2**31)
    rec.tag(kind, case["style"])
    rec.nt(F * C * R > 1)
    cells = [(f, c, r, Dist(kind, scalar(p, f, c, r), case["K"])) for f in range(F) for c in range(C) for r in range(R)]

    def draw(n):
        ch = np.stack([rng.permutation(np.tile(np.repeat(np.arange(C), n), R).reshape(R, -1), axis=1).ravel() for _ in range(F)], 1)
        rep = np.repeat(np.arange(R), C * n)
        o = rng.permutation(len(rep))
        ch, rep = ch[o], rep[o]
        data = torch.full((len(rep), case["D"]), float("nan"))
        S = draw_from(m, data, ch, rep).detach().double().numpy()
        require(np.isnan(S[:, [v for v in range(case["D"]) if v not in case["scope"]]]).all(), "sampled outside of the scope")
        out = []
        for f, c, r, d in cells:
            x = S[(ch[:, f] == c) & (rep == r), case["scope"][f]]
            support(kind, x, "sampling")
            out.append(d.index(x))
        return out

    gof_multi(draw, [d.probs for *_, d in cells], f"{kind} leaf, groups (feature,channel,repetition)", n=700)


@st.composite
def joint_case(draw):
    c = draw(lg.leaf_case(maxF=3, wide=False, families=[k for k in lg.FAMILIES if k != "Uniform"]))
    c["D"] = c["F"]
    c["scope"] = draw(st.permutations(range(c["F"])))
    c["pick"] = [draw(st.integers(0, 5)) for _ in range(4)]
    return c


def check_joint(case, rec):
    """Default sampling interface: the first channel and repetition; features and rows are independent draws."""
    import torch

    cc.set_dtype(case)
    p = lg.params(case)
    m = lg.build(case, p)
    kind, F, C, R = (case[k] for k in "kind F C R".split())
    torch.manual_seed(case["seed"] % 2**31)
    rec.tag(kind)
    rec.nt(F > 1)
    same = case["pick"][3] % 2
    ch = np.array([case["pick"][0 if same else f] % C for f in range(F)])
    r = case["pick"][3] % R
    ds = [Dist(kind, scalar(p, f, ch[f], r), case["K"], cells=3) for f in range(F)]
    use = ds[:2]
    a, b = use[0], use[-1]

    def draw(n):
        S = draw_from(m, torch.full((2 * n, case["D"]), float("nan")), np.repeat(ch[None], 2 * n, 0),
                      np.full(2 * n, r)).detach().double().numpy()[:, case["scope"]]
        i, j = a.index(S[:, 0]), b.index(S[:, len(use) - 1])
        pair = i[:n] * len(b.probs) + j[:n]  # two features of a row
        rows = i[0::2] * len(a.probs) + i[1::2]  # neighbouring rows
        return [pair, rows]

    pp = np.outer(a.probs, b.probs).ravel() if F > 1 else np.diag(a.probs).ravel()
    gof_multi(draw, [pp, np.outer(a.probs, a.probs).ravel()], f"{kind} leaf: joint of features / of rows", n=700)


@st.composite
def mode_case(draw):
    c = draw(lg.leaf_case(families=[k for k in lg.FAMILIES if k != "Uniform"]))
    c["special"] = draw(st.integers(0, 3)) == 0
    return c


def special(case, p):
    """Parameters at which two values tie for the mode."""
    k = case["kind"]
    if not case["special"]:
        return p
    rng = np.random.default_rng(case["seed"])
    if k in ("Bernoulli", "Binomial", "NegativeBinomial"):
        p["probs"] = np.where(rng.random(p["probs"].shape) < 0.7, 0.5, p["probs"])
    elif k == "Poisson":
        p["rate"] = np.ceil(p["rate"])
    elif k == "Gamma":
        p["concentration"] = np.where(rng.random(p["concentration"].shape) < 0.5, 1.0, p["concentration"])
    elif k == "Categorical":
        p["probs"] = np.full_like(p["probs"], 1.0 / p["probs"].shape[-1])
    return p


def candidates(kind, q, K):
    if kind == "Categorical":
        return np.arange(K).astype(float)
    d = cc.frozen(kind, q)
    x = d.ppf(np.concatenate([[1e-6], np.linspace(0.005, 0.995, 61)]))
    x = x[np.isfinite(x)]
    if kind in lg.DISCRETE:
        return np.unique(np.concatenate([x, x + 1, np.maximum(x - 1, 0), [d.mean() // 1, d.mean() // 1 + 1]]))
    if kind in ("Normal", "Laplace"):
        return np.append(x, q["loc"])
    if kind == "LogNormal":
        return np.append(x, np.exp(q["loc"] - q["scale"] ** 2))
    if kind == "Gamma":
        return np.append(x, max(0.0, (q["concentration"] - 1) / q["rate"]))
    return np.append(x, 0.0)


def check_mode(case, rec):
    import torch

    cc.set_dtype(case)
    p = special(case, lg.params(case))
    m = lg.build(case, p)
    kind, F, C, R = (case[k] for k in "kind F C R".split())
    rec.tag(kind, "special" if case["special"] else "plain")
    rec.nt(F * C * R > 1)
    M = m.mode().detach().double().numpy() if not isinstance(type(m).mode, property) else m.mode.detach().double().numpy()
    require(M.shape == (F, C, R), f"{kind}.mode has shape {M.shape}")
    rng = np.random.default_rng(case["seed"] + 5)
    n = 6 * C * R
    ch, rep = rng.integers(0, C, (n, F)), rng.integers(0, R, n)
    S = draw_from(m, torch.full((n, case["D"]), float("nan")), ch, rep, mpe=True).detach().double().numpy()[:, case["scope"]]
    tol = 1e-9 if case["f64"] else 1e-4
    for f in range(F):
        for c in range(C):
            for r in range(R):
                q = scalar(p, f, c, r)
                x = M[f, c, r]
                require(np.isfinite(x), f"{kind}: mode {x} for parameters {q}")
                if kind == "Histogram":  # documented: the midpoint of the most probable bin
                    i = int(np.argmax(q["probs"]))
                    top = np.sort(q["probs"])[-2:]
                    if len(q["probs"]) == 1 or top[1] - top[0] > 1e-6:
                        close(x, q["bin_edges"][i:i + 2].mean(), "histogram mode", rtol=1e-6, atol=1e-6)
                else:
                    g = np.append(candidates(kind, q, case["K"]), x)
                    with np.errstate(all="ignore"):
                        if kind == "Categorical":
                            l = np.log(q["probs"])
                            require(x == round(x) and 0 <= x < case["K"], f"mode {x} is no category")
                            l = np.append(l, l[int(x)])
                        else:
                            l = cc.leaf_logpdf(kind, g, q)
                    require(l[-1] >= np.nanmax(l) - tol * (1 + abs(l[-1] if np.isfinite(l[-1]) else 0)) or l[-1] == np.inf,
                            f"{kind} mode {x} has log density {l[-1]:.8g}, {g[int(np.nanargmax(l))]:.8g} has {np.nanmax(l):.8g} "
                            f"(parameters { {k: np.asarray(v).tolist() for k, v in q.items()} })")
                sel = (ch[:, f] == c) & (rep == r)
                close(S[sel, f], np.full(int(sel.sum()), x), f"{kind}: MPE of feature {f} channel {c} repetition {r} vs its mode",
                      rtol=1e-6, atol=1e-6)


@st.composite
def ev_case(draw):
    c = draw(lg.leaf_case(wide=False, families=[k for k in lg.FAMILIES if k != "Uniform"]))
    c["n"] = draw(st.integers(1, 6))
    c["mpe"] = draw(st.booleans())
    c["mrate"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    c["orate"] = draw(st.sampled_from([0.0, 0.5]))
    return c


def check_evidence(case, rec):
    """Only missing entries of the scope selected by the mask are filled; everything else is returned unchanged."""
    import torch

    cc.set_dtype(case)
    p = lg.params(case)
    m = lg.build(case, p)
    kind, F, C, R, n, D = (case[k] for k in "kind F C R n D".split())
    rng = np.random.default_rng(case["seed"] + 7)
    X = np.where(rng.random((n, D)) < 0.5, np.nan, rng.integers(-9, 9, (n, D)) + 0.25)
    mask = rng.random((n, F)) >= case["mrate"]
    ch, rep = rng.integers(0, C, (n, F)), rng.integers(0, R, n)
    S = draw_from(m, cc.to_torch(X), ch, rep, mask, case["mpe"]).detach().double().numpy()
    rec.tag(kind, "mpe" if case["mpe"] else "sample")
    fill = np.zeros((n, D), bool)
    for f, v in enumerate(case["scope"]):
        fill[:, v] = np.isnan(X[:, v]) & mask[:, f]
    rec.nt(bool(fill.any()) and not fill.all())
    keep = np.where(fill, 0, X)
    close(np.where(fill, 0, S), keep, f"{kind}: entries that must not change", rtol=1e-7, atol=0)
    support(kind, S[fill], "conditional sampling")
    ref = lg.reference(case, p)
    Z = np.where(fill, S, np.nan)
    with np.errstate(all="ignore"):
        ll = ref.ll(Z)
    for f in range(F):
        for i in range(n):
            require(ll[i, f, ch[i, f], rep[i]] > -np.inf, f"{kind}: value {Z[i, case['scope'][f]]} outside of the support")


@st.composite
def cond_case(draw):
    c = draw(lg.leaf_case(families=("Normal", "Laplace", "LogNormal", "Exponential", "Bernoulli", "Categorical", "Poisson",
                                    "Geometric", "Gamma"), maxF=2, maxC=2, maxR=2, wide=False))
    c["G"] = draw(st.integers(1, 3))
    return c


def check_cond(case, rec):
    """Conditional leaves: parameters per row, from the evidence columns."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    cc.set_dtype(case)
    kind, F, C, R, G = (case[k] for k in "kind F C R G".split())
    tables = [lg.params(dict(case, seed=case["seed"] + g)) for g in range(G)]
    D, ev = case["D"] + 1, case["D"]
    fwd = np.log if kind == "Gamma" else (lambda a: a)  # documented: Gamma exponentiates the outputs of the network

    def fn(e):
        g = e[:, 0].long().numpy()
        return {k: torch.as_tensor(fwd(np.stack([tables[i][k] for i in g]))).to(torch.get_default_dtype()) for k in tables[0]}

    kw = {"K": case["K"]} if kind == "Categorical" else {}
    m = getattr(L, kind)(scope=Scope(case["scope"], evidence=[ev]), out_channels=C, num_repetitions=R, parameter_fn=fn, **kw)
    rng = np.random.default_rng(case["seed"] + 9)
    torch.manual_seed(case["seed"] % 2**31)
    rec.tag(kind)
    rec.nt(G > 1)
    groups = [(g, f, c, r, Dist(kind, scalar(tables[g], f, c, r), case["K"]))
              for g in range(G) for f in range(F) for c in range(C) for r in range(R)]

    def draw(n):
        g, c, r = (a.ravel() for a in np.meshgrid(np.arange(G), np.arange(C), np.arange(R), indexing="ij"))
        g, c, r = (rng.permutation(np.repeat(np.stack([g, c, r], 1), n, 0)).T)
        data = torch.full((len(g), D), float("nan"))
        data[:, ev] = torch.as_tensor(g).to(data.dtype)
        S = draw_from(m, data, np.repeat(c[:, None], F, 1), r).detach().double().numpy()
        out = []
        for G_, f, c_, r_, d in groups:
            x = S[(g == G_) & (c == c_) & (r == r_), case["scope"][f]]
            support(kind, x, "conditional leaf")
            out.append(d.index(x))
        return out

    gof_multi(draw, [d.probs for *_, d in groups], f"conditional {kind} leaf, groups (evidence,feature,channel,repetition)", n=500)


@st.composite
def pwl_case(draw):
    F = draw(st.integers(1, 2))
    return {"F": F, "seed": draw(st.integers(0, 2**31 - 1)), "types": [draw(st.sampled_from(["cont", "disc"])) for _ in range(F)],
            "N": draw(st.sampled_from([12, 40])), "C": draw(st.integers(1, 2)), "R": draw(st.integers(1, 2)),
            "alpha": draw(st.sampled_from([0.0, 0.5])), "lo": draw(st.integers(-2, 2))}


def check_pwl(case, rec):
    import torch
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain

    torch.set_default_dtype(torch.float32)
    F, C, R = case["F"], case["C"], case["R"]
    rng = np.random.default_rng(case["seed"])
    cols, doms = [], []
    for ty in case["types"]:
        if ty == "disc":
            k = int(rng.integers(2, 6))
            cols.append(rng.integers(0, k, case["N"]) + case["lo"])
            doms.append(Domain.discrete_range(case["lo"], case["lo"] + k - 1))
        else:
            x = rng.normal(size=case["N"]) + 2 * rng.integers(0, 2, case["N"])
            cols.append(x)
            doms.append(Domain.continuous_range(float(x.min()), float(x.max())))
    torch.manual_seed(case["seed"] % 2**31)
    m = PiecewiseLinear(scope=list(range(F)), out_channels=C, num_repetitions=R, alpha=case["alpha"])
    m.initialize(torch.tensor(np.stack(cols, 1), dtype=torch.float32), doms)
    rec.tag(*case["types"])
    rec.nt()
    groups = []
    for f in range(F):
        for c in range(C):
            for r in range(R):
                xs, ys = m.xs[r][c][f][0].double().numpy(), m.ys[r][c][f][0].double().numpy()
                if case["types"][f] == "disc":
                    pr = ys[1:-1] / ys[1:-1].sum()
                    groups.append((f, c, r, xs[1:-1], np.append(pr, 0.0)))
                else:
                    t = np.unique(np.concatenate([xs, (xs[1:] + xs[:-1]) / 2]))
                    y = np.interp(t, xs, ys)
                    mass = (y[1:] + y[:-1]) / 2 * np.diff(t)
                    # the two outermost points are 1e-8 away (equal in single precision)
                    groups.append((f, c, r, t, np.concatenate([[0.0], mass / mass.sum(), [0.0]])))

    def index(f, t, x):
        if case["types"][f] == "disc":
            i = np.searchsorted(t, x)
            return np.where((i < len(t)) & (t[np.minimum(i, len(t) - 1)] == x), i, len(t))
        return np.clip(np.searchsorted(t, x, side="left"), np.where(x < t[0] - 1e-4, 0, 1), np.where(x > t[-1] + 1e-4, len(t), len(t) - 1))

    def draw(n):
        ch = np.stack([rng.permutation(np.tile(np.repeat(np.arange(C), n), R).reshape(R, -1), axis=1).ravel() for _ in range(F)], 1)
        rep = np.repeat(np.arange(R), C * n)
        S = draw_from(m, torch.full((len(rep), F), float("nan")), ch, rep).detach().double().numpy()
        return [index(f, t, S[(ch[:, f] == c) & (rep == r), f]) for f, c, r, t, _ in groups]

    gof_multi(draw, [g[-1] for g in groups], "piecewise-linear leaf, groups (feature,channel,repetition)", n=700)
    ch, rep = rng.integers(0, C, (12, F)), rng.integers(0, R, 12)
    S = draw_from(m, torch.full((12, F), float("nan")), ch, rep, mpe=True).detach().double().numpy()
    for f in range(F):
        for i in range(12):
            xs, ys = m.xs[rep[i]][ch[i, f]][f][0].double().numpy(), m.ys[rep[i]][ch[i, f]][f][0].double().numpy()
            at = ys[int(np.argmin(np.abs(xs - S[i, f])))]
            require(np.abs(xs - S[i, f]).min() < 1e-4 and at >= ys.max() - 1e-6, f"piecewise-linear mode {S[i, f]}")


PROP = Prop("C15", [
    Facet("sampling", samp_case(), check_sampling, quick=900, thorough=15000,
          rule="goodness of fit per feature, channel and repetition with per-row routing; non-trivial: more than one of them"),
    Facet("joint", joint_case(), check_joint, quick=400, thorough=8000,
          rule="independence of features and of rows; non-trivial: more than one feature"),
    Facet("mode", mode_case(), check_mode, quick=1500, thorough=30000,
          rule="density at the mode vs quantile grid and neighbours; MPE sampling returns it; non-trivial: several channels"),
    Facet("evidence", ev_case(), check_evidence, quick=1500, thorough=30000,
          rule="only masked missing entries are filled; non-trivial: some but not all entries filled"),
    Facet("conditional", cond_case(), check_cond, quick=400, thorough=8000,
          rule="goodness of fit per evidence value; non-trivial: several evidence values"),
    Facet("piecewise", pwl_case(), check_pwl, quick=250, thorough=4000,
          rule="goodness of fit of piecewise-linear leaves to their own density"),
])
del gof
