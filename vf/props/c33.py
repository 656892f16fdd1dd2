"""C33: the randomized dependence coefficient."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Prop, close, require

TRANS = ("exp", "cube", "affine", "tanh", "rank", "log1p", "softplus")


def transform(x, how):
    m = np.max(np.abs(x)) + 1e-9
    if how == "exp":
        return np.exp(4 * x / m)
    if how == "cube":
        return x**3 + x
    if how == "affine":
        return 7.25 * x - 100
    if how == "tanh":
        return np.tanh(x / m)
    if how == "rank":
        return np.argsort(np.argsort(x, kind="stable"), kind="stable").astype(float)
    if how == "log1p":
        return np.log1p(x - x.min())
    return np.logaddexp(0, x)


def columns(c, rng, n, d, kind):
    if kind == "normal":
        return rng.normal(size=(n, d))
    if kind == "heavy":
        return rng.standard_cauchy(size=(n, d))
    if kind == "uniform":
        return rng.random((n, d)) * 1e3
    if kind == "tiny":
        return rng.normal(size=(n, d)) * 1e-6
    if kind == "ties":
        return rng.integers(0, 4, (n, d)).astype(float)
    return np.full((n, d), 2.5)


KINDS = ("normal", "normal", "heavy", "uniform", "tiny", "ties", "const")
DEP = ("indep", "linear", "square", "sine", "same", "neg", "mono")


@st.composite
def data_case(draw, kinds=KINDS, dep=DEP, maxd=3):
    return {"seed": draw(st.integers(0, 2**31 - 1)), "n": draw(st.integers(4, 60) | st.integers(60, 300)), "dx": draw(st.integers(1, maxd)), "dy": draw(st.integers(1, maxd)),
            "kx": draw(st.sampled_from(kinds)), "ky": draw(st.sampled_from(kinds)), "dep": draw(st.sampled_from(dep)), "k": draw(st.sampled_from([1, 1, 2, 3, 5, 10, 20])),
            "s": draw(st.sampled_from([1 / 6, 1 / 6, 1.0, 4.0, 8.0])), "flat": draw(st.booleans()), "f64": draw(st.booleans()), "lib": draw(st.sampled_from(["torch", "np"])), "f": draw(st.sampled_from(["sin", "sin", "tanh"])),
            "tx": draw(st.sampled_from(TRANS)), "ty": draw(st.sampled_from(TRANS)), "reps": draw(st.integers(2, 5))}


def make(c):
    rng = np.random.default_rng(c["seed"])
    x = columns(c, rng, c["n"], c["dx"], c["kx"])
    y = columns(c, rng, c["n"], c["dy"], c["ky"])
    z = x[:, :1]
    m = np.max(np.abs(z)) + 1e-9
    d = c["dep"]
    y0 = {"linear": z / m + 0.1 * rng.normal(size=z.shape), "square": (z / m) ** 2, "sine": np.sin(9 * z / m), "same": z, "neg": -z, "mono": z}.get(d)
    if y0 is not None:
        y = np.concatenate([y0, y[:, 1:]], 1)
    if d == "mono":
        y[:, 0] = transform(y[:, 0], c["ty"])
    return x, y


def call(c, x, y, seed, n=1, k=None):
    import torch
    from spflow.utils.rdc import rdc, rdc_np

    torch.manual_seed(seed)
    if c["flat"] and x.shape[1] == 1:
        x = x[:, 0]
    if c["flat"] and y.shape[1] == 1:
        y = y[:, 0]
    k = k or c["k"]
    if c["lib"] == "np":
        return float(rdc_np(x.copy(), y.copy(), f=getattr(np, c["f"]), k=k, s=c["s"], n=n))
    dt = torch.float64 if c["f64"] else torch.float32
    return float(rdc(torch.as_tensor(x, dtype=dt), torch.as_tensor(y, dtype=dt), f=getattr(torch, c["f"]), k=k, s=c["s"], n=n))


def ties(x, c):
    v = x if c["lib"] == "np" or c["f64"] else x.astype(np.float32)
    return any(len(np.unique(col)) < len(col) for col in v.T)


def same_order(a, b, c):
    f = (lambda v: v) if c["lib"] == "np" or c["f64"] else (lambda v: v.astype(np.float32))
    a, b = f(a), f(b)
    return all(len(np.unique(q)) == len(q) and np.array_equal(np.argsort(p, kind="stable"), np.argsort(q, kind="stable")) for p, q in zip(a.T, b.T))


def check_meta(c, rec):
    x, y = make(c)
    s = c["seed"] % 1000
    a = call(c, x, y, s)
    rec.tag(c["lib"], c["dep"], f"{c['dx']}x{c['dy']}", f"k{c['k']}")
    require(np.isfinite(a) and 0 <= a <= 1, f"coefficient {a} is not in [0, 1]")
    require(call(c, x, y, s) == a, "the same seed gives another coefficient")
    vals = []
    if c["reps"]:
        # n > 1: the median of n runs
        import torch

        m = call(c, x, y, s, n=c["reps"])
        require(np.isfinite(m) and 0 <= m <= 1, f"coefficient {m} of {c['reps']} runs is not in [0, 1]")
        require(call(c, x, y, s, n=c["reps"]) == m, "the same seed gives another coefficient (n > 1)")
        if c["lib"] == "torch":
            from spflow.utils.rdc import rdc

            torch.manual_seed(s)
            dt = torch.float64 if c["f64"] else torch.float32
            vals = sorted(float(rdc(torch.as_tensor(x, dtype=dt), torch.as_tensor(y, dtype=dt), f=getattr(torch, c["f"]), k=c["k"], s=c["s"])) for _ in range(c["reps"]))
            require(abs(m - vals[(len(vals) - 1) // 2]) < 1e-6, f"n={c['reps']} gives {m}, single runs {vals}")
    if ties(x, c) or ties(y, c):
        rec.tag("ties")
        return
    rec.nt(c["dep"] == "indep" or c["k"] > 1)
    rec.n()
    x2 = np.stack([transform(v, c["tx"]) for v in x.T], 1)
    y2 = np.stack([transform(v, c["ty"]) for v in y.T], 1)
    if same_order(x, x2, c):
        b = call(c, x2, y, s)
        require(a == b, f"increasing transformation {c['tx']} of x changes the coefficient from {a} to {b}")
        rec.tag("x-" + c["tx"])
        if same_order(y, y2, c):
            b = call(c, x2, y2, s)
            require(a == b, f"increasing transformations {c['tx']}, {c['ty']} change the coefficient from {a} to {b}")


def prefixes(c, x, y, seed):
    """Top canonical correlation and spectrum of the first j features of each side, j = 1..k (float64 QR/SVD)."""
    import torch
    from scipy.stats import rankdata

    torch.manual_seed(seed)
    cx = np.column_stack([rankdata(v, method="ordinal") for v in x.T]) / x.size
    cy = np.column_stack([rankdata(v, method="ordinal") for v in y.T]) / y.size
    X = np.column_stack([cx, np.ones(len(x))])
    Y = np.column_stack([cy, np.ones(len(y))])
    Rx = torch.randn(X.shape[1], c["k"]).numpy().astype(float)
    Ry = torch.randn(Y.shape[1], c["k"]).numpy().astype(float)
    f = getattr(np, c["f"])
    A = f(X @ (Rx * c["s"] / X.shape[1]))
    B = f(Y @ (Ry * c["s"] / Y.shape[1]))
    A, B = A - A.mean(0), B - B.mean(0)
    out = []
    for j in range(1, c["k"] + 1):
        qa, ra = np.linalg.qr(A[:, :j])
        qb, rb = np.linalg.qr(B[:, :j])
        cond = max(np.linalg.cond(ra), np.linalg.cond(rb))
        out.append((np.linalg.svd(qa.T @ qb, compute_uv=False), cond))
    return out, min(A.std(0).min(), B.std(0).min())


@st.composite
def exact_case(draw):
    c = draw(data_case(kinds=("normal", "heavy", "uniform"), dep=("indep", "indep", "linear", "square", "sine")))
    c["k"] = draw(st.sampled_from([1, 1, 2, 2, 3]))
    c["s"] = draw(st.sampled_from([1 / 6, 4.0, 8.0, 12.0]))
    c["f64"] = False
    c["n"] = max(c["n"], 20)
    return c


def check_exact(c, rec):
    import torch

    torch.set_default_dtype(torch.float32)
    x, y = make(c)
    if ties(x, c) or ties(y, c):
        return
    s = c["seed"] % 1000
    a = call(c, x, y, s)
    ref, spread = prefixes(c, x, y, s)
    lim = 30 if c["lib"] == "torch" else 1e4
    if spread < 1e-2 or any(r[1] > lim for r in ref[1:]):
        rec.tag("ill-conditioned")
        return
    tol = 5e-3 if c["lib"] == "torch" else 1e-5
    tops = [float(r[0][0]) for r in ref]
    rec.n()
    rec.nt(c["k"] > 1)
    rec.tag(c["lib"], f"k{c['k']}", c["dep"])
    spec = ref[-1][0] ** 2
    sep = len(spec) == 1 or np.min(np.abs(np.diff(spec))) > 1e-2
    if sep and spec.min() > 1e-2 and spec.max() < 1 - 1e-2:
        require(abs(a - tops[-1]) <= tol, f"coefficient {a}, largest canonical correlation {tops[-1]} (of shorter prefixes {tops[:-1]})")
        rec.tag("full")
    else:
        require(min(abs(a - t) for t in tops) <= tol or (tops[0] < 0.05 and a < 0.06), f"coefficient {a} is no canonical correlation of its projections: {tops}")


@st.composite
def mono_case(draw):
    c = draw(data_case(kinds=("normal", "heavy", "uniform", "tiny"), dep=("mono", "same", "neg"), maxd=1))
    c["n"] = max(c["n"], 10)
    c["s"] = draw(st.sampled_from([1 / 6, 0.1, 0.05]))
    c["f"] = "sin"
    return c


def check_mono(c, rec):
    x, y = make(c)
    if ties(x, c) or ties(y, c) or not (same_order(x, y, c) or c["dep"] == "neg"):
        rec.tag("ties")
        return
    a = call(c, x, y, c["seed"] % 1000)
    rec.n()
    rec.nt(c["dep"] != "same")
    rec.tag(c["lib"], c["dep"], f"k{c['k']}", "<.9" if a < 0.9 else "<.97" if a < 0.97 else "<.99" if a < 0.99 else "1")
    require(a >= 0.8, f"deterministic monotone dependence gets coefficient {a}")


@st.composite
def cca_case(draw):
    return {"k": draw(st.integers(1, 5)), "n": draw(st.integers(40, 300)), "seed": draw(st.integers(0, 2**31 - 1)), "mix": draw(st.sampled_from([0.0, 0.3, 1.0])), "lib": draw(st.sampled_from(["torch", "np"]))}


def check_cca(c, rec):
    """cca_loop on the covariance of well-conditioned features = the largest canonical correlation."""
    import torch
    from scipy.stats import rankdata
    from spflow.utils.rdc import cca_loop, cca_loop_np, rankdata_ordinal

    rng = np.random.default_rng(c["seed"])
    k = c["k"]
    A = rng.normal(size=(c["n"], k))
    B = c["mix"] * A @ rng.normal(size=(k, k)) + rng.normal(size=(c["n"], k))
    r = rankdata_ordinal(torch.as_tensor(A[:, 0])).numpy()
    require(np.array_equal(r, rankdata(A[:, 0], method="ordinal")), "ordinal ranks")
    C = np.cov(np.hstack([A, B]).T)
    got = float(cca_loop_np(k, C.copy()) if c["lib"] == "np" else cca_loop(k, torch.as_tensor(C)))
    A, B = A - A.mean(0), B - B.mean(0)
    spec = [np.linalg.svd(np.linalg.qr(A[:, :j])[0].T @ np.linalg.qr(B[:, :j])[0], compute_uv=False) for j in range(1, k + 1)]
    rec.nt(k > 1)
    rec.n()
    rec.tag(c["lib"], f"k{k}")
    e = spec[-1] ** 2
    if (len(e) == 1 or np.min(np.abs(np.diff(e))) > 1e-4) and e.min() > 1e-6 and e.max() < 1 - 1e-6:
        require(abs(got - spec[-1][0]) < 1e-6, f"largest canonical correlation {spec[-1][0]}, got {got}")
    else:
        require(min(abs(got - s_[0]) for s_ in spec) < 1e-4, f"{got} is no canonical correlation {[s_[0] for s_ in spec]}")


PROP = Prop("C33", [
    Facet("meta", data_case(), check_meta, quick=500, thorough=15000, rule="data without ties, independent columns or several projections"),
    Facet("exact", exact_case(), check_exact, quick=800, thorough=20000, rule="several projections, well-conditioned"),
    Facet("monotone", mono_case(), check_mono, quick=500, thorough=15000, rule="not the identity"),
    Facet("cca", cca_case(), check_cca, quick=500, thorough=10000, rule="several canonical directions"),
])
