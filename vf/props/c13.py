"""C13: the log-likelihood of interval evidence is the log probability of the box."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import leafgen as lg
from vf.core import Facet, Prop, Violation, close, raises, require

LEAVES = ("Normal", "Laplace", "LogNormal", "Gamma", "Exponential", "Uniform", "Bernoulli", "Categorical")
VALUES = {"real": list(np.arange(-10, 11) / 4), "pos": [-1.0, 0.0] + list(np.arange(1, 14) / 4),
          "unit": list(np.arange(-8, 10) / 4 + 1 / 64), "cat": [-1.0, -0.5, 0.0, 0.4, 1.0, 1.5, 2.0, 2.6, 3.0, 4.0, 7.0]}


def evidence(B):
    from spflow.meta.data.interval_evidence import IntervalEvidence

    return IntervalEvidence(low=cc.to_torch(B[..., 0]), high=cc.to_torch(B[..., 1]))


def prob_close(got_ll, exp_p, what, f64):
    """Probabilities agree absolutely; log-probabilities agree where the mass is not negligible."""
    got = got_ll.detach().double().numpy()
    if np.isnan(got).any():
        raise Violation(f"{what}: NaN")
    t = 1e-9 if f64 else 2e-5
    close(np.exp(got), exp_p, what + " (probability)", rtol=0, atol=t)
    big = exp_p > (1e-4 if f64 else 1e-2)
    close(np.where(big, got, 0), np.where(big, np.log(np.maximum(exp_p, 1e-300)), 0), what + " (log)", rtol=0, atol=1e-4 if f64 else 5e-3)


@st.composite
def boxes(draw, vt, max_rows=4):
    out = []
    for _ in range(draw(st.integers(1, max_rows))):
        row = []
        for v in vt:
            s = st.sampled_from(VALUES[v[0]])
            a, b = draw(s), draw(s)
            lo, hi = min(a, b), max(a, b)
            k = draw(st.integers(0, 7))
            row.append([None if k in (0, 1) else lo, None if k in (0, 2) else hi])
        out.append(row)
    return out


def box_array(rows):
    return np.array([[[np.nan if x is None else x for x in b] for b in r] for r in rows], dtype=float)


def ref_prob(ref, B):
    """Reference mass (continuous boxes of width zero have none)."""
    R = B.copy()
    eq = R[..., 0] == R[..., 1]
    R[..., 1] = np.where(eq, R[..., 1] + 1e-13, R[..., 1])
    with np.errstate(all="ignore"):
        return np.exp(ref.ll(R))


# ------------------------------------------------------------------ leaves


@st.composite
def leaf_case(draw):
    c = draw(lg.leaf_case(families=LEAVES))
    c["n"] = draw(st.integers(1, 5))
    c["bseed"] = draw(st.integers(0, 2**31 - 1))
    return c


def leaf_boxes(case, p, rng, n):
    """Bounds around the support of the leaf, beyond it, degenerate, and missing."""
    a = lg.points(dict(case, f64=True), p, n, rng)
    b = lg.points(dict(case, f64=True), p, n, rng)
    for x in (a, b):
        k = rng.integers(0, 8, x.shape)
        x[:] = np.where(np.isnan(x), rng.normal(0, 1, x.shape), x)
        x[:] = np.where(k == 0, -x - 1.25, np.where(k == 1, 0.0, np.where(k == 2, x + 0.5, x)))
        x[:] = np.where(k == 3, np.inf * rng.choice([-1, 1], x.shape), x)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    lo = np.where(lo == np.inf, 0.0, lo)
    hi = np.where(hi == -np.inf, 0.0, hi)
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    m = rng.integers(0, 6, lo.shape)
    lo = np.where((m == 0) | (m == 1), np.nan, lo)
    hi = np.where((m == 0) | (m == 2), np.nan, hi)
    if not case["f64"]:
        lo, hi = (x.astype(np.float32).astype(float) for x in (lo, hi))
    return np.stack([lo, hi], -1)


def check_leaf(case, rec):
    cc.set_dtype(case)
    p = lg.params(case)
    m = lg.build(case, p)
    ref = lg.reference(case, p)
    B = leaf_boxes(case, p, np.random.default_rng(case["bseed"]), case["n"])
    S = B[:, case["scope"]]
    rec.tag(case["kind"], "f64" if case["f64"] else "f32")
    rec.nt(bool((~np.isnan(S)).any()))
    got = m.log_likelihood(evidence(B))
    require(tuple(got.shape) == (len(B), case["F"], case["C"], case["R"]), f"{case['kind']}: shape {tuple(got.shape)}")
    e = np.exp(ref.ll(B)) if case["kind"] in ("Bernoulli", "Categorical") else ref_leaf(case, p, S)
    prob_close(got, e, f"{case['kind']} interval", case["f64"])
    full = m.log_likelihood(evidence(np.full_like(B, np.nan)))
    prob_close(full, np.ones(full.shape), f"{case['kind']} unbounded interval", case["f64"])


def ref_leaf(case, p, S):
    lo, hi = np.where(np.isnan(S[..., 0]), -np.inf, S[..., 0]), np.where(np.isnan(S[..., 1]), np.inf, S[..., 1])
    out = np.zeros((len(S), case["F"], case["C"], case["R"]))
    for f in range(case["F"]):
        d = cc.frozen(case["kind"], {k: a[f][None] for k, a in p.items()})
        l, h = lo[:, f][:, None, None], hi[:, f][:, None, None]
        with np.errstate(all="ignore"):
            out[:, f] = np.where(d.cdf(l) > 0.5, d.sf(l) - d.sf(h), d.cdf(h) - d.cdf(l))
    return out


# ------------------------------------------------------------------ circuits


@st.composite
def circ_case(draw):
    c = draw(cc.circuit(families=("real", "cat", "pos", "unit"), root="any", reps=(1, 1, 2), max_vars=5, maxdepth=4,
                        exclude=("cltree",)))
    c["boxes"] = draw(boxes(c["vt"]))
    return c


def unsupported(case):
    """Leaf families without interval inference raise NotImplementedError: not part of the property."""
    return any(s["t"] == "leaf" and s["kind"] not in LEAVES or s["t"] in ("cltree", "cltree1")
               for s in cc.spec_nodes(case["spec"]))


def check_circ(case, rec):
    if unsupported(case):
        rec.tag("unsupported leaf")
        return
    cc.set_dtype(case)
    b = cc.build(case)
    B = box_array(case["boxes"])
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf" and bool((~np.isnan(B)).any()))
    got = b.module.log_likelihood(evidence(B))
    prob_close(got, ref_prob(b.ref, B), "interval evidence", case["f64"])
    from spflow.utils.range_inference import log_likelihood_interval

    w = log_likelihood_interval(b.module, low=cc.to_torch(B[..., 0]), high=cc.to_torch(B[..., 1]))
    close(w.detach(), got.detach(), "log_likelihood_interval", rtol=0, atol=0)
    # unbounded variables are marginalized
    none = np.full_like(B, np.nan)
    z = b.module.log_likelihood(evidence(none))
    prob_close(z, np.ones(z.shape), "unbounded box", case["f64"])
    # rows are independent of each other
    if len(B) > 1:
        one = b.module.log_likelihood(evidence(B[1:2]))
        close(one.detach(), got[1:2].detach(), "box evaluated alone", **cc.tol(case))


@st.composite
def part_case(draw):
    c = draw(circ_case())
    c["v"] = draw(st.integers(0, c["n"] - 1))
    c["cut"] = draw(st.sampled_from(VALUES[c["vt"][c["v"]][0]]))
    return c


def check_part(case, rec):
    """Metamorphic: additivity over a split of one interval, monotonicity, and marginalization on the model itself."""
    if unsupported(case):
        rec.tag("unsupported leaf")
        return
    cc.set_dtype(case)
    b = cc.build(case)
    B, v = box_array(case["boxes"]), case["v"]
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf")
    B[:, v, :] = np.nan
    L, H = B.copy(), B.copy()
    L[:, v, 1] = case["cut"]
    H[:, v, 0] = np.nextafter(np.floor(case["cut"]) + 1, 0) if case["vt"][v][0] == "cat" else case["cut"]
    P = lambda X: np.exp(b.module.log_likelihood(evidence(X)).detach().double().numpy())
    tot, lo, hi = P(B), P(L), P(H)
    t = 1e-8 if case["f64"] else 1e-4
    for f, blk in enumerate(b.ref.P):
        if v in blk:
            close(lo[:, f] + hi[:, f], tot[:, f], f"masses of the two halves of variable {v} vs the whole (feature {f})", rtol=t, atol=t)
        else:
            close(lo[:, f], tot[:, f], f"bound on a variable outside of the scope (feature {f})", rtol=t, atol=t)
    require(bool((lo <= tot + t).all() and (hi <= tot + t).all()), "probability decreases when the box grows")


@st.composite
def bad_case(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "rows": draw(st.integers(1, 3)), "kind": draw(st.sampled_from(["inverted", "shape", "dim"])),
            "i": draw(st.integers(0, 2)), "j": draw(st.integers(0, 2))}


def check_bad(case, rec):
    from spflow.meta.data.interval_evidence import IntervalEvidence
    import torch

    rec.nt()
    rec.tag(case["kind"])
    lo, hi = torch.zeros(case["rows"], case["n"]), torch.ones(case["rows"], case["n"])
    IntervalEvidence(low=lo, high=hi)
    if case["kind"] == "inverted":
        lo[case["i"] % case["rows"], case["j"] % case["n"]] = 2.0
    elif case["kind"] == "shape":
        hi = torch.ones(case["rows"], case["n"] + 1)
    else:
        lo, hi = lo[0], hi[0]
    raises(lambda: IntervalEvidence(low=lo, high=hi), f"{case['kind']} bounds", ValueError)


PROP = Prop("C13", [
    Facet("leaf", leaf_case(), check_leaf, quick=1600, thorough=40000,
          rule="leaf mass of boxes inside, across and outside of the support vs scipy; non-trivial: a bound is present"),
    Facet("circuit", circ_case(), check_circ, quick=1400, thorough=30000,
          rule="mass of boxes vs reference evaluator; non-trivial: inner node and a bound is present"),
    Facet("partition", part_case(), check_part, quick=800, thorough=20000,
          rule="additivity and monotonicity of the model's own masses; non-trivial: inner node"),
    Facet("invalid", bad_case(), check_bad, quick=60, thorough=300, rule="inverted or ill-shaped bounds are rejected"),
])
