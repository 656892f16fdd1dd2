"""C02: every circuit is normalized, for explicit weights and for arbitrary values of its raw parameters."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require


def perturb(module, seed, scale):
    """Move every trainable parameter by a random amount (as an optimizer step would)."""
    import torch

    g = torch.Generator().manual_seed(seed % (2**31))
    n = 0
    with torch.no_grad():
        for p in module.parameters():
            if p.is_floating_point() and p.requires_grad:
                p.add_(scale * torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype))
                n += p.numel()
    return n


@st.composite
def disc_case(draw):
    c = draw(cc.circuit(families=("cat",), root="any", reps=(1, 1, 2, 3), min_vars=1, max_vars=6, maxdepth=4,
                        maxstates=256))
    c["perturb"] = draw(st.sampled_from([0, 0.5, 3.0]))
    return c


def check_disc(case, rec):
    cc.set_dtype(case)
    b = cc.build(case)
    if case["perturb"]:
        perturb(b.module, case["seed"], case["perturb"])
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf")
    X = cc.all_states(case["vt"])
    ll = b.module.log_likelihood(cc.to_torch(X)).detach().double().numpy()
    require(not np.isnan(ll).any(), "log-likelihood is NaN on a complete state")
    tot = np.exp(ll).sum(0)
    others = np.array([len(X) / np.prod([case["vt"][v][1] for v in blk]) for blk in b.ref.P])
    eps = 1e-6 if case["f64"] else 2e-3
    close(tot / others[:, None, None], np.ones_like(tot), "total probability over all joint states", rtol=0, atol=eps)


def known(case):
    """CLTree keeps its tables as free parameters: moving them (gradient training) breaks normalization."""
    if case["perturb"] and "cltree" in cc.spec_tags(case["spec"]):
        return "cltree-free-tables"
    return None


@st.composite
def cont_case(draw):
    c = draw(cc.circuit(families=("real", "pos", "count", "unit"), nodes=("sum", "elemsum", "cat2", "repmix", "share"),
                        root="chan", reps=(1, 2), min_vars=1, max_vars=1, maxdepth=3))
    c["perturb"] = draw(st.sampled_from([0, 0, 0.3]))
    c["f64"] = True
    return c


def grid(kind):
    """Integration nodes and weights for one variable type."""
    if kind == "count":
        return np.arange(0, 1200.0), np.ones(1200)
    if kind == "unit":
        e = np.linspace(-6, 8, 280001)
    elif kind == "real":
        t = np.linspace(-7, 7, 60001)
        e = np.sinh(t)
    else:
        t = np.linspace(-28, 8, 60001)
        e = np.exp(t)
    x = 0.5 * (e[1:] + e[:-1])
    return x, np.diff(e)


def check_cont(case, rec):
    cc.set_dtype(case)
    b = cc.build(case)
    if case["perturb"]:
        perturb(b.module, case["seed"], case["perturb"])
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt()
    x, w = grid(case["vt"][0][0])
    ll = b.module.log_likelihood(cc.to_torch(x[:, None])).detach().numpy()
    require(not np.isnan(ll).any(), "log-likelihood is NaN on a complete state")
    tot = (np.exp(ll) * w[:, None, None, None]).sum(0)
    atol = {"unit": 2e-3, "pos": 3e-3, "real": 1e-3, "count": 1e-3}[case["vt"][0][0]]
    close(tot, np.ones_like(tot), "total mass", rtol=0, atol=atol)


@st.composite
def wide_case(draw):
    c = draw(cc.wide_circuit(kinds=("Categorical",)))
    c["perturb"] = draw(st.sampled_from([0, 0.5, 3.0]))
    return c


PROP = Prop("C02", [
    Facet("discrete", disc_case(), check_disc, known=known, quick=2500, thorough=60000,
          rule="circuit over a finite domain, all joint states enumerated; non-trivial: has an inner node"),
    Facet("wide", wide_case(), check_disc, quick=300, thorough=6000,
          rule="layers of up to 33 channels over a finite domain, all joint states enumerated"),
    Facet("continuous", cont_case(), check_cont, quick=300, thorough=6000, shards=4,
          rule="univariate mixture integrated on a dense grid"),
])
