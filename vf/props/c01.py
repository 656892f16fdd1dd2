"""C01: log-likelihood of any composed circuit equals the mathematical mixture/product semantics."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close


@st.composite
def disc_case(draw):
    c = draw(cc.circuit(families=("cat",), root="any", reps=(1, 1, 2, 3), min_vars=2, max_vars=6, maxdepth=4))
    c["rows"] = draw(cc.rows(c["vt"]))
    return c


@st.composite
def mixed_case(draw):
    c = draw(cc.circuit(families=("cat", "real", "pos", "count", "unit"), root="any", reps=(1, 1, 2), max_vars=4,
                        min_vars=2, maxdepth=3))
    c["rows"] = draw(cc.rows(c["vt"], extreme=True))
    return c


@st.composite
def deep_case(draw):
    c = draw(cc.circuit(families=("cat", "real", "count"), root="any", reps=(1, 2), max_vars=9, min_vars=6, maxdepth=6))
    c["rows"] = draw(cc.rows(c["vt"], 1, 7, extreme=True))
    return c


def check(case, rec):
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf")
    got = b.module.log_likelihood(cc.to_torch(X))
    close(got, b.ref.ll(X), "log_likelihood vs reference evaluator", **cc.tol(case))


@st.composite
def wide_case(draw):
    """Tensorized layers over many channels (the contraction schedule depends on the channel counts)."""
    c = draw(cc.wide_circuit())
    c["grad"] = draw(st.booleans())
    c["rows"] = draw(cc.rows(c["vt"], 1, 3, extreme=True))
    return c


def check_wide(case, rec):
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    m = b.module if case["grad"] else b.module.eval()
    with torch.set_grad_enabled(case["grad"]):
        got = m.log_likelihood(cc.to_torch(X))
    close(got, b.ref.ll(X), "log_likelihood vs reference evaluator", **cc.tol(case))
    t, pairs, C = cc.wide_pairs(case["spec"])
    rec.tag(t, *([f"{t}:{'>' if C >= 16 else '<'}256pairs"] if pairs >= 256 else []))
    rec.nt(pairs >= 64)


PROP = Prop("C01", [
    Facet("discrete", disc_case(), check, quick=3500, thorough=60000, rule="non-trivial: circuit has an inner node"),
    Facet("mixed", mixed_case(), check, quick=2500, thorough=40000, rule="non-trivial: circuit has an inner node"),
    Facet("deep", deep_case(), check, quick=800, thorough=20000, rule="6-9 variables, depth up to 6; non-trivial: inner node"),
    Facet("wide", wide_case(), check_wide, quick=800, thorough=10000, rule="up to 33 channels; non-trivial: 64 channel pairs or more"),
])
