"""C05: unconditional samples follow the circuit's distribution (support, completeness, joint goodness of fit)."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, require
from vf.gof import gof
from vf.samp import Cells, check_support


@st.composite
def root_case(draw, families, maxstates=64, max_vars=5):
    return draw(cc.circuit(families=families, root="single", reps=(1,), min_vars=1, max_vars=max_vars, maxdepth=4,
                           maxstates=maxstates))


def check_root(case, rec):
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    rec.nt(case["spec"]["t"] != "leaf" and case["n"] > 1)
    torch.manual_seed(case["seed"] % (2**31))
    cells = Cells(case, lambda X: b.ref.ll(X)[:, 0, 0, 0], range(case["n"]))

    def draw(n):
        S = b.module.sample(num_samples=n)
        require(tuple(S.shape) == (n, case["n"]), f"sample shape {tuple(S.shape)} for {n} requested rows")
        if n < 3000:
            ll = b.module.log_likelihood(S.clone())
            require(bool((ll > -np.inf).all()), "sample outside the support of the circuit")
        S = S.detach().double().numpy()
        check_support(case, S, "sample")
        return cells.index(S)

    gof(draw, cells.probs, "sample(num_samples)", n=1200)


@st.composite
def chan_case(draw):
    c = draw(cc.circuit(families=("cat", "cat", "real"), root="any", reps=(1, 2, 3), min_vars=1, max_vars=5, maxdepth=4,
                        maxstates=64))
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    return c


def check_chan(case, rec):
    """Sampling a chosen output channel (per feature) and repetition of a multi-output circuit."""
    import torch
    from spflow.utils.cache import Cache
    from spflow.utils.sampling_context import SamplingContext

    cc.set_dtype(case)
    b = cc.build(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    F, C, R = len(b.ref.P), b.ref.C, b.ref.R
    if any(isinstance(r, cc.RRepMix) for r in cc.ref_nodes(b.ref)) and F > 1:
        return  # sampling repetition mixing over several features is rejected by design
    rec.nt(case["spec"]["t"] != "leaf" and (C * R > 1 or case["n"] > 3))
    ch = np.array([case["pick"][f % 6] % C for f in range(F)])
    r = case["pick"][6] % R
    torch.manual_seed(case["seed"] % (2**31))
    # the features are independent given the choice: the joint is the product of the chosen channels
    cells = Cells(case, lambda X: sum(b.ref.ll(X)[:, f, ch[f], r] for f in range(F)), range(case["n"]))

    def draw(n):
        ctx = SamplingContext(
            channel_index=torch.as_tensor(np.repeat(ch[None], n, 0)), mask=torch.ones((n, F), dtype=torch.bool),
            repetition_index=torch.full((n,), r, dtype=torch.long))
        data = torch.full((n, case["n"]), float("nan"))
        S = b.module._sample(data=data, sampling_ctx=ctx, cache=Cache()).detach().double().numpy()
        check_support(case, S, "channel sample")
        return cells.index(S)

    gof(draw, cells.probs, f"sampling channels {ch.tolist()} repetition {r}", n=1200)


@st.composite
def routed_case(draw):
    c = draw(cc.routed_circuit(families=("cat", "cat", "real"), reps=(1, 1, 2), maxstates=64))
    c["pick"] = [0] * 6 + [draw(st.integers(0, 1))]
    return c


@st.composite
def layer_case(draw):
    c = draw(cc.layer_circuit(families=("cat", "cat", "real")))
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    return c


PROP = Prop("C05", [
    Facet("discrete", root_case(("cat",)), check_root, quick=900, thorough=20000,
          rule="joint goodness of fit over all states; non-trivial: inner node and >1 variable"),
    Facet("mixed", root_case(("cat", "real", "pos", "count", "unit"), max_vars=4), check_root, quick=600, thorough=15000,
          rule="joint goodness of fit over a product grid of cells"),
    Facet("channels", chan_case(), check_chan, quick=900, thorough=20000,
          rule="chosen channel per feature and repetition; non-trivial: inner node and >1 channel or repetition"),
    Facet("routed", routed_case(), check_chan, quick=700, thorough=15000,
          rule="several features of one row take different inputs of a mixture of split/tensorized layers"),
    Facet("layers", layer_case(), check_chan, quick=500, thorough=12000,
          rule="every layer kind directly above its leaves: chosen channels and repetition"),
])
