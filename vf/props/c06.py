"""C06: conditional samples keep the evidence, are complete and follow the conditional distribution row by row."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, require
from vf.gof import gof_multi
from vf.samp import Cells, check_support


@st.composite
def ev_case(draw, families, root="single", reps=(1,), max_vars=5, routed=False, layers=False):
    if layers:
        c = draw(cc.layer_circuit(families=families, reps=reps))
    elif routed:
        c = draw(cc.routed_circuit(families=families, reps=reps, maxstates=64))
    else:
        c = draw(cc.circuit(families=families, root=root, reps=reps, min_vars=2, max_vars=max_vars, maxdepth=4,
                            maxstates=64))
    c["rows"] = draw(cc.rows(c["vt"], 1, 3, extreme=True))
    if layers:  # half of the entries of every row
        for r in c["rows"]:
            for v in range(c["n"]):
                if r[v] is not None and draw(st.booleans()):
                    r[v] = None
    for r in c["rows"]:  # keep something to sample in most rows
        if all(x is not None for x in r) and draw(st.integers(0, 3)):
            r[draw(st.integers(0, c["n"] - 1))] = None
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    c["api"] = draw(st.sampled_from([0, 0, 1]))
    c["order"] = draw(st.sampled_from(["block", "shuffle"]))
    return c


def run(case, rec, chan):
    import torch
    from spflow.utils.cache import Cache
    from spflow.utils.sampling_context import SamplingContext

    cc.set_dtype(case)
    b = cc.build(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    F, C, R = len(b.ref.P), b.ref.C, b.ref.R
    if chan:
        if any(isinstance(r, cc.RRepMix) for r in cc.ref_nodes(b.ref)) and F > 1:
            return  # rejected by design
        ch = np.array([case["pick"][f % 6] % C for f in range(F)])
        r = case["pick"][6] % R
    else:
        ch, r = np.zeros(F, int), 0

    def ref_ll(X):
        ll = b.ref.ll(X)
        return sum(ll[:, f, ch[f], r] for f in range(F))

    E = []
    for row in cc.to_np(case["rows"]):
        # an evidence row of (almost) zero density has no posterior: drop its least likely entries
        while not ref_ll(row[None])[0] > -3000:
            obs = np.nonzero(~np.isnan(row))[0]
            row = row.copy()
            row[obs[0]] = np.nan
        E.append(row)
    E = np.array(E)
    if not case.get("f64", True):
        E = E.astype(np.float32).astype(np.float64)
    cells = [Cells(case, ref_ll, [v for v in range(case["n"]) if np.isnan(row[v])], evidence=row) for row in E]
    part = [bool(np.isnan(row).any() and not np.isnan(row).all()) for row in E]
    rec.nt(case["spec"]["t"] != "leaf" and any(part))
    rec.tag(*(["mixed-rows"] if len(E) > 1 else []))
    torch.manual_seed(case["seed"] % (2**31))
    rng = np.random.default_rng(case["seed"])

    def draw(n):
        idx = np.repeat(np.arange(len(E)), n)
        if case["order"] == "shuffle":
            idx = rng.permutation(idx)
        data = cc.to_torch(E[idx])
        obs = ~torch.isnan(data)
        want = data.clone()
        if chan:
            N = len(idx)
            cache = Cache()
            b.module.log_likelihood(data, cache=cache)
            ctx = SamplingContext(
                channel_index=torch.as_tensor(np.repeat(ch[None], N, 0)), mask=torch.ones((N, F), dtype=torch.bool),
                repetition_index=torch.full((N,), r, dtype=torch.long))
            S = b.module._sample(data=data, sampling_ctx=ctx, cache=cache)
        else:
            S = (b.module.sample(data=data) if case["api"] else b.module.sample_with_evidence(evidence=data))
        require(tuple(S.shape) == tuple(want.shape), f"sample shape {tuple(S.shape)} for evidence {tuple(want.shape)}")
        require(torch.equal(S[obs], want[obs]), "an observed entry was changed")
        S = S.detach().double().numpy()
        check_support(case, np.where(np.isnan(E[idx]), S, 0.0), "conditional sample")
        return [c.index(S[idx == i]) for i, c in enumerate(cells)]

    gof_multi(draw, [c.probs for c in cells], f"conditional samples (channels {ch.tolist()}, repetition {r})", n=800)


def check_root(case, rec):
    run(case, rec, False)


def check_chan(case, rec):
    run(case, rec, True)


PROP = Prop("C06", [
    Facet("discrete", ev_case(("cat",)), check_root, quick=700, thorough=16000,
          rule="goodness of fit to the exact conditional per evidence row of a mixed batch; non-trivial: partially observed"),
    Facet("mixed", ev_case(("cat", "real", "pos", "count", "unit"), max_vars=4), check_root, quick=600, thorough=14000,
          rule="as above with continuous and count variables"),
    Facet("channels", ev_case(("cat", "cat", "real"), root="any", reps=(1, 2, 3)), check_chan, quick=700, thorough=16000,
          rule="chosen output channels and repetition"),
    Facet("routed", ev_case(("cat", "cat", "real"), reps=(1, 1, 2), routed=True), check_chan, quick=500, thorough=12000,
          rule="several features of one row take different inputs of a mixture of split/tensorized layers"),
    Facet("layers", ev_case(("cat", "cat", "real"), reps=(1, 2, 3), layers=True), check_chan, quick=700, thorough=16000,
          rule="every layer kind directly above its leaves: chosen channels and repetition; non-trivial: partially observed"),
])
