"""C08: rows of a batch are processed independently."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require
from vf.props.c07 import Tie, descend

FAM = ("cat", "cat", "real", "pos", "count", "unit")


@st.composite
def case_(draw, root="any", reps=(1, 2, 3), families=FAM):
    c = draw(cc.circuit(families=families, root=root, reps=reps, min_vars=1, max_vars=6, maxdepth=4, maxstates=4096))
    c["rows"] = draw(cc.rows(c["vt"], 1, 6, extreme=root == "any"))
    c["big"] = draw(st.sampled_from([0, 0, 0, 0, 33, 300]))
    B = len(c["rows"])
    c["idx"] = draw(st.lists(st.integers(0, B - 1), min_size=1, max_size=8))
    c["layout"] = draw(st.sampled_from(["plain", "strided_rows", "strided_cols", "transposed", "expanded", "offset"]))
    return c


def layout(X, kind):
    """The same rows in a different memory layout."""
    import torch

    if kind == "strided_rows":
        Y = torch.full((2 * X.shape[0], X.shape[1]), 7.0)
        Y[::2] = X
        return Y[::2]
    if kind == "strided_cols":
        Y = torch.full((X.shape[0], 2 * X.shape[1]), 7.0)
        Y[:, 1::2] = X
        return Y[:, 1::2]
    if kind == "transposed":
        return X.t().contiguous().t()
    if kind == "offset":
        Y = torch.full((X.shape[0] + 2, X.shape[1]), 7.0)
        Y[1:-1] = X
        return Y[1:-1]
    return X.clone()


def prepare(case):
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    return b, X


def check_ll(case, rec):
    """Batch evaluation = row-wise evaluation = evaluation of any re-indexed batch in any layout."""
    import torch

    b, X = prepare(case)
    rec.tag(case["layout"], *cc.spec_tags(case["spec"]))
    T = cc.to_torch(X)
    # tiny differences from a different summation order are allowed, nothing more
    t = {"rtol": 1e-10, "atol": 1e-10} if case.get("f64", True) else {"rtol": 2e-5, "atol": 2e-5}
    m = b.module
    m.eval()
    with torch.no_grad():
        full = m.log_likelihood(T.clone())
        require(full.shape[0] == len(X), f"{full.shape[0]} result rows for {len(X)} rows")
        for i in range(len(X)):
            close(m.log_likelihood(T[i:i + 1].clone())[0], full[i], f"row {i} alone against row {i} of the batch", **t)
        idx = torch.tensor(case["idx"])
        if case["big"]:
            idx = idx.repeat(-(-case["big"] // len(idx)))[:case["big"]]
        Y = T[idx]
        if case["layout"] == "expanded":
            e = T[idx[:1]].expand(5, -1)
            close(m.log_likelihood(e), full[idx[:1]].expand(5, *full.shape[1:]), "an expanded row", **t)
        close(m.log_likelihood(layout(Y, case["layout"])), full[idx], f"re-indexed batch ({case['layout']})", **t)
        close(torch.cat([m.log_likelihood(T.clone()), m.log_likelihood(Y.clone())]),
              m.log_likelihood(torch.cat([T, Y])), "concatenated batches", **t)
        if len(X) > 1:
            # changing another row must not matter
            Z = T.clone()
            Z[0] = float("nan")
            close(m.log_likelihood(Z)[1:], full[1:], "rows after emptying the first row", **t)
    rec.nt(len(X) > 1 and case["spec"]["t"] != "leaf")
    rec.tag(*(["some-missing"] if np.isnan(X).any() and not np.isnan(X).all(1).any() else []))


def check_mpe(case, rec):
    """Conditional most probable completions are computed row by row."""
    import torch

    b, X = prepare(case)
    if not case.get("f64", True):
        X = X.astype(np.float32).astype(np.float64)
    F = len(b.ref.P)
    keep = []
    for row in X:
        ok = np.isfinite(b.ref.ll(row[None])[0, :, 0, 0]).all()
        try:
            for f in range(F):
                descend(b.ref, row[None], {}, f, 0, 0, [])
        except Tie:
            ok = False
        # completions of trees may tie between leaves: rows with missing tree variables are left out
        for r in cc.ref_nodes(b.ref):
            if isinstance(r, cc.RCLTree) and np.isnan(row[r.vars]).any():
                ok = False
        keep.append(ok)
    X = X[np.array(keep)]
    if not len(X):
        return
    rec.tag(*cc.spec_tags(case["spec"]))
    m = b.module
    full = m.sample_with_evidence(evidence=cc.to_torch(X), is_mpe=True).clone()
    for i in range(len(X)):
        one = m.sample_with_evidence(evidence=cc.to_torch(X[i:i + 1]), is_mpe=True)[0]
        require(torch.equal(one, full[i]), f"completion of row {i} alone {one.tolist()} differs from the batch "
                f"{full[i].tolist()} (evidence {X[i].tolist()})")
    idx = [i % len(X) for i in case["idx"]]
    again = m.sample_with_evidence(evidence=cc.to_torch(X[idx]), is_mpe=True)
    require(torch.equal(again, full[torch.tensor(idx)]), "completions of a re-indexed batch differ")
    rec.nt(len(X) > 1 and np.isnan(X).any() and case["spec"]["t"] != "leaf")


@st.composite
def zoo_case(draw):
    fams = draw(st.sampled_from([("cat",), ("cat", "real", "count", "pos")]))
    c = draw(zz.zoo(maxD=8, families=fams, maxstates=None, classes=(1, 1, 2, 3)))
    c["rows"] = draw(cc.rows(c["vt"], 1, 5))
    c["big"] = draw(st.sampled_from([0, 0, 0, 40, 300]))
    c["idx"] = draw(st.lists(st.integers(0, len(c["rows"]) - 1), min_size=1, max_size=8))
    c["layout"] = draw(st.sampled_from(["plain", "strided_rows", "strided_cols", "transposed", "offset"]))
    return c


def check_zoo(c, rec):
    """RAT-SPNs, Einets, ConvPcs, Naive Bayes and Factorize towers: likelihoods, posteriors and completions row by row."""
    import torch

    cc.set_dtype(c)
    m, _ = zz.build(c)
    m.eval()
    X = cc.to_np(c["rows"])
    T = cc.to_torch(X)
    t = {"rtol": 1e-10, "atol": 1e-10} if c["f64"] else {"rtol": 3e-5, "atol": 3e-5}
    rec.tag(*zz.tags(c))
    rec.nt(len(X) > 1)
    idx = torch.tensor(c["idx"])
    if c["big"]:
        idx = idx.repeat(-(-c["big"] // len(idx)))[:c["big"]]
    queries = {"log-likelihood": m.log_likelihood}
    if c["classes"] > 1 and hasattr(m, "log_posterior"):
        queries["class posterior"] = m.log_posterior
    with torch.no_grad():
        for what, q in queries.items():
            full = q(T.clone())
            require(full.shape[0] == len(X), f"{what}: {full.shape[0]} result rows for {len(X)} rows")
            for i in range(len(X)):
                close(q(T[i:i + 1].clone())[0], full[i], f"{what} of row {i} alone against row {i} of the batch", **t)
            close(q(layout(T[idx], c["layout"])), full[idx], f"{what} of a re-indexed batch ({c['layout']})", **t)
            if len(X) > 1:
                Z = T.clone()
                Z[0] = float("nan")
                close(q(Z)[1:], full[1:], f"{what} of the rows after emptying the first row", **t)
        ll = m.log_likelihood(T)
        ok = torch.isfinite(ll).flatten(1).all(1)
        T = T[ok]
        if not len(T) or ll.shape[1:].numel() != 1:
            return
        full = m.sample_with_evidence(evidence=T.clone(), is_mpe=True)
        again = m.sample_with_evidence(evidence=T.flip(0).clone(), is_mpe=True).flip(0)
        lf = m.log_likelihood(full)
        for i in range(len(T)):
            one = m.sample_with_evidence(evidence=T[i:i + 1].clone(), is_mpe=True)
            for other, how in ((one[0], "alone"), (again[i], "in the reversed batch")):
                if not torch.equal(other, full[i]):  # equally likely decisions may fall either way
                    lo = m.log_likelihood(other[None])
                    require(abs(float(lo - lf[i])) < 1e-3, f"completion of row {i} {how} {other.tolist()} differs from the batch "
                            f"{full[i].tolist()} (evidence {T[i].tolist()})")


PROP = Prop("C08", [
    Facet("ll", case_(), check_ll, quick=2000, thorough=60000,
          rule="row alone, permuted, repeated, concatenated, emptied neighbour, memory layouts; non-trivial: >1 row, inner node"),
    Facet("mpe", case_(root="single", reps=(1,), families=("cat", "cat", "real", "pos", "count", "hist")), check_mpe,
          quick=1500, thorough=30000, rule="conditional completions row by row; non-trivial: >1 row with missing entries"),
    Facet("zoo", zoo_case(), check_zoo, quick=500, thorough=15000,
          rule="RAT-SPN/Einet/ConvPc/Naive Bayes/Factorize models: likelihood, class posterior and completion rows; non-trivial: >1 row"),
])
