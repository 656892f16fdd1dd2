"""C04: structural marginalization agrees with leaving the same entries missing."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require

FAM = ("cat", "real", "pos", "count", "unit")


@st.composite
def case_(draw, nodes):
    c = draw(cc.circuit(families=FAM, nodes=nodes, root="any", reps=(1, 1, 2, 3), min_vars=2, max_vars=6, maxdepth=4))
    c["rows"] = draw(cc.rows(c["vt"], max_rows=3))
    m = draw(st.lists(st.booleans(), min_size=c["n"], max_size=c["n"]))
    c["marg"] = [v for v in range(c["n"]) if m[v]]
    c["prune"] = draw(st.booleans())
    c["again"] = draw(st.integers(0, c["n"] - 1))
    return c


def check(case, rec):
    cc.set_dtype(case)
    b = cc.build(case)
    X = cc.to_np(case["rows"])
    rec.tag(*cc.spec_tags(case["spec"]))
    marg = case["marg"]
    rec.nt(case["spec"]["t"] != "leaf" and 0 < len(marg) < case["n"])
    t = cc.tol(case)
    before = b.module.log_likelihood(cc.to_torch(X)).detach()
    step(case, rec, b.module, b.ref, X, set(marg), t, 0)
    after = b.module.log_likelihood(cc.to_torch(X)).detach()
    close(after, before, "original circuit after marginalization", rtol=0, atol=0)


def step(case, rec, module, ref, X, marg, t, depth):
    P = ref.P
    scope = sorted({v for p in P for v in p})
    m = module.marginalize(sorted(marg), prune=case["prune"])
    keep = [i for i, p in enumerate(P) if set(p) - marg]
    if not keep:
        require(m is None, f"marginalizing every variable must return None, got {type(m).__name__}")
        return
    require(m is not None, "marginalization of a strict subset returned None")
    require(sorted(m.scope.query) == [v for v in scope if v not in marg],
            f"scope after marginalizing {sorted(marg)}: {sorted(m.scope.query)}")
    Xm = X.copy()
    Xm[:, sorted(marg)] = np.nan
    exp = ref.ll(Xm)[:, keep]
    # values of removed variables must not matter: keep whatever the row has there
    got = m.log_likelihood(cc.to_torch(X))
    close(got, exp, f"marginalized circuit vs missing entries (marg={sorted(marg)}, prune={case['prune']})", **t)
    sh = m.out_shape
    require(tuple(got.shape[1:]) == (sh.features, sh.channels, sh.repetitions) or "repmix" in cc.spec_tags(case["spec"]),
            f"declared shape {sh} vs tensor {tuple(got.shape)} after marginalization")
    if depth == 0 and case["again"] in scope and case["again"] not in marg:
        m2 = m.marginalize([case["again"]], prune=case["prune"])  # marginalizing twice = once with the union
        both = set(marg) | {case["again"]}
        keep2 = [i for i, p in enumerate(P) if set(p) - both]
        if not keep2:
            require(m2 is None, "marginalizing the last variable must return None")
            return
        Xm[:, case["again"]] = np.nan
        close(m2.log_likelihood(cc.to_torch(X)), ref.ll(Xm)[:, keep2], "marginalizing twice", **t)


def known(case):
    marg = set(case["marg"])
    both = marg | {case["again"]}
    for n in cc.spec_nodes(case["spec"]):
        if n["t"] == "cltree":
            vs = set(n["vars"])
            if any(m & vs and not vs <= m for m in (marg, both)):
                return "cltree-partial"
    tags = cc.spec_tags(case["spec"])
    if not any(t.startswith(("einsum", "linsum")) for t in tags):
        return None
    cc.set_dtype(case)
    for r in cc.ref_nodes(cc.build(case).ref):
        if isinstance(r, (cc.REinsum, cc.RLinsum)):
            for m in (marg, both):
                gone = [(set(a) <= m, set(b) <= m) for a, b in zip(r.left.P, r.right.P)]
                if any(a != b for a, b in gone):
                    return "einsum-one-sided"  # frozen by existing tests: the surviving input is returned as is
                if len(gone) > 1 and any(a for a, _ in gone) and not all(a for a, _ in gone) and \
                        any(t.endswith(("consecutive", "by_index")) for t in tags):
                    return "split-feature-scopes"  # consequence of the recorded C10 finding
    return None


PROP = Prop("C04", [
    Facet("core", case_(("cat1", "cat2", "sum", "product", "share")), check, quick=2000, thorough=40000,
          rule="sums, products, concatenations, leaves; non-trivial: inner node and a strict non-empty subset removed"),
    Facet("layers", case_(("cat1", "cat2", "sum", "product", "share", "elemsum", "einsum", "linsum", "split", "repmix", "cltree")),
          check, known=known, quick=2000, thorough=40000, rule="as core, with elementwise sums, einsum/linsum and splits"),
])
