"""C10: declared shapes, scopes and feature scopes describe the computed tensors, for every node of a circuit."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, Violation, require

FAM = ("cat", "cat", "real", "pos", "count", "unit")


@st.composite
def case_(draw, root="any", reps=(1, 2, 3)):
    c = draw(cc.circuit(families=FAM, root=root, reps=reps, min_vars=1, max_vars=7, maxdepth=4, maxstates=65536, maxC=4))
    c["rows"] = draw(cc.rows(c["vt"], 1, 3))
    return c


def own_defect(s, ref):
    """Recorded findings: nodes whose declared feature scopes (or repetitions) are wrong by themselves."""
    F = len(ref.P)
    if s["t"] in ("einsum", "linsum") and F > 1 and s.get("mode") in ("consecutive", "by_index"):
        return "einsum-split-feature-scopes"
    if s["t"] == "outer" and F > 1 and "mode" not in s:
        return "outer-list-feature-scopes"
    if s["t"] == "repmix":
        return "repmix-repetitions"
    return None


def spec_defects(s, pairs_by_id):
    """Keys of recorded findings at or below spec node s."""
    return {k for n in pairs_by_id[id(s)] for k in [own_defect(*n)] if k}


def below(s, by_spec, byid):
    """All (spec, ref) at or below s, following references."""
    out, stack, seen = [], [s], set()
    while stack:
        x = stack.pop()
        if x["t"] == "ref":
            x = byid[x["to"]]
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        stack.extend(x.get("kids", []))
    return [(x, by_spec[id(x)]) for x in out]


def scope_vars(x):
    return set(int(v) for v in x.query)


def check_node(s, m, ref, ll, skip, name):
    F, C, R = len(ref.P), ref.C, ref.R
    require(tuple(ll.shape[1:]) == (F, C, R), f"{name}: likelihood shape {tuple(ll.shape[1:])}, the circuit has {(F, C, R)}")
    sh = m.out_shape
    if "repmix-repetitions" not in skip:
        require((sh.features, sh.channels, sh.repetitions) == (F, C, R),
                f"{name}: declared shape {(sh.features, sh.channels, sh.repetitions)}, computed {(F, C, R)}")
    else:
        require((sh.features, sh.channels) == (F, C), f"{name}: declared {(sh.features, sh.channels)}, computed {(F, C)}")
    allv = {v for p in ref.P for v in p}
    require(scope_vars(m.scope) == allv, f"{name}: scope {sorted(scope_vars(m.scope))}, depends on {sorted(allv)}")
    require(len(m.scope.query) == len(allv), f"{name}: scope lists a variable twice: {m.scope.query}")
    if skip - {"repmix-repetitions"}:
        return
    f2s = m.feature_to_scope
    want_r = R if "repmix-repetitions" not in skip else f2s.shape[1]
    require(tuple(f2s.shape) == (F, want_r), f"{name}: feature_to_scope has shape {tuple(f2s.shape)}, expected {(F, R)}")
    for f in range(F):
        for r in range(f2s.shape[1]):
            require(hasattr(f2s[f, r], "query"), f"{name}: feature_to_scope[{f},{r}] is {f2s[f, r]!r}, not a scope")
            got = scope_vars(f2s[f, r])
            require(got == set(ref.P[f]), f"{name}: feature {f} reports scope {sorted(got)}, depends on {sorted(ref.P[f])}")


def check(case, rec):
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    rec.tag(*cc.spec_tags(case["spec"]))
    X = cc.to_torch(cc.to_np(case["rows"]))
    by_spec = {id(s): r for s, _, r in b.pairs}
    byid = {s["id"]: s for s, _, _ in b.pairs if "id" in s}
    strict = case.get("strict", False)
    multi = False
    # a defective layer may keep its parents from being built or evaluated consistently; each node is checked by itself
    for s, m, ref in b.pairs:
        if s["t"] == "cltree" or isinstance(ref, cc.RCLTree):
            continue
        skip = set() if strict else {k for x, xr in below(s, by_spec, byid) for k in [own_defect(x, xr)] if k}
        ll = m.log_likelihood(X.clone())
        name = type(m).__name__ + (f" ({s['mode']} split)" if "mode" in s else "")
        check_node(s, m, ref, ll, skip, name)
        rec.n()
        if not skip and len(ref.P) > 1 and s["t"] != "leaf":
            multi = True
        # which outputs react to which variable, measured on the module itself
        if not skip and s["t"] not in ("leaf", "cat"):
            base = m.log_likelihood(torch.full_like(X, float("nan")))
            for v in range(case["n"]):
                if np.isnan(cc.to_np(case["rows"])[0][v]):
                    continue
                Y = torch.full((1, X.shape[1]), float("nan"))
                Y[0, v] = X[0, v]
                d = (m.log_likelihood(Y)[0] != base[0]).reshape(len(ref.P), -1).any(1)
                for f in range(len(ref.P)):
                    if d[f]:
                        require(v in scope_vars(m.feature_to_scope[f, 0]), f"{name}: feature {f} reacts to variable {v} "
                                f"but reports scope {m.feature_to_scope[f, 0]}")
    rec.nt(multi)


def check_split(case, rec):
    """Split modules: parts have the declared sizes and the same values as the input features they name."""
    import torch
    from spflow.modules.ops.split import SplitMode

    cc.set_dtype(case)
    b = cc.build(case)
    m, ref = b.module, b.ref
    F = len(ref.P)
    if F < 2:
        return
    X = cc.to_torch(cc.to_np(case["rows"]))
    full = m.log_likelihood(X.clone())
    rng = np.random.default_rng(case["seed"])
    for n in range(2, F + 1):
        modes = []
        if F % n == 0:
            modes = [("consecutive", SplitMode.consecutive(n), None), ("interleaved", SplitMode.interleaved(n), None)]
        perm = rng.permutation(F)
        cuts = np.sort(rng.choice(np.arange(1, F), size=n - 1, replace=False))
        groups = [[int(i) for i in g] for g in np.split(perm, cuts)]
        modes.append(("by_index", SplitMode.by_index(groups), groups))
        for mode, sm, groups in modes:
            sp = sm.create(m)
            want = cc.split_groups(F, mode, n, groups)
            parts = sp.log_likelihood(X.clone())
            require(len(parts) == n, f"{mode} split into {n} gives {len(parts)} parts")
            for g, part in zip(want, parts):
                require(tuple(part.shape) == (len(X), len(g), ref.C, ref.R), f"{mode} split part shape {tuple(part.shape)}")
                require(torch.equal(part, full[:, g]), f"{mode} split part differs from features {g} of the input")
            require(scope_vars(sp.scope) == {v for p in ref.P for v in p}, f"{mode} split: scope {sp.scope}")
            idx = [torch.as_tensor(np.array([g])) for g in want]
            if len({len(g) for g in want}) == 1:
                merged = sp.merge_split_indices(*idx)
                require(merged.tolist() == [list(range(F))], f"{mode} split: merging the part positions gives {merged.tolist()}")
            rec.tag("split:" + mode)
            rec.n()
    rec.nt()


PROP = Prop("C10", [
    Facet("nodes", case_(), check, quick=2000, thorough=50000,
          rule="every node of a generated circuit; non-trivial: an inner node with several features"),
    Facet("splits", case_(), check_split, quick=800, thorough=20000, rule="all split modes of multi-feature modules"),
])
