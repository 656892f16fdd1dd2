"""C29: scopes behave like ordered sets of variables; interval evidence validates its bounds."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Prop, Violation, raises, require

SRC = ["list", "tuple", "array", "tensor", "range", "generator", "set", "int", "npint"]


@st.composite
def scope_spec(draw, nonempty=False):
    pool = list(draw(st.permutations(range(8))))
    k = draw(st.integers(1 if nonempty or draw(st.integers(0, 7)) else 0, 5))
    j = draw(st.integers(0, 3)) if k and draw(st.booleans()) else 0
    return {"q": pool[:k], "e": pool[k:k + j], "src": draw(st.sampled_from(SRC))}


def given(vals, src):
    import torch

    vals = list(vals)
    if src == "tuple":
        return tuple(vals)
    if src == "array":
        return np.array(vals, dtype=np.int64)
    if src == "tensor":
        return torch.tensor(vals, dtype=torch.long)
    if src == "range" and vals == list(range(vals[0] if vals else 0, (vals[0] if vals else 0) + len(vals))):
        return range(vals[0], vals[0] + len(vals)) if vals else range(0)
    if src == "generator":
        return (v for v in vals)
    if src == "int" and len(vals) == 1:
        return vals[0]
    if src == "set":
        return dict.fromkeys(vals).keys()
    return vals


def make(s):
    from spflow.meta.data import Scope

    return Scope(given(s["q"], s["src"]), given(s["e"], "list" if s["src"] == "int" else s["src"]))


@st.composite
def algebra(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["join", "remove", "joinall", "copy", "pickle"]), st.integers(0, 20), st.integers(0, 20)), max_size=8))
    return {"init": draw(st.lists(scope_spec(), min_size=2, max_size=4)), "ops": [list(o) for o in ops]}


def model_of(s):
    return (list(s["q"]), list(s["e"]))


def agree(S, M, what):
    """A scope equals its model: ordered query and evidence, derived predicates, invariants."""
    q, e = [int(v) for v in S.query], [int(v) for v in S.evidence]
    require(q == M[0], f"{what}: query {q}, expected {M[0]}")
    require(e == M[1], f"{what}: evidence {e}, expected {M[1]}")
    require(isinstance(S.query, tuple) and isinstance(S.evidence, tuple), f"{what}: query and evidence are tuples")
    require(len(S) == len(M[0]), f"{what}: len")
    require(S.empty() == (not M[0]), f"{what}: empty()")
    require(S.is_conditional() == bool(M[1]), f"{what}: is_conditional()")
    require(len(set(q)) == len(q) and len(set(e)) == len(e) and not set(q) & set(e), f"{what}: duplicates or overlap")


def check_algebra(c, rec):
    from spflow.meta.data import Scope

    rec.nt(len(c["ops"]) > 1)
    pool = []
    for s in c["init"]:
        S, M = make(s), model_of(s)
        agree(S, M, f"Scope from {s['src']}")
        pool.append((S, M))
    snapshot = [(tuple(S.query), tuple(S.evidence)) for S, _ in pool]
    for op, i, j in c["ops"]:
        (A, MA), (B, MB) = pool[i % len(pool)], pool[j % len(pool)]
        rec.tag(op)
        if op == "join":
            q = sorted(set(MA[0]) | set(MB[0]))
            M = (q, sorted((set(MA[1]) | set(MB[1])) - set(q)))
            S = A.join(B)
            agree(S, M, "join")
            T = B.join(A)
            agree(T, M, "join (swapped)")
        elif op == "remove":
            if not MA[0]:
                continue
            v = MA[0][j % len(MA[0])]
            M = ([x for x in MA[0] if x != v], MA[1])
            if not M[0] and M[1]:
                raises(lambda: A.remove_from_query(v), "removing the last query variable of a conditional scope")
                continue
            S = A.remove_from_query(v)
            agree(S, M, "remove_from_query")
            raises(lambda: A.remove_from_query(99), "removing a variable that is not in the query")
        elif op == "joinall":
            k = 1 + (i + j) % len(pool)
            q = sorted(set().union(*[set(m[0]) for _, m in pool[:k]]))
            M = (q, sorted(set().union(*[set(m[1]) for _, m in pool[:k]]) - set(q)))
            S = Scope.join_all([s for s, _ in pool[:k]])
            if k == 1:
                M = pool[0][1]
            agree(S, M, "join_all")
        elif op == "copy":
            S, M = (A.copy() if j % 2 else copy.deepcopy(A)), MA
            agree(S, M, "copy")
        else:
            S, M = pickle.loads(pickle.dumps(A)), MA
            agree(S, M, "pickle")
        pool.append((S, M))
        if len(snapshot) < len(pool):
            snapshot.append((tuple(S.query), tuple(S.evidence)))
        for (s, _), snap in zip(pool, snapshot):
            require((tuple(s.query), tuple(s.evidence)) == snap, f"{op} changed an operand")
    sets = [(set(m[0]), set(m[1])) for _, m in pool]
    rec.n(len(pool) ** 2)
    for (S, _), (q, e) in zip(pool, sets):
        for (T, _), (r, f) in zip(pool, sets):
            eq = q == r and e == f
            require((S == T) == eq and (S != T) == (not eq), f"{S!r} == {T!r} is not {eq}")
            require(S.equal_query(T) == (q == r) and S.equal_evidence(T) == (e == f), "equal_query / equal_evidence")
            require(S.isdisjoint(T) == (not q & r), f"isdisjoint({S!r}, {T!r})")
            if eq:
                require(hash(S) == hash(T), f"equal scopes {S!r} and {T!r} have different hashes")
                require(len({S, T}) == 1, "equal scopes are different set members")
    qs = [m[0] for _, m in pool]
    disj = all(not set(a) & set(b) for i, a in enumerate(qs) for b in qs[:i])
    require(Scope.all_pairwise_disjoint([s for s, _ in pool]) == disj, "all_pairwise_disjoint")
    require(Scope.all_equal([s for s, _ in pool]) == all(s == sets[0] for s in sets), "all_equal")
    for k in (1, 2, 3):
        sub = pool[:k]
        d = all(not set(a[1][0]) & set(b[1][0]) for i, a in enumerate(sub) for b in sub[:i])
        require(Scope.all_pairwise_disjoint([s for s, _ in sub]) == d, f"all_pairwise_disjoint of {k} scopes")
        require(Scope.all_pairwise_disjoint(iter([s for s, _ in sub])) == d, "all_pairwise_disjoint of an iterator")
        require(Scope.all_equal(iter([s for s, _ in sub])) == all(t == sets[0] for t in sets[:k]), "all_equal of an iterator")
    for (S, M) in pool:
        T = Scope.as_scope(S)
        require(T == S, "as_scope of a scope")
        if not M[1]:
            agree(Scope.as_scope(list(M[0])), M, "as_scope of a list")


# ------------------------------------------------------------------ rejected scopes

BAD = ["dup-query", "dup-evidence", "overlap", "negative-query", "negative-evidence", "evidence-only", "frozen"]


@st.composite
def bad_case(draw):
    s = draw(scope_spec(nonempty=True))
    s["src"] = draw(st.sampled_from(["list", "tuple", "array", "tensor", "generator"]))
    return {"s": s, "bad": draw(st.sampled_from(BAD)), "pos": draw(st.integers(0, 10)), "pick": draw(st.integers(0, 10)), "neg": draw(st.integers(-5, -1))}


def check_bad(c, rec):
    from spflow.meta.data import Scope

    q, e, src = list(c["s"]["q"]), list(c["s"]["e"]), c["s"]["src"]
    b = c["bad"]
    rec.tag(b, src)
    rec.nt()
    free = [v for v in range(12) if v not in q]
    if b == "dup-query":
        q.insert(c["pos"] % (len(q) + 1), q[c["pick"] % len(q)])
    elif b == "dup-evidence":
        e = e or [free[0]]
        e.insert(c["pos"] % (len(e) + 1), e[c["pick"] % len(e)])
    elif b == "overlap":
        e.insert(c["pos"] % (len(e) + 1), q[c["pick"] % len(q)])
    elif b == "negative-query":
        q.insert(c["pos"] % (len(q) + 1), c["neg"])
    elif b == "negative-evidence":
        e.insert(c["pos"] % (len(e) + 1), c["neg"])
    elif b == "evidence-only":
        q, e = [], e or [free[0]]
    else:
        S = make(c["s"])
        for name in ("query", "evidence"):
            def assign():
                setattr(S, name, (1,))
            raises(assign, f"assigning {name} of a scope")
        return
    raises(lambda: Scope(given(q, src), given(e, src)), f"invalid scope ({b})")


# ------------------------------------------------------------------ interval evidence


@st.composite
def iv_case(draw):
    B, D = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    val = st.one_of(st.none(), st.sampled_from([-np.inf, np.inf]).map(float), st.floats(-5, 5, width=32))
    lo = [[draw(val) for _ in range(D)] for _ in range(B)]
    hi = [[draw(val) for _ in range(D)] for _ in range(B)]
    return {"lo": [[str(v) if v is not None and np.isinf(v) else v for v in r] for r in lo],
            "hi": [[str(v) if v is not None and np.isinf(v) else v for v in r] for r in hi], "bad": draw(st.sampled_from(["", "", "", "shape", "dim"]))}


def check_iv(c, rec):
    """Bounds with low > high are rejected, everything else is kept as given."""
    import torch
    from spflow.meta.data.interval_evidence import IntervalEvidence

    def arr(x):
        return np.array([[np.nan if v is None else float(v) for v in r] for r in x])

    lo, hi = arr(c["lo"]), arr(c["hi"])
    with np.errstate(invalid="ignore"):
        fin = np.isfinite(lo) & np.isfinite(hi)
        wrong = bool((fin & (lo > hi)).any())
    if not c["bad"] and not wrong:
        lo = lo.copy()
    rec.tag(c["bad"] or ("inverted" if wrong else "valid"))
    rec.nt(lo.size > 1)
    L, H = torch.as_tensor(lo), torch.as_tensor(hi)
    if c["bad"] == "shape":
        raises(lambda: IntervalEvidence(low=L, high=torch.cat([H, H])), "bounds of different shape")
        return
    if c["bad"] == "dim":
        raises(lambda: IntervalEvidence(low=L[0], high=H[0]), "one-dimensional bounds")
        return
    if wrong:
        raises(lambda: IntervalEvidence(low=L, high=H), "low > high")
        return
    E = IntervalEvidence(low=L, high=H)
    require(tuple(E.shape) == lo.shape, "shape")
    require(np.array_equal(E.low.numpy(), lo, equal_nan=True) and np.array_equal(E.high.numpy(), hi, equal_nan=True), "bounds changed")
    F = E.to(torch.device("cpu"))
    require(np.array_equal(F.low.numpy(), lo, equal_nan=True) and np.array_equal(F.high.numpy(), hi, equal_nan=True), "to(device) changed the bounds")


PROP = Prop("C29", [
    Facet("algebra", algebra(), check_algebra, quick=6000, thorough=200000, rule="at least two operations"),
    Facet("invalid", bad_case(), check_bad, quick=1500, thorough=20000, rule="every case is an invalid scope"),
    Facet("intervals", iv_case(), check_iv, quick=1500, thorough=20000, rule="more than one entry"),
])
del Violation
