"""C35: invalid circuits and parameters are rejected, everything accepted is a valid circuit."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require

CARD = 2
OPS = ("sum", "sum", "sum1", "product", "product", "product1", "elemsum", "elemsum", "elemprod", "elemprod", "outer", "outer", "elemsplit", "outersplit", "einsum", "einsum", "einsum1", "linsum", "linsum",
       "linsum1", "cat1", "cat2", "repmix", "byindex")


class Node:
    """What an operand is: scope of every feature (own bookkeeping), channels, repetitions."""

    def __init__(self, m, P, C, R):
        self.m, self.P, self.C, self.R = m, P, C, R

    @property
    def S(self):
        return frozenset().union(*self.P)


@st.composite
def program(draw):
    n = draw(st.integers(2, 4))
    leaves = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.integers(1, min(n, 3)))
        vs = draw(st.permutations(range(n)))[:k]
        leaves.append([sorted(vs) if draw(st.integers(0, 2)) else list(vs), draw(st.sampled_from([1, 2, 2, 3])), draw(st.sampled_from([1, 1, 1, 2, 3]))])
    # make near-misses likely: clones of a leaf with one attribute changed
    for _ in range(draw(st.integers(0, 3))):
        l = [list(leaves[draw(st.integers(0, len(leaves) - 1))][0]), *leaves[draw(st.integers(0, len(leaves) - 1))][1:]]
        how = draw(st.integers(0, 5))
        if how == 0:
            l[1] = draw(st.integers(1, 3))
        elif how == 1:
            l[2] = draw(st.integers(1, 3))
        elif how == 2:
            l[0] = draw(st.permutations(l[0]))
        elif how == 3:
            l[0] = sorted(set(range(n)) - set(l[0])) or l[0]
        leaves.append([list(l[0]), l[1], l[2]])
    ops = []
    for i in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(OPS))
        ops.append([op, [draw(st.integers(0, 99)) for _ in range(draw(st.sampled_from([2, 2, 2, 3])))], draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 2, 3])), draw(st.integers(0, 1)), draw(st.integers(0, 1))])
    return {"n": n, "leaves": leaves, "ops": ops, "seed": draw(st.integers(0, 2**31 - 1))}


def pick(pool, op, idx, near):
    """Operand choice; with `near`, prefer operands for which the construction is nearly valid."""
    k = {"sum1": 1, "product1": 1, "elemsplit": 1, "outersplit": 1, "einsum1": 1, "linsum1": 1, "repmix": 1, "byindex": 1, "einsum": 2, "linsum": 2}.get(op, len(idx))
    out = [pool[idx[0] % len(pool)]]
    for i in idx[1:k]:
        cand = list(pool)
        if near:
            a = out[0]
            if op in ("sum", "elemsum", "cat2"):
                cand = [p for p in pool if p.S == a.S] or cand
            else:
                cand = [p for p in pool if not any(p.S & q.S for q in out)] or cand
        out.append(cand[i % len(cand)])
    return out


def verdict(op, xs, O, R):
    """('bad', why) / ('good', P, C, R) / ('free',)."""
    a = xs[0]
    S = [x.S for x in xs]
    if op in ("sum", "elemsum", "cat2"):
        if any(s != S[0] for s in S):
            return "bad", "mixture over different variables"
        if any(len(x.P) != len(a.P) for x in xs):
            return "bad", "mixture over different numbers of features"
        if any(x.P != a.P for x in xs):
            return ("bad", "mixture over different feature scopes") if op == "elemsum" else ("known", "mixture over different feature scopes")
        if len({x.R for x in xs} - {1}) > 1:
            return "bad", "different repetition counts"
        if op == "elemsum" and len({x.C for x in xs} - {1}) > 1:
            return "bad", "different channel counts"
        if len({x.R for x in xs}) > 1:
            return "bad", "different repetition counts"
        if op == "cat2":
            return "good", a.P, sum(x.C for x in xs), a.R
        if a.R != R and a.R != 1:
            return ("skip",) if op == "sum" and R == 1 else ("bad", "different repetition counts")  # one mixture shared by all repetitions
        if op == "sum":
            return "good", a.P, O, R
        if R != a.R:
            return ("free",)
        return "good", a.P, O * max(x.C for x in xs), R
    if op in ("product", "cat1", "elemprod", "outer", "einsum", "linsum"):
        for x, y in itertools.combinations(xs, 2):
            if x.S & y.S:
                return "bad", "product of overlapping scopes"
        if len({x.R for x in xs} - {1}) > 1:
            return "bad", "different repetition counts"
        if op in ("elemprod", "outer", "einsum", "linsum") and len({len(x.P) for x in xs} - {1}) > 1:
            return "bad", "different feature counts"
        if op != "outer" and op != "einsum" and len({x.C for x in xs} - {1}) > 1:
            return "bad", "different channel counts"
        if op in ("product", "cat1", "linsum") and len({x.C for x in xs}) > 1:
            return "bad", "different channel counts"
        if op in ("einsum", "linsum") and len({len(x.P) for x in xs}) > 1:
            return "bad", "different feature counts"
        if op in ("elemprod", "outer") and len({len(x.P) for x in xs}) > 1:
            return ("skip",)  # broadcasting one feature over several is allowed by design
        if len({x.R for x in xs}) > 1:
            return "bad", "different repetition counts"
        if op == "product":
            return "good", [a.S.union(*S)], a.C, a.R
        if op == "cat1":
            return "good", [p for x in xs for p in x.P], a.C, a.R
        P = [frozenset().union(*(x.P[f] for x in xs)) for f in range(len(a.P))]
        if op == "elemprod":
            return "good", P, max(x.C for x in xs), a.R
        if op == "outer":
            return "good", P, int(np.prod([x.C for x in xs])), a.R
        if R not in (1, a.R):
            return ("bad", "different repetition counts") if a.R > 1 else ("free",)
        return "good", P, O, a.R
    if op == "sum1":
        if a.R != R and a.R != 1:
            return ("skip",) if R == 1 else ("bad", "different repetition counts")
        return "good", a.P, O, R
    if op == "repmix":
        if a.R not in (1, R):
            return "bad", "different repetition counts"
        return ("skip",)  # declared and actual repetitions differ by design (see C10); other properties cover it
    if op == "product1":
        return "good", [a.S], a.C, a.R
    if op in ("einsum1", "linsum1") and len(a.P) % 2:
        return "bad", "odd number of features cannot be paired"
    if op in ("elemsplit", "outersplit"):
        if len(a.P) == 1:
            return ("skip",)  # constructing it is allowed by design, evaluating it is not
        if len(a.P) % (O + 1):
            return "bad", "features cannot be split evenly"
    return ("free",)


def construct(op, xs, O, R, c):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops import Cat, SplitConsecutive, SplitInterleaved
    from spflow.modules.ops.split_by_index import SplitByIndex
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.sums import ElementwiseSum, Sum
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer

    ms = [x.m for x in xs]
    if op in ("sum", "sum1"):
        return Sum(inputs=ms if op == "sum" else ms[0], out_channels=O, num_repetitions=R)
    if op in ("product", "product1"):
        return Product(inputs=ms if op == "product" else ms[0])
    if op == "elemsum":
        return ElementwiseSum(inputs=ms, out_channels=O, num_repetitions=R)
    if op == "elemprod":
        return ElementwiseProduct(inputs=ms)
    if op == "outer":
        return OuterProduct(inputs=ms)
    if op in ("elemsplit", "outersplit"):
        s = (SplitConsecutive, SplitInterleaved)[c](ms[0], num_splits=O + 1)
        return (ElementwiseProduct if op == "elemsplit" else OuterProduct)(inputs=s)
    if op in ("einsum", "linsum", "einsum1", "linsum1"):
        cls = EinsumLayer if op.startswith("ein") else LinsumLayer
        return cls(inputs=ms if not op.endswith("1") else ms[0], out_channels=O, **({} if R == 1 else {"num_repetitions": R}))
    if op == "cat1" or op == "cat2":
        return Cat(inputs=ms, dim=int(op[-1]))
    if op == "repmix":
        return RepetitionMixingLayer(inputs=ms[0], out_channels=O, num_repetitions=R)
    if op == "byindex":
        F = len(xs[0].P)
        rng = np.random.default_rng(O * 7 + R * 31 + c)
        idx = list(rng.permutation(F))
        cut = int(rng.integers(0, F + 1))
        idx = [[int(i) for i in idx[:cut]], [int(i) for i in idx[cut:]]]
        if c and R == 2:
            idx[0] = idx[0] + idx[1][:1]  # not a partition
        return EinsumLayer(inputs=SplitByIndex(ms[0], indices=idx), out_channels=O)
    raise AssertionError(op)


def semantic(m, n, what, shape_=True):
    """Declared shape, normalization over the scope, marginal consistency, indifference to other variables."""
    import torch

    sc = sorted(m.scope.query)
    S = np.array(list(itertools.product(range(CARD), repeat=len(sc))), float)
    X = np.full((len(S), n), np.nan)
    X[:, sc] = S
    try:
        with torch.no_grad():
            ll = m.log_likelihood(torch.as_tensor(X)).numpy()
    except Exception as e:
        return f"{what} was accepted but cannot be evaluated: {type(e).__name__}: {e}"
    shape = (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions)
    if shape_ and ll.shape[1:] != shape:
        return f"{what} was accepted; declared shape {shape}, log-likelihood has {ll.shape[1:]}"
    j = ll.sum(1)
    z = cc.lse(j, 0)
    if not np.allclose(z, 0, atol=1e-6):
        return f"{what} was accepted but is not normalized (log of the total mass {np.round(z.reshape(-1)[:4], 4).tolist()})"
    for v in sc[:3]:
        Y = X.copy()
        Y[:, v] = np.nan
        with torch.no_grad():
            lm = m.log_likelihood(torch.as_tensor(Y)).numpy().sum(1)
        k = sc.index(v)
        o = [i for i in range(len(sc)) if i != k]
        want = np.stack([cc.lse(j[(S[:, o] == s[o]).all(1)], 0) for s in S])
        if not np.allclose(lm, want, atol=1e-6):
            return f"{what} was accepted but leaving out variable {v} does not marginalize it"
    return None


def check_structure(c, rec):
    import torch
    from spflow.modules.leaves import Categorical

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"] % 2**31)
    pool = [Node(Categorical(scope=vs, out_channels=C, num_repetitions=R, K=CARD), [frozenset([v]) for v in vs], C, R) for vs, C, R in c["leaves"]]
    saw = set()
    for op, idx, O, R, near, cc_ in c["ops"]:
        xs = pick(pool, op, idx, near)
        if op in ("sum", "sum1", "elemsum") and near and len({x.R for x in xs}) == 1 and R not in (xs[0].R,):
            R = xs[0].R
        v = verdict(op, xs, O, R)
        if v[0] == "known" and not c.get("strict"):  # recorded finding
            continue
        if v[0] == "known":
            v = ("bad", v[1])
        desc = f"{op} of " + ", ".join(f"[{' '.join(str(sorted(p)) for p in x.P)} C{x.C} R{x.R}]" for x in xs) + f" out {O} reps {R}"
        try:
            m = construct(op, xs, O, R, cc_)
        except Exception as e:
            require(v[0] != "good", f"{desc} is a valid circuit but was rejected: {type(e).__name__}: {e}")
            saw.add(v[0] + "-rejected")
            if v[0] == "bad":
                rec.tag("rejected:" + v[1])
            continue
        require(v[0] != "bad", f"{desc} was accepted: {v[1] if v[0] == 'bad' else ''}")
        if v[0] == "skip":
            continue
        w = semantic(m, c["n"], desc)
        require(w is None, w or "")
        saw.add(v[0] + "-accepted")
        if v[0] == "good":
            sh = (len(v[1]), v[2], v[3])
            got = (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions)
            require(got == sh, f"{desc}: declared shape {got}, expected {sh}")
            if op not in ("outer", "einsum1", "linsum1"):  # recorded findings of C10
                for (f, r), sc in np.ndenumerate(m.feature_to_scope):
                    require(f < len(v[1]) and frozenset(sc.query) == v[1][f], f"{desc}: declared scope {sorted(sc.query)} of feature {f}, expected {[sorted(q) for q in v[1]]}")
                require(m.feature_to_scope.shape == (len(v[1]), v[3]), f"{desc}: feature scopes of shape {m.feature_to_scope.shape}")
            pool.append(Node(m, v[1], v[2], v[3]))
            rec.tag("op:" + op)
        else:
            rec.tag("free:" + op)
    rec.tag(*saw)
    rec.nt("bad-rejected" in saw)


# ---------------------------------------------------------------------------------------------------------------------
# leaf parameters

NAN, INF = float("nan"), float("inf")
FAM = {
    # name: {parameter: (valid values, invalid values, invalid in the constructor only)}
    "Normal": {"loc": ([-1.5, 0.0, 2.0], [NAN, INF, -INF], []), "scale": ([0.25, 1.5], [NAN, 0.0, -1.0, -1e-9], [INF])},
    "Laplace": {"loc": ([-1.5, 0.0, 2.0], [NAN, INF, -INF], []), "scale": ([0.25, 1.5], [NAN, 0.0, -1.0, -1e-9], [INF])},
    "LogNormal": {"loc": ([-1.5, 0.0, 2.0], [NAN, INF, -INF], []), "scale": ([0.25, 1.5], [NAN, 0.0, -1.0, -1e-9], [INF])},
    "Gamma": {"concentration": ([0.25, 1.5], [NAN, 0.0, -1.0], [INF]), "rate": ([0.25, 1.5], [NAN, 0.0, -1.0], [INF])},
    "Exponential": {"rate": ([0.25, 1.5], [NAN, 0.0, -1.0], [INF])},
    "Poisson": {"rate": ([0.0, 0.25, 1.5], [NAN, -1.0], [INF])},
    "Bernoulli": {"probs": ([0.0, 0.25, 1.0], [NAN, -0.125, 1.125, INF], [])},
    "Geometric": {"probs": ([0.25, 0.75], [NAN, -0.125, 1.125, INF], [])},
    "NegativeBinomial": {"total_count": ([1.0, 2.5], [NAN, -1.0], []), "probs": ([0.25, 0.75], [NAN, -0.125, 1.125, INF], [])},
    "Binomial": {"total_count": ([1.0, 4.0], [NAN, -1.0, 2.5], [INF]), "probs": ([0.0, 0.25, 1.0], [NAN, -0.125, 1.125, INF], [])},
    "Uniform": {"low": ([-1.0, -0.5], [NAN, 1.0, 3.0], [INF, -INF]), "high": ([1.0], [NAN, -1.0, -2.0], [INF])},
    "Hypergeometric": {"K": ([3.0], [NAN, -1.0, 7.0, 2.5], []), "N": ([6.0], [NAN, -1.0, 2.0, 6.5], []), "n": ([2.0], [NAN, -1.0, 7.0, 1.5], [])},
    "Categorical": {"probs": (None, [NAN, -0.125, INF], [])},
    "Histogram": {"probs": (None, [NAN, -0.125, INF], [])},
}
FIXED = {"Uniform", "Hypergeometric"}  # parameters are constants given to the constructor
SUP = {"LogNormal": 0.5, "Gamma": 0.5, "Exponential": 0.5, "Categorical": 1.0, "Histogram": 0.5}


@st.composite
def leaf_case(draw):
    kind = draw(st.sampled_from(sorted(FAM)))
    sh = [1 if kind == "Histogram" else draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 2))]
    par = draw(st.sampled_from(sorted(FAM[kind])))
    how = draw(st.sampled_from(["ctor", "set"])) if kind not in FIXED and par != "loc" else "ctor"
    good, bad, badc = FAM[kind][par]
    mode = draw(st.sampled_from(["good", "bad", "bad", "shape"]))
    c = {"kind": kind, "shape": sh, "par": par, "how": how, "mode": mode, "seed": draw(st.integers(0, 2**31 - 1))}
    if mode == "bad":
        c["value"] = draw(st.sampled_from(bad + (badc if how == "ctor" else [])))
        c["value"] = {"v": repr(c["value"])}
        c["at"] = draw(st.integers(0, 10**6))
        c["rep"] = draw(st.booleans())
    if mode == "shape":
        c["other"] = draw(st.lists(st.integers(1, 3), min_size=0, max_size=4))
    return c


def valid_params(c, rng):
    out = {}
    for p, (good, _, _) in FAM[c["kind"]].items():
        if good is None:
            x = rng.integers(1, 9, tuple(c["shape"]) + (3,)) / 8.0
            out[p] = x / x.sum(-1, keepdims=True)
        elif c["kind"] in ("Uniform", "Hypergeometric", "Binomial") and p != "probs":
            out[p] = np.full(c["shape"], rng.choice(good))
        else:
            out[p] = rng.choice(good, size=c["shape"])
    return out


def check_leaf(c, rec):
    import torch
    from spflow.modules import leaves

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"])
    rng = np.random.default_rng(c["seed"])
    kind, sh, par = c["kind"], tuple(c["shape"]), c["par"]
    cls = getattr(leaves, kind)
    n = sh[0]
    P = valid_params(c, rng)
    T = torch.as_tensor

    def make(**over):
        kw = {p: T(v) for p, v in P.items()}
        kw.update(over)
        if kind == "Histogram":
            from spflow.meta.data import Scope
            return cls(scope=Scope([0]), bin_edges=torch.tensor([0.0, 1.0, 2.0, 4.0]), **kw)
        return cls(scope=list(range(n)), **kw)

    X = torch.full((2, n), SUP.get(kind, 0.0), dtype=torch.float64)

    def run(t):
        if c["how"] == "ctor":
            m = make(**{par: t})
        else:
            m = make()
            setattr(m, par, t)
        with torch.no_grad():
            return m, m.log_likelihood(X)

    if c["mode"] == "good":
        try:
            m, ll = run(T(P[par]))
        except Exception as e:
            require(False, f"{kind}: valid {par} {P[par].reshape(-1)[:6].tolist()} rejected ({c['how']}): {type(e).__name__}: {e}")
        require(tuple(ll.shape[1:]) == sh == tuple(m.out_shape), f"{kind}: parameters {sh}, log-likelihood {tuple(ll.shape)}, declared {tuple(m.out_shape)}")
        require(not torch.isnan(ll).any(), f"{kind}: valid {par} gives NaN")
        close(getattr(m, par).detach().numpy(), P[par], f"{kind}.{par} after it was given by {c['how']}", rtol=1e-5, atol=1e-6)
        rec.tag("valid:" + kind)
        return
    if c["mode"] == "bad":
        t = np.array(P[par])
        if c["kind"] == "Uniform" and c["rep"]:
            t[...] = float(c["value"]["v"])
        else:
            t.reshape(-1)[c["at"] % t.size] = float(c["value"]["v"])
        try:
            m, ll = run(T(t))
        except Exception:
            rec.nt(True)
            rec.tag(f"rejected:{kind}.{par}={c['value']['v']}")
            return
        require(False, f"{kind}: {par} with a value {c['value']['v']} was accepted ({c['how']}) and evaluated to {ll.reshape(-1)[:6].tolist()}")
    # a parameter of another shape: rejected, or the declared shape is the computed one
    other = tuple(c["other"]) + ((3,) if FAM[kind][par][0] is None else ())
    if FAM[kind][par][0] is None:
        t = np.full(other, 1 / 3)
    else:
        t = np.full(other, P[par].reshape(-1)[0])
    try:
        m, ll = run(T(t))
    except Exception:
        rec.nt(True)
        rec.tag("shape-rejected")
        return
    require(tuple(ll.shape) == (2, *m.out_shape), f"{kind}: {par} of shape {other} was accepted ({c['how']}; other parameters {sh}): declared shape {tuple(m.out_shape)}, log-likelihood {tuple(ll.shape)}")
    require(m.out_shape.features == n, f"{kind}: {par} of shape {other} was accepted ({c['how']}): {m.out_shape.features} features for {n} variables")
    rec.tag("shape-accepted")


# ---------------------------------------------------------------------------------------------------------------------
# weights

LAYERS = ["Sum", "Sum", "SumMany", "ElementwiseSum", "EinsumLayer", "LinsumLayer", "RepetitionMixingLayer", "SumConv"]


@st.composite
def weight_case(draw):
    return {"layer": draw(st.sampled_from(LAYERS)), "C": draw(st.integers(1, 3)), "O": draw(st.integers(1, 3)), "R": draw(st.integers(1, 3)), "k": draw(st.integers(2, 3)), "half": draw(st.integers(1, 2)),
            "how": draw(st.sampled_from(["ctor", "set", "log"])), "what": draw(st.sampled_from(["good", "zero", "neg", "nan", "inf", "unnorm", "shape", "one"])), "at": draw(st.integers(0, 10**6)),
            "renorm": draw(st.booleans()), "factor": draw(st.sampled_from([0.5, 0.9, 1.1, 1.01, 2.0])), "axis": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 2**31 - 1))}


def layer_of(c):
    """(constructor taking optional weights, sum axes of the weight tensor)."""
    from spflow.modules.conv import SumConv
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.leaves import Categorical
    from spflow.modules.sums import ElementwiseSum, Sum
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer

    C, O, R, h = c["C"], c["O"], c["R"], c["half"]

    def leaf(vs, ch=None, reps=None):
        return Categorical(scope=vs, out_channels=ch or C, num_repetitions=reps or R, K=CARD)

    def kw(w, **k):
        return {"weights": w} if w is not None else k

    vs, ws = list(range(h)), list(range(h, 2 * h))
    L = c["layer"]
    if L == "Sum":
        return (lambda w=None: Sum(leaf(vs), **kw(w, out_channels=O, num_repetitions=R))), (1,)
    if L == "SumMany":
        return (lambda w=None: Sum([leaf(vs, ch) for ch in range(1, c["k"] + 1)], **kw(w, out_channels=O, num_repetitions=R))), (1,)
    if L == "ElementwiseSum":
        return (lambda w=None: ElementwiseSum([leaf(vs) for _ in range(c["k"])], **kw(w, out_channels=O, num_repetitions=R))), (3,)
    if L == "EinsumLayer":
        return (lambda w=None: EinsumLayer([leaf(vs), leaf(ws, O)], out_channels=c["k"], **({"weights": w} if w is not None else {}))), (-2, -1)
    if L == "LinsumLayer":
        return (lambda w=None: LinsumLayer([leaf(vs), leaf(ws)], out_channels=O, **({"weights": w} if w is not None else {}))), (-1,)
    if L == "RepetitionMixingLayer":
        return (lambda w=None: RepetitionMixingLayer(leaf(vs), **kw(w, out_channels=C, num_repetitions=R))), (-1,)
    return (lambda w=None: SumConv(leaf(list(range(4))), out_channels=O, kernel_size=c["half"], num_repetitions=R)), (1,)


def check_weights(c, rec):
    import torch

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"])
    rng = np.random.default_rng(c["seed"])
    make, ax = layer_of(c)
    how = "set" if c["how"] == "ctor" and c["layer"] == "SumConv" else c["how"]
    if how == "log" and c["layer"] == "SumConv":
        how = "set"
    m = make()
    shape = tuple(m.weights.shape)
    W = rng.integers(1, 9, shape) / 8.0
    W = W / W.sum(ax, keepdims=True)
    what, bad, Z = c["what"], True, None
    mixed = int(np.prod([shape[a] for a in ax]))
    V = W.copy()
    i = c["at"] % V.size
    if what in ("zero", "neg", "nan", "inf"):
        V.reshape(-1)[i] = {"zero": 0.0, "neg": -0.125, "nan": NAN, "inf": INF}[what]
        if c["renorm"] and mixed > 1 and what in ("zero", "neg"):
            s = V.sum(ax, keepdims=True)
            if (np.abs(s) > 1e-3).all():
                V = V / s
    elif what == "unnorm":
        f = np.ones(V.sum(ax, keepdims=True).shape)
        f.reshape(-1)[c["at"] % f.size] = c["factor"]  # a single distribution is off
        V = V * f
    elif what == "one":  # one-hot distributions have zeros, except when nothing is mixed
        V = np.zeros_like(W)
        V[tuple(0 if a in [x % V.ndim for x in ax] else slice(None) for a in range(V.ndim))] = 1.0
        bad = mixed > 1
    elif what == "shape":
        a = c["axis"] % V.ndim
        V = np.concatenate([V, V], axis=a)
        V = V / V.sum(ax, keepdims=True)
    else:
        bad = False
    before = m.weights.detach().numpy().copy()
    D = len(m.scope.query)
    if how == "log":
        with np.errstate(all="ignore"):
            LV = np.log(V) if what != "neg" else np.where(V < 0, NAN, np.log(np.abs(V)))
            if what == "inf":
                LV = np.where(np.isinf(V), INF, LV)
        if what in ("zero", "one", "unnorm"):
            bad = False  # log weights are logits: they are normalized, and minus infinity is a zero weight
            if mixed == 1 and what == "zero":
                return
        V = LV

    def apply():
        if how == "ctor":
            return make(torch.as_tensor(V))
        setattr(m, "weights" if how == "set" else "log_weights", torch.as_tensor(V))
        return m

    desc = f"{c['layer']}: {what} weights ({how}) of shape {V.shape}, expected {shape}"
    try:
        x = apply()
    except Exception as e:
        require(bad, f"{desc} rejected although valid: {type(e).__name__}: {e}")
        rec.nt(True)
        rec.tag(f"rejected:{c['layer']}:{what}:{how}")
        if how != "ctor":
            close(m.weights.detach().numpy(), before, f"{desc}: weights after the rejected assignment", rtol=0, atol=0)
            w = semantic(m, D, desc + " (after rejection)") if c["layer"] != "RepetitionMixingLayer" else None
            require(w is None, w or "")
        return
    if what == "shape" and how == "ctor":
        bad = False  # the constructor takes output channels and repetitions from the weights
    require(not bad, f"{desc} accepted: {x.weights.detach().numpy().reshape(-1)[:6].tolist()}")
    got = x.weights.detach().numpy()
    if what != "shape":
        want = np.exp(V) / np.exp(V).sum(ax, keepdims=True) if how == "log" else V
        close(got, want, f"{desc}: weights", rtol=1e-6, atol=1e-9)
    if c["layer"] == "RepetitionMixingLayer":
        close(got.sum(ax), np.ones(got.sum(ax).shape), f"{desc}: sum of the weights", rtol=1e-6)
        return
    w = semantic(x, D, desc)
    require(w is None, w or "")
    rec.tag("accepted:" + c["layer"] + ":" + what + ":" + how)


# ---------------------------------------------------------------------------------------------------------------------
# Chow-Liu tree structures and model configurations


@st.composite
def tree_case(draw):
    n = draw(st.integers(2, 6))
    if draw(st.booleans()):  # a tree with a few edges changed
        order = draw(st.permutations(range(n)))
        par = [-1] * n
        for i in range(1, n):
            par[order[i]] = order[draw(st.integers(0, i - 1))]
        for _ in range(draw(st.integers(0, 2))):
            par[draw(st.integers(0, n - 1))] = draw(st.integers(-1, n - 1))
    else:
        par = [draw(st.integers(-2, n)) for _ in range(n)]
        if draw(st.booleans()):
            par[draw(st.integers(0, n - 1))] = -1
    return {"parents": par, "C": draw(st.integers(1, 2)), "R": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 2**31 - 1))}


def check_tree(c, rec):
    import torch
    from spflow.modules.leaves import CLTree

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"])
    par, n = c["parents"], len(c["parents"])
    ok = par.count(-1) == 1 and all(-1 <= p < n for p in par)
    if ok:
        for i in range(n):
            seen = set()
            while i != -1 and i not in seen:
                seen.add(i)
                i = par[i]
            ok = ok and i == -1
    S = np.array(list(itertools.product(range(CARD), repeat=n)), float)
    rng = np.random.default_rng(c["seed"])
    t = rng.integers(1, 8, (n, c["C"], c["R"], CARD, CARD)).astype(float)
    t = t / t.sum(-2, keepdims=True)
    try:
        m = CLTree(list(range(n)), out_channels=c["C"], num_repetitions=c["R"], K=CARD, parents=torch.as_tensor(par), log_cpt=torch.as_tensor(np.log(t)))
        with torch.no_grad():
            ll = m.log_likelihood(torch.as_tensor(S)).numpy().sum(1)
    except Exception as e:
        require(not ok, f"tree {par} rejected: {type(e).__name__}: {e}")
        rec.nt(True)
        return
    require(ok, f"parents {par} are not a tree, but were accepted")
    close(cc.lse(ll, 0), np.zeros(ll.shape[1:]), f"log of the total mass of the tree {par}", rtol=0, atol=1e-6)
    rec.tag("tree")


@st.composite
def model_case(draw):
    kind = draw(st.sampled_from(["rat", "einet", "conv", "fac"]))
    n = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6, 8]))
    if kind == "conv":
        n = draw(st.sampled_from([1, 2, 4, 4, 6, 8, 9]))
    a = {k: draw(st.sampled_from([1, 1, 2, 2, 2, 3, 4])) for k in ("O", "S", "R", "leafR", "C", "depth", "k", "splits")}
    if draw(st.integers(0, 3)) == 0:
        a[draw(st.sampled_from(sorted(a)))] = 0
    if draw(st.integers(0, 2)):
        a["leafR"] = a["R"]
    a["leafC"] = draw(st.integers(1, 3))
    cut = draw(st.integers(0, n))
    return {"kind": kind, "n": n, **a, "cut": cut, "dup": draw(st.integers(0, 9)) == 0, "flag": draw(st.booleans()), "mode": draw(st.sampled_from(["none", "consecutive", "interleaved"])),
            "layer": draw(st.sampled_from(["linsum", "einsum", "linsum", "einsum", "other"])), "structure": draw(st.sampled_from(["top-down", "bottom-up", "top-down", "bottom-up", "other"])),
            "h": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 2**31 - 1))}


def check_model(c, rec):
    import torch
    from spflow.modules.leaves import Categorical
    from spflow.modules.ops.split import SplitMode
    from spflow.modules.products.product import Product
    from spflow.modules.rat import Factorize
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.einet import Einet
    from spflow.zoo.rat import RatSPN

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(c["seed"] % 2**31)
    n = c["n"]
    cut = 0 if c["kind"] == "conv" else c["cut"]
    groups = [g for g in (list(range(cut)), list(range(cut - 1 if c["dup"] and 0 < cut else cut, n))) if g]
    overlap = sum(map(len, groups)) > n
    lv = [Categorical(scope=g, out_channels=c["leafC"], num_repetitions=max(c["leafR"], 1), K=CARD) for g in groups]
    mode = {"none": None, "consecutive": SplitMode.consecutive(max(c["splits"], 2)), "interleaved": SplitMode.interleaved(max(c["splits"], 2))}[c["mode"]]
    desc = f"{c['kind']} model {({k: v for k, v in c.items() if k not in ('kind', 'seed')})}"
    try:
        if c["kind"] == "rat":
            m = RatSPN(lv, n_root_nodes=c["O"], n_region_nodes=c["S"], num_repetitions=c["R"], depth=c["depth"], outer_product=c["flag"], split_mode=mode, num_splits=c["splits"])
        elif c["kind"] == "einet":
            m = Einet(lv, num_classes=c["O"], num_sums=c["S"], num_leaves=c["C"], depth=c["depth"], num_repetitions=c["R"], layer_type=c["layer"], structure=c["structure"])
        elif c["kind"] == "conv":
            m = ConvPc(lv[0], input_height=c["h"], input_width=n // c["h"], channels=c["C"], depth=c["depth"], kernel_size=c["k"], num_repetitions=c["R"], use_sum_conv=c["flag"])
        else:
            m = Product(Factorize(lv, depth=c["depth"], num_repetitions=c["R"]))
    except Exception as e:
        rec.nt(True)
        rec.tag(f"{c['kind']}:{type(e).__name__}")
        return
    require(not overlap, f"{desc} accepted although two leaves share a variable")
    w = semantic(m, n, desc, shape_=False)
    if w is not None and "cannot be evaluated" in w:  # rejected at the first evaluation
        rec.nt(True)
        rec.tag(c["kind"] + ":rejected when evaluated")
        return
    require(w is None, w or "")
    rec.tag(c["kind"] + ":accepted")


PROP = Prop("C35", [
    Facet("structure", program(), check_structure, quick=4000, thorough=40000, known=lambda c: "nonsmooth-features" if c.get("strict") else None, rule="at least one invalid construction was attempted and rejected"),
    Facet("leaves", leaf_case(), check_leaf, quick=4000, thorough=20000, rule="a parameter outside its domain or of another shape was rejected"),
    Facet("weights", weight_case(), check_weights, quick=4000, thorough=20000, rule="invalid weights were rejected"),
    Facet("trees", tree_case(), check_tree, quick=1500, thorough=10000, rule="parents that do not form a tree were rejected"),
    Facet("models", model_case(), check_model, quick=2500, thorough=20000, rule="an invalid configuration was rejected"),
])
