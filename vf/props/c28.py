"""C28: the expression language builds the circuit it denotes."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, Violation, close, raises, require

FAMS = ("cat", "real", "count", "pos")
WEIGHTS = [0.5, 1, 2, 0.3, 0.7, 3, 1e-6, 1e6, 0.1, 5]


@st.composite
def leaf(draw, vs, C):
    return {"t": "leaf", "vars": list(vs), "C": C, "pick": draw(st.integers(0, 50)), "seed": draw(st.integers(0, 10**6)),
            "share": draw(st.integers(0, 3)) == 0}


@st.composite
def expr(draw, vt, vs, C, depth):
    """An expression over exactly the variables vs (products over disjoint parts, mixtures over the same variables)."""
    same = all(vt[v] == vt[vs[0]] for v in vs)
    opts = []
    if same:
        opts += ["leaf"] * (2 if depth > 0 else 20)
    if len(vs) > 1:
        opts += ["prod"] * 3
    if C == 1 and depth > 0:
        opts += ["sum"] * 3
    t = draw(st.sampled_from(opts))
    if t == "leaf":
        return draw(leaf(vs, C))
    if t == "prod":
        order = list(draw(st.permutations(vs)))
        k = draw(st.integers(2, min(4, len(vs))))
        cuts = sorted(draw(st.lists(st.integers(1, len(vs) - 1), min_size=k - 1, max_size=k - 1, unique=True)))
        parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [len(vs)])]
        return {"t": "prod", "args": [draw(expr(vt, p, C, depth - 1)) for p in parts], "group": draw(st.sampled_from(["left", "right", "balanced"])),
                "wstyle": draw(st.integers(0, 3))}
    k = draw(st.integers(2, 5))
    multi = same and len(vs) > 1 and draw(st.integers(0, 3)) == 0
    args = []
    for _ in range(k):
        if multi:  # mixtures of multi-feature leaves mix feature by feature
            args.append(draw(leaf(vs, C)))
        else:
            a = draw(expr(vt, vs, C, depth - 1).filter(lambda e: e["t"] != "leaf" or len(e["vars"]) == 1))
            args.append(a)
    if not multi and any(shape(a) != 1 for a in args):
        args = [a if shape(a) == 1 else {"t": "prod", "args": [draw(leaf([v], C)) for v in vs], "group": "left", "wstyle": 0} for a in args]
    return {"t": "sum", "args": args, "w": [draw(st.sampled_from(WEIGHTS)) for _ in range(k)], "group": draw(st.sampled_from(["left", "right", "balanced"])),
            "wstyle": draw(st.integers(0, 3))}


def shape(e):
    """Number of features of an expression."""
    if e["t"] == "leaf":
        return len(e["vars"])
    if e["t"] == "prod":
        return 1
    return shape(e["args"][0])


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
    vt = draw(cc.vtypes(n, list(FAMS), None))
    C = draw(st.sampled_from([1, 1, 1, 2]))
    R = draw(st.sampled_from([1, 1, 2]))
    e = draw(expr(vt, list(range(n)), C, draw(st.integers(1, 4))))
    return {"n": n, "vt": vt, "R": R, "e": e, "ctx": draw(st.booleans()), "f64": True, "rows": draw(cc.rows(vt, max_rows=4))}


class Ctx:
    def __init__(self, c):
        self.c, self.leaves, self.n_sum, self.memo = c, {}, 0, {}

    def leaf(self, e):
        """(module, reference) of a leaf; 'share' leaves over the same variables are one module object."""
        c = self.c
        key = ("shared", tuple(e["vars"]), e["C"]) if e["share"] else id(e)
        if key not in self.leaves:
            fams = [f for f in cc.kinds_for(c["vt"][e["vars"][0]]) if f != "Hypergeometric" and (f != "Histogram" or len(e["vars"]) == 1)]
            fam = fams[e["pick"] % len(fams)]
            v = c["vt"][e["vars"][0]]
            K = v[1] if v[0] == "cat" else None
            p = cc.leaf_params(fam, len(e["vars"]), e["C"], c["R"], K, cc.Par(e["seed"], "mild"))
            self.leaves[key] = (cc.make_leaf(fam, e["vars"], e["C"], c["R"], p, K), cc.RLeaf(fam, e["vars"], e["C"], c["R"], p))
        return self.leaves[key]


def fold(items, how, op):
    items = list(items)
    if how == "left" or len(items) < 3:
        r = items[0]
        for x in items[1:]:
            r = op(r, x)
        return r
    if how == "right":
        r = items[-1]
        for x in items[-2::-1]:
            r = op(x, r)
        return r
    m = len(items) // 2
    return op(fold(items[:m], "left", op), fold(items[m:], "left", op))


def dslexpr(e, x, ctx, top=True):
    """The expression as a DSL object (or plain module inside the operator context)."""
    from spflow import dsl

    if e["t"] == "leaf":
        m = x.leaf(e)[0]
        return m if ctx else dsl.term(m)
    args = [dslexpr(a, x, ctx, False) for a in e["args"]]
    if e["t"] == "prod":
        return fold(args, e["group"], lambda a, b: a * b)
    ws = []
    for i, (wt, a) in enumerate(zip(e["w"], args)):
        s = (e["wstyle"] + i) % 4
        if s == 0:
            ws.append(wt * a)
        elif s == 1:
            ws.append(a * wt)
        elif s == 2:
            ws.append(dsl.w(wt, a))
        else:
            src = e["args"][i]
            # "w * A * B" multiplies from the left
            if src["t"] == "prod" and src["group"] == "left":
                parts = [dslexpr(q, x, ctx, False) for q in src["args"]]
                ws.append(fold([wt * parts[0]] + parts[1:], "left", lambda p, q: p * q))
            else:
                ws.append(float(wt) * a)
    return fold(ws, e["group"], lambda a, b: a + b)


def ref(e, x, X):
    """(B,F,C,R) log-likelihood of the expression."""
    if e["t"] == "leaf":
        return x.leaf(e)[1].ll(X, x.memo)
    A = [ref(a, x, X) for a in e["args"]]
    if e["t"] == "prod":
        return sum(a.sum(1, keepdims=True) for a in A)
    w = np.array(e["w"], float)
    w = w / w.sum()
    return cc.lse(np.stack([a + np.log(v) for a, v in zip(A, w)]), 0)


def depth(e):
    return 0 if e["t"] == "leaf" else 1 + max(depth(a) for a in e["args"])


def kinds(e):
    return {e["t"]} | set().union(*[kinds(a) for a in e.get("args", [])]) if e.get("args") else {e["t"]}


def check(c, rec):
    import torch
    from spflow import dsl
    from spflow.modules.module import Module

    cc.set_dtype(c)
    torch.manual_seed(0)
    x = Ctx(c)
    ks = kinds(c["e"])
    rec.tag(*ks, f"depth{depth(c['e'])}", "operators" if c["ctx"] else "term")
    rec.nt(len(ks) > 2)
    X = cc.to_np(c["rows"])
    before = {k: getattr(Module, k, None) for k in ("__mul__", "__rmul__", "__add__", "__radd__")}
    if c["ctx"]:
        with dsl.dsl():
            m = dsl.build(dslexpr(c["e"], x, True))
    else:
        m = dsl.build(dslexpr(c["e"], x, False))
    require(all(getattr(Module, k, None) is v for k, v in before.items()), "operators of Module were not restored")
    require(isinstance(m, Module), "build() did not return a module")
    want = ref(c["e"], x, X)
    with torch.no_grad():
        got = cc.to_np(m.log_likelihood(cc.to_torch(X)))
    require(got.shape == want.shape, f"log-likelihood shape {got.shape}, expected {want.shape}")
    close(got, want, "log-likelihood of the expression", rtol=1e-8, atol=1e-8)
    require(set(m.scope.query) == set(range(c["n"])), f"scope {m.scope}")
    rec.n(len(X))


# ------------------------------------------------------------------ ill-formed expressions

BAD = ["unweighted", "zero", "negative", "nan", "inf", "overlap", "scopes", "channels", "weighted-build", "prod-channels", "prod-reps", "sum-reps",
       "non-module", "weight-type", "sum-plus-term", "context"]


@st.composite
def bad_case(draw):
    n = draw(st.integers(2, 4))
    vt = draw(cc.vtypes(n, list(FAMS), None))
    a = list(range(n))
    e = draw(expr(vt, a, 1, 2))
    f = draw(expr(vt, a, 1, 2))
    cut = draw(st.integers(1, n - 1))
    g = draw(expr(vt, a[:cut], 1, 1))
    h = draw(expr(vt, a[cut:], 1, 1))
    return {"n": n, "vt": vt, "R": 1, "f64": True, "e": e, "f": f, "g": g, "h": h, "bad": draw(st.sampled_from(BAD)), "wt": draw(st.sampled_from(WEIGHTS)),
            "neg": draw(st.sampled_from([-1.0, -1e-9, -3]))}


def check_bad(c, rec):
    from spflow import dsl
    from spflow.modules.module import Module

    cc.set_dtype(c)
    x = Ctx(c)
    bad = c["bad"]
    rec.tag(bad)
    rec.nt()
    E, Fx, G, H = (dslexpr(c[k], x, False) for k in "efgh")
    wt = c["wt"]

    def other(C, R):
        """A leaf product over all variables with C channels and R repetitions."""
        y = Ctx({**c, "R": R})
        fs = [dsl.term(y.leaf({"t": "leaf", "vars": [v], "C": C, "pick": 0, "seed": v, "share": False})[0]) for v in range(c["n"])]
        return fold(fs, "left", lambda a, b: a * b), fs

    prog = {
        "unweighted": lambda: E + Fx if c["e"]["t"] != "sum" else G + H if c["g"]["t"] != "sum" else dsl.term(dsl.build(G)) + dsl.term(dsl.build(H)),
        "zero": lambda: (0.0 * E + wt * Fx).build(),
        "negative": lambda: (wt * E + dsl.w(c["neg"], Fx)).build(),
        "nan": lambda: (float("nan") * E + wt * Fx).build(),
        "inf": lambda: (wt * E + float("inf") * Fx).build(),
        "overlap": lambda: (E * G).build(),
        "scopes": lambda: (wt * E + 0.5 * H).build(),
        "channels": lambda: (wt * other(2, 1)[0] + 0.5 * other(2, 1)[0]).build(),
        "weighted-build": lambda: dsl.build(wt * E),
        "prod-channels": lambda: (other(1, 1)[1][0] * other(2, 1)[1][1]).build(),
        "prod-reps": lambda: (other(1, 1)[1][0] * other(1, 2)[1][1]).build(),
        "sum-reps": lambda: (wt * other(1, 1)[0] + 0.5 * other(1, 2)[0]).build(),
        "non-module": lambda: dsl.as_expr([1, 2]).build(),
        "weight-type": lambda: "0.5" * E,
        "sum-plus-term": lambda: (wt * E + 0.5 * Fx) + dsl.term(dsl.build(G)),
    }
    if bad == "context":  # an exception inside the context restores the operators
        before = {k: getattr(Module, k, None) for k in ("__mul__", "__rmul__", "__add__", "__radd__")}
        inner = dsl.build(G)
        try:
            with dsl.dsl():
                with dsl.dsl():
                    _ = wt * inner
                _ = wt * inner  # still inside the outer context
                inner + inner
        except Exception as ex:
            require(type(ex).__module__.startswith("spflow"), f"unexpected {type(ex).__name__}: {ex}")
        else:
            raise Violation("unweighted '+' accepted inside the operator context")
        require(all(getattr(Module, k, None) is v for k, v in before.items()), "operators of Module were not restored after an exception")
        return
    raises(prog[bad], f"ill-formed expression ({bad})")


PROP = Prop("C28", [
    Facet("build", case(), check, quick=900, thorough=20000, rule="expression mixes sums, products and leaves"),
    Facet("ill-formed", bad_case(), check_bad, quick=300, thorough=6000, rule="every case is an ill-formed expression or program"),
])
