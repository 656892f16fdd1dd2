"""C23: integral circuits quantize to the quadrature of their definition."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, raises, require
from vf.gof import gof

# ---------------------------------------------------------------------------------------------------------------------
# quadrature rules, input units and integrand functions; every number is exactly representable in single precision


@st.composite
def rule_spec(draw, maxK=3, lo=1, zero=True):
    K = draw(st.integers(lo, maxK))
    pts = draw(st.lists(st.integers(-8, 8), min_size=K, max_size=K, unique=True))
    w = draw(st.lists(st.integers(0 if zero and K > 1 and draw(st.integers(0, 5)) == 0 else 1, 16), min_size=K, max_size=K))
    if sum(w) == 0:
        w[0] = 4
    return {"points": [p / 8 for p in pts], "weights": [x / 16 for x in w]}


def torch_rule(c):
    import torch
    from spflow.zoo.pic import QuadratureRule

    return QuadratureRule(points=torch.tensor(c["rule"]["points"]), weights=torch.tensor(c["rule"]["weights"]))


def grid(c, n):
    p = np.array(c["rule"]["points"])
    g = np.array(list(itertools.product(p, repeat=n))).reshape(len(p) ** n, n)
    w = np.array([np.prod(t) for t in itertools.product(c["rule"]["weights"], repeat=n)])
    return g, w


def leaf_table(c, v, z, seed):
    """Probabilities (len(points)**len(z), states) of variable v."""
    r = np.random.default_rng([seed, v])
    g, _ = grid(c, len(z))
    K = c["states"][v]
    lg = 2 * np.sin(r.normal(0, 2, K) + g @ r.normal(0, 3, (len(z), K)))
    e = np.exp(lg)
    return e / e.sum(1, keepdims=True)


class Fn:
    """A positive function f(z, y) that is symmetric in none of its arguments; optionally sparse or normalized over y."""

    def __init__(self, c, seed, zd, yd):
        r = np.random.default_rng([seed, zd, yd])
        self.c, self.a, self.b, self.o, self.x = c, r.normal(0, 2, zd), r.normal(0, 2, yd), r.normal(), r.normal(0, 1.5, (zd, yd))
        self.zd, self.yd = zd, yd

    def raw(self, z, y):
        t = self.o + z @ self.a + y @ self.b + np.einsum("...i,ij,...j->...", z, self.x, y)
        f = np.exp(1.3 * np.sin(t))
        return np.where(np.sin(9 * t) < -0.5, 0.0, f) if self.c["sparse"] else f

    def np(self, z, y):
        f = self.raw(z, y)
        if self.c["normal"]:
            g, w = grid(self.c, self.yd)
            d = sum(wi * self.raw(z, np.broadcast_to(gi, y.shape)) for gi, wi in zip(g, w))
            f = f / d
        return f

    def __call__(self, z, y):
        import torch

        require(z.shape[-1] == self.zd and y.shape[-1] == self.yd, f"integrand called with {z.shape[-1]}, {y.shape[-1]} coordinates, expected {self.zd}, {self.yd}")
        return torch.from_numpy(np.asarray(self.np(z.double().numpy(), y.double().numpy()))).to(z.dtype)


def input_unit(c, v, z, seed):
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical
    from spflow.modules.module import Module
    from spflow.modules.module_shape import ModuleShape

    class Input(Module):
        def __init__(self):
            super().__init__()
            self.scope, self.latent_scope = Scope([v]), Scope(list(z))
            self.in_shape = self.out_shape = ModuleShape(1, 1, 1)
            self.spec = {"t": "leaf", "v": v, "z": list(z), "seed": seed}

        feature_to_scope = property(lambda self: np.array([self.scope]))

        def materialize(self, quadrature_rule):
            import torch

            t = leaf_table(c, v, z, seed)
            return Categorical(Scope([v]), probs=torch.tensor(t[None, :, None, :], dtype=torch.get_default_dtype()))

        def log_likelihood(self, *a, **k):
            raise NotImplementedError

        sample = _sample = marginalize = log_likelihood

    return Input()


# ---------------------------------------------------------------------------------------------------------------------
# the definition: every unit is a function of its latents, an integral is a weighted sum over the grid of its inputs


def define(c, n, X, memo=None):
    """-> (latent ids, array (rows, K, K, ...)) of a symbolic unit given as a dict."""
    memo = {} if memo is None else memo
    if id(n) in memo:
        return memo[id(n)]
    K = len(c["rule"]["points"])
    if n["t"] == "leaf":
        T = leaf_table(c, n["v"], n["z"], n["seed"])
        x = X[:, n["v"]]
        a = np.where(np.isnan(x)[:, None], 1.0, T[:, np.nan_to_num(x).astype(int)].T)
        out = list(n["z"]), a.reshape((len(X),) + (K,) * len(n["z"]))
    elif n["t"] == "sum":
        parts = [define(c, m, X, memo) for m in n["cs"]]
        ids = parts[0][0]
        out = ids, sum(w * np.transpose(a, [0] + [1 + z.index(i) for i in ids]) for w, (z, a) in zip(n["w"], parts))
    elif n["t"] == "prod":
        (zl, al), (zr, ar) = define(c, n["l"], X, memo), define(c, n["r"], X, memo)
        ids = zl + [i for i in zr if i not in zl]
        out = ids, np.einsum(al, [0] + [1 + ids.index(i) for i in zl], ar, [0] + [1 + ids.index(i) for i in zr], [0] + [1 + i for i in range(len(ids))])
    else:
        y, a = define(c, n["c"], X, memo)
        a = np.transpose(a, [0] + [1 + y.index(i) for i in n["y"]]).reshape(len(X), -1)
        (gz, _), (gy, w) = grid(c, len(n["z"])), grid(c, len(n["y"]))
        F = n["fn"](np.broadcast_to(gz[:, None, :], (len(gz), len(gy), len(n["z"]))), np.broadcast_to(gy[None], (len(gz), len(gy), len(n["y"]))))
        out = list(n["z"]), np.einsum("by,zy,y->bz", a, F, w).reshape((len(X),) + (K,) * len(n["z"]))
    memo[id(n)] = out
    return out


def log_definition(c, n, X, order):
    ids, a = define(c, n, X)
    a = np.transpose(a, [0] + [1 + ids.index(i) for i in order]).reshape(len(X), 1, -1, 1)
    with np.errstate(divide="ignore"):
        return np.log(a)


@st.composite
def base_case(draw, nv, normal=False):
    return {"rule": draw(rule_spec()), "states": [draw(st.integers(2, 3)) for _ in range(nv)], "normal": normal, "sparse": not normal and draw(st.integers(0, 3)) == 0,
            "f64": draw(st.integers(0, 3)) > 0}


@st.composite
def data_rows(draw, c, lo=1, hi=6):
    m = draw(st.sampled_from([0, 0, 2]))
    return [[draw(st.integers(0, k - 1)) if draw(st.integers(0, 5)) >= m else None for k in c["states"]] for _ in range(draw(st.integers(lo, hi)))]


# ---------------------------------------------------------------------------------------------------------------------
# integral circuits written by hand


@st.composite
def program(draw, c, ids, vs, z, depth):
    seed = draw(st.integers(0, 10**6))

    def fresh(n):
        return [ids.pop() for _ in range(n)]

    def integral(k):
        y = fresh(k)
        return {"t": "int", "z": list(z), "y": sorted(y) if draw(st.booleans()) else y, "seed": seed, "c": draw(program(c, ids, vs, y, depth - 1))}

    if len(vs) == 1:
        if depth > 0 and draw(st.integers(0, 2)) == 0:
            return integral(1)
        return {"t": "leaf", "v": vs[0], "z": list(z), "seed": seed}
    ops = ["cp", "int"] if depth > 0 else ["cp"]
    if depth > 0:
        ops += ["int", "int"] + (["sum"] if depth > 1 else [])
        if len(z) != 1:
            ops += ["outer", "outer"]
    op = draw(st.sampled_from(ops))
    if op == "int":
        return integral(draw(st.sampled_from([1, 2, 2])))
    if op == "sum":
        n = draw(st.integers(2, 3))
        w = draw(st.lists(st.integers(1, 8), min_size=n, max_size=n))
        return {"t": "sum", "z": list(z), "w": [x / sum(w) for x in w], "cs": [draw(program(c, ids, vs, z, depth - 1)) for _ in range(n)]}
    k = draw(st.integers(1, len(vs) - 1))
    perm = draw(st.permutations(vs))
    if op == "outer" and len(z):
        zs = draw(st.permutations(z))
        j = draw(st.integers(0, len(zs)))
        zl, zr = zs[:j], zs[j:]
    elif op == "outer":
        zl = zr = []
    else:
        zl = zr = list(z)
    return {"t": "prod", "z": list(z), "l": draw(program(c, ids, sorted(perm[:k]), zl, depth - 1)), "r": draw(program(c, ids, sorted(perm[k:]), zr, depth - 1))}


@st.composite
def circuit_case(draw, normal=False):
    nv = draw(st.integers(2 if normal else 1, 4))
    c = draw(base_case(nv, normal))
    if normal:
        c["rule"] = draw(rule_spec(3, lo=2))
    ids = list(draw(st.permutations(range(50, 90))))
    z = [] if normal else [ids.pop() for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    c["pic"] = draw(program(c, ids, list(range(nv)), z, draw(st.integers(2 if normal else 1, 4))))
    c["rows"] = draw(data_rows(c))
    c["seed"] = draw(st.integers(0, 10**6))
    c["ev"] = [draw(st.integers(0, k - 1)) if draw(st.integers(0, 2)) == 0 else None for k in c["states"]]
    return c


def build(c, n):
    """-> (symbolic module, definition) of a program."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.zoo.pic import Integral, PICProduct, PICSum

    if n["t"] == "leaf":
        m = input_unit(c, n["v"], n["z"], n["seed"])
        return m, m.spec
    if n["t"] == "sum":
        cs = [build(c, m) for m in n["cs"]]
        return PICSum([m for m, _ in cs], torch.tensor(n["w"]), cs[0][0].latent_scope), {"t": "sum", "w": n["w"], "cs": [d for _, d in cs]}
    if n["t"] == "prod":
        (l, dl), (r, dr) = build(c, n["l"]), build(c, n["r"])
        return PICProduct(l, r), {"t": "prod", "l": dl, "r": dr}
    m, d = build(c, n["c"])
    f = Fn(c, n["seed"], len(n["z"]), len(n["y"]))
    return Integral(m, Scope(n["z"]), Scope(n["y"]), f), {"t": "int", "z": n["z"], "y": n["y"], "c": d, "fn": f.np}


def ambiguous(n):
    """Units enumerating the same latents in different orders are not combined channel by channel."""
    def order(n):
        if n["t"] in ("leaf", "int"):
            return list(n["z"])
        if n["t"] == "sum":
            return order(n["cs"][0])
        l, r = order(n["l"]), order(n["r"])
        return l if set(l) == set(r) else l + r

    kids = n.get("cs") or [n[k] for k in ("l", "r", "c") if k in n]
    if n["t"] == "sum" and any(order(m) != order(n["cs"][0]) for m in n["cs"]):
        return True
    if n["t"] == "prod" and set(order(n["l"])) == set(order(n["r"])) and order(n["l"]) != order(n["r"]):
        return True
    return any(ambiguous(m) for m in kids)


def channel_ids(n):
    if n["t"] in ("leaf", "int"):
        return list(n["z"])
    if n["t"] == "sum":
        return channel_ids(n["cs"][0])
    l, r = channel_ids(n["l"]), channel_ids(n["r"])
    return l if set(l) == set(r) else l + r


def kinds(n, acc=None):
    acc = [] if acc is None else acc
    t = n["t"]
    if t == "int":
        t = f"int{len(n['z'])}<{len(n['y'])}"
    elif t == "prod":
        t = "cp" if set(channel_ids(n["l"])) == set(channel_ids(n["r"])) else "outer"
    acc.append(t)
    for m in n.get("cs", []) + [n[k] for k in ("l", "r", "c") if k in n]:
        kinds(m, acc)
    return acc


def check_circuit(c, rec):
    import torch
    from spflow.zoo.pic import pic2qpc

    cc.set_dtype(c)
    if ambiguous(c["pic"]):
        rec.tag("ambiguous order")
        return
    pic, d = build(c, c["pic"])
    q = pic2qpc(pic, torch_rule(c))
    X = cc.to_np(c["rows"])
    order = channel_ids(c["pic"])
    t = cc.tol(c)
    with torch.no_grad():
        g = q.log_likelihood(cc.to_torch(X)).double().numpy()
    close(g, log_definition(c, d, X, order), "likelihood of the materialized circuit", **t)
    again = pic2qpc(pic, torch_rule(c))
    with torch.no_grad():
        require(np.array_equal(again.log_likelihood(cc.to_torch(X)).double().numpy(), g), "materializing twice gives different circuits")
    require(set(q.scope.query) == set(range(len(c["states"]))), f"scope {q.scope} of the materialized circuit")
    ks = kinds(c["pic"])
    rec.nt(sum(k.startswith("int") for k in ks) > 1 and len(c["states"]) > 1)
    for k in set(ks):
        rec.tag(k)


def check_sampling(c, rec):
    """Where all integrands are normalized, the materialized circuit is a distribution: draw from it."""
    import torch
    from spflow.zoo.pic import pic2qpc

    cc.set_dtype(c)
    if ambiguous(c["pic"]):
        rec.tag("ambiguous order")
        return
    pic, d = build(c, c["pic"])
    q = pic2qpc(pic, torch_rule(c))
    S = np.array(list(itertools.product(*[range(k) for k in c["states"]])), float)
    p = np.exp(log_definition(c, d, S, [])).reshape(-1)
    with torch.no_grad():
        g = q.log_likelihood(cc.to_torch(S)).double().exp().numpy().reshape(-1)
        close(g.sum(), 1.0, "total mass", rtol=1e-5, atol=1e-5)
    ev = np.array([np.nan if v is None else v for v in c["ev"]], float)
    obs = ~np.isnan(ev)
    ok = (S[:, obs] == ev[obs]).all(1)
    if p[ok].sum() < 1e-6 or obs.all():
        obs, ok = obs & False, np.ones(len(S), bool)
    pc = np.where(ok, p, 0) / p[ok].sum()
    code = np.cumprod([1] + c["states"][::-1])[:-1][::-1].astype(float)
    torch.manual_seed(c["seed"])

    def draw(k):
        with torch.no_grad():
            if obs.any():
                D = np.full((k, len(ev)), np.nan)
                D[:, obs] = ev[obs]
                x = q.sample_with_evidence(cc.to_torch(D))
            else:
                x = q.sample(num_samples=k)
        x = x.double().numpy()
        require(x.shape == (k, len(ev)) and not np.isnan(x).any(), f"sample shape {x.shape} or missing values")
        return (x @ code).astype(int)

    gof(draw, pc, "samples of the materialized circuit" + (" given evidence" if obs.any() else ""), n=800)
    rec.nt(sum(k.startswith("int") for k in kinds(c["pic"])) > 1 and len(c["rule"]["points"]) > 1)
    rec.tag("evidence" if obs.any() else "prior")


# ---------------------------------------------------------------------------------------------------------------------
# region graphs


@st.composite
def region_graph(draw, nv, multi_inner, maxarity=4):
    """Regions as sorted variable lists, partitions as lists of region numbers, children first. Sub-regions are shared."""
    regs, index = [], {}

    def add(vs, root):
        key = tuple(vs)
        if key in index:
            return index[key]
        parts = []
        if len(vs) > 1:
            for _ in range(draw(st.sampled_from([1, 1, 2, 3])) if (root or multi_inner) else 1):
                a = draw(st.integers(2, min(maxarity, len(vs)))) if draw(st.booleans()) else 2
                perm = draw(st.permutations(vs))
                cut = sorted(draw(st.permutations(range(1, len(vs))))[: a - 1])
                parts.append([add(sorted(perm[i:j]), False) for i, j in zip([0] + cut, cut + [len(vs)])])
        regs.append({"vs": list(vs), "parts": parts})
        index[key] = len(regs) - 1
        return index[key]

    add(list(range(nv)), True)
    return regs


def build_rg(regs):
    from spflow.meta.data.scope import Scope
    from spflow.meta.region_graph import Region, RegionGraph

    out = []
    for r in regs:
        out.append(Region(Scope(r["vs"])))
        for p in r["parts"]:
            out[-1].add_partition(tuple(out[i] for i in p))
    rg = RegionGraph(out[-1])
    require(len(rg.post_order()) == len(regs) and len(rg.regions) == len(regs), f"{len(regs)} regions, traversals visit {len(rg.post_order())} and {len(rg.regions)}")
    seen = set()
    for r in rg.post_order():
        require(all(ch in seen for p in r.children for ch in p), "post-order visits a region before its children")
        seen.add(r)
    return rg


@st.composite
def rg_case(draw):
    nv = draw(st.integers(1, 5))
    c = draw(base_case(nv))
    if nv > 3:
        c["states"] = [2] * nv
    c["regs"] = draw(region_graph(nv, False))
    c["merge"] = draw(st.sampled_from(["AUTO", "TUCKER", None]))
    c["group"] = draw(st.sampled_from([None, None, "c", "f"]))
    c["weights"] = draw(st.booleans())
    c["rows"] = draw(data_rows(c))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def check_rg(c, rec):
    import torch
    from spflow.zoo.pic import FunctionGroup, Integral, MergeStrategy, PICProduct, PICSum, pic2qpc, rg2pic

    cc.set_dtype(c)
    torch.manual_seed(c["seed"])
    rg = build_rg(c["regs"])
    dims, groups = [], []

    def function(z, y):
        dims.append((z, y))
        return Fn(c, c["seed"] + len(dims), z, y)

    def group(depth, z, y):
        groups.append(FunctionGroup(c["group"], z + y, 8, 2))
        return groups[-1]

    kw = {"leaf_factory": lambda x, z: input_unit(c, x.query[0], list(z.query), c["seed"] + x.query[0]), "function_factory": function}
    if c["group"]:
        kw["integral_group_factory"] = group
    if c["merge"]:
        kw["merge_strategy"] = getattr(MergeStrategy, c["merge"])
    if c["weights"]:
        kw["sum_weights_factory"] = lambda n: torch.arange(1, n + 1) / (n * (n + 1) / 2)
    pic = rg2pic(rg, **kw)
    # the symbolic circuit is read off its public attributes
    heads, products, weights = {}, [], []
    memo = {}

    def read(u):
        if id(u) in memo:
            return memo[id(u)]
        if isinstance(u, Integral):
            f = u.function
            if isinstance(f, FunctionGroup):
                heads.setdefault(id(f), []).append(u.function_head_idx)
                h = f.get_function(u.function_head_idx)
                fn = lambda z, y: h(torch.tensor(z), torch.tensor(y)).detach().double().numpy()  # noqa: E731
            else:
                fn = f.np
            d = {"t": "int", "z": list(u.latent_scope.query), "y": list(u.integrated_latent_scope.query), "c": read(u.inputs), "fn": fn}
        elif isinstance(u, PICProduct):
            products.append((frozenset(u.left.scope.query), frozenset(u.right.scope.query)))
            d = {"t": "prod", "l": read(u.left), "r": read(u.right)}
        elif isinstance(u, PICSum):
            weights.append(u.weights.tolist())
            d = {"t": "sum", "w": u.weights.double().tolist(), "cs": [read(m) for m in u.inputs]}
        else:
            d = u.spec
        memo[id(u)] = d
        return d

    d = read(pic)
    # one product per binary step of every partition, over exactly its regions
    want = []
    for r in c["regs"]:
        for p in r["parts"]:
            acc = frozenset(c["regs"][p[0]]["vs"])
            for i in p[1:]:
                want.append((acc, frozenset(c["regs"][i]["vs"])))
                acc |= set(c["regs"][i]["vs"])
    require(sorted(map(str, [tuple(map(sorted, p)) for p in products])) == sorted(map(str, [tuple(map(sorted, p)) for p in want])), f"products over {products}, partitions {want}")
    n = len(c["regs"][-1]["parts"])
    require(len(weights) == (n > 1), f"{len(weights)} sums for a root of {n} partitions")
    if n > 1:
        close(np.array(weights[0]), np.arange(1, n + 1) / (n * (n + 1) / 2) if c["weights"] else np.full(n, 1 / n), "weights of the partitions of the root", rtol=1e-6)
    for hs in heads.values():
        require(sorted(hs) == list(range(len(hs))), f"heads {hs} of a function group")
    q = pic2qpc(pic, torch_rule(c))
    X = cc.to_np(c["rows"])
    t = cc.tol(c)
    with torch.no_grad():
        g = q.log_likelihood(cc.to_torch(X)).double().numpy()
    close(g, log_definition(c, d, X, []), "likelihood of the materialized region graph", **t)
    arity = max([len(p) for r in c["regs"] for p in r["parts"]] or [0])
    rec.nt(len(want) > 1)
    rec.tag(f"arity {arity}", f"group {c['group']}", "shared regions" if sum(len(p) for r in c["regs"] for p in r["parts"]) > len(c["regs"]) - 1 else "tree", "mixture root" if n > 1 else "single root")


# ---------------------------------------------------------------------------------------------------------------------
# shared functions


@st.composite
def group_case(draw):
    return {"f64": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "share": draw(st.sampled_from("cf")), "zd": draw(st.integers(0, 2)), "yd": draw(st.integers(1, 2)), "hidden": draw(st.integers(1, 6)),
            "layers": draw(st.integers(1, 3)), "units": draw(st.integers(1, 4)), "lead": draw(st.lists(st.tuples(st.integers(1, 3), st.sampled_from("=zy")), min_size=1, max_size=3)),
            "finalize": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 3.0]))}


def check_group(c, rec):
    import torch
    from spflow.zoo.pic import FunctionGroup, MultiHeadedMLP, SharedMLP

    cc.set_dtype(c)
    torch.manual_seed(c["seed"])
    g = FunctionGroup(c["share"], c["zd"] + c["yd"], c["hidden"], c["layers"])
    require([g.add_unit(object()) for _ in range(c["units"])] == list(range(c["units"])), "unit numbers")
    if c["finalize"]:
        g.finalize()
    z = torch.randn(*[1 if b == "z" else k for k, b in c["lead"]], c["zd"])
    y = torch.randn(*[1 if b == "y" else k for k, b in c["lead"]], c["yd"])
    lead = tuple(k if k > 1 else 1 for k, _ in c["lead"])
    with torch.no_grad():
        out = g.evaluate_batched(z, y)
        fs = [g.get_function(i)(z, y) for i in range(c["units"])]
    shape = np.broadcast_shapes(tuple(z.shape[:-1]), tuple(y.shape[:-1]))
    n = c["units"] if c["share"] == "c" else 1
    require(tuple(out.shape) == (n,) + tuple(shape), f"shape {tuple(out.shape)} of the values of {n} functions over {shape}")

    def lin(m, x):
        return x @ m.weight.detach().double().numpy().T + m.bias.detach().double().numpy()

    def backbone(mlp, x):
        pr = x @ mlp.fourier.B.double().numpy()
        h = np.concatenate([np.sin(pr), np.cos(pr)], -1)
        for m in mlp.layers:
            if hasattr(m, "weight"):
                h = lin(m, h)
            else:
                h = h / (1 + np.exp(-h))
        return h

    def softplus(a):
        return np.logaddexp(0, a)

    tl = {"rtol": 1e-9, "atol": 1e-12} if c["f64"] else {"rtol": 1e-4, "atol": 1e-5}
    xy = np.concatenate([np.broadcast_to(z.double().numpy(), shape + (c["zd"],)), np.broadcast_to(y.double().numpy(), shape + (c["yd"],))], -1)
    h = backbone(g.mlp, xy)
    lins = [m for nm, m in g.named_modules() if isinstance(m, torch.nn.Linear) and not nm.startswith("mlp.") and ".shared." not in nm and not nm.endswith("shared")]
    require(len(lins) == n, f"{len(lins)} heads for {n} functions")
    for i in range(n):
        close(out[i].double().numpy(), softplus(lin(lins[i], h))[..., 0], f"function {i} of the group", **tl)
    for i, f in enumerate(fs):
        require(torch.equal(f, out[i if c["share"] == "c" else 0]), f"single function {i} differs from the batched evaluation")
    require((out > 0).all().item(), "values are not positive")
    mlp = SharedMLP(c["zd"] + c["yd"], c["hidden"], c["layers"], fourier_scale=c["scale"])
    mh = MultiHeadedMLP(mlp, c["units"])
    with torch.no_grad():
        a = mh(torch.tensor(xy, dtype=torch.get_default_dtype()))
        for i in range(c["units"]):
            close(a[..., i].double().numpy(), softplus(lin(mh.heads[i], backbone(mlp, xy)))[..., 0], f"head {i}", **tl)
            close(mh(torch.tensor(xy, dtype=torch.get_default_dtype()), head_idx=i)[..., 0].double().numpy(), a[..., i].double().numpy(), f"head {i} alone", **tl)
    rec.nt(c["units"] > 1 and len(shape) > 1)
    rec.tag(c["share"])


# ---------------------------------------------------------------------------------------------------------------------
# tensorized layers


@st.composite
def layer_case(draw):
    kind = draw(st.sampled_from(["tucker", "cp", "uncollapsed", "shared", "mixing"]))
    H = 2 if kind == "tucker" else draw(st.integers(1, 4))
    F = draw(st.integers(1, 3))
    c = {"kind": kind, "H": H, "F": F, "I": draw(st.integers(1, 4)), "O": draw(st.integers(1, 4)), "R": draw(st.integers(1, 3)), "B": draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)),
         "seed": draw(st.integers(0, 10**6)), "f64": draw(st.booleans()), "shift": draw(st.sampled_from([0, -50, -400, -1000])), "inf": draw(st.sampled_from([0, 0, 0.2, 0.7])), "zero": draw(st.sampled_from([0, 0, 0.3]))}
    if kind in ("cp", "uncollapsed", "mixing") and draw(st.booleans()):
        c["mask"] = [[i < k for i in range(H)] for k in draw(st.lists(st.integers(1, H), min_size=F, max_size=F))]
    return c


def check_layer(c, rec):
    import torch
    from spflow.zoo.pic.tensorized import CPLayer, MixingSumLayer, TuckerLayer

    cc.set_dtype(c)
    torch.manual_seed(c["seed"])
    r = np.random.default_rng(c["seed"])
    F, H, I, O = c["F"], c["H"], c["I"], c["O"]
    if c["kind"] == "mixing":
        O = I
    mask = np.array(c.get("mask", [[True] * H] * F))
    kw = dict(num_input_units=I, num_output_units=O, arity=H, num_folds=F)
    if "mask" in c:
        kw["fold_mask"] = torch.tensor(mask)
    if c["kind"] == "tucker":
        m = TuckerLayer(**kw)
    elif c["kind"] == "mixing":
        m = MixingSumLayer(**kw)
        s = m.params.detach().double().sum(1).numpy()
        close(s, np.ones_like(s), "initial mixing weights", rtol=1e-5)
    else:
        m = CPLayer(**kw, rank=c["R"], collapsed=c["kind"] != "uncollapsed", shared=c["kind"] == "shared")
    P = []
    with torch.no_grad():
        for p in m.parameters():
            require(((p > 0) & (p <= 1)).all().item(), "initial parameters outside the unit interval")
            if c["zero"]:
                p.mul_((torch.rand_like(p) > c["zero"]).to(p.dtype))
            P.append(p.detach().double().numpy())
    x = r.normal(0, 1.5, (F, H, I, *c["B"])) + c["shift"] * r.uniform(0.5, 1, (F, 1 if c["kind"] == "mixing" and c["zero"] else H, 1, *[1] * len(c["B"])))
    x[r.random(x.shape) < c["inf"]] = -np.inf
    xt = torch.tensor(x, dtype=torch.get_default_dtype())
    x = xt.double().numpy()
    with torch.no_grad():
        g = m(xt).double().numpy()

    def lse(a, axis):
        mx = np.max(a, axis=axis, keepdims=True)
        mx = np.where(np.isfinite(mx), mx, 0)
        with np.errstate(divide="ignore"):
            return np.log(np.exp(a - mx).sum(axis)) + np.squeeze(mx, axis)

    def lg(w, nb):
        with np.errstate(divide="ignore"):
            return np.log(w).reshape(w.shape + (1,) * nb)

    nb = len(c["B"])
    if c["kind"] == "tucker":
        a = x[:, 0][:, :, None, None] + x[:, 1][:, None, :, None] + lg(P[0], nb)  # F I J O B
        want = lse(a.reshape((F, I * I) + a.shape[3:]), 1)
    elif c["kind"] == "mixing":
        a = np.where(mask.reshape(F, H, *[1] * (1 + nb)), x + lg(P[0], nb), -np.inf)
        want = lse(a, 1)
    else:
        W = P[0] if c["kind"] != "shared" else np.broadcast_to(P[0], (F, *P[0].shape))
        a = lse(x[:, :, :, None] + lg(W, nb), 2)  # F H O B
        want = np.where(mask.reshape(F, H, *[1] * (1 + nb)), a, 0.0).sum(1)
        if c["kind"] == "uncollapsed":
            want = lse(want[:, :, None] + lg(P[1], nb), 1)
    t = {"rtol": 1e-8, "atol": 1e-7} if c["f64"] else {"rtol": 1e-4, "atol": 1e-3}
    close(g, want, f"{c['kind']} layer", **t)
    require(m.num_params == sum(p.size for p in P), "number of parameters")
    rec.nt(I > 1 and (H > 1 or F > 1))
    rec.tag(c["kind"], "masked" if not mask.all() else "unmasked", "log(0) inputs" if c["inf"] else "finite")


# ---------------------------------------------------------------------------------------------------------------------
# folded circuits


@st.composite
def folded_case(draw):
    nv = draw(st.integers(2, 6))
    leaf = draw(st.sampled_from(["categorical", "bernoulli", "normal"]))
    c = {"rule": draw(rule_spec(4, zero=False)), "states": [draw(st.just(2)) if leaf == "bernoulli" or nv > 4 else 3] * nv, "leaf": leaf, "f64": draw(st.integers(0, 2)) > 0}
    c["regs"] = draw(region_graph(nv, True, 3 if draw(st.booleans()) else 2))
    c["off"] = draw(st.sampled_from([None, None, [draw(st.integers(0, 2)) for _ in range(nv)]]))
    c.update(cls=draw(st.sampled_from(["auto", "auto", "tucker", "cp"])), inner=draw(st.sampled_from(["none", "f", "c"])), input=draw(st.sampled_from(["none", "f", "c"])), bias=draw(st.booleans()),
             chunks=draw(st.integers(1, 4)), ff=draw(st.sampled_from([None, 4, 6])), net=draw(st.sampled_from([4, 6])), seed=draw(st.integers(0, 10**6)), learn=draw(st.booleans()))
    c["rows"] = draw(data_rows(c))
    return c


def check_folded(c, rec):
    import torch
    from spflow.zoo.pic import QuadratureRule, TensorizedQPC, TensorizedQPCConfig

    cc.set_dtype(c)
    torch.manual_seed(c["seed"])
    regs = c["regs"]
    nv = len(c["states"])
    rg = build_rg(regs)
    cfg = dict(leaf_type=c["leaf"], num_categories=c["states"][0] if c["leaf"] == "categorical" else None, net_dim=c["net"], bias=c["bias"], input_sharing=c["input"], inner_sharing=c["inner"],
               ff_dim=c["ff"], learn_ff=c["learn"], layer_cls=c["cls"])
    q = TensorizedQPC.from_region_graph(rg, quadrature_rule=torch_rule(c), config=TensorizedQPCConfig(**cfg, n_chunks=c["chunks"]))
    with torch.no_grad():
        for n, p in q.named_parameters():
            p.normal_(0, 0.7)
    one = TensorizedQPC(rg=rg, quadrature_rule=torch_rule(c), config=TensorizedQPCConfig(**cfg))
    one.load_state_dict(q.state_dict())
    S = np.array(list(itertools.product(*[range(k) for k in c["states"]])), float)
    D = np.concatenate([S, cc.to_np(c["rows"])]) if c["leaf"] != "normal" else cc.to_np(c["rows"])
    with torch.no_grad():
        g = q.log_likelihood(cc.to_torch(D))
        require(tuple(g.shape) == (len(D), 1, 1, 1), f"shape {tuple(g.shape)}")
        t = cc.tol(c)
        close(one.log_likelihood(cc.to_torch(D)).double().numpy(), g.double().numpy(), "likelihood depends on the number of chunks", **t)
    g = g.double().numpy().reshape(-1)
    if c["leaf"] != "normal":
        close(np.exp(g[: len(S)]).sum(), 1.0, "total mass of the folded circuit", rtol=1e-4, atol=1e-4)

    # -- the definition ------------------------------------------------------------------------------------------
    K = len(c["rule"]["points"])
    pts, w = np.array(c["rule"]["points"]), np.array(c["rule"]["weights"])
    sd = {k: v.double().numpy() for k, v in q.state_dict().items()}

    def net(prefix, coords, funcs, outs, last):
        """Values (funcs, outs, points) of the networks: Fourier features, tanh layers, one head per function."""
        keys = sorted({k[len(prefix):].split(".")[0] for k in sd if k.startswith(prefix) and k.endswith("weight")}, key=int)
        coeff = sd[[k for k in sd if k.startswith(prefix) and k.endswith("coeff")][0]]
        pr = 2 * np.pi * coords @ coeff
        feats = np.concatenate([np.cos(pr), np.sin(pr)], -1).T  # features, points

        def lin(k, x, groups):
            W = sd[f"{prefix}{k}.weight"][..., 0]
            b = sd.get(f"{prefix}{k}.bias", np.zeros(len(W)))
            W, b = W.reshape(groups, -1, W.shape[1]), b.reshape(groups, -1)
            return np.einsum("goi,gip->gop", W, np.broadcast_to(x, (groups,) + x.shape[1:])) + b[:, :, None]

        inner = funcs if last == "none" else 1
        h = np.tanh(lin(keys[0], feats[None], inner))
        for k in keys[1:-1]:
            h = np.tanh(lin(k, h, inner))
        out = lin(keys[-1], h, 1 if last == "f" else funcs)
        return np.broadcast_to(out, (funcs,) + out.shape[1:])

    par = net("input_net.net.", pts[:, None], nv, None, c["input"])  # V, P, K
    B = len(D)
    leafval = np.zeros((nv, B, K))
    tol32 = {"rtol": 1e-6, "atol": 1e-6} if c["f64"] else {"rtol": 2e-3, "atol": 2e-3}
    for v in range(nv):
        x = D[:, v]
        xi = np.nan_to_num(x)
        if c["leaf"] == "normal":
            sc = np.logaddexp(0, par[v, 1]) + 1e-6
            l = -0.5 * ((xi[:, None] - par[v, 0]) / sc) ** 2 - np.log(sc) - 0.5 * np.log(2 * np.pi)
        elif c["leaf"] == "bernoulli":
            l = np.where(xi[:, None] > 0, -np.logaddexp(0, -par[v, 0]), -np.logaddexp(0, par[v, 0]))
        else:
            lp = par[v] - np.logaddexp.reduce(par[v], axis=0)
            l = lp[xi.astype(int)]
        leafval[v] = np.where(np.isnan(x)[:, None], 0.0, l)

    height = []
    for r in regs:
        height.append(0 if not r["parts"] else 1 + max(height[i] for p in r["parts"] for i in p))
    scope_of = {tuple(r["vs"]): i for i, r in enumerate(regs)}
    order = [scope_of[tuple(sorted(r.scope.query))] for r in rg.post_order()]
    val = {i: leafval[r["vs"][0]] for i, r in enumerate(regs) if not r["parts"]}
    eps = float(np.sqrt(torch.finfo(torch.get_default_dtype()).tiny))
    layer = mix = 0

    def lse(a, axis):
        mx = np.max(a, axis=axis, keepdims=True)
        with np.errstate(divide="ignore"):
            return np.log(np.exp(a - mx).sum(axis)) + np.squeeze(mx, axis)

    used = set()
    for h in range(1, max(height) + 1):
        rs = [i for i in order if height[i] == h]
        parts = [(i, p) for i in rs for p in regs[i]["parts"]]
        arity = max(len(p) for _, p in parts)
        tucker = arity == 2 and c["cls"] != "cp"
        if any(len(p) != arity for _, p in parts):
            tucker = False
        used.add("tucker" if tucker else "cp")
        O = K if h < max(height) else 1
        nz = (2 if tucker else 1) + (O > 1)
        funcs = len(parts) if tucker else len(parts) * arity
        co = np.array(list(itertools.product(pts, repeat=nz)))
        f = np.logaddexp(0, net(f"inner_nets.{layer}.net.", co, funcs, 1, c["inner"]))[:, 0] + eps
        f = f.reshape((funcs,) + (K,) * nz)
        with np.errstate(divide="ignore"):
            if tucker:
                # coordinates (z, right, left) below the root, (left, right) at the root
                W = np.transpose(f, (0, 3, 2, 1)) if O > 1 else f.reshape(funcs, K, K, 1)
                W = W * w[:, None, None] * w[None, :, None]
                W = np.log(W / W.sum((1, 2), keepdims=True))
            else:
                W = np.transpose(f, (0, 2, 1)) if O > 1 else f.reshape(funcs, K, 1)
                W = W * w[:, None]
                W = np.log(W / W.sum(1, keepdims=True)).reshape(len(parts), arity, K, O)
        outs = []
        for k, (i, p) in enumerate(parts):
            if tucker:
                a = val[p[0]][:, :, None, None] + val[p[1]][:, None, :, None] + W[k][None]
                outs.append(lse(a.reshape(B, K * K, O), 1))
            else:
                outs.append(sum(lse(val[j][:, :, None] + W[k, m][None], 1) for m, j in enumerate(p)))
        many = [i for i in rs if len(regs[i]["parts"]) > 1]
        pos = {i: [k for k, (j, _) in enumerate(parts) if j == i] for i in rs}
        if many:
            lg = sd[f"_mixing_logits.{mix}"]
            mix += 1
        for i in rs:
            if i not in many:
                val[i] = outs[pos[i][0]]
            else:
                m = lg[many.index(i)][: len(pos[i])]
                m = m - np.logaddexp.reduce(m, axis=0)
                val[i] = lse(np.stack([outs[k] + m[a][None] for a, k in enumerate(pos[i])]), 0)
        layer += 1
    close(g, val[len(regs) - 1][:, 0], "likelihood of the folded circuit", **tol32)
    rec.nt(max(height) > 1 and K > 1)
    rec.tag(*used, "mixing" if mix else "no mixing", c["leaf"], "missing" if np.isnan(D).any() else "observed")


PROP = Prop("C23", [
    Facet("programs", circuit_case(), check_circuit, quick=1200, thorough=20000, rule="several integrals over several variables"),
    Facet("graphs", rg_case(), check_rg, quick=800, thorough=10000, rule="several products"),
    Facet("sampling", circuit_case(True), check_sampling, quick=300, thorough=3000, rule="several integrals with several points"),
    Facet("functions", group_case(), check_group, quick=500, thorough=5000, rule="several functions over a grid"),
    Facet("layers", layer_case(), check_layer, quick=1500, thorough=20000, rule="several units and several folds or inputs"),
    Facet("folded", folded_case(), check_folded, quick=900, thorough=8000, rule="several layers and several points"),
])
