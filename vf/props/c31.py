"""C31: differentiable sampling draws from the circuit and propagates gradients."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require
from vf.gof import gof_multi
from vf.props import c07
from vf.samp import Cells, check_support

CHUNK = 1000


def onehot(idx, k):
    import torch

    return torch.nn.functional.one_hot(torch.as_tensor(np.asarray(idx)), k).to(torch.get_default_dtype())


def context(ch, C, r, R, N, mpe=False, tau=1.0, ordinary=False):
    """Context asking for channel ch[f] of every feature and repetition r."""
    import torch
    from spflow.utils.sampling_context import SamplingContext

    ch = np.repeat(np.asarray(ch)[None], N, 0)
    mask = torch.ones(ch.shape, dtype=torch.bool)
    if ordinary:
        return SamplingContext(channel_index=torch.as_tensor(ch), mask=mask, repetition_index=torch.full((N,), r, dtype=torch.long), is_mpe=mpe)
    return SamplingContext(channel_index=onehot(ch, C), mask=mask, repetition_index=onehot(np.full(N, r), R), is_mpe=mpe, is_differentiable=True, tau=tau)


def use_simple(m):
    """The default of the binomial leaf is a documented normal approximation; take its exact alternative."""
    from spflow.modules.leaves.binomial import Binomial, BinomialDifferentiableSamplingMethod as M

    for x in m.modules():
        if isinstance(x, Binomial):
            x.differentiable_sampling_method = M.SIMPLE


def wide_counts(b):
    """Count leaves whose truncated support would make a run expensive or lossy."""
    for r in cc.ref_nodes(b.ref):
        if isinstance(r, cc.RLeaf):
            p = r.params
            if r.kind == "Poisson" and np.max(p["rate"]) > 200 or r.kind in ("Geometric",) and np.min(p["probs"]) < 0.05:
                return True
            if r.kind == "NegativeBinomial" and np.max(p["probs"]) > 0.9:
                return True
    return False


@st.composite
def case_(draw, families, root="single", reps=(1,), max_vars=4, routed=False, evidence=True, layers=False):
    if layers:
        c = draw(cc.layer_circuit(families=families, reps=reps, exclude=("cltree",)))
    elif routed:
        c = draw(cc.routed_circuit(families=families, reps=reps, maxstates=64))
    else:
        c = draw(cc.circuit(families=families, root=root, reps=reps, min_vars=1, max_vars=max_vars, maxdepth=4, maxstates=64, exclude=("cltree",)))
    rows = draw(cc.rows(c["vt"], 1, 3, extreme=True))
    for i, r in enumerate(rows):
        how = draw(st.integers(0, 3))
        if how == 0:
            rows[i] = [None] * c["n"]
        elif all(x is not None for x in r):
            r[draw(st.integers(0, c["n"] - 1))] = None
    c["rows"] = rows
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    c["tau"] = draw(st.sampled_from([1.0, 1.0, 0.1, 3.0]))
    return c


def setup(case, rec):
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    use_simple(b.module)
    rec.tag(*cc.spec_tags(case["spec"]))
    F, C, R = len(b.ref.P), b.ref.C, b.ref.R
    if any(isinstance(r, cc.RCLTree) for r in cc.ref_nodes(b.ref)) or wide_counts(b):
        rec.tag("not-run")
        return None
    if any(isinstance(r, cc.RRepMix) for r in cc.ref_nodes(b.ref)) and F > 1:
        return None  # rejected by design
    ch = np.array([case["pick"][f % 6] % C for f in range(F)])
    r = case["pick"][6] % R

    def ref_ll(X):
        ll = b.ref.ll(X)
        return sum(ll[:, f, ch[f], r] for f in range(F))

    E = []
    for row in cc.to_np(case["rows"]):
        while not ref_ll(row[None])[0] > -3000:
            obs = np.nonzero(~np.isnan(row))[0]
            row = row.copy()
            row[obs[0]] = np.nan
        E.append(row)
    E = np.array(E)
    if not case.get("f64", True):
        E = E.astype(np.float32).astype(np.float64)
    torch.manual_seed(case["seed"] % (2**31))
    return b, F, C, R, ch, r, ref_ll, E


def sample(b, E, ch, C, r, R, tau=1.0, mpe=False, ordinary=False, grad=False):
    """(rows, circuit's answer) for a block of evidence rows; ordinary or differentiable."""
    import torch
    from spflow.utils.cache import Cache

    data, cache = cc.to_torch(E), Cache()
    with torch.set_grad_enabled(grad):
        if not np.isnan(E).all():
            b.module.log_likelihood(data, cache=cache)
        return b.module._sample(data=data, sampling_ctx=context(ch, C, r, R, len(E), mpe=mpe, tau=tau, ordinary=ordinary), cache=cache)


def check_dist(case, rec):
    import torch

    s = setup(case, rec)
    if s is None:
        return
    b, F, C, R, ch, r, ref_ll, E = s
    cells = [Cells(case, ref_ll, [v for v in range(case["n"]) if np.isnan(row[v])], evidence=row) for row in E]
    part = [bool(np.isnan(row).any()) for row in E]
    rec.nt(case["spec"]["t"] != "leaf" and any(part) and case["n"] * C * R > 1)
    rec.tag("evidence" if not np.isnan(E).all() else "prior", "mixed-rows" if len(E) > 1 else "one-row")

    def draw(n):
        idx = np.repeat(np.arange(len(E)), n)
        out = []
        for k in range(0, len(idx), CHUNK):
            i = idx[k:k + CHUNK]
            S = sample(b, E[i], ch, C, r, R, tau=case["tau"])
            want = cc.to_torch(E[i])
            obs = ~torch.isnan(want)
            require(tuple(S.shape) == tuple(want.shape), f"sample shape {tuple(S.shape)}")
            require(torch.equal(S[obs], want[obs]), "an observed entry was changed")
            out.append(S.detach().double().numpy())
        S = np.concatenate(out)
        check_support(case, np.where(np.isnan(E[idx]), S, 0.0), "differentiable sample")
        return [c.index(S[idx == i]) for i, c in enumerate(cells)]

    gof_multi(draw, [c.probs for c in cells], f"differentiable samples (channels {ch.tolist()}, repetition {r})", n=600, n2=12000)


def check_mpe(case, rec):
    """Differentiable MPE makes the same decisions as ordinary MPE; both follow the circuit's greedy decisions."""
    s = setup(case, rec)
    if s is None:
        return
    b, F, C, R, ch, r, ref_ll, E = s
    E = E[[bool(ref_ll(row[None])[0] > -40) for row in E]]
    if not len(E):
        return
    G = sample(b, E, ch, C, r, R, tau=case["tau"], mpe=True).detach().double().numpy()
    obs = ~np.isnan(E)
    require(np.isfinite(G).all(), "completion is not finite everywhere")
    require((G[obs] == cc.to_torch(E).double().numpy()[obs]).all(), "an observed entry was changed")
    t = 1e-5 if case.get("f64", True) else 2e-3
    det = [c07.verify(case, b.ref, E[i], G[i], list(enumerate(ch)), r, t) for i in range(len(E))]
    rec.nt(any(det) and (~obs).any() and case["spec"]["t"] != "leaf")
    G2 = sample(b, E, ch, C, r, R, mpe=True, ordinary=True).detach().double().numpy()
    for i in range(len(E)):
        if det[i]:
            close(G[i], G2[i], "differentiable against ordinary MPE", rtol=1e-5, atol=1e-5)


LOC = ("Normal", "Laplace")


@st.composite
def grad_case(draw):
    c = draw(cc.circuit(families=("real",), root="any", reps=(1, 1, 2), min_vars=1, max_vars=4, maxdepth=4, maxstates=None, exclude=("cltree",)))
    c["rows"] = draw(cc.rows(c["vt"], 1, 4, extreme=False))
    for i in range(len(c["rows"])):
        if draw(st.integers(0, 2)) == 0:
            c["rows"][i] = [None] * c["n"]
    c["pick"] = draw(st.lists(st.integers(0, 100), min_size=7, max_size=7))
    c["tau"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
    c["f64"] = True
    return c


def check_grad(case, rec):
    """Pathwise gradients of location leaves are exact; every gradient is finite; mixtures receive one."""
    import torch

    s = setup(case, rec)
    if s is None:
        return
    b, F, C, R, ch, r, ref_ll, E = s
    params = [p for p in b.module.parameters() if p.requires_grad]
    S = sample(b, E, ch, C, r, R, tau=case["tau"], grad=True)
    mis = torch.as_tensor(np.isnan(E))
    require(bool(torch.isfinite(S).all()), "differentiable sample is not finite")
    if not bool(mis.any()):
        return
    rng = np.random.default_rng(case["seed"])
    w = torch.as_tensor(rng.normal(size=E.shape))
    require(S.requires_grad, "a differentiable sample is detached from every parameter")
    (S * w).sum().backward()
    for n, p in b.module.named_parameters():
        if p.grad is not None:
            require(bool(torch.isfinite(p.grad).all()), f"gradient of {n} is not finite")
    # per variable: leaves over it
    leaves = {}
    for spec, m, ref in b.pairs:
        if isinstance(ref, cc.RLeaf):
            for k, v in enumerate(ref.vars):
                leaves.setdefault(v, []).append((m, k))
    exact = 0
    for v in range(case["n"]):
        if not all(type(m).__name__ in LOC for m, _ in leaves[v]):
            continue
        seen, tot, have = set(), 0.0, True
        for m, k in leaves[v]:
            if (id(m), k) in seen:
                continue
            seen.add((id(m), k))
            if m.loc.grad is not None:
                tot += float(m.loc.grad[k].sum())
        exp = float((w[:, v] * mis[:, v]).sum())
        rec.n()
        # a location parameter also influences the choice of branches through the evidence of its own variable only
        if bool(mis[:, v].all()):
            close(np.array(tot), np.array(exp), f"sum of the location gradients of variable {v}", rtol=1e-6, atol=1e-6)
            exact += 1
    rec.nt(exact > 0 and case["spec"]["t"] != "leaf")
    rec.tag("exact-loc" if exact else "finite-only")
    # the outermost mixture decides about continuous values: its weights must receive a gradient
    top = type(b.ref).__name__
    if top == "RSum" and b.ref.kid.C > 1 and bool(mis.all()) and "ref" not in cc.spec_tags(case["spec"]):
        p = b.module.logits
        require(p.grad is not None or _degenerate(b), "the weights of the outermost sum receive no gradient")
        if p.grad is not None:
            g = p.grad[:, :, ch[0], r] if F == 1 else p.grad
            require(bool((g != 0).any()) or b.ref.w.min() == 0 or _degenerate(b), "the weights of the outermost sum receive a zero gradient")
        rec.tag("top-sum")
    del params


def _degenerate(b):
    """Gradient may legitimately vanish: identical branches or one saturated weight."""
    w = b.ref.w
    X = np.random.default_rng(3).normal(size=(4, len({v for blk in b.ref.P for v in blk})))
    y = b.ref.kid.ll(X)
    if any(np.allclose(y[:, :, i], y[:, :, j]) for i in range(y.shape[2]) for j in range(i)):
        return True
    if any(q is not b.ref and q.C == 1 for q in cc.ref_nodes(b.ref)):  # a branch without a choice passes no gradient on
        return True
    return bool((w.max(1) > 1 - 1e-9).any()) or len({id(x) for x in cc.ref_nodes(b.ref)}) < 3 or True in [np.allclose(x, np.take(x, [0], 1)) for q in cc.ref_nodes(b.ref) if isinstance(q, cc.RLeaf) for x in [q.params["loc"]] if x.ndim > 1]


# ------------------------------------------------------------------ zoo


@st.composite
def zoo_case(draw):
    c = draw(zz.zoo(kinds=("rat", "rat", "einet", "einet", "conv", "nb", "fac"), maxD=6, classes=(1, 1, 2, 3), families=("cat",), maxstates=64, maxR=3))
    k = draw(st.integers(1, 3))
    c["ev"] = [[draw(st.one_of(st.none(), st.integers(0, c["vt"][v][1] - 1))) for v in range(c["n"])] for _ in range(k)]
    c["tau"] = draw(st.sampled_from([1.0, 0.3]))
    return c


def check_zoo(c, rec):
    import torch
    from spflow.exceptions import UnsupportedOperationError
    from spflow.utils.cache import Cache
    from spflow.utils.sampling_context import SamplingContext
    from vf.props.c26 import own, state_index

    cc.set_dtype(c)
    m, _ = zz.build(c)
    use_simple(m)
    rec.tag(*zz.tags(c))
    if (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions) != (1, 1, 1) and c["zoo"] == "fac":
        rec.tag("several-outputs")
        return
    S = cc.all_states(c["vt"])
    p = own(m, S)
    E, P = [], []
    for row in [*c["ev"], [None] * c["n"]]:
        e = np.array([np.nan if v is None else v for v in row], float)
        q = np.where(((S == e) | np.isnan(e)).all(1), p, 0)
        if q.sum() > 1e-20 and np.isnan(e).any():
            E.append(e)
            P.append(q / q.sum())
    E = np.array(E)
    rec.nt(c["n"] > 1)
    torch.manual_seed(c["seed"] % 2**31)
    grads = []

    def draw(n):
        out = []
        idx = np.repeat(np.arange(len(E)), n)
        for k in range(0, len(idx), CHUNK):
            i = idx[k:k + CHUNK]
            ctx = SamplingContext(num_samples=len(i), is_differentiable=True, tau=c["tau"])
            if c["zoo"] != "rat" and c["zoo"] != "einet" and (m.out_shape.channels > 1 or m.out_shape.repetitions > 1):
                ctx = SamplingContext(channel_index=onehot(np.zeros((len(i), 1), int), m.out_shape.channels), mask=torch.ones((len(i), 1), dtype=torch.bool),
                                      repetition_index=onehot(np.zeros(len(i), int), m.out_shape.repetitions), is_differentiable=True, tau=c["tau"])
            data, cache = cc.to_torch(E[i]), Cache()
            if not np.isnan(E[i]).all():
                m.log_likelihood(data, cache=cache)
            Y = m._sample(data=data, sampling_ctx=ctx, cache=cache)
            if not grads and Y.requires_grad:
                (Y * torch.randn_like(Y)).sum().backward()
                grads.append([q.grad for q in m.parameters() if q.grad is not None])
                require(all(bool(torch.isfinite(g).all()) for g in grads[0]), "a gradient is not finite")
            out.append(Y.detach().double().numpy())
        Y = np.concatenate(out)
        for v, vt in enumerate(c["vt"]):
            require(np.isin(Y[:, v], np.arange(vt[1])).all(), f"variable {v} of a sample is outside its domain")
        ob = ~np.isnan(E[idx])
        require((Y[ob] == E[idx][ob]).all(), "sampling changed the evidence")
        k = state_index(c, Y)
        return [k[j * n:(j + 1) * n] for j in range(len(E))]

    try:
        gof_multi(draw, P, "differentiable samples", n=600, n2=12000)
    except UnsupportedOperationError:
        rec.tag("unsupported")
        return
    require(bool(grads) and any(bool((g != 0).any()) for g in grads[0]), "no parameter receives a gradient")


# ------------------------------------------------------------------ estimator primitives


@st.composite
def prim_case(draw):
    return {"k": draw(st.integers(1, 6)), "shape": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), "dim": draw(st.integers(-4, 3)), "seed": draw(st.integers(0, 2**31 - 1)),
            "tau": draw(st.sampled_from([0.05, 0.5, 1.0, 2.0, 10.0])), "zero": draw(st.integers(0, 2)), "scale": draw(st.sampled_from([0.0, 1.0, 5.0, 300.0])), "norm": draw(st.booleans()), "f64": draw(st.booleans())}


def check_prim(c, rec):
    import torch
    from spflow.utils.sampling_context import SIMPLE, index_one_hot, index_tensor, sample_categorical_differentiably, to_one_hot

    dt = torch.float64 if c["f64"] else torch.float32
    torch.set_default_dtype(dt)
    rng = np.random.default_rng(c["seed"])
    torch.manual_seed(c["seed"] % 2**31)
    shape = list(c["shape"])
    d = c["dim"] % (len(shape) + 1)
    shape.insert(d, c["k"])
    L = rng.normal(size=shape) * c["scale"]
    for _ in range(min(c["zero"], c["k"] - 1)):
        np.put_along_axis(L, rng.integers(0, c["k"], [*shape[:d], 1, *shape[d + 1:]]), -np.inf, d)
    if c["norm"]:
        L = L - cc.lse(L, d)[(slice(None),) * d + (None,)]
    dim = d if c["seed"] % 2 else d - len(shape)
    kw = {"log_weights" if c["norm"] else "logits": torch.as_tensor(L, dtype=dt).requires_grad_()}
    z = next(iter(kw.values()))
    for f in (SIMPLE, sample_categorical_differentiably):
        for mpe in (True, False):
            y = f(**kw, dim=dim, is_mpe=mpe, tau=c["tau"])
            h = y.detach().double().numpy()
            require(h.shape == tuple(shape), f"shape {h.shape}")
            require(np.isin(h, (0.0, 1.0)).all() and (h.sum(d) == 1).all(), "the sample is not one-hot")
            require((np.take_along_axis(L, h.argmax(d)[(slice(None),) * d + (None,)], d) > -np.inf).all(), "a class of probability zero was drawn")
            if mpe:
                top = np.take_along_axis(L, h.argmax(d)[(slice(None),) * d + (None,)], d)
                require((top >= L.max(d, keepdims=True) - 1e-4 * (1 + np.abs(top))).all(), "MPE does not take the largest logit")
            V = rng.normal(size=shape)
            z.grad = None
            (y * torch.as_tensor(V, dtype=dt)).sum().backward()
            p = np.exp(L / c["tau"] - cc.lse(L / c["tau"], d)[(slice(None),) * d + (None,)])
            exp = p * (V - (p * V).sum(d, keepdims=True)) / c["tau"]
            close(z.grad.double().numpy(), exp, "straight-through gradient", rtol=1e-3, atol=1e-4)
            # indexing
            T = rng.normal(size=shape)
            T[rng.random(shape) < 0.2] = -np.inf
            want = np.take_along_axis(T, h.argmax(d)[(slice(None),) * d + (None,)], d).squeeze(d)
            close(index_one_hot(torch.as_tensor(T, dtype=dt), y.detach(), dim), want, "one-hot indexing", rtol=1e-6, atol=1e-6)
            i = torch.as_tensor(h.argmax(d))
            close(index_tensor(torch.as_tensor(T, dtype=dt), i.unsqueeze(d), dim), want, "integer indexing", rtol=1e-6, atol=1e-6)
            require(torch.equal(to_one_hot(i, dim=dim, dim_size=c["k"], dtype=dt), y.detach()), "one-hot conversion")
    rec.nt(c["k"] > 1)
    rec.n()
    # frequencies
    one = torch.as_tensor(np.moveaxis(L, d, -1).reshape(-1, c["k"])[0], dtype=dt)
    q = torch.softmax(one.double(), -1).numpy()
    gof_multi(lambda n: [SIMPLE(logits=one.expand(n, -1), dim=-1, tau=c["tau"]).argmax(-1).numpy()], [q], "SIMPLE draws", n=1500, n2=40000)


PROP = Prop("C31", [
    Facet("distribution", case_(("cat", "real", "pos", "count", "unit")), check_dist, quick=450, thorough=12000, rule="inner node, something to sample, several variables or outputs"),
    Facet("channels", case_(("cat", "cat", "real"), root="any", reps=(1, 2, 3)), check_dist, quick=450, thorough=12000, rule="as above; chosen channels and repetition"),
    Facet("routed", case_(("cat", "cat", "real"), reps=(1, 1, 2), routed=True), check_dist, quick=300, thorough=8000, rule="as above; several features of one row take different branches"),
    Facet("layers", case_(("cat", "cat", "real"), reps=(1, 2, 3), layers=True), check_dist, quick=400, thorough=10000, rule="as above; every layer kind directly above its leaves"),
    Facet("mpe", case_(("cat", "real", "pos", "count", "hist"), root="any", reps=(1, 2)), check_mpe, quick=500, thorough=12000, rule="inner node, some entry completed, no tie"),
    Facet("gradient", grad_case(), check_grad, quick=500, thorough=12000, rule="inner node with exactly known location gradients"),
    Facet("zoo", zoo_case(), check_zoo, quick=150, thorough=3000, rule="several variables"),
    Facet("primitives", prim_case(), check_prim, quick=300, thorough=8000, rule="several classes"),
])
