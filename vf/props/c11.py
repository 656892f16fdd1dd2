"""C11: mixture weights are a valid normalized parameterization, whatever is written to a layer."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, HarnessError, Prop, close, require

KINDS = ["sum", "sumlist", "elemsum", "einsum", "einsum1", "linsum", "linsum1", "repmix", "sumconv"]
OPS = ["weights", "weights", "log", "logshift", "raw", "rawbig", "rawinplace", "eval", "train", "nograd", "state", "inference", "inference",
       "bad_zero", "bad_neg", "bad_scale", "bad_axis", "bad_shape", "bad_nan", "bad_one", "bad_logshape"]


@st.composite
def case_(draw):
    i = lambda lo, hi: draw(st.integers(lo, hi))
    k = draw(st.sampled_from(KINDS))
    c = {"kind": k, "F": i(1, 3), "I": i(1, 4), "J": i(1, 4), "O": i(1, 4), "n": i(2, 3), "R": i(1, 3), "k": i(1, 3),
         "seed": draw(st.integers(0, 2**31 - 1)), "f64": draw(st.booleans()),
         "ctor": draw(st.sampled_from(["none", "weights", "rank1", "rank2", "rank3", "list", "bad"])),
         "style": draw(st.sampled_from(["mild", "flat", "spiky", "extreme"])),
         "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=8))}
    return c


def axis(kind):
    """Mixing axes of the weight tensor, from the documented layouts."""
    return {"sum": (1,), "sumlist": (1,), "elemsum": (3,), "einsum": (3, 4), "einsum1": (3, 4), "linsum": (3,),
            "linsum1": (3,), "repmix": (2,), "sumconv": (1,)}[kind]


def shape(c):
    F, I, J, O, n, R, k = (c[x] for x in "FIJOnRk")
    return {"sum": (F, I, O, R), "sumlist": (F, I * n, O, R), "elemsum": (F, I, O, n, R), "einsum": (F, O, R, I, J),
            "einsum1": (F, O, R, I, I), "linsum": (F, O, R, I), "linsum1": (F, O, R, I), "repmix": (F, I, R),
            "sumconv": (O, I, k, k, R)}[c["kind"]]


def simplex(rng, shp, ax, style):
    if style == "extreme":
        g = np.exp(rng.uniform(-12, 0, size=shp))
    else:
        g = rng.gamma({"mild": 2.0, "flat": 20.0, "spiky": 0.25}[style], 1.0, size=shp) + 1e-4
    return g / g.sum(axis=ax, keepdims=True)


def inputs(c, rng, t):
    from spflow.modules.leaves import Normal

    F, I, J, R = c["F"], c["I"], c["J"], c["R"]

    def leaf(scope, C):
        s = (len(scope), C, R)
        loc, sc = rng.normal(size=s), rng.uniform(0.5, 2, size=s)
        return Normal(scope=list(scope), loc=t(loc), scale=t(sc)), cc.RLeaf("Normal", list(scope), C, R, {"loc": loc, "scale": sc})

    if c["kind"] == "sumconv":
        F = 36
    k = c["kind"]
    if k in ("sum", "repmix", "sumconv"):
        return [leaf(range(F), I)]
    if k == "sumlist":
        return [leaf(range(F), I) for _ in range(c["n"])]
    if k == "elemsum":
        return [leaf(range(F), I) for _ in range(c["n"])]
    if k in ("einsum1", "linsum1"):
        return [leaf(range(2 * F), I)]
    return [leaf(range(F), I), leaf(range(F, 2 * F), J if k == "einsum" else I)]


def construct(c, mods, w):
    from spflow.modules.conv.sum_conv import SumConv
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.sums import ElementwiseSum, RepetitionMixingLayer, Sum

    k = c["kind"]
    if k in ("sum", "sumlist"):
        if w is None:
            return Sum(mods if k == "sumlist" else mods[0], out_channels=c["O"], num_repetitions=c["R"])
        return Sum(mods if k == "sumlist" else mods[0], weights=w)
    if k == "elemsum":
        if w is None:
            return ElementwiseSum(mods, out_channels=c["O"], num_repetitions=c["R"])
        return ElementwiseSum(mods, weights=w)
    if k == "repmix":
        return RepetitionMixingLayer(mods[0], weights=w) if w is not None else \
            RepetitionMixingLayer(mods[0], out_channels=c["I"], num_repetitions=c["R"])
    if k == "sumconv":
        return SumConv(mods[0], out_channels=c["O"], kernel_size=c["k"], num_repetitions=c["R"])
    cls = EinsumLayer if k.startswith("einsum") else LinsumLayer
    return cls(mods[0] if k.endswith("1") else mods, out_channels=c["O"], weights=w)


def reference(c, refs, w):
    k = c["kind"]
    if k in ("sum", "sumlist"):
        return cc.RSum(refs[0] if len(refs) == 1 else cc.RCat(refs, 2), w)
    if k == "elemsum":
        return cc.RElemSum(refs, w)
    if k == "repmix":
        return cc.RRepMix(refs[0], w)
    if k == "sumconv":
        return cc.RSumConv(refs[0], w)
    l, r = refs if len(refs) == 2 else [cc.RView(refs[0], g) for g in cc.split_groups(2 * c["F"], "consecutive", 2)]
    return cc.REinsum(l, r, w) if k.startswith("einsum") else cc.RLinsum(l, r, w)


def check(case, rec):
    import torch

    c = dict(case)
    if c["kind"] == "repmix":
        c["R"] = max(c["R"], 2)
    cc.set_dtype(c)
    eps = 1e-9 if c["f64"] else 2e-5
    tol = {"rtol": 1e-7, "atol": 1e-9} if c["f64"] else {"rtol": 1e-4, "atol": 2e-6}
    t = lambda a: torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())
    rng = np.random.default_rng(c["seed"])
    torch.manual_seed(c["seed"])
    pairs = inputs(c, rng, t)
    mods, refs = [p[0] for p in pairs], [p[1] for p in pairs]
    shp, ax = shape(c), axis(c["kind"])
    rec.tag(c["kind"])
    name = c["kind"]
    new = lambda: simplex(rng, shp, ax, c["style"])
    X = rng.normal(size=(2, 36 if name == "sumconv" else 2 * c["F"]))

    # construction
    ctor, w, given = c["ctor"], None, None
    low = {"rank1": 1, "rank2": 2, "rank3": 3, "list": 1}
    if name == "sumconv":
        ctor = "none"
    if ctor in low and (name not in ("sum", "sumlist", "repmix") or low[ctor] > len(shp)):
        ctor = "weights"
    if ctor in low:
        # lower-rank weights stand for layers with one feature (and one output channel / repetition)
        if name == "repmix":
            # (channels,), (channels, repetitions), (features, channels, repetitions)
            c["F"] = 1
            if low[ctor] == 1:
                ctor = "weights"  # a single repetition: nothing is mixed
        else:
            if low[ctor] <= 2:
                c["F"] = 1
            if low[ctor] <= 1:
                c["O"] = 1
            c["R"] = 1
        pairs = inputs(c, rng, t)
        mods, refs = [p[0] for p in pairs], [p[1] for p in pairs]
        shp = shape(c)
        X = rng.normal(size=(2, 2 * c["F"]))
    w = new()
    if ctor == "bad":
        neg = w.copy()
        neg[tuple(np.unravel_index(rng.integers(w.size), shp))] *= -1
        for bad in (w * 1.01, neg, np.concatenate([w, w], 0)):
            try:
                construct(c, mods, t(bad))
            except Exception:  # noqa: BLE001
                pass
            else:
                require(False, f"{name}: construction accepted weights that are negative, unnormalized or wrongly shaped")
        ctor = "weights"
    if ctor == "none":
        layer = construct(c, mods, None)
        expect = layer.weights.detach().double().numpy()
    else:
        arg = w
        if ctor in low and name in ("sum", "sumlist"):
            arg = {1: w[0, :, 0, 0], 2: w[0, :, :, 0], 3: w[:, :, :, 0]}[low[ctor]]
        elif ctor in low:
            arg = w[0] if low[ctor] == 2 else w
        layer = construct(c, mods, [float(v) for v in arg] if ctor == "list" and name in ("sum", "sumlist") else t(arg))
        expect = w
    rec.tag("ctor:" + ctor)

    def verify(when):
        W, L = layer.weights, layer.log_weights
        require(tuple(W.shape) == shp, f"{name} {when}: weights have shape {tuple(W.shape)}, expected {shp}")
        require(tuple(L.shape) == shp, f"{name} {when}: log weights have shape {tuple(L.shape)}")
        Wn = W.detach().double().numpy()
        require(np.isfinite(Wn).all() and (Wn >= 0).all(), f"{name} {when}: weights not non-negative and finite")
        require(np.abs(Wn.sum(axis=ax) - 1).max() < max(eps, 1e-5 if not c["f64"] else 0), f"{name} {when}: weights do not "
                f"sum to one over the mixed inputs (worst {Wn.sum(axis=ax).ravel()[np.abs(Wn.sum(axis=ax) - 1).argmax()]})")
        close(np.exp(L.detach().double().numpy()), Wn, f"{name} {when}: log weights against weights", **tol)
        close(Wn, expect, f"{name} {when}: weights", **tol)
        ref = reference(c, refs, np.maximum(expect, 1e-300))
        close(layer.log_likelihood(t(X)), ref.ll(X if c["f64"] else X.astype(np.float32).astype(float)),
              f"{name} {when}: mixture with these weights", rtol=1e-6 if c["f64"] else 2e-4, atol=1e-6 if c["f64"] else 2e-4)
        rec.n()

    verify("after construction")
    n_in = int(np.prod([shp[a] for a in ax]))
    for op in c["ops"]:
        if op in ("log", "logshift", "bad_logshape") and name == "sumconv":
            continue  # no log_weights setter
        if op == "weights":
            w = new()
            g = t(w)
            layer.weights = g
            g.zero_()  # the caller's tensor is the caller's
            expect = w
        elif op == "log":
            w = new()
            layer.log_weights = t(np.log(w))
            expect = w
        elif op == "logshift":
            # unnormalized log weights: only the differences matter
            w = new()
            sh = [1 if a in ax else s for a, s in enumerate(shp)]
            layer.log_weights = t(np.log(w) + rng.uniform(-3, 3, size=sh))
            expect = w
        elif op in ("raw", "rawbig", "rawinplace"):
            z = rng.normal(size=shp) * (200 if op == "rawbig" else 2)
            if not c["f64"]:
                z = z.astype(np.float32).astype(float)
            with torch.no_grad():
                if op == "rawinplace":
                    layer.logits.copy_(t(z))
                else:
                    layer.logits.data = t(z)
            e = np.exp(z - z.max(axis=ax, keepdims=True))
            expect = e / e.sum(axis=ax, keepdims=True)
        elif op == "inference":
            layer.eval()
            torch.set_grad_enabled(False)
        elif op == "eval":
            layer.eval()
        elif op == "train":
            layer.train()
        elif op == "nograd":
            torch.set_grad_enabled(not torch.is_grad_enabled())
        elif op == "state":
            sd = {k: v.clone() for k, v in layer.state_dict().items()}
            w = new()
            layer.weights = t(w)
            layer.log_likelihood(t(X))
            layer.load_state_dict(sd)
        else:
            w = new()
            if op == "bad_zero":
                if n_in == 1:
                    continue
                w[np.unravel_index(rng.integers(w.size), shp)] = 0.0
                w = w / w.sum(axis=ax, keepdims=True)
            elif op == "bad_neg":
                if n_in == 1:
                    w = -w
                else:
                    i = list(np.unravel_index(rng.integers(w.size), shp))
                    j = list(i)
                    a = ax[-1] if shp[ax[-1]] > 1 else ax[0]
                    j[a] = (i[a] + 1) % shp[a]
                    w[tuple(j)] += w[tuple(i)] + 0.3
                    w[tuple(i)] = -0.3  # still sums to one
            elif op == "bad_scale":
                w = w * rng.choice([0.5, 0.99, 1.01, 2.0])
            elif op == "bad_one":
                i = np.unravel_index(rng.integers(w.size), shp)
                w[i] += 0.01
            elif op == "bad_axis":
                others = [a for a in range(len(shp)) if a not in ax]
                w = np.ones(shp)
                a = others[rng.integers(len(others))]
                w = w / shp[a]
                if np.allclose(w.sum(axis=ax), 1.0, rtol=1e-3):
                    continue
            elif op == "bad_shape":
                a = int(rng.integers(len(shp)))
                w = np.concatenate([w, np.take(w, [0], axis=a)], axis=a)
                w = w / w.sum(axis=ax, keepdims=True)
            elif op == "bad_nan":
                w[np.unravel_index(rng.integers(w.size), shp)] = np.nan
            attr = "weights"
            if op == "bad_logshape":
                attr, w = "log_weights", np.log(np.concatenate([w, w], axis=len(shp) - 1))
            before = layer.logits.detach().clone()
            try:
                setattr(layer, attr, t(w))
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (HarnessError, NameError)):
                    raise
            else:
                require(False, f"{name}: weights accepted although invalid ({op})")
            require(torch.equal(before, layer.logits.detach()), f"{name}: a rejected assignment ({op}) changed the layer")
        rec.tag("op:" + op)
        verify(f"after {op}")
    rec.nt(n_in > 1 and any(o.startswith(("bad", "raw", "weights", "log")) for o in c["ops"]))


PROP = Prop("C11", [
    Facet("layers", case_(), check, quick=6000, thorough=150000,
          rule="history of valid/invalid writes on one mixing layer; non-trivial: more than one mixed input and a write"),
])
