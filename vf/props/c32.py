"""C32: wrapping a circuit for images only reshapes."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, raises, require

SHAPES = {k: [(c, h, w) for c in range(1, k + 1) for h in range(1, k + 1) for w in range(1, k + 1) if c * h * w == k] for k in range(1, 17)}
CORE = ("cat1", "sum", "product", "share")


@st.composite
def image_case(draw, marg=False):
    if not marg and draw(st.integers(0, 3)) == 0:
        c = draw(zz.zoo(maxD=8, classes=(1, 1, 2), families=("cat", "real", "count"), maxstates=None))
    else:
        n = draw(st.sampled_from([2, 3, 4, 4, 4, 6, 6, 6, 8, 8] if marg else [1, 2, 3, 4, 6, 6, 8]))
        c = draw(cc.circuit(families=("cat", "real", "count", "pos"), root=draw(st.sampled_from(["single", "chan", "any"])) if marg else draw(st.sampled_from(["single", "any"])),
                            reps=(1, 1, 2), min_vars=n, max_vars=n, maxdepth=3, maxstates=None, **({"nodes": CORE} if marg else {})))
    c["shape"] = list(draw(st.sampled_from(SHAPES[c["n"]])))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=1, max_rows=4))
    c["f64"] = True
    c["rng"] = draw(st.integers(0, 10**6))
    c["layout"] = draw(st.sampled_from(["plain", "plain", "channels_last", "strided"]))
    if marg:
        c["margs"] = [[draw(st.lists(st.integers(0, 7), max_size=min(2, s - 1) if s < 4 else 2)) for s in c["shape"]] for _ in range(draw(st.sampled_from([1, 1, 2])))]
        c["prune"] = draw(st.booleans())
    return c


def build(c):
    if "zoo" in c:
        m = zz.build(c)[0]
        return m, None
    b = cc.build(c)
    return b.module, b.ref


def image(T, c, shape=None):
    import torch

    x = T.reshape(len(T), *(shape or c["shape"])).clone()
    if c["layout"] == "channels_last":
        return x.to(memory_format=torch.channels_last)
    if c["layout"] == "strided":
        y = torch.full((*x.shape[:-1], 2 * x.shape[-1]), 3.0, dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    return x


def outcome(f, seed):
    """Result of a sampling call, or the type of the exception when this circuit cannot be sampled."""
    import torch

    torch.manual_seed(seed)
    try:
        with torch.no_grad():
            return f()
    except Exception as e:  # noqa: BLE001 - compared with the wrapped circuit's own exception
        return type(e).__name__


def same(a, b, what, shape):
    import torch

    if isinstance(a, str) or isinstance(b, str):
        require(isinstance(a, str) and isinstance(b, str) and a == b, f"{what}: wrapper gives {a if isinstance(a, str) else 'a result'}, circuit {b if isinstance(b, str) else 'a result'}")
        return False
    require(tuple(a.shape) == (len(b), *shape), f"{what}: shape {tuple(a.shape)}, expected {(len(b), *shape)}")
    require(torch.equal(torch.nan_to_num(a.flatten(1), nan=-9e9), torch.nan_to_num(b, nan=-9e9)), f"{what}: the wrapper's result differs from the circuit's")
    return True


def check_wrap(c, rec):
    import torch
    from spflow.exceptions import ShapeError, StructureError
    from spflow.modules.wrapper.image_wrapper import ImageWrapper

    cc.set_dtype(c)
    m, ref = build(c)
    C, H, W = c["shape"]
    w = ImageWrapper(m, num_channel=C, height=H, width=W)
    X = cc.to_np(c["rows"])
    T = cc.to_torch(X)
    rec.tag("zoo" if "zoo" in c else "circuit", f"{C}x{H}x{W}", c["layout"])
    rec.nt(C * H * W > 2 and (C > 1) + (H > 1) + (W > 1) > 1)
    rec.n(len(X))
    # pixel positions, both directions
    I = image(T, c)
    for b in range(len(X)):
        for j, (a, h, x) in enumerate(np.ndindex(C, H, W)):
            v = float(I[b, a, h, x])
            require(v == X[b, j] or (math.isnan(v) and math.isnan(X[b, j])), "harness")
    flat = w.flatten(I)
    require(torch.equal(torch.nan_to_num(flat, nan=-7), torch.nan_to_num(T, nan=-7)), "flatten does not keep pixel positions")
    require(torch.equal(torch.nan_to_num(w.to_image_format(T), nan=-7), torch.nan_to_num(I, nan=-7)), "to_image_format does not keep pixel positions")
    require(torch.equal(torch.nan_to_num(w.to_image_format(T[0], batch=False), nan=-7), torch.nan_to_num(I[0], nan=-7)), "to_image_format of one image")
    with torch.no_grad():
        ll = w.log_likelihood(I)
        inner = m.log_likelihood(T.clone())
    close(ll, inner, "wrapped log-likelihood", rtol=0, atol=0)
    if ref is not None:
        close(ll, ref.ll(X), "wrapped log-likelihood vs reference", **cc.tol(c))
    require(w.scope == m.scope and tuple(w.out_shape) == tuple(m.out_shape), "scope or shape of the wrapper differs")
    # sampling
    s = c["rng"]
    k = 0
    k += same(outcome(lambda: w.sample(num_samples=3), s), outcome(lambda: m.sample(num_samples=3), s), "sample(num_samples)", (C, H, W))
    k += same(outcome(lambda: w.sample(data=image(T, c)), s), outcome(lambda: m.sample(data=T.clone()), s), "sample(data)", (C, H, W))
    k += same(outcome(lambda: w.mpe(data=image(T, c)), s), outcome(lambda: m.mpe(data=T.clone()), s), "mpe(data)", (C, H, W))
    k += same(outcome(lambda: w.mpe(num_samples=2), s), outcome(lambda: m.mpe(num_samples=2), s), "mpe(num_samples)", (C, H, W))
    k += same(outcome(lambda: w.sample_with_evidence(image(T, c)), s), outcome(lambda: m.sample_with_evidence(T.clone()), s), "sample_with_evidence", (C, H, W))
    rec.tag("sampled" if k else "not-sampled")
    # wrong shapes
    raises(lambda: w.log_likelihood(T), "2-D data", ShapeError)
    raises(lambda: w.log_likelihood(torch.zeros(2, C, H, W + 1)), "wide image", ShapeError)
    raises(lambda: w.log_likelihood(torch.zeros(2, C + 1, H, W)), "image with another channel", ShapeError)
    if H != W:
        raises(lambda: w.log_likelihood(torch.zeros(2, C, W, H)), "transposed image", ShapeError)
    raises(lambda: ImageWrapper(m, num_channel=C, height=H, width=W + 1), "wrapper of another size", StructureError)


def check_marg(c, rec):
    import torch
    from spflow.modules.wrapper.image_wrapper import ImageWrapper, MarginalizationContext

    cc.set_dtype(c)
    m, ref = build(c)
    w = ImageWrapper(m, num_channel=c["shape"][0], height=c["shape"][1], width=c["shape"][2])
    X = cc.to_np(c["rows"])
    pix = np.arange(c["n"]).reshape(c["shape"])
    rec.n(len(X))
    for rnd, ms in enumerate(c["margs"]):
        ids = [sorted({i % s for i in ids})[: s - 1 + (s == 1 and pix.size == 1)] for ids, s in zip(ms, pix.shape)]
        ctx = MarginalizationContext(c=ids[0] or None, h=ids[1] or None, w=ids[2] or None)
        new = pix
        for ax, i in enumerate(ids):
            new = np.delete(new, i, ax)
        w2 = w.marginalize(ctx, prune=c["prune"])
        if new.size == 0:
            require(w2 is None, "marginalizing every pixel must return None")
            rec.tag("empty")
            return
        require(w2 is not None, "marginalizing some pixels returned None")
        require((w2.num_channel, w2.height, w2.width) == new.shape, f"image size {(w2.num_channel, w2.height, w2.width)}, expected {new.shape}")
        require(set(w2.scope.query) == set(new.ravel().tolist()), f"scope {w2.scope.query}, expected {sorted(new.ravel())}")
        rec.nt(0 < new.size < pix.size and new.size > 1)
        rec.tag(f"round{rnd}", *("chw"[a] for a in range(3) if ids[a]))
        w, pix = w2, new
    v = pix.ravel()
    Xm = np.full_like(X, np.nan)
    Xm[:, v] = X[:, v]
    P = ref.P
    keep = [i for i, p in enumerate(P) if set(p) & set(v.tolist())]
    exp = ref.ll(Xm)[:, keep]
    I = image(cc.to_torch(X[:, v]), c, pix.shape)
    with torch.no_grad():
        close(w.log_likelihood(I), exp, "log-likelihood of the remaining image", **cc.tol(c))
    # samples: complete images that keep the observed pixels
    if ref.P and len(ref.P) == 1 and w.out_shape.repetitions == 1:
        s = outcome(lambda: w.sample(data=image(cc.to_torch(X[:, v]), c, pix.shape)), c["rng"])
        require(not isinstance(s, str), f"sampling the remaining image raised {s}")
        o = torch.isfinite(I)
        require(s.shape == I.shape and bool(torch.isfinite(s).all()), "samples of the remaining image are incomplete")
        require(bool((s[o] == I[o]).all()), "samples of the remaining image change observed pixels")
        k = outcome(lambda: w.sample(num_samples=4), c["rng"])
        require(not isinstance(k, str), f"sampling the remaining image raised {k}")
        require(tuple(k.shape) == (4, *pix.shape) and bool(torch.isfinite(k).all()), "samples of the remaining image are incomplete")
        with torch.no_grad():
            L = w.log_likelihood(k)[:, 0, 0, 0]
        require(bool((L > -np.inf).all()), "a sample of the remaining image has probability zero (pixels mixed up)")
        vt = [c["vt"][j] for j in v]
        K = k.flatten(1).numpy()
        for j, t in enumerate(vt):
            if t[0] == "cat":
                require(bool(np.isin(K[:, j], np.arange(t[1])).all()), f"pixel {j} of a sample is outside its support")


def check_em(c, rec):
    """EM and gradients through the wrapper equal those of the wrapped circuit."""
    import torch
    from spflow.learn.expectation_maximization import expectation_maximization
    from spflow.modules.wrapper.image_wrapper import ImageWrapper

    cc.set_dtype(c)
    a, _ = build(c)
    b, _ = build(c)
    C, H, W = c["shape"]
    w = ImageWrapper(a, num_channel=C, height=H, width=W)
    T = cc.to_torch(cc.to_np(c["rows"]))
    rec.tag(f"{C}x{H}x{W}")
    try:
        hb = expectation_maximization(b, T.clone(), max_steps=2, bias_correction=False)
    except Exception as e:  # noqa: BLE001 - circuit without EM: the wrapper must agree
        raises(lambda: expectation_maximization(w, image(T, c), max_steps=2, bias_correction=False), "EM of a wrapped circuit without EM", type(e))
        rec.tag(type(e).__name__)
        return
    ha = expectation_maximization(w, image(T, c), max_steps=2, bias_correction=False)
    rec.nt(len(T) > 1 and C * H * W > 2)
    rec.n()
    close(torch.as_tensor(ha), torch.as_tensor(hb), "EM history of the wrapped circuit", rtol=0, atol=0)
    for (k, x), y in zip(a.state_dict().items(), b.state_dict().values()):
        require(torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)), f"EM through the wrapper gives another {k}")


@st.composite
def em_case(draw):
    n = draw(st.sampled_from([2, 4, 4, 6]))
    c = draw(cc.circuit(families=("cat", "real", "count"), root="single", reps=(1,), min_vars=n, max_vars=n, maxdepth=3, maxstates=None, exclude=("cltree",)))
    c["shape"] = list(draw(st.sampled_from(SHAPES[n])))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=2, max_rows=5, missing=False))
    c["f64"] = True
    c["layout"] = draw(st.sampled_from(["plain", "channels_last", "strided"]))
    return c


PROP = Prop("C32", [
    Facet("wrap", image_case(), check_wrap, quick=600, thorough=15000, rule="more than two pixels along at least two axes"),
    Facet("marginalize", image_case(marg=True), check_marg, quick=700, thorough=15000, rule="some but not all pixels removed, several left"),
    Facet("training", em_case(), check_em, quick=200, thorough=4000, rule="more than two pixels and more than one row"),
])
