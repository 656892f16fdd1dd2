"""C27: saving, loading and copying preserve the model and separate it from its source."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require

OPS = ["deepcopy", "pickle", "file", "state", "torchfile", "load", "mutate", "ll", "lltrain", "sample", "mode", "grad"]
COPY = ["deepcopy", "pickle", "file", "state", "torchfile"]


def ops():
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 5))
    return st.tuples(st.lists(op, min_size=1, max_size=5), st.tuples(st.sampled_from(COPY), st.integers(0, 5), st.integers(0, 5)),
                     st.lists(op, min_size=0, max_size=4)).map(lambda t: [list(o) for o in [*t[0], t[1], *t[2]]])


@st.composite
def circ_case(draw):
    c = draw(cc.circuit(families=("cat", "real", "count", "pos", "unit", "hist"), root=draw(st.sampled_from(["single", "any"])), reps=(1, 1, 2), min_vars=1, max_vars=5,
                        maxdepth=4, maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=2, max_rows=4))
    c["ops"] = draw(ops())
    c["f64"] = True
    return c


@st.composite
def zoo_case(draw):
    c = draw(zz.zoo(maxD=6, classes=(1, 1, 2, 3), families=("cat", "real", "count", "pos"), maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=2, max_rows=4))
    c["ops"] = draw(ops())
    c["f64"] = True
    return c


def build(c, seed=None):
    d = c if seed is None else {**c, "seed": seed}
    return zz.build(d)[0] if "zoo" in c else cc.build(d).module


def evaluate(m, T):
    import torch

    with torch.no_grad():
        return cc.to_np(m.log_likelihood(T.clone()))


def draws(m, seed):
    """A few samples for a seed; (type, message) when sampling this circuit is rejected."""
    import torch

    torch.manual_seed(seed)
    np.random.seed(seed)
    try:
        with torch.no_grad():
            return cc.to_np(m.sample(num_samples=5))
    except Exception as e:  # noqa: BLE001 - equality of behaviour is compared
        return type(e).__name__


def fresh(c, src):
    """A newly built model of the same architecture with other parameters, restored from the parameters of src."""
    sd = {k: v.clone() for k, v in src.state_dict().items()}
    n = build(c, (c["seed"] + 12345) % 2**31)
    if [(k, v.shape) for k, v in n.state_dict().items()] != [(k, v.shape) for k, v in sd.items()]:
        n = build(c)  # parameter shapes depend on the seed (e.g. number of histogram bins)
        perturb(n, 999)
    return n, sd


def perturb(m, seed):
    import torch

    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in m.parameters():
            if p.is_floating_point():
                p.add_(0.3 * torch.randn(p.shape, generator=g, dtype=p.dtype))


def check(c, rec):
    import torch

    cc.set_dtype(c)
    m = build(c)
    T = cc.to_torch(cc.to_np(c["rows"]))
    rec.tag(*(zz.tags(c) if "zoo" in c else cc.spec_tags(c["spec"])), *[o[0] for o in c["ops"]])
    rec.nt(any(o[0] in ("mutate", "load") for o in c["ops"]) or len(c["ops"]) > 3)
    models, want = [m], [evaluate(m, T)]
    keep = []

    def verify(what):
        for i, (x, w) in enumerate(zip(models, want)):
            close(evaluate(x, T), w, f"{what}: log-likelihood of model {i}", rtol=1e-9, atol=1e-9)

    for k, (op, i, j) in enumerate(c["ops"]):
        i %= len(models)
        src = models[i]
        what = f"step {k} ({op} of model {i})"
        if op in COPY:
            if op == "deepcopy":
                new = copy.deepcopy(src)
            elif op == "pickle":
                new = pickle.loads(pickle.dumps(src))
            elif op == "file":
                from spflow.utils.model_manager import load_model, save_model

                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, "m.pkl")
                    if j % 2:
                        with open(p, "wb") as f:  # an older, longer file is overwritten
                            f.write(b"x" * 100000)
                    save_model(src, p)
                    new = load_model(p)
            elif op == "torchfile":
                buf = io.BytesIO()
                torch.save(src, buf)
                buf.seek(0)
                new = torch.load(buf, weights_only=False)
            else:
                new, sd = fresh(c, src)
                if j % 2:
                    evaluate(new, T)  # the target has been used before
                new.load_state_dict(sd)
                new.train(src.training)
            require(new.training == src.training, f"{what}: training mode changed")
            close(evaluate(new, T), want[i], f"{what}: log-likelihood of the copy", rtol=1e-9, atol=1e-9)
            a, b = draws(src, 11 + k), draws(new, 11 + k)
            same = a == b if isinstance(a, str) or isinstance(b, str) else np.array_equal(a, b, equal_nan=True)
            require(same, f"{what}: the copy draws other samples for the same seed")
            require([n for n, _ in new.named_parameters()] == [n for n, _ in src.named_parameters()], f"{what}: parameters of the copy")
            ids = {p.data_ptr() for p in src.parameters() if p.numel()}
            require(not any(p.data_ptr() in ids for p in new.parameters() if p.numel()), f"{what}: the copy shares parameter memory")
            require(str(new.scope) == str(src.scope) and new.out_shape == src.out_shape, f"{what}: scope or shape of the copy")
            models.append(new)
            want.append(want[i])
            rec.n(1)
        elif op == "load":
            t = models[j % len(models)]
            t.load_state_dict({n: v.clone() for n, v in src.state_dict().items()})
            want[j % len(models)] = want[i]
        elif op == "mutate":
            perturb(src, 100 + k)
            want[i] = evaluate(src, T)
        elif op == "ll":
            src.eval()
            evaluate(src, T)
        elif op == "lltrain":
            src.train()
            keep.append(src.log_likelihood(T.clone()))  # graph stays alive
        elif op == "grad":
            ll = src.log_likelihood(T.clone())
            ll = ll[torch.isfinite(ll)]
            if ll.requires_grad and ll.numel():
                ll.sum().backward()
            for p in src.parameters():
                p.grad = None
        elif op == "sample":
            draws(src, 5)
        elif op == "mode":
            src.train(bool(j % 2))
        verify(what)


PROP = Prop("C27", [
    Facet("circuits", circ_case(), check, quick=500, thorough=12000, rule="history with a change or load, or more than three steps"),
    Facet("models", zoo_case(), check, quick=350, thorough=8000, rule="history with a change or load, or more than three steps"),
])
