"""C17: gradients of the log-likelihood are exact and finite; gradient training is what it says."""
import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require
from vf.props.c16 import AXES, flows

FAMS = ("cat", "cat", "count", "real", "pos", "hist")
SMOOTH = {"Normal", "Laplace", "LogNormal", "Exponential", "Gamma"}


@st.composite
def grad_case(draw, sharp=False, families=FAMS, extreme=False):
    c = draw(cc.circuit(families=families, max_vars=5, maxdepth=4, root=draw(st.sampled_from(["single", "chan", "any"])), reps=(1, 1, 2),
                        maxstates=64))
    if sharp:
        c["style"] = "sharp"
    c["f64"] = True
    c["rows"] = draw(cc.rows(c["vt"], max_rows=4, extreme=extreme))
    c["mode"] = draw(st.sampled_from(["train", "eval"]))
    return c


@st.composite
def wide_case(draw):
    c = draw(cc.wide_circuit(single=draw(st.booleans())))
    c["f64"] = True
    c["rows"] = draw(cc.rows(c["vt"], max_rows=3))
    c["mode"] = draw(st.sampled_from(["train", "eval"]))
    return c


def objective(m, T, A, fin):
    ll = m.log_likelihood(T)
    return (ll[fin] * A[fin]).sum()


def setup(case):
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    b.module.train(case["mode"] == "train")
    X = cc.to_np(case["rows"])
    y = b.ref.ll(X)
    rng = np.random.default_rng(case["seed"] ^ 77)
    A = rng.normal(size=y.shape)
    fin = torch.as_tensor(np.isfinite(y))
    return b, X, cc.to_torch(X), y, A, cc.to_torch(A), fin, rng


def check_params(case, rec):
    import torch

    b, X, T, y, A, TA, fin, rng = setup(case)
    rec.tag(*cc.spec_tags(case["spec"]), "missing" if np.isnan(X).any() else "complete")
    if not fin.any():
        return
    params = [(n, p) for n, p in b.module.named_parameters() if p.requires_grad]
    if not params:
        return
    f = objective(b.module, T, TA, fin)
    grads = torch.autograd.grad(f, [p for _, p in params], allow_unused=True)
    g = {n: None if q is None else q.detach() for (n, _), q in zip(params, grads)}
    for n, q in g.items():
        require(q is None or torch.isfinite(q).all(), f"gradient of {n} is not finite: {q.flatten()[:6].tolist()}")
    rec.nt(sum(q is not None and bool((q != 0).any()) for q in g.values()) > 1)
    rec.n(len(params))
    # mixture weights: exact gradient from the posterior flows
    root = np.where(np.isfinite(y), A, 0.0)
    mods = {id(r): m for s, m, r in b.pairs}
    names = {id(p): n for n, p in params}
    for node, flow, counts in flows(b.ref, X, root):
        m = mods.get(id(node))
        own = [] if m is None or counts is None else [p for p in m.parameters(recurse=False)]
        if len(own) != 1 or own[0].shape != counts.shape:
            continue
        ax = AXES[type(node)]
        e = counts - node.w * counts.sum(ax, keepdims=True)
        q = g[names[id(own[0])]]
        sc = 1 + np.abs(counts).max()
        close(np.zeros(e.shape) if q is None else q, e, f"gradient of the weights of {type(m).__name__}", rtol=1e-6, atol=1e-7 * sc)
    # every parameter: numerical directional derivative
    if not np.isfinite(y).all():
        return
    for n, p in params:
        d = torch.as_tensor(rng.normal(size=p.shape))
        if not torch.isfinite(p).all():
            continue
        h, keep = 1e-5, p.detach().clone()
        vals = []
        with torch.no_grad():
            for s in (h, -h, 2 * h, -2 * h):
                p.data = keep + s * d
                vals.append(float(objective(b.module, T, TA, fin)))
            p.data = keep
        num, num2 = (vals[0] - vals[1]) / (2 * h), (vals[2] - vals[3]) / (4 * h)
        noise = 1e-13 * (1 + np.abs(np.where(np.isfinite(y), A * y, 0)).sum()) / h
        if not abs(num - num2) < 1e-5 * (1 + abs(num)) + 10 * noise:
            rec.tag("not smooth")
            continue  # kink of |x - loc| within the step
        got = 0.0 if g[n] is None else float((g[n] * d).sum())
        require(abs(got - num) <= 1e-4 * (1 + abs(num)) + 10 * noise,
                f"derivative along a random direction of {n}: automatic {got!r}, numerical {num!r}")


def check_evidence(case, rec):
    import torch

    b, X, T, y, A, TA, fin, rng = setup(case)
    rec.tag(*cc.spec_tags(case["spec"]), "missing" if np.isnan(X).any() else "complete")
    if not fin.any():
        return
    T.requires_grad_(True)
    f = objective(b.module, T, TA, fin)
    if not f.requires_grad:
        return
    (q,) = torch.autograd.grad(f, [T], allow_unused=True)
    q = np.zeros_like(X) if q is None else q.detach().numpy()
    cont = np.array([v[0] in ("real", "pos") for v in case["vt"]])
    require(np.isfinite(q[:, cont]).all(), f"gradient with respect to the evidence is not finite: {q.tolist()}")
    miss = np.isnan(X)
    require((q[miss & cont[None]] == 0).all(), "a missing entry has a non-zero gradient")
    rec.nt(bool((q[:, cont] != 0).any()) and len(X) > 1)
    n = 0
    for i, j in zip(*np.nonzero(~miss & cont[None])):
        if not np.isfinite(y[i]).all():
            continue
        h = 1e-6
        v = []
        for s in (h, -h, 2 * h, -2 * h):
            Z = X.copy()
            Z[i, j] += s
            v.append(float((b.ref.ll(Z)[i] * A[i]).sum()))
        num, num2 = (v[0] - v[1]) / (2 * h), (v[2] - v[3]) / (4 * h)
        noise = 1e-13 * (1 + np.abs(A[i] * y[i]).sum()) / h
        if not abs(num - num2) < 1e-4 * (1 + abs(num)) + 10 * noise:
            continue
        n += 1
        require(abs(q[i, j] - num) <= 1e-4 * (1 + abs(num)) + 10 * noise,
                f"derivative with respect to entry ({i}, {j}): automatic {q[i, j]!r}, numerical {num!r}")
    rec.n(n)


@st.composite
def train_case(draw):
    c = draw(cc.circuit(families=("cat", "real", "count"), max_vars=4, maxdepth=3, root=draw(st.sampled_from(["single", "any"])), maxstates=64))
    c["f64"] = True
    c["rows"] = draw(cc.rows(c["vt"], min_rows=2, max_rows=6, missing=draw(st.booleans())))
    c["epochs"] = draw(st.integers(1, 3))
    c["bs"] = draw(st.integers(1, 3))
    c["opt"] = draw(st.sampled_from(["default", "sgd", "adam"]))
    c["freeze"] = draw(st.lists(st.integers(0, 7), max_size=3))
    c["batch"] = draw(st.sampled_from(["tensor", "tuple1", "tuple2", "loader"]))
    c["loss"] = draw(st.sampled_from(["default", "sum"]))
    return c


def check_train(case, rec):
    import torch
    from spflow.learn import train_gradient_descent

    cc.set_dtype(case)
    b, b2 = cc.build(case), cc.build(case)
    X = cc.to_np(case["rows"])
    T = cc.to_torch(X)
    if not np.isfinite(b.ref.ll(X)).all():
        return
    lr = 0.05
    ps, ps2 = list(b.module.named_parameters()), list(b2.module.named_parameters())
    if not ps:
        return
    for i in case["freeze"]:
        for q in (ps, ps2):
            q[i % len(q)][1].requires_grad_(False)
    if not any(p.requires_grad for _, p in ps):
        return
    start = {n: p.detach().clone() for n, p in ps}
    bufs = {n: t.clone() for n, t in b.module.named_buffers()}
    chunks = [T[i:i + case["bs"]] for i in range(0, len(T), case["bs"])]
    loader = chunks
    if case["batch"] == "tuple1":
        loader = [(t,) for t in chunks]
    elif case["batch"] == "tuple2":
        loader = [(t, torch.zeros(len(t))) for t in chunks]
    elif case["batch"] == "loader":
        loader = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(T), batch_size=case["bs"], shuffle=False)

    def opt(m):
        if case["opt"] == "sgd":
            return torch.optim.SGD(m.parameters(), lr=lr)
        return torch.optim.Adam(m.parameters(), lr=lr)

    E = case["epochs"]
    sched = lambda o: torch.optim.lr_scheduler.MultiStepLR(o, milestones=[int(E * 0.5), int(E * 0.75)], gamma=0.1)
    loss = (lambda m, d: -m.log_likelihood(d).mean()) if case["loss"] == "default" else (lambda m, d: -m.log_likelihood(d).sum())
    kw = {} if case["loss"] == "default" else {"loss_fn": loss}
    steps, epochs = [], []
    o = None if case["opt"] == "default" else opt(b.module)
    train_gradient_descent(b.module, loader, epochs=E, optimizer=o, lr=lr, callback_batch=lambda l, i: steps.append((float(l.detach()), i)),
                           callback_epoch=lambda ls, e: epochs.append(([float(l.detach()) for l in ls], e)), **kw)
    require(b.module.training, "the model is not left in training mode")
    # reference loop
    o2 = opt(b2.module)
    s2 = sched(o2)
    exp = []
    b2.module.train()
    for _ in range(E):
        for t in chunks:
            o2.zero_grad()
            l = loss(b2.module, t)
            l.backward()
            o2.step()
            exp.append(float(l.detach()))
        s2.step()
    close([s[0] for s in steps], exp, "losses of the training steps", rtol=1e-8, atol=1e-9)
    require([s[1] for s in steps] == list(range(1, len(exp) + 1)), f"step numbers {[s[1] for s in steps]}")
    k = len(chunks)
    require([e for _, e in epochs] == list(range(E)), "epoch numbers")
    close([l for ls, _ in epochs for l in ls], exp, "losses of the epochs", rtol=1e-8, atol=1e-9)
    require(all(len(ls) == k for ls, _ in epochs), "number of losses per epoch")
    changed = 0
    for (n, p), (_, p2) in zip(ps, ps2):
        require(torch.isfinite(p).all(), f"parameter {n} is not finite after training")
        close(p.detach(), p2.detach(), f"parameter {n} after training", rtol=1e-8, atol=1e-9)
        if not p.requires_grad:
            require(torch.equal(p, start[n]), f"training changed the frozen parameter {n}")
        changed += int(not torch.equal(p, start[n]))
    for n, t in b.module.named_buffers():
        require(torch.equal(t, bufs[n]), f"training changed the buffer {n}")
    require(bool((torch.nan_to_num(T, nan=-9.) == torch.nan_to_num(cc.to_torch(X), nan=-9.)).all()), "training changed the data")
    rec.nt(changed > 0 and len(chunks) > 1)
    rec.tag(case["opt"], case["batch"])
    # still a distribution: all root outputs have mass one
    if all(v[0] == "cat" for v in case["vt"]) and not any(s["t"] == "cltree" for s in cc.spec_nodes(case["spec"])):
        S = cc.all_states(case["vt"])
        ll = b.module.log_likelihood(cc.to_torch(S)).detach().double().numpy()
        if ll.shape[1] == 1:
            close(np.exp(ll).sum(0), np.ones(ll.shape[1:]), "total mass after training", rtol=1e-6, atol=1e-6)


PROP = Prop("C17", [
    Facet("params", grad_case(), check_params, quick=500, thorough=25000,
          rule="gradient of a random combination of outputs vs posterior flows and numerical derivatives; non-trivial: >1 parameter with gradient"),
    Facet("zeros", grad_case(sharp=True, families=("cat",)), check_params, quick=300, thorough=15000,
          rule="as 'params' with components of zero probability; non-trivial: >1 parameter with gradient"),
    Facet("far", grad_case(extreme=True, families=("real", "count", "pos")), check_params, quick=220, thorough=10000,
          rule="as 'params' with far-out rows; non-trivial: >1 parameter with gradient"),
    Facet("wide", wide_case(), check_params, quick=120, thorough=4000,
          rule="layers of up to 33 channels; non-trivial: gradients of several parameters"),
    Facet("evidence", grad_case(families=("real", "pos", "real", "cat")), check_evidence, quick=350, thorough=15000,
          rule="gradient with respect to continuous evidence vs numerical derivatives of the reference; non-trivial: non-zero, >1 row"),
    Facet("training", train_case(), check_train, quick=300, thorough=8000,
          rule="train_gradient_descent vs an explicit loop; non-trivial: parameters changed, >1 batch"),
])
