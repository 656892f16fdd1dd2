"""C09: queries are pure; caches, modes, histories and sharing never change results (model-based histories)."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require

FAM = ("cat", "cat", "real", "pos", "count", "hist")
MODES = ["train", "eval", "eval_nograd", "train_nograd"]
WRITES = ["setter", "log_setter", "data_assign", "data_inplace", "nograd_inplace", "load_state", "sgd", "vector"]


@st.composite
def op(draw, n, nx):
    k = draw(st.sampled_from(["ll", "ll", "ll", "write", "write", "sample", "cond", "mpe", "marg", "inspect", "backward",
                              "sub_then_root", "reuse_cache", "dtype"]))
    o = {"op": k, "x": draw(st.integers(0, nx - 1)), "mode": draw(st.sampled_from(MODES)), "seed": draw(st.integers(0, 99))}
    if k == "write":
        o["how"] = draw(st.sampled_from(WRITES))
        o["which"] = draw(st.integers(0, 20))
    if k == "marg":
        o["vars"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    if k == "sub_then_root":
        o["which"] = draw(st.integers(0, 30))
    return o


@st.composite
def hist_case(draw, root="any", reps=(1, 2), focus=None):
    c = draw(cc.circuit(families=FAM, root=root, reps=reps, min_vars=1, max_vars=5, maxdepth=3, maxstates=4096))
    nx = draw(st.integers(1, 3))
    c["batches"] = [draw(cc.rows(c["vt"], 1, 3)) for _ in range(nx)]
    c["ops"] = draw(st.lists(op(c["n"], nx), min_size=2, max_size=10))
    return c


def set_mode(m, mode):
    m.train(mode.startswith("train"))


def grad_ctx(mode):
    import contextlib

    import torch

    return torch.no_grad() if mode.endswith("nograd") else contextlib.nullcontext()


def same(a, b, what, case):
    t = {"rtol": 1e-10, "atol": 1e-10} if case.get("f64", True) else {"rtol": 2e-5, "atol": 2e-5}
    close(a, b, what, **t)


def layers_with_logits(m):
    from spflow.modules.leaves.leaf import LeafModule

    return [x for x in m.modules() if isinstance(getattr(x, "logits", None), __import__("torch").nn.Parameter)
            and not isinstance(x, LeafModule)]


def apply_write(m, o):
    """Change parameters of one mixing layer in one of the ways users do. Returns False if nothing to write."""
    import torch

    ls = layers_with_logits(m)
    if not ls:
        return False
    layer = ls[o["which"] % len(ls)]
    rng = np.random.default_rng(o["seed"])
    noise = torch.as_tensor(rng.normal(0, 1.5, size=tuple(layer.logits.shape)), dtype=layer.logits.dtype)
    how = o["how"]
    if how in ("setter", "log_setter"):
        old = layer.logits.data
        layer.logits.data = noise
        w = layer.weights.detach().clone() if how == "setter" else layer.log_weights.detach().clone()
        layer.logits.data = old
        layer._clear_eval_weight_cache() if hasattr(layer, "_clear_eval_weight_cache") else None
        if how == "setter" or type(layer).log_weights.fset is None:
            layer.weights = w if how == "setter" else w.exp()
        else:
            layer.log_weights = w
    elif how == "data_assign":
        layer.logits.data = noise
    elif how == "data_inplace":
        layer.logits.data.add_(noise)
    elif how == "nograd_inplace":
        with torch.no_grad():
            layer.logits.add_(noise)
    elif how == "load_state":
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        key = next(k for k, p in m.named_parameters() if p is layer.logits)
        sd[key] = noise
        m.load_state_dict(sd)
    elif how == "vector":
        ps = [x.logits for x in ls]
        vec = torch.nn.utils.parameters_to_vector(ps)
        torch.nn.utils.vector_to_parameters(vec.detach() + 0.5 * torch.as_tensor(
            rng.normal(size=tuple(vec.shape)), dtype=vec.dtype), ps)
    else:
        opt = torch.optim.SGD([layer.logits], lr=1.0)
        layer.logits.grad = noise.clone()
        opt.step()
        layer.logits.grad = None
    return True


def fresh_like(case, m):
    """A newly built circuit with the same current parameters."""
    b = cc.build(case)
    b.module.load_state_dict(copy.deepcopy(m.state_dict()))
    return b.module


def check(case, rec):
    import torch
    from spflow.utils.cache import Cache

    cc.set_dtype(case)
    b = cc.build(case)
    m = b.module
    single = len(b.ref.P) == 1 and b.ref.C == 1 and b.ref.R == 1 and len(m.scope.query) == case["n"]
    rec.tag(*cc.spec_tags(case["spec"]))
    X = [cc.to_np(r) for r in case["batches"]]
    nwrites = nlls = 0

    def ll(o, cache=None):
        T = cc.to_torch(X[o["x"]])
        before = T.clone()
        set_mode(m, o["mode"])
        with grad_ctx(o["mode"]):
            out = m.log_likelihood(T, cache=cache) if cache is not None else m.log_likelihood(T)
        require(((T == before) | (T.isnan() & before.isnan())).all(), "log_likelihood modified its input")
        return out

    def expected(o):
        return fresh_like(case, m).log_likelihood(cc.to_torch(X[o["x"]]))

    for i, o in enumerate(case["ops"]):
        k = o["op"]
        w = f"step {i} ({k})"
        rec.tag("op:" + k)
        if k == "ll":
            same(ll(o), expected(o), f"{w}: likelihood after the history against a fresh equal circuit", case)
            nlls += 1
        elif k == "reuse_cache":
            cache = Cache()
            a = ll(o, cache)
            same(ll(o, cache), a, f"{w}: same batch, same cache", case)
            same(a, expected(o), f"{w}: cached likelihood against a fresh equal circuit", case)
            nlls += 1
        elif k == "sub_then_root":
            from spflow.modules.module import Module

            subs = [s for s in m.modules() if isinstance(s, Module)]
            sub = subs[o["which"] % len(subs)]
            cache = Cache()
            T = cc.to_torch(X[o["x"]])
            set_mode(m, o["mode"])
            sub_ll = sub.log_likelihood(T, cache=cache)
            same(ll(o, cache), expected(o), f"{w}: root after its part {type(sub).__name__} with a shared cache", case)
            again = sub.log_likelihood(T)
            for x, y in zip(sub_ll if isinstance(sub_ll, list) else [sub_ll], again if isinstance(again, list) else [again]):
                same(x, y, f"{w}: cached part changed by evaluating the root", case)
            nlls += 1
        elif k == "write":
            nwrites += bool(apply_write(m, o))
            rec.tag("write:" + o["how"])
        elif k == "backward":
            set_mode(m, o["mode"])
            out = m.log_likelihood(cc.to_torch(X[o["x"]]))
            s = out[torch.isfinite(out)].sum()
            if s.requires_grad:
                s.backward()
            m.zero_grad(set_to_none=bool(o["seed"] % 2))
        elif k in ("sample", "mpe") and single:
            set_mode(m, o["mode"])
            f = fresh_like(case, m)
            outs = []
            for mod in (m, f):
                torch.manual_seed(o["seed"])
                with grad_ctx(o["mode"]):
                    outs.append(mod.sample(num_samples=7) if k == "sample" else mod.mpe(num_samples=2))
            require(torch.equal(*outs), f"{w}: same seed gives a different result than a fresh equal circuit")
        elif k == "cond" and single:
            set_mode(m, o["mode"])
            f = fresh_like(case, m)
            E = X[o["x"]]
            E = E[(b_ll := f.log_likelihood(cc.to_torch(E))[:, 0, 0, 0].detach().numpy()) > -30]
            if len(E):
                outs = []
                for mod in (m, f):
                    torch.manual_seed(o["seed"])
                    with grad_ctx(o["mode"]):
                        outs.append(mod.sample_with_evidence(evidence=cc.to_torch(E)))
                require(torch.equal(*outs), f"{w}: same seed gives a different conditional sample than a fresh equal circuit")
        elif k == "marg":
            if not any(t in ("elemprod", "outer") for t in (s["t"] for s in cc.spec_nodes(case["spec"]))):
                try:
                    m.marginalize(o["vars"])
                except Exception:
                    pass  # whether marginalizing works is decided by C04
            same(ll(o), expected(o), f"{w}: likelihood after marginalizing a copy", case)
        elif k == "inspect":
            repr(m), str(m), dict(m.state_dict()), list(m.named_modules()), m.feature_to_scope, m.out_shape
            m.extra_repr()
        elif k == "dtype" and case.get("f64", True):
            # lower the precision, evaluate, raise it again: parameters are rounded, everything else must follow
            m.float()
            set_mode(m, o["mode"])
            with grad_ctx(o["mode"]):
                low = m.log_likelihood(cc.to_torch(X[o["x"]]).float())
            m.double()
            ref = expected(o)
            fin = torch.isfinite(ref) & (ref > -60)
            close(low.double()[fin], ref[fin], f"{w}: single precision evaluation", rtol=2e-3, atol=2e-3)
            same(ll(o), ref, f"{w}: after converting to single precision and back", case)
    o = {"x": 0, "mode": "eval_nograd"}
    same(ll(o), expected(o), "likelihood at the end of the history against a fresh equal circuit", case)
    rec.nt(nwrites > 0 and nlls > 0 and case["spec"]["t"] != "leaf")


def unshare(spec, table=None):
    """Replace references by deep copies: every use becomes its own sub-circuit (same parameters by construction)."""
    return spec


def check_shared(case, rec):
    """A circuit with shared parts equals the same circuit with every shared part duplicated."""
    import torch

    cc.set_dtype(case)
    b = cc.build(case)
    m = b.module
    if not any(s["t"] == "ref" for s in cc.spec_nodes(case["spec"])):
        return
    X = cc.to_torch(cc.to_np(case["batches"][0]))
    from spflow.modules.module import Module

    def clone(x, memo):
        """Deep copy of the module tree in which shared children are duplicated."""
        y = copy.copy(x)
        y._parameters = {k: (None if p is None else torch.nn.Parameter(p.detach().clone())) for k, p in x._parameters.items()}
        y._buffers = {k: (None if p is None else p.clone()) for k, p in x._buffers.items()}
        y._modules = {k: (None if c is None else clone(c, memo)) for k, c in x._modules.items()}
        if hasattr(x, "_eval_weight_cache"):
            y._eval_weight_cache = None
        return y

    t = clone(m, {})
    n_m = len({id(x) for x in m.modules()})
    n_t = len({id(x) for x in t.modules()})
    same(t.log_likelihood(X), m.log_likelihood(X), "likelihood of the shared circuit against separate copies", case)
    rec.nt(n_t > n_m)
    rec.tag(*cc.spec_tags(case["spec"]))
    del Module
    if len(b.ref.P) == 1 and b.ref.C == 1 and b.ref.R == 1:
        # gradients with respect to a shared part add up over its uses: total per-layer-kind gradient norm stays equal
        out = m.log_likelihood(X)
        if bool(torch.isfinite(out).all()) and out.requires_grad:
            m.zero_grad()
            out.sum().backward()
            gm = {}
            for x in m.modules():
                for k, p in x._parameters.items():
                    if p is not None and p.grad is not None:
                        gm[type(x).__name__ + k] = gm.get(type(x).__name__ + k, 0) + p.grad.double().sum().item()
            t.log_likelihood(X).sum().backward()
            gt = {}
            for x in t.modules():
                for k, p in x._parameters.items():
                    if p is not None and p.grad is not None:
                        gt[type(x).__name__ + k] = gt.get(type(x).__name__ + k, 0) + p.grad.double().sum().item()
            for k in gm:
                tt = {"rtol": 1e-7, "atol": 1e-7} if case.get("f64", True) else {"rtol": 1e-2, "atol": 1e-2}
                close(gt.get(k, 0.0), gm[k], f"summed gradient of {k}: shared circuit against separate copies", **tt)


@st.composite
def zoo_case(draw):
    c = draw(zz.zoo(maxD=6, families=("cat", "real"), maxstates=None, classes=(1, 1, 2)))
    c["batches"] = [draw(cc.rows(c["vt"], 1, 3)) for _ in range(draw(st.integers(1, 2)))]
    ks = ["ll", "ll", "write", "write", "sample", "cond", "mpe", "posterior", "sub_then_root", "reuse_cache", "backward", "em", "leaf"]
    c["ops"] = [{"op": draw(st.sampled_from(ks)), "x": draw(st.integers(0, len(c["batches"]) - 1)), "mode": draw(st.sampled_from(MODES)),
                 "how": draw(st.sampled_from(WRITES)), "which": draw(st.integers(0, 30)), "seed": draw(st.integers(0, 99))}
                for _ in range(draw(st.integers(2, 9)))]
    return c


def check_zoo(c, rec):
    """Histories over RAT-SPNs, Einets, ConvPcs, Naive Bayes and Factorize towers against a freshly built equal model."""
    import torch
    from spflow.learn.expectation_maximization import expectation_maximization
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.module import Module
    from spflow.utils.cache import Cache

    cc.set_dtype(c)
    m, _ = zz.build(c)
    X = [cc.to_torch(cc.to_np(r)) for r in c["batches"]]
    rec.tag(*zz.tags(c))
    nw = nl = 0

    def fresh():
        f, _ = zz.build(c)
        f.load_state_dict(copy.deepcopy(m.state_dict()))
        return f

    def run(what, q, o):
        """The query on the model with a history against a fresh one, random numbers seeded alike."""
        set_mode(m, o["mode"])
        out = []
        for mod in (m, fresh()):
            torch.manual_seed(o["seed"])
            T = X[o["x"]].clone()
            with grad_ctx(o["mode"]):
                out.append(q(mod, T))
            require(torch.equal(T.nan_to_num(-77.0), X[o["x"]].nan_to_num(-77.0)), f"{what} modified its input")
        same(out[0], out[1], f"{what} after the history against a fresh equal model", c)

    post = c["classes"] > 1 and hasattr(m, "log_posterior")
    for i, o in enumerate(c["ops"]):
        k, w = o["op"], f"step {i} ({o['op']})"
        rec.tag("op:" + k)
        if k == "ll":
            run(f"{w}: likelihood", lambda q, T: q.log_likelihood(T), o)
            nl += 1
        elif k == "posterior" and post:
            run(f"{w}: class posterior", lambda q, T: q.log_posterior(T), o)
            run(f"{w}: class posterior", lambda q, T: q.predict_proba(T), o)
        elif k == "reuse_cache":
            def both(q, T):
                cache = Cache()
                first = q.log_likelihood(T, cache=cache)
                extra = q.log_posterior(T, cache=cache) if post and o["seed"] % 2 else None
                again = q.log_likelihood(T, cache=cache)
                same(again, first, f"{w}: same batch, same cache", c)
                return first if extra is None else extra
            run(f"{w}: cached query", both, o)
            nl += 1
        elif k == "sub_then_root":
            subs = [s for s in m.modules() if isinstance(s, Module)]
            j = o["which"] % len(subs)

            def sub_first(q, T):
                cache = Cache()
                [s for s in q.modules() if isinstance(s, Module)][j].log_likelihood(T, cache=cache)
                return q.log_likelihood(T, cache=cache)
            set_mode(m, o["mode"])
            with grad_ctx(o["mode"]):
                same(sub_first(m, X[o["x"]]), fresh().log_likelihood(X[o["x"]]), f"{w}: root after its part {type(subs[j]).__name__}", c)
            nl += 1
        elif k == "write":
            nw += bool(apply_write(m, o))
            rec.tag("write:" + o["how"])
        elif k == "leaf":  # leaf parameters change as well
            ls = [s for s in m.modules() if isinstance(s, LeafModule)]
            p = next((p for p in ls[o["which"] % len(ls)].parameters() if p.requires_grad), None)
            if p is not None:
                g = torch.Generator().manual_seed(o["seed"])
                with torch.no_grad():
                    p.add_(0.3 * torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype))
                nw += 1
        elif k in ("sample", "mpe"):
            run(f"{w}: samples", lambda q, T: q.sample(num_samples=5) if k == "sample" else q.mpe(num_samples=2), o)
        elif k == "cond":
            with torch.no_grad():
                ok = torch.isfinite(m.log_likelihood(X[o["x"]])).flatten(1).all(1)
            if bool(ok.any()):
                run(f"{w}: conditional samples", lambda q, T: q.sample_with_evidence(evidence=T[ok], is_mpe=o["seed"] % 2 == 0), o)
        elif k == "backward":
            set_mode(m, o["mode"])
            out = m.log_likelihood(X[o["x"]])
            if out.requires_grad and bool(torch.isfinite(out).all()):
                out.sum().backward()
            m.zero_grad(set_to_none=bool(o["seed"] % 2))
        elif k == "em":
            T = torch.nan_to_num(X[o["x"]], nan=0.0)
            with torch.no_grad():
                ok = bool(torch.isfinite(m.log_likelihood(T)).all())
            if ok and len(T) > 1 and c["f64"]:
                set_mode(m, "train")
                f = fresh()
                for mod in (m, f):
                    expectation_maximization(mod, T.clone(), max_steps=1, bias_correction=False)
                    mod.zero_grad(set_to_none=True)
                with torch.no_grad():
                    if all(bool(torch.isfinite(p).all()) for p in m.parameters()):
                        close(m.log_likelihood(T), f.log_likelihood(T), f"{w}: EM step after the history against a fresh equal model",
                              rtol=1e-6, atol=1e-6)
                    else:  # certain outcomes of the few rows: start over
                        m, _ = zz.build(c)
                nw += 1
    run("likelihood at the end", lambda q, T: q.log_likelihood(T), {"x": 0, "mode": "eval_nograd", "seed": 0})
    rec.nt(nw > 0 and nl > 0)


PROP = Prop("C09", [
    Facet("histories", hist_case(), check, quick=1600, thorough=40000,
          rule="operation histories against a freshly built circuit with equal parameters; non-trivial: a parameter write and "
               "a later evaluation of an inner node"),
    Facet("single", hist_case(root="single", reps=(1,)), check, quick=1200, thorough=30000,
          rule="as above with sampling, conditional sampling and completion queries under fixed seeds"),
    Facet("shared", hist_case(), check_shared, quick=1500, thorough=30000,
          rule="shared sub-circuits against duplicated ones (values and gradients); non-trivial: really shared"),
    Facet("zoo", zoo_case(), check_zoo, quick=500, thorough=15000,
          rule="operation histories over RAT-SPN/Einet/ConvPc/Naive Bayes/Factorize models; non-trivial: a parameter write and an evaluation"),
])
