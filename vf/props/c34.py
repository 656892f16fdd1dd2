"""C34: the estimator interface returns what the underlying circuit says."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, raises, require

AGG = ("logmeanexp", "logsumexp", "first")


def reduce_ref(ll, channel, repetition):
    """(B,F,C,R) -> (B,): product over features, then repetitions, then channels."""
    x = np.asarray(ll, float).sum(1)
    for how, ax in ((repetition, 2), (channel, 1)):
        if how == "first":
            x = np.take(x, 0, ax)
        else:
            n = x.shape[ax]
            x = cc.lse(x, ax) - (np.log(n) if how == "logmeanexp" else 0)
    return x


def as_input(X, how):
    if how == "list":
        return X.tolist()
    if how == "f32":
        return X.astype(np.float32)
    if how == "fortran":
        return np.asfortranarray(X)
    if how == "strided":
        Y = np.zeros((2 * len(X), X.shape[1] + 1))
        Y[::2, :-1] = X
        return Y[::2, :-1]
    if how == "readonly":
        Y = X.copy()
        Y.flags.writeable = False
        return Y
    return X.copy()


INPUTS = ("plain", "plain", "list", "f32", "fortran", "strided", "readonly")
OPS = ("score", "score", "sample", "sample", "seeded", "seeded", "clone", "params", "refit")


@st.composite
def ops(draw, names=OPS, max_size=7):
    return [[draw(st.sampled_from(names)), draw(st.sampled_from([0, 1, 2, 7, 2**31 - 1])), draw(st.integers(1, 5)), draw(st.sampled_from(INPUTS))]
            for _ in range(draw(st.integers(1, max_size)))]


# ------------------------------------------------------------------ density estimator


@st.composite
def learn_case(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "rows": draw(st.integers(4, 40)), "seed": draw(st.integers(0, 2**31 - 1)), "clusters": draw(st.integers(1, 3)),
            "learner": draw(st.sampled_from(["learn_spn", "learn_spn", "prometheus"])), "out": draw(st.integers(1, 3)), "leafC": draw(st.sampled_from([1, 1, 2])),
            "mis": draw(st.sampled_from([2, 10, 100])), "mfs": draw(st.sampled_from([2, 2, 3])),
            "channel": draw(st.sampled_from(AGG)), "rep": draw(st.sampled_from(AGG)), "input": draw(st.sampled_from(INPUTS)),
            "dtype": draw(st.sampled_from(["float32", "float32", "float64", None])), "query": draw(st.integers(1, 5)), "nan": draw(st.booleans()), "one": draw(st.integers(0, 5)) == 0,
            "ops": draw(ops())}


def fitted_attrs(e):
    return {k: v for k, v in vars(e).items() if k.endswith("_")}


def run_ops(est, c, query, fit, D, continuous, score_ref, rec, X):
    """A history of calls on a fitted estimator, each against the model it exposes."""
    import torch
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError

    seen = {}
    unseeded = []
    for op, seed, k, how in c["ops"]:
        rec.tag(op)
        if op == "score":
            Q = query[:k]
            before = copy.deepcopy(est.model_.state_dict())
            q = as_input(Q, how)
            got = est.score_samples(q)
            require(isinstance(got, np.ndarray) and got.shape == (len(Q),), f"score_samples returned {type(got).__name__} of shape {np.shape(got)}")
            with torch.no_grad():
                ll = est.model_.log_likelihood(torch.as_tensor(np.asarray(Q, dtype=np.float32 if how == "f32" else float), dtype=est_dtype(est)))
            require(tuple(ll.shape[:1]) == (len(Q),), "log-likelihood shape")
            close(got, reduce_ref(ll.double().numpy(), est.channel_agg, est.repetition_agg), "score_samples vs the model's log-likelihood", rtol=1e-5, atol=1e-5)
            if score_ref is not None and how != "f32":
                close(got, score_ref(Q), "score_samples vs reference", rtol=1e-3, atol=1e-3)
            require(np.array_equal(np.asarray(q), as_input(Q, how), equal_nan=True), "score_samples changed its input")
            for (n, a), b in zip(est.model_.state_dict().items(), before.values()):
                require(torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)), f"score_samples changed {n}")
        elif op == "seeded":
            state = torch.get_rng_state()
            S = est.sample(k, random_state=np.int64(seed) if how == "strided" else seed)
            require(torch.equal(torch.get_rng_state(), state), "seeded sampling changed the global random state")
            require(isinstance(S, np.ndarray) and S.shape == (k, D), f"sample shape {np.shape(S)}")
            after = torch.get_rng_state()
            torch.manual_seed(seed)
            with torch.no_grad():
                ref = est.model_.sample(num_samples=k).numpy()
            torch.set_rng_state(after)
            require(np.array_equal(S, ref, equal_nan=True), "seeded samples differ from the model's samples under that seed")
            if (seed, k) in seen:
                require(np.array_equal(seen[seed, k], S), "the same random_state gives different samples")
            seen[seed, k] = S
        elif op == "sample":
            S = est.sample(k)
            require(S.shape == (k, D) and np.isfinite(S).all(), f"sample of shape {S.shape}")
            unseeded.append(S)
            if continuous:
                u = [r.tobytes() for s in unseeded for r in s]
                require(len(set(u)) == len(u), "samples of unseeded calls repeat exactly")
        elif op == "clone":
            e2 = clone(est)
            require(not fitted_attrs(e2), f"a clone carries fitted attributes {list(fitted_attrs(e2))}")
            raises(lambda e2=e2: e2.score_samples(query[:1]), "scoring with an unfitted clone", NotFittedError)
            raises(lambda e2=e2: e2.sample(1), "sampling from an unfitted clone", NotFittedError)
            p, p2 = est.get_params(), e2.get_params()
            require(list(p) == list(p2), "a clone has other parameters")
            for n, v in p.items():
                if n == "model":
                    require((v is None) == (p2[n] is None), "a clone lost the model")
                    if v is not None:
                        for (kk, a), b in zip(v.state_dict().items(), p2[n].state_dict().values()):
                            require(torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)), f"a cloned model has another {kk}")
                else:
                    require(v == p2[n], f"a clone has {n}={p2[n]!r} instead of {v!r}")
        elif op == "params":
            est.set_params(channel_agg=AGG[k % 3], repetition_agg=AGG[seed % 3])
            require(est.get_params()["channel_agg"] == AGG[k % 3] and est.get_params()["repetition_agg"] == AGG[seed % 3], "set_params")
        elif op == "refit" and fit is not None:
            old = {k_: v.clone() for k_, v in est.model_.state_dict().items()}
            after = torch.get_rng_state()
            fit(est, X)
            torch.set_rng_state(after)
            require(est.n_features_in_ == D, "n_features_in_ after refitting")
            seen.clear()
            for k_, v in est.model_.state_dict().items():
                require(k_ in old and torch.equal(torch.nan_to_num(v), torch.nan_to_num(old[k_])), f"fitting the same data again under the same seed gives another {k_}")
    for bad in (0, -1, 1.5):
        raises(lambda bad=bad: est.sample(bad), f"n_samples={bad}", Exception)
    raises(lambda: est.sample(1, random_state="a"), "random_state='a'", Exception)


def est_dtype(est):
    import torch

    return {"float32": torch.float32, "float64": torch.float64, None: torch.float64}[est.dtype]


def check_learn(c, rec):
    import torch
    from sklearn.exceptions import NotFittedError
    from spflow.interfaces.sklearn import SPFlowDensityEstimator

    torch.set_default_dtype(torch.float32 if c["dtype"] == "float32" else torch.float64)
    rng = np.random.default_rng(c["seed"])
    centres = rng.normal(size=(c["clusters"], c["n"])) * 4
    X = centres[rng.integers(0, c["clusters"], c["rows"])] + rng.normal(size=(c["rows"], c["n"]))
    Q = X[rng.integers(0, len(X), c["query"])].copy()
    if c["nan"]:
        Q[rng.random(Q.shape) < 0.3] = np.nan
    X = X.astype(np.float32).astype(float)
    Q = Q.astype(np.float32).astype(float)
    if c["one"] and c["n"] == 1:
        X, Q = X[:, :1], Q[:, :1]
    est = SPFlowDensityEstimator(structure_learner=c["learner"], structure_learner_kwargs={"out_channels": c["out"]}, leaf_out_channels=c["leafC"], min_instances_slice=c["mis"],
                                 min_features_slice=c["mfs"], channel_agg=c["channel"], repetition_agg=c["rep"], dtype=c["dtype"])
    raises(lambda: est.score_samples(Q), "scoring before fitting", NotFittedError)
    raises(lambda: est.sample(1), "sampling before fitting", NotFittedError)

    def fit(e, data):
        torch.manual_seed(c["seed"] % 2**31)
        np.random.seed(c["seed"] % 2**31)
        arg = as_input(data, c["input"])
        if c["one"] and c["n"] == 1:
            arg = np.asarray(arg)[:, 0]
        require(e.fit(arg) is e, "fit does not return the estimator")
        require(np.array_equal(np.asarray(arg).reshape(len(data), -1), data.astype(np.asarray(arg).dtype)), "fit changed its input")

    fit(est, X)
    require(est.n_features_in_ == c["n"], f"n_features_in_ {est.n_features_in_}")
    require(est.model is None, "fit changed a constructor parameter")
    require(set(est.model_.scope.query) == set(range(c["n"])), "the learned circuit does not cover the data's columns")
    rec.nt(len(c["ops"]) > 1 and c["n"] > 1)
    rec.n()
    rec.tag(c["learner"], type(est.model_).__name__, f"channels{est.model_.out_shape.channels}", c["input"])
    # what the interface learns is what the learner learns
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Normal

    torch.manual_seed(c["seed"] % 2**31)
    np.random.seed(c["seed"] % 2**31)
    f = learn_spn if c["learner"] == "learn_spn" else learn_prometheus
    direct = f(torch.as_tensor(X, dtype=est_dtype(est)), leaf_modules=Normal(scope=Scope(list(range(c["n"]))), out_channels=c["leafC"]), out_channels=c["out"],
               min_instances_slice=c["mis"], min_features_slice=c["mfs"])
    with torch.no_grad():
        t = torch.as_tensor(X[:5], dtype=est_dtype(est))
        close(est.model_.log_likelihood(t), direct.log_likelihood(t), "fitted circuit vs the structure learner called directly", rtol=1e-5, atol=1e-5)
    run_ops(est, c, Q, fit, c["n"], True, None, rec, X)


@st.composite
def given_case(draw):
    c = draw(cc.circuit(families=("cat", "real", "count", "pos"), root="any", reps=(1, 1, 2, 3), max_vars=4, maxdepth=3, maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=1, max_rows=5))
    c["f64"] = True
    c["channel"] = draw(st.sampled_from(AGG))
    c["rep"] = draw(st.sampled_from(AGG))
    c["ops"] = draw(ops(names=("score", "score", "score", "params", "clone", "sample", "seeded")))
    c["dtype"] = draw(st.sampled_from(["float64", None]))
    return c


def check_given(c, rec):
    import torch
    from spflow.exceptions import InvalidParameterError
    from spflow.interfaces.sklearn import SPFlowDensityEstimator

    cc.set_dtype(c)
    b = cc.build(c)
    X = cc.to_np(c["rows"])
    est = SPFlowDensityEstimator(model=b.module, fit_params=False, channel_agg=c["channel"], repetition_agg=c["rep"], dtype=c["dtype"])
    before = {k: v.clone() for k, v in b.module.state_dict().items()}
    require(est.fit(X.copy()) is est and est.model_ is b.module, "fit of a given model")
    for (n, a), v in zip(b.module.state_dict().items(), before.values()):
        require(torch.equal(torch.nan_to_num(a), torch.nan_to_num(v)), f"fit_params=False changed {n}")
    s = b.module.out_shape
    rec.tag(f"F{s.features > 1}C{s.channels}R{s.repetitions}")
    rec.nt(s.features * s.channels * s.repetitions > 1)
    rec.n(len(X))
    try:
        torch.manual_seed(0)
        b.module.sample(num_samples=1)
        ok = True
    except Exception:  # noqa: BLE001 - circuit without sampling
        ok = False
    c2 = dict(c, ops=[o for o in c["ops"] if ok or o[0] not in ("sample", "seeded")])
    run_ops(est, c2, X, None, c["n"], False, lambda Q: reduce_ref(b.ref.ll(Q), est.channel_agg, est.repetition_agg), rec, X)
    if not hasattr(b.module, "maximum_likelihood_estimation"):
        raises(lambda: SPFlowDensityEstimator(model=b.module).fit(X), "fit_params of a circuit without MLE", InvalidParameterError)


@st.composite
def leaf_case(draw):
    return {"fam": draw(st.sampled_from(["Normal", "Laplace", "Exponential", "Poisson", "Bernoulli", "Categorical", "Gamma", "LogNormal"])), "n": draw(st.integers(1, 3)), "C": draw(st.integers(1, 3)),
            "R": draw(st.integers(1, 2)), "rows": draw(st.integers(3, 12)), "seed": draw(st.integers(0, 2**31 - 1)), "channel": draw(st.sampled_from(AGG)), "rep": draw(st.sampled_from(AGG)),
            "input": draw(st.sampled_from(INPUTS)), "ops": draw(ops(names=("score", "sample", "seeded", "clone", "params")))}


def check_leaf(c, rec):
    """Parameter fitting of a provided leaf model equals its own maximum-likelihood estimation."""
    import spflow.modules.leaves as L
    import torch
    from spflow.interfaces.sklearn import SPFlowDensityEstimator
    from spflow.meta.data import Scope

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng(c["seed"])
    shape = (c["rows"], c["n"])
    X = {"Normal": rng.normal(size=shape), "Laplace": rng.normal(size=shape), "Bernoulli": rng.integers(0, 2, shape), "Categorical": rng.integers(0, 3, shape), "Poisson": rng.integers(0, 9, shape)}.get(
        c["fam"], rng.gamma(2.0, size=shape) + 0.1).astype(np.float32).astype(float)
    kw = {"K": 3} if c["fam"] == "Categorical" else {}
    torch.manual_seed(c["seed"] % 2**31)
    m = getattr(L, c["fam"])(scope=Scope(list(range(c["n"]))), out_channels=c["C"], num_repetitions=c["R"], **kw)
    direct = copy.deepcopy(m)
    est = SPFlowDensityEstimator(model=m, channel_agg=c["channel"], repetition_agg=c["rep"], dtype="float64")
    arg = as_input(X, c["input"])
    require(est.fit(arg, y=np.zeros(len(X))) is est, "fit does not return the estimator")
    require(np.array_equal(np.asarray(arg), X.astype(np.asarray(arg).dtype)), "fit changed its input")
    direct.maximum_likelihood_estimation(torch.as_tensor(X))
    for (n, a), v in zip(est.model_.state_dict().items(), direct.state_dict().values()):
        require(torch.allclose(a, v, rtol=1e-6, atol=1e-6), f"fitting through the interface gives another {n}")
    rec.nt(c["n"] * c["C"] * c["R"] > 1)
    rec.n()
    rec.tag(c["fam"], c["input"])
    run_ops(est, c, X[:5], None, c["n"], c["fam"] not in ("Poisson", "Bernoulli", "Categorical"), None, rec, X)


# ------------------------------------------------------------------ classifier


@st.composite
def cls_case(draw):
    c = draw(zz.zoo(kinds=("rat", "einet", "nb"), maxD=5, classes=(2, 3, 4), families=("cat", "real", "count"), maxstates=None))
    c["rows"] = draw(cc.rows(c["vt"], min_rows=1, max_rows=6))
    c["labels"] = draw(st.sampled_from(["int", "str", "neg", "float", "gap"]))
    c["order"] = draw(st.permutations(list(range(c["classes"]))))
    c["input"] = draw(st.sampled_from(INPUTS))
    c["dtype"] = draw(st.sampled_from([None, "float64"])) if c.get("f64") else "float32"
    return c


def check_cls(c, rec):
    import torch
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    from spflow.interfaces.sklearn import SPFlowClassifier

    cc.set_dtype(c)
    m, _ = zz.build(c)
    K = c["classes"]
    lab = {"int": list(range(K)), "str": ["ant", "bee", "cat", "dog"][:K], "neg": [-5 + i for i in range(K)], "float": [1.0 * i for i in range(K)], "gap": [10 ** i for i in range(K)]}[c["labels"]]
    X = cc.to_np(c["rows"])
    clf = SPFlowClassifier(m, dtype=c["dtype"])
    raises(lambda: clf.predict(X), "predicting before fitting", NotFittedError)
    raises(lambda: clf.predict_proba(X), "predicting before fitting", NotFittedError)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    y = np.array([lab[i] for i in c["order"]])
    require(clf.fit(np.zeros((K, c["n"])), y) is clf, "fit does not return the estimator")
    require(list(clf.classes_) == lab, f"classes_ {clf.classes_}")
    arg = as_input(X, c["input"])
    P = clf.predict_proba(arg)
    T = torch.as_tensor(np.asarray(arg, dtype=float), dtype=torch.float32 if c["dtype"] == "float32" else torch.float64)
    with torch.no_grad():
        own = m.predict_proba(T).double().numpy()
    require(isinstance(P, np.ndarray) and P.shape == (len(X), K), f"predict_proba shape {np.shape(P)}")
    close(P, own, "predict_proba vs the model", rtol=1e-5, atol=1e-6)
    ok = np.isfinite(P).all(1)
    require(np.abs(P[ok].sum(1) - 1).max(initial=0) < 1e-4, "class probabilities do not sum to one")
    pred = clf.predict(arg)
    require(pred.shape == (len(X),), f"predict shape {pred.shape}")
    for i in np.flatnonzero(ok):
        require(pred[i] in lab, f"predicted label {pred[i]!r} is not a class")
        require(P[i][lab.index(pred[i])] >= P[i].max() - 1e-6, f"predicted label {pred[i]!r} is not the most probable class")
    close(np.array(clf.score(arg, pred)), np.array(1.0), "accuracy of its own predictions", rtol=0, atol=0)
    wrong = np.array([lab[(lab.index(v) + 1) % K] for v in pred.tolist()])
    close(np.array(clf.score(arg, wrong)), np.array(0.0), "accuracy against other labels", rtol=0, atol=0)
    for (n, a), v in zip(m.state_dict().items(), before.values()):
        require(torch.equal(torch.nan_to_num(a), torch.nan_to_num(v)), f"the classifier interface changed {n}")
    e2 = clone(clf)
    require(not hasattr(e2, "classes_"), "a clone is fitted")
    raises(lambda: e2.predict(X), "predicting with an unfitted clone", NotFittedError)
    e2.fit(None, y)
    close(e2.predict_proba(arg), P, "predictions of a clone", rtol=0, atol=0)
    rec.nt(len(X) > 1 and ok.any())
    rec.n(len(X))
    rec.tag(c["zoo"], c["labels"], c["input"], "undefined" if not ok.all() else "defined")


PROP = Prop("C34", [
    Facet("learn", learn_case(), check_learn, quick=150, thorough=3000, rule="several variables, several calls after fitting"),
    Facet("given", given_case(), check_given, quick=400, thorough=10000, rule="given circuit with several features, channels or repetitions"),
    Facet("leaf", leaf_case(), check_leaf, quick=250, thorough=6000, rule="several features, channels or repetitions"),
    Facet("classifier", cls_case(), check_cls, quick=300, thorough=8000, rule="several rows"),
])
