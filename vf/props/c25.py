"""C25: autoencoding circuits - encoder semantics, latent statistics, objective and training loop."""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc
from vf.core import Facet, Prop, close, require
from vf.gof import gof_multi

CHUNK = 2000
CONV = [(2, 2, 1, 2, 2), (2, 2, 1, 2, 3), (1, 2, 2, 2, 2), (2, 1, 2, 2, 3), (3, 3, 1, 3, 2), (4, 4, 1, 2, 3), (4, 4, 1, 2, 2)]


# ----------------------------------------------------------------------------- cases

@st.composite
def enc(draw, zfams=("Bernoulli", "Categorical", "Binomial"), xfams=("Bernoulli", "Categorical", "Binomial"), small=False):
    c = {"enc": draw(st.sampled_from(["einet", "einet", "conv"])), "seed": draw(st.integers(0, 2**31 - 1)), "f64": draw(st.sampled_from([True, True, False])),
         "style": draw(st.sampled_from(["mild", "mild", "spiky"])), "R": draw(st.integers(1, 3))}
    zf = draw(st.sampled_from(list(zfams)))
    xf = draw(st.sampled_from(list(xfams)))
    if c["enc"] == "conv":
        h, w, ci, ks, d = draw(st.sampled_from(CONV[:4] if small else CONV))
        nx, ld = h * w * ci, draw(st.integers(0, d - 1))
        c.update(H=h, W=w, Ci=ci, ks=ks, depth=d, latent_depth=ld, perm=draw(st.booleans()), sumconv=draw(st.booleans()), ch=draw(st.integers(1, 3)),
                 xc=draw(st.integers(1, 3)))
        if ld == 0:
            c["xc"] = c["ch"]  # the fusion stage joins both streams channel by channel
        # the latents are reduced pairwise to the width of the fusion stage
        side = [0] * d
        for i in range(d):
            side[i] = ks ** (d - 1 - i)
        width = side[ld] ** 2
        ok = [L for L in (1, 2, 3, 4) if L <= width or (L == 2 * width) or (L == 4 * width)]
        nz = draw(st.sampled_from(ok))
    else:
        nx, nz = draw(st.integers(1, 3 if small else 5)), draw(st.integers(1, 3))
        c.update(sums=draw(st.integers(1, 3)), leaves=draw(st.integers(1, 3)), depth=draw(st.integers(0, int(math.log2(nx + nz)))),
                 layer=draw(st.sampled_from(["einsum", "linsum"])))
    c["nx"], c["nz"] = nx, nz
    kz = 2 if zf == "Bernoulli" else draw(st.integers(2, 4 if nz < 3 else 3))
    kx = 2 if xf == "Bernoulli" or nx > 4 else draw(st.integers(2, 3))
    c["z"], c["x"] = [zf, kz], [xf, kx]
    c["logits"] = [draw(st.booleans()), draw(st.booleans())]
    return c


def leaf_factory(c, which, store):
    import torch

    fam, K = c[which]
    par = cc.Par(c["seed"] + (5 if which == "z" else 0), c["style"])

    def make(scope, C, R):
        p = cc.leaf_params(fam, len(scope), C, R, K, par)
        store[which] = (fam, scope, p)
        if fam in ("Bernoulli", "Binomial", "Categorical") and c["logits"][which == "z"]:
            q = {k: v for k, v in p.items() if k != "probs"}
            with np.errstate(divide="ignore"):
                q["logits"] = np.log(p["probs"]) if fam == "Categorical" else np.log(p["probs"]) - np.log1p(-p["probs"])
            if np.isfinite(q["logits"]).all():
                return cc.make_leaf(fam, scope, C, R, q, K)
        return cc.make_leaf(fam, scope, C, R, p, K)

    del torch
    return make


def build(c):
    import torch

    cc.set_dtype(c)
    torch.manual_seed(c["seed"] % 2**31)
    store = {}
    fx, fz = leaf_factory(c, "x", store), leaf_factory(c, "z", store)
    if c["enc"] == "conv":
        from spflow.zoo.apc.encoders.convpc_joint_encoder import ConvPcJointEncoder

        e = ConvPcJointEncoder(input_height=c["H"], input_width=c["W"], input_channels=c["Ci"], latent_dim=c["nz"], channels=c["ch"], depth=c["depth"],
                               kernel_size=c["ks"], num_repetitions=c["R"], use_sum_conv=c["sumconv"], latent_depth=c["latent_depth"],
                               perm_latents=c["perm"], x_leaf_channels=c["xc"], x_leaf_factory=fx, z_leaf_factory=fz)
    else:
        from spflow.zoo.apc.encoders.einet_joint_encoder import EinetJointEncoder

        e = EinetJointEncoder(num_x_features=c["nx"], latent_dim=c["nz"], num_sums=c["sums"], num_leaves=c["leaves"], depth=c["depth"],
                              num_repetitions=c["R"], layer_type=c["layer"], x_leaf_factory=fx, z_leaf_factory=fz)
    leafp = {id(p) for m in e.modules() if type(m).__name__ in ("Normal", "Bernoulli", "Binomial", "Categorical") for p in m.parameters()}
    g = torch.Generator().manual_seed(c["seed"] % 2**31)
    with torch.no_grad():
        for p in e.parameters():
            if id(p) not in leafp:
                p.copy_((1.5 if c["style"] == "mild" else 3.0) * torch.randn(p.shape, generator=g, dtype=torch.float64))
    from spflow.modules.leaves.binomial import Binomial, BinomialDifferentiableSamplingMethod as M

    for m in e.modules():
        if isinstance(m, Binomial):  # the default is a documented normal approximation
            m.differentiable_sampling_method = M.SIMPLE
    return e, store


def tags(c, rec):
    rec.tag(c["enc"], f"z-{c['z'][0]}", f"x-{c['x'][0]}", f"R{c['R']}", "logits" if any(c["logits"]) else "probs")
    if c["enc"] == "conv":
        rec.tag(f"latent-depth-{c['latent_depth']}", "perm" if c["perm"] else "no-perm", "sum-conv" if c["sumconv"] else "sum")


def t(a):
    import torch

    return torch.as_tensor(np.asarray(a, float), dtype=torch.get_default_dtype())


def image(c, X):
    """Data-space form of flat rows."""
    if c["enc"] == "conv":
        return X.reshape(len(X), c["Ci"], c["H"], c["W"])
    return X.reshape(len(X), 1, c["nx"])


def np_(x):
    return x.detach().double().numpy()


def grid(k, n):
    return np.array(list(itertools.product(range(k), repeat=n)), float).reshape(k**n, n)


class Joint:
    """Table of the circuit's joint over the missing entries of one row."""

    def __init__(self, c, e, x, z):
        self.row = np.concatenate([x, z])
        self.free = [i for i in range(c["nx"] + c["nz"]) if np.isnan(self.row[i])]
        opts = [range(c["x"][1]) if i < c["nx"] else range(c["z"][1]) for i in self.free]
        S = np.repeat(self.row[None], int(np.prod([len(o) for o in opts])), 0)
        if self.free:
            S[:, self.free] = np.array(list(itertools.product(*opts)), float)
        self.S = S
        import torch

        with torch.no_grad():
            self.ll = np_(e.joint_log_likelihood(t(S[:, :c["nx"]]), t(S[:, c["nx"]:])))
        self.opts = [len(o) for o in opts]

    def total(self):
        return float(cc.lse(self.ll, 0))

    def marg(self, vars_):
        """Distribution over vars_ (subset of the free ones), and the cell index of a block of rows."""
        pos = [self.free.index(v) for v in vars_]
        sizes = [self.opts[p] for p in pos]
        strides = [int(np.prod(sizes[i + 1:])) for i in range(len(sizes))]

        def cell(rows):
            return sum((rows[:, v].astype(int) * s for v, s in zip(vars_, strides)), np.zeros(len(rows), int))

        p = np.exp(self.ll - self.total())
        return np.bincount(cell(self.S), weights=p, minlength=int(np.prod(sizes))), cell


# ----------------------------------------------------------------------------- encoder

@st.composite
def enc_case(draw):
    c = draw(enc())
    nx, nz = c["nx"], c["nz"]
    rows = []
    for _ in range(draw(st.integers(1, 3))):
        x = [draw(st.integers(0, c["x"][1] - 1)) for _ in range(nx)]
        how = draw(st.sampled_from(["full", "some", "some", "none" if nx <= 5 else "some"]))
        if how == "none":
            x = [None] * nx
        elif how == "some":
            for i in draw(st.lists(st.integers(0, nx - 1), min_size=1, max_size=4, unique=True)):
                x[i] = None
        rows.append([x, [draw(st.integers(0, c["z"][1] - 1)) for _ in range(nz)]])
    c["rows"] = rows
    c["shape"] = draw(st.sampled_from(["flat", "image"]))
    c["tau"] = draw(st.sampled_from([1.0, 1.0, 0.2, 4.0]))
    c["api"] = draw(st.sampled_from(["encode", "encode-stats", "decode", "prior", "apc"]))
    return c


def form(c, X):
    return image(c, X) if c["shape"] == "image" else X


def check_encoder(c, rec):
    import torch

    e, _ = build(c)
    tags(c, rec)
    nx, nz = c["nx"], c["nz"]
    X = np.array([[np.nan if v is None else float(v) for v in r[0]] for r in c["rows"]])
    Z = np.array([r[1] for r in c["rows"]], float)
    B = len(X)
    rec.tag(c["api"], c["shape"], "partial" if np.isnan(X).any() else "complete", "mixed" if len({tuple(np.isnan(x)) for x in X}) > 1 else "uniform")
    rec.nt(nx + nz > 2 and (np.isnan(X).any() or B > 1))
    tol = cc.tol(c)
    J = [Joint(c, e, x, np.full(nz, np.nan)) for x in X]
    JZ = [Joint(c, e, x, z) for x, z in zip(X, Z)]
    if c["x"][1] ** nx * c["z"][1] ** nz <= 1500:
        full = Joint(c, e, np.full(nx, np.nan), np.full(nz, np.nan))
        close(np.exp(full.total()), 1.0, "total mass of the joint over x and z", rtol=1e-4 if not c["f64"] else 1e-8)
    else:
        full = None
    # likelihoods
    x, z = t(X), t(Z)
    x0, z0 = x.clone(), z.clone()
    with torch.no_grad():
        close(np_(e.log_likelihood_x(form(c, x))), np.array([j.total() for j in J]), "log p(x) against the sum over the latents", **tol)
        close(np_(e.joint_log_likelihood(form(c, x), z)), np.array([j.total() for j in JZ]), "log p(x, z) against the sum over missing entries", **tol)
        ev = torch.cat([x, z], 1)
        close(np_(e.pc.log_likelihood(ev)).reshape(-1), np.array([j.total() for j in JZ]), "the circuit on [x, z]", **tol)
        if not np.isnan(X).any():
            close(np_(e.log_likelihood_x(form(c, x.long()))), np.array([j.total() for j in J]), "log p(x) of integer observations", **tol)
    for call, bad in ((lambda: e.joint_log_likelihood(form(c, t(np.zeros((2, nx)))), t(np.zeros((3, nz)))), "batch sizes of x and z differ"),
                      (lambda: e.log_likelihood_x(t(np.zeros((2, nx + 1)))), "x has a wrong number of features"),
                      (lambda: e.decode(t(np.zeros((2, nz + 1)))), "z has a wrong number of dimensions")):
        from spflow.exceptions import ShapeError

        try:
            call()
        except ShapeError:
            pass
        else:
            require(False, f"accepted although {bad}")
    # sampling
    def blocks(rows, fn, width):
        """fn on chunks of repeated rows -> (len(rows)*n, width) grouped by row."""
        def run(n):
            idx = np.repeat(np.arange(len(rows)), n)
            out = []
            for k in range(0, len(idx), CHUNK):
                S = fn(idx[k:k + CHUNK])
                require(S.shape[0] == len(idx[k:k + CHUNK]), f"{S.shape[0]} rows for {len(idx[k:k + CHUNK])} inputs")
                S = S.reshape(S.shape[0], -1)
                require(S.shape[1] == width, f"width {S.shape[1]}, expected {width}")
                require(bool(torch.isfinite(S).all()), "a sample is not finite")
                out.append(np_(S))
            S = np.concatenate(out)
            require(np.allclose(S, np.round(S), atol=1e-6), "a sample is not a category")
            return np.round(S)
        return run

    torch.manual_seed(c["seed"] % 2**31 + 1)
    zv = list(range(nx, nx + nz))
    with torch.no_grad():
        if c["api"] in ("encode", "encode-stats", "apc"):
            from spflow.zoo.apc.config import ApcConfig
            from spflow.zoo.apc.model import AutoencodingPC

            apc = AutoencodingPC(e, None, ApcConfig(latent_dim=nz, sample_tau=c["tau"]))

            def fn(i):
                xi = x[i]
                if c["api"] == "encode":
                    S = e.encode(form(c, xi), tau=c["tau"])
                elif c["api"] == "apc":
                    S = apc.encode(form(c, xi))
                else:
                    _, S = e.encode(form(c, xi), tau=c["tau"], return_latent_stats=True)
                require(tuple(S.shape) == (len(i), nz), f"latent shape {tuple(S.shape)}")
                require(torch.equal(torch.nan_to_num(xi, nan=-7.0), torch.nan_to_num(x0[i], nan=-7.0)), "encode changed its input")
                return S

            ms = [j.marg(zv) for j in J]
            run = blocks(X, fn, nz)

            def draw(n):
                S = run(n)
                pad = np.concatenate([np.zeros((len(S), nx)), S], 1)
                return [ms[0][1](pad[k * n:(k + 1) * n]) for k in range(B)]

            gof_multi(draw, [m[0] for m in ms], "latents given the observation")
            a, b = e.encode(form(c, x), mpe=True), e.encode(form(c, x), mpe=True)
            require(torch.equal(a, b), "the most probable latents of two calls differ")
            s, d = e.encode(form(c, x), mpe=True, return_latent_stats=True)
            require(torch.equal(a, d), "the most probable latents depend on whether statistics are asked for")
            del s
        elif c["api"] == "decode":
            for fill, given in ((False, True), (True, True), (False, False)):
                XX = X if given else np.full_like(X, np.nan)
                jj = JZ if given else ([Joint(c, e, x_, z_) for x_, z_ in zip(XX, Z)] if nx <= 4 else None)
                if jj is None:
                    continue

                def fn(i):
                    kw = {"x": form(c, t(XX[i]))} if given else {}
                    xin = kw["x"].clone() if given else None
                    zin = z[i]
                    S = e.decode(zin, tau=c["tau"], fill_evidence=fill, **kw)
                    want = (len(i), nx) if c["enc"] == "einet" or (given and c["shape"] == "flat") else (len(i), c["Ci"], c["H"], c["W"])
                    require(tuple(S.shape) == want, f"decoded shape {tuple(S.shape)}, expected {want}")
                    require(torch.equal(zin, z0[i]), "decode changed the latents")
                    if given:
                        require(torch.equal(torch.nan_to_num(kw["x"], nan=-7.0), torch.nan_to_num(xin, nan=-7.0)), "decode changed its evidence")
                        F = S.reshape(len(i), -1)
                        obs = ~torch.isnan(t(XX[i]))
                        require(torch.equal(F[obs], t(XX[i])[obs]), "decode does not respect the evidence")
                    return S

                run = blocks(XX, fn, nx)
                ms = []
                for j in jj:
                    ms.append(j.marg([v for v in j.free if v < nx]))

                def draw(n):
                    S = run(n)
                    pad = np.concatenate([S, np.zeros((len(S), nz))], 1)
                    return [ms[k][1](pad[k * n:(k + 1) * n]) for k in range(B)]

                gof_multi(draw, [m[0] for m in ms], f"reconstruction given latents (evidence {given}, fill {fill})")
        else:
            if full is None:
                rec.tag("not-run")
                return
            p, cell = full.marg(zv)

            def draw(n):
                S = np.round(np_(e.sample_prior_z(n, tau=c["tau"])))
                require(S.shape == (n, nz), f"prior samples of shape {S.shape}")
                return [cell(np.concatenate([np.zeros((n, nx)), S], 1))]

            gof_multi(draw, [p], "prior latents", n2=20000)
    require(torch.equal(torch.nan_to_num(x, nan=-7.0), torch.nan_to_num(x0, nan=-7.0)) and torch.equal(z, z0), "an input was changed")


# ----------------------------------------------------------------------------- latent statistics

@st.composite
def stats_case(draw):
    c = draw(enc(zfams=("Normal", "Normal", "Bernoulli", "Binomial", "Categorical"), xfams=("Bernoulli", "Normal", "Categorical"), small=True))
    c["B"] = draw(st.integers(1, 6))
    c["dseed"] = draw(st.integers(0, 10**6))
    c["tau"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
    c["nan"] = draw(st.booleans())
    return c


def stat_tables(fam, p, K):
    """(mean, variance, KL to the reference prior, decode value) per (feature, channel, repetition)."""
    if fam == "Normal":
        m, s2 = p["loc"], p["scale"] ** 2
        return m, s2, 0.5 * (m**2 + s2 - 1 - np.log(s2)), m
    q = p["probs"]
    if fam == "Categorical":
        k = np.arange(K)
        m = (q * k).sum(-1)
        with np.errstate(divide="ignore", invalid="ignore"):
            kl = np.where(q > 0, q * np.log(q * K), 0).sum(-1)
        return m, (q * k**2).sum(-1) - m**2, kl, q.argmax(-1).astype(float)
    n = p.get("total_count", np.ones_like(q))
    kl = n * (q * np.log(2 * q) + (1 - q) * np.log(2 * (1 - q)))
    dec = (q >= 0.5).astype(float) if fam == "Bernoulli" else np.minimum(np.floor((n + 1) * q), n)
    return n * q, n * q * (1 - q), kl, dec


def xdata(c):
    rng = np.random.default_rng(c["dseed"])
    X = rng.normal(size=(c["B"], c["nx"])).round(3) if c["x"][0] == "Normal" else rng.integers(0, c["x"][1], (c["B"], c["nx"])).astype(float)
    if c.get("nan"):
        X[rng.random(X.shape) < 0.3] = np.nan
    return X


def check_stats(c, rec):
    import torch

    e, store = build(c)
    tags(c, rec)
    fam, scope, p = store["z"]
    M, V, KL, D = stat_tables(fam, p, c["z"][1])
    X = xdata(c)
    B, nz = c["B"], c["nz"]
    x = t(X)
    rec.nt(B > 1 and M[0].size > 1)
    if B == nz:
        rec.tag("batch-equals-latents")
    tl = dict(rtol=1e-6, atol=1e-7) if c["f64"] else dict(rtol=2e-3, atol=2e-4)
    torch.manual_seed(c["seed"] % 2**31 + 3)

    def verify(s, what):
        mu, lv, kl, dl = np_(s.mu), np_(s.logvar), np_(s.kld_per_sample), np_(s.decode_latent)
        require(mu.shape == (B, nz) and lv.shape == (B, nz) and kl.shape == (B,) and dl.shape == (B, nz),
                f"{what}: shapes {mu.shape}, {lv.shape}, {kl.shape}, {dl.shape}")
        require(np.isfinite(kl).all() and (kl >= -1e-5).all(), f"{what}: KL {kl}")
        ch = np.full((B, nz, 2), -1)
        tot = np.zeros(B)
        for b in range(B):
            best = None
            for r in range(M.shape[2]):
                pick = []
                for f in range(nz):
                    ok = [k for k in range(M.shape[1]) if abs(M[f, k, r] - mu[b, f]) <= tl["atol"] + tl["rtol"] * abs(mu[b, f])
                          and abs(V[f, k, r] - math.exp(lv[b, f])) <= 10 * tl["atol"] + 10 * tl["rtol"] * V[f, k, r]]
                    if not ok:
                        break
                    pick.append(ok[0])
                else:
                    best = (r, pick)
                    break
            require(best is not None, f"{what}: row {b} reports mean {mu[b]} and log-variance {lv[b]}, no component of the latent leaf has these")
            r, pick = best
            for f in range(nz):
                tot[b] += KL[f, pick[f], r]
                ch[b, f] = (pick[f], r)
                pr = p["probs"][f, pick[f], r] if "probs" in p else None
                near = pr is not None and (np.sort(pr)[-1] - np.sort(pr)[-2] < 1e-5 if fam == "Categorical" else
                                           min(abs(pr - 0.5), abs((p.get("total_count", np.ones_like(p["probs"]))[f, pick[f], r] + 1) * pr % 1 - 0.5)) < -1)
                if not near and not (fam == "Bernoulli" and abs(pr - 0.5) < 1e-5) and not (
                        fam == "Binomial" and abs(((c["z"][1]) * pr) - round(c["z"][1] * pr)) < 1e-4):
                    close(dl[b, f], D[f, pick[f], r], f"{what}: decode value of row {b}, latent {f}", **tl)
        close(kl, tot, f"{what}: KL divergence", rtol=20 * tl["rtol"], atol=20 * tl["atol"])

    with torch.no_grad():
        verify(e.latent_stats(x), "latent_stats")
        s, z = e.encode(x, tau=c["tau"], return_latent_stats=True)
        verify(s, "encode")
        require(tuple(z.shape) == (B, nz) and bool(torch.isfinite(z).all()), "latent samples")
        s2, z2 = e.encode(x, mpe=True, return_latent_stats=True)
        verify(s2, "encode with mpe")
        require(torch.equal(z2, e.encode(x, mpe=True)), "the most probable latents depend on whether statistics are asked for")
        # law of total expectation: the mean of the routed means is the posterior mean
        n = 4000 if fam != "Normal" else 0
        if n and (c["x"][0] != "Normal") and not np.isnan(X).any():
            mus = np_(e.latent_stats(x[:1].repeat(n, 1)).mu)
            j = Joint(c, e, X[0], np.full(nz, np.nan))
            pz = np.exp(j.ll - j.total())
            want = (pz[:, None] * j.S[:, c["nx"]:]).sum(0)
            eps = (c["z"][1] - 1) * math.sqrt(math.log(2 * nz / 1e-10) / (2 * n))
            require(np.abs(mus.mean(0) - want).max() < eps, f"average reported mean {mus.mean(0)}, posterior mean {want} (Hoeffding bound {eps:.3f})")
            rec.tag("posterior-mean")
        if fam == "Normal":
            # z = mu + tau * sigma * eps around the reported moments, and z ~ p(z | x) at tau = 1
            n = 1500
            edges = np.array([-1.0, -0.3, 0.3, 1.0])
            from scipy import stats as ss

            pn = np.diff(np.concatenate([[0], ss.norm.cdf(edges), [1]]))

            def draw(k):
                s, z = e.encode(x[:1].repeat(k, 1), tau=c["tau"], return_latent_stats=True)
                u = np_((z - s.mu) / torch.exp(0.5 * s.logvar)) / c["tau"]
                return [np.searchsorted(edges, u[:, f]) for f in range(nz)]

            gof_multi(draw, [pn] * nz, "standardised latents", n=n, n2=20000)
            lo, hi = -14.0, 14.0
            g = np.linspace(lo, hi, 8001)
            f = c["dseed"] % nz
            ev = np.full((len(g), c["nx"] + nz), np.nan)
            ev[:, :c["nx"]] = X[0]
            ev[:, c["nx"] + f] = g
            d = np.exp(np_(e.pc.log_likelihood(t(ev))).reshape(-1) - float(e.log_likelihood_x(x[:1])))
            cdf = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2) * (g[1] - g[0])])
            close(cdf[-1], 1.0, "the posterior density of a latent integrates to one", rtol=1e-3)
            cut = [float(g[np.searchsorted(cdf, q)]) for q in (0.15, 0.4, 0.6, 0.85)]
            pc_ = np.diff(np.concatenate([[0], np.interp(cut, g, cdf), [cdf[-1]]]))

            def draw2(k):
                a = e.encode(x[:1].repeat(k, 1), tau=1.0)
                _, b = e.encode(x[:1].repeat(k, 1), tau=1.0, return_latent_stats=True)
                return [np.searchsorted(cut, np_(a)[:, f]), np.searchsorted(cut, np_(b)[:, f])]

            gof_multi(draw2, [pc_, pc_], "latents given the observation", n=n, n2=20000)


# ----------------------------------------------------------------------------- objective

def kl_formula(fam, s, K):
    """Closed-form KL per row from the reported moments (Normal and Bernoulli only)."""
    mu, v = np_(s.mu), np.exp(np_(s.logvar))
    if fam == "Normal":
        return 0.5 * (mu**2 + v - 1 - np.log(v)).sum(1)
    if fam == "Bernoulli":
        return (mu * np.log(2 * mu) + (1 - mu) * np.log(2 * (1 - mu))).sum(1)
    return np_(s.kld_per_sample)


def rec_formula(kind, x, y):
    x, y = x.reshape(len(x), -1), y.reshape(len(x), -1)
    if kind == "mse":
        return ((x - y) ** 2).sum() / len(x)
    with np.errstate(divide="ignore"):
        return -(x * np.maximum(np.log(y), -100) + (1 - x) * np.maximum(np.log1p(-y), -100)).sum() / len(x)


@st.composite
def obj_case(draw):
    bce = draw(st.booleans())
    c = draw(enc(zfams=("Normal", "Bernoulli", "Binomial", "Categorical"), xfams=("Bernoulli",) if bce else ("Bernoulli", "Normal", "Categorical"), small=True))
    c["loss"] = "bce" if bce else "mse"
    c["w"] = [draw(st.sampled_from([0.0, 1.0, 0.3, 2.5])) for _ in range(3)]
    c["mpe"] = draw(st.booleans())
    c["joint"] = draw(st.booleans())
    c["decoder"] = draw(st.booleans())
    c["tau"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
    c["B"] = draw(st.integers(1, 5))
    c["dseed"] = draw(st.integers(0, 10**6))
    c["img"] = draw(st.booleans())
    return c


def spy(e):
    """The encoder with its encode/decode calls recorded."""
    log = {"encode": [], "decode": []}
    enc0, dec0 = e.encode, e.decode

    def encode(x, **kw):
        out = enc0(x, **kw)
        log["encode"].append((kw, out))
        return out

    def decode(z, **kw):
        out = dec0(z, **kw)
        log["decode"].append((z, kw, out))
        return out

    e.encode, e.decode = encode, decode
    return log


def check_objective(c, rec):
    import torch
    from spflow.zoo.apc.config import ApcConfig, ApcLossWeights
    from spflow.zoo.apc.model import AutoencodingPC

    e, _ = build(c)
    tags(c, rec)
    wr, wk, wn = c["w"]
    rec.tag(c["loss"], "decoder" if c["decoder"] else "circuit-decodes", *(n for n, w in zip(("rec", "kld", "nll"), c["w"]) if w > 0))
    rec.nt(sum(w > 0 for w in c["w"]) > 1 and c["B"] > 1)
    torch.manual_seed(c["seed"] % 2**31 + 4)
    decoder = None
    if c["decoder"]:
        decoder = torch.nn.Sequential(torch.nn.Linear(c["nz"], c["nx"]), torch.nn.Sigmoid() if c["loss"] == "bce" else torch.nn.Identity())
    model = AutoencodingPC(e, decoder, ApcConfig(latent_dim=c["nz"], rec_loss=c["loss"], sample_tau=c["tau"], train_decode_mpe=c["mpe"],
                                                nll_x_and_z=c["joint"], loss_weights=ApcLossWeights(rec=wr, kld=wk, nll=wn)))
    x = t(xdata(c))
    if c["img"]:
        x = image(c, x)
    x0 = x.clone()
    log = spy(e)
    out = model.loss_components(x)
    require(torch.equal(x, x0), "the objective changed its input")
    tl = dict(rtol=1e-6, atol=1e-7) if c["f64"] else dict(rtol=2e-3, atol=2e-4)
    for k in ("rec", "kld", "nll", "total"):
        require(k in out and out[k].dim() == 0, f"component {k} is missing or not a scalar")
        require(bool(torch.isfinite(out[k])), f"component {k} is {float(out[k].detach())}")
    val = {k: float(out[k].detach()) for k in ("rec", "kld", "nll", "total")}
    for k, w in zip(("rec", "kld", "nll"), c["w"]):
        if w == 0:
            require(val[k] == 0, f"{k} is {val[k]} with weight zero")
    close(val["total"], wr * val["rec"] + wk * val["kld"] + wn * val["nll"], "total against the weighted sum", **tl)
    if wr > 0:
        close(val["rec"], rec_formula(c["loss"], np_(x), np_(out["x_rec"])), "reconstruction term from the reconstruction", **tl)
        require(out["x_rec"].reshape(c["B"], -1).shape[1] == c["nx"], f"reconstruction of shape {tuple(out['x_rec'].shape)}")
    enc_out = [o for kw, o in log["encode"]]
    stats_ = [o[0] for o in enc_out if isinstance(o, tuple)]
    zs = [o[1] if isinstance(o, tuple) else o for o in enc_out]
    for kw, _ in log["encode"]:
        require(kw.get("tau", 1.0) == c["tau"] and not kw.get("mpe", False), f"encoder called with {kw}")
    if "z" in out and zs:
        require(any(torch.equal(out["z"], z) for z in zs), "the reported latents are not those of the encoder")
    if wn > 0:
        with torch.no_grad():
            ll = e.joint_log_likelihood(x, out["z"]) if c["joint"] else e.log_likelihood_x(x)
            flat = torch.cat([x.reshape(c["B"], -1), out["z"].reshape(c["B"], -1) if c["joint"] else torch.full((c["B"], c["nz"]), torch.nan)], 1)
            l2 = e.pc.log_likelihood(flat).reshape(-1)
        close(np_(ll), np_(l2), "encoder likelihood against the circuit", **cc.tol(c))
        close(val["nll"], -np_(l2).mean(), "likelihood term", **tl)
    if wk > 0:
        close(val["kld"], kl_formula(c["z"][0], stats_[-1], c["z"][1]).mean(), "prior term from the reported moments", rtol=20 * tl["rtol"], atol=20 * tl["atol"])
        require(torch.equal(out["mu"], stats_[-1].mu) and torch.equal(out["logvar"], stats_[-1].logvar), "reported moments")
    if wr > 0:
        used = stats_[-1].decode_latent if c["mpe"] else out["z"]
        if decoder is not None:
            with torch.no_grad():
                close(np_(out["x_rec"]), np_(decoder(used)), "reconstruction against the decoder", **tl)
        else:
            require(len(log["decode"]) == 1, f"{len(log['decode'])} decode calls")
            zin, kw, xr = log["decode"][0]
            require(torch.equal(zin, used), "the circuit decodes other latents")
            require(kw.get("tau", 1.0) == c["tau"] and not kw.get("mpe", False) and kw.get("x") is None, f"decode called with {kw}")
            require(torch.equal(xr, out["x_rec"]), "reported reconstruction")
    # gradients
    params = [q for q in model.parameters() if q.requires_grad]
    if out["total"].requires_grad and params:
        g = torch.autograd.grad(out["total"], params, allow_unused=True)
        require(all(v is None or bool(torch.isfinite(v).all()) for v in g), "a gradient of the objective is not finite")
        if wn > 0 and wr == 0 and wk == 0 and not c["joint"]:
            ll = e.log_likelihood_x(x)
            g2 = torch.autograd.grad(-wn * ll.mean(), params, allow_unused=True)
            for a, b in zip(g, g2):
                close(np.zeros(1) if a is None else np_(a), np.zeros(1) if b is None else np_(b), "gradient of the likelihood term", **tl) if (a is None) == (b is None) else \
                    require(float((a if a is not None else b).abs().max()) < 1e-12, "gradient of the likelihood term is missing")


# ----------------------------------------------------------------------------- training and evaluation

def stub(c):
    """A deterministic, differentiable encoder whose objective has a closed form."""
    import torch
    from spflow.zoo.apc.encoders.base import LatentStats

    class Stub(torch.nn.Module):
        def __init__(self):
            super().__init__()
            g = torch.Generator().manual_seed(c["seed"] % 2**31)
            r = lambda *s: torch.nn.Parameter(0.5 * torch.randn(*s, generator=g, dtype=torch.float64).to(torch.get_default_dtype()))
            self.num_x_features, self.latent_dim = c["nx"], c["nz"]
            self.A, self.S, self.U, self.b = r(c["nx"], c["nz"]), r(c["nx"], c["nz"]), r(c["nz"], c["nx"]), r(c["nx"])

        def flat(self, x):
            return x.reshape(x.shape[0], -1)

        def moments(self, x):
            x = self.flat(x)
            k = 1.7 if self.training else 1.0  # a mode-dependent encoder
            return k * x @ self.A, torch.tanh(x @ self.S)

        def encode(self, x, *, mpe=False, tau=1.0, return_latent_stats=False):
            mu, lv = self.moments(x)
            z = mu + 0.1 * tau * torch.exp(0.5 * lv)
            if not return_latent_stats:
                return z
            kl = 0.5 * (mu**2 + lv.exp() - 1 - lv).sum(1)
            return LatentStats(mu=mu, logvar=lv, kld_per_sample=kl, decode_latent=mu), z

        def decode(self, z, *, x=None, mpe=False, tau=1.0, fill_evidence=False):
            y = z @ self.U + self.b
            return torch.sigmoid(y) if c["loss"] == "bce" else y

        def joint_log_likelihood(self, x, z):
            return -((self.flat(x) - z @ self.U) ** 2).sum(1) - 0.3 * (z**2).sum(1)

        def log_likelihood_x(self, x):
            return -(self.flat(x) ** 2 * self.b.exp()).sum(1)

        def sample_prior_z(self, num_samples, *, tau=1.0):
            return torch.zeros(num_samples, self.latent_dim)

        def latent_stats(self, x, *, tau=1.0):
            return self.encode(x, return_latent_stats=True)[0]

    return Stub()


def own_terms(e, c, x):
    """Per-sample objective terms, written out independently of the library."""
    import torch

    wr, wk, wn = c["w"]
    f = x.reshape(x.shape[0], -1)
    mu, lv = e.moments(x)
    z = mu + 0.1 * c["tau"] * torch.exp(0.5 * lv)
    y = (mu if c["mpe"] else z) @ e.U + e.b
    if c["loss"] == "bce":
        y = torch.sigmoid(y)
        rec = -(f * torch.log(y) + (1 - f) * torch.log(1 - y)).sum(1)
    else:
        rec = ((f - y) ** 2).sum(1)
    kl = 0.5 * (mu**2 + lv.exp() - 1 - lv).sum(1)
    nll = ((f - z @ e.U) ** 2).sum(1) + 0.3 * (z**2).sum(1) if c["joint"] else (f**2 * e.b.exp()).sum(1)
    zero = torch.zeros_like(rec)
    rec, kl, nll = (rec if wr else zero), (kl if wk else zero), (nll if wn else zero)
    return {"rec": rec, "kld": kl, "nll": nll, "total": wr * rec + wk * kl + wn * nll}


@st.composite
def train_case(draw):
    n = draw(st.integers(1, 12))
    c = {"nx": draw(st.integers(1, 4)), "nz": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6)), "f64": True, "n": n,
         "loss": draw(st.sampled_from(["mse", "bce"])), "w": [draw(st.sampled_from([0.0, 1.0, 0.3, 2.0])) for _ in range(3)],
         "mpe": draw(st.booleans()), "joint": draw(st.booleans()), "tau": draw(st.sampled_from([1.0, 0.5, 2.0])),
         "bs": draw(st.integers(1, 14)), "cuts": draw(st.lists(st.integers(0, n), max_size=4)), "wrap": draw(st.sampled_from(["tensor", "tuple", "list", "gen"])),
         "mode": draw(st.booleans()), "epochs": draw(st.integers(1, 3)), "opt": draw(st.sampled_from(["adam", "sgd"])),
         "lr": draw(st.sampled_from([1e-3, 0.02, 0.1])), "wd": draw(st.sampled_from([0.0, 0.1])),
         "clip": draw(st.sampled_from([None, 0.05, 1.0, 100.0])), "val": draw(st.booleans()), "img": draw(st.booleans())}
    if not any(c["w"]):
        c["w"][2] = 1.0
    return c


def check_training(c, rec):
    import torch
    from spflow.zoo.apc.config import ApcConfig, ApcLossWeights, ApcTrainConfig
    from spflow.zoo.apc.model import AutoencodingPC
    from spflow.zoo.apc.train import evaluate_apc, fit_apc, train_apc_step

    cc.set_dtype(c)
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    X = t(rng.random((n, c["nx"])).round(3))
    V = t(rng.random((7, c["nx"])).round(3))
    if c["img"]:
        X, V = X.reshape(n, 1, c["nx"]), V.reshape(7, 1, c["nx"])
    wr, wk, wn = c["w"]

    def model():
        return AutoencodingPC(stub(c), None, ApcConfig(latent_dim=c["nz"], rec_loss=c["loss"], sample_tau=c["tau"], train_decode_mpe=c["mpe"],
                                                      nll_x_and_z=c["joint"], loss_weights=ApcLossWeights(rec=wr, kld=wk, nll=wn)))

    cuts = sorted({0, n, *c["cuts"]})
    parts = [X[a:b] for a, b in zip(cuts, cuts[1:])]
    sizes = {len(q) for q in parts}
    rec.tag(c["loss"], c["wrap"], c["opt"], "unequal-batches" if len(sizes) > 1 else "equal-batches", "clip" if c["clip"] else "no-clip", "val" if c["val"] else "no-val")
    rec.nt(n > 1 and len(parts) > 1)

    def batches(qs):
        out = [q if c["wrap"] in ("tensor", "gen") else (q, torch.zeros(len(q))) if c["wrap"] == "tuple" else [q, None] for q in qs]
        return iter(out) if c["wrap"] == "gen" else out

    tl = dict(rtol=1e-9, atol=1e-11)
    # evaluation
    m = model()
    m.train(c["mode"])
    before = copy.deepcopy(m.state_dict())
    m.encoder.eval()
    with torch.no_grad():
        want = {k: float(v.mean()) for k, v in own_terms(m.encoder, c, X).items()}
    m.train(c["mode"])
    for what, data, kw in (("whole tensor", X, {}), (f"tensor in batches of {c['bs']}", X, {"batch_size": c["bs"]}), (f"batches of sizes {[len(q) for q in parts]}", batches(parts), {})):
        got = evaluate_apc(m, data, **kw)
        require(set(got) == set(want), f"metrics {sorted(got)}")
        for k in want:
            close(got[k], want[k], f"evaluation of {k} over {what}", **tl)
        require(m.training == c["mode"] and m.encoder.training == c["mode"], "evaluation changed the model's mode")
    require(all(torch.equal(a, b) for a, b in zip(before.values(), m.state_dict().values())), "evaluation changed parameters")
    require(all(q.grad is None for q in m.parameters()), "evaluation left gradients")
    # one step, and the epoch loop, against a written-out loop
    mk = lambda ps: torch.optim.SGD(ps, lr=c["lr"]) if c["opt"] == "sgd" else torch.optim.Adam(ps, lr=c["lr"], weight_decay=c["wd"])
    ref = stub(c)
    opt = mk(ref.parameters())

    def step(q):
        ref.train()
        opt.zero_grad(set_to_none=True)
        ter = {k: v.mean() for k, v in own_terms(ref, c, q).items()}
        ter["total"].backward()
        if c["clip"] is not None:
            gs = [p.grad for p in ref.parameters() if p.grad is not None]
            norm = math.sqrt(sum(float((g**2).sum()) for g in gs))
            if norm > c["clip"]:
                for g in gs:
                    g.mul_(c["clip"] / (norm + 1e-6))
        opt.step()
        return {k: float(v.detach()) for k, v in ter.items()}

    def same(a, b, what):
        for (k, p), q in zip(a.named_parameters(), b.parameters()):
            close(np_(p), np_(q), f"{what}: parameter {k}", rtol=1e-7, atol=1e-9)

    m = model()
    o = mk(m.parameters())
    got = train_apc_step(m, batches(parts[:1]) [0] if c["wrap"] != "gen" else parts[0], o, grad_clip_norm=c["clip"])
    want = step(parts[0])
    for k in want:
        close(float(got[k]), want[k], f"metrics of a training step: {k}", **tl)
    require(all(not v.requires_grad for v in got.values()), "step metrics carry gradients")
    same(m.encoder, ref, "after one training step")
    require(m.training, "the model is not in training mode after a step")

    ref = stub(c)
    opt = mk(ref.parameters())
    m = model()
    wrap = c["wrap"]
    if wrap == "gen":
        c = dict(c, wrap="tensor")
    cfg = ApcTrainConfig(epochs=c["epochs"], batch_size=max(c["bs"], n) if wrap == "tensor" else c["bs"], learning_rate=c["lr"], weight_decay=c["wd"] if c["opt"] == "adam" else 0.0,
                         grad_clip_norm=c["clip"])
    data = X if wrap == "tensor" else batches(parts)
    seq = [X] if wrap == "tensor" else parts
    val = None if not c["val"] else (V if wrap == "tensor" else [V[:2], (V[2:], 1)])
    hist = fit_apc(m, data, config=cfg, optimizer=None if c["opt"] == "adam" else mk(m.parameters()), val_data=val)
    require(len(hist) == c["epochs"], f"{len(hist)} epochs of history")
    for ep in range(c["epochs"]):
        tot = dict.fromkeys(("rec", "kld", "nll", "total"), 0.0)
        for q in seq:
            for k, v in step(q).items():
                tot[k] += v * len(q)
        row = {"epoch": ep + 1.0, **{f"train_{k}": v / n for k, v in tot.items()}}
        if c["val"]:
            ref.eval()
            with torch.no_grad():
                row.update({f"val_{k}": float(v.mean()) for k, v in own_terms(ref, c, V).items()})
        require(set(hist[ep]) == set(row), f"history keys {sorted(hist[ep])}")
        for k, v in row.items():
            close(hist[ep][k], v, f"epoch {ep + 1}: {k}", rtol=1e-6, atol=1e-8)
    same(m.encoder, ref, "after training")
    # shuffled mini-batches of a tensor: with a zero step size the epoch metrics are those of the whole data
    m = model()
    cfg = ApcTrainConfig(epochs=1, batch_size=c["bs"])
    h = fit_apc(m, X, config=cfg, optimizer=torch.optim.SGD(m.parameters(), lr=0.0))[0]
    m.train()
    with torch.no_grad():
        for k, v in own_terms(m.encoder, c, X).items():
            close(h[f"train_{k}"], float(v.mean()), f"shuffled epoch with batches of {c['bs']}: {k}", **tl)
    from spflow.exceptions import InvalidParameterError

    for call in (lambda: evaluate_apc(m, []), lambda: fit_apc(m, [], config=cfg)):
        try:
            call()
        except InvalidParameterError:
            pass
        else:
            require(False, "empty data accepted")


# ----------------------------------------------------------------------------- evaluation of the circuit objective

@st.composite
def eval_case(draw):
    c = draw(enc(zfams=("Bernoulli", "Categorical", "Normal"), xfams=("Bernoulli", "Categorical", "Normal"), small=True))
    c["B"] = draw(st.integers(1, 10))
    c["dseed"] = draw(st.integers(0, 10**6))
    c["bs"] = draw(st.integers(1, 11))
    c["cuts"] = draw(st.lists(st.integers(0, c["B"]), max_size=4))
    c["w"] = draw(st.sampled_from([0.5, 1.0, 3.0]))
    c["nan"] = draw(st.booleans())
    return c


def check_eval(c, rec):
    import torch
    from spflow.zoo.apc.config import ApcConfig, ApcLossWeights
    from spflow.zoo.apc.model import AutoencodingPC
    from spflow.zoo.apc.train import evaluate_apc

    e, _ = build(c)
    tags(c, rec)
    x = t(xdata(c))
    with torch.no_grad():
        flat = torch.cat([x, torch.full((c["B"], c["nz"]), torch.nan)], 1)
        rows = np.array([float(e.pc.log_likelihood(flat[i:i + 1])) for i in range(c["B"])])
    want = -rows.mean()
    cuts = sorted({0, c["B"], *c["cuts"]})
    rec.nt(c["B"] > 1 and len(cuts) > 2)
    m = AutoencodingPC(e, None, ApcConfig(latent_dim=c["nz"], nll_x_and_z=False, loss_weights=ApcLossWeights(rec=0.0, kld=0.0, nll=c["w"])))
    tl = dict(rtol=1e-8, atol=1e-9) if c["f64"] else dict(rtol=1e-4, atol=1e-4)
    for data, kw in ((x, {}), (x, {"batch_size": c["bs"]}), ([x[a:b] for a, b in zip(cuts, cuts[1:])], {})):
        got = evaluate_apc(m, data, **kw)
        close(got["nll"], want, "mean negative log-likelihood of the data", **tl)
        close(got["total"], c["w"] * want, "weighted objective", **tl)
        require(got["rec"] == 0 and got["kld"] == 0, f"terms of weight zero: {got}")


PROP = Prop("C25", [
    Facet("encoder", enc_case(), check_encoder, quick=250, thorough=900, rule="more than two variables and missing entries or several rows"),
    Facet("stats", stats_case(), check_stats, quick=220, thorough=900, rule="several rows and several latent components"),
    Facet("objective", obj_case(), check_objective, quick=350, thorough=2500, rule="several rows and at least two weighted terms"),
    Facet("training", train_case(), check_training, quick=300, thorough=2500, rule="several batches"),
    Facet("evaluation", eval_case(), check_eval, quick=200, thorough=1200, rule="several batches"),
])
