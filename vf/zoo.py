"""Randomly structured library models (RAT-SPN, Einet, ConvPc, Naive Bayes, Factorize towers) as JSON cases."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vf import circ as cc

CONV = [(h, k, d) for h in (1, 2, 3) for k in (1, 2, 3, 5) for d in (1, 2)
        if (h % k**d == 0) or (k**d > h and (k**d - h) % 2 == 0 and k**d <= 9)]


@st.composite
def zoo(draw, kinds=("rat", "einet", "conv", "nb", "fac"), maxD=6, maxstates=300, classes=(1, 1, 2, 3), families=("cat",), maxR=3, leafkinds=None):
    kind = draw(st.sampled_from(list(kinds)))
    c = {"zoo": kind, "seed": draw(st.integers(0, 2**31 - 1)), "f64": draw(st.sampled_from([True, True, True, False])),
         "style": draw(st.sampled_from(["default", "mild", "mild", "spiky"]))}
    if kind == "conv":
        h, k, d = draw(st.sampled_from(CONV))
        c.update(H=h, ks=k, depth=d, sumconv=draw(st.booleans()), ch=draw(st.integers(1, 3)))
        n = h * h
    else:
        n = draw(st.integers(2 if kind in ("rat", "fac") else 1, maxD))
    if kind == "conv":
        f = draw(st.sampled_from(list(families)))
        v = [f] if f != "cat" else ["cat", draw(st.sampled_from([2, 3] if 3**n <= (maxstates or 10**9) else [2]))]
        vt = [v] * n
    else:
        vt = draw(cc.vtypes(n, list(families), maxstates))
    c["n"], c["vt"] = n, vt
    order = draw(st.permutations(range(n)))
    if kind == "conv":
        order = draw(st.sampled_from([list(range(n)), list(order)]))
    leaves, i = [], 0
    while i < n:
        same = [j for j in range(i, n) if vt[order[j]] == vt[order[i]]]
        run = 1
        while i + run < n and vt[order[i + run]] == vt[order[i]]:
            run += 1
        k = run if kind == "conv" else draw(st.integers(1, run))
        fams = [f for f in cc.kinds_for(vt[order[i]]) if f != "Hypergeometric" and (f != "Histogram" or k == 1)
                and (leafkinds is None or f in leafkinds)]
        leaves.append([draw(st.sampled_from(fams)), list(order[i:i + k])])
        i += k
        del same
    c["leaves"] = leaves
    c["classes"] = draw(st.sampled_from([k for k in classes])) if kind in ("rat", "einet", "nb") else 1
    c["R"] = 1 if kind in ("conv", "nb") else draw(st.integers(1, maxR))
    c["leafC"] = c["classes"] if kind == "nb" else draw(st.integers(1, 3))
    top = int(math.log2(n)) if n > 0 else 0
    if kind == "rat":
        c.update(depth=draw(st.integers(1, top)), region=draw(st.integers(1, 3)), outer=draw(st.booleans()),
                 mode=draw(st.sampled_from(["none", "consecutive", "interleaved"])))
    if kind == "einet":
        c.update(depth=draw(st.integers(0, top)), sums=draw(st.integers(1, 3)), layer=draw(st.sampled_from(["einsum", "linsum"])),
                 structure=draw(st.sampled_from(["top-down", "bottom-up"])))
    if kind == "fac":
        c.update(depth=draw(st.integers(0, top)))
    if kind == "nb":
        c["prior"] = draw(st.sampled_from(["none", "list", "tensor"])) if c["classes"] > 1 else "none"
        c["learn"] = draw(st.booleans()) and c["classes"] > 1
    return c


def make_leaves(c, par):
    out, refs = [], []
    for fam, vs in c["leaves"]:
        K = c["vt"][vs[0]][1] if c["vt"][vs[0]][0] == "cat" else None
        p = cc.leaf_params(fam, len(vs), c["leafC"], c["R"], K, par)
        out.append(cc.make_leaf(fam, vs, c["leafC"], c["R"], p, K))
        refs.append(cc.RLeaf(fam, vs, c["leafC"], c["R"], p))
    return out, refs


def prior_of(c):
    rng = np.random.default_rng(c["seed"] + 77)
    pr = np.round(rng.uniform(0.1, 4.0, c["classes"]), 3)
    if c["seed"] % 3 == 0:  # rare classes
        pr = pr * 10.0 ** -rng.integers(0, 7, c["classes"])
    return pr


def build(c):
    """Returns (module, leaf references)."""
    import torch

    torch.manual_seed(c["seed"] % 2**31)
    np.random.seed(c["seed"] % 2**31)
    par = cc.Par(c["seed"], "mild" if c["style"] == "default" else c["style"])
    leaves, refs = make_leaves(c, par)
    k = c["zoo"]
    if k == "rat":
        from spflow.modules.ops.split import SplitMode
        from spflow.zoo.rat import RatSPN

        sm = None if c["mode"] == "none" else getattr(SplitMode, c["mode"])(2)
        m = RatSPN(leaf_modules=leaves, n_root_nodes=c["classes"], n_region_nodes=c["region"], num_repetitions=c["R"], depth=c["depth"],
                   outer_product=c["outer"], split_mode=sm)
    elif k == "einet":
        from spflow.zoo.einet import Einet

        m = Einet(leaf_modules=leaves, num_classes=c["classes"], num_sums=c["sums"], num_leaves=c["leafC"], depth=c["depth"],
                  num_repetitions=c["R"], layer_type=c["layer"], structure=c["structure"])
    elif k == "conv":
        from spflow.zoo.conv import ConvPc

        m = ConvPc(leaves[0], c["H"], c["H"], c["ch"], c["depth"], c["ks"], 1, c["sumconv"])
    elif k == "nb":
        from spflow.zoo.naive_bayes import NaiveBayes

        pr = prior_of(c)
        kw = {}
        if c["prior"] == "list":
            kw["class_prior"] = [float(v) for v in pr]
        elif c["prior"] == "tensor":
            kw["class_prior"] = torch.tensor(pr)
        if c["learn"]:
            kw["learnable_prior"] = True
        m = NaiveBayes(leaves[0] if len(leaves) == 1 and c["seed"] % 2 else leaves, num_classes=c["classes"], **kw)
    else:
        from spflow.modules.products import Product
        from spflow.modules.rat import Factorize
        from spflow.modules.sums import Sum
        from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer

        f = Factorize(inputs=leaves, depth=c["depth"], num_repetitions=c["R"])
        m = Sum(inputs=Product(inputs=f), out_channels=1, num_repetitions=c["R"])
        if c["R"] > 1:
            m = RepetitionMixingLayer(inputs=m, out_channels=1, num_repetitions=c["R"])
    if k != "nb" and c["style"] != "default":
        s = 1.0 if c["style"] == "mild" else 3.0
        leafp = {id(p) for l in leaves for p in l.parameters()}
        g = torch.Generator().manual_seed(c["seed"] % 2**31)
        with torch.no_grad():
            for p in m.parameters():
                if id(p) not in leafp:
                    p.copy_(s * torch.randn(p.shape, generator=g, dtype=torch.float64))
    return m, refs


def tags(c):
    t = [c["zoo"], f"depth{c.get('depth', 0)}", f"R{c['R']}"]
    if c["classes"] > 1:
        t.append("classes")
    for k in ("layer", "structure", "mode"):
        if k in c:
            t.append(f"{c['zoo']}:{c[k]}")
    if c.get("outer"):
        t.append("outer")
    if c["zoo"] == "conv":
        t.append("sumconv" if c["sumconv"] else "sum")
        if c["H"] % c["ks"] ** c["depth"]:
            t.append("padded")
    return t
