"""Cells and reference cell probabilities for sampling checks."""
from __future__ import annotations

import itertools

import numpy as np

from vf import circ as cc
from vf.core import HarnessError, require

CAND = {
    "count": np.arange(0, 30.0),
    "real": np.round(np.sinh(np.linspace(-3, 3, 41)), 3) + 1e-3,
    "pos": np.round(np.exp(np.linspace(-3, 3, 41)), 3) + 1e-3,
    "unit": np.round(np.linspace(-1.4, 2.4, 60), 3) + 1e-3,
}
CAND["hist"] = CAND["unit"]


def cuts_for(ref_ll, vt, v, n, cells=3):
    """Choose cut points of variable v near equal reference mass. ref_ll(X3) -> (B,) log mass."""
    if vt[0] == "cat":
        return None
    c = CAND[vt[0]]
    X = np.full((len(c), n, 2), np.nan)
    X[:, v, 1] = c
    cdf = np.exp(ref_ll(X))
    cuts = []
    for q in np.arange(1, cells) / cells:
        cuts.append(float(c[int(np.argmin(np.abs(cdf - q)))]))
    return sorted(set(cuts))


class Cells:
    """A product grid of cells over the variables `vars_`; reference masses conditional on fixed evidence."""

    def __init__(self, case, ref_ll, vars_, evidence=None, maxcells=96):
        """evidence: row (n,) with NaN on non-evidence; variables not in vars_ and not observed are marginal."""
        self.vt, self.n, self.vars = case["vt"], case["n"], list(vars_)
        ev = np.full(self.n, np.nan) if evidence is None else np.asarray(evidence, float)
        base = np.stack([ev, ev], -1)

        def with_ev(X3):
            Y = np.where(np.isnan(base)[None], X3, base[None])
            return ref_ll(Y)

        z = float(with_ev(np.full((1, self.n, 2), np.nan))[0])
        self.logz = z
        self.cuts, total, self.used = {}, 1, []
        for v in self.vars:
            cu = cuts_for(lambda X: with_ev(X) - z, self.vt[v], v, self.n)
            k = self.vt[v][1] if cu is None else len(cu) + 1
            if total * k > maxcells:
                continue
            total *= k
            self.used.append(v)
            self.cuts[v] = cu
        opts = []
        for v in self.used:
            cu = self.cuts[v]
            if cu is None:
                opts.append([(float(k), float(k)) for k in range(self.vt[v][1])])
            else:
                lo, step = -np.inf, (1.0 if self.vt[v][0] == "count" else 0.0)
                o = []
                for c in cu:
                    o.append((lo, c))
                    lo = c + step
                o.append((lo, np.inf))
                opts.append(o)
        combos = list(itertools.product(*opts))
        X3 = np.full((len(combos), self.n, 2), np.nan)
        for i, cmb in enumerate(combos):
            for v, b in zip(self.used, cmb):
                X3[i, v] = b
        self.probs = np.exp(with_ev(X3) - z)
        if not np.isfinite(self.probs).all() or abs(self.probs.sum() - 1) > 1e-6:
            raise HarnessError(f"cell probabilities sum to {self.probs.sum()}")

    def index(self, S):
        """Samples (N, n) -> cell index."""
        idx = np.zeros(len(S), dtype=np.int64)
        for v in self.used:
            cu = self.cuts[v]
            if cu is None:
                k, K = S[:, v].astype(np.int64), self.vt[v][1]
            else:
                k, K = np.searchsorted(np.array(cu), S[:, v], side="left"), len(cu) + 1
            idx = idx * K + k
        return idx


def check_support(case, S, what):
    """Samples are complete and inside the domain of each variable."""
    require(not np.isnan(S).any(), f"{what}: sample contains NaN")
    require(np.isfinite(S).all(), f"{what}: sample contains infinite values")
    for v, vt in enumerate(case["vt"]):
        x = S[:, v]
        if vt[0] == "cat":
            require(((x >= 0) & (x < vt[1]) & (x == np.round(x))).all(), f"{what}: variable {v} outside its domain")
        elif vt[0] == "count":
            require(((x >= 0) & (x == np.round(x))).all(), f"{what}: variable {v} is not a count")
        elif vt[0] == "pos":
            require((x >= 0).all(), f"{what}: variable {v} negative")


__all__ = ["Cells", "check_support", "cc"]
