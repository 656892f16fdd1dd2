"""Goodness-of-fit oracle: two-stage Pearson test with pooled cells and an explicit error rate."""
from __future__ import annotations

import numpy as np
from scipy import stats

from vf.core import HarnessError, Violation


def _pearson(counts, probs, minexp=12.0):
    """p-value of the counts under probs (cells with small expectation are pooled)."""
    n = counts.sum()
    e = probs * n
    order = np.argsort(-e)
    c, e = counts[order], e[order]
    big = e >= minexp
    oc, oe = list(c[big]), list(e[big])
    rc, re = c[~big].sum(), e[~big].sum()
    if re >= minexp:
        oc.append(rc)
        oe.append(re)
    elif oc:
        oc[-1] += rc
        oe[-1] += re
    if len(oc) < 2:
        return 1.0
    oc, oe = np.array(oc, float), np.array(oe, float)
    x = ((oc - oe) ** 2 / oe).sum()
    return float(stats.chi2.sf(x, len(oc) - 1))


def gof(draw, probs, what, n=1500, n2=30000, p1=1e-3, p2=1e-9):
    """draw(k) -> k cell indices. Violation if the draws do not follow probs (false-alarm rate << 1e-9)."""
    probs = np.asarray(probs, float)
    if abs(probs.sum() - 1) > 1e-3:
        raise HarnessError(f" reference probabilities sum to {probs.sum()} ({what})")
    probs = probs / probs.sum()

    def counts(k):
        c = np.bincount(np.asarray(draw(k)), minlength=len(probs)).astype(float)
        zero = (probs < 1e-12) & (c > 0)
        if zero.any():
            i = int(np.nonzero(zero)[0][0])
            raise Violation(f"{what}: {int(c[i])} of {k} samples in cell {i} of probability {probs[i]:.3g}")
        return c

    p = _pearson(counts(n), probs)
    if p > p1:
        return p
    c = counts(n2)
    p = _pearson(c, probs)
    if p < p2:
        i = int(np.argmax(np.abs(c / n2 - probs)))
        raise Violation(f"{what}: samples do not follow the distribution (p={p:.2g}, n={n2}): cell {i} has frequency "
                        f"{c[i] / n2:.4f}, expected {probs[i]:.4f}")
    return p


def gof_multi(draw, probs_list, what, n=1200, n2=30000, p1=1e-3, p2=1e-9):
    """Several groups at once: draw(k) -> list of index arrays (k per group). Only suspicious groups are re-tested."""
    P = []
    for p in probs_list:
        p = np.asarray(p, float)
        if abs(p.sum() - 1) > 1e-3:
            raise HarnessError(f"reference probabilities sum to {p.sum()} ({what})")
        P.append(p / p.sum())

    def counts(k):
        out = []
        for g, (idx, p) in enumerate(zip(draw(k), P)):
            c = np.bincount(np.asarray(idx), minlength=len(p)).astype(float)
            zero = (p < 1e-12) & (c > 0)
            if zero.any():
                i = int(np.nonzero(zero)[0][0])
                raise Violation(f"{what} [group {g}]: {int(c[i])} of {k} samples in cell {i} of probability {p[i]:.3g}")
            out.append(c)
        return out

    if all(_pearson(c, p) > p1 / len(P) for c, p in zip(counts(n), P)):
        return
    for g, (c, p) in enumerate(zip(counts(n2), P)):
        pv = _pearson(c, p)
        if pv < p2:
            i = int(np.argmax(np.abs(c / n2 - p)))
            raise Violation(f"{what} [group {g}]: samples do not follow the distribution (p={pv:.2g}, n={n2}): cell {i} "
                            f"has frequency {c[i] / n2:.4f}, expected {p[i]:.4f}")
