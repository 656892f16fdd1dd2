"""Core of the property-based-testing harness.

A *property* (C01, C02, ...) is decided by one or more *facets*.  A facet is a
Hypothesis strategy producing JSON-able cases plus a check function.  The check
builds SPFlow objects from the case, runs them and compares with an explicit
oracle; it raises ``Violation`` when the property is broken.  Everything random
comes from the case, so a case is its own replay file.
"""
from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import time
import traceback
from typing import Any, Callable

import numpy as np

REPO = os.path.realpath(os.environ.get("SPFLOW_REPO", "/repo"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """A fault of the harness itself (never reported as a violation)."""


class StopSearch(BaseException):
    """Ends a Hypothesis run early (budget exhausted while shrinking)."""


@dataclasses.dataclass
class Facet:
    name: str
    strategy: Any
    check: Callable[[dict, "Rec"], None]
    quick: int = 100
    thorough: int = 2000
    rule: str = ""
    known: Callable[[dict], str | None] | None = None  # returns key of a recorded finding to exclude
    budget: float = 150.0  # soft wall budget in quick tier (seconds)
    shards: int = 0  # parallel processes for this facet (0: share the 8 cores evenly)


@dataclasses.dataclass
class Prop:
    id: str
    facets: list
    level_note: str = ""
    assumptions: tuple = ()


class Rec:
    """Per-case recorder: classifies the case and stores evidence."""

    def __init__(self) -> None:
        self.nontrivial = False
        self.tags: list[str] = []
        self.evals = 0

    def nt(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial = True

    def tag(self, *tags: str) -> None:
        self.tags.extend(tags)

    def n(self, k: int = 1) -> None:
        self.evals += k


def require(cond: Any, msg: str) -> None:
    if not bool(cond):
        raise Violation(msg)


def _np(x: Any) -> np.ndarray:
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


def close(actual: Any, expected: Any, what: str, rtol: float = 1e-6, atol: float = 1e-6) -> None:
    """Equality up to a stated tolerance; +-inf must agree exactly, NaN never allowed unless expected."""
    a, e = _np(actual), _np(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {e.shape}")
    if a.size == 0:
        return
    a, e = np.atleast_1d(a), np.atleast_1d(e)
    nan_a, nan_e = np.isnan(a), np.isnan(e)
    if (nan_a != nan_e).any():
        i = tuple(int(v[0]) for v in np.nonzero(nan_a != nan_e))
        raise Violation(f"{what}: NaN mismatch at {i}: got {a[i]}, expected {e[i]}")
    inf_a, inf_e = np.isinf(a), np.isinf(e)
    bad = (inf_a | inf_e) & (a != e) & ~nan_a
    with np.errstate(invalid="ignore"):
        d = np.abs(a - e)
        tol = atol + rtol * np.abs(e)
        bad = bad | ((d > tol) & ~inf_a & ~inf_e & ~nan_a)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Violation(f"{what}: at {i} got {a[i]!r}, expected {e[i]!r} (tol rtol={rtol} atol={atol})")


def raises(fn: Callable[[], Any], what: str, exc=Exception) -> BaseException:
    try:
        fn()
    except exc as e:  # noqa: BLE001
        return e
    raise Violation(f"{what}: expected an exception ({exc}), none raised")


def in_spflow(exc: BaseException) -> bool:
    """True when the exception was raised while executing SPFlow code."""
    root = os.path.join(REPO, "spflow") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc: BaseException) -> str:
    frames = traceback.extract_tb(exc.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(frames[-6:]))


def case_key(case: Any) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_check(facet: Facet, case: dict) -> tuple[Rec, str | None]:
    """Run one case. Returns (rec, violation message or None). Harness errors propagate."""
    rec = Rec()
    import torch
    import warnings

    dt = torch.get_default_dtype()
    torch.manual_seed(0)
    np.random.seed(0)
    import random as _random

    _random.seed(0)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.check(case, rec)
        return rec, None
    except Violation as v:
        return rec, str(v)
    except Exception as e:  # noqa: BLE001
        if in_spflow(e):
            return rec, f"unexpected {type(e).__name__} on a valid input: {str(e)[:300]} [{short_tb(e)}]"
        if isinstance(e, (HarnessError, ImportError, NameError, MemoryError)):
            raise  # a fault of the harness, never of the code under test
        # The check is a total function of SPFlow's outputs: an output it cannot even process is malformed.
        return rec, f"malformed result: {type(e).__name__}: {str(e)[:300]} [{short_tb(e)}]"
    finally:
        torch.set_default_dtype(dt)
        torch.set_grad_enabled(True)


def run_facet(pid: str, facet: Facet, tier: str, seed: int, deadline: float, shard: int = 0, nshards: int = 1) -> dict:
    """Drive one facet with Hypothesis. Returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    import torch

    torch.set_num_threads(1)
    t0 = time.time()
    n = facet.quick if tier == "quick" else facet.thorough
    n = max(1, n // nshards + (1 if shard < n % nshards else 0))
    hseed = int(hashlib.sha1(f"{pid}/{facet.name}/{seed}/{shard}".encode()).hexdigest()[:8], 16)
    st = {
        "facet": facet.name, "evaluations": 0, "nontrivial": 0, "excluded_known": {}, "tags": {},
        "samples": [], "skipped_budget": 0, "violation": None, "rule": facet.rule, "error": None,
    }
    keys: set[str] = set()
    fails: list[tuple[int, dict, str]] = []
    first_fail = [0.0]
    budget = facet.budget if tier == "quick" else facet.budget * 4
    end = min(deadline, t0 + budget)

    def body(case: dict) -> None:
        now = time.time()
        if fails and (now - first_fail[0] > 40 or now > deadline):
            raise StopSearch()
        if not fails and now > end:
            st["skipped_budget"] += 1
            return
        if facet.known is not None:
            k = facet.known(case)
            if k:
                st["excluded_known"][k] = st["excluded_known"].get(k, 0) + 1
                return
        rec, msg = run_check(facet, case)
        st["evaluations"] += max(1, rec.evals)
        for t in rec.tags:
            st["tags"][t] = st["tags"].get(t, 0) + 1
        if rec.nontrivial:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                if len(st["samples"]) < 2 and (len(keys) in (3, 12)) and shard == 0:
                    st["samples"].append({"facet": facet.name, "case": case, "tags": rec.tags})
        if msg is not None:
            if not fails:
                first_fail[0] = time.time()
            fails.append((len(json.dumps(case)), case, msg))
            raise Violation(msg)

    phases = (Phase.generate, Phase.shrink)
    test = hypothesis.given(facet.strategy)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
        print_blob=False, suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(hseed)(test)
    try:
        test()
    except StopSearch:
        pass
    except BaseException as e:  # noqa: BLE001
        if not fails:
            st["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    if fails:
        fails.sort(key=lambda t: t[0])
        case, msg = fails[0][1], fails[0][2]
        st["violation"] = {"case": case, "message": msg, "failing_cases_seen": len(fails)}
    st["nontrivial"] = len(keys)
    st["keys"] = sorted(keys)
    st["wall_s"] = round(time.time() - t0, 2)
    return st
