"""Command line entry: python -m vf.runner C01 [quick|thorough] | C01 --replay FILE."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from vf import core

KNOWN = os.path.join(core.HERE, "known_findings.jsonl")


def load_prop(pid: str) -> core.Prop:
    return importlib.import_module(f"vf.props.{pid.lower()}").PROP


def load_known(pid: str) -> list[dict]:
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("kind") == "known":
                    out.append(d)
    return out


def _worker(args):
    pid, fname, tier, seed, deadline, shard, nshards = args
    try:
        prop = load_prop(pid)
        facet = next(f for f in prop.facets if f.name == fname)
        return core.run_facet(pid, facet, tier, seed, deadline, shard, nshards)
    except BaseException as e:  # noqa: BLE001
        return {"facet": fname, "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}", "violation": None,
                "evaluations": 0, "nontrivial": 0, "samples": [], "tags": {}, "excluded_known": {}, "rule": "",
                "skipped_budget": 0, "wall_s": 0.0}


def merge(parts: list[dict]) -> dict:
    """Combine the shards of one facet."""
    out = dict(parts[0])
    keys = set()
    out["tags"], out["excluded_known"] = {}, {}
    out["evaluations"] = out["skipped_budget"] = 0
    out["samples"], out["error"], out["violation"] = [], None, None
    for p in parts:
        keys.update(p.get("keys", []))
        out["evaluations"] += p["evaluations"]
        out["skipped_budget"] += p["skipped_budget"]
        out["samples"] += p["samples"]
        out["wall_s"] = max(out["wall_s"], p["wall_s"])
        for f in ("tags", "excluded_known"):
            for k, v in p[f].items():
                out[f][k] = out[f].get(k, 0) + v
        out["error"] = out["error"] or p["error"]
        v = p["violation"]
        if v and (out["violation"] is None or len(json.dumps(v["case"])) < len(json.dumps(out["violation"]["case"]))):
            out["violation"] = v
    out["nontrivial"] = len(keys)
    out.pop("keys", None)
    return out


def main(argv: list[str]) -> int:
    t0 = time.time()
    pid = argv[0]
    sys.stdout.reconfigure(line_buffering=True)
    import spflow

    root = os.path.realpath(os.path.dirname(os.path.dirname(spflow.__file__)))
    if root != core.REPO:
        print(f"ERROR: spflow imported from {root}, expected {core.REPO}")
        return 3
    prop = load_prop(pid)
    if len(argv) > 1 and argv[1] == "--replay":
        rep = json.load(open(argv[2]))
        facet = next(f for f in prop.facets if f.name == rep["facet"])
        _, msg = core.run_check(facet, rep["case"])
        if msg is None:
            print(f"replay: property {pid} holds on this case")
            return 0
        print(msg)
        print(f"VIOLATION property={pid} replay={os.path.abspath(argv[2])}")
        return 1
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)

    known_lines = []
    known = load_known(pid)
    for k in known:
        facet = next((f for f in prop.facets if f.name == k["facet"]), None)
        if facet is None:
            continue
        _, msg = core.run_check(facet, k["case"])
        if msg is not None:
            line = f"KNOWN-FINDING: property={pid} {k['key']}: {k['what']}"
            known_lines.append(line)
            print(line)

    facets = [f for f in prop.facets if only is None or f.name == only]
    cores = min(8, os.cpu_count() or 2)
    jobs = []
    for f in facets:
        ns = f.shards or max(1, -(-cores // len(facets)))
        ns = max(1, min(ns, (f.quick if tier == "quick" else f.thorough) // 4))
        jobs += [(pid, f.name, tier, seed, deadline, i, ns) for i in range(ns)]
    nproc = min(cores, len(jobs))
    ctx = mp.get_context("fork")
    if nproc <= 1:
        parts = [_worker(j) for j in jobs]
    else:
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            parts = list(pool.imap(_worker, jobs, chunksize=1))
    results = [merge([p for p, j in zip(parts, jobs) if j[1] == f.name]) for f in facets]

    viol, errors = [], []
    os.makedirs(os.path.join(core.HERE, "replay"), exist_ok=True)
    for r in results:
        if r["error"]:
            errors.append(r)
        if r["violation"]:
            path = os.path.join(core.HERE, "replay", f"{pid}-{r['facet']}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "facet": r["facet"], "seed": seed, "tier": tier,
                           "message": r["violation"]["message"], "case": r["violation"]["case"]}, fh, indent=1)
            viol.append((r, path))
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["nontrivial"] for r in results),
        "rule": "; ".join(f"[{r['facet']}] {r['rule']}" for r in results),
        "samples": [s for r in results for s in r["samples"]][:12],
        "per_facet": [{k: r[k] for k in ("facet", "evaluations", "nontrivial", "tags", "excluded_known",
                                         "skipped_budget", "wall_s")} for r in results],
        "known_findings_reproduced": known_lines,
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "exploration", "coverage": cov, "assumptions": list(prop.assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(core.HERE, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for r in results:
        print(f"  {pid}/{r['facet']}: evals={r['evaluations']} nontrivial={r['nontrivial']} "
              f"skipped={r['skipped_budget']} known_excl={r['excluded_known']} {r['wall_s']}s tags={r['tags']}")
    for r, path in viol:
        print(f"  {r['facet']}: {r['violation']['message']}")
        print(f"VIOLATION property={pid} replay={path}")
    if viol:
        return 1
    if errors:
        for r in errors:
            print(f"ERROR in facet {r['facet']}:\n{r['error']}")
        return 3
    print(f"OK property={pid} evaluations={cov['evaluations']} nontrivial={cov['distinct_nontrivial']} "
          f"wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
