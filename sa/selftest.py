"""Thorough tier: the deciding analysis is run again on variations of the current source, held in memory as overlays:
   * mutants that break the property must be reported (a mutant whose text no longer occurs in the tree is skipped);
   * rewritings that keep the behaviour must stay quiet.
The outcome is recorded in the evidence; a disagreement is listed under "disagreements"."""
from __future__ import annotations
import os, sys, time
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = 600


def _edit(repo, edits):
    out = {}
    for f, old, new in edits:
        p = os.path.join(repo, f)
        src = out.get(f) or (open(p).read() if os.path.exists(p) else None)
        if src is None or src.count(old) != 1: return None
        out[f] = src.replace(old, new)
    return out


def _one(prop, name, overlay):
    sys.setrecursionlimit(20000)
    from core import Ctx, Report
    import registry
    try:
        rep = Report(prop)
        registry.CHECKS[prop](Ctx(overlay=overlay), rep)
        return name, sorted(rep.violations)[:4], None
    except Exception as e: return name, [], f"{type(e).__name__}: {e}"


def run(prop):
    from variants import MUTANTS, REWRITES
    from loader import World
    repo = getattr(World(), "repo", "/repo")
    jobs, skipped = [], 0
    for kind, table in (("mutant", MUTANTS.get(prop, [])), ("rewrite", REWRITES)):
        for i, (name, edits) in enumerate(table):
            ov = _edit(repo, edits)
            if ov is None: skipped += 1
            else: jobs.append((kind, name, ov))
    res = dict(mutants_reported=0, mutants=0, rewrites_quiet=0, rewrites=0, not_applicable_to_tree=skipped, disagreements=[])
    kinds = {}
    t0 = time.time()
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 2)) as ex:
        futs = []
        for k, n, ov in jobs:
            kinds[n] = k
            futs.append(ex.submit(_one, prop, n, ov))
        for fu in as_completed(futs, timeout=BUDGET):
            name, viol, err = fu.result()
            if kinds[name] == "mutant":
                res["mutants"] += 1
                if viol: res["mutants_reported"] += 1
                else: res["disagreements"].append(f"mutant not reported: {name} {err or ''}")
            else:
                res["rewrites"] += 1
                if not viol and not err: res["rewrites_quiet"] += 1
                else: res["disagreements"].append(f"rewrite reported: {name} {viol or err}")
    res["wall_s"] = round(time.time() - t0, 1)
    for d in res["disagreements"]: print("self-test:", d, file=sys.stderr)
    return res
