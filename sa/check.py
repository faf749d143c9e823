#!/usr/bin/env python3
"""check.py <property>   decide one property on /repo's current source.  VERIF_TIER=quick|thorough."""
from __future__ import annotations
import json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from core import Ctx, Report, known_findings, VERIF
from loader import AnalysisBroken
import registry


LIMIT = 720        # seconds; what has not been decided by then is reported as undecided


class OutOfTime(BaseException): pass


def decide(prop, ctx):
    rep = Report(prop)
    def late(*_): raise OutOfTime
    signal.signal(signal.SIGALRM, late); signal.alarm(LIMIT)
    try: registry.CHECKS[prop](ctx, rep)
    except OutOfTime: rep.undec("the remaining obligations: out of time")
    finally: signal.alarm(0)
    return rep


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    ctx = Ctx()
    rep = decide(prop, ctx)
    extra = {}
    if tier == "thorough":
        import selftest
        extra = selftest.run(prop)
    known = known_findings().get(prop, {})
    new = [v for k, v in sorted(rep.violations.items()) if k not in known]
    old = [v for k, v in sorted(rep.violations.items()) if k in known]
    cov = dict(explanation="static analysis of the source: " + "; ".join(rep.rules),
               tree_digest=ctx.w.digest, files=len(ctx.w.modules), functions_in_tree=len(ctx.w.funcs),
               obligations=rep.obligations, discharged=rep.discharged, undecided=rep.undecided[:60],
               violations=[v.as_dict() for v in new], known=[v.key for v in old], samples=rep.samples, **rep.stats)
    if extra: cov["selftest"] = extra
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f: json.dump(ev, f, indent=1, default=str)
    for v in old: print(f"KNOWN-FINDING: property={prop} {v.key} {known[v.key]}")
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
        with open(rp, "w") as f: json.dump([v.as_dict() for v in new], f, indent=1, default=str)
        for v in new: print(f"  [{v.rule}] {v.construct}: {v.message} ({v.where})")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: {rep.discharged}/{rep.obligations} obligations discharged, {len(rep.undecided)} undecided, "
          f"{time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try: sys.exit(main())
    except AnalysisBroken as e:
        print("analysis broken:", e, file=sys.stderr); sys.exit(2)
