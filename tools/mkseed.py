#!/usr/bin/env python3
"""mkseed.py SPEC.py [id ...]: build /verif/seeded/<id> from a spec, confirm it in a scratch copy (demo both ways, stable tests),
and say what the check reports.  Development tool; no check uses it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
BASE = "89c490b"
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with the repository as working directory
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout

def base_lines(f):
    r, o = sh(["git", "-C", "/repo", "show", f"{BASE}:{f}"], "/")
    return set(l.strip() for l in o.splitlines())

def one(s):
    out = []
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    x = tmp + "/repo"
    shutil.copytree("/repo", x, symlinks=True)
    try:
        r0, o0 = sh([d + "/demo.sh"], x)
        for f, old, new in s["edits"]:
            p = f"{x}/{f}"; t = open(p).read()
            if t.count(old) != 1: return s["id"], [f"BAD: {f}: {t.count(old)} matches of {old[:60]!r}"]
            open(p, "w").write(t.replace(old, new))
        _, patch = sh(["git", "diff"], x)
        open(d + "/patch.diff", "w").write(patch)
        gone = [(l[1:].strip()) for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        bl = set().union(*(base_lines(f) for f, _, _ in s["edits"]))
        if not any(g in bl and g for g in gone): out.append("NOTE: changes no base line")
        r1, o1 = sh([d + "/demo.sh"], x)
        if r0 or not r1: out.append(f"BAD demo: unchanged {r0} patched {r1}: {(o0 if r0 else o1)[-500:]}")
        else: out.append("demo ok (" + (o1.strip().splitlines() or [''])[-1][:90] + ")")
        if not s.get("notest") and "--notest" not in sys.argv:
            sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=300 -W ignore -o junit_family=xunit2 --junitxml=%s/j.xml" % tmp, x)
            sh(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + tmp + "/j.xml"], x)
            res = json.load(open(tmp + "/o.json"))
            passed = set(res.get("passed", []))
            miss = [t for t in stable if t not in passed]
            out.append("tests ok" if not miss else f"BAD tests: {len(miss)} stable fail: {miss[:3]}")
        code = ("import sys;sys.path.insert(0,'/verif/sa');sys.setrecursionlimit(20000)\nfrom core import *\nimport registry\n"
                "rep=Report(%r);registry.CHECKS[%r](Ctx(%r),rep)\nfor v in rep.violations.values(): print('  ',v.rule,v.construct,v.message[:100])" % (s["property"], s["property"], x))
        if "--nocheck" not in sys.argv:
            r, o = sh(["python3", "-c", code], "/tmp")
            out.append(("CAUGHT " if o.strip() and not r else "MISSED ") + o.strip()[-600:])
    finally: shutil.rmtree(tmp)
    return s["id"], out

spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = [a for a in sys.argv[2:] if not a.startswith("--")]
with ThreadPoolExecutor(6) as ex:
    for i, o in ex.map(one, [s for s in spec if not want or s["id"] in want]):
        print(i, *o, sep="\n    ", flush=True)
