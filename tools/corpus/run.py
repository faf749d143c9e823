"""Check of the machinery itself: Engine B's membership formulas for a corpus of small functions are evaluated on random small
structures and compared with running those functions.  A mismatch is a bug of the analysis.  (No property is decided here.)"""
import sys, random, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "..", "sa")); sys.setrecursionlimit(20000)
sys.path.insert(0, HERE)
from core import Ctx
import bench, models
from terms import *
import networkx as nx
import funcs

F_ = "bcause/util/graphutils.py"
src = open("/repo/" + F_).read() + "\n\n" + open(os.path.join(HERE, "funcs.py")).read()
ctx = Ctx(overlay={F_: src})
L, M, D, N_, E_, e = (sym(x) for x in ("L", "M", "D", "N", "E", "e"))
only = sys.argv[1:]
names = [n for n in dir(funcs) if n[0] in "fg" and n[1:].isdigit() and (not only or n in only)]
stat = {"ok": 0, "unk": [], "BAD": []}
for n in names:
    b = bench.Bench(ctx, edges=[(E_, N_)])
    b.theory.maps = (D,)
    b.lst("L", L); b.lst("M", M); b.dict("D", D); b.graph("g", N_, E_); b.let("e", e); b.let("q0", sym("q0"))
    b.fn("bcause.util.graphutils", n)
    try: x = b.at(f"{n}(L, M, D, g, e)")
    except Exception as ex: print(n, "EXC", type(ex).__name__, str(ex)[:100]); stat["unk"].append(n); continue
    if x.dead: stat["unk"].append(n); continue
    fv, fw = fresh("x"), fresh("y")
    graph = n[0] == "g" and n in ("g01 g02 g03 g04 g05 g06 g07 g08 g09 g10 g11 g12 g13 g18 g19 g21 g22 g23 g30".split())
    qs = []
    if graph: qs = [("nodes", In(x.coll(".nodes"), fv), None), ("edges", In(x.coll(".edges"), Tup(fv, fw)), None)]
    else:
        c = x.coll("")
        qs = [("mem", In(c, fv), None)]
        if isinstance(c, N) and c.tag == "coll" and kind(c) == "dict": 
            r = b.of(x.v, x); st = x.st.copy(); st.frames[0]["res"] = x.v; st.frames[0]["x_"] = fv
            qs.append(("val", b.V.snap(b.run("res.get(x_, 'none')", st), st), True))
    rng = random.Random(3)
    done = unk = 0; bad = None
    for _ in range(300):
        S = models.Structure(rng, b.theory, [L, M, D, N_, E_], {D}, [e], [fv, fw], consts=())
        S.isi = {}
        gg = nx.DiGraph(); gg.add_nodes_from(sorted(S.sets[N_])); gg.add_edges_from(sorted(S.sets[E_]))
        dd = {k: S.t(Get(D, C(k)), {}) for k in sorted(S.sets[D])}
        vals = ["a", "b", "c", "z", "q"] + [y + t for y in "abc" for t in ("_1", "_2")]
        S.dom = vals
        args = (sorted(S.sets[L]), sorted(S.sets[M]), dd, gg, S.val[e])
        try: res = getattr(funcs, n)(*args)
        except Exception as ex: continue
        for v in vals:
            for w in (vals if graph else ["a"]):
                S.val[fv], S.val[fw] = v, w
                S.memo = {}
                for what, q, isval in qs:
                    if what == "nodes": exp = v in res.nodes
                    elif what == "edges": exp = (v, w) in set(res.edges)
                    elif what == "mem": exp = v in res
                    else: exp = res.get(v, "none")
                    try: got = S.t(q, {}) if isval else S.f(q)
                    except models.Unknown: got = None
                    if got is None: unk += 1
                    elif got != exp: bad = bad or (what, v, w, got, exp, [str(a) if not hasattr(a, "edges") else list(a.edges) for a in args])
                    else: done += 1
    if bad: stat["BAD"].append(n); print("BAD", n, bad)
    elif unk: stat["unk"].append(n + f"({unk}/{unk+done})")
    else: stat["ok"] += 1
print(stat["ok"], "ok; unknown:", " ".join(stat["unk"])); print("BAD:", " ".join(stat["BAD"]))
