import networkx as nx
from functools import reduce
from itertools import chain, product

def f01(L, M, D, g, e): return [x for x in L if x in M]
def f02(L, M, D, g, e):
    out = []
    for x in L:
        if x in M: continue
        out.append(x)
    return out
def f03(L, M, D, g, e):
    out = set(L)
    for x in M: out.discard(x)
    return out
def f04(L, M, D, g, e):
    out = set(L)
    for x in M:
        if x in out: out.remove(x)
    return out
def f05(L, M, D, g, e):
    out = dict()
    for x in L: out[x] = D.get(x, x)
    return out
def f06(L, M, D, g, e):
    out = {}
    for x in L:
        out.setdefault(D.get(x, x), x)
    return list(out)
def f07(L, M, D, g, e):
    return list(set(L).union(M).difference(D))
def f08(L, M, D, g, e):
    return list(set(L) ^ set(M))
def f09(L, M, D, g, e):
    return sorted(set(L) & set(M) - {e})
def f10(L, M, D, g, e):
    out = list(L)
    if e in out: out.remove(e)
    return set(out)
def f11(L, M, D, g, e):
    found = False
    for x in L:
        if x in M: found = True
    return L if found else M
def f12(L, M, D, g, e):
    for x in L:
        if x in M: return L
    return M
def f13(L, M, D, g, e):
    for x in L:
        if x in M: break
    else:
        return M
    return L
def f14(L, M, D, g, e):
    return L if any(x in M for x in L) else M
def f15(L, M, D, g, e):
    return L if all(x in M for x in L) else M
def f16(L, M, D, g, e):
    def ok(x): return x in M or x == e
    return list(filter(ok, L))
def f17(L, M, D, g, e):
    return [D[x] for x in L if x in D]
def f18(L, M, D, g, e):
    return list(map(lambda x: D[x] if x in D else x, L))
def f19(L, M, D, g, e):
    out = {x: D[x] for x in D if x in L}
    out.update({x: x for x in M})
    return out
def f20(L, M, D, g, e):
    out = {**{x: x for x in M}, **{x: D[x] for x in D if x in L}}
    return out
def f21(L, M, D, g, e):
    out = dict(D)
    for x in L: out.pop(x, None)
    return out
def f22(L, M, D, g, e):
    out = dict(D)
    for x in list(out):
        if x not in L: del out[x]
    return out
def f23(L, M, D, g, e):
    out = []
    for x in L:
        if x not in out: out.append(x)
    for y in M:
        if y not in out: out.append(y)
    return out
def f24(L, M, D, g, e):
    return list(dict.fromkeys(list(L) + list(M)))
def f25(L, M, D, g, e):
    return reduce(lambda a, b: a | b, [set(g.predecessors(x)) for x in L if x in g], set())
def f26(L, M, D, g, e):
    return set().union(*[g.successors(x) for x in L if x in g])
def f27(L, M, D, g, e):
    return sum([list(g.predecessors(x)) for x in L if x in g], [])
def f28(L, M, D, g, e):
    return set(chain(L, M))
def f29(L, M, D, g, e):
    out = set()
    for x in L:
        if x in g:
            out |= set(g.predecessors(x))
            out |= set(g.successors(x))
    return out - set(L)
def f30(L, M, D, g, e):
    def gen():
        for x in L:
            if x in M: yield x
    return list(gen())
def f31(L, M, D, g, e):
    a, b = L, M
    a, b = b, a
    return [x for x in a if x not in b]
def f32(L, M, D, g, e):
    out = L[:]
    out += [x for x in M if x not in L]
    return out
def f33(L, M, D, g, e):
    out = list(L); res = out
    out.extend(M)
    return res
def f34(L, M, D, g, e):
    out = list(L); res = list(out)
    out.extend(M)
    return res
def f35(L, M, D, g, e):
    inv = {v: k for k, v in D.items()}
    return list(inv)
def f36(L, M, D, g, e):
    return [v for k, v in D.items() if k in L and v not in M]
def f37(L, M, D, g, e):
    out = {}
    for k, v in D.items():
        if k not in L: out[k] = v
        elif v in M: out[k] = e
    return out
def f38(L, M, D, g, e):
    out = []
    for x in L:
        y = D.get(x)
        if y is None: y = x
        out.append(y)
    return out
def f39(L, M, D, g, e):
    out = []
    for x in L:
        try: out.append(D[x])
        except KeyError: out.append(x)
    return out
def f40(L, M, D, g, e):
    return [x for x in L if (y := D.get(x, x)) in M]
def f41(L, M, D, g, e):
    out = []
    for i in range(len(L)):
        if L[i] in M: out.append(L[i])
    return out
def f42(L, M, D, g, e):
    out = []
    for i, x in enumerate(L):
        if x in M: out.append(L[i])
    return out
def f43(L, M, D, g, e):
    out = []
    i = 0
    while i < len(L):
        if L[i] in M: out.append(L[i])
        i += 1
    return out
def f44(L, M, D, g, e):
    todo = list(L); out = []
    while todo:
        x = todo.pop()
        if x in M: out.append(x)
    return out
def f45(L, M, D, g, e):
    keep = {x: x in M for x in L}
    return [x for x in L if keep[x]]
def f46(L, M, D, g, e):
    a, b = set(), set()
    for x in L: (a if x in M else b).add(x)
    return b
def f47(L, M, D, g, e):
    a, b = [], []
    for x in L:
        target = a if x in M else b
        target.append(x)
    return a
def f48(L, M, D, g, e):
    groups = {"in": [], "out": []}
    for x in L: groups["in" if x in M else "out"].append(x)
    return groups["out"]
def f49(L, M, D, g, e):
    return [x for x in L if not (x in M and x not in D)]
def f50(L, M, D, g, e):
    return set(L).issubset(M) and L or M
def f51(L, M, D, g, e):
    out = set(L)
    out.difference_update(M)
    out.add(e)
    return out
def f52(L, M, D, g, e):
    out = set(L); out.intersection_update(M); return out
def f53(L, M, D, g, e):
    out = set(L)
    out -= set(M)
    return frozenset(out)
def f54(L, M, D, g, e):
    ks = D.keys() - set(L)
    return list(ks | {e})
def f55(L, M, D, g, e):
    ks = D.keys() & set(L)
    return {k: D[k] for k in ks}
def f56(L, M, D, g, e):
    pairs = [(x, y) for x in L for y in M if x != y]
    return {x for x, y in pairs}
def f57(L, M, D, g, e):
    pairs = [(x, D[x]) for x in L if x in D]
    return dict(pairs)
def f58(L, M, D, g, e):
    return dict(zip(L, L))
def f59(L, M, D, g, e):
    return dict(zip(L, [D.get(x, x) for x in L]))
def f60(L, M, D, g, e):
    out = {}
    for x, y in zip(L, map(lambda z: z, L)): out[x] = y
    return out
def f61(L, M, D, g, e):
    out = set()
    def add(x):
        if x in M: out.add(x)
    for x in L: add(x)
    return out
def f62(L, M, D, g, e):
    out = None
    for x in L:
        if out is None: out = set()
        out.add(x)
    return out or set(M)
def f63(L, M, D, g, e):
    out = list(L)
    for x in M:
        out = [y for y in out if y != x]
    return out
def f64(L, M, D, g, e):
    out = list(L)
    for x in M:
        out = out + [x]
    return out
def f65(L, M, D, g, e):
    out = L
    for x in M:
        out = list(out) + [x] if x not in out else out
    return out
def f66(L, M, D, g, e):
    return [x for x in L if x not in [y for y in M if y in D]]
def f67(L, M, D, g, e):
    return [x for x in L if D.get(x) is not None]
def f68(L, M, D, g, e):
    return [x for x in L if D.get(x, e) == e]
def f69(L, M, D, g, e):
    last = e
    for x in L: last = x
    return [y for y in M if y == last]
def f70(L, M, D, g, e):
    n = 0
    for x in L:
        if x in M: n += 1
    return L if n > 0 else M
def f71(L, M, D, g, e):
    return L if len([x for x in L if x in M]) > 0 else M
def f72(L, M, D, g, e):
    return L if len(L) == len(set(L) | set(M)) else M
def f73(L, M, D, g, e):
    return L if set(L) == set(M) else []
def f74(L, M, D, g, e):
    return L if set(L) <= set(M) else []
def f75(L, M, D, g, e):
    return L if set(L).isdisjoint(M) else []
def f76(L, M, D, g, e):
    x = next((x for x in L if x in M), e)
    return [y for y in L if y in M] if x in M else [e]
def f77(L, M, D, g, e):
    class Box: pass
    out = [x for x in L]
    out.insert(0, e)
    return out
def f78(L, M, D, g, e):
    return [*L, *M, e]
def f79(L, M, D, g, e):
    return {*L} - {*M}
def f80(L, M, D, g, e):
    out = []
    for x in L:
        for y in M:
            if x == y:
                out.append(x)
                break
    return out
def f81(L, M, D, g, e):
    out = []
    for x in L:
        hit = False
        for y in M:
            if D.get(x) == y: hit = True
        if hit: out.append(x)
    return out
def f82(L, M, D, g, e):
    if not L: return M
    if e in L: return [e]
    return L
def f83(L, M, D, g, e):
    out = dict.fromkeys(L, e)
    for x in M:
        if x in out: out[x] = x
    return out
def f84(L, M, D, g, e):
    out = {x: [] for x in L}
    for x in L:
        if x in M: out[x].append(x)
    return [x for x in out if out[x]]
def f85(L, M, D, g, e):
    out = {}
    for x in L: out.setdefault(x, []).append(x)
    return list(out)
def f86(L, M, D, g, e):
    s = set(L)
    t = s
    t |= set(M)
    return s
def f87(L, M, D, g, e):
    s = set(L)
    t = s
    t = t | set(M)
    return s
def f88(L, M, D, g, e):
    l = list(L)
    l2 = l
    l2 += list(M)
    return l
def f89(L, M, D, g, e):
    out = list(L)
    out.reverse(); out.sort()
    return out[::-1]
def f90(L, M, D, g, e):
    xs = set(L)
    while xs:
        if e in xs: return M
        break
    return xs
def f91(L, M, D, g, e):
    return [x for x in L if bool(x in M) != (x in D)]
def f92(L, M, D, g, e):
    return [x for x in L if (x in M) == (x in D)]
def f93(L, M, D, g, e):
    return [f"{x}_1" if x in M else x for x in L]
def f94(L, M, D, g, e):
    return [x + "_1" for x in L] + ["%s_2" % x for x in M]
def f95(L, M, D, g, e):
    return ["{}_1".format(x) for x in L if not x.endswith("_1")]
def f96(L, M, D, g, e):
    out = set(L) if L else set(M)
    out.add(e)
    return out
def f97(L, M, D, g, e):
    x, *rest = [e, *L]
    return [y for y in rest if y != x]
def f98(L, M, D, g, e):
    return [] if e not in L else list(M)
def f99(L, M, D, g, e):
    out = []
    for s in (L, M):
        for x in s:
            if x in D: out.append(D[x])
    return out
# --- graphs
def g01(L, M, D, g, e):
    h = g.copy()
    for x, y in g.edges:
        if y in L: h.remove_edge(x, y)
    return h
def g02(L, M, D, g, e):
    h = nx.DiGraph()
    h.add_nodes_from(g.nodes)
    for x, y in g.edges:
        if x not in L: h.add_edge(x, y)
    return h
def g03(L, M, D, g, e):
    h = nx.DiGraph()
    h.add_edges_from([(x, y) for x, y in g.edges if x in L])
    return h
def g04(L, M, D, g, e): return nx.relabel_nodes(g, {x: f"{x}_1" for x in L})
def g05(L, M, D, g, e): return g.subgraph([x for x in g if x not in L]).copy()
def g06(L, M, D, g, e):
    h = g.copy()
    h.remove_nodes_from(L)
    return h
def g07(L, M, D, g, e):
    h = g.copy()
    for x in L:
        if h.has_node(x): h.remove_node(x)
    return h
def g08(L, M, D, g, e):
    h = g.copy()
    for x in L:
        if x in h: h.remove_edges_from(list(h.in_edges(x)))
    return h
def g09(L, M, D, g, e):
    h = nx.DiGraph(g.edges)
    h.add_nodes_from(L)
    return h
def g10(L, M, D, g, e): return nx.compose(g, nx.DiGraph([(e, "q")]))
def g11(L, M, D, g, e):
    h = nx.DiGraph()
    for x in g.nodes:
        h.add_node(x)
        for p in g.predecessors(x):
            if p in L: h.add_edge(p, x)
    return h
def g12(L, M, D, g, e): return g.edge_subgraph([(x, y) for x, y in g.edges if x in L]).copy()
def g13(L, M, D, g, e): return g.reverse()
def g14(L, M, D, g, e): return [x for x in g if g.in_degree(x) == 0]
def g15(L, M, D, g, e): return [x for x in g.nodes if len(list(g.successors(x))) > 0]
def g16(L, M, D, g, e): return {y for x, y in g.edges if x in L}
def g17(L, M, D, g, e): return {p for c in L if c in g for p in g.predecessors(c)} - set(L)
def g18(L, M, D, g, e):
    h = g.copy()
    for x in L:
        h.add_node(x)
        for y in list(h.predecessors(x)): h.remove_edge(y, x)
    return h
def g19(L, M, D, g, e):
    h = g.copy()
    for n in L: h.add_edge(n, "q")
    return h
def g20(L, M, D, g, e):
    h = nx.Graph(g)
    return list(h.neighbors(e)) if e in h else []
def g21(L, M, D, g, e): return nx.relabel_nodes(g, lambda x: x + "_1" if x in L else x)
def g22(L, M, D, g, e): return g.to_undirected()
def g23(L, M, D, g, e):
    h = g.copy()
    drop = [n for n in h.nodes if h.degree(n) == 0]
    h.remove_nodes_from(drop)
    return h
def g24(L, M, D, g, e):
    res = []
    for x in nx.topological_sort(g):
        if x not in L: res.append(x)
    return res
def g25(L, M, D, g, e): return list(g.adj[e]) if e in g else []
def g26(L, M, D, g, e): return list(g.pred[e]) if e in g else []
def g27(L, M, D, g, e): return list(g[e]) if e in g else []
def g28(L, M, D, g, e):
    es = set(g.edges)
    es = {(x, y) for x, y in es if x not in L} | {(y, x) for x, y in es if x in L}
    return {x for x, _ in es}
def g29(L, M, D, g, e): return [n for n, d in g.in_degree() if d == 0]
def g30(L, M, D, g, e): return nx.union(nx.relabel_nodes(g, {x: x + "_1" for x in g}), nx.relabel_nodes(g, {x: x + "_2" for x in g}))
def f100(L, M, D, g, e):
    hit = False
    for y in M:
        if y in L:
            hit = True
            break
    return L if hit else M
def f101(L, M, D, g, e):
    out = []
    for y in L:
        if y in M: return out
        out.append(y)
    return M
def f102(L, M, D, g, e):
    out = []
    for y in L:
        out.append(y)
        if y in M: break
    return out
def f103(L, M, D, g, e):
    return L[:1]
def f104(L, M, D, g, e):
    return L[1:]
def f105(L, M, D, g, e):
    return [L[0]] if L else [e]
def f106(L, M, D, g, e):
    return [x for x, y in zip(L, M)]
def f107(L, M, D, g, e):
    return [x for x, y in zip(L, M) if x == y]
def f108(L, M, D, g, e):
    return [D.get(x) or x for x in L]
def f109(L, M, D, g, e):
    fs = [lambda: x for x in L]
    return [f() for f in fs]
def f110(L, M, D, g, e):
    fs = [lambda x=x: x for x in L]
    return [f() for f in fs]
def f111(L, M, D, g, e):
    gen = (x for x in L if x in D)
    return list(gen) + list(gen)
def f112(L, M, D, g, e):
    it = iter(L)
    first = next(it, e)
    return list(it)
def f113(L, M, D, g, e):
    m = map(lambda x: x, L)
    a = [x for x in m if x in M]
    b = [x for x in m]
    return a + b
def f114(L, M, D, g, e):
    def go(xs, acc=[]):
        acc = list(acc)
        for x in xs: acc.append(x)
        return acc
    go(M)
    return go(L)
def f115(L, M, D, g, e):
    def go(xs, acc=[]):
        acc.extend(xs)
        return acc
    go(M); del go
    def go2(xs, acc=None):
        acc = acc or []
        acc.extend(xs)
        return acc
    a = go2(L)
    go2(M, a)
    return a
def f116(L, M, D, g, e):
    out = []
    a = out or list(M)
    a.append(e)
    return out
def f117(L, M, D, g, e):
    out = list(L)
    a = out or list(M)
    a.append(e)
    return out
def f118(L, M, D, g, e):
    rows = [[]] * 2
    rows[0].extend(L)
    return rows[1]
def f119(L, M, D, g, e):
    rows = [[] for _ in range(2)]
    rows[0].extend(L)
    return rows[1]
def f120(L, M, D, g, e):
    d = dict.fromkeys(["p", "q"], [])
    d["p"].extend(L)
    return d["q"]
def f121(L, M, D, g, e):
    d = {x: set() for x in ("p", "q")}
    d["p"].update(L)
    return d["q"] | {e}
def f122(L, M, D, g, e):
    a = {"k": list(L)}
    b = dict(a)
    b["k"].append(e)
    return a["k"]
def f123(L, M, D, g, e):
    from copy import deepcopy
    a = {"k": list(L)}
    b = deepcopy(a)
    b["k"].append(e)
    return a["k"]
def f124(L, M, D, g, e):
    out = {}
    for x in L: out[D.get(x, x)] = x
    return out
def f125(L, M, D, g, e):
    out = {}
    for x in L: out["k"] = x
    return list(out.values())
def f126(L, M, D, g, e):
    out = {"k": e}
    for x in L:
        if x in M: out["k"] = "c"
    return out
def f127(L, M, D, g, e):
    class Acc:
        def __init__(self): self.items = []
        def add(self, x):
            self.items.append(x)
            return self
    a = Acc()
    for x in L: a.add(x)
    return a.items
def f128(L, M, D, g, e):
    return list(D.values())
def f129(L, M, D, g, e):
    return [x for x in L if x in D.values()]
def f130(L, M, D, g, e):
    return [k for k in D if D[k] == k]
def f131(L, M, D, g, e):
    return [x for x in L if L.index(x) == 0]
def f132(L, M, D, g, e):
    return [x for x in L if (L + M).count(x) == 1]
def f133(L, M, D, g, e):
    return L if len(L) > len(M) else M
def f134(L, M, D, g, e):
    return L if len(L) == 1 else M
def f135(L, M, D, g, e):
    return [x for x in L if x < "b"]
def f136(L, M, D, g, e):
    out = list(L)
    try:
        out.remove(e)
    except ValueError:
        out.append("q")
    return out
def f137(L, M, D, g, e):
    out = []
    try:
        for x in L:
            if x in M: raise ValueError()
            out.append(x)
    except ValueError:
        out = ["q"]
    finally:
        out.append("z")
    return out
def f138(L, M, D, g, e):
    out = list(L)
    for x in list(out):
        if x in M: out.append("q")
    return out
def f139(L, M, D, g, e):
    out = []
    flag = False
    for x in L:
        if flag: out.append(x)
        flag = True
    return out
def f140(L, M, D, g, e):
    prev = None
    out = []
    for x in L:
        if prev is not None: out.append(prev)
        prev = x
    return out
def f141(L, M, D, g, e):
    seen = set()
    out = []
    for x in L + M:
        if x in seen: out.append(x)
        seen.add(x)
    return out
def f142(L, M, D, g, e):
    seen = set(); out = []
    for x in list(L) + list(M):
        if x not in seen:
            seen.add(x); out.append(x)
    return out
def f143(L, M, D, g, e):
    out = set(L)
    for x in M:
        if x in out: out.discard(x)
        else: out.add(x)
    return out
def f144(L, M, D, g, e):
    out = set(L)
    for x in M:
        out.discard(x)
        out.add(D.get(x, x))
    return out
def f145(L, M, D, g, e):
    out = set(L)
    for x in M:
        if D.get(x, e) in out: out.add(x)
    return out
def f146(L, M, D, g, e):
    out = dict(D)
    for k in L:
        out[k] = out.get(k, e)
    return out
def f147(L, M, D, g, e):
    out = dict(D)
    for k in L:
        if k in out: out[k] = out.get(out[k], e)
    return out
def f148(L, M, D, g, e):
    return [x for x in L if x != e or x in M and x in D]
def f149(L, M, D, g, e):
    return [a for a in L if not any(b == a or D.get(b) == a for b in M)]
def f150(L, M, D, g, e):
    return {x: [y for y in M if y != x] for x in L}.keys()
def f151(L, M, D, g, e):
    nested = {x: [y for y in M if y != x] for x in L}
    return [y for x in nested for y in nested[x]]
def f152(L, M, D, g, e):
    nested = {x: [y for y in M if y == D.get(x)] for x in L}
    return [x for x, ys in nested.items() if ys]
def f153(L, M, D, g, e):
    k = [x for x in L if x in M]
    if len(k) == 0: return ["q"]
    elif len(k) == 1: return k
    return ["z"]
def f154(L, M, D, g, e):
    x = e
    if x in L: x = "q"
    if x in M: x = "z"
    return [x]
def f155(L, M, D, g, e):
    x = D[e] if e in D else None
    return [x] if x else ["q"]
def f156(L, M, D, g, e):
    (a, b), c = (L, M), e
    return [*b, c]
def f157(L, M, D, g, e):
    def pick(*xs, **kw): return [x for x in xs if x in kw["ok"]]
    return pick(*L, ok=M)
def f158(L, M, D, g, e):
    def pick(**kw): return list(kw)
    return pick(**D)
def f159(L, M, D, g, e):
    def rec(n):
        if n == 0: return []
        return rec(n - 1) + list(L)
    return rec(2)
def f160(L, M, D, g, e):
    total = []
    for i in range(3):
        if i == 1: continue
        total += L if i == 0 else M
    return total
def f161(L, M, D, g, e):
    return max([set(L), set(M)], key=len)
def f162(L, M, D, g, e):
    return [x for x in L if x is not None and x in M or x == e]
def f163(L, M, D, g, e):
    return [y for x in L for y in ([x] if x in M else [])]
def f164(L, M, D, g, e):
    return list(set(L).symmetric_difference(set(M)))
def f165(L, M, D, g, e):
    out = set(L)
    out ^= set(M)
    out &= set(D) | {e}
    return out
def f166(L, M, D, g, e):
    while True:
        if e in L: out = [e]; break
        out = M
        break
    return out
def f167(L, M, D, g, e):
    for x in L:
        for y in M:
            if x == y: return [x, "q"]
    return []
def f168(L, M, D, g, e):
    out = [x for x in L]
    for i, x in enumerate(out):
        if x in D: out[i] = D[x]
    return out
def f169(L, M, D, g, e):
    out = [None] * len(L)
    for i, x in enumerate(L): out[i] = x
    return out
def f170(L, M, D, g, e):
    out = list(L)
    out[:] = M
    return out
def f171(L, M, D, g, e):
    out = list(L); out.clear(); out.append(e); return out
def f172(L, M, D, g, e):
    if (e in L) is (e in M): return L
    return M
def f173(L, M, D, g, e):
    return [x for x in L if e in M]
def f174(L, M, D, g, e):
    return L and M
def f175(L, M, D, g, e):
    return L or M
def f176(L, M, D, g, e):
    return [x for x in L if not D]
def f177(L, M, D, g, e):
    out = {}
    for k in D: out.setdefault(D[k], []).append(k)
    return [x for v in out.values() for x in v if v != [x]]
def f178(L, M, D, g, e):
    a = tuple(L)
    return a + (e,)
def f179(L, M, D, g, e):
    return dict(sorted(D.items()))
def f180(L, M, D, g, e):
    return {k: v for k, v in sorted(D.items()) if v in L}
def f181(L, M, D, g, e):
    hit = False
    for x in L:
        if x in M: break
        hit = True
    return L if hit else M
def f182(L, M, D, g, e):
    out = []
    for x in L:
        if x in M:
            out.append(x)
            break
    return out
def f183(L, M, D, g, e):
    out = []
    for x in L:
        if x in M:
            out.append(e)
            break
    return out
def f184(L, M, D, g, e):
    out = []
    for x in L:
        if x in M:
            if x in D: out.append(e)
            break
    return out
def f185(L, M, D, g, e):
    y = e
    for x in L:
        if x in M:
            y = x
            break
    return [y]
def f186(L, M, D, g, e):
    y = e
    for x in L:
        if x in M:
            y = "q"
            if x in D: break
            y = "z"
    return [y]
def f187(L, M, D, g, e):
    done = False
    out = []
    for x in L:
        if not done: out.append(x)
        if x in M: done = True
    return out
def f188(L, M, D, g, e):
    out = set()
    for x in L:
        if x in M: out.add(x)
        else: out = set()
    return out
def f189(L, M, D, g, e):
    acc = None
    for x in L:
        acc = [x] if acc is None else acc + [x]
    return acc or [e]
def f190(L, M, D, g, e):
    d = {}
    for x in L:
        d[x] = [x]
    for x in M:
        if x in d: d[x].append(e)
    return [y for x in d for y in d[x]]
def f191(L, M, D, g, e):
    d = {x: [x] for x in L}
    out = []
    for x, xs in d.items():
        xs.append("q")
        out.extend(xs)
    return out
def f192(L, M, D, g, e):
    out = []
    for x in L:
        row = [x]
        if x in M: row.append("q")
        out.append(row)
    return [y for row in out for y in row]
def f193(L, M, D, g, e):
    row = []
    out = []
    for x in L:
        row.append(x)
        out.append(row)
    row.append("q")
    return [y for r in out for y in r]
def f194(L, M, D, g, e):
    h = g.copy(); h2 = h
    h2.remove_nodes_from(L)
    return list(h.nodes)
def f195(L, M, D, g, e):
    h = g.subgraph(L)
    return [x for x in h.nodes if list(h.successors(x))]
def f196(L, M, D, g, e):
    for x in L:
        if x not in M: return M
        if x == e: return L
    return [e]
def f197(L, M, D, g, e):
    for x in L:
        if x not in M: return M
    for x in M:
        if x not in D: return ["z"]
    return L
def f198(L, M, D, g, e):
    out = []
    for x in L:
        if x in M:
            out.append(x)
            return out
    out.append("q")
    return out
