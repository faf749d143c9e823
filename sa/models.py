"""Small structures that tell two formulas (or values) apart.

Formulas over the inputs are evaluated, three-valued, over structures with a handful of names: every base collection is a set of names,
every edge relation an acyclic one over its nodes, every map gives uninterpreted values.  What the analysis does not know evaluates to
`None` (unknown), so that a structure is a counterexample only when both sides are definite and different."""
from __future__ import annotations
import itertools, random
from terms import *

U = None
NAMES = ("a", "b", "c")
WIDER = ("d", "e", "f")
STATES = ("s0", "s1")
INTS = (-2, -1, 0, 1, 2, 3)


class Unknown(Exception): pass


class Structure:
    def __init__(self, rng, th, bases, maps, scalars, fvs, names=NAMES, consts=()):
        self.th, self.sets, self.val, self.tok = th, {}, {}, {}
        self.maps, self.names = maps, tuple(names)
        names = tuple(names) + tuple(c for c in consts if c[0] != "_" and c not in names)[:2]
        dens = rng.choice((0.35, 0.6, 0.85))
        edges = {e: n for e, n in th.edges}
        for s in bases:
            if s in edges: continue
            self.sets[s] = {x for x in names if rng.random() < (0.85 if s in th.dense else dens)}
        for a, b in th.subsets * 2:
            if a in self.sets and b in self.sets:
                if (b, a) in th.subsets: self.sets[a] = set(self.sets[b])
                else: self.sets[a] &= self.sets[b]
        for e, n in th.edges:
            if e not in bases: continue
            ns = sorted(self.sets.get(n, names)); rng.shuffle(ns)
            p = rng.choice((0.3, 0.7))
            self.sets[e] = {(x, y) for i, x in enumerate(ns) for y in ns[i + 1:] if rng.random() < p}
        self.rng = rng
        pool = list(names) + ["z"]
        for s in scalars: self.val[s] = rng.choice(INTS if s in th.ints else sorted(self.sets.get(th.within.get(s), ())) or pool)
        ext = pool + [c for c in consts if isinstance(c, str)] + [x + c for x in names for c in consts if isinstance(c, str)]
        self.dom = list(dict.fromkeys(ext))
        for f in fvs: self.val[f] = rng.choice(self.dom)
        self.memo = {}

    def repair(self, cl):
        """nudge the draw towards the entry conditions that are literals about scalars"""
        for l in cl:
            pos, a = (False, l.args[0]) if l.tag == "not" else (True, l)
            if a.tag == "eq" and not pos and a.args[0] in self.val and a.args[1] in self.val and self.val[a.args[0]] == self.val[a.args[1]]:
                s = a.args[1]
                rest = sorted(set(self.sets.get(self.th.within.get(s), ())) - {self.val[a.args[0]]})
                if rest: self.val[s] = self.rng.choice(rest)
        for l in cl:
            pos, a = (False, l.args[0]) if l.tag == "not" else (True, l)
            if a.tag == "in" and a.args[0] in self.sets and a.args[1] in self.val and not pos:
                self.sets[a.args[0]] = self.sets[a.args[0]] - {self.val[a.args[1]]}

    def ok(self, scalars, bases):
        """the declared facts about the scalars hold"""
        if self.th.facts is None: return True
        for s in scalars:
            for b in bases:
                a = mk("in", b, s)
                v = self.th.facts(a)
                if v is not None and v != (self.val[s] in self.sets.get(b, ())): return False
        for s in scalars:
            for c in scalars:
                if s is not c:
                    v = self.th.facts(mk("eq", *sorted((s, c))))
                    if v is not None and v != (self.val[s] == self.val[c]): return False
        return True

    def mutant(self, rng):
        """a copy with one element, edge, value or free choice changed; None when a declared fact fails"""
        S = object.__new__(Structure)
        S.__dict__.update(self.__dict__)
        S.sets = dict(self.sets); S.val = dict(self.val); S.tok = {k: v for k, v in self.tok.items() if k[0] != "factor"}; S.memo = {}
        edges = dict(self.th.edges)
        ch = rng.random()
        sets = list(S.sets)
        if sets and ch < 0.6:
            s = rng.choice(sets)
            if s in edges:
                ns = sorted(S.sets.get(edges[s], S.names))
                if len(ns) < 2: return None
                e = tuple(rng.sample(ns, 2))
            else: e = rng.choice(S.names)
            S.sets[s] = S.sets[s] ^ {e}
            if e not in S.sets[s] and s not in edges:          # smaller: the sets within it, and edges at it, go with it
                for a, b in self.th.subsets * 2:
                    if a in S.sets and b in S.sets: S.sets[a] = S.sets[a] & S.sets[b]
                for g, n in edges.items():
                    if n in S.sets and g in S.sets: S.sets[g] = {p for p in S.sets[g] if p[0] in S.sets[n] and p[1] in S.sets[n]}
            elif s in edges:
                if cyclic(S.sets[s]): return None
            else:
                for a, b in self.th.subsets * 2:
                    if a in S.sets and b in S.sets: S.sets[b] = S.sets[b] | S.sets[a]
        elif S.val and ch < 0.8:
            s = rng.choice(list(S.val))
            S.val[s] = rng.choice(INTS if s in self.th.ints else self.dom)
        elif S.tok:
            del S.tok[rng.choice(list(S.tok))]
        else: return None
        S.rng = rng
        return S

    def score(self, fs):
        """how much of the formulas holds, between 0 and 1 each"""
        return sum(self._score(f, True) for f in fs)

    def _score(self, x, pos):
        if x.tag == "not": return self._score(x.args[0], not pos)
        if x.tag in ("and", "or"):
            v = [self._score(y, pos) for y in x.args]
            return sum(v) / len(v) if (x.tag == "and") == pos else max(v)
        try: r = self.f(x)
        except Unknown: r = U
        return 1.0 if r is pos else 0.3 if r is U else 0.0

    # ---- formulas: True / False / None
    def f(self, x):
        if x.fv or x.mb == 0:
            r = self.memo.get(x, 0)
            if r != 0: return r
        r = self._f(x, {})
        self.memo[x] = r
        return r

    def _f(self, x, env):
        t = x.tag
        if x is T: return True
        if x is F: return False
        if t == "not":
            r = self._f(x.args[0], env)
            return r if r is U else not r
        if t == "and" or t == "or":
            stop = t == "or"
            unk = False
            for y in x.args:
                r = self._f(y, env)
                if r is stop: return stop
                if r is U: unk = True
            return U if unk else not stop
        if t == "ex":
            ids, body = x.args
            unk = False
            for vs in self._ranges(ids, body, env):
                e2 = dict(env); e2.update(zip(ids, vs))
                r = self._f(body, e2)
                if r is True: return True
                if r is U: unk = True
            return U if unk else False
        try:
            if t == "in": return self.member(x.args[0], self.t(x.args[1], env), env)
            if t == "eq":
                a, b = self.t(x.args[0], env), self.t(x.args[1], env)
                return a == b
            if t == "tru":
                a = x.args[0]
                if a.tag == "sym" and a in self.sets: return bool(self.sets[a])
                v = self.t(a, env)
                if isinstance(v, tuple) and v[:1] == ("tok",): return self.free(("tru", v))
                if isinstance(v, frozenset): return bool(v)
                return bool(v)
            if t == "isi":
                v = self.t(x.args[0], env)
                if isinstance(v, tuple) and v[:1] == ("tok",) and x.args[1] in self.isi: return self.free(("isi", v))
                return U
            if t == "cmp":
                op, a, b = x.args
                a, b = self.t(a, env), self.t(b, env)
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}.get(op, U)
                return U
        except Unknown: return U
        return U

    def free(self, k):
        if k not in self.tok: self.tok[k] = self.rng.random() < 0.5
        return self.tok[k]

    def _ranges(self, ids, body, env):
        """values of the bound variables; those that are members of a base range over it, the others over everything"""
        rs = []
        lits = conj(body)
        for i in ids:
            v = mk("bv", i)
            r = None
            for l in lits:
                if l.tag == "in" and l.args[0].tag == "app" and l.args[1] is v:
                    r = list(dict.fromkeys(self.names + STATES)); break
                if l.tag == "in" and l.args[0] in self.sets:
                    e = l.args[1]
                    if e is v: r = list(self.sets[l.args[0]]); break
                    if e.tag == "tup" and v in e.args: r = list({p[e.args.index(v)] for p in self.sets[l.args[0]]}); break
            if r is None:
                if not self.th_range(body, v): r = self.dom
                else: r = self.dom
            rs.append(r)
        return itertools.product(*rs)

    def th_range(self, body, v): return False

    def member(self, c, v, env):
        if c.tag == "sym" and c in self.sets: return v in self.sets[c]
        if c.tag == "c" and isinstance(c.args[1], str) and isinstance(v, str): return v in c.args[1]
        if c.tag == "app" and self.th.factors and c.args[0] in SCOPES: return v in self.scope(c, env)
        if c.tag == "app": return v in self.states(self.t(c, env))
        raise Unknown

    # ---- factors of a network over binary variables: tables of numbers modulo a prime
    def factor(self, k):
        """the conditional table of node k given its parents, random and normalised"""
        key = ("factor", k)
        if key not in self.tok:
            _, edges, _ = self.th.factors
            vs = tuple(sorted({k} | {a for a, b in self.sets.get(edges, ()) if b == k}))
            i = vs.index(k)
            tab = {}
            for s in itertools.product((0, 1), repeat=len(vs)):
                if s[i] == 0: tab[s] = self.rng.randrange(1, P)
            for s in list(tab): tab[s[:i] + (1,) + s[i + 1:]] = (1 - tab[s]) % P
            self.tok[key] = ("fac", frozenset({k}), vs, tuple(tab[s] for s in itertools.product((0, 1), repeat=len(vs))))
        return self.tok[key]

    def algebra(self, op, x, env):
        """products, quotients, marginals and restrictions of factors; None: not one of these"""
        def fac(y):
            v = self.t(y, env)
            if not (isinstance(v, tuple) and v[:1] == ("fac",)): raise Unknown
            return v
        def names(y):
            v = self.t(y, env)
            if isinstance(v, str): return [v]
            if isinstance(v, tuple) and v[:1] == ("coll",): return sorted(a[0] for a in v[2]) if v[1] == "dict" else sorted(v[2])
            if isinstance(v, tuple) and v[:1] not in (("tok",), ("fac",)): return list(v)
            raise Unknown
        if op == "prod":
            r = None
            f = self.t(x.args[1], env)
            if not (isinstance(f, tuple) and f[:1] == ("coll",)): raise Unknown
            for g in sorted(f[2], key=repr):
                if not (isinstance(g, tuple) and g[:1] == ("fac",)): raise Unknown
                r = g if r is None else pointwise(r, g, lambda a, b: a * b % P)
            if r is None: raise Unknown
            return r
        if op in ("op:Mult", ".multiply"): return pointwise(fac(x.args[1]), fac(x.args[2]), lambda a, b: a * b % P)
        if op in ("op:Div", ".divide"): return pointwise(fac(x.args[1]), fac(x.args[2]), inverse)
        if op in ("op:Pow", ".marginalize"):
            f = fac(x.args[1])
            vs = set()
            for y in x.args[2:]:
                if isinstance(y, N) and y.tag == "star": y = y.args[0]
                vs |= set(names(y))
            return sumout(f, vs)
        if op in (".R", ".restrict"):
            f, ev = fac(x.args[1]), {}
            for y in x.args[2:]:
                if not (isinstance(y, N) and y.tag == "kw" and y.args[0] == "**"): raise Unknown
                v = self.t(y.args[1], env)
                if not (isinstance(v, tuple) and v[:2] == ("coll", "dict")): raise Unknown
                ev.update(dict(v[2]))
            return restricted(f, {k: self.state(v) for k, v in ev.items()})
        return None

    def scope(self, c, env):
        f = self.t(c.args[1], env)
        if not (isinstance(f, tuple) and f[:1] == ("fac",)): raise Unknown
        return {"attr:left_vars": f[1], "attr:right_vars": frozenset(f[2]) - f[1]}.get(c.args[0], f[2])

    def state(self, v):
        key = ("state", v)
        if key not in self.tok: self.tok[key] = self.rng.randrange(2)
        return self.tok[key]

    def states(self, k):
        """the elements of an uninterpreted collection: the states of a variable (map lookups) or names (attributes of an input)"""
        if not (isinstance(k, tuple) and k[:1] == ("tok",)): raise Unknown
        if k[1].startswith("attr:"): pool = self.names
        elif k[1] == "get": pool = STATES
        else: raise Unknown
        if k not in self.tok: self.tok[k] = frozenset(x for x in pool if self.rng.random() < 0.7)
        return self.tok[k]

    # ---- terms: hashable values; Unknown when not determined
    def t(self, x, env):
        tg = x.tag
        if tg == "c": return x.args[1]
        if tg == "fv":
            if x not in self.val: raise Unknown
            return self.val[x]
        if tg == "bv":
            if x.args[0] not in env: raise Unknown
            return env[x.args[0]]
        if tg == "sym":
            if x in self.val: return self.val[x]
            raise Unknown
        if tg == "tup": return tuple(self.t(y, env) for y in x.args)
        if tg == "ite":
            c = self._f(x.args[0], env)
            if c is U:
                a, b = self.t(x.args[1], env), self.t(x.args[2], env)
                if a == b: return a
                raise Unknown
            return self.t(x.args[1] if c else x.args[2], env)
        if tg == "str":
            ps = [self.t(y, env) for y in x.args]
            if all(isinstance(p, str) for p in ps): return "".join(ps)
            return ("tok", "str") + tuple(ps)
        if tg == "app":
            op = x.args[0]
            if op == "get":
                m, k = x.args[1], self.t(x.args[2], env)
                if m.tag == "sym":
                    if m not in self.sets or k not in self.sets[m]: raise Unknown
                    if m in self.maps:                      # names to names
                        key = ("map", m, k)
                        if key not in self.tok: self.tok[key] = self.rng.choice(self.names + ("z",))
                        return self.tok[key]
                    if self.th.factors and m is self.th.factors[0]: return self.factor(k)
                    return ("tok", "get", m.args[0], k)
                mv = self.t(m, env)
                if isinstance(mv, tuple) and mv[:2] == ("coll", "dict"):
                    d = dict(mv[2])
                    if k not in d: raise Unknown
                    return d[k]
                if k not in self.states(mv): raise Unknown
                return ("tok", "get", mv, k)
            if op == "proj":
                v = self.t(x.args[1], env)
                if isinstance(v, tuple) and v[:1] != ("tok",) and isinstance(x.args[2], int) and -len(v) <= x.args[2] < len(v): return v[x.args[2]]
                if isinstance(v, tuple) and v[:1] == ("tok",): return ("tok", "proj", v, x.args[2])
                raise Unknown
            if op == "len":
                a = x.args[1]
                if a.tag == "sym" and a in self.sets: return len(self.sets[a])
                if self.th.factors and a.tag == "app" and a.args[0] in SCOPES: return len(self.scope(a, env))
                v = self.t(a, env)
                if isinstance(v, tuple) and v[:1] == ("coll",) and v[1] in ("set", "dict"): return len(v[2])
                if isinstance(v, tuple) and v[:1] == ("coll",) and self.count(a, env) == len(v[2]): return len(v[2])
                raise Unknown
            if op == "lib:networkx.node_connectivity" and len(x.args) == 4 and isinstance(x.args[1], N) and x.args[1].tag == "graph":
                ns, es = x.args[1].args[:2]
                es = self.elems(es, env)
                if "undirected" in x.args[1].args: es = es | {(b, a) for a, b in es}
                return connectivity(self.elems(ns, env), es, self.t(x.args[2], env), self.t(x.args[3], env))
            if op == "sum" and x.args[1].tag == "coll" and kind(x.args[1]) == "list":
                vs = [a for a, _ in self.instances(x.args[1], env)]
                if all(isinstance(a, (int, float)) for a in vs): return sum(vs)
            if self.th.factors:
                r = self.algebra(op, x, env)
                if r is not None: return r
            if op in self.th.pure: return ("tok", op) + tuple(self.t(y, env) if isinstance(y, N) else y for y in x.args[1:])
            raise Unknown
        if tg == "coll": return self.collv(x, env)
        if x in self.th.named: return ("tok", "object", x.args[0])
        raise Unknown

    def instances(self, x, env):
        for b in blocks(x):
            ids, g, el, v = b.args
            for vs in self._ranges(ids, g, env):
                e2 = dict(env); e2.update(zip(ids, vs))
                r = self._f(g, e2)
                if r is U: raise Unknown
                if r: yield self.t(el, e2), (self.t(v, e2) if v is not None else U)

    def elems(self, x, env):
        if x.tag == "sym":
            if x not in self.sets: raise Unknown
            return set(self.sets[x])
        v = self.t(x, env)
        if not (isinstance(v, tuple) and v[:1] == ("coll",)): raise Unknown
        return {a[0] for a in v[2]} if v[1] == "dict" else set(v[2])

    def count(self, x, env): return sum(1 for _ in self.instances(x, env))

    def collv(self, x, env):
        k = kind(x)
        out = {}
        for b in blocks(x):
            own = {}
            for el, v in self.instances(mk("coll", k, b), env):
                if k == "dict" and el in own and own[el] != v: raise Unknown     # which one is last is not known
                own[el] = v
            out.update(own)
        return ("coll", "dict" if k == "dict" else "set" if k == "set" else "seq", frozenset(out.items()) if k == "dict" else frozenset(out))


P = 1000003
SCOPES = ("attr:variables", "attr:left_vars", "attr:right_vars", "attr:domain")


def inverse(a, b):
    if b % P == 0: raise Unknown
    return a * pow(b, -1, P) % P


def pointwise(f, g, op):
    vs = tuple(sorted(set(f[2]) | set(g[2])))
    tf, tg = table(f), table(g)
    out = []
    for s in itertools.product((0, 1), repeat=len(vs)):
        d = dict(zip(vs, s))
        out.append(op(tf[tuple(d[v] for v in f[2])], tg[tuple(d[v] for v in g[2])]))
    return ("fac", f[1] | g[1], vs, tuple(out))


def table(f): return dict(zip(itertools.product((0, 1), repeat=len(f[2])), f[3]))


def sumout(f, out):
    vs = tuple(v for v in f[2] if v not in out)
    acc = {}
    for s, n in table(f).items():
        k = tuple(x for v, x in zip(f[2], s) if v not in out)
        acc[k] = (acc.get(k, 0) + n) % P
    return ("fac", f[1] - set(out), vs, tuple(acc[s] for s in itertools.product((0, 1), repeat=len(vs))))


def restricted(f, ev):
    vs = tuple(v for v in f[2] if v not in ev)
    t = table(f)
    out = []
    for s in itertools.product((0, 1), repeat=len(vs)):
        d = dict(zip(vs, s))
        out.append(t[tuple(ev[v] if v in ev else d[v] for v in f[2])])
    return ("fac", f[1] - set(ev), vs, tuple(out))


def connectivity(ns, es, s, t):
    """local node connectivity (number of node-disjoint paths from s to t)"""
    if s not in ns or t not in ns or s == t: raise Unknown
    ns, es = set(ns), set(es)
    extra = 0
    if (s, t) in es: es -= {(s, t)}; extra = 1
    mid = sorted(ns - {s, t})
    for k in range(len(mid) + 1):
        for cut in itertools.combinations(mid, k):
            seen, todo = {s}, [s]
            while todo:
                x = todo.pop()
                for a, b in es:
                    if a == x and b not in seen and b not in cut: seen.add(b); todo.append(b)
            if t not in seen: return extra + k
    raise Unknown


def cyclic(es):
    es = set(es)
    while es:
        heads = {b for a, b in es}
        keep = {(a, b) for a, b in es if a in heads}
        if keep == es: return True
        es = keep
    return False


def vocabulary(*roots):
    """what the terms mention: base collections, scalars, free variables, string constants, classes tested"""
    seen, todo = set(), [r for r in roots if isinstance(r, N)]
    inb, syms, fvs, consts, isis = {}, {}, {}, {}, {}
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x.tag == "sym":
            if str(x.args[0]).startswith(("lc:", "lcv:")): continue      # state inside a loop: unknown
            syms[x] = 1
        if x.tag == "fv": fvs[x] = 1
        if x.tag == "c" and isinstance(x.args[1], str): consts[x.args[1]] = 1
        if x.tag == "in" and x.args[0].tag == "sym" and not str(x.args[0].args[0]).startswith(("lc:", "lcv:")): inb[x.args[0]] = 1
        if x.tag == "app" and x.args[0] in ("get", "len") and isinstance(x.args[1], N) and x.args[1].tag == "sym": inb[x.args[1]] = 1
        if x.tag == "tru" and x.args[0].tag == "sym": pass
        if x.tag == "isi": isis[x.args[1]] = 1
        todo += [a for a in x.args if isinstance(a, N)]
    return inb, [s for s in syms if s not in inb], fvs, sorted(consts), isis


def separate(th, got, spec, pc=T, value=False, tries=1500, maps=(), assume=T, seed=7, climbs=12, none=False):
    """a structure in which the two sides are definite and different, or None"""
    if not value: got, spec = th.simp(got), th.simp(spec)
    pc = And(th.simp(pc), th.simp(assume))
    bases, scalars, fvs, consts, isis = vocabulary(got, spec, pc)
    for a, b in th.subsets:
        for x in (a, b):
            if a in bases or b in bases: bases[x] = 1
    for e, n in th.edges:
        if e in bases: bases[n] = 1
    if th.factors and th.factors[0] in bases: bases.update({th.factors[1]: 1, th.factors[2]: 1})
    consts = [c for c in consts if 0 < len(c) < 12][:4]
    scalars = [s for s in scalars if s not in bases]
    rng = random.Random(seed)
    cl = conj(pc)
    unk = 0
    agreed = th.agreed = [0, 0]                # definite and equal; entry conditions hold but a side is not definite
    holds = (True,) if th.strict else (True, U)
    turn = itertools.count()
    def new():
        for _ in range(th.redraw):
            S = Structure(rng, th, list(bases), set(maps), scalars, list(fvs), NAMES + WIDER[:th.wider if next(turn) % 2 else 0], consts=consts)
            S.isi = isis if len(isis) == 1 else {}
            if th.redraw > 1: S.repair(cl)
            if S.ok(scalars, list(bases)) and (th.redraw == 1 or all(S.f(c) is not False for c in cl)): return S
        return None

    def differs(S):
        try: a, b = (("value", S.t(got, {})), ("value", S.t(spec, {}))) if value and none else (S.t(got, {}), S.t(spec, {})) if value else (S.f(got), S.f(spec))
        except Unknown: a = U
        if a is U or not value and b is U:
            if all(S.f(c) in holds for c in cl): agreed[1] += 1
            return None
        if a != b: return (a, b) if all(S.f(c) in holds for c in cl) else ()
        if all(S.f(c) in holds for c in cl): agreed[0] += 1
        return ()
    for k in range(tries):
        S = new()
        if S is None: continue
        d = differs(S)
        if d is None: unk += 1
        elif d: return describe(S, scalars, fvs, *d)
        if k == 300 and unk == 301: return None
    if value: return None
    # hill climbing towards one side holding and the other not
    for goal in (And(got, Not(spec)), And(spec, Not(got))):
        if goal is F: continue
        goals = cl + [goal] if isinstance(cl, list) else list(cl) + [goal]
        for _ in range(climbs):
            S = new()
            if S is None: continue
            score = S.score(goals)
            for step in range(60):
                best = None
                for n in range(12):
                    S2 = S.mutant(rng)
                    if S2 is None or not S2.ok(scalars, list(bases)): continue
                    sc = S2.score(goals)
                    if best is None or sc > best[0]: best = (sc, S2)
                if best is None: break
                if best[0] >= score: score, S = best
                elif rng.random() < 0.1: score, S = best
                d = differs(S)
                if d: return describe(S, scalars, fvs, *d)
    return None


def describe(S, scalars, fvs, a, b):
    d = {str(s.args[0]): sorted(v) for s, v in S.sets.items()}
    for s in scalars: d[str(s.args[0])] = S.val[s]
    for i, f in enumerate(fvs): d["x" if i == 0 else f"x{i}"] = S.val[f]
    return {"structure": d, "code": plain(a), "specified": plain(b)}


def plain(v):
    if isinstance(v, tuple) and v[:1] == ("coll",): return sorted(map(str, map(plain, v[2])))
    if isinstance(v, tuple) and v[:1] == ("tok",):
        v = v[1:]
        return f"{v[1]}[{v[2]}]" if v[0] == "get" and len(v) == 3 else " ".join(str(plain(x)) for x in v)
    if isinstance(v, tuple): return [plain(x) for x in v]
    return v
