"""Abstract values of the provenance / membership analysis (Engine B) and the decision of their equality.

Terms are interned trees.  A collection is abstracted to blocks, each of them one element or a generic one under a guard
(`for every b with guard(b): elem(b) [-> val(b)]`), so that membership of a generic element in it is a propositional formula over
atomic facts about the inputs.  Two abstractions are compared by comparing the truth tables of these formulas."""
from __future__ import annotations
import itertools


class N:
    __slots__ = ("tag", "args", "id", "fv", "mb", "size", "__weakref__")

    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id
    def __hash__(self): return self.id      # sets of terms are walked in the same order on every run


_tab = {}
_ctr = itertools.count(1)
EMPTY = frozenset()


def mk(tag, *args):
    key = (tag,) + args
    n = _tab.get(key)
    if n is not None: return n
    n = N(); n.tag, n.args, n.id = tag, args, next(_ctr)
    fv, mb, size = set(), 0, 1
    for a in args:
        if isinstance(a, N): fv |= a.fv; mb = max(mb, a.mb); size += a.size
    if tag == "fv": fv = {n}
    if tag in ("ex", "blk"): mb = max([mb] + list(args[0]))
    n.fv = frozenset(fv) if fv else EMPTY; n.mb = mb; n.size = size
    _tab[key] = n
    return n


MAXSIZE = 4000
EQSIZE = [150]             # larger equalities are opaque facts
T, F = mk("T"), mk("F")
NONE = mk("c", "NoneType", None)


def C(v): return mk("c", type(v).__name__, v)
def sym(name): return mk("sym", name)
def fresh(hint="b"): return mk("fv", hint, next(_ctr))
def top(why=""): return mk("top", next(_ctr), why)
def isc(t): return t.tag == "c"


# ------------------------------------------------------------------------------------------ formulas
def Not(f):
    if f is T: return F
    if f is F: return T
    if f.tag == "not": return f.args[0]
    return mk("not", f)


def _nary(tag, fs, unit, zero):
    out = {}
    for f in fs:
        if f.tag == tag:
            for g in f.args: out[g] = 1
        elif f is zero: return zero
        elif f is not unit: out[f] = 1
    for f in list(out):
        if Not(f) in out: return zero
    # absorption / unit propagation inside nested alternatives
    other = "or" if tag == "and" else "and"
    lits = {f for f in out if f.tag != other}
    res = {}
    for f in out:
        if f.tag == "not" and f.args[0].tag == tag:
            k = f.args[0].args                      # not (p and ..): a p that holds here can be left out
            if any(Not(g) in lits for g in k): continue
            rest = [g for g in k if g not in lits]
            for q in [g for g in rest if g.tag == "eq"]:          # .. or holds here when the equality does
                for x, y in (q.args, q.args[::-1]):
                    if x.tag != "c": rest = [g for g in rest if g is q or g.tag == "ex" or subst(g, {x: y}) not in lits]
            if len(rest) != len(k):
                f = Not(_nary(tag, rest, unit, zero))
                if f is zero: return zero
                if f is unit: continue
            res[f] = 1
            continue
        if f.tag == other:
            if any(g in lits for g in f.args): continue
            rest = [g for g in f.args if Not(g) not in lits]
            if len(rest) != len(f.args):
                f = _nary(other, rest, zero, unit)
                if f is zero: return zero
                if f is unit: continue
        res[f] = 1
    if any(f.tag == tag for f in res): return _nary(tag, list(res), unit, zero)
    for f in res:
        if Not(f) in res: return zero
    if not res: return unit
    if len(res) == 1: return next(iter(res))
    return mk(tag, *sorted(res))


def And(*fs): return _nary("and", fs, T, F)
def Or(*fs): return _nary("or", fs, F, T)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return Or(And(a, b), And(Not(a), Not(b)))
def Xor(a, b): return Or(And(a, Not(b)), And(b, Not(a)))
def Fite(c, a, b): return a if c is T else b if c is F else a if a is b else Or(And(c, a), And(Not(c), b))


def conj(f): return set(f.args) if f.tag == "and" else set() if f is T else {f}


def rel(pc, entry):
    """what pc adds to entry"""
    if pc is entry: return T
    k = conj(entry)
    return And(*[c for c in conj(pc) if c not in k])


# ------------------------------------------------------------------------------------------ terms
def Ite(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    if c.tag == "not": return Ite(c.args[0], b, a)
    if a.tag == "ite" and a.args[0] is c: a = a.args[1]
    if b.tag == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.tag == "ite" and b.args[1] is a: return Ite(Or(c, b.args[0]), a, b.args[2])
    if b.tag == "ite" and b.args[2] is a: return Ite(Or(c, Not(b.args[0])), a, b.args[1])
    n = mk("ite", c, a, b)
    return top("too large") if n.size > MAXSIZE else n


def cases(t):
    """[(condition, leaf)] of a gated value"""
    if t.tag != "ite": return [(T, t)]
    c, a, b = t.args
    return [(And(c, x), y) for x, y in cases(a) if And(c, x) is not F] + [(And(Not(c), x), y) for x, y in cases(b) if And(Not(c), x) is not F]


def mapite(t, f):
    if t.tag == "ite": return Ite(t.args[0], mapite(t.args[1], f), mapite(t.args[2], f))
    return f(t)


def Str(*parts):
    out = []
    for p in parts:
        if p.tag == "str": q = list(p.args)
        else: q = [p]
        for x in q:
            if isc(x): x = C(str(x.args[1]))
            if isc(x) and out and isc(out[-1]): out[-1] = C(out[-1].args[1] + x.args[1])
            elif isc(x) and x.args[1] == "": continue
            else: out.append(x)
    if not out: return C("")
    if len(out) == 1 and isc(out[0]): return out[0]
    return mk("str", *out)


def Tup(*xs): return mk("tup", *xs)


def Eq(a, b):
    if a is b: return T
    if a.tag == "ite": return Fite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
    if b.tag == "ite": return Fite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
    if isc(a) and isc(b):
        try: return T if a.args[1] == b.args[1] else F
        except Exception: return F
    if a.tag == "tup" and b.tag == "tup":
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)]) if len(a.args) == len(b.args) else F
    if a.tag == "str" and b.tag == "str":
        x, y = list(a.args), list(b.args)
        while x and y and x[0] is y[0]: x.pop(0); y.pop(0)
        while x and y and x[-1] is y[-1]: x.pop(); y.pop()
        if not x and not y: return T
        if len(x) == 1 and len(y) == 1:
            if isc(x[0]) and isc(y[0]): return F
            if not isc(x[0]) and not isc(y[0]): return Eq(x[0], y[0])
        if (not x and all(isc(q) for q in y)) or (not y and all(isc(q) for q in x)): return F
    kinds = {"coll", "tup", "str", "obj"}
    for p, q in ((a, b), (b, a)):
        if isc(p) and q.tag in ("coll", "ref", "fn", "cls", "tup"): return F
        if isc(p) and p.args[1] is None and q.tag in ("str",): return F
    if a.tag == "cls" and b.tag == "cls": return F
    if a.size + b.size > EQSIZE[0]: return mk("unk", "eq", *sorted((a.id, b.id)), *sorted(a.fv | b.fv))
    return mk("eq", *sorted((a, b)))


def App(op, *args): return mk("app", op, *args)


# ------------------------------------------------------------------------------------------ binders
def close(fvs, *parts):
    """(ids, parts with the fresh variables turned into bound ones)"""
    fvs = [v for v in fvs]
    h = max([p.mb for p in parts if isinstance(p, N)] + [0])
    m = {v: mk("bv", h + 1 + i) for i, v in enumerate(fvs)}
    return tuple(h + 1 + i for i in range(len(fvs))), [subst(p, m) if isinstance(p, N) else p for p in parts]


def opened(ids, *parts):
    fvs = [fresh() for _ in ids]
    m = {mk("bv", i): v for i, v in zip(ids, fvs)}
    return fvs, [subst(p, m) if isinstance(p, N) else p for p in parts]


_sc = {}


def subst(t, m):
    if not m: return t
    if all(k.tag == "fv" for k in m):
        m = {k: v for k, v in m.items() if k in t.fv}
        if not m: return t
    key = (t, frozenset(m.items()))
    r = _sc.get(key)
    if r is None:
        r = _subst(t, m)
        if len(_sc) > 400000: _sc.clear()
        _sc[key] = r
    return r


def _subst(t, m):
    if t in m: return m[t]
    if t.tag in ("ex", "blk"):
        ids = t.args[0]
        inner = {k: v for k, v in m.items() if not (k.tag == "bv" and k.args[0] in ids)}
        if not inner: return t
        if all(k.tag == "bv" for k in inner) and all(v.tag in ("bv", "fv") for v in inner.values()):
            parts = [subst(p, inner) if isinstance(p, N) else p for p in t.args[1:]]
            return mk(t.tag, ids, *parts)
        fvs, parts = opened(ids, *t.args[1:])
        parts = [subst(p, inner) if isinstance(p, N) else p for p in parts]
        return Ex(fvs, parts[0]) if t.tag == "ex" else Blk(fvs, *parts)
    args, ch = [], False
    for a in t.args:
        b = subst(a, m) if isinstance(a, N) else a
        ch |= b is not a
        args.append(b)
    return rebuild(t.tag, args) if ch else t


def rebuild(tag, args):
    if tag == "and": return And(*args)
    if tag == "or": return Or(*args)
    if tag == "not": return Not(args[0])
    if tag == "ite": return Ite(*args)
    if tag == "eq": return Eq(*args)
    if tag == "in": return In(args[0], args[1])
    if tag == "str": return Str(*args)
    if tag == "app":
        if args[0] == "get": return Get(args[1], args[2])
        if args[0] == "proj": return Proj(args[1], args[2])
    return mk(tag, *args)


def dnf(f, limit=24):
    """list of sets of literals, or None"""
    if f is T: return [frozenset()]
    if f is F: return []
    if f.tag == "or":
        out = []
        for g in f.args:
            d = dnf(g, limit)
            if d is None: return None
            out += d
            if len(out) > limit: return None
        return out
    if f.tag == "and":
        out = [frozenset()]
        for g in f.args:
            d = dnf(g, limit)
            if d is None: return None
            out = [a | b for a in out for b in d if not any(Not(x) in a for x in b)]
            if len(out) > limit: return None
        return out
    if f.tag == "not" and f.args[0].tag in ("and", "or"):
        g = f.args[0]
        h = Or(*[Not(x) for x in g.args]) if g.tag == "and" else And(*[Not(x) for x in g.args])
        return dnf(h, limit)
    return [frozenset([f])]


def Ex(fvs, body):
    fvs = [v for v in fvs if v in body.fv]
    if not fvs or body is F: return body
    for l in conj(body):                      # one-point rule
        if l.tag == "eq":
            for x, y in (l.args, l.args[::-1]):
                if x in fvs and x not in y.fv: return Ex([v for v in fvs if v is not x], subst(body, {x: y}))
    d = dnf(body)
    if d is None:
        ids, (b,) = close(fvs, body)
        return mk("ex", ids, b)
    out = []
    for lits in d: out.append(_ex1(list(fvs), And(*lits)))
    return Or(*out)


def _ex1(fvs, body):
    """one conjunction"""
    ch = True
    while ch:
        ch = False
        for l in conj(body):
            if l.tag == "eq":
                for x, y in (l.args, l.args[::-1]):
                    if x in fvs and x not in y.fv:
                        body = subst(body, {x: y}); fvs = [v for v in fvs if v is not x]; ch = True; break
            if ch: break
        if body.tag == "or": return Ex(fvs, body)
    fvs = [v for v in fvs if v in body.fv]
    if not fvs or body is F or body is T: return body
    out = [l for l in conj(body) if not any(v in l.fv for v in fvs)]
    inn = [l for l in conj(body) if any(v in l.fv for v in fvs)]
    # independent groups of variables
    groups = []
    for l in inn:
        g = [l]; vs = {v for v in fvs if v in l.fv}
        rest = []
        for g2, v2 in groups:
            if v2 & vs: g += g2; vs |= v2
            else: rest.append((g2, v2))
        groups = rest + [(g, vs)]
    for g, vs in groups:
        order = [v for v in fvs if v in vs]
        ids, (b,) = close(order, And(*g))
        out.append(mk("ex", ids, b))
    return And(*out)


# ------------------------------------------------------------------------------------------ collections
def Blk(fvs, guard, elem, val=None):
    fvs = [v for v in fvs if v in guard.fv or v in elem.fv or (val is not None and v in val.fv)]
    ids, (g, e, v) = close(fvs, guard, elem, val)
    return mk("blk", ids, g, e, v)


def Coll(kind, *blks):
    out = [b for b in blks if b.args[1] is not F]
    n = mk("coll", kind, *out)
    return n


def blocks(c): return c.args[1:]
def kind(c): return c.args[0]


def base(kind_, s):
    """the collection made of a symbolic base"""
    b = fresh()
    return Coll(kind_, Blk([b], In(s, b), b, App("get", s, b) if kind_ == "dict" else None))


def match(elem, e):
    """formula: the element term equals e"""
    if elem.tag == "tup" and e.tag not in ("tup", "c", "str"):
        return And(*[Eq(x, Proj(e, i)) for i, x in enumerate(elem.args)])
    return Eq(elem, e)


def Proj(t, i):
    if t.tag == "tup": return t.args[i] if isinstance(i, int) and -len(t.args) <= i < len(t.args) else top("proj")
    if t.tag == "ite": return Ite(t.args[0], Proj(t.args[1], i), Proj(t.args[2], i))
    return mk("app", "proj", t, i)


def In(c, e):
    if c.tag == "ite": return Fite(c.args[0], In(c.args[1], e), In(c.args[2], e))
    if e.tag == "ite": return Fite(e.args[0], In(c, e.args[1]), In(c, e.args[2]))
    if c.tag == "coll":
        out = []
        for b in blocks(c):
            fvs, (g, el, _) = opened(b.args[0], *b.args[1:])
            out.append(Ex(fvs, And(match(el, e), g)))
        return Or(*out)
    if c.tag == "tup": return Or(*[Eq(x, e) for x in c.args])
    if c.tag == "c" or c.tag == "str":
        if c.tag == "c" and isc(e) and isinstance(c.args[1], str) and isinstance(e.args[1], str): return T if e.args[1] in c.args[1] else F
        return mk("in", c, e)
    return mk("in", c, e)


def Get(m, k):
    """value of a map at a key (None-like top when nothing matches is not represented: callers look at In as well)"""
    if m.tag == "ite": return Ite(m.args[0], Get(m.args[1], k), Get(m.args[2], k))
    if k.tag == "ite": return Ite(k.args[0], Get(m, k.args[1]), Get(m, k.args[2]))
    if m.tag == "coll" and kind(m) == "dict":
        out = None
        for b in blocks(m):
            fvs, (g, el, v) = opened(b.args[0], *b.args[1:])
            cond = And(match(el, k), g)
            val = v
            if fvs:
                sol = solve(fvs, el, k)
                if sol is None: val = top("key image")
                else:
                    val = subst(v, sol)
                    if any(x in val.fv for x in fvs): val = top("one of several values")
                cond = Ex(fvs, cond)
            out = val if out is None or cond is T else Ite(cond, val, out)
        return out if out is not None else top("key of an empty map")
    return mk("app", "get", m, k)


def solve(fvs, el, k):
    """the instance of the generic element that is k, when the element determines it"""
    if el in fvs: return {el: k} if len(fvs) == 1 or True else None
    if el.tag == "tup":
        m = {}
        for i, x in enumerate(el.args):
            if x in fvs: m[x] = Proj(k, i)
        return m if all(v in m for v in fvs) else None
    if el.tag == "str" and k.tag == "str":
        x, y = list(el.args), list(k.args)
        while x and y and x[0] is y[0]: x.pop(0); y.pop(0)
        while x and y and x[-1] is y[-1]: x.pop(); y.pop()
        if len(x) == 1 and len(y) == 1 and x[0] in fvs: return {x[0]: y[0]}
    return None


def determined(fvs, el):
    """the generic variables that an element determines"""
    if el in fvs: return {el}
    if el.tag == "tup": return {x for x in el.args if x in fvs}
    if el.tag == "str":
        xs = [x for x in el.args if any(v in x.fv for v in fvs)]
        if len(xs) == 1 and xs[0] in fvs: return {xs[0]}
    return set()


def filt(c, pred):
    out = []
    for b in blocks(c):
        fvs, (g, el, v) = opened(b.args[0], *b.args[1:])
        out.append(Blk(fvs, And(g, pred(el)), el, v))
    return Coll(kind(c), *out)


def gate(c, cond):
    if cond is T: return c
    return Coll(kind(c), *[_gateb(b, cond) for b in blocks(c)])


def _gateb(b, cond):
    fvs, (g, el, v) = opened(b.args[0], *b.args[1:])
    return Blk(fvs, And(cond, g), el, v)


def nonempty(c):
    if c.tag == "ite": return Fite(c.args[0], nonempty(c.args[1]), nonempty(c.args[2]))
    if c.tag == "tup": return T if c.args else F
    if c.tag == "coll":
        out = []
        for b in blocks(c):
            fvs, (g, el, v) = opened(b.args[0], *b.args[1:])
            out.append(Ex(fvs, g))
        return Or(*out)
    b = fresh()
    return Ex([b], In(c, b))


# ------------------------------------------------------------------------------------------ printing
def show(n, d=0):
    if not isinstance(n, N): return str(n)
    if d > 12: return "…"
    s = lambda x: show(x, d + 1)
    t, a = n.tag, n.args
    if t in ("T", "F"): return t
    if t == "c": return repr(a[1])
    if t == "sym": return str(a[0])
    if t == "fv": return f"?{a[1] % 1000}"
    if t == "bv": return f"b{a[0]}"
    if t == "top": return f"⊤({a[1]})"
    if t == "not": return "¬" + s(a[0])
    if t == "and": return "(" + " ∧ ".join(map(s, a)) + ")"
    if t == "or": return "(" + " ∨ ".join(map(s, a)) + ")"
    if t == "eq": return f"{s(a[0])}={s(a[1])}"
    if t == "in": return f"{s(a[1])}∈{s(a[0])}"
    if t == "ex": return f"∃{','.join('b%d' % i for i in a[0])}.{s(a[1])}"
    if t == "blk": return (f"{s(a[2])}" + (f"→{s(a[3])}" if a[3] is not None else "") + (f" | {s(a[1])}" if a[1] is not T else ""))
    if t == "coll": return {"list": "[%s]", "dict": "{%s:}", "set": "{%s}", "tuple": "(%s)"}.get(a[0], a[0] + "[%s]") % "; ".join(map(s, a[1:]))
    if t == "ite": return f"if({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if t == "str": return "+".join(map(s, a))
    if t == "tup": return "(" + ",".join(map(s, a)) + ")"
    if t == "app": return f"{a[0]}({','.join(map(s, a[1:]))})"
    if t == "ref": return f"ref{a[0]}" + (("[" + ",".join(map(s, a[1:])) + "]") if len(a) > 1 else "")
    return t + "(" + ",".join(map(s, a)) + ")"


# ------------------------------------------------------------------------------------------ deciding equality
ATOM = ("eq", "in", "ex", "isi", "cmp", "tru", "unk")


class Theory:
    """facts about the inputs: rewriting of atoms, implications between them, and which opaque atoms are free"""
    def __init__(self, facts=None, subsets=(), edges=(), pure=()):
        self.facts, self.subsets, self.edges = facts, list(subsets), list(edges)   # subsets: (A, B) syms; edges: (E, N)
        self.pure = set(pure)
        self.injective = set()                  # maps whose values at different keys differ
        self.redraw = 1                        # draws of a small structure until the entry conditions hold
        self.wider = 0                         # every other small structure has this many further elements
        self.dense = ()                        # bases drawn nearly full
        self.strict = False                    # a counterexample must satisfy every condition, not just fail none
        self.within = {}                       # scalars drawn from a base collection
        self.factors = ()                      # (map of factors, edges, nodes): terms over factors are evaluated as tables
        self.ints, self.named = set(), set()     # scalars that are integers; objects known to be none of the others
        self.assumed, self.maps = T, ()      # entry conditions; bases that map names to names

    @property
    def facts(self): return self._facts

    @facts.setter
    def facts(self, f): self._facts = f; self._simp = {}

    def simp(self, f):
        """apply the facts everywhere"""
        if f in self._simp: return self._simp[f]
        r = self._simp1(f)
        self._simp[f] = r
        return r

    def _simp1(self, f):
        if f.tag in ("and", "or", "not"):
            g = rebuild(f.tag, [self.simp(x) for x in f.args])
            if g.tag == "and" and self.subsets:
                lits = conj(g)
                drop = {h for l in lits if l.tag == "in" for a, b in self.subsets if l.args[0] is a for h in [mk("in", b, l.args[1])]
                        if h in lits and not ((b, a) in self.subsets and self.subsets.index((b, a)) < self.subsets.index((a, b)))}
                if drop: g = And(*[l for l in lits if l not in drop])
                if any(l.tag == "in" and Not(mk("in", b, l.args[1])) in lits for l in lits for a, b in self.subsets if l.tag == "in" and l.args[0] is a): return F
            return g
        if f.tag == "ex":
            fvs, (b,) = opened(f.args[0], f.args[1])
            b = self.simp(b)
            e = Ex(fvs, b)
            if e.tag == "ex" and not self._sat(e): return F
            return e
        if f.tag in ATOM:
            if self.facts is not None:
                v = self.facts(f)
                if v is True: return T
                if v is False: return F
            if f.tag == "eq" and all(x.tag == "app" and x.args[0] == "get" for x in f.args) and f.args[0].args[1] is f.args[1].args[1] and f.args[0].args[1] in self.injective:
                return self.simp(Eq(f.args[0].args[2], f.args[1].args[2]))
            args = [self.sterm(x) if isinstance(x, N) else x for x in f.args]
            g = rebuild(f.tag, args)
            if g is not f: return self.simp(g)
        return f

    def sterm(self, t):
        if t.tag == "ite": return Ite(self.simp(t.args[0]), self.sterm(t.args[1]), self.sterm(t.args[2]))
        return t

    def _sat(self, e):
        fvs, (b,) = opened(e.args[0], e.args[1])
        return not self.table(b, F, quick=True) == "same"

    # opaque: the analysis knows nothing about when it holds
    def opaque(self, a):
        seen = set()
        def bad(t):
            if t in seen: return False
            seen.add(t)
            if t.tag in ("top", "unk", "ex", "cmp"): return True
            if t.tag == "app" and not self.known_app(t.args[0]): return True
            if t.tag == "kw": return True
            return any(bad(x) for x in t.args if isinstance(x, N))
        return bad(a)

    def known_app(self, op):
        return op in ("get", "proj", "len", "idx") or op in self.pure

    def atoms(self, *fs):
        out, todo, seen = {}, list(fs), set()
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            if f.tag in ("and", "or", "not"): todo += f.args
            elif f.tag in ATOM: out[f] = 1
        return list(out)

    def axioms(self, atoms, depth=0):
        ax = []
        terms = {}
        for a in atoms:
            if a.tag == "in": terms.setdefault(a.args[1], 1)
            if a.tag == "eq":
                for x in a.args: terms.setdefault(x, 1)
        aset = set(atoms)
        # inclusions
        for a in atoms:
            if a.tag != "in": continue
            for s, t in self.subsets:
                if a.args[0] is s: ax.append(Implies(a, In(t, a.args[1])))
            for e, n in self.edges:
                if a.args[0] is e:
                    x, y = Proj(a.args[1], 0), Proj(a.args[1], 1)
                    ax += [Implies(a, In(n, x)), Implies(a, In(n, y)), Implies(a, Not(Eq(x, y)))]
        # equality
        eqs = [a for a in atoms if a.tag == "eq"]
        for q in eqs:
            x, y = q.args
            for a in atoms:
                if a is q or a.tag == "ex": continue
                for p, r in ((x, y), (y, x)):
                    if p.tag in ("c",): continue
                    if _occurs(p, a):
                        b = self.simp(subst(a, {p: r}))
                        if b is T or b is F: ax.append(Implies(And(q, a), b)); ax.append(Implies(And(q, Not(a)), Not(b)))
                        elif b in aset: ax.append(Implies(q, Iff(a, b)))
        # witnesses of existentials
        exs = [a for a in atoms if a.tag == "ex"]
        for e in exs:
            ids, body = e.args
            if len(ids) == 1:
                for t in list(terms):
                    if t.tag in ("bv",): continue
                    fvs, (b,) = opened(ids, body)
                    g = self.simp(subst(b, {fvs[0]: t}))
                    if len([x for x in self.atoms(g) if x not in aset]) <= 2: ax.append(Implies(g, e))
            elif len(ids) == 2:
                for t in list(terms):
                    if t.tag == "tup" and len(t.args) == 2:
                        fvs, (b,) = opened(ids, body)
                        g = self.simp(subst(b, {fvs[0]: t.args[0], fvs[1]: t.args[1]}))
                        if all(x in aset for x in self.atoms(g)): ax.append(Implies(g, e))
        if depth < 2 and (self.edges or self.subsets):
            for e in exs:
                for a in atoms:
                    if a.tag != "in" or not (a.args[1].fv & e.fv): continue
                    fvs, (b,) = opened(*e.args)
                    if self.table(And(b, Not(a)), F, depth=depth + 1) == "same": ax.append(Implies(e, a))
        if depth < 2:
            for e1, e2 in itertools.permutations(exs, 2):
                if len(e1.args[0]) < len(e2.args[0]) or len(e1.args[0]) > 3: continue
                fvs, (b1,) = opened(e1.args[0], e1.args[1])
                for ws in itertools.permutations(fvs, len(e2.args[0])):       # the witnesses of one serve the other
                    b2 = subst(e2.args[1], {mk("bv", i): v for i, v in zip(e2.args[0], ws)})
                    if self.table(And(b1, Not(b2)), F, depth=depth + 1) == "same": ax.append(Implies(e1, e2)); break
        # sizes
        for a in atoms:
            if a.tag == "cmp": ax += self._cmp(a, atoms)
        return ax

    def _cmp(self, a, atoms):
        op, x, y = a.args
        ax = []
        if x.tag == "app" and x.args[0] == "len" and isc(y) and isinstance(y.args[1], int):
            n = y.args[1]
            ne = nonempty(x.args[1])
            if op == "<": lo = Implies(a, T) if n > 1 else T; ax.append(Implies(Not(a), ne) if n >= 1 else T)
            if op == "==":
                if n >= 1: ax.append(Implies(a, ne))
            for b in atoms:
                if b is a or b.tag != "cmp" or b.args[1] is not x or not isc(b.args[2]): continue
                m = b.args[2].args[1]
                if op == "<" and b.args[0] == "<" and n <= m: ax.append(Implies(a, b))
                if op == "==" and b.args[0] == "==" and n != m: ax.append(Not(And(a, b)))
                if op == "==" and b.args[0] == "<": ax.append(Implies(a, b) if n < m else Implies(a, Not(b)))
        return ax

    def table(self, f, g, quick=False, depth=0, maxatoms=16):
        """'same' | ('diff', assignment) | 'unknown'"""
        f, g = self.simp(f), self.simp(g)
        if f is g: return "same"
        atoms = self.atoms(f, g)
        ax = []
        for _ in range(3):
            ax = [self.simp(x) for x in self.axioms(atoms, depth if not quick else 2)]
            new = [x for x in self.atoms(*ax) if x not in atoms]
            if not new: break
            if len(atoms) + len(new) > maxatoms: new = []
            if not new: break
            atoms += new
        ax = [x for x in ax if all(y in atoms for y in self.atoms(x))]
        if len(atoms) > maxatoms: return "unknown"
        n = len(atoms)
        full = (1 << (1 << n)) - 1
        col = {}
        for i, a in enumerate(atoms):
            w = 1 << i
            blk = ((1 << w) - 1) << w
            p = 0
            step = 2 * w
            # repeat the pattern
            p = blk; ln = step
            while ln < (1 << n): p |= p << ln; ln *= 2
            col[a] = p & full
        memo = {}
        def ev(x):
            r = memo.get(x)
            if r is not None: return r
            if x is T: r = full
            elif x is F: r = 0
            elif x.tag == "not": r = full & ~ev(x.args[0])
            elif x.tag == "and":
                r = full
                for y in x.args: r &= ev(y)
            elif x.tag == "or":
                r = 0
                for y in x.args: r |= ev(y)
            else: r = col[x]
            memo[x] = r
            return r
        cons = full
        for x in ax: cons &= ev(x)
        diff = (ev(f) ^ ev(g)) & cons
        if not diff: return "same"
        bad = cons & ~diff & full
        allc = cons
        for i, a in enumerate(atoms):
            if not self.opaque(a): continue
            w = 1 << i
            c = col[a]
            def proj(m): return m | ((m & c) >> w) | ((m & ~c & full) << w)
            bad, allc = proj(bad), proj(allc)
        ok = allc & ~bad & full
        if not ok: return "unknown"
        for _ in range(200):
            k = (ok & -ok).bit_length() - 1
            asg = {a: bool(k >> i & 1) for i, a in enumerate(atoms) if not self.opaque(a)}
            if self.consistent(asg): return ("diff", asg)
            ok &= ok - 1
            if not ok: break
        return "unknown"

    def consistent(self, asg):
        """can these facts hold together? (congruence closure, inclusions, edges)"""
        rep = {}
        def find(t):
            while t in rep: t = rep[t]
            return t
        lits = dict(asg)
        for _ in range(20):
            eqs = [a for a, v in lits.items() if v and a.tag == "eq"]
            if not eqs: break
            x, y = (find(t) for t in eqs[0].args)
            lits.pop(eqs[0])
            if x is y: continue
            if isc(x) or (x.tag != "fv" and y.tag == "fv"): x, y = y, x
            if isc(x) and isc(y): return False
            if _occurs(x, y): x, y = y, x
            if _occurs(x, y): return False
            rep[x] = y
            new = {}
            for a, v in lits.items():
                b = self.simp(subst(a, {x: y}))
                if b is T or b is F:
                    if (b is T) != v: return False
                    continue
                if b.tag in ("and", "or", "ex"): continue
                if b.tag == "not": b, v = b.args[0], not v
                if new.setdefault(b, v) != v: return False
            lits = new
        true = {a for a, v in lits.items() if v}
        for _ in range(4):
            add = set()
            for a in true:
                if a.tag != "in": continue
                for s, t in self.subsets:
                    if a.args[0] is s: add.add(self.simp(In(t, a.args[1])))
                for e, n in self.edges:
                    if a.args[0] is e:
                        x, y = Proj(a.args[1], 0), Proj(a.args[1], 1)
                        if x is y or mk("in", e, Tup(y, x)) in true: return False
                        add |= {self.simp(In(n, x)), self.simp(In(n, y))}
            if F in add: return False
            if add <= true: break
            true |= add
        return not any(not v and a in true for a, v in lits.items())

    def equivalent(self, f, g): return self.table(f, g)

    # ---- values
    def same_value(self, t, s, depth=0):
        """'same' | ('diff', why) | 'unknown'  for gated values"""
        dd, dm = [], []
        why = None
        for c1, x in cases(t):
            for c2, y in cases(s):
                c = self.simp(And(c1, c2))
                if c is F: continue
                r = self.leaf(x, y, depth)
                if r == "same": continue
                if r == "unknown": dm.append(c)
                else: dd.append(c); dm.append(c); why = why or (x, y)
        if not dm or self.table(Or(*dm), F) == "same": return "same"
        if dd:
            r = self.table(Or(*dd), F)
            if r not in ("same", "unknown"): return ("diff", why, r[1])
        return "unknown"

    def leaf(self, x, y, depth=0):
        if x is y: return "same"
        if x.tag == "coll" and y.tag == "coll" and depth < 3: return self.same_coll(x, y, depth + 1)
        if x.tag == "tup" and y.tag == "tup" and len(x.args) == len(y.args):
            rs = [self.same_value(a, b, depth + 1) for a, b in zip(x.args, y.args)]
            for r in rs:
                if r not in ("same", "unknown"): return r
            return "same" if all(r == "same" for r in rs) else "unknown"
        if self.opaque(x) or self.opaque(y): return "unknown"
        e = Eq(x, y)
        if e is T: return "same"
        if x.tag in ("ref", "obj", "fn") or y.tag in ("ref", "obj", "fn"):
            return ("diff",) if e is F else "unknown"
        e = self.simp(e)
        return "same" if e is T else ("diff",)

    def same_block(self, p, q, depth):
        if p is q: return True
        if len(p.args[0]) != len(q.args[0]): return False
        fvs, xs = opened(p.args[0], *p.args[1:])
        m = {mk("bv", i): v for i, v in zip(q.args[0], fvs)}
        ys = [z if z is None else subst(z, m) for z in q.args[1:]]
        if (xs[2] is None) != (ys[2] is None): return False
        if self.table(xs[0], ys[0]) != "same": return False
        return all(a is b or self.same_value(Ite(xs[0], a, NONE), Ite(xs[0], b, NONE), depth + 1) == "same" for a, b in zip(xs[1:], ys[1:]) if a is not None)

    def same_coll(self, x, y, depth=0):
        if kind(x) == kind(y) and len(blocks(x)) == len(blocks(y)) and all(self.same_block(p, q, depth) for p, q in zip(blocks(x), blocks(y))): return "same"
        b = fresh("e")
        r = self.table(In(x, b), In(y, b))
        if r != "same": return r
        if kind(x) == "dict" and kind(y) == "dict":
            g = In(x, b)
            r = self.same_value(Ite(g, Get(x, b), NONE), Ite(g, Get(y, b), NONE), depth)
            return r
        return "same"


def _occurs(p, t):
    if p is t: return True
    return any(_occurs(p, x) for x in t.args if isinstance(x, N))

