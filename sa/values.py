"""Engine B: abstract interpretation of the syntax tree in the provenance / membership domain of terms.py.

Every function is interpreted once per call on abstract arguments: branches are joined by gating (never enumerated), loops are
summarised by one pass over a generic element, callees of the repository are inlined, library calls are modelled or opaque.
What cannot be abstracted becomes an opaque value; a comparison that would need it is reported as undecided, never as a difference."""
from __future__ import annotations
import ast, itertools
from loader import World, AnalysisBroken, ClassInfo, FuncInfo
from terms import *
from terms import _gateb

_ids = itertools.count(1)


class Obj:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls, self.f = cls, f
    def set(self, k, v): g = dict(self.f); g[k] = v; return Obj(self.cls, g)
    def map(self, fn): return Obj(self.cls, {k: fn(v) for k, v in self.f.items()})


class EnumVal(tuple): pass


def varying(op, xs):
    if op.startswith("lib:"): return op.startswith(("lib:random.", "lib:numpy.random.", "lib:time.", "lib:uuid.", "lib:secrets.", "lib:enum.auto")) or op == "lib:builtins.next"
    return any(x.tag == "app" and x.args[0].startswith("lib:") and varying(x.args[0], ()) for x in xs if isinstance(x, N))


class Gr:
    __slots__ = ("nodes", "edges", "directed")
    def __init__(self, nodes, edges, directed=True): self.nodes, self.edges, self.directed = nodes, edges, directed
    def map(self, fn): return Gr(fn(self.nodes), fn(self.edges), self.directed)


class Unknown:
    def map(self, fn): return self


UNK = Unknown()
LIBSIZE = 120
SMALL = 150


class St:
    __slots__ = ("frames", "heap", "pc", "dead")
    def __init__(self): self.frames, self.heap, self.pc, self.dead = {}, {}, T, False

    def copy(self, pc=None):
        s = St(); s.frames = {k: dict(v) for k, v in self.frames.items()}; s.heap = dict(self.heap); s.pc = self.pc if pc is None else pc
        s.dead = self.dead
        return s

    def assign(self, o): self.frames, self.heap, self.pc, self.dead = o.frames, o.heap, o.pc, o.dead


class Frame:
    def __init__(self, fid, fi, module, owner, parent=None): self.fid, self.fi, self.module, self.owner, self.parent = fid, fi, module, owner, parent


class Budget(Exception): pass


def kindname(content):
    if isinstance(content, N) and content.tag == "coll": return content.args[0]
    return None


SETLIKE = ("set",)
COLLM = {"keys", "values", "items", "get", "copy", "union", "difference", "intersection", "issubset", "issuperset", "isdisjoint", "index", "count",
         "symmetric_difference"}
GRAPHM = {"nodes", "edges", "predecessors", "successors", "copy", "subgraph", "edge_subgraph", "to_undirected", "has_node", "has_edge", "adj",
          "in_edges", "out_edges", "neighbors", "in_degree", "out_degree", "remove_edges_from", "remove_nodes_from", "remove_node", "remove_edge",
          "add_node", "add_edge", "add_nodes_from", "add_edges_from", "reverse", "number_of_nodes"}


def orpc(p, q):
    """p or q, with what they have in common kept in front"""
    a, b = conj(p), conj(q)
    return And(*(a & b), Or(And(*(a - b)), And(*(b - a))))


def sep(p, q):
    """a short condition that holds under p and not under q (which exclude each other)"""
    a, b = conj(p), conj(q)
    x, y = And(*(a - b)), Not(And(*(b - a)))
    return x if x.size <= y.size else y


def any_ref(t):
    return t.tag == "ref" or any(any_ref(x) for x in t.args if isinstance(x, N))


def only(fvs, key, v):
    """the value stored under a key: when several elements may have that key, the last one wins, and it is not known which it is"""
    if v is None or not any(x in v.fv for x in fvs): return v
    d = determined(fvs, key)
    return v if all(x in d for x in fvs if x in v.fv) else top("one of several values")


class Values:
    MAXDEPTH, MAXSTEPS = 40, 400000

    def __init__(self, w: World, facts=None):
        self.w, self.raises, self.loopvars, self.steps = w, [], [], 0
        self.active = []
        self.calls = []          # recorded calls: (dotted or method name, pc, args, kwargs, site)
        self.isi_fact = None     # callable(term, classname) -> True/False/None
        self.expr_cache = {}
        self.opaque_classes = set()   # classes whose construction is not entered: Class(...) -> App("new:Class", ...)
        self.opaque_methods = set()   # repository functions (name) not entered: .name(recv, args)
        self.env0 = {}
        self.on_raise = None
        self.opsize = LIBSIZE

    # ------------------------------------------------------------------ heap
    def alloc(self, st, content):
        i = next(_ids)
        st.heap[i] = (tuple(self.loopvars), content)
        return mk("ref", i, *self.loopvars)

    def deref(self, st, r):
        h = st.heap.get(r.args[0])
        if h is None: return UNK
        params, c = h
        if params == r.args[1:]: return c
        m = dict(zip(params, r.args[1:]))
        return subst(c, m) if isinstance(c, N) else c.map(lambda x: subst(x, m))

    def write(self, st, r, c):
        params, _ = st.heap.get(r.args[0], ((), None))
        st.heap[r.args[0]] = (params, c if params == r.args[1:] else UNK)

    def coll(self, t, st):
        """the collection a value stands for, as a term usable by In / nonempty / Get"""
        if t.tag == "ite": return Ite(t.args[0], self.coll(t.args[1], st), self.coll(t.args[2], st))
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, N): return c
            if isinstance(c, Gr): return c.nodes
            return mk("top", -t.args[0], "contents")
        if t.tag == "view": return self.coll(self.unview(t, st), st)
        return t

    def snap(self, t, st, d=0):
        """value with its containers replaced by what they contain now"""
        if d > 6: return t
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, N): return self.snap(c, st, d + 1)
            if isinstance(c, Gr): return mk("graph", self.snap(c.nodes, st, d + 1), self.snap(c.edges, st, d + 1), *(() if c.directed else ("undirected",)))
            return t
        if t.tag == "coll":
            out = []
            for b in blocks(t):
                fvs, (g, e, v) = opened(b.args[0], *b.args[1:])
                out.append(Blk(fvs, g, self.snap(e, st, d + 1), self.snap(v, st, d + 1) if v is not None else None))
            return Coll(kind(t), *out)
        if t.tag == "ite": return Ite(t.args[0], self.snap(t.args[1], st, d + 1), self.snap(t.args[2], st, d + 1))
        if t.tag == "tup": return Tup(*[self.snap(x, st, d + 1) for x in t.args])
        if t.tag == "view": return self.snap(self.unview(t, st), st, d + 1)
        return t

    # ------------------------------------------------------------------ joining
    def mergec(self, g, x, y):
        if x is y: return x
        if isinstance(x, N) and isinstance(y, N) and x.tag == y.tag == "coll" and kind(x) == kind(y):
            bx, by = blocks(x), blocks(y)
            k = 0
            while k < len(bx) and k < len(by) and bx[k] is by[k]: k += 1
            out = list(bx[:k])
            while k < len(bx) and k < len(by) and bx[k].args[0] == by[k].args[0] and bx[k].args[2] is by[k].args[2] and bx[k].args[3] is by[k].args[3]:
                # the same elements under different conditions
                fvs, (g1, e1, v1) = opened(bx[k].args[0], *bx[k].args[1:])
                g2 = subst(by[k].args[1], {mk("bv", i): v for i, v in zip(by[k].args[0], fvs)})
                both = conj(g1) & conj(g2)
                out.append(Blk(fvs, And(*both, Or(And(g, *(conj(g1) - both)), And(Not(g), *(conj(g2) - both)))), e1, v1))
                k += 1
            out += [_gateb(b, g) for b in bx[k:]] + [_gateb(b, Not(g)) for b in by[k:]]
            if sum(b.size for b in out) > MAXSIZE: return UNK
            return Coll(kind(x), *out)
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls:
            return Obj(x.cls, {k: Ite(g, x.f.get(k, y.f.get(k)), y.f.get(k, x.f.get(k))) for k in list(x.f) + [k for k in y.f if k not in x.f]})
        if isinstance(x, Gr) and isinstance(y, Gr):
            n, e = self.mergec(g, x.nodes, y.nodes), self.mergec(g, x.edges, y.edges)
            return Gr(n, e, x.directed) if isinstance(n, N) and isinstance(e, N) else UNK
        return UNK

    def merge(self, g, a, b):
        """join of two states; g distinguishes the first"""
        if a is None or a.dead: return b
        if b is None or b.dead: return a
        s = St()
        s.pc = orpc(a.pc, b.pc)
        s.heap = dict(b.heap)
        for k, (p, c) in a.heap.items():
            if k in b.heap:
                c2 = b.heap[k][1]
                s.heap[k] = (p, c if c is c2 else self.mergec(g, c, c2))
            else: s.heap[k] = (p, c)
        for k in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(k), b.frames.get(k)
            if fa is None or fb is None: s.frames[k] = dict(fa or fb); continue
            s.frames[k] = {n: Ite(g, fa[n], fb[n]) if n in fa and n in fb else fa.get(n, fb.get(n)) for n in list(fa) + [n for n in fb if n not in fa]}
        return s

    def fork(self, st, c, f1, f2):
        """value of (f1 under c, f2 under not c); joins the effects into st"""
        if self.theory is not None: c = self.theory.simp(c)
        c = self.small(c)
        if c is T: return f1(st)
        if c is F: return f2(st)
        k = conj(st.pc)
        if c in k: return f1(st)
        if Not(c) in k: return f2(st)
        s1, s2 = st.copy(And(st.pc, c)), st.copy(And(st.pc, Not(c)))
        if s1.pc is F: return f2(st)
        if s2.pc is F: return f1(st)
        v1, v2 = f1(s1), f2(s2)
        m = self.merge(c, s1, s2)
        st.assign(m)
        if s1.dead and s2.dead: return top("dead")
        if s1.dead: return v2
        if s2.dead: return v1
        return Ite(c, v1, v2)

    def dist(self, t, st, fn):
        if t.tag == "ite":
            return self.fork(st, t.args[0], lambda s: self.dist(t.args[1], s, fn), lambda s: self.dist(t.args[2], s, fn))
        return fn(t, st)

    # ------------------------------------------------------------------ truth
    def truth(self, t, st):
        if t.tag == "ite": return Fite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if isc(t): return T if t.args[1] else F
        if t.tag == "form": return t.args[0]
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, N): return nonempty(c)
            if isinstance(c, Gr): return nonempty(c.nodes)
            if isinstance(c, Obj): return T
            return mk("tru", t)
        if t.tag in ("coll", "tup"): return nonempty(t)
        if t.tag in ("fn", "cls", "lib", "mod", "bm"): return T
        if t.tag == "str": return T if any(isc(x) for x in t.args) else mk("tru", t)
        if t.tag == "app" and t.args[0] == "len": return nonempty(t.args[1])
        if t.tag == "sym" and t.args[0] in self.collsyms: return nonempty(t)
        return mk("tru", t)

    collsyms: set = frozenset()
    theory = None            # facts about the inputs, used to simplify the conditions branched on

    # A condition too large to carry around is given a name: the same condition keeps the same name, and the comparisons treat the
    # name as a fact nothing is known about (it depends on the same loop variables).
    smallsize = SMALL

    def small(self, f, lim=None):
        lim = lim or self.smallsize
        if f.size <= lim: return f
        if f.tag == "not": return Not(self.small(f.args[0], lim))
        if f.tag in ("and", "or"):
            g = (And if f.tag == "and" else Or)(*[self.small(x, lim) for x in f.args])
            if g.size <= lim: return g
        return mk("unk", "h", f.id, *sorted(f.fv))

    def known(self, g): return self.theory.simp(g) if self.theory is not None else g

    def form(self, f): return C(True) if f is T else C(False) if f is F else mk("form", f)

    # ------------------------------------------------------------------ entry
    def call_root(self, f, args=(), kwargs=None, st=None, selfterm=None, cls=None):
        st = st or St()
        fr = Frame(0, None, None, None)
        st.frames.setdefault(0, {})
        fn = mk("fn", f, 0, selfterm)
        return self.call(fn, list(args), dict(kwargs or {}), st, fr, None), st

    def new(self, st, cls, *args, **kwargs):
        st.frames.setdefault(0, {})
        return self.construct(cls, list(args), kwargs, st, Frame(0, None, None, None), None)

    def attr(self, t, name, st): return self.getattr(t, name, st, Frame(0, None, None, None))

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            v = st.frames.get(f.fid, {}).get(name)
            if v is not None: return v
            f = f.parent
        if fr.module is None: return top(name)
        f = fr
        local = {}
        while f is not None:
            if f.fi is not None: local = {**self.localimports(f.fi), **local}
            f = f.parent
        return self.resolved(self.w.resolve(fr.module, name, local=local), name, st)

    def localimports(self, fi):
        k = ("li", fi)
        if k not in self.expr_cache:
            out = {}
            for x in ast.walk(fi.node):
                if isinstance(x, (ast.Import, ast.ImportFrom)): self.w._imports(fi.module, x, out)
            self.expr_cache[k] = out
        return self.expr_cache[k]

    def resolved(self, r, name, st):
        if r is None: return top(name)
        if r[0] == "func": return mk("fn", r[1], 0, None)
        if r[0] == "class": return mk("cls", r[1])
        if r[0] == "mod": return mk("mod", r[1])
        if r[0] == "ext":
            d = r[1]
            if d in ("builtins.None",): return NONE
            return mk("lib", d)
        if r[0] == "expr":
            key = ("mod", r[2])
            if key not in st.heap:
                fr = Frame(-1, None, r[1], None)
                st.frames.setdefault(-1, {})
                lv, self.loopvars = self.loopvars, []
                pc = st.pc; st.pc = T
                v = self.eval(r[2], st, fr)
                st.pc = pc; self.loopvars = lv
                st.heap[key] = ((), v)
            return st.heap[key][1]
        return top(name)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Budget()
        if st.dead: return top("dead")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: return top(type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr): return C(e.value) if not isinstance(e.value, (bytes, type(Ellipsis))) else top("const")
    def e_Name(self, e, st, fr): return self.lookup(e.id, st, fr)
    def e_Starred(self, e, st, fr): return self.eval(e.value, st, fr)
    def e_Await(self, e, st, fr): return top("await")

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr); self.bind(e.target, v, st, fr); return v

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(C(v.value))
            else:
                x = self.eval(v.value, st, fr)
                if v.format_spec is not None: x = App("fmt", x, C(v.format_spec.values[0].value) if all(isinstance(y, ast.Constant) for y in v.format_spec.values) and v.format_spec.values else C("?"))
                parts.append(self.tostr(x, st))
        return self.strcat(parts)

    def strcat(self, parts):
        for i, p in enumerate(parts):
            if p.tag == "ite":
                return Ite(p.args[0], self.strcat(parts[:i] + [p.args[1]] + parts[i + 1:]), self.strcat(parts[:i] + [p.args[2]] + parts[i + 1:]))
        return Str(*parts)

    def tostr(self, x, st):
        if x.tag == "ite": return Ite(x.args[0], self.tostr(x.args[1], st), self.tostr(x.args[2], st))
        if isc(x): return C(str(x.args[1]))
        if x.tag in ("ref", "coll", "form", "tup"): return App("str", self.snap(x, st))
        return x

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts): return self.display("list", e, st, fr, alloc=False)
        return Tup(*[self.eval(x, st, fr) for x in e.elts])

    def display(self, kind_, e, st, fr, alloc=True):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += [Blk(f, g, el) for f, g, el, v in self.iter(self.eval(x.value, st, fr), st)]
            else: out.append(Blk([], T, self.eval(x, st, fr)))
        c = Coll(kind_, *out)
        return self.alloc(st, c) if alloc else c

    def e_List(self, e, st, fr): return self.display("list", e, st, fr)
    def e_Set(self, e, st, fr): return self.display("set", e, st, fr)

    def e_Dict(self, e, st, fr):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None: out += self.mapblocks(self.eval(v, st, fr), st)
            else: out.append(Blk([], T, self.eval(k, st, fr), self.eval(v, st, fr)))
        return self.alloc(st, Coll("dict", *out))

    def mapblocks(self, t, st):
        """blocks of a mapping value"""
        if t.tag == "ite": return [_gateb(b, t.args[0]) for b in self.mapblocks(t.args[1], st)] + [_gateb(b, Not(t.args[0])) for b in self.mapblocks(t.args[2], st)]
        c = self.coll(t, st)
        if c.tag == "coll":
            if kind(c) == "dict": return list(blocks(c))
            out = []
            for f, g, el, v in self.iter(t, st): out.append(Blk(f, g, self.proj(el, 0, st), self.proj(el, 1, st)))
            return out
        if isc(c) and c.args[1] is None: return []
        b = fresh()
        return [Blk([b], In(c, b), b, Get(c, b))]

    def proj(self, t, i, st):
        if t.tag == "ref": return self.index(t, C(i), st)
        return Proj(t, i) if t.tag in ("tup", "ite") else App("idx", t, C(i)) if t.tag in ("coll",) else Proj(t, i)

    def e_Lambda(self, e, st, fr): return self.closure(self.w.func_for(fr.module, e), st, fr)

    def closure(self, fi, st, fr):
        self.frames_of = getattr(self, "frames_of", {})
        self.frames_of[fr.fid] = fr
        return mk("fn", fi, fr.fid, None)

    def e_Attribute(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        return self.getattr(v, e.attr, st, fr)

    def e_Subscript(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st, fr) if e.slice.lower else NONE
            up = self.eval(e.slice.upper, st, fr) if e.slice.upper else NONE
            stp = self.eval(e.slice.step, st, fr) if e.slice.step else NONE
            return self.dist(v, st, lambda t, s: self.slice(t, lo, up, stp, s))
        k = self.eval(e.slice, st, fr)
        return self.dist(v, st, lambda t, s: self.dist(k, s, lambda kk, s2: self.index(t, kk, s2)))

    def slice(self, t, lo, up, stp, st):
        c = self.coll(t, st)
        if c.tag == "tup": c = Coll("list", *[Blk([], T, x) for x in c.args])
        if c.tag == "coll" and kind(c) in ("list", "tuple"):
            bs = blocks(c)
            if lo is NONE and up is NONE and stp is NONE: return self.alloc(st, c)
            if lo is NONE and up is NONE and isc(stp) and stp.args[1] == -1:
                return self.alloc(st, Coll("list", *[self._revb(b) for b in reversed(bs)]))
            if all(b.args[0] == () and b.args[1] is T for b in bs) and all(isc(x) for x in (lo, up, stp)):
                return self.alloc(st, Coll("list", *bs[slice(lo.args[1], up.args[1], stp.args[1])]))
        return App("slice", self.snap(t, st), lo, up, stp)

    orders = False          # whether the order inside a list is followed: a turned round part carries the mark "turned" in its condition

    def _revb(self, b, mark="turned"):
        if not self.orders or not b.args[0]: return b
        fvs, (g, el, v) = opened(b.args[0], *b.args[1:])
        m = mk("tru", App("order:" + mark))
        gs = list(g.args) if g.tag == "and" else [g]
        return Blk(fvs, And(*[x for x in gs if x is not m]) if mark == "turned" and m in gs else And(g, m), el, v)

    def reordered(self, t, st, mark, turn=False):
        t = self.as_list(t, st)
        if not self.orders: return t
        def one(x, s):
            c = self.coll(x, s)
            if c.tag != "coll": return top("order")
            bs = blocks(c)
            return self.alloc(s, Coll("list", *[self._revb(b, mark) for b in (reversed(bs) if turn else bs)]))
        return self.dist(t, st, one)

    def index(self, t, k, st):
        if t.tag == "tup":
            if isc(k) and isinstance(k.args[1], int): return Proj(t, k.args[1])
            return top("tuple index")
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, N): return self.cindex(c, k, st)
            if isinstance(c, Gr): return self.neigh(c, k, st)
            if isinstance(c, Obj):
                kd, m, o = c.cls.lookup("__getitem__")
                if kd == "method": return self.call(mk("fn", m, 0, t), [k], {}, st, Frame(0, None, None, None), None)
            return App("get", t, k)
        if t.tag == "coll": return self.cindex(t, k, st)
        if t.tag == "lib": return t
        return mk("app", "get", t, k) if not (isc(k) and isinstance(k.args[1], int)) else App("idx", t, k)

    def cindex(self, c, k, st):
        if kind(c) == "dict":
            return Get(c, self.snap(k, st) if k.tag == "ref" else k)
        bs = blocks(c)
        if isc(k) and isinstance(k.args[1], int):
            i = k.args[1]
            seq = bs if i >= 0 else list(reversed(bs))
            j = i if i >= 0 else -1 - i
            for b in seq:
                if b.args[0] or b.args[1] is not T: break
                if j == 0: return b.args[2]
                j -= 1
            if len(bs) == 1 and i == 0 and not bs[0].args[0]: return bs[0].args[2]      # guarded single element
        if k.tag == "app" and k.args[0] == "pos" and isc(k.args[3]) and k.args[3].args[1] == 0 and k.args[1] is self.snap(c, st): return k.args[2]
        return App("idx", self.snap(c, st), k)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st, fr)
        for x in e.values[1:]:
            c = self.small(self.truth(v, st))
            if not isand: c = Not(c)
            cur = v
            # value of `a and b`: b when a holds, a otherwise
            if c is F: return cur
            v = self.fork(st, c, lambda s, x=x: self.eval(x, s, fr), lambda s, cur=cur: cur)
            if cur.tag == "form" or (v.tag == "ite" and all(l.tag in ("form", "c") and (l.tag == "form" or isinstance(l.args[1], bool)) for _, l in cases(v))):
                v = self.form(self.truth(v, st)) if all(l.tag == "form" or (isc(l) and isinstance(l.args[1], bool)) for _, l in cases(v)) else v
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not): return self.form(Not(self.truth(v, st)))
        if isc(v) and isinstance(v.args[1], (int, float)) and isinstance(e.op, ast.USub): return C(-v.args[1])
        return App("un:" + type(e.op).__name__, self.snap(v, st))

    def e_IfExp(self, e, st, fr):
        c = self.small(self.truth(self.eval(e.test, st, fr), st))
        return self.fork(st, c, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr))

    def e_Compare(self, e, st, fr):
        l = self.eval(e.left, st, fr)
        out = T
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, st, fr)
            out = And(out, self.cmp(op, l, rv, st))
            l = rv
        return self.form(out)

    def cmp(self, op, a, b, st):
        if a.tag == "ite": return Fite(a.args[0], self.cmp(op, a.args[1], b, st), self.cmp(op, a.args[2], b, st))
        if b.tag == "ite": return Fite(b.args[0], self.cmp(op, a, b.args[1], st), self.cmp(op, a, b.args[2], st))
        n = type(op).__name__
        if n == "In": return self.contains(b, a, st)
        if n == "NotIn": return Not(self.contains(b, a, st))
        if n in ("Is", "Eq"): return self.equal(a, b, st, n == "Is")
        if n in ("IsNot", "NotEq"): return Not(self.equal(a, b, st, n == "IsNot"))
        if isc(a) and isc(b):
            try:
                x, y = a.args[1], b.args[1]
                return T if {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[n]() else F
            except Exception: return mk("cmp", n, a, b)
        ca, cb = self.coll(a, st), self.coll(b, st)
        if any(x.tag == "coll" and kind(x) == "set" for x in (ca, cb)) and n in ("Lt", "LtE", "Gt", "GtE"):
            if n in ("Gt", "GtE"): ca, cb = cb, ca
            f = self.subset(ca, cb)
            return f if n.endswith("E") else And(f, Not(self.subset(cb, ca)))
        if n in ("Gt", "GtE"): a, b, n = b, a, {"Gt": "Lt", "GtE": "LtE"}[n]
        # a < b or a <= b
        if isc(b) and isinstance(b.args[1], int) and not isinstance(b.args[1], bool) and a.tag == "app" and a.args[0] == "len":
            k = b.args[1] + (1 if n == "LtE" else 0)
            return Not(nonempty(a.args[1])) if k == 1 else F if k <= 0 else mk("cmp", "<", a, C(k))
        if isc(a) and isinstance(a.args[1], int) and not isinstance(a.args[1], bool) and b.tag == "app" and b.args[0] == "len":
            k = a.args[1] + (0 if n == "LtE" else 1)           # b >= k
            return nonempty(b.args[1]) if k == 1 else T if k <= 0 else Not(mk("cmp", "<", b, C(k)))
        if n == "Lt": return mk("cmp", "<", self.snap(a, st), self.snap(b, st))
        return Not(mk("cmp", "<", self.snap(b, st), self.snap(a, st)))

    def subset(self, x, y):
        b = fresh()
        return Not(Ex([b], And(In(x, b), Not(In(y, b)))))

    def equal(self, a, b, st, identity=False):
        for x, y in ((a, b), (b, a)):
            if x.tag == "app" and x.args[0] == "type" and y.tag in ("lib", "cls"): return self.isinst(x.args[1], y, st)
            if x.tag == "app" and x.args[0] == "len" and isc(y) and isinstance(y.args[1], int):
                return Not(nonempty(x.args[1])) if y.args[1] == 0 else F if y.args[1] < 0 else mk("cmp", "==", x, y)
            if x.tag == "form" and isc(y) and isinstance(y.args[1], bool): return x.args[0] if y.args[1] else Not(x.args[0])
        if a.tag == b.tag == "form" and a is not b: return Or(And(a.args[0], b.args[0]), And(Not(a.args[0]), Not(b.args[0])))
        if a is b: return T
        if a.tag in ("cls", "lib") and b.tag in ("cls", "lib"): return F
        if identity and a.tag == "ref" and b.tag == "ref": return F
        ca, cb = self.coll(a, st), self.coll(b, st)
        if identity and (ca is not a or cb is not b) and (isc(ca) or isc(cb)): return F
        if ca.tag == "coll" and cb.tag == "coll":
            if kind(ca) == "set" or kind(cb) == "set": return And(self.subset(ca, cb), self.subset(cb, ca))
            if not blocks(cb): return Not(nonempty(ca))
            if not blocks(ca): return Not(nonempty(cb))
            ca, cb = self.snap(ca, st), self.snap(cb, st)
            if ca is cb: return T
            return mk("eq", *sorted((ca, cb)))
        if (ca.tag == "coll" and kind(ca) == "set") or (cb.tag == "coll" and kind(cb) == "set"):
            return And(self.subset(ca, cb), self.subset(cb, ca)) if not isc(ca) and not isc(cb) else F
        if a.tag == "ref" or b.tag == "ref":
            x, y = (a, b) if a.tag == "ref" else (b, a)
            if isc(y): return F
            if y.tag == "ref": return F if isinstance(self.deref(st, x), Obj) and isinstance(self.deref(st, y), Obj) else mk("eq", *sorted((x, y)))
        return Eq(self.snap(a, st), self.snap(b, st))

    def contains(self, c, e, st):
        if c.tag == "ite": return Fite(c.args[0], self.contains(c.args[1], e, st), self.contains(c.args[2], e, st))
        if e.tag == "ite": return Fite(e.args[0], self.contains(c, e.args[1], st), self.contains(c, e.args[2], st))
        k = self.coll(c, st)
        if k.tag == "coll" or k.tag == "tup":
            if e.tag == "app" and e.args[0] == "type" or e.tag in ("cls", "lib"):
                els = [b.args[2] for b in blocks(k)] if k.tag == "coll" else list(k.args)
                return Or(*[self.equal(e, x, st) for x in els])
            if k.tag == "coll" and e.tag == "ref" and all(not b.args[0] for b in blocks(k)):
                return Or(*[And(b.args[1], self.equal(e, b.args[2], st)) for b in blocks(k)])
        return In(k, e)

    def e_BinOp(self, e, st, fr):
        a, b = self.eval(e.left, st, fr), self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, fr)

    DUNDER = {"Mult": "__mul__", "Add": "__add__", "Sub": "__sub__", "Div": "__truediv__", "Pow": "__pow__", "BitXor": "__xor__", "BitOr": "__or__", "BitAnd": "__and__"}

    def binop(self, op, a, b, st, fr):
        if a.tag == "ite": return self.dist(a, st, lambda x, s: self.binop(op, x, b, s, fr))
        if b.tag == "ite" and (a.tag in ("ref", "coll", "str", "c")): return self.dist(b, st, lambda y, s: self.binop(op, a, y, s, fr))
        if isc(a) and isc(b):
            x, y = a.args[1], b.args[1]
            try:
                if op == "Add": return C(x + y)
                if op == "Sub": return C(x - y)
                if op == "Mult": return C(x * y)
                if op == "Mod": return C(x % y)
                if op == "FloorDiv": return C(x // y)
                if op == "Div": return C(x / y)
                if op == "Pow" and abs(y) < 20: return C(x ** y)
            except Exception: return top("arith")
        if a.tag == "ref":
            o = self.deref(st, a)
            if isinstance(o, Obj):
                kd, m, _ = o.cls.lookup(self.DUNDER.get(op, "?"))
                if kd == "method": return self.call(mk("fn", m, 0, a), [b], {}, st, fr, None)
        if b.tag == "ref":
            o = self.deref(st, b)
            if isinstance(o, Obj):
                kd, m, _ = o.cls.lookup(self.DUNDER.get(op, "?").replace("__", "__r", 1))
                if kd == "method": return self.call(mk("fn", m, 0, b), [a], {}, st, fr, None)
        ca, cb = self.coll(a, st), self.coll(b, st)
        if op == "Add":
            if (isc(a) and isinstance(a.args[1], str)) or a.tag == "str" or (isc(b) and isinstance(b.args[1], str)) or b.tag == "str":
                return self.strcat([self.tostr(a, st), self.tostr(b, st)])
            if a.tag == "tup" and b.tag == "tup": return Tup(*a.args, *b.args)
            if (ca.tag == "coll" and kind(ca) in ("list", "tuple")) or (cb.tag == "coll" and kind(cb) in ("list", "tuple")):
                if not isc(ca) and not isc(cb):
                    return self.alloc(st, Coll("list", *[Blk(f, g, x) for t in (a, b) for f, g, x, v in self.iter(t, st)]))
        if op == "Mult":
            for x, y in ((ca, cb), (cb, ca)):
                if x.tag == "coll" and kind(x) == "list":
                    if isc(y) and isinstance(y.args[1], int) and y.args[1] <= 8: return self.alloc(st, Coll("list", *(blocks(x) * y.args[1])))
                    return App("repeat", self.snap(x, st), self.snap(y, st))
        if op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            sa = ca.tag == "coll" and kind(ca) in ("set", "dict", "keys") or ca.tag == "coll" and cb.tag == "coll"
            sb = cb.tag == "coll" and kind(cb) in ("set", "dict", "keys")
            if (sa or sb) and not isc(ca) and not isc(cb):
                if op == "BitOr" and ca.tag == "coll" and kind(ca) == "dict" and cb.tag == "coll" and kind(cb) == "dict":
                    return self.alloc(st, Coll("dict", *blocks(ca), *blocks(cb)))
                return self.setop(op, a, b, st)
        n = App("op:" + op, self.snap(a, st), self.snap(b, st))
        return n if n.size < self.opsize else top("too large")

    def setop(self, op, a, b, st):
        ca, cb = self.coll(a, st), self.coll(b, st)
        A = [(f, g, x) for f, g, x, v in self.iter(a, st)]
        B = [(f, g, x) for f, g, x, v in self.iter(b, st)]
        if op == "BitOr": bl = [Blk(*t) for t in A + B]
        elif op == "BitAnd": bl = [Blk(f, And(g, In(cb, x)), x) for f, g, x in A]
        elif op == "Sub": bl = [Blk(f, And(g, Not(In(cb, x))), x) for f, g, x in A]
        else: bl = [Blk(f, And(g, Not(In(cb, x))), x) for f, g, x in A] + [Blk(f, And(g, Not(In(ca, x))), x) for f, g, x in B]
        return self.alloc(st, Coll("set", *bl))

    # ------------------------------------------------------------------ iteration
    def iter(self, t, st):
        """[(fresh variables, guard, element, value for a key)]"""
        if t.tag == "ite":
            return [(f, And(t.args[0], g), e, v) for f, g, e, v in self.iter(t.args[1], st)] + \
                   [(f, And(Not(t.args[0]), g), e, v) for f, g, e, v in self.iter(t.args[2], st)]
        c = self.coll(t, st)
        if c.tag == "ite": return self.iter(c, st)
        if c.tag == "coll":
            out = []
            for b in blocks(c):
                fvs, (g, e, v) = opened(b.args[0], *b.args[1:])
                out.append((fvs, g, e, v))
            return out
        if c.tag == "tup": return [([], T, x, None) for x in c.args]
        if isc(c) and isinstance(c.args[1], str): return [([], T, C(ch), None) for ch in c.args[1]] if len(c.args[1]) < 4 else [([], T, top("char"), None)]
        if c.tag == "app" and c.args[0] == "range" and (len(c.args) == 2 or c.args[1] is C(0) and len(c.args) == 3) and c.args[-1].tag == "app" and c.args[-1].args[0] == "len":
            # the positions of a sequence: a generic position is that of a generic element
            x = c.args[-1].args[1]
            if isinstance(x, N) and (x.tag == "coll" and kind(x) == "list" or x.tag in ("sym", "app")):
                return [(f, g, App("pos", x, e, C(0)), None) for f, g, e, v in self.iter(x, st)]
        b = fresh()
        return [([b], In(c, b), b, Get(c, b))]

    def comp(self, gens, st, fr, leaf, acc):
        """comprehension: calls leaf(st, fr) under the binders; acc collects (fvs, guard, result)"""
        fid = next(_ids)
        sub = Frame(fid, fr.fi, fr.module, fr.owner, fr)
        st.frames[fid] = {}
        def rec(i, fvs, guard, st):
            if i == len(gens):
                acc.append((fvs, guard, leaf(st, sub)))
                return
            g = gens[i]
            src = self.eval(g.iter, st, sub)
            for f, gd, el, v in self.iter(src, st):
                n0 = len(acc)
                direct = not f
                def body(s):
                    del acc[n0:]
                    self.bind(g.target, el, s, sub)
                    cond = T
                    pc0 = s.pc
                    for c in g.ifs:
                        s.pc = And(pc0, cond)
                        v = self.truth(self.eval(c, s, sub), s)
                        x = rel(s.pc, And(pc0, cond))
                        if x is not T: pc0 = And(pc0, Implies(cond, x))
                        cond = And(cond, v)
                    s.pc = pc0 if direct else And(pc0, cond)
                    if cond is F: return
                    if self.orders and not direct:      # a filter by membership does not give the order
                        src_in = set(gd.args if gd.tag == "and" else [gd])
                        cond = And(cond, *[mk("tru", App("order:also", a.args[0])) for a in (cond.args if cond.tag == "and" else [cond]) if a.tag == "in" and a.args[1] in f and a not in src_in and not a.args[0].fv])
                    if direct: self.fork(s, cond, lambda z: rec(i + 1, fvs, And(guard, gd, cond), z) or NONE, lambda z: NONE)
                    else: rec(i + 1, fvs + f, And(guard, gd, cond), s)
                self.under(st, f, gd, body, own={fid})
        rec(0, [], T, st)
        st.frames.pop(fid, None)

    def e_ListComp(self, e, st, fr, kind_="list"):
        acc = []
        self.comp(e.generators, st, fr, lambda s, f: self.eval(e.elt, s, f), acc)
        return self.alloc(st, Coll(kind_, *[Blk(f, self.known(g), x) for f, g, x in acc]))

    def e_SetComp(self, e, st, fr): return self.e_ListComp(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr): return self.e_ListComp(e, st, fr, "list")

    def e_DictComp(self, e, st, fr):
        acc = []
        self.comp(e.generators, st, fr, lambda s, f: (self.eval(e.key, s, f), self.eval(e.value, s, f)), acc)
        return self.alloc(st, Coll("dict", *[Blk(f, g, k, v) for f, g, (k, v) in acc]))

    # run a body for a generic element, then summarise its effect over all elements
    def under(self, st, fvs, guard, body, own=(), names=()):
        if not fvs:
            if guard is T: return body(st)
            return self.fork(st, guard, lambda s: body(s) or NONE, lambda s: NONE)
        pc0 = st.pc
        if And(pc0, guard) is F: return None
        # dry run: what does the body change?
        saved_r, saved_c, steps = len(self.raises), len(self.calls), self.steps
        d = st.copy(And(pc0, guard))
        self.loopvars = self.loopvars + list(fvs)
        res = body(d)
        chh = [k for k in st.heap if d.heap.get(k) is not st.heap[k] and d.heap.get(k, (0, 0))[1] is not st.heap[k][1]]
        chv = [(f, n) for f in st.frames if f not in own for n in st.frames[f] if (f, n) not in names and d.frames.get(f, {}).get(n) is not st.frames[f][n]]
        chh = [k for k in chh if not (isinstance(k, tuple))]
        clean = not chh and not chv
        s, marked, mark, lcv = d, {}, {}, {}
        for attempt in range(6):
            if clean: break
            del self.raises[saved_r:]; del self.calls[saved_c:]
            s = st.copy(And(pc0, guard))
            mark = {}
            for k in chh:
                p, c = st.heap[k]
                lc = sym(f"lc:{k}:{next(_ids)}")
                mark[k] = lc
                s.heap[k] = (p, self.withlc(c, lc))
            lcv = {}
            for f, n in chv:
                v = sym(f"lcv:{n}:{next(_ids)}")
                lcv[f, n] = v
                s.frames[f][n] = v
            marked = {k: s.heap[k][1] for k in chh}
            res = body(s)
            # with what earlier iterations may have done, does the body change more?
            more_h = [k for k in st.heap if k not in mark and s.heap.get(k, (0, 0))[1] is not st.heap[k][1] and not isinstance(k, tuple)]
            more_v = [(f, n) for f in st.frames if f not in own for n in st.frames[f]
                      if (f, n) not in names and (f, n) not in lcv and s.frames.get(f, {}).get(n) is not st.frames[f][n]]
            if not more_h and not more_v: break
            chh += more_h; chv += more_v
        self.loopvars = self.loopvars[:len(self.loopvars) - len(fvs)]
        # exceptional exits
        new = self.raises[saved_r:]
        del self.raises[saved_r:]
        stop = []
        for pc, exc, site in new:
            r = rel(pc, pc0)
            if any(v in r.fv for v in fvs): r = Ex(fvs, r)
            self.raises.append((And(pc0, r), exc, site))
            stop.append(r)
        for i in range(saved_c, len(self.calls)):
            nm, pc, a, kw, site = self.calls[i]
            self.calls[i] = (nm, pc, a, kw, site)
        out = st.copy(And(pc0, *[Not(x) for x in stop]))
        for k in s.heap:
            if k not in out.heap: out.heap[k] = s.heap[k]
        for f in s.frames:
            if f not in out.frames: out.frames[f] = dict(s.frames[f])
            else:
                for n in s.frames[f]:
                    if n not in out.frames[f] or (f, n) in names or f in own: out.frames[f][n] = top("loop variable")
        if s.dead and not (s.heap): pass
        self.together = []
        for k in chh:
            cm, c1 = marked[k], s.heap[k][1]
            if isinstance(cm, N) and isinstance(c1, N) and cm.tag == c1.tag == "coll" and len(blocks(c1)) == len(blocks(cm)) + 1 and blocks(c1)[:-1] == blocks(cm) \
                    and not blocks(c1)[-1].args[0]:
                b = blocks(c1)[-1]
                self.together.append((mark[k], b.args[1], b.args[2], blocks(st.heap[k][1]), cm))
        for k in chh:
            p, c0 = st.heap[k]
            out.heap[k] = (p, self.summarise(c0, marked[k], s.heap[k][1], mark[k], fvs, guard) if not s.dead else c0)
        for (f, n), lv in lcv.items():
            if s.dead: continue
            out.frames[f][n] = self.lastvalue(st.frames[f][n], s.frames[f].get(n, lv), lv, fvs, guard, out, s)
        st.assign(out)
        return res

    def withlc(self, c, lc):
        def mark(x):
            return Coll(kind(x), *[self._lcb(b, lc) for b in blocks(x)], self._lcnew(lc, kind(x)))
        if isinstance(c, N) and c.tag == "coll": return mark(c)
        if isinstance(c, Gr): return Gr(mark(c.nodes), mark(c.edges), c.directed)
        if isinstance(c, Obj): return c.map(lambda v: v)
        return c

    def _lcb(self, b, lc):
        fvs, (g, e, v) = opened(b.args[0], *b.args[1:])
        return Blk(fvs, And(g, Not(In(mk("lcrem", lc), e))), e, v)

    def _lcnew(self, lc, kd):
        b = fresh()
        return Blk([b], In(lc, b), b, App("get", lc, b) if kd == "dict" else None)

    def summarise(self, c0, cm, c1, lc, fvs, guard, info=None):
        if c1 is cm: return c0
        if isinstance(c0, Gr) and isinstance(c1, Gr):
            info = {"nodes": "same" if c1.nodes is cm.nodes else None}
            n = self.summarise(c0.nodes, cm.nodes, c1.nodes, lc, fvs, guard, info)
            e = self.summarise(c0.edges, cm.edges, c1.edges, lc, fvs, guard, info)
            return Gr(n, e, c0.directed) if isinstance(n, N) and isinstance(e, N) else UNK
        if isinstance(c0, Obj) and isinstance(c1, Obj) and c0.cls is c1.cls:
            f = dict(c0.f)
            for k, v in c1.f.items():
                if f.get(k) is v: continue
                if k not in f: f[k] = top("attribute set in a loop") if any(x in v.fv for x in fvs) else v
                else:
                    ok = not any(x in v.fv for x in fvs)
                    f[k] = Ite(Ex(fvs, guard), v, f[k]) if ok else top("attribute set in a loop")
            return Obj(c0.cls, f)
        if not (isinstance(c0, N) and isinstance(c1, N) and c0.tag == c1.tag == "coll"): return UNK
        rem = mk("lcrem", lc)
        n = len(blocks(cm))
        b0, bm, b1 = blocks(c0), blocks(cm), blocks(c1)
        if len(b1) < n - 1: return UNK
        out = []
        lcb = bm[-1]
        # old blocks, possibly filtered
        old = list(b1[:n])
        filtered = any(b1[i] is not bm[i] for i in range(min(n, len(b1))))
        if filtered and len(b1) > n: return UNK        # elements are added and removed: what is left depends on the order
        for i in range(n - 1):
            if i >= len(b1): return UNK
            if b1[i] is bm[i]: out.append(b0[i]); continue
            f0, (g0, e0, v0) = opened(b0[i].args[0], *b0[i].args[1:])
            if b1[i].args[0] != bm[i].args[0]: return UNK
            m = {mk("bv", k): v for k, v in zip(b1[i].args[0], f0)}
            g1, e1 = subst(b1[i].args[1], m), subst(b1[i].args[2], m)
            if e1 is not e0: return UNK
            extra = conj(g1) - conj(g0) - {Not(In(rem, e0))}
            if not conj(g0) <= conj(g1): return UNK
            extra = And(*extra)
            if self.mentions(extra, lc):
                extra = self.removals(extra, lc, rem, e0, fvs, len(b1) > n, info)
                if extra is None: return UNK
            elif info is not None and info["nodes"] is None: info["nodes"] = "other"
            removed = Ex(fvs, And(guard, Not(extra)))
            out.append(Blk(f0, And(g0, Not(removed)), e0, v0))
        for b in b1[n:]:
            f1, (g1, e1, v1) = opened(b.args[0], *b.args[1:])
            # an element added only when it is not there yet is there in any case
            g1 = self.dropin(g1, lc, rem, e1, b0, cm)
            if not b.args[0]:
                # what is added together with the first occurrence of another element, which determines it
                for lc2, g2, e2, b2, cm2 in self.together:
                    if lc2 is not lc and g2 is b.args[1] and self.mentions(g1, lc2) and not any(x in e1.fv and x not in determined(fvs, e2) for x in fvs) \
                            and (v1 is None or not any(x in v1.fv for x in fvs)):
                        g1 = self.dropin(g1, lc2, mk("lcrem", lc2), e2, b2, cm2)
            if self.mentions(g1, lc) or self.mentions(e1, lc) or (v1 is not None and self.mentions(v1, lc)):
                return UNK
            out.append(Blk(list(fvs) + f1, And(guard, g1), e1, v1))
        return Coll(kind(c0), *out)

    def removals(self, extra, lc, rem, e0, fvs, added, info):
        """the condition under which an iteration keeps e0, when it tests what earlier iterations left: an element that is removed only
        while it is there is removed once; with nothing added, nothing but the elements of before can be there"""
        if added: return None
        inl, inr = {}, {}
        def walk(x):
            if x.tag == "in" and x.args[0] is lc: inl[x] = F
            elif x.tag == "in" and x.args[0] is rem: inr[x] = x.args[1]
            for y in x.args:
                if isinstance(y, N) and self.mentions(y, lc): walk(y)
        walk(extra)
        extra = subst(extra, inl)
        if info is not None and info["nodes"] == "same":
            m = {x: F for x, y in inr.items() if y.tag != "tup" and y is not e0}
            if info.get("edges") is None or True:
                extra = subst(extra, {x: F for x in m if not self._pairs(e0, x.args[1])})
        extra = subst(extra, {x: F for x, y in inr.items() if y is e0})
        left = {y for x, y in inr.items() if y is not e0 and self.mentions(extra, rem)}
        if not self.mentions(extra, lc): return extra
        if len(left) != 1 or len(fvs) != 1 or next(iter(left)) is not fvs[0]: return None
        y = fvs[0]
        if subst(extra, {In(rem, y): T}) is not T: return None
        r = subst(extra, {In(rem, y): F})
        if self.mentions(r, lc): return None
        own = subst(r, {Eq(e0, y): F}) is T
        if info is None: return r if own else None
        if info["nodes"] is None:       # the nodes themselves
            if not own: return None
            info["nodes"] = "own"; return r
        return r if info["nodes"] == "own" else None

    def _pairs(self, e0, y): return e0.tag == "tup" and y.tag == "tup"

    def dropin(self, g, lc, rem, e, b0, cm):
        g = subst(g, {In(lc, e): F}) if In(lc, e) is not None else g
        if self.mentions(g, lc):
            inn = Or(*[In(Coll("list", b), e) for b in blocks(cm)])
            g2 = And(*[x for x in conj(g) if x is not Not(inn)])
            g = subst(g2, {In(lc, e): F, In(rem, e): F})
        return g

    def mentions(self, t, lc):
        if t is lc: return True
        return any(self.mentions(x, lc) for x in t.args if isinstance(x, N))

    def lastvalue(self, v0, v1, lv, fvs, guard, out, s):
        if v1 is lv: return v0
        cs = cases(v1)
        keep = [(c, x) for c, x in cs if x is not lv]
        if all(not self.mentions(x, lv) and not any(f in x.fv for f in fvs) and not self.mentions(c, lv) for c, x in keep) and len({x for _, x in keep}) == 1 \
                and keep[0][1].tag != "ref":
            return Ite(Ex(fvs, And(guard, Or(*[c for c, _ in keep]))), keep[0][1], v0)
        if len(keep) == 1 and keep[0][1].tag == "ref" and v0.tag == "ref":
            c, x = keep[0]
            c1, c0 = self.deref(s, x), self.deref(s, v0)
            if isinstance(c1, N) and isinstance(c0, N) and c1.tag == "coll" and not self.mentions(c, lv):
                b1 = blocks(c1)
                if b1 and self._is_lcbase(b1[0], lv) and not any(self.mentions(b, lv) for b in b1[1:]):
                    ext = []
                    for b in b1[1:]:
                        f1, (g1, e1, vv) = opened(b.args[0], *b.args[1:])
                        ext.append(Blk(list(fvs) + f1, And(guard, c, g1), e1, vv))
                    return self.alloc(out, Coll(kind(c0) if kind(c0) == kind(c1) else kind(c1), *blocks(c0), *ext))
        return top("loop-carried value")

    def _is_lcbase(self, b, lv):
        if len(b.args[0]) != 1: return False
        fvs, (g, e, v) = opened(b.args[0], *b.args[1:])
        return e is fvs[0] and g is In(lv, e)

    # ------------------------------------------------------------------ attributes
    known_attrs = {}          # (term, attribute) -> its contents, for things that are not of the repository

    def getattr(self, t, name, st, fr):
        if (t, name) in self.known_attrs: return self.alloc(st, self.known_attrs[t, name])
        if t.tag == "ite": return self.dist(t, st, lambda x, s: self.getattr(x, name, s, fr))
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, Obj):
                if name == "__class__": return mk("cls", c.cls)
                if name in c.f and not self.isprop(c.cls, name): return c.f[name]
                if name == "__dict__": return top("__dict__")
                return self.clsattr(c.cls, name, st, fr, t)
            if isinstance(c, Gr):
                if name == "nodes": return mk("view", "nodes", t)
                if name == "edges": return mk("view", "edges", t)
                if name == "adj": return t
                return mk("bm", name, t)
            if name == "__class__": return top("class")
            return mk("bm", name, t)
        if t.tag == "view":
            return mk("bm", name, t)
        if t.tag == "cls":
            if name == "__name__": return C(t.args[0].name)
            return self.clsattr(t.args[0], name, st, fr, None, t)
        if t.tag == "mod": return self.resolved(self.w.attr_of_module(t.args[0], name), name, st)
        if t.tag == "lib": return mk("lib", t.args[0] + "." + name)
        if t.tag == "super":
            owner, selft = t.args
            o = self.deref(st, selft) if selft.tag == "ref" else None
            if isinstance(o, Obj):
                mro = o.cls.mro()
                k = mro.index(owner) + 1 if owner in mro else 1
                for c in mro[k:]:
                    if name in c.methods:
                        m = c.methods[name]
                        if m.is_property: return self.call(mk("fn", m, 0, selft), [], {}, st, fr, None)
                        return mk("fn", m, 0, None if m.is_static else selft)
                if name == "__init__": return mk("lib", "builtins.object.__init__")
            return top("super." + name)
        if t.tag == "fn":
            if name == "__name__": return C(t.args[0].name)
            return top("fn." + name)
        if t.tag == "c" and isinstance(t.args[1], EnumVal): return C(t.args[1][1]) if name == "name" else top("attr " + name)
        if t.tag in ("coll", "tup", "str", "c"): return mk("bm", name, t)
        if t.tag in ("sym", "app", "fv", "bv", "top"):
            r = self.attr_model(t, name, st) if self.attr_model else None
            if r is not None: return r
            return mk("app", "attr:" + name, t)
        return top("attr " + name)

    attr_model = None
    call_model = None

    def isprop(self, cls, name):
        k, m, o = cls.lookup(name)
        return k == "method" and m.is_property

    def clsattr(self, cls, name, st, fr, selft, clst=None):
        k, m, o = cls.lookup(name)
        if k == "attr" and any(b in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum") for b in o.bases if isinstance(b, str)): return C(EnumVal((o.qual, name)))
        if k == "method":
            if m.is_property: return self.call(mk("fn", m, 0, selft), [], {}, st, fr, None) if selft is not None else top("property")
            if m.is_static: return mk("fn", m, 0, None)
            if m.is_classmethod: return mk("fn", m, 0, clst or mk("cls", cls))
            return mk("fn", m, 0, selft)
        if k == "attr":
            key = ("clsattr", cls, name)
            if key not in st.heap:
                f2 = Frame(-1, None, o.module, None); st.frames.setdefault(-1, {})
                if isinstance(m, tuple): v = top("class attribute")
                else: v = self.eval(m, st, f2)
                st.heap[key] = ((), v)
            return st.heap[key][1]
        if k == "import": return self.resolved(self.w.resolve_binding(o.module, m), name, st)
        if selft is not None and self.attr_model:
            r = self.attr_model(selft, name, st)
            if r is not None: return r
        return top("attr " + name)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super", st, fr).tag == "lib":
            if not e.args:
                s = st.frames[self.selfframe(fr).fid].get(self.selfframe(fr).fi.params[0]) if fr.fi is not None and self.selfframe(fr).fi.params else None
                return mk("super", self.selfframe(fr).fi.cls, s) if s is not None else top("super")
            a = [self.eval(x, st, fr) for x in e.args]
            if a[0].tag == "cls": return mk("super", a[0].args[0], a[1])
            return top("super")
        fn = self.eval(e.func, st, fr)
        args, kwargs, extra = [], {}, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                its = self.iter(v, st)
                if all(not f and g is T for f, g, el, _ in its): args += [el for f, g, el, _ in its]
                else: args.append(mk("star", self.coll(v, st)))
            else: args.append(self.eval(x, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st, fr)
                bl = self.mapblocks(v, st)
                if all(b.args[0] == () and b.args[1] is T and isc(b.args[2]) for b in bl):
                    for b in bl: kwargs[b.args[2].args[1]] = b.args[3]
                else: kwargs["**"] = Coll("dict", *(blocks(kwargs["**"]) if "**" in kwargs else ()), *bl)
            else: kwargs[k.arg] = self.eval(k.value, st, fr)
        if st.dead: return top("dead")
        return self.call(fn, args, kwargs, st, fr, e)

    def selfframe(self, fr):
        while fr.parent is not None and (fr.fi is None or fr.fi.cls is None): fr = fr.parent
        while fr.parent is not None and fr.parent.fi is fr.fi: fr = fr.parent
        return fr

    def site(self, e, fr): return (fr.module.relpath if fr.module else "?", getattr(e, "lineno", 0), fr.fi.qual if fr.fi else "?")

    def call(self, fn, args, kwargs, st, fr, e):
        if fn.tag == "ite": return self.dist(fn, st, lambda x, s: self.call(x, args, kwargs, s, fr, e))
        if self.call_model is not None:
            r = self.call_model(fn, args, kwargs, st, fr, e)
            if r is not None: return r
        if fn.tag == "fn": return self.call_fn(fn, args, kwargs, st, fr, e)
        if fn.tag == "cls": return self.construct(fn.args[0], args, kwargs, st, fr, e)
        if fn.tag == "bm": return self.builtin_method(fn.args[0], fn.args[1], args, kwargs, st, fr, e)
        if fn.tag == "lib": return self.lib(fn.args[0], args, kwargs, st, fr, e)
        if fn.tag == "view": return self.view(fn, args, st)
        if fn.tag == "ref":
            o = self.deref(st, fn)
            if isinstance(o, Obj):
                k, m, _ = o.cls.lookup("__call__")
                if k == "method": return self.call_fn(mk("fn", m, 0, fn), args, kwargs, st, fr, e)
            return top("call")
        if fn.tag == "app" and fn.args[0].startswith("attr:"):
            name, recv = fn.args[0][5:], fn.args[1]
            if name in COLLM: return self.builtin_method(name, recv, args, kwargs, st, fr, e)
            if name in GRAPHM and name not in ("copy",): return self.opaque_graph(name, recv, args, st)
            self.calls.append(("." + name, st.pc, tuple(self.snap(a, st) for a in [recv] + args), {k: self.snap(v, st) for k, v in kwargs.items()}, self.site(e, fr)))
            return self.opaque_call("." + name, [recv] + args, kwargs, st)
        if fn.tag in ("sym", "app"):
            self.calls.append(("()", st.pc, (fn,) + tuple(self.snap(a, st) for a in args), {k: self.snap(v, st) for k, v in kwargs.items()}, self.site(e, fr)))
            return self.opaque_call(".call", [fn] + args, kwargs, st)
        for a in list(args) + list(kwargs.values()):      # unknown callee: may change what it is given
            if a.tag == "ref" and not isinstance(self.deref(st, a), Obj): self.write(st, a, UNK)
        return top("call of unknown")

    def opaque_call(self, op, args, kwargs, st):
        xs = [self.snap(a, st) for a in args]
        for k in sorted(kwargs): xs.append(mk("kw", k, self.snap(kwargs[k], st)))
        if varying(op, xs): xs.append(C(f"call {next(_ids)}"))       # not the same value at every call
        n = App(op, *xs)
        return n if n.size < (self.opsize if op.startswith(("lib:", "op:")) else MAXSIZE) else top("too large")

    def opaque_graph(self, name, recv, args, st):
        """structure operations on a graph known only by name"""
        g = Gr(base("list", App("attr:nodes", recv)), base("list", App("attr:edges", recv)))
        return self.graphm(name, g, None, args, {}, st)

    def call_fn(self, fn, args, kwargs, st, fr, e):
        fi, env, selft = fn.args
        if fi.is_abstract: return top("abstract")
        if fi.name in self.opaque_methods and (fi.name, fi.cls.name if fi.cls else None) not in self.env0:
            self.calls.append((fi.name, st.pc, tuple(self.snap(a, st) for a in ([selft] if selft is not None else []) + args),
                               {k: self.snap(v, st) for k, v in kwargs.items()}, self.site(e, fr)))
            return self.opaque_call("." + fi.name, ([selft] if selft is not None else []) + args, kwargs, st)
        if len(self.active) > self.MAXDEPTH or self.active.count(fi) >= (1 if self.selfrec(fi) else 2): return top("recursion")
        if selft is not None: args = [selft] + args
        elif fi.cls is not None and not fi.is_static and fi.is_classmethod: args = [mk("cls", fi.cls)] + args
        fid = next(_ids)
        parent = self.frames_of.get(env) if env and hasattr(self, "frames_of") else None
        f2 = Frame(fid, fi, fi.module, fi.cls or (parent.owner if parent else None), parent)
        st.frames[fid] = {}
        if not self.bindargs(fi, args, kwargs, st, f2):
            self.raises.append((st.pc, "TypeError", self.site(e, fr)))
            st.dead = True
            return top("bad call")
        self.active.append(fi)
        self.frames_of = getattr(self, "frames_of", {})
        self.frames_of[fid] = f2
        pc0 = st.pc
        if isinstance(fi.node, ast.Lambda):
            v = self.eval(fi.node.body, st, f2)
        else:
            if fi.is_gen:
                st.frames[fid]["$yield"] = self.alloc(st, Coll("list"))
            res = self.block(fi.node.body, st, f2)
            acc = v = None
            if "ret" in res: acc, v = res["ret"]
            if "fall" in res:
                s, _ = res["fall"]
                if acc is None: acc, v = s, NONE
                else:
                    g = self.small(sep(acc.pc, s.pc))
                    v = Ite(g, v, NONE); acc = self.merge(g, acc, s)
            if acc is None:
                st.dead = True
                v = top("raises")
            else:
                st.assign(acc)
                if fi.is_gen: v = st.frames[fid]["$yield"]
        self.active.pop()
        return v

    def selfrec(self, fi):
        k = ("rec", fi)
        if k not in self.expr_cache:
            self.expr_cache[k] = any(isinstance(x, ast.Call) and getattr(x.func, "attr", getattr(x.func, "id", "")) == fi.name for x in ast.walk(fi.node))
        return self.expr_cache[k]

    def bindargs(self, fi, args, kwargs, st, f2):
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = st.frames[f2.fid]
        kwargs = dict(kwargs)
        star = None
        pos = list(args)
        if any(x.tag == "star" for x in pos):
            i = next(i for i, x in enumerate(pos) if x.tag == "star")
            rest = pos[i:]
            pos = pos[:i]
            if i < len(names) and not a.vararg: return self._weakargs(fi, pos, kwargs, st, f2)
            bl = []
            extra = pos[len(names):]
            pos = pos[:len(names)]
            for x in extra + rest:
                if x.tag == "star": bl += [Blk(f, g, el) for f, g, el, v in self.iter(x.args[0], st)]
                else: bl.append(Blk([], T, x))
            star = Coll("tuple", *bl)
        if len(pos) > len(names):
            if not a.vararg: return False
            star = Tup(*pos[len(names):]); pos = pos[:len(names)]
        for n, v in zip(names, pos): env[n] = v
        if a.vararg: env[a.vararg.arg] = star if star is not None else Tup()
        dstar = kwargs.pop("**", None)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env and k in names[:len(pos)]: return False
                env[k] = v
            elif a.kwarg: extra[k] = v
            else: return False
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Coll("dict", *[Blk([], T, C(k), v) for k, v in extra.items()], *(blocks(dstar) if dstar is not None else ())))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        for n in names + kwonly:
            if n in env: continue
            if dstar is not None and not a.kwarg:
                k = C(n)
                c = In(dstar, k)
                dv = self.defval(fi, defs[n], st) if n in defs else top("missing")
                env[n] = Ite(c, Get(dstar, k), dv) if c is not F else dv
                continue
            if n not in defs: return False
            env[n] = self.defval(fi, defs[n], st)
        return True

    def defval(self, fi, d, st):
        f = Frame(-1, None, fi.module, None); st.frames.setdefault(-1, {})
        return self.eval(d, st, f)

    def _weakargs(self, fi, pos, kwargs, st, f2):
        env = st.frames[f2.fid]
        for p in fi.node.args.posonlyargs + fi.node.args.args: env[p.arg] = top("starred argument")
        for n, v in zip([p.arg for p in fi.node.args.args], pos): env[n] = v
        for k, v in kwargs.items():
            if k != "**": env[k] = v
        return True

    def construct(self, cls, args, kwargs, st, fr, e):
        if cls.name in self.opaque_classes:
            self.calls.append(("new:" + cls.name, st.pc, tuple(self.snap(a, st) for a in args), {k: self.snap(v, st) for k, v in kwargs.items()}, self.site(e, fr)))
            return self.opaque_call("new:" + cls.name, args, kwargs, st)
        r = self.alloc(st, Obj(cls, {}))
        k, m, o = cls.lookup("__init__")
        if k == "method": self.call_fn(mk("fn", m, 0, r), args, kwargs, st, fr, e)
        elif cls.has_ext_base(): return top("external class")
        return r

    # ------------------------------------------------------------------ statements
    def block(self, body, st, fr):
        """-> {kind: (state, value)}; kinds fall, ret, brk, cont"""
        out = {}
        pc0 = st.pc
        cur = st
        for s in body:
            r = self.stmt(s, cur, fr)
            for k, (s2, v) in r.items():
                if k == "fall": continue
                self.join(out, k, s2, v, pc0)
            if "fall" not in r: return out
            cur = r["fall"][0]
            if cur.dead or cur.pc is F: return out
        out["fall"] = (cur, None)
        return out

    def join(self, out, k, s, v, pc0):
        if s.dead: return
        if k not in out: out[k] = (s, v); return
        s0, v0 = out[k]
        g = self.small(sep(s0.pc, s.pc))
        m = self.merge(g, s0, s)
        out[k] = (m, Ite(g, v0, v) if v is not None and v0 is not None else v or v0)

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: return {"fall": (st, None)}
        r = m(s, st, fr)
        if r is None: r = {"fall": (st, None)}
        if "fall" in r and r["fall"][0].dead: del r["fall"]
        return r

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.e_Yield(s.value, st, fr)
        else: self.eval(s.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value else NONE
        f = fr
        while f is not None and "$yield" not in st.frames.get(f.fid, {}): f = f.parent
        if f is None: return NONE
        r = st.frames[f.fid]["$yield"]
        c = self.deref(st, r)
        if isinstance(c, N):
            if isinstance(e, ast.YieldFrom): self.write(st, r, Coll("list", *blocks(c), *[Blk(a, g, x) for a, g, x, _ in self.iter(v, st)]))
            else: self.write(st, r, Coll("list", *blocks(c), Blk([], T, v)))
        return NONE

    e_YieldFrom = e_Yield

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets: self.bind(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None: self.bind(s.target, self.eval(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        cur = self.eval(s.target, st, fr)
        v = self.eval(s.value, st, fr)
        op = type(s.op).__name__
        def one(t, stt):
            if t.tag == "ref":
                c = self.deref(stt, t)
                if isinstance(c, N) and kind(c) == "list" and op == "Add":
                    self.write(stt, t, Coll("list", *blocks(c), *[Blk(f, g, x) for f, g, x, _ in self.iter(v, stt)]))
                    return t
                if isinstance(c, N) and kind(c) in ("set", "dict") and op in ("BitOr", "Sub", "BitAnd", "BitXor"):
                    if kind(c) == "dict": nc = Coll("dict", *blocks(c), *self.mapblocks(v, stt))
                    else: nc = self.deref(stt, self.setop(op, t, v, stt))
                    self.write(stt, t, nc)
                    return t
            return self.binop(op, t, v, stt, fr)
        r = self.dist(cur, st, one)
        self.bind(s.target, r, st, fr)

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            f = fr
            st.frames.setdefault(f.fid, {})[t.id] = v
            if f.fi is not None and t.id in self.nonlocals(f.fi):
                p = f.parent
                while p is not None:
                    if t.id in st.frames.get(p.fid, {}): st.frames[p.fid][t.id] = v; del st.frames[f.fid][t.id]; break
                    p = p.parent
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts: self.bind(x.value if isinstance(x, ast.Starred) else x, top("starred target"), st, fr)
                return
            vs = [self.dist(v, st, lambda y, s, i=i: self.unpack(y, i, s)) for i in range(len(t.elts))]
            for x, y in zip(t.elts, vs): self.bind(x, y, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            def w(r, s):
                if r.tag == "ref":
                    c = self.deref(s, r)
                    if isinstance(c, Obj): self.write(s, r, c.set(t.attr, v))
                elif r.tag == "cls": s.heap["clsattr", r.args[0], t.attr] = ((), v)
                return NONE
            self.dist(o, st, w)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else top("slice")
            self.dist(o, st, lambda r, s: self.setitem(r, k, v, s) or NONE)

    def nonlocals(self, fi):
        k = ("nl", fi)
        if k not in self.expr_cache:
            self.expr_cache[k] = {n for x in ast.walk(fi.node) if isinstance(x, ast.Nonlocal) for n in x.names}
        return self.expr_cache[k]

    def unpack(self, y, i, st):
        if y.tag == "ref":
            c = self.deref(st, y)
            if isinstance(c, N) and c.tag == "coll": return self.cindex(c, C(i), st) if kind(c) != "dict" else top("unpack")
            return top("unpack")
        if y.tag in ("tup", "fv", "bv"): return Proj(y, i)
        if y.tag == "coll": return self.cindex(y, C(i), st)
        if y.tag == "app" and y.args[0] == "proj": return Proj(y, i)
        return App("idx", y, C(i)) if y.tag in ("sym", "app") else top("unpack")

    def setitem(self, r, k, v, st):
        if r.tag != "ref": return
        c = self.deref(st, r)
        if isinstance(c, N) and c.tag == "coll":
            if kind(c) == "dict":
                k = self.snap(k, st) if k.tag == "ref" else k
                bl = [b for b in blocks(c) if not (b.args[0] == () and b.args[1] is T and b.args[2] is k)]
                if len(bl) != len(blocks(c)):
                    # overwrite in place: keep the position
                    self.write(st, r, Coll("dict", *[Blk([], T, k, v) if (b.args[0] == () and b.args[1] is T and b.args[2] is k) else b for b in blocks(c)]))
                else: self.write(st, r, Coll("dict", *bl, Blk([], T, k, v)))
            elif kind(c) == "list" and isc(k) and isinstance(k.args[1], int) and all(b.args[0] == () and b.args[1] is T for b in blocks(c)) and -len(blocks(c)) <= k.args[1] < len(blocks(c)):
                bl = list(blocks(c)); bl[k.args[1]] = Blk([], T, v); self.write(st, r, Coll("list", *bl))
            else: self.write(st, r, UNK)
        elif not isinstance(c, Obj): self.write(st, r, UNK)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr); k = self.eval(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else top("s")
                def d(r, s2):
                    if r.tag == "ref":
                        c = self.deref(s2, r)
                        self.write(s2, r, filt(c, lambda e: Not(Eq(e, k))) if isinstance(c, N) and kind(c) == "dict" else UNK)
                    return NONE
                self.dist(o, st, d)

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        return {"ret": (st, v)} if not st.dead else {}

    def s_Raise(self, s, st, fr):
        nm = "re-raise"
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args: self.eval(a, st, fr)
        if not st.dead:
            self.raises.append((st.pc, nm, self.site(s, fr)))
            if self.on_raise is not None: self.on_raise(st, nm, self.site(s, fr))
        return {}

    def s_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        if c is T or st.dead: return
        self.raises.append((And(st.pc, Not(c)), "AssertionError", self.site(s, fr)))
        st.pc = And(st.pc, c)
        if st.pc is F: return {}

    def s_Break(self, s, st, fr): return {"brk": (st, None)}
    def s_Continue(self, s, st, fr): return {"cont": (st, None)}
    def s_Pass(self, s, st, fr): return None

    def s_FunctionDef(self, s, st, fr):
        fi = self.w.by_node.get(s) or self.w.func_for(fr.module, s)
        v = self.closure(fi, st, fr)
        st.frames.setdefault(fr.fid, {})[s.name] = v

    def s_If(self, s, st, fr):
        c = self.small(self.truth(self.eval(s.test, st, fr), st))
        if st.dead: return {}
        k = conj(st.pc)
        if c in k: c = T
        elif Not(c) in k: c = F
        if c is T: return self.block(s.body, st, fr)
        if c is F: return self.block(s.orelse, st, fr)
        pc0 = st.pc
        s1, s2 = st.copy(And(st.pc, c)), st.copy(And(st.pc, Not(c)))
        r1 = self.block(s.body, s1, fr) if s1.pc is not F else {}
        r2 = self.block(s.orelse, s2, fr) if s2.pc is not F else {}
        out = {}
        for k in set(r1) | set(r2):
            if k in r1 and k in r2:
                a, va = r1[k]; b, vb = r2[k]
                if a.dead: out[k] = r2[k]; continue
                if b.dead: out[k] = r1[k]; continue
                g = c
                out[k] = (self.merge(g, a, b), Ite(g, va, vb) if va is not None else None)
            else: out[k] = r1.get(k) or r2.get(k)
        return out

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.eval(i.context_expr, st, fr)
            if i.optional_vars is not None: self.bind(i.optional_vars, App("with", self.snap(v, st)) if v.tag != "top" else v, st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        n = len(self.raises)
        pre = st.copy()
        r = self.block(s.body, st, fr)
        if s.handlers:
            caught = self.raises[n:]
            del self.raises[n:]
            c = mk("unk", next(_ids))
            for h in s.handlers:
                hs = pre.copy(And(pre.pc, c))
                # anything the body may have changed is unknown in the handler
                if h.name: hs.frames.setdefault(fr.fid, {})[h.name] = top("exception")
                rh = self.block(h.body, hs, fr)
                for k, (s2, v) in rh.items():
                    if k in r:
                        a, va = r[k]
                        r[k] = (self.merge(Not(c), a, s2), Ite(Not(c), va, v) if va is not None and v is not None else va or v)
                    else: r[k] = (s2, v)
        elif "fall" in r and s.orelse: pass
        if s.orelse and "fall" in r:
            s2 = r.pop("fall")[0]
            for k, v in self.block(s.orelse, s2, fr).items(): r[k] = v
        if s.finalbody and "fall" in r:
            s2 = r.pop("fall")[0]
            for k, v in self.block(s.finalbody, s2, fr).items(): r[k] = v
        return r

    peel = 0                # while loops: iterations followed one by one (what needs more is left out of the result's condition)

    def peeled(self, s, st, fr):
        out, pc0, cur = {}, st.pc, st
        for i in range(self.peel + 1):
            c = self.small(self.truth(self.eval(s.test, cur, fr), cur))
            if cur.dead: return out
            k = conj(cur.pc)
            c = T if c in k else F if Not(c) in k else c
            c = self.known(c)
            if c is not T:
                done = cur.copy(And(cur.pc, Not(c))) if c is not F else cur
                if done.pc is not F: self.join(out, "fall", done, None, pc0)
                if c is F: return out
                cur = cur.copy(And(cur.pc, c))
            if i == self.peel or cur.pc is F: return out
            nxt = {}
            for k, (s2, v) in self.block(s.body, cur, fr).items():
                if k in ("fall", "cont"): self.join(nxt, "cur", s2, None, pc0)
                elif k == "brk": self.join(out, "fall", s2, None, pc0)
                else: self.join(out, k, s2, v, pc0)
            if "cur" not in nxt: return out
            cur = nxt["cur"][0]
        return out

    def s_While(self, s, st, fr):
        if self.peel: return self.peeled(s, st, fr)
        n, m = len(self.raises), len(self.calls)
        c = self.truth(self.eval(s.test, st, fr), st)
        if c is F: return None
        d = st.copy()
        self.block(s.body, d, fr)
        # second look with everything the body assigns unknown
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        del self.raises[n:]; del self.calls[m:]
        out = st.copy()
        def havoc(base, res):
            for k in base.heap:
                if isinstance(k, tuple): continue
                for r in res.values():
                    h = r[0].heap.get(k)
                    if h is not None and h[1] is not base.heap[k][1]: out.heap[k] = (base.heap[k][0], UNK if not isinstance(base.heap[k][1], Obj) else Obj(base.heap[k][1].cls, {f: (v if isinstance(h[1], Obj) and h[1].f.get(f) is v else top("loop")) for f, v in {**base.heap[k][1].f, **(h[1].f if isinstance(h[1], Obj) else {})}.items()}))
        for x in names: out.frames[fr.fid][x] = top("while")
        for _ in range(2):
            t = out.copy()
            res = self.block(s.body, t, fr)
            del self.raises[n:]; del self.calls[m:]
            havoc(out, res)
        ret = {"fall": (out, None)}
        t = out.copy()
        res = self.block(s.body, t, fr)
        new = self.raises[n:]
        del self.raises[n:]
        for pc, exc, site in new: self.raises.append((And(pc, mk("unk", next(_ids))), exc, site))
        if "ret" in res:
            u = mk("unk", next(_ids))
            s2 = out.copy(And(out.pc, u))
            ret["ret"] = (s2, top("return in while"))
            out.pc = And(out.pc, Not(u))
        return ret

    def s_For(self, s, st, fr):
        src = self.eval(s.iter, st, fr)
        if st.dead: return {}
        rets, brk_conds = [], []
        pcx = st.pc
        for f, g, el, v in self.iter(src, st):
            if st.dead: break
            info = {}
            pre = st.copy()
            def body(s0):
                self.bind(s.target, el, s0, fr)
                info["entry"] = s0.copy()
                r = self.block(s.body, s0, fr)
                info["r"] = {k: (a.copy(), b) for k, (a, b) in r.items()}
                acc = None
                for k in ("fall", "cont"):
                    if k in r: acc = r[k][0] if acc is None else self.merge(rel(acc.pc, And(pre.pc, g)), acc, r[k][0])
                if "brk" in r:
                    acc = r["brk"][0] if acc is None else self.merge(rel(acc.pc, And(pre.pc, g)), acc, r["brk"][0])
                if acc is None: s0.dead = True
                else: s0.assign(acc)
            pc0 = st.pc
            self.under(st, f, g, body, names={(fr.fid, x.id) for x in ast.walk(s.target) if isinstance(x, ast.Name)})
            r = info.get("r", {})
            base_pc = And(pc0, g)
            if "ret" in r:
                s2, val = r["ret"]
                c = rel(s2.pc, pc0)
                if f: c = Ex(f, c)
                if any(x in val.fv for x in f): val = top("value returned from a loop")
                rs = pre.copy(And(pc0, c)) if f else s2
                if f:       # what the earlier iterations and the one that returns did is not known
                    for k2 in pre.heap:
                        if k2 in s2.heap and s2.heap[k2][1] is not pre.heap[k2][1] or k2 in st.heap and st.heap[k2][1] is not pre.heap[k2][1]:
                            rs.heap[k2] = (pre.heap[k2][0], UNK)
                    for k2 in s2.heap:
                        if k2 not in rs.heap: rs.heap[k2] = s2.heap[k2]
                    for k2, fr2 in pre.frames.items():
                        for n2 in fr2:
                            if st.frames.get(k2, {}).get(n2) is not fr2[n2]: rs.frames[k2][n2] = top("changed in a loop that is left")
                rets.append((rs, val))
                if st.dead:
                    st.dead = False
                    if f: st.assign(pre.copy(And(pc0, Not(c))))
                    elif And(pc0, Not(c)) is F or c is T: st.dead = True
                    else: st.pc = And(pc0, Not(c))
                else: st.pc = And(st.pc, Not(c))
                if st.pc is F: st.dead = True
            elif st.dead and f:      # every iteration raises: the loop is left only if it is empty
                st.dead = False; st.assign(pre.copy(And(pc0, Not(Ex(f, g)))))
            if "brk" in r:
                c = rel(r["brk"][0].pc, pc0)
                brk_conds.append(Ex(f, c) if f else c)
                if f:
                    # what is done up to an unknown point is unknown; what only the iteration that breaks does, and in the same way
                    # for whichever element it breaks, is known
                    en, bs = info["entry"], r["brk"][0]
                    others = [r[k][0] for k in ("fall", "cont") if k in r]
                    brk = conj(rel(bs.pc, And(pre.pc, g)))
                    for k in st.heap:
                        if k not in pre.heap or st.heap[k][1] is pre.heap[k][1]: continue
                        c0, c1 = en.heap[k][1], bs.heap.get(k, (0, UNK))[1]
                        ok = all(o.heap.get(k, (0, 0))[1] is c0 for o in others)
                        if ok and isinstance(c0, N) and isinstance(c1, N) and c0.tag == c1.tag == "coll" and len(blocks(c1)) >= len(blocks(c0)):
                            n0 = len(blocks(c0))
                            ok = all(x is y for x, y in zip(blocks(c0), blocks(c1))) and \
                                all(not b.args[0] and not any(z in w.fv for z in f for w in b.args[2:] if isinstance(w, N)) and conj(b.args[1]) <= brk for b in blocks(c1)[n0:])
                        else: ok = False
                        if not ok: st.heap[k] = (st.heap[k][0], UNK)
                    for k2, fr2 in pre.frames.items():
                        for n2, v2 in fr2.items():
                            if st.frames.get(k2, {}).get(n2) is v2: continue
                            w0, w1 = en.frames.get(k2, {}).get(n2), bs.frames.get(k2, {}).get(n2)
                            if not all(o.frames.get(k2, {}).get(n2) is w0 for o in others) or w1 is None or w1.tag == "ite" or any(z in w1.fv for z in f):
                                st.frames[k2][n2] = top("changed up to an unknown point")
                else:
                    # the rest of a literal sequence is not reached
                    if c is T: break
                    st.pc = st.pc
        out = {}
        if s.orelse and not st.dead:
            nb = And(*[Not(c) for c in brk_conds])
            if nb is T:
                r = self.block(s.orelse, st, fr)
                out.update(r)
            else:
                s1, s2 = st.copy(And(st.pc, nb)), st.copy(And(st.pc, Not(nb)))
                r = self.block(s.orelse, s1, fr)
                for k, (a, v) in r.items(): out[k] = (a, v)
                if "fall" in out: out["fall"] = (self.merge(nb, out["fall"][0], s2), None)
                else: out["fall"] = (s2, None)
        elif not st.dead: out["fall"] = (st, None)
        for rs, val in rets: self.join(out, "ret", rs, val, pcx)
        return out

    # ------------------------------------------------------------------ library
    def as_list(self, t, st, kd="list"):
        if t.tag == "ite": return self.dist(t, st, lambda x, s: self.as_list(x, s, kd))
        if self.orders and kd == "list":
            c = self.coll(t, st)
            if c.tag == "coll" and kind(c) == "set": return self.alloc(st, Coll(kd, *[self._revb(b, "set") for b in blocks(c)]))
        return self.alloc(st, Coll(kd, *[Blk(f, g, e) for f, g, e, v in self.iter(t, st)]))

    def lib(self, name, args, kwargs, st, fr, e):
        short = name.split(".")[-1]
        if name.startswith("builtins."):
            m = getattr(self, "b_" + short, None)
            if m is not None:
                try: return m(args, kwargs, st, fr, e)
                except (IndexError, KeyError): return top(short)
            if short in ("print",): return NONE
            if short == "object.__init__" or name.endswith("object.__init__"): return NONE
        if name.endswith("object.__init__"): return NONE
        m = getattr(self, "l_" + short, None)
        if m is not None and (name.split(".")[0] in ("networkx", "itertools", "functools", "collections", "copy", "joblib")):
            try:
                r = m(args, kwargs, st, fr, e)
                if r is not None: return r
            except (IndexError, KeyError): pass
        if name == "builtins.dict.fromkeys" or name.endswith("OrderedDict.fromkeys"):
            v = args[1] if len(args) > 1 else NONE
            return self.alloc(st, Coll("dict", *[Blk(f, g, x, v) for f, g, x, _ in self.iter(args[0], st)]))
        if name.startswith("logging."): return NONE
        if name in ("itertools.chain.from_iterable",): return self.flatten(args[0], st)
        self.calls.append((name, st.pc, tuple(self.snap(a, st) for a in args), {k: self.snap(v, st) for k, v in kwargs.items()}, self.site(e, fr)))
        return self.opaque_call("lib:" + name, args, kwargs, st)

    def b_list(self, a, k, st, fr, e): return self.as_list(a[0], st) if a else self.alloc(st, Coll("list"))
    def b_tuple(self, a, k, st, fr, e):
        if a and a[0].tag == "tup": return a[0]
        return self.as_list(a[0], st) if a else Tup()
    def b_set(self, a, k, st, fr, e): return self.as_list(a[0], st, "set") if a else self.alloc(st, Coll("set"))
    b_frozenset = b_set
    b_iter = b_list
    def b_reversed(self, a, k, st, fr, e): return self.reordered(a[0], st, "turned", True)

    def b_sorted(self, a, k, st, fr, e):
        return self.reordered(a[0], st, "sorted")

    def b_dict(self, a, k, st, fr, e):
        bl = self.mapblocks(a[0], st) if a else []
        for n, v in k.items():
            if n == "**": bl += blocks(v)
            else: bl.append(Blk([], T, C(n), v))
        return self.alloc(st, Coll("dict", *bl))

    def l_OrderedDict(self, a, k, st, fr, e): return self.b_dict(a, k, st, fr, e)
    def l_defaultdict(self, a, k, st, fr, e): return self.alloc(st, UNK)
    def l_deepcopy(self, a, k, st, fr, e):
        seen = {}
        def deep(x):
            return mapite(x, one)
        def one(x):
            if x.tag != "ref": 
                if x.tag in ("tup", "coll") and any_ref(x): return top("deep copy")
                return x
            if x in seen: return seen[x]
            c = self.deref(st, x)
            r = seen[x] = self.alloc(st, c)
            if isinstance(c, Obj): self.write(st, r, c.map(deep))
            elif isinstance(c, N) and c.tag == "coll":
                bl = []
                for b in blocks(c):
                    v = b.args[3]
                    if any_ref(b.args[2]) or v is not None and any_ref(v):
                        if b.args[0]: return top("deep copy")
                        bl.append(Blk([], b.args[1], deep(b.args[2]), deep(v) if v is not None else None))
                    else: bl.append(b)
                self.write(st, r, Coll(kind(c), *bl))
            return r
        return deep(a[0])

    def l_copy(self, a, k, st, fr, e): return self.copyof(a[0], st)

    def copyof(self, t, st):
        def one(x, s):
            if x.tag == "ref":
                c = self.deref(s, x)
                return self.alloc(s, c)
            return x
        return self.dist(t, st, one)

    def b_len(self, a, k, st, fr, e):
        def one(t, s):
            c = self.coll(t, s)
            if c.tag == "tup": return C(len(c.args))
            if c.tag == "coll":
                c = self.snap(c, s)
                if all(b.args[0] == () and b.args[1] is T for b in blocks(c)):
                    n = len(blocks(c))
                    if kind(c) == "list" or kind(c) == "tuple": return C(n)
                    els = [b.args[2] for b in blocks(c)]
                    if n <= 1: return C(n)
                    pair = [Eq(x, y) for i, x in enumerate(els) for y in els[i + 1:]]
                    if all(p is F for p in pair): return C(n)
                    if all(p is T for p in pair): return C(1)
                    if n == 2: return Ite(pair[0], C(1), C(2))
                return App("len", c)
            return App("len", c)
        return self.dist(a[0], st, one)

    def b_range(self, a, k, st, fr, e):
        if all(isc(x) and isinstance(x.args[1], int) for x in a):
            r = range(*[x.args[1] for x in a])
            if len(r) <= 6: return Coll("list", *[Blk([], T, C(i)) for i in r])
        if len(a) <= 2 and any(x.tag == "ite" for x in a):
            i = next(i for i, x in enumerate(a) if x.tag == "ite")
            return Ite(a[i].args[0], self.b_range(a[:i] + [a[i].args[1]] + a[i + 1:], k, st, fr, e), self.b_range(a[:i] + [a[i].args[2]] + a[i + 1:], k, st, fr, e))
        return App("range", *[self.snap(x, st) for x in a])

    def b_enumerate(self, a, k, st, fr, e):
        start = k.get("start") or (a[1] if len(a) > 1 else C(0))
        its = self.iter(a[0], st)
        if isc(start) and all(not f and g is T for f, g, el, v in its):
            return Coll("list", *[Blk([], T, Tup(C(start.args[1] + i), el)) for i, (f, g, el, v) in enumerate(its)])
        if not all(not f for f, g, el, v in its):
            src = self.snap(a[0], st)
            return Coll("list", *[Blk(f, g, Tup(App("pos", src, el, start), el)) for f, g, el, v in its])
        return Coll("list", *[Blk(f, g, Tup(top("pos"), el)) for f, g, el, v in its])

    def b_zip(self, a, k, st, fr, e):
        its = [self.iter(x, st) for x in a]
        if all(not f and g is T for it in its for f, g, el, v in it):
            n = min(map(len, its))
            return Coll("list", *[Blk([], T, Tup(*[it[i][2] for it in its])) for i in range(n)])
        # the same collection seen twice in step
        if len(a) == 2:
            s0, s1 = self.coll(a[0], st), self.coll(a[1], st)
            if s0.tag == "coll" and s1.tag == "coll" and len(blocks(s0)) == len(blocks(s1)):
                out = []
                for b, c in zip(blocks(s0), blocks(s1)):
                    if b.args[0] == c.args[0] and b.args[1] is c.args[1]:
                        fvs, (g, x, y) = opened(b.args[0], b.args[1], b.args[2], c.args[2])
                        out.append(Blk(fvs, g, Tup(x, y)))
                    else: return App("zip", *[self.snap(x, st) for x in a])
                return Coll("list", *out)
        return App("zip", *[self.snap(x, st) for x in a])

    def b_map(self, a, k, st, fr, e):
        if len(a) != 2: return top("map")
        out = []
        for f, g, el, v in self.iter(a[1], st):
            box = []
            self.under(st, f, g, lambda s: box.append(self.call(a[0], [el], {}, s, fr, e)))
            if box: out.append(Blk(f, g, box[-1]))
        return Coll("list", *out)

    def b_filter(self, a, k, st, fr, e):
        out = []
        for f, g, el, v in self.iter(a[1], st):
            box = []
            self.under(st, f, g, lambda s: box.append(self.truth(self.call(a[0], [el], {}, s, fr, e) if a[0] is not NONE else el, s)))
            if box: out.append(Blk(f, And(g, box[-1]), el))
        return Coll("list", *out)

    def b_any(self, a, k, st, fr, e): return self.form(Or(*[Ex(f, And(g, self.truth(el, st))) for f, g, el, v in self.iter(a[0], st)]))
    def b_all(self, a, k, st, fr, e): return self.form(Not(Or(*[Ex(f, And(g, Not(self.truth(el, st)))) for f, g, el, v in self.iter(a[0], st)])))
    def b_bool(self, a, k, st, fr, e): return self.form(self.truth(a[0], st))

    def flatten(self, t, st):
        out = []
        for f, g, el, v in self.iter(t, st):
            for f2, g2, e2, _ in self.iter(el, st): out.append(Blk(f + f2, And(g, g2), e2))
        return self.alloc(st, Coll("list", *out))

    def b_sum(self, a, k, st, fr, e):
        start = a[1] if len(a) > 1 else k.get("start")
        if start is not None:
            c = self.coll(start, st)
            if c.tag == "coll" and kind(c) == "list":
                r = self.flatten(a[0], st)
                if blocks(c): self.write(st, r, Coll("list", *blocks(c), *blocks(self.deref(st, r))))
                return r
        return App("sum", self.snap(a[0], st), *( [self.snap(start, st)] if start is not None else []))

    def b_min(self, a, k, st, fr, e): return self._extreme(min, a, k, st)
    def b_max(self, a, k, st, fr, e): return self._extreme(max, a, k, st)

    def _extreme(self, f, a, k, st):
        if len(a) > 1 and not k and all(isinstance(x, N) and x.tag == "c" and isinstance(x.args[1], (int, float)) for x in a): return C(f(x.args[1] for x in a))
        return self.opaque_call(f.__name__, a, k, st)

    def l_chain(self, a, k, st, fr, e):
        out = []
        for x in a:
            if x.tag == "star": return self.flatten(x.args[0], st)
            out += [Blk(f, g, el) for f, g, el, v in self.iter(x, st)]
        return self.alloc(st, Coll("list", *out))

    def l_reduce(self, a, k, st, fr, e):
        its = self.iter(a[1], st)
        if all(not f and g is T for f, g, el, v in its):
            els = ([a[2]] if len(a) > 2 else []) + [el for _, _, el, _ in its]
            if not els: return top("reduce of nothing")
            acc = els[0]
            for x in els[1:]: acc = self.call(a[0], [acc, x], {}, st, fr, e)
            return acc
        # union of key sets / lists
        x, y = sym("red:x"), sym("red:y")
        s2 = st.copy()
        n, m = len(self.raises), len(self.calls)
        v = self.call(a[0], [x, y], {}, s2, fr, e)
        del self.raises[n:]; del self.calls[m:]
        if v.tag == "app" and v.args[0] in ("op:BitOr", "op:Add") and set(v.args[1:]) == {x, y}:
            els = [self.coll(el, st) for _, _, el, _ in its]
            if all(c.tag == "coll" for c in els):
                r = self.flatten(a[1], st)
                if v.args[0] == "op:BitOr": self.write(st, r, Coll("set", *blocks(self.deref(st, r))))
                return r
            if v.args[0] == "op:BitOr":
                r = self.flatten(a[1], st)
                self.write(st, r, Coll("set", *blocks(self.deref(st, r))))
                return r
        if v.tag == "app" and v.args[0] == "op:Mult" and set(v.args[1:]) == {x, y} and len(a) == 2:       # the order does not matter
            return App("prod", Coll("set", *blocks(c)) if (c := self.snap(a[1], st)).tag == "coll" else c)
        return App("reduce", self.snap(v, s2), self.snap(a[1], st), *[self.snap(z, st) for z in a[2:]])

    def l_product(self, a, k, st, fr, e): return None
    def l_partial(self, a, k, st, fr, e): return None

    def b_isinstance(self, a, k, st, fr, e): return self.form(self.isinst(a[0], a[1], st))

    def isinst(self, t, c, st):
        if t.tag == "ite": return Fite(t.args[0], self.isinst(t.args[1], c, st), self.isinst(t.args[2], c, st))
        if c.tag == "tup": return Or(*[self.isinst(t, x, st) for x in c.args])
        if c.tag == "cls": name = c.args[0].name
        elif c.tag == "lib": name = c.args[0].split(".")[-1]
        else: return mk("unk", next(_ids))
        if t.tag == "ref":
            o = self.deref(st, t)
            if isinstance(o, Obj): return T if any(k.name == name for k in o.cls.mro()) or name in ("object", "Hashable") else F
            if isinstance(o, Gr): return T if name in ("DiGraph", "Graph", "Iterable") else F
            if isinstance(o, N): return self._kindis(kind(o), name)
            return mk("isi", t, name)
        if t.tag == "coll": return self._kindis(kind(t), name)
        if t.tag == "tup": return T if name in ("tuple", "Iterable", "Sequence", "Sized", "object") else F
        if isc(t):
            v = t.args[1]
            n = type(v).__name__
            if name == n: return T
            if name == "int" and n == "bool": return T
            if name in ("Iterable", "Hashable", "Sequence") and n == "str": return T
            if name == "Hashable": return T
            return F
        if t.tag == "str": return T if name in ("str", "Iterable", "Hashable") else F
        if t.tag in ("fn", "cls", "lib", "bm"): return T if name in ("Callable", "FunctionType") else F
        if t.tag == "form": return T if name in ("bool", "int") else F
        if self.isi_fact is not None:
            r = self.isi_fact(t, name)
            if r is not None: return T if r else F
        return mk("isi", t, name)

    def _kindis(self, kd, name):
        ok = {"list": {"list", "Iterable", "Sequence"}, "dict": {"dict", "OrderedDict", "Mapping", "Iterable"}, "set": {"set", "Iterable"}, "tuple": {"tuple", "Iterable", "Sequence"}}[kd]
        return T if name in ok or name in ("object", "Collection", "Sized") else F

    def b_callable(self, a, k, st, fr, e): return self.form(T if a[0].tag in ("fn", "lib", "cls", "bm") else mk("tru", App("callable", a[0])))
    def b_hasattr(self, a, k, st, fr, e):
        if a[0].tag == "ref" and isc(a[1]):
            o = self.deref(st, a[0])
            if isinstance(o, Obj): return self.form(T if a[1].args[1] in o.f or o.cls.lookup(a[1].args[1])[0] else F)
        return self.form(mk("unk", next(_ids)))
    def b_getattr(self, a, k, st, fr, e):
        if isc(a[1]) and isinstance(a[1].args[1], str): return self.getattr(a[0], a[1].args[1], st, fr)
        return top("getattr")
    def b_setattr(self, a, k, st, fr, e): return top("setattr")

    def b_type(self, a, k, st, fr, e):
        def one(t, s):
            if t.tag == "ref":
                o = self.deref(s, t)
                if isinstance(o, Obj): return mk("cls", o.cls)
                if isinstance(o, N): return mk("lib", "builtins." + kind(o))
                if isinstance(o, Gr): return mk("lib", "networkx.DiGraph")
            if isc(t): return mk("lib", "builtins." + type(t.args[1]).__name__)
            if t.tag == "str": return mk("lib", "builtins.str")
            if t.tag == "coll": return mk("lib", "builtins." + kind(t))
            if t.tag == "tup": return mk("lib", "builtins.tuple")
            return App("type", t)
        return self.dist(a[0], st, one)

    def b_str(self, a, k, st, fr, e): return self.tostr(a[0], st) if a else C("")
    def b_int(self, a, k, st, fr, e):
        if isc(a[0]) and isinstance(a[0].args[1], (int, float)): return C(int(a[0].args[1]))
        return self.opaque_call("int", a, k, st)
    def b_float(self, a, k, st, fr, e): return self.opaque_call("float", a, k, st)
    def b_next(self, a, k, st, fr, e):
        if e is not None and e.args and isinstance(e.args[0], ast.Name):     # an iterator that is used further is consumed
            for f in st.frames.values():
                for n in list(f):
                    if f[n] is a[0]: f[n] = top("partly consumed iterator")
        return top("next")

    def b_id(self, a, k, st, fr, e): return App("id", a[0])

    # ------------------------------------------------------------------ networkx
    def graph_of(self, t, st):
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, Gr): return c
            return None
        if t.tag == "ite": return None
        if t.tag in ("sym", "app"): return Gr(base("list", App("attr:nodes", t)), base("list", App("attr:edges", t)))
        return None

    def endpoints(self, edges):
        out = []
        for b in blocks(edges):
            fvs, (g, e, v) = opened(b.args[0], *b.args[1:])
            out += [Blk(fvs, g, Proj(e, 0)), Blk(fvs, g, Proj(e, 1))]
        return out

    def l_DiGraph(self, a, k, st, fr, e, directed=True):
        if not a: return self.alloc(st, Gr(Coll("list"), Coll("list"), directed))
        def one(t, s):
            g = self.graph_of(t, s) if t.tag == "ref" else None
            if g is not None: return self.alloc(s, Gr(g.nodes, g.edges, g.directed if directed is None else directed))
            ed = Coll("list", *[Blk(f, gd, el) for f, gd, el, v in self.iter(self.unview(t, s), s)])
            return self.alloc(s, Gr(Coll("list", *self.endpoints(ed)), ed, directed))
        return self.dist(a[0], st, one)

    def l_Graph(self, a, k, st, fr, e): return self.l_DiGraph(a, k, st, fr, e, False)

    def unview(self, t, st):
        if t.tag == "view":
            c = self.graph_of(t.args[1], st)
            if c is None: return top("view")
            if t.args[0] == "edges" and not c.directed: return top("edges of an undirected graph")
            return c.nodes if t.args[0] == "nodes" else c.edges
        return t

    def l_relabel_nodes(self, a, k, st, fr, e):
        g = self.graph_of(a[0], st)
        if g is None: return None
        m = a[1]
        c = self.coll(m, st)
        def ren(x):
            return Ite(In(c, x), Get(c, x), x)
        ns, es = [], []
        for b in blocks(g.nodes):
            fvs, (gd, x, v) = opened(b.args[0], *b.args[1:]); ns.append(Blk(fvs, gd, ren(x)))
        for b in blocks(g.edges):
            fvs, (gd, x, v) = opened(b.args[0], *b.args[1:]); es.append(Blk(fvs, gd, Tup(ren(Proj(x, 0)), ren(Proj(x, 1)))))
        return self.alloc(st, Gr(Coll("list", *ns), Coll("list", *es)))

    def l_topological_sort(self, a, k, st, fr, e):
        g = self.graph_of(a[0], st)
        if g and self.orders: return self.alloc(st, Coll("list", *[self._revb(b, "topo") for b in blocks(g.nodes)]))
        return self.alloc(st, g.nodes) if g else None

    def l_is_directed_acyclic_graph(self, a, k, st, fr, e): return self.form(mk("tru", App("lib:isdag", self.snap(a[0], st))))

    def neigh(self, g, v, st, out=None):
        b = fresh()
        x = In(g.edges, Tup(v, b)); y = In(g.edges, Tup(b, v))
        f = Or(x, y) if not g.directed else x if out in (None, True) else y
        return Coll("list", Blk([b], f, b))

    def graphm(self, name, g, ref, a, k, st):
        def cl(t): return self.coll(self.unview(t, st), st)
        def its(t): return self.iter(self.unview(t, st), st)
        if name in ("predecessors",): return self.neigh(g, a[0], st, False)
        if name in ("successors", "neighbors"): return self.neigh(g, a[0], st, True)
        if name == "copy": return self.alloc(st, g)
        if name == "nodes": return g.nodes
        if name == "edges" and not a: return g.edges if g.directed else top("edges of an undirected graph")
        if name == "has_node": return self.form(In(g.nodes, a[0]))
        if name == "has_edge": return self.form(In(g.edges, Tup(a[0], a[1])))
        if name in ("in_edges", "out_edges"):
            if not a: return g.edges
            i = 1 if name == "in_edges" else 0
            c = cl(a[0])
            scalar = c.tag not in ("coll", "tup", "ite") and not (c.tag == "sym" and c.args[0] in self.collsyms)
            return filt(g.edges, lambda e_: Eq(Proj(e_, i), c) if scalar else In(c, Proj(e_, i)))
        if name in ("in_degree", "out_degree") and a: return App("len", self.neigh(g, a[0], st, name == "out_degree"))
        if name == "to_undirected": return self.alloc(st, Gr(g.nodes, g.edges, False))
        if name == "reverse":
            es = []
            for b in blocks(g.edges):
                fvs, (gd, x, v) = opened(b.args[0], *b.args[1:]); es.append(Blk(fvs, gd, Tup(Proj(x, 1), Proj(x, 0))))
            return self.alloc(st, Gr(g.nodes, Coll("list", *es)))
        if name == "subgraph":
            c = cl(a[0])
            return self.alloc(st, Gr(filt(g.nodes, lambda x: In(c, x)), filt(g.edges, lambda x: And(In(c, Proj(x, 0)), In(c, Proj(x, 1)))), g.directed))
        if name == "edge_subgraph":
            c = cl(a[0])
            es = filt(g.edges, lambda x: In(c, x))
            return self.alloc(st, Gr(Coll("list", *self.endpoints(es)), es, g.directed))
        if name == "number_of_nodes": return App("len", g.nodes)
        if ref is None: return top("graph." + name)
        if name == "remove_edges_from" or name == "remove_edge":
            c = cl(a[0]) if name == "remove_edges_from" else Tup(Tup(a[0], a[1]))
            ng = Gr(g.nodes, filt(g.edges, lambda x: Not(In(c, x))), g.directed)
        elif name in ("remove_nodes_from", "remove_node"):
            c = cl(a[0]) if name == "remove_nodes_from" else Tup(a[0])
            ng = Gr(filt(g.nodes, lambda x: Not(In(c, x))), filt(g.edges, lambda x: And(Not(In(c, Proj(x, 0))), Not(In(c, Proj(x, 1))))), g.directed)
        elif name == "add_node": ng = Gr(Coll("list", *blocks(g.nodes), Blk([], T, a[0])), g.edges, g.directed)
        elif name == "add_nodes_from": ng = Gr(Coll("list", *blocks(g.nodes), *[Blk(f, gd, x) for f, gd, x, v in its(a[0])]), g.edges, g.directed)
        elif name == "add_edge":
            ng = Gr(Coll("list", *blocks(g.nodes), Blk([], T, a[0]), Blk([], T, a[1])), Coll("list", *blocks(g.edges), Blk([], T, Tup(a[0], a[1]))), g.directed)
        elif name == "add_edges_from":
            bl = [Blk(f, gd, x) for f, gd, x, v in its(a[0])]
            ng = Gr(Coll("list", *blocks(g.nodes), *self.endpoints(Coll("list", *bl))), Coll("list", *blocks(g.edges), *bl), g.directed)
        elif name in ("add_weighted_edges_from", "clear", "update"):
            self.write(st, ref, UNK); return NONE
        else: return top("graph." + name)
        self.write(st, ref, ng)
        return NONE

    def view(self, v, args, st):
        if v.args[0] == "edges" and args:
            return top("edges(nbunch)")
        return self.unview(v, st)

    # ------------------------------------------------------------------ methods of builtin values
    def builtin_method(self, name, t, a, k, st, fr, e):
        if t.tag == "ite": return self.dist(t, st, lambda x, s: self.builtin_method(name, x, a, k, s, fr, e))
        if t.tag == "view":
            if name in ("data",): return top("view data")
            t2 = self.unview(t, st)
            return self.builtin_method(name, t2, a, k, st, fr, e)
        if t.tag == "ref":
            c = self.deref(st, t)
            if isinstance(c, Gr): return self.graphm(name, c, t, a, k, st)
            if c is UNK: c = self.coll(t, st)
        else: c = t
        try: return self.collm(name, t, c, a, k, st, fr, e)
        except IndexError: return top(name)

    def collm(self, name, t, c, a, k, st, fr, e):
        iscoll = isinstance(c, N) and c.tag == "coll"
        kd = kind(c) if iscoll else None
        mut = t.tag == "ref" and iscoll
        def its(x): return self.iter(self.unview(x, st), st)
        def cl(x): return self.coll(self.unview(x, st), st)
        # string methods
        if (isc(t) and isinstance(t.args[1], str)) or t.tag == "str":
            if isc(t) and all(isc(x) for x in a) and name in ("lower", "upper", "strip", "replace", "startswith", "endswith", "format"):
                try: return C(getattr(t.args[1], name)(*[x.args[1] for x in a]))
                except Exception: return top("str")
            if name == "startswith" and t.tag == "str" and isc(a[0]) and isc(t.args[0]) and isinstance(a[0].args[1], str):
                p, q = t.args[0].args[1], a[0].args[1]
                if p.startswith(q): return C(True)
                if not q.startswith(p): return C(False)
            if name == "join": return App("join", t, self.snap(a[0], st))
            return App("str." + name, t, *[self.snap(x, st) for x in a])
        if name == "keys":
            return Coll("set", *[Blk(f, g, x) for f, g, x, v in its(t)])
        if name == "items":
            if iscoll and kd == "dict" or not iscoll:
                out = []
                for f, g, x, v in self.iter(c, st): out.append((f, g, x, only(f, x, v)))
                if iscoll and len(out) > 1:       # later entries hide earlier ones with the same key
                    return Coll("list", *[Blk(f, self.known(And(g, *[Not(In(Coll("dict", b), x)) for b in blocks(c)[i + 1:]])), Tup(x, v)) for i, (f, g, x, v) in enumerate(out)])
                return Coll("list", *[Blk(f, g, Tup(x, v)) for f, g, x, v in out])
            return top("items")
        if name == "values":
            if iscoll and kd == "dict" or not iscoll:
                out = self.iter(c, st)
                return Coll("list", *[Blk(f, self.known(And(g, *[Not(In(Coll("dict", b), x)) for b in (blocks(c)[i + 1:] if iscoll else ())])), only(f, x, v)) for i, (f, g, x, v) in enumerate(out)])
            return top("values")
        if name == "get":
            d = a[1] if len(a) > 1 else k.get("default", NONE)
            f = In(c, a[0])
            return Ite(f, Get(c, a[0]), d)
        if name == "copy":
            if t.tag == "ref" and iscoll: return self.alloc(st, c)
            return self.alloc(st, Coll("dict", *self.mapblocks(t, st))) if not iscoll else self.alloc(st, c)
        if name in ("union", "difference", "intersection", "symmetric_difference"):
            op = {"union": "BitOr", "difference": "Sub", "intersection": "BitAnd", "symmetric_difference": "BitXor"}[name]
            r = t
            if not a: return self.as_list(t, st, "set")
            for x in a:
                if x.tag == "star":
                    x = self.flatten(x.args[0], st)
                    if op == "BitAnd": return top("intersection of many")
                r = self.setop(op, self.unview(r, st), self.unview(x, st), st)
            return r
        if name == "isdisjoint":
            b = fresh()
            return self.form(Not(Ex([b], And(In(cl(t), b), In(cl(a[0]), b)))))
        if name == "issubset": return self.form(self.subset(cl(t), cl(a[0])))
        if name == "issuperset": return self.form(self.subset(cl(a[0]), cl(t)))
        if name == "index":
            if iscoll and all(not b.args[0] and b.args[1] is T for b in blocks(c)):
                for i, b in enumerate(blocks(c)):
                    if b.args[2] is a[0]: return C(i)
            return App("pos", self.snap(t, st), self.snap(a[0], st), C(0))
        if name == "count": return App("count", self.snap(t, st), self.snap(a[0], st))
        if mut:
            if name in ("append", "add"):
                el = a[0]
                self.write(st, t, Coll(kd, *blocks(c), Blk([], T, el))); return NONE
            if name in ("extend",) or (name == "update" and kd == "set"):
                self.write(st, t, Coll(kd, *blocks(c), *[Blk(f, g, x) for y in a for f, g, x, v in its(y)])); return NONE
            if name == "update" and kd == "dict":
                bl = list(blocks(c))
                for y in a: bl += self.mapblocks(y, st)
                for n, v in k.items():
                    if n == "**": bl += blocks(v)
                    else: bl.append(Blk([], T, C(n), v))
                self.write(st, t, Coll(kd, *bl)); return NONE
            if name == "insert":
                i = a[0]
                nb = Blk([], T, a[1])
                self.write(st, t, Coll(kd, nb, *blocks(c)) if isc(i) and i.args[1] == 0 else Coll(kd, *blocks(c), nb)); return NONE
            if name in ("remove", "discard"):
                bs = blocks(c)
                if kd == "list" and name == "remove" and bs and all(not b.args[0] and b.args[1] is T for b in bs):
                    i = next((i for i, b in enumerate(bs) if b.args[2] is a[0]), None)
                    if i is not None and (i <= 1 or all(Eq(b.args[2], a[0]) is F for b in bs[:i])): self.write(st, t, Coll(kd, *bs[:i], *bs[i + 1:])); return NONE
                    if len(bs) == 1: self.write(st, t, Coll(kd)); return NONE      # (or an error)
                    if len(bs) == 2: self.write(st, t, Coll(kd, Blk([], T, Ite(Eq(bs[0].args[2], a[0]), bs[1].args[2], bs[0].args[2])))); return NONE
                if kd == "list":      # removes one occurrence: membership is kept if there are two
                    self.write(st, t, UNK if not self.distinct(c) else filt(c, lambda x: Not(Eq(x, a[0])))); return NONE
                self.write(st, t, filt(c, lambda x: Not(Eq(x, a[0])))); return NONE
            if name in ("difference_update", "intersection_update"):
                for y in a:
                    z = cl(y)
                    c = filt(c, (lambda x: Not(In(z, x))) if name[0] == "d" else (lambda x: In(z, x)))
                self.write(st, t, c); return NONE
            if name == "setdefault":
                f = In(c, a[0])
                d = a[1] if len(a) > 1 else NONE
                v = Ite(f, Get(c, a[0]), d)
                self.write(st, t, Coll(kd, *blocks(c), Blk([], Not(f), a[0], d))); return v
            if name == "pop":
                if kd == "dict":
                    f = In(c, a[0])
                    v = Ite(f, Get(c, a[0]), a[1]) if len(a) > 1 else Get(c, a[0])
                    self.write(st, t, filt(c, lambda x: Not(Eq(x, a[0])))); return v
                bs = blocks(c)
                if kd == "list" and bs and all(not b.args[0] and b.args[1] is T for b in bs):
                    i = a[0].args[1] if a and isc(a[0]) else -1
                    if isinstance(i, int) and -len(bs) <= i < len(bs):
                        l = list(bs); b = l.pop(i); self.write(st, t, Coll(kd, *l)); return b.args[2]
                v = App("pick", self.snap(t, st)) if kd == "set" else App("idx", self.snap(t, st), a[0] if a else C(-1))
                self.write(st, t, UNK)
                return v
            if name == "clear": self.write(st, t, Coll(kd)); return NONE
            if name in ("sort", "reverse"):
                if self.orders: self.write(st, t, Coll(kd, *[self._revb(b, "turned" if name == "reverse" else "sorted") for b in (reversed(blocks(c)) if name == "reverse" else blocks(c))]))
                return NONE
            if name == "popitem": self.write(st, t, UNK); return top("popitem")
        if name in ("move_to_end",): return NONE
        if t.tag == "ref" and c is not None and not iscoll:
            return App("." + name, t, *[self.snap(x, st) for x in a])
        return self.opaque_call("." + name, [t] + list(a), k, st)

    def distinct(self, c):
        """no element twice, as far as the blocks tell"""
        return len(blocks(c)) == 1 and len(blocks(c)[0].args[0]) == 1
