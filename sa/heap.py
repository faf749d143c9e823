"""Engine A: flow-sensitive, summary-based heap / effect / dependence analysis of the package.

Abstract values are sets of atoms (constants, functions, classes, heap locations) together with the set of
inputs they depend on.  Every function is analysed relative to its parameters (symbolic locations ('P', i)) in
a context made of the receiver classes, constant and function arguments; the resulting summary is substituted
at call sites.  Nothing is executed: statements are interpreted over the abstract heap until a fixpoint.
"""
from __future__ import annotations
import ast
from loader import World, FuncInfo, ClassInfo, AnalysisBroken, dotted
import libmodel as L

E = frozenset()
NONE = ("c", None)
S = ("s",)          # some scalar / immutable value
T = ("t",)          # unknown value that aliases nothing the caller owns
MAXDEPTH = 5
MAXCTX = 60


class AV:
    __slots__ = ("atoms", "deps", "_h")

    def __init__(self, atoms=E, deps=E):
        self.atoms = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        self.deps = deps if isinstance(deps, frozenset) else frozenset(deps)
        self._h = hash((self.atoms, self.deps))

    def __eq__(self, o): return self is o or (self._h == o._h and self.atoms == o.atoms and self.deps == o.deps)
    def __hash__(self): return self._h
    def __repr__(self): return f"AV({set(self.atoms)!r}|{set(self.deps)!r})"

    def __or__(self, o):
        if o is None or o is BOT or self is o: return self
        if self is BOT: return o
        if o.atoms <= self.atoms and o.deps <= self.deps: return self
        return AV(self.atoms | o.atoms, self.deps | o.deps)

    def dep(self, deps):
        return self if deps <= self.deps else AV(self.atoms, self.deps | deps)

    def locs(self): return [a[1] for a in self.atoms if a[0] == "o"]

    def consts(self):
        """python constants if every atom is a constant, else None"""
        if self.atoms and all(a[0] == "c" for a in self.atoms): return [a[1] for a in self.atoms]
        return None

    def only_none(self): return len(self.atoms) == 1 and NONE in self.atoms


BOT = AV()
TOP = AV({T})
SC = AV({S})


def const(v): return AV({("c", v)})


def is_ext(loc):
    while loc[0] == "F": loc = loc[1]
    return loc[0] in ("P", "G")


def root(loc):
    while loc[0] == "F": loc = loc[1]
    return loc


def depth(loc):
    d = 0
    while loc[0] == "F": loc, d = loc[1], d + 1
    return d


def path(loc):
    p = []
    while loc[0] == "F":
        p.append(loc[2]); loc = loc[1]
    return loc, tuple(reversed(p))


def fieldloc(loc, field):
    if depth(loc) >= MAXDEPTH: return loc          # collapse deep paths
    if field == "[]" and loc[0] == "F" and loc[2] == "[]" and loc[1][0] == "F" and loc[1][2] == "[]": return loc
    return ("F", loc, field)


class State:
    __slots__ = ("env", "heap", "mw", "narrow")

    def __init__(self, env=None, heap=None, mw=E, narrow=None):
        self.env, self.heap, self.mw, self.narrow = env or {}, heap or {}, mw, narrow or {}

    def copy(self): return State(dict(self.env), dict(self.heap), self.mw, dict(self.narrow))


class Event:
    """kind: write / draw / rng / none / globalread / memo"""
    __slots__ = ("kind", "loc", "field", "site", "detail", "flags", "chain", "deps", "cflags")

    def __init__(self, kind, loc, field, site, detail="", flags=E, chain=(), deps=E):
        self.kind, self.loc, self.field, self.site, self.detail, self.flags, self.chain, self.deps = \
            kind, loc, field, site, detail, flags, chain, deps

    def key(self): return (self.kind, self.loc, self.field, self.site, self.detail, self.flags)


class Summary:
    __slots__ = ("ret", "heap", "mw", "reads", "events", "returns", "params", "never")

    def __init__(self):
        self.ret, self.heap, self.mw, self.reads, self.events, self.returns = BOT, {}, E, set(), {}, False
        self.never = True

    def sig(self):
        return (self.ret, tuple(sorted((repr(k), hash(v)) for k, v in self.heap.items())), self.mw,
                frozenset(self.reads), frozenset(self.events), self.returns)


class Engine:
    def __init__(self, world: World):
        self.w = world
        self.memo = {}          # (fi, ctx) -> Summary
        self.stack = {}
        self.ftable = {}        # (ClassInfo, path) -> set of types
        self.fvals = {}         # (ClassInfo, field) -> set of function/class atoms ever stored (None if others)
        self.ctxcount = {}
        self.nfun = 0
        self.nctx = 0
        self.ncalls = 0
        self.unresolved = {}
        self.captured_cache = {}
        self.ann_cache = {}
        self.prepare()

    # ------------------------------------------------------------------ types
    def concrete(self, c):
        out = [d for d in c.all_subclasses() if not d.is_abstract]
        return frozenset(out or [c])

    def ann_types(self, module, node, elem=False):
        """types of an annotation expression (or of its elements)"""
        if node is None: return E
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try: node = ast.parse(node.value, mode="eval").body
            except SyntaxError: return E
        if isinstance(node, ast.Constant): return E
        if isinstance(node, ast.BinOp):
            return self.ann_types(module, node.left, elem) | self.ann_types(module, node.right, elem)
        if isinstance(node, ast.Subscript):
            nm = (dotted(node.value) or "").split(".")[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if nm in ("Union", "Optional"):
                r = E
                for a in args: r |= self.ann_types(module, a, elem)
                return r
            if elem:
                a = args[-1] if nm.lower() in ("dict", "ordereddict", "mapping") else args[0]
                return self.ann_types(module, a)
            return self.ann_types(module, node.value)
        if elem: return E
        d = dotted(node)
        if not d: return E
        r = self.w.resolve_dotted(module, node)
        if r and r[0] == "class": return self.concrete(r[1])
        nm = d.split(".")[-1]
        t = L.ANN.get(nm)
        return frozenset(t) if t else E

    def hint(self, name):
        """types suggested by a parameter name (used only to narrow dispatch)"""
        w = self.w
        def sub(n):
            c = w.cls(n, required=False)
            return self.concrete(c) if c else E
        h = L.NAME_HINTS.get(name)
        if h is None: return E, E
        def conv(hs):
            out = set()
            for x in hs:
                if x.startswith("@"): out |= sub(x[1:])
                else: out.add(x)
            return frozenset(out)
        return conv(h[0]), conv(h[1])

    def param_types(self, fi, name):
        a = fi.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                t, el = self.ann_types(fi.module, p.annotation), self.ann_types(fi.module, p.annotation, True)
                ht, hel = self.hint(name)
                return (t or ht), (el or hel)
        return E, E

    # ------------------------------------------------------------------ preparation: field table
    def prepare(self):
        """two rounds over all methods of all classes to learn what instance fields hold"""
        for rnd in range(2):
            self.memo.clear(); self.ctxcount.clear()
            newt, newv = {}, {}
            for c in self.w.classes:
                if c.is_abstract and c.subclasses: continue
                names = {}
                for k in reversed(c.mro()): names.update(k.methods)
                todo = list(names.values())
                # also overridden constructors / methods reached through super() are analysed by calls
                for f in todo:
                    if f.is_abstract or f.is_static: continue
                    s = self.analyse_root(f, c)
                    self._learn(c, s, newt, newv)
            self.ftable, self.fvals = newt, newv
        self.memo.clear(); self.ctxcount.clear()

    def _learn(self, c, s, newt, newv):
        def types_of(av, heap):
            out = set()
            for a in av.atoms:
                if a[0] == "o":
                    t = self.types_in(a[1], heap, s)
                    out |= t or {"any"}
                elif a[0] == "c":
                    if a[1] is not None: out.add("num")
                elif a[0] == "s": out.add("num")
                elif a[0] == "t": out.add("any")
                elif a[0] in ("f", "m", "cls", "x", "xm"): out.add("func")
            return out
        def rec(pth, av, d):
            ts = types_of(av, s.heap)
            if ts: newt.setdefault((c, pth), set()).update(ts)
            if d <= 0: return
            for a in av.atoms:
                if a[0] == "o":
                    for (l, f), v in s.heap.items():
                        if l == a[1] and isinstance(v, AV) and (f == "[]" or f.startswith("k:")):
                            rec(pth + ("[]",), v, d - 1)
        for (l, f), v in s.heap.items():
            if not isinstance(v, AV): continue
            r, p = path(l)
            if r == ("P", 0):
                if f.startswith("k:"): f = "[]"
                rec(p + (f,), v, 2)
                if p == ():
                    fa = set()
                    for a in v.atoms:
                        if a[0] in ("f", "cls"): fa.add(a)
                        elif a[0] == "o" and any(isinstance(t, tuple) and t[0] == "fn" for t in self.types_in(a[1], s.heap, s)):
                            for t in self.types_in(a[1], s.heap, s):
                                if isinstance(t, tuple) and t[0] == "fn": fa.add(("fn", t[1]))
                                else: fa.add(None)
                        elif a[0] == "o" and root(a[1]) == ("P", 0) and path(a[1])[1] == (f,): pass   # its own initial value
                        elif a == NONE: pass
                        else: fa.add(None)
                    newv.setdefault((c, f), set()).update(fa)

    def types_in(self, loc, heap, s):
        t = heap.get((loc, "$t"))
        if t: return t
        if is_ext(loc):
            r, p = path(loc)
            if r[0] == "P":
                pt = s.params[0].get(r, E)
                if not p: return pt
                return self.field_types(pt, p, s.params[1].get(r, E))
        return E

    def field_types(self, rtypes, p, elem=E):
        out = set()
        for c in rtypes:
            if isinstance(c, ClassInfo):
                for k in c.mro():
                    out |= self.ftable.get((k, p), set())
        if not out and p and p[-1] == "[]" and len(p) == 1 and elem: return frozenset(elem)
        return frozenset(out)

    # ------------------------------------------------------------------ roots
    def root_ctx(self, fi, cls=None, bind=None, omit=False):
        """context of a public entry point: every parameter an unknown caller-owned object (plus its default)"""
        bind = bind or {}
        a = fi.node.args
        ctx = []
        names = [p.arg for p in a.posonlyargs + a.args]
        nd = len(a.defaults)
        for i, p in enumerate(names):
            if i == 0 and fi.cls is not None and not fi.is_static:
                if fi.is_classmethod: ctx.append((E, frozenset({("cls", cls or fi.cls)}), False, E))
                else: ctx.append((frozenset({cls or fi.cls}), E, True, E))
                continue
            t, el = self.param_types(fi, p)
            if p in bind:
                b = bind[p]
                ctx.append((b.get("types", t), frozenset(b.get("atoms", E)), b.get("obj", False), b.get("elem", el)))
                continue
            at = set()
            j = i - (len(names) - nd)
            d = a.defaults[j] if j >= 0 else None
            if isinstance(d, ast.Constant): at.add(("c", d.value))
            if omit and d is not None:
                if isinstance(d, ast.Constant): ctx.append((E, frozenset(at), False, E)); continue
                ctx.append((t, frozenset({("default",)}), False, el)); continue
            if d is not None and not isinstance(d, ast.Constant): at.add(("default",))
            if t and t <= {"num"}: at.add(S); ctx.append((E, frozenset(at), False, E))
            else:
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    ctx.append((E, frozenset({("c", True), ("c", False)}), False, E))
                else: ctx.append((t, frozenset(at), True, el))
        if a.vararg: ctx.append((frozenset({"tuple"}), E, True, E))
        for i, p in enumerate(a.kwonlyargs):
            t, el = self.param_types(fi, p.arg)
            if p.arg in bind:
                b = bind[p.arg]
                ctx.append((b.get("types", t), frozenset(b.get("atoms", E)), b.get("obj", False), b.get("elem", el)))
                continue
            ctx.append((t, E, True, el))
        if a.kwarg: ctx.append((frozenset({"dict"}), E, True, E))
        return tuple(ctx)

    def analyse_root(self, fi, cls=None, bind=None, omit=False):
        return self.analyse(fi, self.root_ctx(fi, cls, bind, omit))

    # ------------------------------------------------------------------ analysis of one function in one context
    def analyse(self, fi, ctx):
        key = (fi, ctx)
        if key in self.memo: return self.memo[key]
        if key in self.stack:
            self.stack[key][1] = True
            return self.stack[key][0]
        self.ctxcount[fi] = self.ctxcount.get(fi, 0) + 1
        if self.ctxcount[fi] > MAXCTX and len(self.stack) > 0:
            gen = tuple((E if not any(isinstance(t, (ClassInfo, tuple)) for t in c[0]) else c[0],
                         frozenset(x for x in c[1] if x[0] != "c") | ({S} if any(x[0] == "c" for x in c[1]) else E),
                         c[2], E) for c in ctx)
            if gen != ctx: return self.analyse(fi, gen)
        cur = Summary()
        cur.params = ({}, {})
        slot = [cur, False]
        self.stack[key] = slot
        try:
            for _ in range(6):
                slot[1] = False
                s = Frame(self, fi, ctx).run()
                self.nctx += 1
                same = s.sig() == slot[0].sig()
                slot[0] = s
                if not slot[1] or same: break
        finally:
            del self.stack[key]
        if len(self.stack) == 0 or not slot[1]: self.memo[key] = slot[0]
        elif slot[1]: self.memo[key] = slot[0]
        return slot[0]

    def captured(self, fi):
        """names of fi's locals used by nested functions"""
        r = self.captured_cache.get(fi)
        if r is not None: return r
        loc = assigned_names(fi.node)
        used = set()
        todo = list(ast.iter_child_nodes(fi.node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name): used.add(m.id)
                continue
            todo += list(ast.iter_child_nodes(n))
        r = loc & used
        self.captured_cache[fi] = r
        return r


def assigned_names(fn):
    a = fn.args
    out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    nonloc = set()
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name); continue
        if isinstance(n, ast.Lambda): continue
        if isinstance(n, (ast.Global, ast.Nonlocal)): nonloc |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: out.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out - nonloc


class Dead(Exception): pass


class Frame:
    def __init__(self, eng, fi, ctx):
        self.eng, self.w, self.fi, self.ctx = eng, eng.w, fi, ctx
        self.mod = fi.module
        self.ptypes, self.pelem = {}, {}
        self.events, self.reads = {}, set()
        self.rets = []
        self.yields = BOT
        self.cd = [E]           # control dependences
        self.uctx = 0           # inside an iteration over an unordered collection
        self.worker = 0
        self.locals = assigned_names(fi.node)
        self.cap = eng.captured(fi)
        self.envloc = ("A", ("env", fi.qual), ())
        self.loops = []
        self.localimports = {}

    # ------------------------------------------------------------------ driver
    def run(self):
        fi, a = self.fi, self.fi.node.args
        st = State()
        names = [p.arg for p in a.posonlyargs + a.args]
        if a.vararg: names.append(a.vararg.arg)
        names += [p.arg for p in a.kwonlyargs]
        if a.kwarg: names.append(a.kwarg.arg)
        self.pnames = names
        defaults = self.defaults_map()
        for i, nm in enumerate(names):
            types, atoms, obj, elem = self.ctx[i] if i < len(self.ctx) else (E, E, True, E)
            loc = ("P", i)
            self.ptypes[loc], self.pelem[loc] = types, elem
            at = set(atoms)
            extra = BOT
            if ("default",) in at:
                at.discard(("default",))
                if nm in defaults: extra = self.default_value(nm, defaults[nm])
            if obj: at.add(("o", loc))
            v = AV(at, {("P", i)}) | extra
            self.setvar(st, nm, v)
        self.ptypes[("P", "env")] = E
        body = fi.node.body
        if isinstance(fi.node, ast.Lambda):
            v = self.ev(body, st)
            self.rets.append((v, st))
        else:
            out = self.block(body, st)
            if out is not None: self.rets.append((const(None), out))
        s = Summary()
        s.params = (self.ptypes, self.pelem)
        s.events = self.events
        s.reads = self.reads
        if self.rets:
            s.returns = True
            ret, fin = self.rets[0][0], self.rets[0][1]
            for v, x in self.rets[1:]:
                ret = ret | v
                fin = self.join(fin, x)
            if fi.is_gen:
                loc = self.alloc(fin, fi.node, "gen", {"iter"} | ({"U"} if self.gen_unordered else set()))
                fin.heap[(loc, "[]")] = self.yields
                ret = AV({("o", loc)}, self.yields.deps)
            s.ret = ret
            s.mw = fin.mw
            # keep: writes to ext locations, and allocations reachable from ret / ext writes
            keep, todo = set(), []
            ext = {}
            index = {}
            for (l, f), v in fin.heap.items():
                index.setdefault(l, []).append((f, v))
                if is_ext(l):
                    ext[(l, f)] = v
                    if isinstance(v, AV): todo += v.locs()
            todo += ret.locs()
            while todo:
                l = todo.pop()
                if l in keep or is_ext(l): continue
                keep.add(l)
                for f, v in index.get(l, ()):
                    if isinstance(v, AV): todo += v.locs()
            s.heap = ext
            for l in keep:
                for f, v in index.get(l, ()): s.heap[(l, f)] = v
        return s

    gen_unordered = False

    def defaults_map(self):
        a = self.fi.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, x in zip(pos[len(pos) - len(a.defaults):], a.defaults): d[p.arg] = x
        for p, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None: d[p.arg] = x
        return d

    def default_value(self, name, node, fi=None):
        fi = fi or self.fi
        if isinstance(node, ast.Constant): return const(node.value)
        if isinstance(node, ast.UnaryOp): return SC
        if isinstance(node, ast.Call) and dotted(node.func) == "float": return SC
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call)):
            if isinstance(node, ast.Call):
                r = self.w.resolve_dotted(fi.module, node.func)
                if r and r[0] == "ext" and r[1] in ("builtins.tuple", "builtins.frozenset", "builtins.float", "builtins.int", "builtins.str"):
                    return SC
            return AV({("o", ("G", f"default:{fi.qual}:{name}"))})
        r = self.w.resolve_dotted(fi.module, node)
        return self.from_res(r)

    # ------------------------------------------------------------------ helpers
    def site(self, node): return (self.mod.relpath, getattr(node, "lineno", 0), self.fi.qual)

    def alloc(self, st, node, tag, types):
        loc = ("A", (self.fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag), ())
        k = (loc, "$t")
        st.heap[k] = st.heap.get(k, E) | frozenset(types)
        return loc

    def fresh(self, st, node, tag, types, elems=None, deps=E):
        loc = self.alloc(st, node, tag, types)
        if elems is not None:
            k = (loc, "[]")
            st.heap[k] = st.heap.get(k, BOT) | elems
            deps = deps | elems.deps
        return AV({("o", loc)}, deps)

    def types(self, st, loc):
        t = st.narrow.get(loc)
        if t is not None: return t
        t = st.heap.get((loc, "$t"))
        if t is not None: return t
        if loc[0] == "P": return self.ptypes.get(loc, E)
        if loc[0] == "G": return self.gtypes(loc)
        if loc[0] == "F":
            r, p = path(loc)
            if r[0] == "P": return self.eng.field_types(self.ptypes.get(r, E), tuple("[]" if x.startswith("k:") else x for x in p), self.pelem.get(r, E))
            if r[0] == "G": return self.geltypes(r, p)
        return E

    def gtypes(self, loc):
        n = loc[1]
        e = self.global_expr(n)
        if e is None: return E
        if isinstance(e, (ast.Dict, ast.DictComp)): return frozenset({"dict"})
        if isinstance(e, (ast.List, ast.ListComp)): return frozenset({"list"})
        if isinstance(e, (ast.Set, ast.SetComp)): return frozenset({"set", "U"})
        if isinstance(e, ast.Call):
            nm = (dotted(e.func) or "").split(".")[-1]
            t = L.CTOR_TYPES.get(nm)
            if t: return frozenset(t)
        return E

    def geltypes(self, r, p): return E

    def global_expr(self, n):
        if n.startswith("default:"):
            _, qual, name = n.split(":")
            for f in self.w.funcs:
                if f.qual == qual:
                    a = f.node.args
                    pos = a.posonlyargs + a.args
                    for q, x in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                        if q.arg == name: return x
                    for q, x in zip(a.kwonlyargs, a.kw_defaults):
                        if q.arg == name: return x
            return None
        m, _, v = n.rpartition(".")
        if m in self.w.modules:
            b = self.w.modules[m].bind.get(v)
            return b[1] if b and b[0] == "expr" else None
        for c in self.w.classes:
            if c.qual == m: return c.attrs.get(v)
        return None

    def event(self, kind, loc, field, node, detail="", flags=E, deps=E):
        fl = set(flags)
        if self.uctx: fl.add("U")
        if self.worker: fl.add("W")
        e = Event(kind, loc, field, self.site(node), detail, frozenset(fl), (), deps | self.cd[-1])
        self.addevent(e)

    def addevent(self, e):
        k = e.key()
        o = self.events.get(k)
        if o is None: self.events[k] = e
        elif not e.deps <= o.deps:
            n = Event(o.kind, o.loc, o.field, o.site, o.detail, o.flags, o.chain, o.deps | e.deps)
            self.events[k] = n

    # variables -------------------------------------------------------------
    def setvar(self, st, name, v):
        if name in self.cap: st.heap[(self.envloc, name)] = v
        else: st.env[name] = v

    def getvar(self, st, name):
        if name in self.cap: return st.heap.get((self.envloc, name))
        return st.env.get(name)

    def lookup(self, st, name, node):
        v = self.getvar(st, name)
        if v is not None: return v
        if name in self.locals and name in self.localimports: return self.from_res(self.localimports[name])
        # enclosing function
        p = self.fi.parent
        lvl = 0
        while p is not None:
            if name in assigned_names(p.node):
                envloc = ("P", "env")
                for _ in range(lvl): envloc = ("F", envloc, "$env")
                return self.load(st, envloc, name, node)
            p = p.parent; lvl += 1
        if name in self.localimports: return self.from_res(self.localimports[name])
        r = self.w.resolve(self.mod, name)
        return self.from_res(r, node)

    def from_res(self, r, node=None):
        if r is None: return TOP
        k = r[0]
        if k == "func": return AV({("f", r[1])})
        if k == "class": return AV({("cls", r[1])})
        if k == "mod": return AV({("mod", r[1])})
        if k == "ext": return AV({("x", r[1])})
        if k == "expr":
            m, e = r[1], r[2]
            if isinstance(e, ast.Constant): return const(e.value)
            if isinstance(e, ast.Lambda): return AV({("f", self.w.func_for(m, e))})
            if isinstance(e, (ast.Name, ast.Attribute)):
                q = self.w.resolve_dotted(m, e)
                if q: return self.from_res(q)
            for nm, b in m.bind.items():
                if b[0] == "expr" and b[1] is e: return AV({("o", ("G", f"{m.name}.{nm}"))})
            return TOP
        return TOP

    # heap -------------------------------------------------------------------
    def load(self, st, loc, field, node=None):
        k = (loc, field)
        v = st.heap.get(k)
        ext = is_ext(loc)
        if ext and k not in st.mw and field not in ("$t",):
            self.reads.add(k)
        if v is not None: return v
        if ext: return self.initial(st, loc, field)
        return BOT

    def initial(self, st, loc, field):
        """the value a caller-owned location holds on entry"""
        r, p = path(loc)
        if r == ("P", "env"):
            return AV({("o", fieldloc(loc, field))}, {("P", "env")})
        deps = {r} if r[0] == "P" else {("G", r[1])}
        if loc == ("P", 0) and self.fi.cls is not None and not self.fi.is_static: deps = {("O", field)}
        elif r == ("P", 0) and p and self.fi.cls is not None and not self.fi.is_static: deps = {("O", p[0])}
        fv = set()
        ts = self.types(st, loc)
        if ts and all(isinstance(t, ClassInfo) for t in ts):
            known = True
            for c in ts:
                for k in c.mro():
                    q = self.eng.fvals.get((k, field))
                    if q is not None: fv |= q
            if fv and None not in fv:
                out = set()
                for a in fv:
                    if a[0] == "fn": out.add(("o", fieldloc(loc, field)))
                    else: out.add(a)
                return AV(out, deps)
        if r[0] == "G":
            gv = self.global_elem(loc, field)
            if gv is not None: return gv.dep(frozenset(deps))
        return AV({("o", fieldloc(loc, field))}, deps)

    def global_elem(self, loc, field):
        """element of a module-level dict/list literal of functions/classes"""
        if loc[0] != "G": return None
        e = self.global_expr(loc[1])
        m = None
        n = loc[1].rpartition(".")[0]
        m = self.w.modules.get(n)
        if m is None:
            for c in self.w.classes:
                if c.qual == n: m = c.module
        if e is None or m is None: return None
        vals = None
        if isinstance(e, ast.Dict): vals = e.values
        elif isinstance(e, (ast.List, ast.Tuple)): vals = e.elts
        elif isinstance(e, ast.Call) and dotted(e.func) == "dict" and not e.args: vals = [k.value for k in e.keywords]
        if not vals: return None
        if field != "[]" and not field.startswith("k:"): return None
        if field.startswith("k:") and isinstance(e, ast.Dict):
            for kx, vx in zip(e.keys, e.values):
                if isinstance(kx, ast.Constant) and repr(kx.value) == field[2:]: vals = [vx]
        out = BOT
        for v in vals:
            if isinstance(v, ast.Lambda): out = out | AV({("f", self.w.func_for(m, v))})
            elif isinstance(v, ast.Constant): out = out | const(v.value)
            elif isinstance(v, (ast.Name, ast.Attribute)): out = out | self.from_res(self.w.resolve_dotted(m, v))
            else: return None
        return out

    def store(self, st, loc, field, v, node, strong=False, detail=""):
        k = (loc, field)
        v = v.dep(self.cd[-1])
        ext = is_ext(loc)
        if ext and root(loc) != ("P", "env"):
            self.event("write", loc, field, node, detail, deps=v.deps)
        if strong and field != "[]":
            st.heap[k] = v
            if ext: st.mw = st.mw | {k}
        else:
            old = st.heap.get(k)
            if old is None: old = self.initial(st, loc, field) if ext else BOT
            st.heap[k] = old | v

    def mutate(self, st, av, v, node, detail, field="[]"):
        """in-place modification of a container value"""
        for l in av.locs(): self.store(st, l, field, v, node, False, detail)

    def elems(self, st, av, node):
        """what iterating over a value yields"""
        out = BOT
        for a in av.atoms:
            if a[0] == "o":
                l = a[1]
                ts = self.types(st, l)
                if ts and ts <= {"num", "str"}: out = out | SC; continue
                if "graph" in ts or "nodeview" in ts: out = out | SC; continue
                if "edgeview" in ts:
                    out = out | self.fresh(st, node, "edge", {"tuple"}, SC); continue
                if "df" in ts: out = out | SC; continue
                if "dict" in ts and "dictview" not in ts: out = out | SC; continue   # keys
                got = BOT
                if is_ext(l): got = self.load(st, l, "[]", node)
                else:
                    for (x, f), v in st.heap.items():
                        if x == l and (f == "[]" or (f[0] in "kt" and ":" in f)): got = got | v
                if "nd" in ts: got = got | SC | AV({a})
                out = out | got
                if not got.atoms and not is_ext(l) and not ts: out = out | SC
            elif a[0] in ("s", "t"): out = out | AV({T if a[0] == "t" else S})
            elif a[0] == "c" and isinstance(a[1], str): out = out | SC
        return AV(out.atoms, out.deps | av.deps)

    def dictvals(self, st, av, node):
        out = BOT
        for l in av.locs():
            if is_ext(l):
                out = out | self.load(st, l, "[]", node)
            for (x, f), v in list(st.heap.items()):
                if x == l and (f == "[]" or f.startswith("k:")): out = out | v
        if any(a[0] in "ts" for a in av.atoms): out = out | TOP
        return out.dep(av.deps)

    def unordered(self, st, av):
        return any("U" in self.types(st, l) for l in av.locs())

    # joins ------------------------------------------------------------------
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        env = dict(a.env)
        for k, v in b.env.items():
            env[k] = env[k] | v if k in env else v
        heap = dict(a.heap)
        for k, v in b.heap.items():
            o = heap.get(k)
            if o is None:
                if isinstance(v, AV) and is_ext(k[0]): v = v | self.initial(a, k[0], k[1])
                heap[k] = v
            elif o is not v:
                heap[k] = o | v
        for k, v in a.heap.items():
            if k not in b.heap and isinstance(v, AV) and is_ext(k[0]):
                heap[k] = v | self.initial(b, k[0], k[1])
        nar = {}
        for k, v in a.narrow.items():
            if k in b.narrow: nar[k] = v | b.narrow[k]
        return State(env, heap, a.mw & b.mw, nar)

    def same(self, a, b):
        return a.env == b.env and a.heap == b.heap and a.mw == b.mw

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None: return None
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None: return st
        try:
            return m(n, st)
        except Dead:
            return None

    def s_Expr(self, n, st):
        self.ev(n.value, st); return st

    def s_Pass(self, n, st): return st
    def s_Global(self, n, st): return st
    s_Nonlocal = s_Global

    def s_Assign(self, n, st):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            # x.f = g(x.f): a self-update; the old value only reaches the outside through later reads of x.f
            t = n.targets[0]
            if any(isinstance(m, ast.Attribute) and m.attr == t.attr and ast.dump(m.value) == ast.dump(t.value)
                   for m in ast.walk(n.value)):
                before = set(self.reads)
                v = self.ev(n.value, st)
                self.reads -= {r for r in self.reads - before if r[1] == t.attr}
                self.assign(t, v, st, n, aug=True)
                return st
        v = self.ev(n.value, st)
        for t in n.targets: self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None: self.assign(n.target, self.ev(n.value, st), st, n)
        return st

    def s_AugAssign(self, n, st):
        before = set(self.reads)
        old = self.ev(_load(n.target), st)
        if isinstance(n.target, ast.Attribute): self.reads -= {r for r in self.reads - before if r[1] == n.target.attr}
        rhs = self.ev(n.value, st)
        rk = set()
        for l in rhs.locs(): rk |= self.types(st, l)
        cont = bool(rk & {"list", "set", "nd", "dict", "df", "series", "iter", "tuple"})
        keep = set()
        for l in old.locs():
            ts = self.types(st, l)
            if ts & {"list", "set", "nd", "dict", "df", "series"} or (not (ts - {"any"}) and cont and not ts & {"tuple", "num"}):
                self.store(st, l, "[]", self.elems(st, rhs, n).dep(rhs.deps), n, False, "in-place " + _op(n.op))
                keep.add(("o", l))
        new = self.binop(n, old, n.op, rhs, st) if not keep else BOT
        v = AV(frozenset(keep) | new.atoms, old.deps | rhs.deps)
        if not v.atoms: v = SC.dep(v.deps)
        self.assign(n.target, v, st, n, aug=True)
        return st

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id not in self.locals and self.fi.parent is not None and self._nonlocal(t.id):
                self.store(st, ("P", "env"), t.id, v, node, True)
                return
            if t.id not in self.locals:      # global statement
                self.store(st, ("G", f"{self.mod.name}.{t.id}"), "$value", v, node, True, "global assignment")
                return
            self.setvar(st, t.id, v.dep(self.cd[-1]))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.fresh(st, node, "star", {"list"}, self.elems(st, v, node)), st, node)
                else:
                    self.assign(e, self.item(st, v, i, node), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.deref(o, t, st, f"attribute {t.attr} of")
            self.setattr(st, o, t.attr, v, node, weak=aug)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            idx = self.ev(t.slice, st)
            self.deref(o, t, st, "item of")
            self.setitem(st, o, idx, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def _nonlocal(self, name):
        for s in ast.walk(self.fi.node):
            if isinstance(s, ast.Nonlocal) and name in s.names: return True
        return False

    def setattr(self, st, o, attr, v, node, weak=False):
        ls = o.locs()
        for l in ls:
            self.store(st, l, attr, v, node, strong=len(o.atoms) == 1 and not (weak and is_ext(l)), detail=f".{attr} =")
        for a in o.atoms:
            if a[0] == "cls":
                self.store(st, ("G", a[1].qual + "." + attr), "$value", v, node, True, "class attribute assignment")
            elif a[0] == "mod":
                self.store(st, ("G", a[1] + "." + attr), "$value", v, node, True, "module attribute assignment")
            elif a[0] == "f":
                self.store(st, ("G", a[1].qual + "()." + attr), "$value", v, node, True, "function attribute assignment")
            elif a[0] == "x":
                self.event("write", ("G", "ext:" + a[1]), attr, node, "library attribute assignment")

    def setitem(self, st, o, idx, v, node):
        c = idx.consts()
        single = len(o.atoms) == 1
        for l in o.locs():
            ts = self.types(st, l)
            if c and len(c) == 1 and isinstance(c[0], (str, int)) and not ts & {"list", "nd", "df"}:
                self.store(st, l, "k:" + repr(c[0]), v, node, strong=single, detail="item assignment")
            else:
                self.store(st, l, "[]", v.dep(idx.deps), node, False, detail="item assignment")
            for cl in ts:
                if isinstance(cl, ClassInfo):
                    k, f, _ = cl.lookup("__setitem__")
                    if k == "method": self.call_fn(f, [AV({("o", l)}), idx, v], {}, st, node, recv=l)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st); self.ev(t.slice, st)
                self.mutate(st, o, BOT, n, "del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                for l in o.locs(): self.store(st, l, t.attr, SC, n, False, "del attribute")
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else const(None)
        self.rets.append((v.dep(self.cd[-1]), st))
        return None

    def s_Raise(self, n, st):
        if n.exc is not None: self.ev(n.exc, st)
        if self.trystack: self.trystack[-1].append(st.copy())
        return None

    trystack = None

    def s_Assert(self, n, st):
        self.ev(n.test, st)
        t = self.refine(st, n.test, True)
        return t

    def s_Import(self, n, st):
        b = {}
        self.w._imports(self.mod, n, b)
        for k, v in b.items():
            r = self.w.resolve_binding(self.mod, v)
            self.localimports[k] = r
            self.setvar(st, k, self.from_res(r))
        return st
    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st):
        self.setvar(st, n.name, self.closure(n, st))
        return st

    def s_ClassDef(self, n, st):
        self.setvar(st, n.name, TOP); return st

    def closure(self, n, st):
        fi = self.w.func_for(self.mod, n)
        outer = set()
        p = fi.parent
        while p is not None:
            outer |= assigned_names(p.node); p = p.parent
        used = {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
        if not (used & outer): return AV({("f", fi)})
        loc = self.alloc(st, n, "closure", {("fn", fi)})
        st.heap[(loc, "$env")] = AV({("o", self.envloc)})
        if self.fi.parent is not None: st.heap[(self.envloc, "$env")] = AV({("o", ("P", "env"))})
        return AV({("o", loc)})

    def s_If(self, n, st):
        v = self.ev(n.test, st)
        self.cd.append(self.cd[-1] | v.deps)
        try:
            a = self.refine(st, n.test, True, v)
            b = self.refine(st, n.test, False, v)
            oa = self.block(n.body, a) if a is not None else None
            ob = self.block(n.orelse, b) if b is not None else None
        finally:
            self.cd.pop()
        # a branch that always leaves the function makes the rest depend on the test
        if (oa is None) != (ob is None) and a is not None and b is not None:
            self.cd[-1] = self.cd[-1] | v.deps
        return self.join(oa, ob)

    def loop(self, st, body_fn, first=True):
        """body_fn(state) -> state after one iteration (or None); returns the state after the loop"""
        self.loops.append(([], []))
        saved_cd = len(self.cd)
        out = st.copy()
        for _ in range(12):
            cur = out.copy()
            r = body_fn(cur)
            brk, cont = self.loops[-1]
            for c in cont: r = self.join(r, c)
            new = self.join(out, r)
            del cont[:]
            if self.same(new, out): break
            out = new
        brk, cont = self.loops.pop()
        for b in brk: out = self.join(out, b)
        del self.cd[saved_cd:]
        return out

    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        self.deref(it, n.iter, st, "iteration over")
        u = self.unordered(st, it)
        def body(s):
            el = self.elems(s, it, n)
            self.assign(n.target, el, s, n)
            return self.block(n.body, s)
        if u: self.uctx += 1
        self.cd.append(self.cd[-1] | it.deps)
        try: out = self.loop(st, body)
        finally:
            self.cd.pop()
            if u: self.uctx -= 1
        return self.block(n.orelse, out) if n.orelse else out

    def s_While(self, n, st):
        def body(s):
            v = self.ev(n.test, s)
            a = self.refine(s, n.test, True, v)
            if a is None: return None
            self.cd.append(self.cd[-1] | v.deps)
            try: return self.block(n.body, a)
            finally: self.cd.pop()
        inf = isinstance(n.test, ast.Constant) and n.test.value
        if inf:
            self.loops.append(([], []))
            out, res = st.copy(), None
            for _ in range(12):
                r = self.block(n.body, out.copy())
                brk, cont = self.loops[-1]
                for c in cont: r = self.join(r, c)
                del cont[:]
                new = self.join(out, r)
                if self.same(new, out): break
                out = new
            brk, _ = self.loops.pop()
            for b in brk: res = self.join(res, b)
            return res
        out = self.loop(st, body)
        v = self.ev(n.test, out)
        return self.refine(out, n.test, False, v)

    def s_Break(self, n, st):
        if self.loops: self.loops[-1][0].append(st)
        return None

    def s_Continue(self, n, st):
        if self.loops: self.loops[-1][1].append(st)
        return None

    def s_With(self, n, st):
        for it in n.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, st, n)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        if self.trystack is None: self.trystack = []
        self.trystack.append([])
        pre = st.copy()
        nr = len(self.rets)
        out = self.block(n.body, st)
        raised = self.trystack.pop()
        hs = self.join(pre, out)
        for r in raised: hs = self.join(hs, r)
        res = out
        if out is not None and n.orelse: res = self.block(n.orelse, out)
        for h in n.handlers:
            s = hs.copy()
            if h.name: self.setvar(s, h.name, SC)
            res = self.join(res, self.block(h.body, s))
        if n.finalbody:
            if res is not None: res = self.block(n.finalbody, res)
            else: self.block(n.finalbody, hs.copy())
        return res

    def s_Match(self, n, st):
        self.ev(n.subject, st)
        res = st.copy()
        for c in n.cases:
            s = st.copy()
            for m in ast.walk(c.pattern):
                nm = getattr(m, "name", None)
                if nm: self.setvar(s, nm, TOP)
            res = self.join(res, self.block(c.body, s))
        return res

    # ------------------------------------------------------------------ branch refinement
    def refine(self, st, test, truth, v=None):
        """state in which `test` evaluates to `truth`; None when impossible"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(st, test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            if is_and == truth:
                s = st
                for x in test.values:
                    s = self.refine(s, x, truth)
                    if s is None: return None
                return s
            res, cur = None, st
            for x in test.values:
                r = self.refine(cur, x, truth)
                res = self.join(res, r) if r is not None else res
                cur = self.refine(cur, x, not truth)
                if cur is None: break
            return res
        if v is None:
            nev, nrd = dict(self.events), set(self.reads)
            v = self.ev(test, st)
            self.events, self.reads = nev, nrd
        cs = v.consts()
        if cs is not None:
            if all(bool(c) != truth for c in cs): return None
        if isinstance(test, ast.NamedExpr):
            return self.narrow_val(st.copy(), test.target, lambda a: self.truthy(a, truth, st))
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(r, ast.Constant) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == truth
                c = ("c", r.value)
                def keep(a):
                    if eq:
                        if a[0] == "c": return a == c
                        if r.value is None: return a[0] in "t"     # only unknown values may be None
                        return True
                    return a != c
                s = self.narrow_val(st.copy(), l, keep, allow_empty=False)
                if eq and r.value is None and s is not None:
                    # an unknown object may be None: then it is None in this branch
                    cur = self.peek(s, l)
                    if cur is not None and not cur.atoms: self.poke(s, l, AV({NONE}, self.peek(st, l).deps))
                return s
            return st.copy()
        if isinstance(test, ast.Call) and dotted(test.func) == "isinstance" and len(test.args) == 2:
            return self.refine_isinstance(st.copy(), test.args[0], test.args[1], truth)
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self.narrow_val(st.copy(), test, lambda a: self.truthy(a, truth, st))
        return st.copy()

    def truthy(self, a, truth, st):
        if a[0] == "c": return bool(a[1]) == truth
        if truth: return True
        return a[0] in ("o", "s", "t")

    def peek(self, st, e):
        if isinstance(e, ast.Name): return self.getvar(st, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = self.getvar(st, e.value.id)
            if o is not None and len(o.atoms) == 1 and o.locs():
                return st.heap.get((o.locs()[0], e.attr))
        return None

    def poke(self, st, e, v):
        if isinstance(e, ast.Name): self.setvar(st, e.id, v)
        elif isinstance(e, ast.Attribute):
            o = self.getvar(st, e.value.id)
            st.heap[(o.locs()[0], e.attr)] = v

    def narrow_val(self, st, e, keep, allow_empty=True):
        v = self.peek(st, e)
        if v is None: return st
        at = frozenset(a for a in v.atoms if keep(a))
        if not at and allow_empty and v.atoms and all(a[0] == "c" for a in v.atoms): return None
        if not at and allow_empty: return st
        self.poke(st, e, AV(at, v.deps))
        return st

    def refine_isinstance(self, st, e, cls, truth):
        v = self.peek(st, e)
        if v is None: return st
        ts = self.isinst_types(cls, st)
        if ts is None: return st
        at = set()
        for a in v.atoms:
            if a[0] == "o":
                cur = self.types(st, a[1])
                known = cur and "any" not in cur
                if truth:
                    if known:
                        k = frozenset(t for t in cur if self.sub(t, ts))
                        if not k:
                            if all(isinstance(t, ClassInfo) or t in ("dict", "list", "set", "df", "graph", "nd", "num", "str") for t in cur): continue
                            at.add(a); continue
                        st.narrow[a[1]] = k | (cur & {"U"})
                    else:
                        n = frozenset(x for t in ts for x in ([t] if not isinstance(t, ClassInfo) else self.eng.concrete(t)))
                        if n: st.narrow[a[1]] = n
                    at.add(a)
                else:
                    if known:
                        k = frozenset(t for t in cur if not self.sub(t, ts))
                        if not (k - {"U"}): continue
                        st.narrow[a[1]] = k
                    at.add(a)
            elif a[0] == "c":
                py = type(a[1]).__name__
                m = ("str" if isinstance(a[1], str) else py) in ts or py in ts
                if m == truth or (a[1] is not None and "num" in ts): at.add(a)
            else: at.add(a)
        if not at: return None
        self.poke(st, e, AV(at, v.deps))
        return st

    def isinst_types(self, cls, st):
        es = cls.elts if isinstance(cls, ast.Tuple) else [cls]
        out = set()
        for e in es:
            r = self.w.resolve_dotted(self.mod, e, None)
            if isinstance(e, ast.Name) and e.id in self.localimports: r = self.localimports[e.id]
            if r and r[0] == "class": out.add(r[1])
            elif r and r[0] == "ext":
                nm = r[1].split(".")[-1]
                t = L.ISINST.get(nm)
                if t is None: return None
                out |= set(t)
            else: return None
        return out

    def sub(self, t, ts):
        if isinstance(t, ClassInfo): return any(isinstance(x, ClassInfo) and x in t.mro() for x in ts)
        return t in ts

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st) -> AV:
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            deps = E
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr): deps |= self.ev(c, st).deps
            return SC.dep(deps)
        return m(n, st)

    def e_Constant(self, n, st): return const(n.value) if not isinstance(n.value, (bytes, complex, type(Ellipsis))) else SC

    def e_Name(self, n, st): return self.lookup(st, n.id, n)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Tuple(self, n, st): return self.seq(n, st, {"tuple"})
    def e_List(self, n, st): return self.seq(n, st, {"list"})
    def e_Set(self, n, st): return self.seq(n, st, {"set", "U"} if len(n.elts) > 1 else {"set"})

    def seq(self, n, st, types):
        loc = self.alloc(st, n, "lit", types)
        deps = E
        for k in [k for k in st.heap if k[0] == loc and k[1] != "$t"]: del st.heap[k]
        st.heap[(loc, "[]")] = BOT
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                self.deref(v, e, st, "unpacking")
                el = self.elems(st, v, n)
                st.heap[(loc, "[]")] = st.heap[(loc, "[]")] | el
                deps |= v.deps
                if self.unordered(st, v): st.heap[(loc, "$t")] |= {"U"}
            else:
                v = self.ev(e, st)
                deps |= v.deps
                if "tuple" in types or "list" in types: st.heap[(loc, f"t:{i}")] = v
                else: st.heap[(loc, "[]")] = st.heap[(loc, "[]")] | v
        return AV({("o", loc)}, deps)

    def e_Dict(self, n, st):
        loc = self.alloc(st, n, "lit", {"dict"})
        deps = E
        for k in [k for k in st.heap if k[0] == loc and k[1] != "$t"]: del st.heap[k]
        st.heap[(loc, "[]")] = BOT
        for k, v in zip(n.keys, n.values):
            x = self.ev(v, st)
            deps |= x.deps
            if k is None:
                self.deref(x, v, st, "unpacking")
                self.dictmerge(st, loc, x, n)
            else:
                kv = self.ev(k, st)
                deps |= kv.deps
                c = kv.consts()
                if c and len(c) == 1 and isinstance(c[0], (str, int)): st.heap[(loc, "k:" + repr(c[0]))] = x
                else: st.heap[(loc, "[]")] = st.heap[(loc, "[]")] | x.dep(kv.deps)
        return AV({("o", loc)}, deps)

    def dictmerge(self, st, loc, x, node):
        for l in x.locs():
            if "U" in self.types(st, l): st.heap[(loc, "$t")] = st.heap.get((loc, "$t"), E) | {"U"}
            if is_ext(l): st.heap[(loc, "[]")] = st.heap.get((loc, "[]"), BOT) | self.load(st, l, "[]", node)
            for (y, f), v in list(st.heap.items()):
                if y == l and (f == "[]" or f.startswith("k:")):
                    st.heap[(loc, f)] = st.heap.get((loc, f), BOT) | v
        if any(a[0] in "ts" for a in x.atoms): st.heap[(loc, "[]")] = st.heap.get((loc, "[]"), BOT) | TOP

    def comp(self, n, st, types, val):
        saved = dict(st.env)
        capsaved = {}
        tgt = set()
        for g in n.generators:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name): tgt.add(m.id)
        oldlocals, oldcap = self.locals, self.cap
        self.locals = self.locals | tgt
        u = False
        deps = E
        ncd = len(self.cd)
        for g in n.generators:
            it = self.ev(g.iter, st)
            self.deref(it, g.iter, st, "iteration over")
            deps |= it.deps
            if self.unordered(st, it): u = True
            self.assign(g.target, self.elems(st, it, n), st, n)
            self.cd.append(self.cd[-1] | it.deps)
            for c in g.ifs:
                cv = self.ev(c, st)
                deps |= cv.deps
                r = self.refine(st, c, True, cv)
                if r is not None:
                    st.env, st.narrow = r.env, r.narrow
                    st.heap = r.heap
        if u: self.uctx += 1
        v = val()
        # second evaluation lets loop-carried heap effects settle
        v = v | val()
        if u: self.uctx -= 1
        del self.cd[ncd:]
        self.locals = oldlocals
        st.env = {k: x for k, x in st.env.items() if k in saved or k not in tgt}
        for k in tgt:
            if k in saved: st.env[k] = saved[k]
        return v, u, deps

    def e_ListComp(self, n, st):
        v, u, deps = self.comp(n, st, None, lambda: self.ev(n.elt, st))
        return self.fresh(st, n, "comp", {"list"} | ({"U"} if u else set()), v, deps)

    def e_SetComp(self, n, st):
        v, u, deps = self.comp(n, st, None, lambda: self.ev(n.elt, st))
        return self.fresh(st, n, "comp", {"set", "U"}, v, deps)

    def e_GeneratorExp(self, n, st):
        v, u, deps = self.comp(n, st, None, lambda: self.ev(n.elt, st))
        return self.fresh(st, n, "comp", {"iter"} | ({"U"} if u else set()), v, deps)

    def e_DictComp(self, n, st):
        def val():
            k = self.ev(n.key, st)
            return self.ev(n.value, st).dep(k.deps)
        v, u, deps = self.comp(n, st, None, val)
        return self.fresh(st, n, "comp", {"dict"} | ({"U"} if u else set()), v, deps)

    def e_Lambda(self, n, st): return self.closure(n, st)

    def e_IfExp(self, n, st):
        v = self.ev(n.test, st)
        a = self.refine(st, n.test, True, v)
        b = self.refine(st, n.test, False, v)
        self.cd.append(self.cd[-1] | v.deps)
        ra = self.ev(n.body, a) if a is not None else BOT
        rb = self.ev(n.orelse, b) if b is not None else BOT
        self.cd.pop()
        j = self.join(a, b)
        if j is not None: st.env, st.heap, st.mw = j.env, j.heap, j.mw
        return (ra | rb).dep(v.deps)

    def e_BoolOp(self, n, st):
        is_or = isinstance(n.op, ast.Or)
        out, deps = BOT, E
        cur = st
        for i, x in enumerate(n.values):
            v = self.ev(x, cur)
            deps |= v.deps
            last = i == len(n.values) - 1
            if last: out = out | v; break
            # values that stop the evaluation here
            stop = frozenset(a for a in v.atoms if self.truthy(a, is_or, st))
            out = out | AV(stop, v.deps)
            go = [a for a in v.atoms if self.truthy(a, not is_or, st)]
            if not go: break
            nxt = self.refine(cur, x, not is_or, v)
            if nxt is None: nxt = cur.copy()
            cur = nxt
        if cur is not st:
            j = self.join(st, cur)
            st.heap, st.mw = j.heap, j.mw
            for k, v in j.env.items():
                st.env.setdefault(k, v)
        return out.dep(deps)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        c = v.consts()
        if isinstance(n.op, ast.Not):
            if c is not None: return AV({("c", not x) for x in c}, v.deps)
            return SC.dep(v.deps)
        if c and len(c) == 1 and isinstance(n.op, ast.USub) and isinstance(c[0], (int, float)): return AV({("c", -c[0])}, v.deps)
        return self.arr(st, n, [v])

    def arr(self, st, node, vs):
        """result of elementwise arithmetic: fresh array when an operand may be one"""
        deps = E
        ts = set()
        for v in vs:
            deps |= v.deps
            for l in v.locs(): ts |= self.types(st, l)
        if ts & {"nd"}: return self.fresh(st, node, "arr", {"nd"}, SC, deps)
        if ts & {"df", "series"}: return self.fresh(st, node, "arr", {"series"}, SC, deps)
        if any(v.locs() for v in vs) or any(T in v.atoms for v in vs): return AV({T, S}, deps)
        return SC.dep(deps)

    def e_BinOp(self, n, st):
        l, r = self.ev(n.left, st), self.ev(n.right, st)
        return self.binop(n, l, n.op, r, st)

    def binop(self, n, l, op, r, st):
        out, deps = BOT, l.deps | r.deps
        rest = False
        name = L.BINOPS.get(type(op).__name__)
        lt = set()
        for x in l.locs():
            for t in self.types(st, x): lt.add(t)
        rt = set()
        for x in r.locs(): rt |= self.types(st, x)
        alts = []
        for x in sorted(l.locs(), key=repr):
            for t in sorted(self.types(st, x), key=repr):
                if isinstance(t, ClassInfo) and name:
                    k, f, _ = t.lookup(name)
                    if k == "method":
                        alts.append(lambda st, f=f, x=x, t=t:
                                    self.call_fn(f, [AV({("o", x)}, l.deps), r], {}, st, n, recv=x, rtype=t))
        if alts: return self.alternatives(alts, st).dep(deps)
        if isinstance(op, ast.Mod) and l.consts() and isinstance(l.consts()[0], str): return SC.dep(deps)
        if isinstance(op, ast.Add) and (lt & {"list", "tuple"} or rt & {"list", "tuple"}):
            u = {"U"} if "U" in lt | rt else set()
            el = self.elems(st, l, n) | self.elems(st, r, n)
            return self.fresh(st, n, "cat", {"list" if "list" in lt | rt else "tuple"} | u, el, deps)
        if isinstance(op, ast.Mult) and (lt & {"list", "tuple"}):
            return self.fresh(st, n, "rep", set(lt), self.elems(st, l, n), deps)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (lt & {"set", "dictview"} or rt & {"set", "dictview"}):
            return self.fresh(st, n, "setop", {"set", "U"}, self.elems(st, l, n) | self.elems(st, r, n), deps)
        if isinstance(op, ast.BitOr) and lt & {"dict"}:
            v = self.fresh(st, n, "dictor", {"dict"}, BOT, deps)
            self.dictmerge(st, v.locs()[0], l, n); self.dictmerge(st, v.locs()[0], r, n)
            return v
        if name and not (lt - {"any"}) and l.locs():
            # unknown left operand: the operator may be one of ours
            pass
        return self.arr(st, n, [l, r])

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        rs = [self.ev(c, st) for c in n.comparators]
        deps = l.deps
        for r in rs: deps |= r.deps
        for op, r, c in zip(n.ops, rs, n.comparators):
            if isinstance(op, (ast.In, ast.NotIn)): self.deref(r, c, st, "membership test in")
            # membership reads the container
            if isinstance(op, (ast.In, ast.NotIn)):
                for x in r.locs():
                    if is_ext(x) and (x, "[]") not in st.mw: self.reads.add((x, "[]"))
        if len(rs) == 1:
            a, b = l.consts(), rs[0].consts()
            op = n.ops[0]
            if a and b and len(a) == 1 and len(b) == 1:
                x, y = a[0], b[0]
                try:
                    if isinstance(op, ast.Is): return AV({("c", x is y or (x == y and type(x) == type(y)))}, deps)
                    if isinstance(op, ast.IsNot): return AV({("c", not (x is y or (x == y and type(x) == type(y))))}, deps)
                    if isinstance(op, ast.Eq): return AV({("c", x == y)}, deps)
                    if isinstance(op, ast.NotEq): return AV({("c", x != y)}, deps)
                except Exception: pass
            if b and len(b) == 1 and b[0] is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if l.atoms and not any(x == NONE or x[0] == "t" for x in l.atoms) and all(x[0] != "o" or not is_ext(x[1]) for x in l.atoms) \
                        and all(x[0] in ("o", "f", "cls", "x") for x in l.atoms):
                    return AV({("c", isinstance(op, (ast.IsNot, ast.NotEq)))}, deps)
            if a and len(a) == 1 and isinstance(op, (ast.In, ast.NotIn)) and len(rs[0].atoms) == 1 and rs[0].locs():
                x = rs[0].locs()[0]
                has = self.haskey(st, x, a[0])
                if has is not None: return AV({("c", has == isinstance(op, ast.In))}, deps)
        return SC.dep(deps)

    def haskey(self, st, loc, key):
        f = "k:" + repr(key)
        if (loc, f) in st.heap: return True
        for t in self.types(st, loc):
            if isinstance(t, tuple) and t[0] == "kw":
                if repr(key) in t[1]: return True
                b = st.heap.get((loc, "[]"))
                if b is None or not b.atoms: return False
        return None

    def e_JoinedStr(self, n, st):
        deps = E
        for v in n.values:
            if isinstance(v, ast.FormattedValue): deps |= self.ev(v.value, st).deps
        return SC.dep(deps)

    def e_Starred(self, n, st): return self.ev(n.value, st)

    def e_Await(self, n, st): return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is not None:
            v = self.ev(n.value, st)
            self.yields = self.yields | v
        if self.uctx: self.gen_unordered = True
        return SC

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        self.yields = self.yields | self.elems(st, v, n)
        return SC

    def e_Slice(self, n, st):
        deps = E
        for x in (n.lower, n.upper, n.step):
            if x is not None: deps |= self.ev(x, st).deps
        return AV({("slice",)}, deps)

    def deref(self, v, node, st, what):
        if v.only_none():
            self.event("none", None, None, node, f"{what} {_src(node)}")
            raise Dead()

    # attributes --------------------------------------------------------------
    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        self.deref(o, n, st, f"attribute .{n.attr} of")
        return self.getattr(st, o, n.attr, n)

    def getattr(self, st, o, attr, n):
        if len(o.atoms) > 1 and any(a[0] == "o" for a in o.atoms):
            return self.alternatives([lambda st, a=a: self.getattr(st, AV({a}, o.deps), attr, n)
                                      for a in sorted(o.atoms, key=repr)], st)
        out = BOT
        for a in sorted(o.atoms, key=repr):
            k = a[0]
            if k == "mod":
                r = self.w.attr_of_module(a[1], attr)
                out = out | self.from_res(r)
            elif k == "x":
                out = out | AV({("x", a[1] + "." + attr)})
            elif k == "cls":
                out = out | self.class_attr(a[1], attr, a[1], None, st, n)
            elif k == "o":
                out = out | self.obj_attr(st, a[1], attr, n).dep(o.deps if a[1][0] != "P" else E)
            elif k == "sup":
                mro = a[2].mro()
                nxt = mro[mro.index(a[1]) + 1:] if a[1] in mro else []
                for c in nxt:
                    if attr in c.methods:
                        f = c.methods[attr]
                        if f.is_property: out = out | self.call_fn(f, [AV({("o", a[3])})], {}, st, n, recv=a[3], rtype=a[2])
                        elif f.is_static: out = out | AV({("f", f)})
                        else: out = out | AV({("m", f, a[3], a[2])})
                        break
                else: out = out | AV({("x", "object." + attr)})
            elif k == "t":
                out = out | TOP
            elif k in ("f", "m"):
                if (("G", a[1].qual + "()." + attr), "$value") in st.heap: out = out | st.heap[(("G", a[1].qual + "()." + attr), "$value")]
                else:
                    if not attr.startswith("__"): self.reads.add((("G", a[1].qual + "()." + attr), "$value"))
                    out = out | SC
            else:
                out = out | SC
        return out.dep(o.deps) if not out.deps else out

    def class_attr(self, c, attr, exact, loc, st, n):
        gl = ("G", c.qual + "." + attr)
        k, v, owner = c.lookup(attr)
        if k == "method":
            if v.is_property and loc is not None:
                return self.call_fn(v, [AV({("o", loc)})], {}, st, n, recv=loc, rtype=exact)
            if v.is_static: return AV({("f", v)})
            if v.is_classmethod: return AV({("m", v, ("CLS", exact), exact)})
            if loc is not None: return AV({("m", v, loc, exact)})
            return AV({("f", v)})
        if k == "attr":
            gl = ("G", owner.qual + "." + attr)
            if (gl, "$value") in st.heap: return st.heap[(gl, "$value")]
            self.reads.add((gl, "$value"))
            if isinstance(v, ast.Constant): return AV({("c", v.value), S} if self.reassigned(owner, attr) else {("c", v.value)}, {("G", gl[1])})
            if isinstance(v, (ast.Name, ast.Attribute)):
                r = self.w.resolve_dotted(owner.module, v, owner.body_imports)
                if r: return self.from_res(r)
            return AV({("o", gl)}, {("G", gl[1])})
        if k == "import":
            return self.from_res(self.w.resolve_binding(owner.module, v))
        if attr == "__name__" or attr == "__class__": return SC
        return BOT

    def reassigned(self, owner, attr):
        key = ("reas", owner, attr)
        c = self.eng.captured_cache.get(key)
        if c is None:
            c = any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store)
                    for m in self.w.modules.values() for x in ast.walk(m.tree))
            self.eng.captured_cache[key] = c
        return c

    def obj_attr(self, st, loc, attr, n):
        k = (loc, attr)
        if attr == "__class__":
            ts = self.types(st, loc)
            cl = [t for t in ts if isinstance(t, ClassInfo)]
            return AV({("cls", t) for t in cl}) if cl and len(cl) == len(ts) else AV({T})
        if k in st.heap: return self.load(st, loc, attr, n)
        ts = self.types(st, loc)
        cls = sorted([t for t in ts if isinstance(t, ClassInfo)], key=lambda c: c.qual)
        alts = []
        for c in cls:
            def alt(st, c=c):
                if c.lookup(attr)[0]: return self.class_attr(c, attr, c, loc, st, n)
                # instance field
                return self.load(st, loc, attr, n) if is_ext(loc) else st.heap.get(k, BOT)
            alts.append(alt)
        out = self.alternatives(alts, st)
        lib = [t for t in ts if not isinstance(t, ClassInfo)]
        if not cls or any(t == "any" for t in lib):
            out = out | self.lib_attr(st, loc, frozenset(lib), attr, n)
        elif lib and [t for t in lib if t not in ("U", "num", "func")]:
            out = out | self.lib_attr(st, loc, frozenset(lib), attr, n)
        return out

    def lib_attr(self, st, loc, ts, attr, n):
        me = AV({("o", loc)})
        if "graph" in ts:
            if attr in ("nodes", "adj", "pred", "succ", "_adj", "_node", "_pred", "_succ", "graph"):
                return me
            if attr in ("edges", "in_edges", "out_edges"):
                return self.fresh(st, n, "edges", {"edgeview"}, None)
        if ts & {"nd"}:
            if attr in ("T", "flat", "real", "base"): return me
            if attr in ("shape", "size", "ndim", "dtype"): return SC
        if ts & {"df", "series"}:
            if attr in ("loc", "iloc", "at", "iat", "T", "values"): return AV({("o", loc)})
            if attr in ("columns", "index", "shape", "size", "dtypes", "empty"): return self.fresh(st, n, "cols", {"index"}, SC)
        if not ts or ts <= {"any", "num", "func"}:
            # unknown object: attribute of a caller-owned thing is itself caller-owned
            if attr in ("shape", "ndim", "dtype", "__name__", "__class__", "columns", "edges"): return SC
            if attr in ("T", "loc", "iloc", "at", "iat", "flat"): return me
            if is_ext(loc): return self.load(st, loc, attr, n)
            return st.heap.get((loc, attr), AV({T}))
        if is_ext(loc): return self.load(st, loc, attr, n)
        return st.heap.get((loc, attr), AV({T, S}))

    # subscripts ----------------------------------------------------------------
    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        self.deref(o, n, st, "item of")
        return self.subscript(st, o, i, n, n.slice)

    def subscript(self, st, o, i, n, inode=None):
        out = BOT
        deps = o.deps | i.deps
        isl = ("slice",) in i.atoms
        itypes = set()
        for x in i.locs(): itypes |= self.types(st, x)
        c = i.consts()
        for a in o.atoms:
            if a[0] == "o":
                l = a[1]
                ts = self.types(st, l)
                cl = [t for t in ts if isinstance(t, ClassInfo)]
                hit = False
                for t in cl:
                    k, f, _ = t.lookup("__getitem__")
                    if k == "method":
                        out = out | self.call_fn(f, [AV({a}), i], {}, st, n, recv=l, rtype=t); hit = True
                if hit: continue
                if "nd" in ts:
                    if itypes & {"list", "nd"} and not isl: out = out | self.fresh(st, n, "fancy", {"nd"}, SC)
                    else: out = out | AV({a, S})
                    continue
                if ts & {"df", "series"}:
                    if itypes & {"list", "nd", "series", "tuple", "index", "set"}: out = out | self.fresh(st, n, "dfsel", {"df", "series"}, SC)
                    elif isl: out = out | self.fresh(st, n, "dfsel", {"df", "series"}, SC)
                    else: out = out | AV({a, S})
                    continue
                if "graph" in ts: out = out | AV({a, S}); continue
                if isl:
                    if ts & {"list", "tuple", "iter", "gen"} or not ts:
                        u = {"U"} if "U" in ts else set()
                        kind = {"list"} if not ts & {"tuple"} else {"tuple"}
                        if not ts or "any" in ts:
                            # an unknown sliceable: list copy or array view
                            out = out | AV({a}) if is_ext(l) and not ts & {"list", "tuple"} else out
                        out = out | self.fresh(st, n, "slice", kind | u, self.elems(st, AV({a}), n))
                    else: out = out | self.fresh(st, n, "slice", set(ts), self.elems(st, AV({a}), n))
                    continue
                if c and len(c) == 1 and isinstance(c[0], (str, int)) and not isinstance(c[0], bool):
                    f = ("t:%d" % c[0]) if isinstance(c[0], int) and (l, f"t:{c[0]}") in st.heap else "k:" + repr(c[0])
                    if (l, f) in st.heap: out = out | self.load(st, l, f, n); continue
                    kwt = [t for t in ts if isinstance(t, tuple) and t[0] == "kw"]
                    if kwt and any(repr(c[0]) in t[1] for t in kwt):
                        out = out | self.load(st, l, f, n); continue
                got = self.dictvals(st, AV({a}), n) if "dict" in ts else self.load(st, l, "[]", n)
                for (x, f), v in list(st.heap.items()):
                    if x == l and (f.startswith("t:") or f.startswith("k:")): got = got | v
                out = out | got
                if "U" in ts and "list" in ts: pass
            elif a[0] == "x": out = out | TOP      # typing subscripts etc.
            elif a[0] in ("t",): out = out | TOP
            else: out = out | SC
        if not out.atoms: out = SC
        return out.dep(deps)

    def item(self, st, v, i, node):
        """i-th element for unpacking"""
        out = BOT
        for a in v.atoms:
            if a[0] == "o":
                l = a[1]
                if (l, f"t:{i}") in st.heap: out = out | st.heap[(l, f"t:{i}")]
                else: out = out | self.elems(st, AV({a}), node)
            elif a[0] == "t": out = out | TOP
            else: out = out | SC
        return out.dep(v.deps)

    # ------------------------------------------------------------------ calls
    def args(self, n, st):
        pos, kw, star, dstar = [], {}, None, []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                self.deref(v, x, st, "unpacking")
                star = (star or []) + [(len(pos), v)]
                pos.append(("*", v))
            else: pos.append(self.ev(x, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                self.deref(v, k.value, st, "unpacking")
                dstar.append(v)
            else: kw[k.arg] = v
        return pos, kw, dstar

    def e_Call(self, n, st):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            return self.do_super(n, st)
        # library method calls need the receiver
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st)
            self.deref(o, f, st, f"attribute .{f.attr} of")
            pos, kw, ds = self.args(n, st)
            alts = []
            for a in sorted(o.atoms, key=repr):
                def alt(st, a=a):
                    if a[0] == "o": return self.method_call(st, o, a[1], f.attr, pos, kw, ds, n)
                    if a[0] in ("t", "s", "c", "slice"): return L.scalar_method(self, st, a, f.attr, pos, kw, n)
                    fv = self.getattr(st, AV({a}, o.deps), f.attr, f)
                    return self.apply(fv, pos, kw, ds, n, st)
                alts.append(alt)
            return self.alternatives(alts, st)
        fv = self.ev(f, st)
        self.deref(fv, f, st, "call of")
        pos, kw, ds = self.args(n, st)
        return self.apply(fv, pos, kw, ds, n, st)

    def do_super(self, n, st):
        fi = self.fi
        while fi.cls is None and fi.parent is not None: fi = fi.parent
        owner = fi.cls
        out = set()
        if n.args:
            a0 = self.ev(n.args[0], st)
            me = self.ev(n.args[1], st)
            owners = [a[1] for a in a0.atoms if a[0] == "cls"] or [owner]
        else:
            nm = self.fi.params[0] if self.fi.params else "self"
            me = self.lookup(st, nm, n)
            owners = [owner]
        for a in me.atoms:
            if a[0] == "o":
                ts = [t for t in self.types(st, a[1]) if isinstance(t, ClassInfo)] or [owner]
                for t in ts:
                    for ow in owners:
                        if ow in t.mro(): out.add(("sup", ow, t, a[1]))
            elif a[0] == "cls":
                for ow in owners:
                    if ow in a[1].mro(): out.add(("sup", ow, a[1], ("CLS", a[1])))
        return AV(out, me.deps)

    def alternatives(self, alts, st):
        """several possible callees: each runs on its own copy of the state, the survivors are joined"""
        if not alts: return BOT
        if len(alts) == 1: return alts[0](st)
        out, states = BOT, []
        for f in alts:
            s2 = st.copy()
            try: out = out | f(s2)
            except Dead: continue
            states.append(s2)
        if not states: raise Dead()
        j = states[0]
        for x in states[1:]: j = self.join(j, x)
        st.env, st.heap, st.mw, st.narrow = j.env, j.heap, j.mw, j.narrow
        return out

    def method_call(self, st, o, loc, name, pos, kw, ds, n):
        # stored callable field
        me = AV({("o", loc)}, o.deps)
        if (loc, name) in st.heap and (loc, name) != "$t":
            fv = self.load(st, loc, name, n)
            if fv.atoms: return self.apply(fv, pos, kw, ds, n, st)
        ts = self.types(st, loc)
        cls = [t for t in ts if isinstance(t, ClassInfo)]
        alts = []
        for c in sorted(cls, key=lambda c: c.qual):
            k, f, owner = c.lookup(name)
            if k == "method":
                if f.is_abstract and len(cls) > 1: continue
                def alt(st, c=c, f=f):
                    if f.is_property:
                        fv = self.call_fn(f, [me], {}, st, n, recv=loc, rtype=c)
                        return self.apply(fv, pos, kw, ds, n, st)
                    if f.is_static: return self.call_fn(f, pos, kw, st, n, ds=ds)
                    if f.is_classmethod: return self.call_fn(f, [AV({("cls", c)})] + pos, kw, st, n, ds=ds)
                    return self.call_fn(f, [me] + pos, kw, st, n, recv=loc, rtype=c, ds=ds)
            elif k in ("attr", "import"):
                def alt(st, c=c):
                    return self.apply(self.class_attr(c, name, c, loc, st, n), pos, kw, ds, n, st)
            else:
                def alt(st):
                    # callable stored in an instance field
                    fv = self.load(st, loc, name, n) if is_ext(loc) else st.heap.get((loc, name), BOT)
                    return self.apply(fv, pos, kw, ds, n, st)
            alts.append(alt)
        lib = frozenset(t for t in ts if not isinstance(t, ClassInfo))
        if cls and not (lib - {"U", "num", "func"}): return self.alternatives(alts, st)
        libt = lib - {"any"}
        if not cls and not libt:
            # unknown receiver: one of our classes, or a library object
            seen = set()
            for f in [f for f in self.w.methods_by_name.get(name, []) if not f.is_abstract]:
                if f in seen or f.is_property: continue
                seen.add(f)
                for c in sorted(self.eng.concrete(f.cls), key=lambda c: c.qual):
                    if c.lookup(name)[1] is not f: continue
                    def alt(st, c=c, f=f):
                        sub = st.narrow.get(loc)
                        st.narrow[loc] = frozenset({c})
                        try:
                            if f.is_static: return self.call_fn(f, pos, kw, st, n, ds=ds)
                            return self.call_fn(f, [me] + pos, kw, st, n, recv=loc, rtype=c, ds=ds)
                        finally:
                            if sub is None: st.narrow.pop(loc, None)
                            else: st.narrow[loc] = sub
                    alts.append(alt)
                    break
            if seen and name not in L.LIBNAMES: return self.alternatives(alts, st)
        alts.append(lambda st: L.method(self, st, loc, ts, name, pos, kw, ds, n, o))
        return self.alternatives(alts, st)

    def apply(self, fv, pos, kw, ds, n, st):
        alts = []
        for a in sorted(fv.atoms, key=repr):
            k = a[0]
            def alt(st, a=a, k=k):
                if k == "f": return self.call_fn(a[1], pos, kw, st, n, ds=ds)
                if k == "m":
                    me = AV({("cls", a[2][1])}) if a[2][0] == "CLS" else AV({("o", a[2])})
                    return self.call_fn(a[1], [me] + list(pos), kw, st, n, recv=a[2], rtype=a[3], ds=ds)
                if k == "cls": return self.construct(a[1], pos, kw, ds, n, st)
                if k == "x": return L.call(self, st, a[1], pos, kw, ds, n)
                if k == "xm": return L.call_xm(self, st, a, pos, kw, ds, n)
                if k == "delayed":
                    self.worker += 1
                    try: return self.apply(AV({a[1]}), pos, kw, ds, n, st)
                    finally: self.worker -= 1
                if k == "partial":
                    p2 = list(a[2]) + list(pos)
                    k2 = dict(a[3]); k2.update(kw)
                    return self.apply(AV({a[1]}), p2, k2, ds, n, st)
                if k == "t": return L.unknown_call(self, st, a, pos, kw, n)
                if k == "sup": return SC
                return AV({T})
            if k == "o":
                ts = self.types(st, a[1])
                done = False
                for t in sorted(ts, key=repr):
                    if isinstance(t, tuple) and t[0] == "fn":
                        done = True
                        alts.append(lambda st, t=t, a=a: self.call_fn(t[1], pos, kw, st, n, ds=ds, closure=a[1]))
                    elif isinstance(t, tuple) and t[0] == "bm":
                        done = True
                        def bm(st, t=t, a=a):
                            sv = self.load(st, a[1], "$self", n)
                            r = [x[1] for x in sv.atoms if x[0] == "o"]
                            return self.call_fn(t[1], [sv] + list(pos), kw, st, n, recv=r[0] if r else None, rtype=t[2], ds=ds)
                        alts.append(bm)
                    elif isinstance(t, ClassInfo):
                        kk, f, _ = t.lookup("__call__")
                        if kk == "method":
                            done = True
                            alts.append(lambda st, t=t, f=f, a=a:
                                        self.call_fn(f, [AV({a})] + list(pos), kw, st, n, recv=a[1], rtype=t, ds=ds))
                if not done:
                    # fields holding builder closures of a known class
                    b = self.field_closure(st, a[1])
                    for fi, selfloc in b:
                        alts.append(lambda st, fi=fi, a=a: self.call_fn(fi, pos, kw, st, n, ds=ds, closure=a[1]))
                    if not b: alts.append(lambda st, a=a: L.unknown_call(self, st, a, pos, kw, n))
            else: alts.append(alt)
        if not fv.atoms: return TOP
        return self.alternatives(alts, st).dep(fv.deps)

    def field_closure(self, st, loc):
        """functions a caller-owned field may hold, from what constructors store in it"""
        if loc[0] != "F": return []
        ts = self.types(st, loc[1])
        out = []
        for c in ts:
            if isinstance(c, ClassInfo):
                for k in c.mro():
                    for a in self.eng.fvals.get((k, loc[2]), ()):
                        if a is not None and a[0] == "fn": out.append((a[1], loc[1]))
        return out

    def construct(self, c, pos, kw, ds, n, st):
        loc = self.alloc(st, n, "new:" + c.name, {c})
        for k in [k for k in st.heap if k[0] == loc and k[1] != "$t"]: del st.heap[k]
        st.heap[(loc, "$t")] = frozenset({c})
        me = AV({("o", loc)})
        deps = E
        for p in pos: deps |= (p[1] if isinstance(p, tuple) else p).deps
        for v in kw.values(): deps |= v.deps
        k, f, owner = c.lookup("__init__")
        if k == "method":
            self.call_fn(f, [me] + list(pos), kw, st, n, recv=loc, rtype=c, ds=ds)
        return me.dep(deps)

    # summary instantiation ------------------------------------------------------
    def bind(self, fi, pos, kw, ds, st, node):
        """caller values for each parameter of fi"""
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        extra = []
        star = None
        i = 0
        for p in pos:
            if isinstance(p, tuple) and p[0] == "*":
                el = self.elems(st, p[1], node)
                # literal tuples of known length
                known = None
                ls = p[1].locs()
                if len(p[1].atoms) == 1 and ls and not is_ext(ls[0]):
                    ks = sorted([f for (x, f) in st.heap if x == ls[0] and f.startswith("t:")], key=lambda f: int(f[2:]))
                    b = st.heap.get((ls[0], "[]"))
                    if ks and (b is None or not b.atoms): known = [st.heap[(ls[0], f)] for f in ks]
                if known is not None:
                    for v in known:
                        if i < len(names): vals[names[i]] = v; i += 1
                        else: extra.append(v)
                    continue
                star = (star or BOT) | el
                if self.unordered(st, p[1]): extra.append(("U", el))
                else: extra.append(el)
                for nm in names[i:]:
                    if nm not in kw: vals[nm] = vals.get(nm, BOT) | el
                i = len(names)
                continue
            if i < len(names): vals[names[i]] = p; i += 1
            else: extra.append(p)
        kwextra = {}
        allk = set(names) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in allk: vals[k] = v
            else: kwextra[k] = v
        rest = BOT
        kwu = False
        closed = True
        for d in ds or []:
            for l in d.locs():
                ts = self.types(st, l)
                if "U" in ts: kwu = True
                ks = {f[2:]: v for (x, f), v in st.heap.items() if x == l and f.startswith("k:")}
                kwt = [t for t in ts if isinstance(t, tuple) and t[0] == "kw"]
                for t in kwt:
                    for q in t[1]:
                        if q not in ks: ks[q] = self.load(st, l, "k:" + q, node)
                for q, v in ks.items():
                    nm = ast.literal_eval(q)
                    if nm in allk: vals[nm] = vals.get(nm, BOT) | v if nm in vals and not kwt else v
                    else: kwextra[nm] = v
                if is_ext(l) and not kwt:
                    r = self.load(st, l, "[]", node); rest = rest | r; closed = False
                else:
                    r = st.heap.get((l, "[]"), BOT)
                    if r.atoms: rest = rest | r; closed = False
            if any(x[0] in "ts" for x in d.atoms): rest = rest | TOP; closed = False
        if rest.atoms:
            for nm in allk:
                if nm not in vals: vals[nm] = rest | AV({("default",)})
        return names, vals, extra, kwextra, rest, closed, kwu

    def call_fn(self, fi, pos, kw, st, node, recv=None, rtype=None, ds=None, closure=None):
        eng = self.eng
        eng.ncalls += 1
        a = fi.node.args
        names, vals, extra, kwextra, rest, closed, kwu = self.bind(fi, pos, kw, ds, st, node)
        if kwextra and not a.kwarg:
            self.event("typeerr", None, None, node, f"{fi.qual} takes no argument {sorted(map(str, kwextra))[0]}")
            raise Dead()
        if extra and not a.vararg and not any(isinstance(p, tuple) for p in pos):
            self.event("typeerr", None, None, node, f"{fi.qual} takes fewer arguments")
            raise Dead()
        pn = list(names)
        if a.vararg: pn.append(a.vararg.arg)
        pn += [p.arg for p in a.kwonlyargs]
        if a.kwarg: pn.append(a.kwarg.arg)
        defaults = {}
        allpos = a.posonlyargs + a.args
        for p, x in zip(allpos[len(allpos) - len(a.defaults):], a.defaults): defaults[p.arg] = x
        for p, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None: defaults[p.arg] = x
        # vararg / kwarg objects
        if a.vararg:
            loc = self.alloc(st, node, "varargs:" + fi.qual, {"tuple"})
            for k in [k for k in st.heap if k[0] == loc and k[1] != "$t"]: del st.heap[k]
            el, dp, u = BOT, E, False
            for j, v in enumerate(extra):
                if isinstance(v, tuple): u = True; v = v[1]
                el = el | v; dp |= v.deps
            st.heap[(loc, "[]")] = el
            st.heap[(loc, "$t")] = frozenset({"tuple"} | ({"U"} if u else set()))
            vals[a.vararg.arg] = AV({("o", loc)}, dp)
        if a.kwarg:
            kt = {("kw", frozenset(repr(k) for k in kwextra))} if closed else set()
            loc = self.alloc(st, node, "kwargs:" + fi.qual, {"dict"})
            for k in [k for k in st.heap if k[0] == loc and k[1] != "$t"]: del st.heap[k]
            dp = E
            for k, v in kwextra.items():
                st.heap[(loc, "k:" + repr(k))] = v; dp |= v.deps
            st.heap[(loc, "[]")] = rest
            st.heap[(loc, "$t")] = frozenset({"dict"} | kt | ({"U"} if kwu else set()))
            vals[a.kwarg.arg] = AV({("o", loc)}, dp | rest.deps)
        ctx, argv = [], []
        for i, nm in enumerate(pn):
            v = vals.get(nm)
            if v is None:
                if nm in defaults: v = self.default_value(nm, defaults[nm], fi)
                elif closed and not rest.atoms and not any(isinstance(p, tuple) for p in pos) and not (i == 0 and recv is not None):
                    self.event("typeerr", None, None, node, f"{fi.qual} misses its argument {nm}")
                    raise Dead()
                else: v = TOP
            elif ("default",) in v.atoms:
                v = AV(v.atoms - {("default",)}, v.deps)
                if nm in defaults: v = v | self.default_value(nm, defaults[nm], fi)
            # bound methods / closures given as arguments become objects
            at, types, obj, elem = set(), set(), False, set()
            nv = set()
            for x in v.atoms:
                if x[0] == "o":
                    obj = True
                    ts = self.types(st, x[1])
                    types |= ts or {"any"}
                    e = st.heap.get((x[1], "[]"))
                    if e is not None:
                        for y in e.locs(): elem |= self.types(st, y) or {"any"}
                    elif is_ext(x[1]):
                        t2 = self.types(st, fieldloc(x[1], "[]"))
                        elem |= t2
                    nv.add(x)
                elif x[0] == "c":
                    at.add(x if isinstance(x[1], (bool, type(None), str)) else S); nv.add(x)
                elif x[0] == "m" :
                    loc = self.alloc(st, node, "bm:" + x[1].qual, {("bm", x[1], x[3])})
                    st.heap[(loc, "$self")] = AV({("o", x[2])}) if x[2][0] != "CLS" else AV({("cls", x[2][1])})
                    nv.add(("o", loc)); obj = True; types |= {("bm", x[1], x[3])}
                elif x[0] in ("t",): at.add(x)
                elif x[0] in ("slice", "xm", "delayed", "partial", "sup"): at.add(T)
                else: at.add(x)
            if "any" in types and len(types) > 1 and not any(isinstance(t, ClassInfo) for t in types): pass
            if nm == (names[0] if names else None) and recv is not None and rtype is not None: types = {rtype}
            if not types or types == {"any"}:
                t, el = eng.param_types(fi, nm)
                if obj and t: types = set(t)
                if not elem: elem = set(el)
            elif types & {"list", "tuple", "iter", "set", "dict"} and (not elem or elem == {"any"}):
                t, el = eng.param_types(fi, nm)
                if el: elem = set(el)
            if len([x for x in at if x[0] == "c"]) > 4: at = {x for x in at if x[0] != "c"} | {S}
            if "any" in elem: elem = set()
            ctx.append((frozenset(types), frozenset(at), obj, frozenset(elem)))
            argv.append(AV(nv | {x for x in v.atoms if x[0] not in ("m",)}, v.deps))
        s = eng.analyse(fi, tuple(ctx))
        return self.instantiate(s, fi, argv, st, node, closure)

    def instantiate(self, s, fi, argv, st, node, closure=None):
        pre = st.heap
        cs = (self.fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        cache = {}
        frame = self
        pre_state = State(st.env, dict(pre), st.mw, st.narrow)

        def sloc(l):
            """atoms a callee location stands for in the caller"""
            if l in cache: return cache[l]
            cache[l] = ()
            k = l[0]
            if k == "P":
                if l[1] == "env":
                    if closure is None: r = ()
                    else:
                        e = frame.load(pre_state, closure, "$env", node)
                        r = tuple(x for x in e.atoms)
                else: r = tuple(argv[l[1]].atoms) if l[1] < len(argv) else ()
            elif k == "G": r = (("o", l),)
            elif k == "A":
                chain = (cs,) + l[2]
                r = (("o", ("A", l[1], chain[:2])),)
            elif k == "F":
                out = set()
                for b in sloc(l[1]):
                    if b[0] == "o":
                        f = l[2]
                        v = frame.load(pre_state, b[1], f, node)
                        if f == "[]":
                            # positional / keyed contents also count as elements
                            for (x, g), w in pre_state.heap.items():
                                if x == b[1] and (g.startswith("t:") or g.startswith("k:")): v = v | w
                        elif f.startswith("k:") or f.startswith("t:"):
                            v = v | pre_state.heap.get((b[1], "[]"), BOT)
                        out |= v.atoms
                    elif b[0] in ("t", "s", "c"): out.add(T)
                r = tuple(out)
            else: r = ()
            cache[l] = r
            return r

        dcache = {}
        def sdep(d):
            if d in dcache: return dcache[d]
            dcache[d] = E
            if d[0] == "P":
                if d[1] == "env":
                    r = set()
                    if closure is not None:
                        for x in sloc(("P", "env")):
                            if x[0] == "o":
                                for (l, f), v in pre_state.heap.items():
                                    if l == x[1] and isinstance(v, AV): r |= v.deps
                    r = frozenset(r)
                else: r = argv[d[1]].deps if d[1] < len(argv) else E
            elif d[0] == "O":
                r = set()
                if argv:
                    for x in argv[0].atoms:
                        if x[0] == "o": r |= frame.load(pre_state, x[1], d[1], node).deps
                        r |= argv[0].deps - {("P", 0)} if x[0] == "o" and x[1] != ("P", 0) else E
                r = frozenset(r)
            else: r = frozenset({d})
            dcache[d] = r
            return r

        def sav(v):
            at, dp = set(), set()
            for x in v.atoms:
                if x[0] == "o": at |= set(sloc(x[1]))
                elif x[0] == "m" and x[2][0] != "CLS":
                    for y in sloc(x[2]):
                        if y[0] == "o": at.add(("m", x[1], y[1], x[3]))
                elif x[0] == "sup": pass
                else: at.add(x)
            for d in v.deps: dp |= sdep(d)
            return AV(at, dp)

        # reads of initial state
        for (l, f) in s.reads:
            for x in sloc(l):
                if x[0] == "o" and is_ext(x[1]) and (x[1], f) not in pre_state.mw: self.reads.add((x[1], f))
        # writes
        upd = []
        for (l, f), v in s.heap.items():
            if f == "$t":
                for x in sloc(l):
                    if x[0] == "o" and not is_ext(x[1]): upd.append((x[1], f, v, False))
                continue
            nv = sav(v)
            tg = [x[1] for x in sloc(l) if x[0] == "o"]
            ext = is_ext(l)
            for t in tg:
                strong = ext and (l, f) in s.mw and len(tg) == 1 and len(sloc(l)) == 1
                upd.append((t, f, nv, strong if ext else "new"))
        for t, f, v, strong in upd:
            k = (t, f)
            if f == "$t": st.heap[k] = st.heap.get(k, E) | v; continue
            if strong is True:
                st.heap[k] = v.dep(self.cd[-1])
                if is_ext(t): st.mw = st.mw | {k}
            elif strong == "new":
                old = st.heap.get(k)
                st.heap[k] = v if old is None else old | v
            else:
                old = st.heap.get(k)
                if old is None: old = self.initial(pre_state, t, f) if is_ext(t) else BOT
                st.heap[k] = old | v.dep(self.cd[-1])
        # events
        for e in s.events.values():
            if e.kind == "write":
                for x in sloc(e.loc):
                    if x[0] == "o" and is_ext(x[1]) and root(x[1]) != ("P", "env"):
                        self.lift(e, x[1], node, sdep)
            else:
                self.lift(e, e.loc, node, sdep)
        if not s.returns and not s.never_ok(): raise Dead()
        return sav(s.ret)

    def lift(self, e, loc, node, sdep):
        fl = set(e.flags)
        if self.uctx: fl.add("U")
        if self.worker: fl.add("W")
        dp = set(self.cd[-1])
        for d in e.deps: dp |= sdep(d)
        self.addevent(Event(e.kind, loc, e.field, e.site, e.detail, frozenset(fl),
                            (self.site(node),) + e.chain if len(e.chain) < 6 else e.chain, frozenset(dp)))


def _never_ok(self): return False
Summary.never_ok = _never_ok


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for m in ast.walk(t2):
        if hasattr(m, "lineno"): m.lineno, m.col_offset = t.lineno, t.col_offset
    return t2


def _op(op): return type(op).__name__


def _src(n):
    try: return ast.unparse(n)[:80]
    except Exception: return "?"
