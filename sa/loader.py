"""Parse /repo/bcause and resolve names: modules, functions, classes (with MRO), imports.

Nothing of the analysed package is ever imported or executed; only `ast` is used.
"""
from __future__ import annotations
import ast
import builtins
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "bcause"


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs (error exit, neither pass nor violation)."""


class FuncInfo:
    __slots__ = ("module", "node", "name", "qual", "cls", "decorators", "parent", "is_static",
                 "is_classmethod", "is_property", "is_abstract", "params", "is_gen", "setter")

    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module, self.node, self.qual, self.cls, self.parent = module, node, qual, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = []
        self.is_static = self.is_classmethod = self.is_property = self.is_abstract = False
        self.setter = False
        for d in getattr(node, "decorator_list", []):
            n = dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else None) or ""
            self.decorators.append(n)
            last = n.split(".")[-1]
            if last == "staticmethod": self.is_static = True
            elif last == "classmethod": self.is_classmethod = True
            elif last in ("property", "cached_property", "abstractproperty"): self.is_property = True
            elif last == "abstractmethod": self.is_abstract = True
            elif last == "setter": self.setter = True
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    def __repr__(self): return f"<fn {self.qual}>"

    @property
    def file(self): return self.module.relpath

    @property
    def line(self): return self.node.lineno

    @property
    def is_public(self):
        if self.parent is not None: return False
        names = [self.name] + ([self.cls.name] if self.cls else [])
        for n in names:
            if n.startswith("_") and not (n.startswith("__") and n.endswith("__")): return False
        return True


class ClassInfo:
    __slots__ = ("module", "node", "name", "qual", "bases", "methods", "attrs", "_mro", "body_imports", "subclasses")

    def __init__(self, module, node, qual):
        self.module, self.node, self.name, self.qual = module, node, node.name, qual
        self.bases = []      # resolved later: ClassInfo or dotted ext string
        self.methods = {}
        self.attrs = {}      # class-level assignment -> ast expr
        self.body_imports = {}
        self._mro = None
        self.subclasses = []

    def __repr__(self): return f"<cls {self.qual}>"

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        """-> (kind, value, owner); kind in method/attr/import or None"""
        for c in self.mro():
            if name in c.methods: return "method", c.methods[name], c
            if name in c.attrs: return "attr", c.attrs[name], c
            if name in c.body_imports: return "import", c.body_imports[name], c
        return None, None, None

    def has_ext_base(self):
        return any(not isinstance(b, ClassInfo) and b not in ("abc.ABC", "object") for c in self.mro() for b in c.bases)

    def is_subclass(self, other):
        return other in self.mro()

    def all_subclasses(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c in out: continue
            out.append(c)
            todo += c.subclasses
        return out

    @property
    def is_abstract(self):
        names = set()
        for c in self.mro():
            names |= set(c.methods)
        for n in names:
            k, m, _ = self.lookup(n)
            if k == "method" and m.is_abstract: return True
        return False


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs): break
            else:
                cand = seqs[0][0]   # inconsistent: fall back
            out.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    bases = [b for b in cls.bases if isinstance(b, ClassInfo)]
    return [cls] + merge([_c3(b) for b in bases] + [bases])


class Module:
    def __init__(self, name, path, relpath, tree, src, is_pkg):
        self.name, self.path, self.relpath, self.tree, self.src, self.is_pkg = name, path, relpath, tree, src, is_pkg
        self.funcs, self.classes = {}, {}
        self.bind = {}        # name -> ("func",FuncInfo)|("class",ClassInfo)|("import",dotted)|("from",mod,name)|("expr",ast)
        self.stars = []
        self.all_bind = {}

    def __repr__(self): return f"<mod {self.name}>"


def dotted(node):
    if isinstance(node, ast.Name): return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b and b + "." + node.attr
    return None


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
        todo += list(ast.iter_child_nodes(n))
    return False


def is_main_guard(st):
    return (isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name)
            and st.test.left.id == "__name__")


class World:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = []
        self.funcs = []
        self.by_node = {}     # ast node -> FuncInfo
        overlay = overlay or {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root): raise AnalysisBroken(f"package directory {root} not found")
        h = hashlib.sha256()
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"): continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                if rel in overlay: src = overlay[rel]
                else:
                    with open(path, encoding="utf-8") as fh: src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode())
                parts = rel[:-3].split(os.sep)
                pkg = parts[-1] == "__init__"
                if pkg: parts = parts[:-1]
                try:
                    tree = ast.parse(src, rel)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}")
                self.modules[".".join(parts)] = Module(".".join(parts), path, rel, tree, src, pkg)
        self.digest = h.hexdigest()
        for m in self.modules.values(): self._collect(m)
        for c in self.classes: self._bases(c)
        for c in self.classes:
            for b in c.bases:
                if isinstance(b, ClassInfo): b.subclasses.append(c)
        self.methods_by_name = {}
        for c in self.classes:
            for n, f in c.methods.items(): self.methods_by_name.setdefault(n, []).append(f)

    # -- collection ---------------------------------------------------------------------------
    def _collect(self, m):
        def stmts(body):
            for st in body:
                if is_main_guard(st): continue
                if isinstance(st, ast.If):
                    t = dotted(st.test) or ""
                    if t.endswith("TYPE_CHECKING"):
                        for s in st.body: self._imports(m, s, m.all_bind)   # type names only
                        yield from stmts(st.orelse)
                    else:
                        yield from stmts(st.body); yield from stmts(st.orelse)
                elif isinstance(st, ast.Try):
                    yield from stmts(st.body)
                    for hd in st.handlers: yield from stmts(hd.body)
                    yield from stmts(st.orelse); yield from stmts(st.finalbody)
                elif isinstance(st, ast.With):
                    yield from stmts(st.body)
                else:
                    yield st
        m.flat = list(stmts(m.tree.body))
        for st in m.flat:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._func(m, st, f"{m.name}.{st.name}", None, None)
                m.funcs[st.name] = f
                m.bind[st.name] = ("func", f)
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(m, st, f"{m.name}.{st.name}")
                self.classes.append(c)
                m.classes[st.name] = c
                m.bind[st.name] = ("class", c)
                for s in st.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self._func(m, s, f"{c.qual}.{s.name}", c, None)
                        if f.setter:
                            continue
                        c.methods[s.name] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                                    c.methods[t.id] = c.methods[s.value.id]
                                elif isinstance(s.value, ast.Lambda):
                                    c.methods[t.id] = self._func(m, s.value, f"{c.qual}.{t.id}", c, None)
                                    c.methods[t.id].name = t.id
                                else:
                                    c.attrs[t.id] = s.value
                            elif isinstance(t, ast.Tuple):
                                for i, e in enumerate(t.elts):
                                    if isinstance(e, ast.Name):
                                        v = s.value
                                        c.attrs[e.id] = v.elts[i] if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts) \
                                            else ast.Subscript(v, ast.Constant(i), ast.Load())
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                        c.attrs[s.target.id] = s.value
                    elif isinstance(s, (ast.Import, ast.ImportFrom)):
                        self._imports(m, s, c.body_imports)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self._imports(m, st, m.bind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): m.bind[t.id] = ("expr", st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name): m.bind[a.id] = ("expr", b)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.bind[st.target.id] = ("expr", st.value)

    def _func(self, m, node, qual, cls, parent):
        f = FuncInfo(m, node, qual, cls, parent)
        self.funcs.append(f)
        self.by_node[node] = f
        # nested functions and lambdas
        todo = list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and n not in self.by_node:
                nm = getattr(n, "name", f"<lambda:{n.lineno}>")
                self._func(m, n, f"{qual}.<locals>.{nm}", None, f)
                continue
            todo += list(ast.iter_child_nodes(n))
        return f

    def func_for(self, module, node):
        """FuncInfo for a lambda / def met outside a collected function (module level)."""
        if node not in self.by_node:
            self._func(module, node, f"{module.name}.<lambda:{node.lineno}>", None, None)
            self.by_node[node].parent = None
        return self.by_node[node]

    def _imports(self, m, st, bind):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname: bind[a.asname] = ("import", a.name)
                else: bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                parts = m.name.split(".")
                if not m.is_pkg: parts = parts[:-1]
                if st.level > 1: parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == "*": m.stars.append(base)
                else: bind[a.asname or a.name] = ("from", base, a.name)

    # -- resolution ---------------------------------------------------------------------------
    def resolve(self, module, name, _seen=None, local=None):
        """-> ("func",F) ("class",C) ("mod",name) ("ext",dotted) ("expr",module,ast) or None"""
        _seen = _seen or set()
        if (module.name, name) in _seen: return None
        _seen = _seen | {(module.name, name)}
        b = (local or {}).get(name) or module.bind.get(name)
        if b is None:
            for s in module.stars:
                if s in self.modules:
                    r = self.resolve(self.modules[s], name, _seen)
                    if r: return r
                    if s + "." + name in self.modules: return ("mod", s + "." + name)
                # external star imports are not followed
            if module.name + "." + name in self.modules and module.is_pkg: return ("mod", module.name + "." + name)
            b = module.all_bind.get(name)
            if b is None:
                if name == "__name__": return ("ext", "builtins.str")
                return ("ext", "builtins." + name) if hasattr(builtins, name) else None
        return self.resolve_binding(module, b, _seen)

    def resolve_binding(self, module, b, _seen=None):
        if b[0] == "func": return b
        if b[0] == "class": return b
        if b[0] == "expr": return ("expr", module, b[1])
        if b[0] == "import":
            return ("mod", b[1]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            base, nm = b[1], b[2]
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, _seen)
                if r and not (r[0] == "ext" and r[1].startswith("builtins.")): return r
                if base + "." + nm in self.modules: return ("mod", base + "." + nm)
                return r
            return ("ext", f"{base}.{nm}")
        return None

    def attr_of_module(self, modname, name):
        m = self.modules[modname]
        r = None
        if name in m.bind or m.stars or name in m.all_bind: r = self.resolve(m, name)
        if r is None or (r[0] == "ext" and r[1] == "builtins." + name):
            if modname + "." + name in self.modules: return ("mod", modname + "." + name)
        return r

    def resolve_dotted(self, module, node, local=None):
        """Static resolution of a Name/Attribute chain (no values)."""
        if isinstance(node, ast.Name): return self.resolve(module, node.id, local=local)
        if isinstance(node, ast.Attribute):
            r = self.resolve_dotted(module, node.value, local)
            if r is None: return None
            if r[0] == "mod": return self.attr_of_module(r[1], node.attr)
            if r[0] == "ext": return ("ext", r[1] + "." + node.attr)
            if r[0] == "class":
                k, v, o = r[1].lookup(node.attr)
                if k == "method": return ("func", v)
        return None

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_dotted(c.module, b)
            if r and r[0] == "class" and r[1] is not c: c.bases.append(r[1])
            else: c.bases.append(r[1] if r and r[0] == "ext" else (dotted(b) or "?"))

    # -- anchors ------------------------------------------------------------------------------
    def cls(self, name, required=True):
        """a class by simple name (or dotted suffix)"""
        hits = [c for c in self.classes if c.name == name or c.qual.endswith("." + name)]
        if not hits:
            if required: raise AnalysisBroken(f"class {name} not found in {PKG}")
            return None
        return hits[0]

    def fn(self, modname, name, required=True):
        """a module-level function, following re-exports"""
        m = self.modules.get(modname)
        r = self.resolve(m, name) if m else None
        if r and r[0] == "func": return r[1]
        hits = [f for f in self.funcs if f.cls is None and f.parent is None and f.name == name]
        if hits: return hits[0]
        if required: raise AnalysisBroken(f"function {modname}.{name} not found")
        return None

    def method(self, clsname, name, required=True):
        c = self.cls(clsname, required)
        if c is None: return None
        k, m, o = c.lookup(name)
        if k != "method":
            if required: raise AnalysisBroken(f"method {clsname}.{name} not found")
            return None
        return m


if __name__ == "__main__":
    w = World()
    print(len(w.modules), "modules", len(w.classes), "classes", len(w.funcs), "functions")
    for c in w.classes: print(c.qual, [b.name if isinstance(b, ClassInfo) else b for b in c.bases], "ABSTRACT" if c.is_abstract else "")
