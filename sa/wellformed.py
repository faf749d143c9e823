"""Calls that cannot bind and attributes that nothing provides: resolution over the syntax tree and the class table."""
from __future__ import annotations
import ast, builtins


def own_nodes(f):
    """the nodes of a function, those of nested functions and lambdas excluded (they are functions of their own)"""
    todo = list(ast.iter_child_nodes(f.node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): todo += list(ast.iter_child_nodes(x))


def local_names(f):
    out = set()
    while f is not None:
        a = f.node.args
        out |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name)
            elif isinstance(x, ast.arg): out.add(x.arg)
            elif isinstance(x, (ast.Import, ast.ImportFrom)): out |= {(al.asname or al.name).split(".")[0] for al in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
        f = f.parent
    return out


def guarded(f, node):
    """inside a try that has handlers, or under a test of what the object offers"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Try) and x.handlers and any(node is y for b in x.body for y in ast.walk(b)): return True
        if isinstance(x, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Call) and getattr(y.func, "id", "") in ("hasattr", "isinstance", "getattr", "callable") for y in ast.walk(x.test)) \
                and any(node is y for y in ast.walk(x)): return True
    return False


def cannot_bind(f, call, bound):
    """why the arguments of a call do not fit the parameters of f (None when they may)"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords): star = True
    else: star = False
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if bound: pos = pos[1:]
    kwonly = [p.arg for p in a.kwonlyargs]
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and a.vararg is None: return f"{n} positional arguments where {len(pos)} are taken"
    posonly = {p.arg for p in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None: continue
        if k.arg not in pos + kwonly and a.kwarg is None: return f"there is no argument {k.arg}"
        if k.arg in posonly and a.kwarg is None: return f"{k.arg} is positional only"
        if not any(isinstance(x, ast.Starred) for x in call.args) and k.arg in pos[:n]: return f"{k.arg} is passed twice"
    if star: return None
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    kw = {k.arg for k in call.keywords}
    for p in need[n:]:
        if p not in kw: return f"its argument {p} is missing"
    for p, d in zip(kwonly, a.kw_defaults):
        if d is None and p not in kw: return f"its argument {p} is missing"
    return None


def plain(f):
    """decorators that may change the signature make the call undecided"""
    ok = ("staticmethod", "classmethod", "property", "abstractmethod", "wraps", "override", "final")
    return all(d.split(".")[-1] in ok or d.endswith(".setter") for d in f.decorators)


def targets(w, f, call):
    """[(function, bound)] the call may reach when all of them are known, else None"""
    fn = call.func
    loc = local_names(f)
    me = f
    while me.parent is not None: me = me.parent
    selfname = me.params[0] if me.cls is not None and not me.is_static and me.params and me.params[0] in ("self", "cls") else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == selfname and me.cls is not None \
            and not any(isinstance(x, ast.Name) and x.id == selfname and isinstance(x.ctx, ast.Store) for x in ast.walk(me.node)):
        out = []
        for c in me.cls.all_subclasses():
            if c.has_ext_base(): return None
            k, g, o = c.lookup(fn.attr)
            if k != "method" or g.is_property: return None
            if g.is_abstract and c.subclasses: continue
            out.append((g, not g.is_static))
        # the attribute may also be assigned on the instance
        return out
    r = None
    if isinstance(fn, ast.Name):
        if fn.id in loc: return None
        r = w.resolve(f.module, fn.id)
    elif isinstance(fn, ast.Attribute):
        x = fn
        while isinstance(x, ast.Attribute): x = x.value
        if not isinstance(x, ast.Name) or x.id in loc: return None
        r = w.resolve_dotted(f.module, fn)
    if r is None: return None
    if r[0] == "func":
        g = r[1]
        if g.cls is None: return [(g, False)]
        return [(g, g.is_classmethod)]
    if r[0] == "class":
        c = r[1]
        if c.has_ext_base(): return None
        if any(any(d.split(".")[-1].startswith("dataclass") for d in _decos(k)) for k in c.mro()): return None
        if any("__new__" in k.methods for k in c.mro()): return None
        k, g, o = c.lookup("__init__")
        if k != "method": return None
        return [(g, True)]
    return None


def _decos(c):
    out = []
    for d in c.node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        out.append(getattr(d, "attr", getattr(d, "id", "")))
    return out


def assigned_attributes(w):
    """names that are assigned as an attribute of something anywhere, or may be through setattr / __dict__"""
    out, dynamic = set(), False
    for m in w.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.attr)
            elif isinstance(x, ast.Call) and getattr(x.func, "id", "") == "setattr":
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant): out.add(x.args[1].value)
                else: dynamic = True
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__": dynamic = True
    return out, dynamic


def missing_attributes(w, f, assigned):
    """self.x where neither the class, nor what it inherits, nor any class derived from it offers x, and nothing assigns .x;
    m.x where m is a module of the library that binds no x"""
    me = f
    while me.parent is not None: me = me.parent
    selfname = me.params[0] if me.cls is not None and not me.is_static and me.params and me.params[0] in ("self", "cls") else None
    loc = local_names(f)
    for x in own_nodes(f):
        if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load): continue
        if isinstance(x.value, ast.Name) and x.value.id == selfname and me.cls is not None:
            c = me.cls
            fam = c.all_subclasses()
            if any(k.has_ext_base() for k in fam) or any("__getattr__" in j.methods or "__getattribute__" in j.methods for k in fam for j in k.mro()): continue
            if x.attr in assigned or x.attr.startswith("__") and x.attr.endswith("__"): continue
            if me.is_classmethod and hasattr(type, x.attr) or hasattr(object, x.attr): continue
            if any(k.lookup(x.attr)[0] for k in fam): continue
            if any(isinstance(n, (ast.AnnAssign, ast.ClassDef)) and getattr(getattr(n, "target", None), "id", getattr(n, "name", "")) == x.attr for k in fam for j in k.mro() for n in j.node.body): continue
            yield x, f"{c.name} has no attribute {x.attr}"
        else:
            y = x.value
            while isinstance(y, ast.Attribute): y = y.value
            if not isinstance(y, ast.Name) or y.id in loc: continue
            r = w.resolve_dotted(f.module, x.value)
            if not r or r[0] != "mod" or x.attr.startswith("__"): continue
            m = w.modules[r[1]]
            if w.attr_of_module(r[1], x.attr) is not None: continue
            if x.attr in m.bind or x.attr in m.all_bind or any(s not in w.modules for s in m.stars): continue
            yield x, f"module {r[1]} has no {x.attr}"


def check(w, skip):
    """-> (call sites bound, attribute loads resolved, [(kind, function, key, text, line)])"""
    calls = loads = 0
    bad = []
    assigned, dynamic = assigned_attributes(w)
    for f in w.funcs:
        if skip(f) or f.cls is not None and f.parent is None and f.cls.methods.get(f.name) is not f and not f.setter: continue      # replaced by a later definition
        for x in own_nodes(f):
            if isinstance(x, ast.Call):
                ts = targets(w, f, x)
                if not ts or not all(plain(g) for g, _ in ts): continue
                if isinstance(x.func, ast.Attribute) and x.func.attr in assigned: continue
                calls += 1
                why = [cannot_bind(g, x, b) for g, b in ts]
                if all(why) and not guarded(f, x):
                    bad.append(("call-cannot-bind", f, ast.unparse(x.func), f"{f.qual} calls {ts[0][0].qual} in a way it does not accept: {why[0]}", x.lineno))
        if not dynamic:
            for x, why in missing_attributes(w, f, assigned):
                if not guarded(f, x): bad.append(("no-such-attribute", f, x.attr, f"{f.qual} reads {ast.unparse(x)}, but {why}", x.lineno))
            loads += sum(1 for x in own_nodes(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load))
    return calls, loads, bad
