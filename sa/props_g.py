"""Property deciders on Engine B: models in other representations (pgmpy objects, text formats)."""
from __future__ import annotations
import ast
from core import *
from terms import *
from bench import *
from props_b import where, plain_names, FS, N_, E_
from props_c import inference_bench
from props_d import walk, cases_of
from props_e import params, alternatives, callargs, uncut
from values import Budget


# ------------------------------------------------------------------------------------ text that is built piece by piece
def stringy(e, names=()):
    if isinstance(e, ast.Constant): return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr): return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return stringy(e.left, names) or stringy(e.right, names)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "join": return stringy(e.func.value)
    return isinstance(e, ast.Name) and e.id in names


def as_parts(fn):
    """a local string that grows with += is read as the list of its parts (the same text, put together at each use)"""
    node = fn.node
    if not isinstance(node, ast.FunctionDef): return
    grows, other = {}, set()
    for n in ast.walk(node):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) and stringy(n.value): grows.setdefault(n.target.id, []).append(n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stringy(n.value, [n.targets[0].id]): pass
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node: other |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Assign): other |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(n, (ast.For, ast.comprehension)): other |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    names = set(grows) - other - {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
    if not names: return

    class Parts(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
                x = n.targets[0].id
                v, after = n.value, []
                while isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add): after.insert(0, v.right); v = v.left
                if isinstance(v, ast.Name) and v.id == x and not any(isinstance(y, ast.Name) and y.id == x for a in after for y in ast.walk(a)):
                    return [self.grow(n, x, self.visit(a)) for a in after]
                return ast.copy_location(ast.Assign(targets=n.targets, value=ast.List(elts=[self.visit(n.value)], ctx=ast.Load()), type_comment=None), n)
            return self.generic_visit(n)

        def grow(self, n, x, v): return ast.copy_location(ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=x, ctx=ast.Load(), kept=True), attr="append", ctx=ast.Load()), args=[v], keywords=[])), n)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and n.target.id in names and isinstance(n.op, ast.Add): return self.grow(n, n.target.id, self.visit(n.value))
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id in names and isinstance(n.ctx, ast.Load) and not getattr(n, "kept", False):
                return ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Constant(""), attr="join", ctx=ast.Load()), args=[n], keywords=[]), n)
            return n
    Parts().visit(node)
    ast.fix_missing_locations(node)


# ------------------------------------------------------------------------------------ tokens of a text
class Unread(Exception): pass


def words(t):
    """the words of a text: ("w", term) or ("rep", variables, condition, [(case, words)]), in order; None stands for white space"""
    if isc(t):
        s = str(t.args[1]); out = []
        if s[:1].isspace(): out.append(None)
        for i, x in enumerate(s.split()):
            if i: out.append(None)
            out.append(("w", C(x)))
        if s and s[-1].isspace() and s.split(): out.append(None)
        return out
    if t.tag == "str": return sum((words(a) for a in t.args), [])
    if t.tag == "app" and t.args[0] == "join":
        c = t.args[2]
        if not isc(t.args[1]): raise Unread("separator")
        s = t.args[1].args[1]
        if s.strip(): raise Unread("separator")
        gap = [None] if s else []
        if c.tag != "coll": raise Unread("list that is joined")
        out = []
        for k in blocks(c):
            fvs, (g, el, v) = opened(k.args[0], *k.args[1:])
            if not fvs and g is T: out += gap + words(el); continue
            alts = [(cd, gap + words(x)) for cd, x in cases(el)]
            if not any(alts[0][1]): raise Unread("text")
            out.append(("rep", list(fvs), g, alts))
        return out + gap
    if t.tag == "top": raise Unread("unknown text")
    if t.tag == "ite": raise Unread("text by cases")
    return [("w", t)]


def sections(ws):
    """the words without white space; raises when two of them are not apart"""
    out, apart = [], True
    for w in ws:
        if w is None: apart = True; continue
        if w[0] == "w":
            if not apart: raise Unread("two words that are not apart")
            apart = False
        else:
            for cd, inner in w[3]:
                if not inner or inner[0] is not None and inner[-1] is not None: raise Unread("repeated text that is not apart")
                sections(inner)
            if not apart and any(inner[0] is not None for cd, inner in w[3]): raise Unread("text that is not apart")
            apart = all(inner[-1] is None for cd, inner in w[3])
        out.append(w)
    return out


# ------------------------------------------------------------------------------------ orders
def mark(a): return a.tag == "tru" and isinstance(a.args[0], N) and a.args[0].tag == "app" and str(a.args[0].args[0]).startswith("order:")


class Marks(frozenset):
    also = frozenset()          # lists that filter the part, without giving it its order


def remark(m): return [mk("tru", App("order:" + k)) for k in sorted(m)] + [mk("tru", App("order:also", k)) for k in getattr(m, "also", ())]


def unmarked(g):
    """(condition without marks of order, marks)"""
    gs = list(g.args) if g.tag == "and" else [g]
    ms = [x.args[0] for x in gs if mark(x)]
    m = Marks(x.args[0][6:] for x in ms if x.args[0] != "order:also")
    m.also = frozenset(x.args[1] for x in ms if x.args[0] == "order:also")
    return And(*[x for x in gs if not mark(x)]), m


def plain(t):
    """the term without marks of order, at any depth"""
    from props_e import mapped
    return mapped(t, lambda n: T if mark(n) else n)


def sequence(c):
    """[(variables, condition, marks, element)] of a list in the order of its parts; None when it is not known"""
    if c.tag == "tup": return [([], T, frozenset(), x) for x in c.args]
    if c.tag != "coll": return None
    out = []
    for k in blocks(c):
        fvs, (g, el, v) = opened(k.args[0], *k.args[1:])
        for cd, x in cases(el):
            h, m = unmarked(And(g, cd))
            out.append((list(fvs), h, m, x))
    return out


def alike(th, a, b):
    """two parts of a list hold the same elements: True, False or None (not known)"""
    (fa, ga, _, xa), (fb, gb, _, xb) = a, b
    if len(fa) == 1 and len(fb) == 1 and xa is fa[0] and xb is fb[0]:
        gb = subst(gb, {fb[0]: fa[0]})
        r = th.table(ga, gb)
        return True if r == "same" else None
    if not fa and not fb and xa is xb: return True if th.table(ga, gb) == "same" else None
    return True if ga is gb and xa is xb else None


def bases(p):
    """the lists whose order the part follows; empty when not known"""
    f, g, m, x = p
    if len(f) != 1 or x is not f[0]: return frozenset()
    also = getattr(m, "also", frozenset())
    own = lambda t: t.tag == "sym" or t.tag == "app" and t.args[0] in ("attr:cardinality_dict", "attr:domain") and len(t.args) == 2        # an attribute of another object has an order of its own
    return frozenset(a.args[0] for a in (g.args if g.tag == "and" else [g]) if a.tag == "in" and a.args[1] is x and own(a.args[0]) and a.args[0] not in also or a.tag == "in" and a.args[1].tag == "tup" and a.args[0] is E_)


def possible(th, s): return [p for p in s if th.table(p[1], F) != "same"]


def same_order(th, a, b, under=T):
    """two lists (with the same members) are in the same order: True, False (definitely not), or None"""
    a, b = sequence(a), sequence(b)
    if a is None or b is None: return None
    a, b = ([(f, And(under, g), m, x) for f, g, m, x in s] for s in (a, b))
    a, b = possible(th, a), possible(th, b)
    ba, bb = [bases(x) for x in a], [bases(x) for x in b]
    if all(ba) and all(bb) and not any(m - {"turned"} for x in a + b for m in [x[2]]):
        if any(not any(p & q for q in bb) for p in ba) or any(not any(p & q for p in ba) for q in bb): return False        # in the order of another list
    if len(a) != len(b): return None
    if all(alike(th, x, y) for x, y in zip(a, b)):
        ms = [(x[2], y[2]) for x, y in zip(a, b) if x[0]]
        if all(p == q for p, q in ms): return True
        return False if all(not (p - {"turned"}) or not (q - {"turned"}) for p, q in ms if p != q) else None
    rest = list(b)
    for x in a:
        y = next((y for y in rest if alike(th, x, y)), None)
        if y is None: return None
        rest.remove(y)
    return False if all(p[2] <= {"turned"} for p in a + b) else None       # the same parts, another order


class Orders:
    def __init__(self, J, rep): self.J, self.rep = J, rep

    def check(self, key, what, th, a, b, wh, under=T):
        r = same_order(th, a, b, under)
        if r is None: self.rep.undec(f"{key.partition('|')[2]}: {what}")
        else: self.J.formula(key, what, th, T if r else F, T, wh)
        return r


FLAT = {".flatten", ".ravel", "lib:numpy.ravel"}


def values_of(t):
    """(factor, order of the variables, laid out row by row) of the values of a factor in a row; None if it is something else"""
    while t.tag == "app" and t.args[0] in ("lib:numpy.array", "lib:numpy.asarray", "list", ".tolist", ".copy") and len(t.args) == 2: t = t.args[1]
    if t.tag == "coll" and len(blocks(t)) == 1:
        fvs, (g, el, v) = opened(blocks(t)[0].args[0], *blocks(t)[0].args[1:])
        if g.tag == "in" and el is g.args[1] and len(fvs) == 1: return values_of(g.args[0])
        return None
    if t.tag != "app": return None
    row = True
    if t.args[0] in FLAT:
        if len(t.args) > 2: row = len(t.args) == 3 and (t.args[2] if t.args[2].tag != "kw" else t.args[2].args[1]) is C("C")
        t = t.args[1]
    elif t.args[0] == ".reshape" and len(t.args) == 3 and t.args[2] is C(-1): t = t.args[1]
    else: return None
    if t.tag == "app" and t.args[0] == "attr:T": t, row = t.args[1], False
    if t.tag != "app" or t.args[0] != ".values_array": return None
    return t.args[1], t.args[2] if len(t.args) > 2 else None, row


def conv(t):
    """(number, what was done to it)"""
    done = []
    while t.tag == "app" and len(t.args) >= 2:
        if t.args[0] in ("int", "lib:builtins.int"): done.append("int")
        elif t.args[0] in ("float", "str", "repr", "lib:builtins.float", "lib:builtins.str", "lib:builtins.repr"): pass
        elif t.args[0] in ("round", "lib:builtins.round", "lib:numpy.round", "lib:numpy.around") : done.append("rounded")
        elif t.args[0] == "fmt":
            import re
            m = re.fullmatch(r"[^.]*\.(\d+)[a-zA-Z%]?", t.args[2].args[1] or "")
            done.append("rounded" if m and int(m.group(1)) < 15 else "unknown")
        else: break
        t = t.args[1]
    return t, done


def c14(ctx, rep):
    rep.rule("the text a UAI writer writes is derived as a term over any model and read as words: sizes, scopes and tables are over all the variables in one order, the scope of a variable is its parents and then the variable itself as positions "
             "in that order, and its table lists the values of its own factor in the order of that scope; the arguments of the pgmpy objects that are built, and of the factors built from them, are compared with their definition: the values are laid out "
             "over the same variables, in the same order, as the variables, states and numbers of states that are named with them")
    J = Judge(rep); O = Orders(J, rep)
    iv_, vo_, v_ = sym("IV"), sym("VO"), sym("v")

    def facts(a):
        if a.tag == "tru" and a.args[0].tag == "in": return None
        return None

    def bench():
        b = inference_bench(ctx)
        b.V.orders = True
        b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"values_array", "to_deterministic"}
        b.theory.subsets = list(b.theory.subsets) + [(N_, FS)]
        b.theory.strict = False
        for n in ("path", "v", "f", "cpd", "net"): b.let(n, sym(n))
        b.lst("iv", iv_); b.lst("vo", vo_)
        return b

    for m in ("bcause.readwrite.bnwrite", "bcause.readwrite.scmwrite"):
        for f in [f for f in ctx.w.funcs if f.module.name == m]: as_parts(f)

    # ---- UAI
    def uai(src, mod, con, label, order_given, ints):
        f = ctx.w.fn(mod, "to_uai")
        wh = f"{f.module.relpath} {f.qual}"
        rep.count("writers")
        b = bench()
        b.fn(mod, "to_uai")
        if order_given: b.assume(Ex([e0], In(vo_, e0))); b.theory.subsets = list(b.theory.subsets) + [(vo_, N_), (N_, vo_)]
        try: x = b.at(src)
        except Budget: rep.undec(f"{con}: too large"); return
        out = [c for c in x.calls if c[0] in (".write", ".writelines", ".write_text")]
        if x.dead or len(out) != 1: rep.undec(f"{con}: the text that is written is not followed"); return
        text = b.theory.simp(out[0][2][1])
        try:
            ws = sections(words(text))
            th = b.theory
            plainw = [i for i, w in enumerate(ws) if w[0] == "w"]
            if len(plainw) != 3 or plainw[:2] != [0, 1]: raise Unread("the words at the start")
            sizes, rest = ws[2:plainw[2]], ws[plainw[2] + 1:]
            tables = [w for w in rest if any(any(k.tag == "app" and k.args[0] == ".values_array" for k in walk_words(inner)) for cd, inner in w[3])]
            scopes = [w for w in rest if w not in tables]
            if rest != scopes + tables or not sizes or not scopes or not tables: raise Unread("the sections")
        except Unread as ex: rep.undec(f"{con}: {ex}"); return
        rep.count("sections", 3)
        J.formula(f"text|{con}.label", "the label", th, T if ws[0][1] is C(label) else F, T, wh)
        e = fresh("x")
        def over(parts):         # the variables a section is over, as a list
            return Coll("list", *[Blk(w[1], w[2], w[1][0]) for w in parts]) if all(len(w[1]) == 1 for w in parts) else None
        vs = [over(p) for p in (sizes, scopes, tables)]
        if None in vs: rep.undec(f"{con}: the variables of the sections"); return
        for c, n in zip(vs, ("sizes", "scopes", "tables")):
            J.formula(f"text|{con}.{n}.members", f"{n}: of all the variables", th, In(plain(c), e), In(N_, e), wh)
        O.check(f"text|{con}.scopes.order", "scopes: in the order of the sizes", th, vs[0], vs[1], wh)
        O.check(f"text|{con}.tables.order", "tables: in the order of the scopes", th, vs[1], vs[2], wh)
        if order_given: O.check(f"text|{con}.asked", "in the order asked for", th, vs[0], base("list", vo_), wh)
        def number(t, key, what, wanted):
            t = conv(t)[0]
            if t.tag != "len" and not (t.tag == "app" and t.args[0] == "len"): rep.undec(f"{con}: {what}"); return
            c = t.args[-1]
            J.formula(f"text|{con}.{key}", what, th, In(plain(c), e), wanted(e), wh)
        number(ws[1][1], "number", "number of variables", lambda e: In(N_, e))
        number(ws[plainw[2]][1], "factors", "number of factors", lambda e: In(N_, e))
        for w in sizes:
            for cd, inner in w[3]:
                t = conv(next(y[1] for y in inner if y))[0] if len([y for y in inner if y]) == 1 else None
                c = t.args[-1] if t is not None and (t.tag == "len" or t.tag == "app" and t.args[0] == "len") else None
                if c is None: rep.undec(f"{con}: the sizes"); continue
                names = [k for k in walk(c) if k.tag == "app" and k.args[0] == "get" and k.args[1] is not FS]
                if len(names) == 1 and names[0].args[2] is not w[1][0]: J.formula(f"text|{con}.sizes", "sizes: each of its own variable", th, F, T, wh)
                elif len(names) == 1: rep.ok(f"{con}: sizes: each of its own variable")
                else: rep.undec(f"{con}: the sizes")

        def table(v, g, inner):      # one variable's line: (condition, the list whose length is written, the list)
            inner = [y for y in inner if y]
            if len(inner) < 2 or inner[0][0] != "w": return None
            n = conv(inner[0][1])[0]
            return n, [z for y in inner[1:] for z in ([([], g, [y])] if y[0] == "w" else [(y[1], And(g, y[2], cd), [q for q in i2 if q]) for cd, i2 in y[3]])]

        scope = {}
        for w in scopes:
            v = w[1][0]
            for cd, inner in w[3]:
                r = table(v, T, inner)
                if r is None or any(len(i) != 1 or i[0][0] != "w" for f, h, i in r[1]): rep.undec(f"{con}: the scopes"); continue
                ok = True; elems = []
                for f, h, i in r[1]:
                    for cd2, t in cases(conv(i[0][1])[0]):
                        if th.table(unmarked(And(w[2], cd, h, cd2))[0], F) == "same": continue
                        if not (t.tag == "app" and t.args[0] == "pos" and t.args[3] is C(0) or t.tag == "pos"): ok = False; continue
                        q = t.args[1] if t.tag == "app" else t.args[0]; xx = t.args[2] if t.tag == "app" else t.args[1]
                        O.check(f"text|{con}.scopes.positions", "scopes: positions in the order of the sizes", th, q, vs[0], wh)
                        elems.append(Blk(f, And(h, cd2), xx))
                if not ok: rep.undec(f"{con}: the scopes: positions"); continue
                s = Coll("list", *elems)
                scope[id(w)] = (v, s, w[2])
                J.formula(f"text|{con}.scopes", "scopes: the parents and the variable", th, And(unmarked(w[2])[0], In(plain(s), e)), And(unmarked(w[2])[0], Or(In(E_, Tup(e, v)), Eq(e, v))), wh)
                sq = possible(th, sequence(s))
                if sq: J.formula(f"text|{con}.scopes.last", "scopes: the variable itself comes last", th, T if sq[-1][3] is v and not sq[-1][0] else F if any(y[3] is v and not y[0] for y in sq) else T, T, wh)
                if n_is(r[0], s, th, e) is None: rep.undec(f"{con}: the length of a scope")
                else: J.formula(f"text|{con}.scopes.length", "scopes: their length", th, In(plain(n_is(r[0], s, th, e)), e), In(plain(Coll("list", *[Blk(f, h, i[0][1]) for f, h, i in r[1]])), e), wh)
        for w in tables:
            v = w[1][0]
            for cd, inner in w[3]:
                r = table(v, T, inner)
                if r is None: rep.undec(f"{con}: the tables"); continue
                for f, h, i in r[1]:
                    g = unmarked(And(w[2], cd, h))[0]
                    if th.table(Ex(f, g), F) == "same" or th.table(g, F) == "same": continue
                    if len(i) != 1 or i[0][0] != "w" or len(f) != 1: rep.undec(f"{con}: the tables"); continue
                    t, done = conv(i[0][1])
                    src_ = next((a for a in (h.args if h.tag == "and" else [h]) if a.tag == "in" and a.args[1] is f[0]), None)
                    val = values_of(src_.args[0]) if src_ is not None and t is f[0] else None
                    if val is None or "unknown" in done: rep.undec(f"{con}: the values of a table"); continue
                    fac, order, row = val
                    rep.count("tables")
                    if "None" in repr(fac)[:5]: continue
                    J.formula(f"text|{con}.tables.rows", "tables: row by row", th, T if row else F, T, wh)
                    J.formula(f"text|{con}.tables.exact", "tables: the values are not rounded", th, F if "rounded" in done else T, T, wh)
                    rest_ = And(*[a for a in (g.args if g.tag == "and" else [g]) if not (a.tag == "in" and a.args[1] is f[0]) and not any(y.tag == "isi" for y in walk(a))])
                    if "int" in done: J.formula(f"text|{con}.tables.int", "tables: made integer only where asked for", th, And(rest_, Not(ints(v))), F, wh)
                    eq = label == "CAUSAL"
                    if fac.tag == "app" and fac.args[0] == ".to_deterministic" and eq:
                        J.formula(f"text|{con}.tables.equations", "tables: as equations for endogenous variables only", th, And(rest_, Not(In(sym("En"), v))), F, wh); fac = fac.args[1]
                    J.value(f"text|{con}.tables.factor", "tables: the values of the variable's own factor", th, fac, Get(FS, v), wh, rest_)
                    mine = next((s for u, s, g2 in scope.values() if len(scopes) == 1 or th.table(unmarked(subst(g2, {u: v}))[0], unmarked(w[2])[0]) == "same"), None)
                    if order is None or order is NONE: J.formula(f"text|{con}.tables.layout", "tables: laid out in the order of the scope", th, F, T, wh); continue
                    if mine is None: rep.undec(f"{con}: the order of the values of a table"); continue
                    u = next(u for u, s, g2 in scope.values() if s is mine)
                    mine = subst(mine, {u: v})
                    if eq:      # an equation is listed over the parents only
                        both = [(In(sym("En"), v), filt(mine, lambda el: Not(Eq(el, v)))), (Not(In(sym("En"), v)), mine)]
                    else: both = [(T, mine)]
                    for when, want in both:
                        k = And(rest_, when)
                        if th.table(k, F) == "same": continue
                        for cd3, o in cases(order):
                            if th.table(And(k, cd3), F) == "same": continue
                            J.formula(f"text|{con}.tables.over", "tables: over the variables of the scope", th, And(k, cd3, In(plain(o), e)), And(k, cd3, In(plain(want), e)), wh)
                            O.check(f"text|{con}.tables.layout", "tables: laid out in the order of the scope", th, o, want, wh, And(k, cd3))

    e0 = fresh("y")
    BW, SW = "bcause.readwrite.bnwrite", "bcause.readwrite.scmwrite"
    uai("to_uai(bn, path)", BW, "bnwrite.to_uai", "BAYES", False, lambda v: F)
    uai("to_uai(bn, path, var_order=vo)", BW, "bnwrite.to_uai (order given)", "BAYES", True, lambda v: F)
    uai("to_uai(bn, path, integer_varlist=iv)", BW, "bnwrite.to_uai (integers)", "BAYES", False, lambda v: In(iv_, v))
    uai("to_uai(m, path)", SW, "scmwrite.to_uai", "CAUSAL", False, lambda v: In(sym("En"), v))
    uai("to_uai(m, path, var_order=vo)", SW, "scmwrite.to_uai (order given)", "CAUSAL", True, lambda v: In(sym("En"), v))
    pgmpy(ctx, rep, J, bench)
    rep.least("writers", 9); rep.least("readers", 4)


def walk_words(ws):
    for w in ws:
        if w is None: continue
        if w[0] == "w": yield from walk(w[1])
        else:
            yield from walk(w[2])
            for cd, i in w[3]: yield from walk(cd); yield from walk_words(i)


def n_is(n, s, th, e):
    return n.args[-1] if n.tag == "len" or n.tag == "app" and n.args[0] == "len" else None


# ------------------------------------------------------------------------------------ pgmpy objects
def given(t, names, skip=0):
    """{parameter: [(condition, argument)]} of a call left as a term, with those in a dictionary"""
    out = {}
    pos = 0
    for a in t.args[1 + skip:]:
        if a.tag == "star": return None
        if a.tag == "kw" and a.args[0] == "**":
            if a.args[1].tag != "coll": return None
            for k in blocks(a.args[1]):
                if k.args[0] or not isc(k.args[2]): return None
                out.setdefault(k.args[2].args[1], []).append((k.args[1], k.args[3]))
        elif a.tag == "kw": out.setdefault(a.args[0], []).append((T, a.args[1]))
        else:
            if pos >= len(names): return None
            out.setdefault(names[pos], []).append((T, a)); pos += 1
    return out


def one(al):
    """the only value of an argument, whatever the conditions"""
    vs = {v for c, v in al or []}
    return next(iter(vs)) if len(vs) == 1 else None


def parts(c):
    """sequence() of a list that may also be an opaque one"""
    s = sequence(c)
    if s is not None: return s
    x = fresh("s")
    return [([x], In(c, x), frozenset(), x)]


def keyed(c, pick):
    """a list in which every element is made of one name each: the list of these names, in the same order; None if it is not one"""
    out = []
    for f, g, m, x in parts(c):
        y = pick(x, f)
        if y is None: return None
        if f and not any(v in y.fv for v in f): return False          # the same one for all
        out.append(Blk(f, And(g, *remark(m)), y))
    return Coll("list", *out)


def seq2(th, a, b): return same_order(th, Coll("list", *[Blk(f, And(g, *remark(m)), x) for f, g, m, x in parts(a)]),
                                          Coll("list", *[Blk(f, And(g, *remark(m)), x) for f, g, m, x in parts(b)]))


def pgmpy(ctx, rep, J, bench):
    MOD = "bcause.conversion.pgmpy"
    e = fresh("x")
    fn_where = lambda n: (lambda f: f"{f.module.relpath} {f.qual}")(ctx.w.fn(MOD, n))
    f_, cpd, net = sym("f"), sym("cpd"), sym("net")
    RIGHT, LEFT, LD, DOMS, VARS, SN, CPDS, NODES, ARCS = (sym(n) for n in ("Rv", "Lv", "Ld", "Dm", "Cv", "Sn", "Cp", "Nn", "Ae"))
    pairs = (lambda y, z: Coll("list", Blk([y, z], In(ARCS, Tup(y, z)), Tup(y, z))))(fresh(), fresh())
    known = {(f_, "right_vars"): base("list", RIGHT), (f_, "left_vars"): base("list", LEFT), (f_, "left_domain"): base("dict", LD), (f_, "domain"): base("dict", DOMS), (cpd, "variables"): base("list", VARS), (cpd, "state_names"): base("dict", SN),
             (net, "cpds"): base("list", CPDS), (net, "nodes"): base("list", NODES), (net, "in_edges"): pairs, (net, "edges"): pairs, (net, "out_edges"): pairs}
    bench0 = bench

    def bench():
        b = bench0()
        b.V.known_attrs = known
        b.theory.edges = list(b.theory.edges) + [(ARCS, NODES)]
        b.theory.subsets = list(b.theory.subsets) + [(RIGHT, DOMS), (LEFT, DOMS), (LD, DOMS), (LD, LEFT), (LEFT, LD), (VARS, SN), (SN, VARS)]
        return b

    def order(key, what, th, a, b, wh):
        r = seq2(th, a, b) if a is not False and b is not False else False
        if r is None: rep.undec(f"{key.partition('|')[2]}: {what}")
        else: J.formula(key, what, th, T if r else F, T, wh)

    # ---- a factor as a pgmpy table
    wh, con = fn_where("toTabularCPT"), "toTabularCPT"
    b = bench(); th = b.theory
    b.fn(MOD, "toTabularCPT")
    x = b.at("toTabularCPT(f)")
    calls = [c for c in x.calls if c[0].endswith("TabularCPD")]
    rep.count("conversions")
    t = None if x.dead else x.snap()
    made = [(cd, k) for cd, k in cases(t)] if t is not None else []
    if not made or not all(k.tag == "app" and str(k.args[0]).endswith("TabularCPD") for cd, k in made): rep.undec(f"{con}: the table that is built is not followed"); made = []
    for cd, k in made:
        a = given(k, ["variable", "variable_card", "values", "evidence", "evidence_card", "state_names"])
        if a is None: rep.undec(f"{con}: the arguments of the table"); continue
        v = one(a.get("variable"))
        left = v is not None and v.tag == "app" and v.args[0] == "idx" and v.args[2] is C(0) and any(y in (LD, LEFT) for y in walk(v.args[1])) and v.args[1].tag == "coll" and len(blocks(v.args[1])) == 1
        if not left:
            if v is not None and any(y is RIGHT for y in walk(v)) and not any(y in (LD, LEFT) for y in walk(v)): J.formula(f"table|{con}.variable", "the variable of the table", th, F, T, wh)
            else: rep.undec(f"{con}: the variable of the table")
            continue
        rep.ok(f"{con}: the variable of the table")
        card = lambda t: next((y.args[2] for y in [t] if y.tag == "app" and y.args[0] == "get" and y.args[1].tag == "app" and y.args[1].args[0] in ("attr:cardinality_dict", "attr:cardinality", "attr:varsizes")), None) if t.tag == "app" and t.args[0] == "get" else \
            (t.args[-1].args[2] if (t.tag == "len" or t.tag == "app" and t.args[0] == "len") and t.args[-1].tag == "app" and t.args[-1].args[0] == "get" else None)
        # evidence: the right variables; absent only when there are none
        ev = a.get("evidence", [])
        lists = {y for c, y in ev if y is not NONE}
        J.formula(f"table|{con}.evidence", "the evidence: named when there are right variables", th, Or(*[And(c, cd) for c, y in ev if y is not NONE]) if ev else F, And(cd, nonempty_of(RIGHT)), wh) if ev == [] or any(c is not T for c, y in ev) else None
        if len(lists) != 1:
            if ev: rep.undec(f"{con}: the evidence")
            continue
        EV = next(iter(lists))
        inev = lambda z: Or(*[Ex(f, And(g, Eq(z, y))) for f, g, m, y in parts(EV)])
        J.formula(f"table|{con}.evidence.members", "the evidence: the right variables", th, inev(e), In(RIGHT, e), wh)
        # numbers of states
        vc = one(a.get("variable_card"))
        if vc is None or card(vc) is None: rep.undec(f"{con}: the number of states of the variable")
        else: J.formula(f"table|{con}.card", "the number of states of the variable", th, T if card(vc) is v else F, T, wh)
        ec = {y for c, y in a.get("evidence_card", []) if y is not NONE}
        names = keyed(next(iter(ec)), lambda y, f: card(y)) if len(ec) == 1 else None
        if names is None: rep.undec(f"{con}: the numbers of states of the evidence")
        else: order(f"table|{con}.evidence_card", "the numbers of states: in the order of the evidence", th, names, EV, wh)
        # states
        sn = one(a.get("state_names"))
        if sn is None:
            if not a.get("state_names"): J.formula(f"table|{con}.states", "the states of the variables", th, F, T, wh)
            else: rep.undec(f"{con}: the states of the variables")
        else:
            DOM = (DOMS, App("attr:domain", App("attr:store", f_)))
            whole = sn in DOM or sn.tag == "coll" and len(blocks(sn)) == 1 and any(y in DOM for y in walk(sn)) and all(y.tag != "app" or y in DOM or y.args[0] in ("get", "list", "attr:store") for y in walk(sn)) and (lambda o: o[1][0].tag == "in" and o[1][0].args[1] is o[1][1] and o[1][2] is not None and o[1][2].tag == "app" and o[1][2].args[0] == "get")(opened(blocks(sn)[0].args[0], *blocks(sn)[0].args[1:]))
            if whole: rep.ok(f"{con}: the states of the variables")
            elif isc(sn) or sn.tag == "coll" and any(y in (LD, RIGHT, LEFT) for y in walk(sn)) and DOMS not in set(walk(sn)): J.formula(f"table|{con}.states", "the states of the variables", th, F, T, wh)
            else: rep.undec(f"{con}: the states of the variables")
        # values
        va = one(a.get("values"))
        while va is not None and va.tag == "app" and va.args[0] in (".tolist", "lib:numpy.array", "lib:numpy.asarray", ".copy"): va = va.args[1]
        fac = None
        if va is not None and va.tag == "app" and va.args[0] in (".reshape", "lib:numpy.reshape"):
            shape = va.args[2:]
            if len(shape) == 1 and shape[0].tag in ("tup", "coll"): shape = tuple(y[3] for y in (sequence(shape[0]) or []))
            inner = va.args[1]
            if inner.tag == "app" and inner.args[0] == ".values_array" and inner.args[1] is f_: fac = inner
            if len(shape) == 2 and shape[0] is C(-1) and card(shape[1]) is v: J.formula(f"table|{con}.shape", "the values: one row per state of the variable", th, F, T, wh)
            elif len(shape) == 2 and card(shape[0]) is not None: J.formula(f"table|{con}.shape", "the values: one row per state of the variable", th, T if card(shape[0]) is v and shape[1] is C(-1) or card(shape[0]) is v else F, T, wh)
            else: rep.undec(f"{con}: the shape of the values"); fac = None
        if fac is None: rep.undec(f"{con}: the values")
        elif len(fac.args) < 3: J.formula(f"table|{con}.values", "the values: laid out over the variable and the evidence in their order", th, F, T, wh)
        else:
            lay = sequence(fac.args[2])
            if not lay: rep.undec(f"{con}: the values"); continue
            if lay[0][3] is v and not lay[0][0]: order(f"table|{con}.values", "the values: laid out in the order of the evidence", th, Coll("list", *[Blk(f, And(g, *remark(m)), y) for f, g, m, y in lay[1:]]), EV, wh)
            elif any(y is v for f, g, m, y in lay): J.formula(f"table|{con}.values", "the values: laid out over the variable first", th, F, T, wh)
            else: rep.undec(f"{con}: the values")

    # ---- a pgmpy table as a factor
    wh, con = fn_where("toMultinomialFactor"), "toMultinomialFactor"
    b = bench(); th = b.theory
    b.V.opaque_classes = set(b.V.opaque_classes) | {"MultinomialFactor"}
    b.fn(MOD, "toMultinomialFactor")
    x = b.at("toMultinomialFactor(cpd)")
    rep.count("conversions")
    t = None if x.dead else x.snap()
    if t is None or t.tag != "app" or t.args[0] != "new:MultinomialFactor": rep.undec(f"{con}: the factor that is built is not followed")
    else:
        a = given(t, params(ctx, "MultinomialFactor", "__init__"))
        D = one((a or {}).get("domain"))
        if D is None: rep.undec(f"{con}: the domain")
        else:
            keys = lambda d: Coll("list", *[Blk(f, g, y) for f, g, y in [(lambda o: (list(o[0]), o[1][0], o[1][1]))(opened(k.args[0], *k.args[1:])) for k in blocks(d)]]) if d.tag == "coll" else d
            DK = keys(D)
            state = lambda y: y.args[2] if y.tag == "app" and y.args[0] == "get" and y.args[1] in (SN, D) else None
            J.formula(f"factor|{con}.domain", "the domain: the variables of the table", th, Or(*[Ex(f, And(g, Eq(e, y))) for f, g, m, y in parts(DK)]), In(SN, e), wh)
            R, L = a.get("right_vars"), a.get("left_vars")
            OWN = App("attr:variable", cpd)
            if R and one(R) is not None and one(R).tag == "coll":
                got = And(In(VARS, e), In(SN, e), In(one(R), e)); spec = And(In(VARS, e), In(SN, e), Not(Eq(e, OWN)))
                J.formula(f"factor|{con}.right_vars", "the right variables: all but the table's own", th, got, spec, wh)
            elif L and one(L) is not None:
                l = one(L); s = sequence(l)
                if l is OWN or s and len(s) == 1 and s[0][3] is OWN: rep.ok(f"{con}: the left variable")
                else: rep.undec(f"{con}: the left variable")
            else: J.formula(f"factor|{con}.right_vars", "the right variables: all but the table's own", th, F, T, wh) if not R and not L else rep.undec(f"{con}: the right variables")
            V = one(a.get("values"))
            shape = None
            if V is not None and V.tag == "app" and V.args[0] in ("lib:numpy.reshape", ".reshape"):
                shape = V.args[2] if len(V.args) == 3 else None
                V = V.args[1]
                sk = keyed(shape, lambda y, f: state(y.args[-1]) if y.tag == "len" or y.tag == "app" and y.args[0] == "len" else None) if shape is not None else None
                if sk is None: rep.undec(f"{con}: the shape of the values")
                else: order(f"factor|{con}.shape", "the values: shaped in the order of the domain", th, sk, DK, wh)
            got = alternatives(V) if V is not None and V.tag == "coll" else None
            if not got or len(got) != 1: rep.undec(f"{con}: the values")
            else:
                fv, g, el = got[0]
                prod = g.args[0] if g.tag == "in" and g.args[1] in fv and g.args[0].tag == "app" and g.args[0].args[0] == "lib:itertools.product" else None
                st = prod.args[1].args[0] if prod is not None and len(prod.args) == 2 and prod.args[1].tag == "star" else None
                pk = keyed(st, lambda y, f: state(y)) if st is not None else None
                read = el.tag == "app" and el.args[0] == ".get_value" and el.args[1] is cpd and len(el.args) == 3 and el.args[2].tag == "kw" and el.args[2].args[0] == "**"
                zips = {y for y in walk(el) if y.tag == "app" and y.args[0] == "zip"}
                if pk is None or not read or len(zips) != 1 or next(iter(zips)).args[2] not in fv: rep.undec(f"{con}: the values")
                else:
                    order(f"factor|{con}.values", "the values: one for every combination of states, in the order of the domain", th, pk, DK, wh)
                    order(f"factor|{con}.assigned", "the values: read from the table with every state given to its own variable", th, keys(next(iter(zips)).args[1]), pk, wh)

    # ---- whole networks
    b = bench(); th = b.theory
    b.V.opaque_methods |= {"toTabularCPT", "toMultinomialFactor"}
    b.V.opaque_classes = set(b.V.opaque_classes) | {"BayesianNetwork"}
    for n in ("toBCauseBNet", "toPgmpyBNet"): b.fn(MOD, n)
    rep.count("conversions", 2)
    wh, con = fn_where("toBCauseBNet"), "toBCauseBNet"
    x = b.at("toBCauseBNet(net)")
    t = None if x.dead else x.snap()
    a = given(t, params(ctx, "BayesianNetwork", "__init__")) if t is not None and t.tag == "app" and t.args[0] == "new:BayesianNetwork" else None
    g, fs = (one(a.get("dag")), one(a.get("factors"))) if a else (None, None)
    if g is None or g.tag != "graph": rep.undec(f"{con}: the graph")
    else:
        y, z = fresh("y"), fresh("z")
        got = In(g.args[1], Tup(y, z))
        J.formula(f"network|{con}.arcs", "the arcs of the network", th, got, In(ARCS, Tup(y, z)), wh)
        ends = Ex([y], Or(In(ARCS, Tup(e, y)), In(ARCS, Tup(y, e))))
        J.formula(f"network|{con}.nodes", "the nodes of the network, with and without arcs", th, Or(In(g.args[0], e), ends), Or(In(NODES, e), ends), wh)
    cpds = lambda c: alternatives(c)
    if fs is None: rep.undec(f"{con}: the factors")
    else:
        ok = None
        if fs.tag == "coll" and len(blocks(fs)) == 1:
            fv, (gd, k, v) = opened(blocks(fs)[0].args[0], *blocks(fs)[0].args[1:])
            gd = uncut(gd)
            if kind(fs) == "list": k, v = None, k
            if len(fv) == 1 and v is not None and v.tag == "app" and v.args[0] == ".toMultinomialFactor":
                ok = True
                J.formula(f"network|{con}.factors", "the factors: of all the tables", th, gd, In(CPDS, fv[0]), wh)
                J.formula(f"network|{con}.factors.own", "the factors: each from the table of its variable", th, T if v.args[1] is fv[0] and (k is None or k is App("attr:variable", fv[0])) else F, T, wh)
        if not ok: rep.undec(f"{con}: the factors")

    def to_net(src, fnwh, con, model=None):
        x = b.at(src)
        nets = [c for c in x.calls if c[0] == "pgmpy.models.BayesianNetwork"]
        adds = [c for c in x.calls if c[0] == ".add_cpds"]
        if x.dead or not nets: rep.undec(f"{con}: the network that is built is not followed"); return
        g = nets[-1][2][0] if nets[-1][2] else None
        y, z = fresh("y"), fresh("z")
        if g is None: rep.undec(f"{con}: the graph")
        elif g.tag == "graph":
            J.formula(f"network|{con}.nodes", "the nodes of the model, with and without arcs", th, In(g.args[0], e), In(N_, e), fnwh)
            J.formula(f"network|{con}.arcs", "the arcs of the model", th, In(g.args[1], Tup(y, z)), In(E_, Tup(y, z)), fnwh)
        elif g.tag == "coll":      # a list of arcs: nodes without arcs are added otherwise
            J.formula(f"network|{con}.arcs", "the arcs of the model", th, In(g, Tup(y, z)), In(E_, Tup(y, z)), fnwh)
            more = [c for c in x.calls if c[0] == ".add_nodes_from"]
            J.formula(f"network|{con}.nodes", "the nodes of the model, with and without arcs", th, Or(Ex([y], Or(In(E_, Tup(e, y)), In(E_, Tup(y, e)))), *[In(c[2][1], e) for c in more if len(c[2]) > 1]), In(N_, e), fnwh)
        else: rep.undec(f"{con}: the graph")
        got = []
        for c in adds:
            for arg in c[2][1:]:
                al = alternatives(arg.args[0]) if arg.tag == "star" else [([], T, arg)]
                if al is None: got = None; break
                loop = list(arg.fv)         # variables of loops around the call
                cs = [q for q in (c[1].args if c[1].tag == "and" else [c[1]]) if q.size < 40]        # (without the conditions under which an earlier step is an error)
                when = And(*[q for q in cs if q.fv & set(loop)]) if loop else And(*cs) if len(adds) > 1 and arg.tag != "star" else T
                got += [(loop + list(f), And(when, g), y) for f, g, y in al]
            if got is None: break
        if got is None or not adds: 
            if not adds: J.formula(f"network|{con}.tables", "the tables of all the factors", th, F, T, fnwh)
            else: rep.undec(f"{con}: the tables")
            return
        tables = []
        for f, g, y in got:
            if y.tag == "app" and y.args[0] == ".toTabularCPT" and y.args[1] is NONE: continue          # an error
            if not (y.tag == "app" and y.args[0] == ".toTabularCPT"): rep.undec(f"{con}: the tables"); return
            for cd, z in cases(y.args[1]):
                if th.table(And(g, cd), F) == "same": continue
                if z.tag == "app" and z.args[0] == ".to_multinomial": z = z.args[1]
                if not (z.tag == "app" and z.args[0] == "get"): rep.undec(f"{con}: the tables"); return
                tables.append((f, And(g, cd), z))
        if {z.args[1] for f, g, z in tables} != {FS}: rep.undec(f"{con}: the tables"); return
        J.formula(f"network|{con}.tables", "the tables of all the factors", th, Or(*[Ex(f, And(g, Eq(e, z.args[2]))) for f, g, z in tables]), In(FS, e), fnwh)
        return x, nets
    to_net("toPgmpyBNet(bn)", fn_where("toPgmpyBNet"), "toPgmpyBNet")

    # ---- files that pgmpy reads and writes
    b.V.opaque_classes = set(b.V.opaque_classes) - {"BayesianNetwork"}
    b.theory.subsets = list(b.theory.subsets) + [(N_, FS), (FS, N_)]
    for mod, arg, fmt in [(x, y, z) for x, y in (("bnwrite", "bn"), ("scmwrite", "m")) for z in ("bif", "xmlbif")]:
        mod_ = f"bcause.readwrite.{mod}"; f = ctx.w.fn(mod_, f"to_{fmt}")
        b.fn(mod_, f"to_{fmt}"); con = f"{mod}.to_{fmt}"; fnwh = f"{f.module.relpath} {f.qual}"
        rep.count("writers")
        try: r = to_net(f"to_{fmt}({arg}, path)", fnwh, con)
        except Budget: rep.undec(f"{con}: too large"); continue
        if r is None: continue
        x, nets = r
        kinds = [c for c in x.calls if c[0].startswith("pgmpy.readwrite.") and c[0].endswith("Writer")]
        if not kinds or any(not c[2] for c in kinds): rep.undec(f"{con}: the writer"); continue
        J.formula(f"files|{con}.format", "the format that is asked for", th, T if all(c[0] == f"pgmpy.readwrite.{fmt.upper()}Writer" for c in kinds) else F, T, fnwh)
        t = kinds[-1][2][0]
        if t.tag == "app" and t.args[0] == "lib:pgmpy.models.BayesianNetwork": rep.ok(f"{con}: the network that is built is the one that is written")
        else: rep.undec(f"{con}: the network that is written")
    for mod, fmt in [(x, z) for x in ("bnread", "scmread") for z in ("bif", "xmlbif")]:
        mod_ = f"bcause.readwrite.{mod}"; f = ctx.w.fn(mod_, f"from_{fmt}")
        b.fn(mod_, f"from_{fmt}"); con = f"{mod}.from_{fmt}"; fnwh = f"{f.module.relpath} {f.qual}"
        rep.count("readers")
        b.V.opaque_methods |= {"toBCauseBNet"}
        try: x = b.at(f"from_{fmt}(path)")
        except Budget: rep.undec(f"{con}: too large"); continue
        finally: b.V.opaque_methods -= {"toBCauseBNet"}
        nets = [c for c in x.calls if c[0] == "toBCauseBNet"]
        if x.dead or not nets or any(not c[2] for c in nets): rep.undec(f"{con}: the network that is read is not followed"); continue
        for c in nets:
            t = c[2][0]; r = t.args[1] if t.tag == "app" and t.args[0] == ".get_model" else None
            if r is None or r.tag != "app" or not str(r.args[0]).startswith("lib:pgmpy.readwrite."): rep.undec(f"{con}: the reader"); continue
            J.formula(f"files|{con}.format", "the format that is asked for", th, T if r.args[0] == f"lib:pgmpy.readwrite.{fmt.upper()}Reader" else F, T, fnwh)
            J.formula(f"files|{con}.path", "the file that is named", th, T if any(y is sym("path") for y in walk(r)) else F, T, fnwh)


def nonempty_of(c):
    x = fresh("n")
    return Ex([x], In(c, x))
