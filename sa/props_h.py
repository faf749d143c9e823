"""Property deciders on Engine B: c-components and the q-decomposition of a causal model."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import where, FS, N_, E_, EN, en_, n_, ed_
from props_c import inference_bench
from props_d import walk
from props_e import mapped, params
from props_g import unmarked, plain, mark, given, one
from values import Budget
from models import separate
from props_e import uncut

CC, CM, ORD, ANY, DES, OWN, QE = (sym(n) for n in ("Components", "InComponent", "Before", "Somehow", "Descends", "component", "Q"))
ALL_, ONE = "lib:networkx.connected_components", "lib:networkx.node_connected_component"
COMP = {ALL_: ALL_, ONE: ONE, "lib:networkx.weakly_connected_components": ALL_}


class Unread(Exception): pass


def conj(g): return list(g.args) if g.tag == "and" else [g]


def ranked(L):
    """whether a list is in topological order: True, False (in an order that has nothing to do with it)"""
    if L.tag != "coll": raise Unread("order")
    seen = set()
    for k in blocks(L):
        fvs, (g, el, v) = opened(k.args[0], *k.args[1:])
        if len(fvs) != 1 or el is not fvs[0]: raise Unread("order")
        seen.add(frozenset(m for m in unmarked(g)[1]))
    if seen == {frozenset({"topo"})}: return True
    if seen == {frozenset()}: return False
    raise Unread("order")


def c18(ctx, rep):
    rep.rule("for a symbolic model with any graph and any endogenous variables the graph whose connected components are taken, the components, their parts, the arcs of the graph of the q-decomposition, and the queries that give its factors are derived "
             "and compared with their definition; a position in a list that comes from a topological order is read as a relation between variables, so that every arc that is added must run forward in that order")
    J = Judge(rep)
    C_ = "DiscreteCausalDAGModel"; SCM = "StructuralCausalModel"
    v_, data_, vs_ = sym("v"), sym("data"), sym("vs")

    def bench(orders=False, opaque=(), methods=(), none=None):
        b = inference_bench(ctx)
        b.V.orders = orders
        b.V.opaque_classes = set(b.V.opaque_classes) | set(opaque)
        b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | set(methods)
        b.let("v", v_); b.let("data", data_); b.let("vs", vs_)
        old = b.theory.facts
        b.theory.facts = lambda a: False if a.tag == "eq" and NONE in a.args and (data_ in a.args or vs_ in a.args) else old(a) if old else None
        b.theory.edges = list(b.theory.edges) + [(r, N_) for r in (CM, ORD, ANY, DES, QE)]
        b.theory.within = {**b.theory.within, OWN: N_}
        b.theory.strict = False
        return b

    graphs = set()          # graphs that were compared with the definition already

    def named(t, con, wh, th):
        """the term with the components named: In(Cm, (component, member)); their graph is compared with its definition"""
        def graph_ok(g, key):
            if g.tag == "app" and g.args[0] in (".to_undirected",): g = g.args[1]
            if g.tag != "graph": raise Unread("the graph of the components")
            y, z = fresh("y"), fresh("z")
            if (con, g) in graphs: return
            graphs.add((con, g))
            nodes, edges = plain(g.args[0]), plain(g.args[1])
            sym_ = lambda r: Or(r(y, z), r(z, y))
            J.formula(f"component|{con}.arcs", "components: of the arcs that leave exogenous variables", th, sym_(lambda p, q: In(edges, Tup(p, q))), sym_(lambda p, q: And(ed_(p, q), Not(en_(p)))), wh)
            ends = Ex([z], Or(And(ed_(y, z), Not(en_(y))), And(ed_(z, y), Not(en_(z)))))
            J.formula(f"component|{con}.nodes", "components: of the variables these arcs join", th, And(In(N_, y), ends, Or(In(nodes, y), Ex([z], Or(In(edges, Tup(y, z)), In(edges, Tup(z, y)))))), And(In(N_, y), ends), wh)
        def name(n):
            if n.tag == "app" and n.args[0] in COMP:
                k = COMP[n.args[0]]
                graph_ok(n.args[1], k)
                return CC if k == ALL_ else OWN if n.args[2] is v_ else App("own", n.args[2])
            if n.tag == "in" and n.args[0].tag in ("fv", "bv"): return In(CM, Tup(n.args[0], n.args[1]))
            if n.tag == "in" and (n.args[0] is OWN or n.args[0].tag == "app" and n.args[0].args[0] == "own"): return In(CM, Tup(n.args[0], n.args[1]))
            return n
        return mapped(t, name)

    def read(src, con, wh, b, coll=False):
        rep.count("operations")
        try: x = b.at(src)
        except Budget: rep.undec(f"{con}: too large"); return None
        if x.dead: rep.undec(f"{con}: not followed"); return None
        t = x.coll() if coll else x.snap()
        try: return x, named(t, con, wh, b.theory)
        except Unread as ex: rep.undec(f"{con}: {ex}"); return None

    def sized(a, k):
        """whether a condition on the number of members holds for a component of every size; None when it is something else"""
        neg = a.tag == "not"; a = a.args[0] if neg else a
        if not (a.tag == "cmp" or a.tag == "app" and a.args[0] == "cmp"): return None
        op, p, q = a.args if a.tag == "cmp" else a.args[1:]
        op = op.args[1] if isinstance(op, N) else op
        num = lambda t, n: t.args[1] if isc(t) and isinstance(t.args[1], int) else n if t.tag == "len" and t.args[0] is k or t.tag == "app" and t.args[0] == "len" and t.args[1] is k else None
        rel = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}.get(op)
        if rel is None or num(p, 2) is None or num(q, 2) is None: return None
        return all(rel(num(p, n), num(q, n)) != neg for n in range(2, 12))

    inm = lambda c, e: In(CM, Tup(c, e))
    part = {"": lambda c, e: inm(c, e), "endo_": lambda c, e: And(inm(c, e), en_(e)), "exo_": lambda c, e: And(inm(c, e), Not(en_(e)))}
    for p, spec in part.items():
        # ---- the lists of components
        con, wh = f"{C_}.{p}ccomponents", where(ctx, C_, f"{p}ccomponents")
        b = bench(); th = b.theory
        r = read(f"m.{p}ccomponents", con, wh, b)
        if r is not None:
            c = r[1]; e = fresh("x")
            if c is CC and not p: rep.ok(f"{con}: all of them")
            elif c.tag != "coll" or len(blocks(c)) != 1: rep.undec(f"{con}: the list")
            else:
                fvs, (g, el, _) = opened(blocks(c)[0].args[0], *blocks(c)[0].args[1:])
                k = fvs[0] if len(fvs) == 1 else None
                if k is None or In(CC, k) not in conj(g): rep.undec(f"{con}: the list")
                else:
                    extra = [sized(a, k) for a in conj(g) if a is not In(CC, k)]
                    if extra and all(x is not None for x in extra): J.formula(f"component|{con}.all", "all the components", th, T if all(extra) else F, T, wh)
                    elif not any(In(CC, k) is a and len(conj(g)) == 1 for a in conj(g)): J.formula(f"component|{con}.all", "all the components", th, Ex([k], And(In(CC, k), Not(g))), F, wh)
                    else: rep.ok(f"{con}: all the components")
                    got = inm(k, e) if el is k else In(el, e)
                    J.formula(f"component|{con}", "the members of each", th, And(In(N_, e), got), And(In(N_, e), spec(k, e)), wh)
        # ---- the component of a variable
        con, wh = f"{C_}.get_{p}ccomponent", where(ctx, C_, f"get_{p}ccomponent")
        b = bench(); th = b.theory
        r = read(f"m.get_{p}ccomponent(v)", con, wh, b)
        if r is not None:
            c = r[1]; e = fresh("x"); own = OWN
            if not p and c is own: rep.ok(f"{con}: the component of the variable")
            else:
                try: J.formula(f"component|{con}", "the members of the component of the variable", th, And(In(N_, e), named(In(c, e), con, wh, th)), And(In(N_, e), spec(own, e)), wh)
                except Unread as ex: rep.undec(f"{con}: {ex}")

    # ---- endogenous and exogenous neighbours
    for meth, spec in (("get_edogenous_parents", lambda e: And(ed_(e, v_), en_(e))), ("get_exogenous_parents", lambda e: And(ed_(e, v_), Not(en_(e)))), ("get_edogenous_children", lambda e: And(ed_(v_, e), en_(e))), ("get_exogenous_children", lambda e: And(ed_(v_, e), Not(en_(e))))):
        con, wh = f"{C_}.{meth}", where(ctx, C_, meth)
        b = bench(); e = fresh("x")
        r = read(f"m.{meth}(v)", con, wh, b)
        if r is not None: J.formula(f"component|{con}", "the neighbours of that kind", b.theory, In(r[1], e), spec(e), wh)

    # ---- the graph of the q-decomposition
    con, wh = f"{C_}.qgraph", where(ctx, C_, "qgraph")
    b = bench(orders=True); th = b.theory; th.wider = 2        # three endogenous variables and an exogenous one
    r = read("m.qgraph", con, wh, b)
    if r is not None:
        g = r[1]; y, z = fresh("y"), fresh("z")
        def rel(n):
            if n.tag == "app" and n.args[0] == "cmp" or n.tag == "cmp":
                a = n.args[1:] if n.tag == "app" else n.args
                op = a[0].args[1] if isinstance(a[0], N) else a[0]
                p, q = a[1], a[2]
                if not all(t.tag == "app" and t.args[0] == "pos" for t in (p, q)) or op not in ("<", "<=", ">", ">="): raise Unread("a comparison")
                if op in (">", ">="): p, q, op = q, p, "<" if op == ">" else "<="
                if p.args[3] is not q.args[3]: raise Unread("a comparison")
                R = ORD if ranked(p.args[1]) and ranked(q.args[1]) else ANY
                t = In(R, Tup(p.args[2], q.args[2]))
                return t if op == "<" else Or(t, Eq(p.args[2], q.args[2]))
            if n.tag == "in" and n.args[0].tag == "app" and n.args[0].args[0] == "slice":
                L, lo, up, st = n.args[0].args[1:]
                if lo not in (NONE, C(0)) or st not in (NONE, C(1)) or not (up.tag == "app" and up.args[0] == "pos" and up.args[3] is C(0)): raise Unread("a part of a list")
                R = ORD if ranked(L) and ranked(up.args[1]) else ANY
                return And(In(L, n.args[1]), In(R, Tup(n.args[1], up.args[2])))
            if n.tag == "in" and n.args[0].tag == "app" and n.args[0].args[0] in ("lib:networkx.descendants", "lib:networkx.ancestors"):
                G = n.args[0].args[1]
                if G.tag != "graph" or any(k is CC or k is CM for k in walk(G)): raise Unread("descendants in a graph that grows")
                p, q = n.args[0].args[2], n.args[1]
                return In(DES, Tup(p, q) if n.args[0].args[0].endswith("descendants") else Tup(q, p))
            return n
        try:
            if g.tag != "graph": raise Unread("the graph")
            # terms are rebuilt from the inside: lists in them keep their marks until the relation is read
            got = plain(mapped(uncut(In(g.args[1], Tup(y, z))), rel))
            got = plain(mapped(got, rel))
            if any(k.tag == "app" and k.args[0] in ("pos", "slice") or k.tag == "top" for k in walk(got)): raise Unread("arcs that are not followed")
            k, w = fresh("c"), fresh("w")
            before = In(ORD, Tup(y, z))
            own = lambda e: And(inm(k, e), en_(e))
            def spec(*more): return And(en_(y), en_(z), Or(ed_(y, z), And(before, Ex([k], And(In(CC, k), own(z), own(y)))), And(before, Ex([k, w], And(In(CC, k), own(z), own(w), ed_(y, w), *more)))))
            want = next((x for x in (spec(Not(inm(k, y))), spec(Not(own(y)))) if th.table(got, x) == "same"), spec())       # (the same arcs: a parent in the component comes with the rest of it)
            # in a topological order arcs run forward, and an order has no loops
            order = And(Implies(And(ed_(y, z), en_(y), en_(z)), before), Not(And(before, In(ORD, Tup(z, y)))), Not(And(Eq(y, z), before)))
            J.formula(f"decomposition|{con}.forward", "every arc runs forward in one topological order: there is no cycle", th, And(order, got, Not(before)), F, wh)
            what = "the arcs: from what precedes a variable in its component, and from the parents of the component that precede it"
            if th.table(got, want) == "same": rep.ok(f"{con}.arcs: {what}")
            else:
                d = separate(th, got, want, order, tries=6000)
                if d is not None: rep.bad("decomposition", f"{con}.arcs", f"{what}: differs for {desc(d)}", wh)
                else: rep.undec(f"{con}.arcs: {what}")
            e = fresh("x")
            J.formula(f"decomposition|{con}.nodes", "the variables: the endogenous ones", th, And(en_(e), In(plain(mapped(uncut(g.args[0]), rel)), e)), en_(e), wh)
        except Unread as ex: rep.undec(f"{con}: {ex}")
        except Budget: rep.undec(f"{con}: too large")

    # ---- its factors
    con, wh = f"{SCM}.get_qfactors", where(ctx, SCM, "get_qfactors")
    for src, cls, dat in (("m.get_qfactors(v)", "VariableElimination", False), ("m.get_qfactors(v, data)", "LaplaceInference", True)):
        b = bench(opaque=("VariableElimination", "LaplaceInference"), methods=("get_qgraph",)); th = b.theory
        tag = f"{con} ({'data' if dat else 'model'})"
        r = read(src, tag, wh, b)
        if r is None: continue
        model = b.st.frames[0]["m"]
        c = r[1]
        doms = b.at("m.domains").snap()
        if c.tag != "coll": rep.undec(f"{tag}: the factors"); continue
        e = fresh("x"); own = OWN
        keys = []
        for k in blocks(c):
            fvs, (g, key, val) = opened(k.args[0], *k.args[1:])
            keys.append((fvs, g, key))
            for cd, q in cases(val):
                if th.table(And(g, cd), F) == "same": continue
                if not (q.tag == "app" and q.args[0] == ".query" and q.args[1].tag == "app" and str(q.args[1].args[0]).startswith("new:")): rep.undec(f"{tag}: the query"); continue
                inf = q.args[1]
                a = given(q, ["target", "evidence"] if False else params(ctx, "VariableElimination", "query"), 1)
                tg, cond = (one(a.get("target")), one(a.get("conditioning"))) if a else (None, None)
                J.formula(f"decomposition|{tag}.inference", "by inference in the model, or from the data when they are given", th, T if inf.args[0] == "new:" + cls else F, T, wh)
                if inf.args[0] == "new:" + cls and cls == "LaplaceInference":
                    if len(inf.args) < 3: rep.undec(f"{tag}: the data"); continue
                    J.formula(f"decomposition|{tag}.data", "from the data that are given", th, T if inf.args[1] is data_ else F, T, wh) if inf.args[1] is data_ or not any(y is data_ for y in walk(inf.args[1])) else rep.undec(f"{tag}: the data")
                    if th.simp(plain(inf.args[2])) is th.simp(plain(doms)): rep.ok(f"{tag}: over the domains of the model")
                    else: rep.undec(f"{tag}: the domains")
                elif inf.args[0] == "new:" + cls:
                    if len(inf.args) == 2 and inf.args[1] is model: rep.ok(f"{tag}: in this model")
                    else: rep.undec(f"{tag}: the model")
                if tg is None: rep.undec(f"{tag}: the target"); continue
                ts = [tg] if tg is key else [x[1].args[1] for x in [(0, y) for y in blocks(tg)] if not x[1].args[0]] if tg.tag == "coll" else None
                if tg is key: rep.ok(f"{tag}: of the variable itself")
                elif tg.tag == "coll" and len(blocks(tg)) == 1 and not blocks(tg)[0].args[0] and blocks(tg)[0].args[2] is key: rep.ok(f"{tag}: of the variable itself")
                elif tg.tag in ("fv", "sym") and tg is not key: J.formula(f"decomposition|{tag}.target", "of the variable itself", th, F, T, wh)
                else: rep.undec(f"{tag}: the target")
                QG = App("attr:edges", App(".get_qgraph", model))
                if cond is None: J.formula(f"decomposition|{tag}.conditioning", "given its parents in the decomposition", th, F, T, wh) if a and not a.get("conditioning") else rep.undec(f"{tag}: the conditioning"); continue
                if not any(y.tag == "app" and y.args[0] == ".get_qgraph" for y in walk(cond)) and any(y.tag == "app" and str(y.args[0]).startswith(".") for y in walk(cond)): rep.undec(f"{tag}: the conditioning"); continue
                name = lambda n: QE if n is QG else n
                J.formula(f"decomposition|{tag}.conditioning", "given its parents in the decomposition", th, And(g, cd, In(mapped(plain(cond), name), e)), And(g, cd, In(QE, Tup(e, key))), wh)
        J.formula(f"decomposition|{tag}.variables", "one factor for every endogenous variable of the component", th, And(In(N_, e), Or(*[Ex(f, And(g, Eq(e, k))) for f, g, k in keys])), And(In(N_, e), inm(own, e), en_(e)), wh)

    con, wh = f"{SCM}.get_qfactorisation", where(ctx, SCM, "get_qfactorisation")
    for src, dat in (("m.get_qfactorisation()", None), ("m.get_qfactorisation(data)", data_)):
        tag = f"{con} ({'data' if dat else 'model'})"
        b = bench(methods=("get_qfactors",)); th = b.theory
        r = read(src, tag, wh, b)
        if r is None: continue
        c = r[1]; model = b.st.frames[0]["m"]; e = fresh("x"); ok = c.tag == "coll" and len(blocks(c)) == 1
        if ok:
            fvs, (g, key, val) = opened(blocks(c)[0].args[0], *blocks(c)[0].args[1:])
            qs = {n for n in walk(val) if n.tag == "app" and n.args[0] == ".get_qfactors"}
            q = next(iter(qs)) if len(qs) == 1 else None
            ok = q is not None and val is Get(q, key) and len(q.args) >= 3
        if not ok: rep.undec(f"{tag}: the factors"); continue
        pick = q.args[2]
        src_ = next((n for n in walk(pick) if n in fvs), None)
        given_ = [a for a in q.args[3:]]
        d = given_[0].args[1] if given_ and given_[0].tag == "kw" else given_[0] if given_ else NONE
        J.formula(f"decomposition|{tag}.data", "every factor from the data that are given", th, T if d is (dat or NONE) else F, T, wh)
        gs = [In(CC, a.args[1].args[0]) if a.tag == "in" and a.args[0] is CM and a.args[1].args[1] is src_ else a for a in conj(g)]
        rest = [a for a in conj(g) if not (a.tag == "in" and (a.args[0] is CC or a.args[0] is q or a.args[0] is CM and a.args[1].args[0] is q))]
        if src_ is None: rep.undec(f"{tag}: the components"); continue
        extra = [sized(a, src_) for a in rest]
        if extra and all(x is not None for x in extra): J.formula(f"decomposition|{tag}.components", "for every component", th, T if all(extra) else F, T, wh)
        elif rest: J.formula(f"decomposition|{tag}.components", "for every component", th, And(*[a for a in conj(g) if a not in rest], Not(And(*rest))), F, wh)
        elif any(a.tag == "in" and a.args[0] is CC and a.args[1] is src_ for a in conj(g)): rep.ok(f"{tag}: for every component")
        else: rep.undec(f"{tag}: for every component")

    # ---- the network and the likelihoods
    con, wh = f"{SCM}.get_qbnet", where(ctx, SCM, "get_qbnet")
    for src, dat in (("m.get_qbnet()", NONE), ("m.get_qbnet(data)", data_)):
        tag = f"{con} ({'data' if dat is data_ else 'model'})"
        b = bench(opaque=("BayesianNetwork",), methods=("get_qfactorisation", "get_qgraph"))
        r = read(src, tag, wh, b)
        if r is None: continue
        t = r[1]
        a = given(t, params(ctx, "BayesianNetwork", "__init__")) if t.tag == "app" and t.args[0] == "new:BayesianNetwork" else None
        g, f = (one(a.get("dag")), one(a.get("factors"))) if a else (None, None)
        if g is not None and g.tag == "app" and g.args[0] == ".get_qgraph": rep.ok(f"{tag}: over the graph of the decomposition")
        elif g is not None and g.tag == "graph": J.formula(f"decomposition|{tag}.graph", "over the graph of the decomposition", b.theory, F, T, wh)
        else: rep.undec(f"{tag}: the graph")
        if f is None or f.tag != "app" or f.args[0] != ".get_qfactorisation": rep.undec(f"{tag}: the factors"); continue
        d = f.args[2] if len(f.args) > 2 else NONE
        d = d.args[1] if d.tag == "kw" else d
        J.formula(f"decomposition|{tag}.factors", "with the factors from the data that are given", b.theory, T if d is dat else F, T, wh)
    for meth, dat in (("log_likelihood", NONE), ("max_log_likelihood", data_)):
        con, wh = f"{SCM}.{meth}", where(ctx, SCM, meth)
        for src, var in ((f"m.{meth}(data)", NONE), (f"m.{meth}(data, vs)", vs_)):
            tag = con + (" (of some variables)" if var is vs_ else "")
            b = bench(methods=("get_qbnet", "log_prob"))
            r = read(src, tag, wh, b)
            if r is None: continue
            lp = {n for n in walk(r[1]) if n.tag == "app" and n.args[0] == ".log_prob"}
            t = r[1]
            if len(lp) != 1 or not (t.tag == "app" and t.args[0] in ("lib:numpy.sum", "sum", "lib:builtins.sum", "lib:math.fsum") and len(t.args) == 2): rep.undec(f"{tag}: the sum"); continue
            k = next(iter(lp))
            if t.args[1] is not k and any(isinstance(n, N) and n.tag == "app" and n.args[0] == "slice" for n in walk(t)): rep.undec(f"{tag}: the sum"); continue
            q = k.args[1]
            if not (q.tag == "app" and q.args[0] == ".get_qbnet"): rep.undec(f"{tag}: the network"); continue
            d = q.args[2] if len(q.args) > 2 else NONE
            d = d.args[1] if d.tag == "kw" else d
            J.formula(f"likelihood|{tag}.network", "in the network of " + ("the data" if dat is data_ else "the model"), b.theory, T if d is dat else F, T, wh)
            a = given(k, ["observations", "variables"], 1)
            o, vv = (one(a.get("observations")), one(a.get("variables", [(T, NONE)]))) if a else (None, None)
            if o is None or vv is None: rep.undec(f"{tag}: the arguments"); continue
            J.formula(f"likelihood|{tag}.variables", "of the variables that are asked for", b.theory, T if vv is var else F, T, wh) if vv in (NONE, vs_) else rep.undec(f"{tag}: the variables")
            if o.tag == "app" and o.args[0] == ".to_dict" and o.args[1] is data_ and len(o.args) == 3: rep.ok(f"{tag}: over all the records")
            elif o.tag == "app" and o.args[0] == ".to_dict" and any(isc(c) and isinstance(c.args[1], int) for c in walk(o)): J.formula(f"likelihood|{tag}.records", "over all the records", b.theory, F, T, wh)
            else: rep.undec(f"{tag}: the records")
    rep.least("operations", 15)
