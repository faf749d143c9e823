"""Properties decided with Engine B (values.py): membership and provenance of what an operation returns."""
from __future__ import annotations
from terms import *
from bench import Bench, Judge, mem
from values import Budget

VTYPES = ("numpy", "numpy1d", "list", "treedict")
STORE = {"numpy": "NumpyStore", "numpy1d": "Numpy1DStore", "list": "ListStore", "treedict": "TreeDictStore"}


def stores(ctx):
    """the value types the library offers, as store_dict declares them"""
    import ast
    m = ctx.w.modules.get("bcause.factors.values")
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(v, ast.Name) for k, v in zip(n.keys, n.values)):
            out = [(k.value, v.id) for k, v in zip(n.keys, n.values)]
    return out or list(STORE.items())


def where(ctx, cls, name):
    k, m, _ = ctx.w.cls(cls).lookup(name)
    return f"{m.module.relpath} {m.qual}" if hasattr(m, "module") else cls


# ------------------------------------------------------------------------------------------------ C08
def plain_names(extra=()):
    """variable names do not start with an underscore (the constructors reject them), so no domain contains the internal ones"""
    def facts(a):
        if a.tag == "tru" and a.args[0].tag == "app" and a.args[0].args[0] == ".startswith": return False
        if a.tag == "in" and isc(a.args[1]) and isinstance(a.args[1].args[1], str) and a.args[1].args[1].startswith("_"): return False
        for f in extra:
            v = f(a)
            if v is not None: return v
        return None
    return facts


def factor_bench(ctx, vt, n=2, cls="MultinomialFactor"):
    D = [sym(f"D{i+1}") for i in range(n)]; R = [sym(f"R{i+1}") for i in range(n)]
    O = sym("O")
    def isi(t, name):
        if t.tag == "app" and t.args[0] == "get" and t.args[1] is O: return False if name in ("list", "tuple", "set", "dict") else None
        if t.tag == "fv" or (t.tag == "app" and t.args[0] == "get" and t.args[1] in D): return None
        return None
    b = Bench(ctx, subsets=list(zip(R, D)), isi=isi)
    b.cls(cls)
    for i in range(n):
        b.dict(f"D{i+1}", D[i]); b.lst(f"R{i+1}", R[i]); b.let(f"values{i+1}", sym(f"values{i+1}")); b.let("vt", C(vt))
        b.run(f"f{i+1} = {cls}(domain=D{i+1}, values=values{i+1}, right_vars=R{i+1}, vtype=vt)")
    b.lst("M", "M"); b.dict("O", O); b.let("e", sym("e"))
    b.theory.maps = (sym("mp"),)
    return b


def c08(ctx, rep):
    rep.rule("for symbolic factors with any domain and any right-hand variables, and for every store, the variables, right-hand variables and "
             "left-hand variables of the result of each operation are compared, as formulas over membership, with the scope algebra; the states "
             "recorded for a generic variable of the result are compared with those of the operands")
    J = Judge(rep)
    D1, R1, D2, R2, M, O, e = (sym(x) for x in ("D1", "R1", "D2", "R2", "M", "O", "e"))
    d1, d2, o = mem("dict", D1), mem("dict", D2), mem("dict", O)
    r1, r2, m = mem("list", R1), mem("list", R2), mem("list", M)
    l1, l2 = (lambda e: And(d1(e), Not(r1(e)))), (lambda e: And(d2(e), Not(r2(e))))
    comb = (lambda e: Or(d1(e), d2(e)), lambda e: And(Or(d1(e), d2(e)), Not(l1(e)), Not(l2(e))))
    div = (lambda e: Or(d1(e), d2(e)), lambda e: Or(d2(e), r1(e)))
    keep = (d1, r1)
    marg = (lambda e: And(d1(e), Not(m(e))), lambda e: And(r1(e), Not(m(e))))
    rest = (lambda e: And(d1(e), Not(o(e))), lambda e: And(r1(e), Not(o(e))))
    OPS = [("f1 * f2", "multiply", comb), ("f1 + f2", "addition", comb), ("f1 - f2", "subtract", comb), ("f1 / f2", "divide", div),
           ("f1 * 2.0", "multiply", keep), ("f1 + 2", "addition", keep), ("f1 - 2.0", "subtract", keep), ("f1 / 2.0", "divide", keep),
           ("2.0 * f1", "__rmul__", keep), ("1 + f1", "__radd__", keep), ("1 - f1", "__rsub__", keep),
           ("f1 ** M", "marginalize", marg), ("f1 ^ M", "maxmarginalize", marg),
           ("f1.restrict(**O)", "restrict", rest), ("f1.R(**O)", "R", rest)]
    unary = {id(keep), id(marg), id(rest)}
    MF = "MultinomialFactor"

    def examine(b, con, src, spec, wh, attrs=None, states=None):
        rep.count("operations")
        try: x = b.at(src)
        except Budget: rep.undec(con + ": too large"); return
        if x.dead: rep.undec(con + ": not followed"); return
        pc = x.cond()
        for attr in attrs or ("variables", "right_vars", "left_vars", "domain", "store.domain"):
            sp = {"variables": spec[0], "right_vars": spec[1], "left_vars": lambda e: And(spec[0](e), Not(spec[1](e))),
                  "right_domain": lambda e: And(spec[0](e), spec[1](e)), "left_domain": lambda e: And(spec[0](e), Not(spec[1](e)))}.get(attr, spec[0])
            if attr == "store.domain" and len(spec) > 2: sp = spec[2]
            J.members(f"scope|{con}.{attr}", f"{src}: {attr}", b.theory, x.coll("." + attr), sp, wh, pc)
        if states is not None:
            J.value(f"states|{con}", f"{src}: the states of a variable", b.theory, x.snap(".domain[e]"), states, wh, And(pc, spec[0](e)))

    for vt, store in stores(ctx):
        b = factor_bench(ctx, vt)
        if b.st.dead: rep.undec(f"MultinomialFactor with {vt} values cannot be built in the analysis"); continue
        for src, meth, spec in OPS:
            examine(b, f"{MF}.{meth}[{store}]", src, spec, where(ctx, MF, meth), states=Get(D1, e) if id(spec) in unary else None)
        examine(b, f"{MF}[{store}]", "f1", keep, where(ctx, MF, "__init__"), ("right_domain", "left_domain", "variables"), Get(D1, e))
        b.theory.facts = plain_names()
        # -- deterministic and interval factors, and what is built from them
        lv = sym("lv")
        b.let("lv", lv); b.let("x", sym("x")); b.let("lo", sym("lo")); b.let("up", sym("up")); b.dict("mp", "mp"); b.lst("fs", "fs")
        b.cls("DeterministicFactor"); b.cls("IntervalProbFactor")
        isv = lambda e: Eq(e, lv)
        b.theory.facts = plain_names([lambda a: True if a.tag == "in" and a.args[1] is lv and a.args[0] in (D1,) else None])
        st0 = b.st.copy()
        b.run("fd = DeterministicFactor(domain=D1, values=values1, left_vars=[lv], vtype=vt)")
        if b.st.dead: rep.undec(f"DeterministicFactor[{store}] not followed"); b.st.assign(st0)
        else:
            det = (d1, lambda e: And(d1(e), Not(isv(e))), lambda e: And(d1(e), Not(isv(e))))
            DF = "DeterministicFactor"
            examine(b, f"{DF}[{store}]", "fd", det, where(ctx, DF, "__init__"), states=Get(D1, e))
            examine(b, f"{DF}.to_multinomial[{store}]", "fd.to_multinomial()", det[:2], where(ctx, DF, "to_multinomial"), states=Get(D1, e))
            examine(b, f"{DF}.constant[{store}]", "fd.constant(x)", (lambda e: And(d1(e), isv(e)), lambda e: F, lambda e: F), where(ctx, DF, "constant"), states=Get(D1, e))
        mp = mem("dict", sym("mp"))
        def renamed(s):
            """the image of a set of variables under the mapping"""
            def f(y):
                v = fresh()
                return Or(And(s(y), Not(mp(y))), Ex([v], And(s(v), mp(v), Eq(Get(sym("mp"), v), y))))
            return f
        examine(b, f"{MF}.rename_vars[{store}]", "f1.rename_vars(mp)", (renamed(d1), renamed(r1)), where(ctx, MF, "rename_vars"), ("variables", "right_vars", "store.domain"))
        b.theory.facts = plain_names()
        for fn in ("uniform_multinomial", "random_multinomial", "random_deterministic"):
            b.fn("bcause.factors.mulitnomial", fn)
            f = ctx.w.fn("bcause.factors.mulitnomial", fn)
            examine(b, f"{fn}[{store}]", f"{fn}(D1, R1, vt)", keep, f"{f.module.relpath} {f.qual}", states=Get(D1, e))
        st0 = b.st.copy()
        b.run("fi = IntervalProbFactor(domain=D1, values_low=lo, values_up=up, left_vars=[v for v in D1 if v not in R1], vtype=vt)")
        if b.st.dead: rep.undec(f"IntervalProbFactor[{store}] not followed"); b.st.assign(st0)
        else:
            IF = "IntervalProbFactor"
            A = ("variables", "left_vars", "domain")
            examine(b, f"{IF}[{store}]", "fi", keep, where(ctx, IF, "__init__"), A, Get(D1, e))
            examine(b, f"{IF}.restrict[{store}]", "fi.restrict(**O)", rest, where(ctx, IF, "restrict"), A, Get(D1, e))
            examine(b, f"{IF}.rename_vars[{store}]", "fi.rename_vars(mp)", (renamed(d1), renamed(r1)), where(ctx, IF, "rename_vars"), ("variables",))


# ------------------------------------------------------------------------------------------------ C09
N_, E_, FS, EN, O_, S_, MP, v_, e_ = (sym(x) for x in ("N", "E", "F", "En", "O", "S", "mp", "v", "e"))


def model_bench(ctx, cast=False):
    """a graph with nodes N and edges E, a dictionary F with one factor per node, endogenous variables En (some, and some nodes are not)"""
    def isi(t, name):
        if t.tag == "app" and (t.args[0] == "get" and t.args[1] is FS or t.args[0] in (".to_multinomial", ".constant", ".restrict", ".R")):
            if name in ("DiscreteFactor", "ConditionalFactor", "Factor"): return True
            if name == "DeterministicFactor" and t.args[0] == ".to_multinomial": return False
        return None
    b = Bench(ctx, edges=[(E_, N_)], isi=isi, subsets=[(EN, N_), (FS, N_), (N_, FS)], pure=(".constant", ".to_multinomial", ".rename_vars"))
    b.graph("g", N_, E_); b.dict("F", FS); b.lst("En", EN); b.dict("O", O_); b.let("e", e_); b.let("v", v_); b.lst("S", S_); b.dict("mp", MP)
    b.assume(nonempty(base("list", EN)))
    b.theory.maps = (MP,)
    b.cls("StructuralCausalModel"); b.cls("BayesianNetwork")
    b.let("cast", C(cast))
    b.run("m = StructuralCausalModel(dag=g, factors=F, endogenous=En, cast_multinomial=cast)")
    b.run("bn = BayesianNetwork(dag=g, factors=F)")
    return b


n_, en_, o_, s_, mp_, fs_ = (mem(k, x) for k, x in (("list", N_), ("list", EN), ("dict", O_), ("list", S_), ("dict", MP), ("dict", FS)))


def ed_(x, y): return In(base("list", E_), Tup(x, y))


def ren_(x): return Ite(mp_(x), Get(MP, x), x)


def c09(ctx, rep):
    rep.rule("graph surgery on a model with any graph, any factors and any endogenous variables: the nodes, edges, factors and endogenous "
             "variables of the result are compared, as formulas over membership, with the ones the operation promises")
    J = Judge(rep)

    def nodes(b, con, src, spec, wh):
        x = b.at(src)
        rep.count("operations")
        if x.dead: rep.undec(con + ": not followed"); return
        J.members(f"graph|{con}", f"{src}", b.theory, x.coll(""), spec, wh, x.cond())

    def edges(b, con, src, spec, wh):
        x = b.at(src)
        rep.count("operations")
        if x.dead: rep.undec(con + ": not followed"); return
        J.members(f"graph|{con}", f"{src}", b.theory, x.coll(""), lambda p: spec(p.args[0], p.args[1]), wh, x.cond(), pair=True)

    def val(b, con, src, spec, wh, given=T):
        x = b.at(src)
        rep.count("operations")
        if x.dead: rep.undec(con + ": not followed"); return
        J.value(f"factors|{con}", f"{src}", b.theory, x.snap(), spec, wh, And(x.cond(), given))

    for cast in (False, True):
        b = model_bench(ctx, cast)
        if b.st.dead: rep.undec("the model cannot be built in the analysis"); return
        w = lambda c, m: where(ctx, c, m)
        tag = "" if not cast else "[cast]"
        SCM = "StructuralCausalModel"
        fe = Get(FS, e_)
        base_f = Ite(And(en_(e_), T if cast else F, mk("isi", fe, "DeterministicFactor")), App(".to_multinomial", fe), fe) if cast else fe
        def model(src, cls, meth, ns, es, f, given, en):
            wh = w(cls, meth); con = f"{cls}.{meth}{tag}"
            nodes(b, con + ".nodes", src + ".graph.nodes", ns, wh)
            nodes(b, con + ".variables", src + ".variables", ns, wh)
            edges(b, con + ".edges", src + ".graph.edges", es, wh)
            nodes(b, con + ".factors", src + ".factors", ns, wh)
            if f is not None: val(b, con + ".factor", src + ".factors[e]", f, wh, And(n_(e_), given))
            if en is not None:
                nodes(b, con + ".endogenous", src + ".endogenous", en, wh)
                nodes(b, con + ".exogenous", src + ".exogenous", lambda x: And(ns(x), Not(en(x))), wh)
        model("m", SCM, "__init__", n_, ed_, base_f, T, en_)
        model("m.copy()", SCM, "copy", n_, ed_, base_f, T, en_)
        fixed = App(".constant", base_f, Get(O_, e_))
        done = Ite(And(en_(e_), T if cast else F, mk("isi", fixed, "DeterministicFactor")), App(".to_multinomial", fixed), fixed) if cast else fixed
        model("m.intervention(**O)", SCM, "intervention", n_, lambda x, y: And(ed_(x, y), Not(o_(y))), Ite(o_(e_), done, base_f) if not cast else None, T, en_)
        sub = (lambda x: And(n_(x), s_(x)), lambda x, y: And(ed_(x, y), s_(x), s_(y)))
        model("m.submodel(S)", SCM, "submodel", *sub, None, s_(e_), None)
        x = b.at("m.submodel(S)")
        # (when no endogenous variable is left, the constructor falls back to the nodes with parents)
        J.members(f"graph|{SCM}.submodel{tag}.endogenous", "m.submodel(S).endogenous", b.theory, x.coll(".endogenous"), lambda x: And(n_(x), s_(x), en_(x)), w(SCM, "submodel"), And(x.cond(), (lambda y: Ex([y], And(en_(y), s_(y))))(fresh())))
        def img(s): return lambda y: (lambda x: Ex([x], And(s(x), Eq(ren_(x), y))))(fresh())
        def imge(y, z):
            x1, x2 = fresh(), fresh()
            return Ex([x1, x2], And(ed_(x1, x2), Eq(ren_(x1), y), Eq(ren_(x2), z)))
        wh = w(SCM, "rename_vars")
        nodes(b, f"{SCM}.rename_vars{tag}.nodes", "m.rename_vars(mp).graph.nodes", img(n_), wh)
        edges(b, f"{SCM}.rename_vars{tag}.edges", "m.rename_vars(mp).graph.edges", imge, wh)
        nodes(b, f"{SCM}.rename_vars{tag}.endogenous", "m.rename_vars(mp).endogenous", img(en_), wh)
        for src, meth in (("m.to_multinomial()", "to_multinomial"), ("m.to_bnet()", "to_bnet")):
            model(src, SCM, meth, n_, ed_, base_f if cast else None, T, en_ if meth == "to_multinomial" else None)
        if cast: continue
        model("bn", "BayesianNetwork", "__init__", n_, ed_, fe, T, None)
        model("bn.copy()", "BayesianNetwork", "copy", n_, ed_, fe, T, None)
        model("bn.submodel(S)", "BayesianNetwork", "submodel", *sub, fe, s_(e_), None)
        nodes(b, "BayesianNetwork.rename_vars.nodes", "bn.rename_vars(mp).graph.nodes", img(n_), w("BayesianNetwork", "rename_vars"))
        edges(b, "BayesianNetwork.rename_vars.edges", "bn.rename_vars(mp).graph.edges", imge, w("BayesianNetwork", "rename_vars"))
        # neighbourhoods
        xn = lambda x: And(n_(x), Not(en_(x)))
        pa, ch = (lambda x: ed_(x, v_)), (lambda x: ed_(v_, x))
        def coparent(x):
            c = fresh()
            return And(Not(Eq(x, v_)), Ex([c], And(ed_(v_, c), ed_(x, c))))
        def some(s, f): return lambda x: (lambda y: Ex([y], And(s(y), f(x, y))))(fresh())
        for meth, arg, spec in (("get_parents", "v", pa), ("get_children", "v", ch), ("get_parents", "*S", some(s_, lambda x, y: ed_(x, y))),
                                ("get_children", "*S", some(s_, lambda x, y: ed_(y, x))), ("get_edogenous_parents", "v", lambda x: And(pa(x), en_(x))),
                                ("get_edogenous_children", "v", lambda x: And(ch(x), en_(x))), ("get_exogenous_parents", "v", lambda x: And(pa(x), Not(en_(x)))),
                                ("get_exogenous_children", "v", lambda x: And(ch(x), Not(en_(x)))),
                                ("markov_blanket", "v", lambda x: Or(pa(x), ch(x), coparent(x)))):
            nodes(b, f"{SCM}.{meth}({arg})", f"m.{meth}({arg})", spec, w(SCM, meth))
        nodes(b, f"{SCM}.endo_graph.nodes", "m.endo_graph.nodes", en_, w(SCM, "endo_graph"))
        edges(b, f"{SCM}.endo_graph.edges", "m.endo_graph.edges", lambda x, y: And(ed_(x, y), en_(x), en_(y)), w(SCM, "endo_graph"))
        edges(b, f"{SCM}.exo_graph.edges", "m.exo_graph.edges", lambda x, y: And(ed_(x, y), Not(en_(x))), w(SCM, "exo_graph"))
        nodes(b, f"{SCM}.get_domains", "m.get_domains(S)", lambda x: And(n_(x), s_(x)), w(SCM, "get_domains"))
        nodes(b, f"{SCM}.domains", "m.domains", n_, w(SCM, "domains"))
        nodes(b, f"{SCM}.get_varsizes", "m.get_varsizes(S)", lambda x: And(n_(x), s_(x)), w(SCM, "get_varsizes"))
        # functions on graphs
        G = "bcause.util.graphutils"
        def gf(name):
            b.fn(G, name); f = ctx.w.fn(G, name); return f"{f.module.relpath} {f.qual}"
        wh = gf("remove_outgoing_edges")
        nodes(b, "remove_outgoing_edges.nodes", "remove_outgoing_edges(g, S).nodes", n_, wh)
        edges(b, "remove_outgoing_edges.edges", "remove_outgoing_edges(g, S).edges", lambda x, y: And(ed_(x, y), Not(s_(x))), wh)
        wh = gf("remove_ingoing_edges")
        nodes(b, "remove_ingoing_edges.nodes", "remove_ingoing_edges(g, S).nodes", n_, wh)
        edges(b, "remove_ingoing_edges.edges", "remove_ingoing_edges(g, S).edges", lambda x, y: And(ed_(x, y), Not(s_(y))), wh)
        wh = gf("remove_nodes")
        nodes(b, "remove_nodes.nodes", "remove_nodes(g, S).nodes", lambda x: And(n_(x), Not(s_(x))), wh)
        edges(b, "remove_nodes.edges", "remove_nodes(g, S).edges", lambda x, y: And(ed_(x, y), Not(s_(x)), Not(s_(y))), wh)
        nodes(b, "relevat_vars", "relevat_vars(g, v)", lambda x: Or(pa(x), Eq(x, v_)), gf("relevat_vars"))
        nodes(b, "markov_blanket", "markov_blanket(g, v)", lambda x: Or(pa(x), ch(x), coparent(x)), gf("markov_blanket"))


# ------------------------------------------------------------------------------------------------ C15
def c15(ctx, rep):
    rep.rule("interventional and counterfactual queries with any target, intervention and evidence: the model handed to the probabilistic "
             "inference (its nodes, edges and endogenous variables), the target and the evidence are compared with the intervened model or "
             "with the fusion of one renamed and intervened copy per world; for the probabilities of necessity and sufficiency also the read-out")
    J = Judge(rep)
    CI = "CausalInference"
    b = model_bench(ctx, False)
    V = b.V
    EV, O2, t, t2 = sym("ev"), sym("O2"), sym("t"), sym("t2")
    strs = {t, t2, sym("c"), sym("y")}
    old = V.isi_fact
    V.isi_fact = lambda x, n: (n == "str") if x in strs and n in ("str", "list", "tuple", "set", "dict") else old(x, n)
    b.cls(CI); b.let("pif", sym("pif")); b.let("t", t); b.let("t2", t2); b.dict("ev", EV); b.dict("O2", O2)
    for n in ("c", "y", "c1", "c2", "y1", "y2"): b.let(n, sym(n))
    b.run("ci = CausalInference(m, pif)")
    if b.st.dead: rep.undec(f"{CI} cannot be built in the analysis"); return
    ev, o2 = mem("dict", EV), mem("dict", O2)

    def posed(con, src, wh, ns, es, targets, evidence, en=None):
        """evidence: list of (key, domain test over a base variable, value) or a dict term"""
        rep.count("queries")
        try: x = b.at(src)
        except Budget: rep.undec(con + ": too large"); return None
        if x.dead: rep.undec(con + ": not followed"); return None
        built = [c for c in x.calls if c[0] == "()" and c[2] and c[2][0] is sym("pif")]
        comp = [c for c in x.calls if c[0] == ".compile"]
        if len(built) != 1 or len(comp) != 1 or len(built[0][2]) < 2: rep.undec(con + ": how the query is posed is not followed"); return x
        m = b.of(built[0][2][1], x)
        pc = x.cond()
        J.members(f"world|{con}.nodes", "nodes of the model queried", b.theory, m.coll(".graph.nodes"), ns, wh, pc)
        J.members(f"world|{con}.edges", "edges of the model queried", b.theory, m.coll(".graph.edges"), lambda p: es(p.args[0], p.args[1]), wh, pc, pair=True)
        if en is not None: J.members(f"world|{con}.endogenous", "endogenous variables of the model queried", b.theory, m.coll(".endogenous"), en, wh, pc)
        a, kw = list(comp[0][2]), dict(comp[0][3] or {})
        recv, a = a[0], a[1:]
        got = {"target": kw.get("target", a[0] if a else None), "evidence": kw.get("evidence", a[1] if len(a) > 1 else None)}
        if recv is not App(".call", sym("pif"), V.snap(built[0][2][1], x.st)) and recv is not App(".call", sym("pif"), built[0][2][1]):
            rep.undec(con + ": which inference is compiled is not followed"); return x
        if got["target"] is None or got["evidence"] is None: rep.undec(con + ": arguments of compile"); return x
        tg = V.coll(got["target"], x.st)
        J.members(f"query|{con}.target", "the target of the query", b.theory, tg, lambda e: Or(*[Eq(e, z) for z in targets]), wh, pc)
        J.value(f"query|{con}.evidence", "the evidence of the query", b.theory, V.snap(got["evidence"], x.st), evidence, wh, pc)
        return x

    def world(i): return lambda x: Ite(en_(x), Str(x, C(f"_{i}")), x)
    def fused(dos):
        """nodes and edges of the fusion; dos: membership test of the intervened variables per world"""
        def ns(y):
            x = fresh()
            return Or(n_(y), *[Ex([x], And(n_(x), Eq(world(i + 1)(x), y))) for i in range(len(dos))])
        def es(y, z):
            p, q = fresh(), fresh()
            return Or(ed_(y, z), *[Ex([p, q], And(ed_(p, q), Not(d(q)), Eq(world(i + 1)(p), y), Eq(world(i + 1)(q), z))) for i, d in enumerate(dos)])
        def en(y):
            x = fresh()
            return Or(en_(y), *[Ex([x], And(en_(x), Eq(Str(x, C(f"_{i+1}")), y))) for i in range(len(dos))])
        return ns, es, en

    def dct(*blks): return Coll("dict", *blks)
    def entries(s, key=lambda k: k):
        k = fresh()
        return Blk([k], In(base("dict", s), k), key(k), Get(s, k))
    one = lambda k, v: Blk([], T, k, v)
    w = lambda m: where(ctx, CI, m)
    surg = (n_, lambda x, y: And(ed_(x, y), Not(o_(y))))
    posed(f"{CI}.query", "ci.query([t], O, ev)", w("query"), *surg, [t], dct(entries(EV), entries(O_)), en_)
    posed(f"{CI}.query", "ci.query(t, O)", w("query"), *surg, [t], dct(entries(O_)), en_)
    posed(f"{CI}.causal_query", "ci.causal_query([t, t2], O, ev)", w("causal_query"), *surg, [t, t2], dct(entries(EV), entries(O_)), en_)
    k1 = lambda k: Str(k, C("_1")); k2 = lambda k: Str(k, C("_2"))
    posed(f"{CI}.counterfactual_query", "ci.counterfactual_query([t], O, ev)", w("counterfactual_query"), *fused([o_])[:2], [k1(t)],
          dct(entries(EV), entries(O_, k1)), fused([o_])[2])
    posed(f"{CI}.counterfactual_query[two worlds]", "ci.counterfactual_query([t, t2], [O, O2], ev, [1, 2])", w("counterfactual_query"), *fused([o_, o2])[:2],
          [k1(t), k2(t2)], dct(entries(EV), entries(O_, k1), entries(O2, k2)), fused([o_, o2])[2])
    posed(f"{CI}.counterfactual_query[crossed]", "ci.counterfactual_query([t, t2], [O, O2], None, [2, 1])", w("counterfactual_query"), *fused([o_, o2])[:2],
          [k2(t), k1(t2)], dct(entries(O_, k1), entries(O2, k2)), fused([o_, o2])[2])
    O3, t3 = sym("O3"), sym("t3")
    strs.add(t3); b.let("t3", t3); b.dict("O3", O3)
    o3 = mem("dict", O3); k3 = lambda k: Str(k, C("_3"))
    posed(f"{CI}.counterfactual_query[three worlds]", "ci.counterfactual_query([t, t2, t3], [O, O2, O3], ev, [1, 3, 2])", w("counterfactual_query"), *fused([o_, o2, o3])[:2],
          [k1(t), k3(t2), k2(t3)], dct(entries(EV), entries(O_, k1), entries(O2, k2), entries(O3, k3)), fused([o_, o2, o3])[2])
    # probabilities of causation: cause c with true/false states c1/c2, effect y with y1/y2
    c, y, c1, c2, y1, y2 = (sym(n) for n in ("c", "y", "c1", "c2", "y1", "y2"))
    isc_ = lambda x: Eq(x, c)

    def causation(meth, dos, targets, evidence, readout):
        con = f"{CI}.{meth}"
        x = posed(con, f"ci.{meth}(c, y, (c1, c2), (y1, y2))", w(meth), *fused(dos)[:2], targets, evidence)
        if x is None: return
        g = [z for z in x.calls if z[0] == ".get_value"]
        if len(g) != 1: rep.undec(con + ": the read-out is not followed"); return
        kw = g[0][3] or {}
        d = kw.get("**")
        if d is None or len(kw) != 1: rep.undec(con + ": the read-out is not followed"); return
        J.value(f"readout|{con}", "the value read from the answer", b.theory, V.snap(d, x.st), readout, w(meth))
    causation("prob_necessity", [isc_], [k1(y)], dct(one(c, c1), one(y, y1), one(k1(c), c2)), dct(one(k1(y), y2)))
    causation("prob_sufficiency", [isc_], [k1(y)], dct(one(c, c2), one(y, y2), one(k1(c), c1)), dct(one(k1(y), y1)))
    causation("prob_necessity_sufficiency", [isc_, isc_], [k1(y), k2(y)], dct(one(k1(c), c2), one(k2(c), c1)), dct(one(k1(y), y2), one(k2(y), y1)))


# ------------------------------------------------------------------------------------------------ C06
def c06(ctx, rep):
    rep.rule("for every operation that checks its arguments, the condition under which it returns normally (no raise statement is reached) is "
             "compared, as a formula over the arguments, with the condition under which the arguments are valid; and at every raise statement the "
             "fields of the model are compared with what they were at the call")
    J = Judge(rep)
    D1, R1, L1, EV, T_, Cd, t, t2, k, x_ = (sym(n) for n in ("D1", "R1", "L1", "ev", "Tg", "Cd", "t", "t2", "k", "x"))
    d1, r1, l1, ev, tg, cd = mem("dict", D1), mem("list", R1), mem("list", L1), mem("dict", EV), mem("list", T_), mem("list", Cd)

    def every(*guards):
        """no element satisfies all the guards"""
        e = fresh()
        return Not(Ex([e], And(*[g(e) for g in guards])))
    non = lambda f: (lambda e: Not(f(e)))

    def accepts(b, con, src, spec, wh, given=T, setup=None):
        rep.count("operations")
        st = b.st.copy()
        b.st.pc = And(b.st.pc, given)
        try:
            x = b.at(src)
            acc = F if x.dead else And(*(conj(x.st.pc) - conj(b.st.pc)))
        except Budget: rep.undec(con + ": too large"); return
        finally: b.st.assign(st)
        b.theory.ints = {k}
        J.formula(f"accepted|{con}", f"{src}: the arguments accepted", b.theory, And(given, acc), And(given, spec), wh)

    def unchanged(b, con, src, obj, fields, wh):
        """a rejected operation: at every raise statement the fields are what they were at the call"""
        rep.count("rejections")
        before = {f: b.V.snap(b.run(f"{obj}.{f}", b.st.copy()), b.st) for f in fields}
        seen = []
        b.theory.named = {v for v in b.st.frames[0].values() if isinstance(v, N) and v.tag == "ref"}
        def at(st, exc, site):
            for f in fields: seen.append((f, site, st.pc, b.V.snap(b.run(f"{obj}.{f}", st.copy()), st)))
        b.V.on_raise = at
        try: b.at(src)
        except Budget: rep.undec(con + ": too large"); return
        finally: b.V.on_raise = None
        if not seen: rep.undec(con + ": no raise statement is reached"); return
        for f, site, pc, v in seen:
            J.value(f"unchanged|{con}.{f}", f"{src}: {f} where the call is rejected", b.theory, v, before[f], site)

    w = lambda c, m: where(ctx, c, m)
    # -- inference
    def infer():
        b = model_bench(ctx)
        b.V.opaque_methods |= {"_preprocess", "run"}
        # the list of targets has no repetitions (repetitions: the case of two targets)
        nodup = lambda a: a.tag == "eq" and all(z.tag == "app" and z.args[0] == "len" for z in a.args) or None
        b.theory.facts = nodup
        b.dict("D1", D1); b.dict("ev", EV); b.lst("Tg", T_); b.lst("Cd", Cd)
        for n in ("t", "t2", "k", "x", "data", "pif"): b.let(n, sym(n))
        for c in ("VariableElimination", "CausalInference", "CausalMultiInference", "LaplaceInference", "SimpleModelAggregatorEM", "SimpleModelAggregatorGD"): b.cls(c)
        old = b.V.isi_fact
        b.V.isi_fact = lambda z, n: (n == "str") if z in (t, t2) and n in ("str", "list", "tuple", "set", "dict") else old(z, n)
        return b
    b = infer()
    b.run("ve = VariableElimination(m)\nli = LaplaceInference(data, D1)\nci = CausalInference(m, pif)")
    if b.st.dead: rep.undec("inference objects cannot be built in the analysis")
    else:
        VE, LI, CI = "VariableElimination", "LaplaceInference", "CausalInference"
        accepts(b, f"{VE}.compile", "ve.compile(Tg, ev)", And(every(tg, ev), every(tg, non(n_)), every(ev, non(n_))), w(VE, "compile"))
        accepts(b, f"{VE}.compile[no evidence]", "ve.compile(Tg)", every(tg, non(n_)), w(VE, "compile"))
        accepts(b, f"{VE}.compile[two targets]", "ve.compile([t, t2], ev)", And(Not(Eq(t, t2)), Not(ev(t)), Not(ev(t2)), n_(t), n_(t2), every(ev, non(n_))), w(VE, "compile"))
        accepts(b, f"{VE}.query", "ve.query(t, None, ev)", And(Not(ev(t)), n_(t), every(ev, non(n_))), w(VE, "query"))
        accepts(b, f"{VE}.query[conditioning]", "ve.query(Tg, Cd, ev)", And(every(tg, cd), every(tg, ev), every(cd, ev), every(tg, non(n_)), every(cd, non(n_)), every(ev, non(n_))), w(VE, "query"))
        accepts(b, f"{LI}.compile", "li.compile([t, t2], ev)", And(Not(Eq(t, t2)), Not(ev(t)), Not(ev(t2))), w(LI, "compile"))
        accepts(b, f"{CI}.query", "ci.query(Tg, O)", every(o_, non(n_)), w(CI, "query"))
        accepts(b, f"{CI}.query[counterfactual]", "ci.query([t], O, ev, True)", every(o_, non(n_)), w(CI, "query"))
        ev2 = sym("O2"); b.dict("O2", ev2); o2 = mem("dict", ev2)
        accepts(b, f"{CI}.query[two worlds]", "ci.query([t], [O, O2], ev, True)", And(every(o_, non(n_)), every(o2, non(n_))), w(CI, "query"))
        lt = lambda n: mk("cmp", "<", k, C(n))
        b.run("ma = SimpleModelAggregatorEM(m, data)\ncm = CausalMultiInference([], pif)\ncm1 = CausalMultiInference([m], pif)")
        if not b.st.dead:
            accepts(b, "CausalMultiInference.compile[no models]", "cm.compile()", F, w("CausalMultiInference", "compile"))
            accepts(b, "CausalMultiInference.query[no models]", "cm.query(t, O)", F, w("CausalMultiInference", "query"))

    # -- aggregation
    ge1 = Not(mk("cmp", "<", k, C(1)))
    b = model_bench(ctx); b.V.opaque_methods |= {"run", "_build_optimizer", "_single_generate"}
    for n in ("k", "data", "x"): b.let(n, sym(n))
    for c in ("SimpleModelAggregatorEM", "SimpleModelAggregatorGD"):
        b.cls(c)
        st0 = b.st.copy()
        b.run(f"agg = {c}(m, data, 0.1, 5)")
        if b.st.dead: rep.undec(f"{c} cannot be built in the analysis")
        else: accepts(b, f"{c}.generate", "agg.generate(k)", ge1, w(c, "generate"))
        b.st.assign(st0)
    # -- models
    b = model_bench(ctx)
    b.theory.facts = plain_names()
    b.theory.pure |= {"attr:domain"}
    b.theory.subsets.append((R1, D1))
    b.cls("MultinomialFactor"); b.cls("DeterministicFactor"); b.dict("D1", D1); b.lst("R1", R1); b.let("vals", sym("vals")); b.let("x", x_); b.let("k", k)
    b.run("f1 = MultinomialFactor(D1, vals, right_vars=R1)\nfd = DeterministicFactor(D1, vals, right_vars=R1)")
    if b.st.dead: rep.undec("the factors cannot be built in the analysis"); return
    y, s_ = fresh(), fresh()
    own = lambda y: Get(App("attr:domain", Get(FS, y)), y)
    known = lambda y: And(d1(y), n_(y), Not(Eq(own(y), NONE)))
    agree = Not(Ex([y], And(known(y), Or(Ex([s_], And(In(own(y), s_), Not(In(Get(D1, y), s_)))), Ex([s_], And(In(Get(D1, y), s_), Not(In(own(y), s_))))))))
    sameset = lambda p, q: And(every(p, non(q)), every(q, non(p)))
    fits = And(sameset(r1, lambda e: ed_(e, v_)), sameset(lambda e: And(d1(e), Not(r1(e))), lambda e: Eq(e, v_)), agree)
    for m, cls, f, given in (("bn", "BayesianNetwork", "f1", n_(v_)), ("bn", "BayesianNetwork", "fd", n_(v_)), ("m", "StructuralCausalModel", "fd", n_(v_)),
                             ("m", "StructuralCausalModel", "f1", And(n_(v_), Not(en_(v_))))):
        accepts(b, f"{cls}.set_factor[{f}]", f"{m}.set_factor(v, {f})", fits, w(cls, "set_factor"), given)
        accepts(b, f"{cls}.set_factor[{f}, by name]", f"{m}._set_factors({{v: {f}}})", fits, w(cls, "_set_factors"), given)
        unchanged(b, f"{cls}.set_factor[{f}]", f"{m}.set_factor(v, {f})", m, ("_factors", "_domains"), w(cls, "set_factor"))
    # -- factors
    l1 = lambda e: And(d1(e), Not(r1(e)))
    u = fresh()
    b.V.opaque_methods |= {"_sample"}
    accepts(b, "MultinomialFactor.sample", "f1.sample(k)", ge1, w("MultinomialFactor", "sample"))
