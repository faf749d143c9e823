"""Property deciders on Engine B with the factor algebra: exact inference."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import model_bench, where, FS, N_, E_, EN, n_, ed_, fs_, en_
from values import Budget

G = "bcause.util.graphutils"
EV, TG, CD, S_ = (sym(n) for n in ("ev", "Tg", "Cd", "S"))
ev_, tg_, cd_, s_ = mem("dict", EV), mem("list", TG), mem("list", CD), mem("list", S_)


SCAL = tuple(sym(n) for n in ("u", "u2", "t", "t2"))


def every(s): return lambda f: (lambda e: Not(Ex([e], And(s(e), Not(f(e))))))(fresh())


def reach(x, y, k=3, step=ed_):
    """a path of at most k edges"""
    if k == 0: return Eq(x, y)
    z = fresh()
    return Or(Eq(x, y), Ex([z], And(step(x, z), reach(z, y, k - 1, step))))


def factor_terms():
    k = fresh()
    return Coll("set", Blk([k], In(base("dict", FS), k), Get(FS, k)))


def evidence():
    k = fresh()
    return mk("kw", "**", Coll("dict", Blk([k], In(base("dict", EV), k), k, Get(EV, k))))


def lst(s):
    k = fresh()
    return Coll("list", Blk([k], In(base("list", s), k), k))


def posterior(factors, out, targets, ev=True):
    """sum out, enter the evidence, normalise"""
    j = App("prod", factors)
    for o in out: j = App("op:Pow", j, o)
    if ev: j = App(".R", j, evidence())
    return App("op:Div", j, App("op:Pow", j, targets))


def inference_bench(ctx):
    b = model_bench(ctx)
    b.dict("ev", EV); b.lst("Tg", TG); b.lst("Cd", CD); b.lst("S", S_)
    for n in ("u", "u2", "t", "t2", "H"): b.let(n, sym(n))
    b.theory.injective = {FS}
    b.theory.subsets = list(b.theory.subsets) + [(TG, N_), (EV, N_), (S_, N_)]        # targets and evidence are variables of the model (others are rejected: C06)
    b.theory.strict = True
    b.theory.redraw, b.theory.dense = 100, (N_, FS)
    old = b.V.isi_fact
    b.V.isi_fact = lambda x, n: (n == "str") if x in SCAL and n in ("str", "list", "tuple", "set", "dict") else old(x, n)
    b.theory.within = {s: N_ for s in SCAL}
    b.theory.factors = (FS, E_, N_)
    b.V.opsize = 8000; b.V.smallsize = 20000
    b.cls("VariableElimination")
    return b


def c17(ctx, rep):
    EQSIZE[0] = 1500
    try: _c17(ctx, rep)
    finally: EQSIZE[0] = 150


def _c17(ctx, rep):
    rep.rule("the model that pruning makes, the arguments of the elimination ordering, the product-marginal-evidence-quotient term that "
             "elimination returns and the quotient a conditional query returns are derived as terms over the factors of any network; the terms are "
             "compared with the posterior by evaluating both over random tables on small networks (every network of up to three variables that is drawn)")
    J = Judge(rep)
    VE = "VariableElimination"
    where_fn = lambda mod, n: (lambda f: f"{f.module.relpath} {f.qual}")(ctx.w.fn(mod, n))
    w = lambda m: where(ctx, VE, m)
    valid = And(every(tg_)(lambda e: Not(ev_(e))))

    # ---- pruning
    b = inference_bench(ctx)
    b.V.peel = 4
    b.theory.wider = 2
    b.fn(G, "barren_nodes"); b.fn(G, "disconnected_nodes")
    def barren(S):
        def f(x):
            y = fresh()
            return And(n_(x), Not(Ex([y], And(S(y), reach(x, y)))))
        return f
    rep.count("operations")
    e = fresh("x")
    for b.V.peel, n in ((3, "two layers of barren nodes"), (4, "three layers of barren nodes")):
        x = b.at("barren_nodes(g, S)")
        if x.dead: rep.undec(f"barren_nodes, {n}: not followed"); continue
        r = J.bounded("pruning|barren_nodes", f"barren_nodes(g, S), {n}: the nodes with no directed path to S", b.theory, In(x.coll(""), e), barren(s_)(e), where_fn(G, "barren_nodes"), x.cond(10 ** 6), tries=300)
        if isinstance(r, tuple): break
    x = b.at("disconnected_nodes(g, S)")
    rep.count("operations")
    either = lambda x, y: Or(ed_(x, y), ed_(y, x))
    def apart(z):
        y = fresh()
        return And(n_(z), Not(Ex([y], And(s_(y), reach(z, y, 4, either)))))
    if x.dead: rep.undec("disconnected_nodes: not followed")
    else: J.bounded("pruning|disconnected_nodes", "disconnected_nodes(g, S): the nodes with no undirected path to S", b.theory, In(x.coll(""), e), apart(e), where_fn(G, "disconnected_nodes"), And(x.cond(), every(s_)(n_)))

    b = inference_bench(ctx)
    b.theory.wider = 1
    M = "bcause.models.transform.simplification"
    b.fn(M, "minimalize")
    def assumed(fn, args, kw, st, fr, e):
        if isinstance(fn, N) and fn.tag == "fn" and fn.args[0].qual == G + ".barren_nodes" and len(args) == 2 and not kw:
            g, S = b.V.deref(st, args[0]), b.V.coll(args[1], st)
            if not hasattr(g, "nodes"): return None
            z, y = fresh(), fresh()
            step = lambda p, q: In(g.edges, Tup(p, q))
            return b.V.alloc(st, Coll("set", Blk([z], And(In(g.nodes, z), Not(Ex([y], And(In(S, y), reach(z, y, 3, step))))), z)))
    b.V.call_model = assumed
    for src, ev in (("minimalize(bn, Tg, ev)", True), ("minimalize(bn, Tg)", False)):
        rep.count("operations")
        x = b.at(src)
        con = "minimalize" + ("" if ev else "[no evidence]")
        if x.dead: rep.undec(con + ": not followed"); continue
        wh = where_fn(M, "minimalize")
        fx = x.snap(".factors")
        k, y = fresh(), fresh()
        kept = Coll("set", Blk([k], In(fx, k), App("get", fx, k)))
        hid = Coll("set", Blk([y], And(n_(y), Not(tg_(y)), Not(ev_(y)) if ev else T), y))
        pc = And(valid, nonempty(base("list", TG)), x.cond())
        J.bounded(f"posterior|{con}", f"{src}: the posterior of the targets in the pruned model", b.theory,
                  posterior(kept, [hid], lst(TG), ev), posterior(factor_terms(), [hid], lst(TG), ev), wh, pc, True)
        J.bounded(f"pruning|{con}.nodes", f"{src}: the nodes are the variables that have a factor", b.theory, In(x.coll(".graph.nodes"), e), In(fx, e), wh, pc)
        e2 = Tup(fresh("x"), fresh("y"))
        J.bounded(f"pruning|{con}.edges", f"{src}: the edges are the parents in the factors", b.theory, In(x.coll(".graph.edges"), e2),
                  And(In(fx, e2.args[1]), In(App("attr:right_vars", App("get", fx, e2.args[1])), e2.args[0])), wh, pc)
        J.bounded(f"pruning|{con}.targets", f"{src}: the targets are kept", b.theory, Or(Not(tg_(e)), In(x.coll(".graph.nodes"), e)), T, wh, pc)

    # ---- elimination
    b = inference_bench(ctx)
    b.V.opaque_methods |= {"_preprocess"}
    b.run("ve = VariableElimination(m)")
    b.run("ve._inference_model = m; ve._compiled = True; ve._target = Tg; ve._evidence = ev; ve._heuristic = H")
    b.theory.wider = 1
    u, u2, t, t2 = SCAL
    for con, seq, tgts in (("no variable eliminated", [], None), ("one variable eliminated", [u], None), ("two variables eliminated", [u, u2], None),
                           ("one variable eliminated, two targets", [u], [t, t2]), ("no variable eliminated, two targets", [], [t, t2])):
        asked = []
        if tgts: b.run("ve._target = [t, t2]")
        differ = And(*[Not(Eq(p, q)) for i, p in enumerate(tgts or ()) for q in seq + tgts[i + 1:]], *[And(n_(p), Not(ev_(p))) for p in tgts or ()])
        def ordering(fn, args, kw, st, fr, e):
            if fn is not sym("H"): return None
            asked.append((args, kw, st.copy()))
            return b.V.alloc(st, Coll("list", *[Blk([], T, x) for x in seq]))
        b.V.call_model = ordering
        rep.count("operations")
        try: x = b.at("ve.run()")
        except Budget: rep.undec(f"{VE}.run: {con}: too large"); continue
        finally: b.V.call_model = None
        if x.dead: rep.undec(f"{VE}.run: {con}: not followed"); continue
        pc = And(valid, nonempty(base("list", TG)) if not tgts else differ, *[And(n_(q), Not(tg_(q)) if not tgts else T, Not(ev_(q))) for q in seq], Not(Eq(u, u2)) if len(seq) > 1 else T, x.cond())
        J.bounded(f"posterior|{VE}.run", f"ve.run(), {con}: the posterior of the targets", b.theory, x.snap(), posterior(factor_terms(), seq, lst(TG) if not tgts else mk("tup", *tgts)), w("run"), pc, True, tries=800)
        if len(asked) != 1: rep.undec(f"{VE}.run: how the ordering is asked for is not followed"); continue
        args, kw, st = asked[0]
        a = dict(zip(("dag", "to_remove", "varsizes"), args)); a.update(kw)
        if not seq and not tgts and "dag" in a and "to_remove" in a:
            e, k = fresh("x"), fresh()
            J.bounded(f"ordering|{VE}.run.to_remove", "the variables to eliminate: all that the factors mention, but the targets and the evidence", b.theory,
                      In(b.V.coll(a["to_remove"], st), e), And(Not(tg_(e)), Not(ev_(e)), Ex([k], And(fs_(k), In(App("attr:variables", Get(FS, k)), e)))), w("run"), T)

    # ---- conditional queries
    b = inference_bench(ctx)
    b.V.opaque_methods |= {"_preprocess"}
    b.run("ve = VariableElimination(m)")
    whole = App("prod", factor_terms())
    posed = []
    def answer(fn, args, kw, st, fr, e):
        if isinstance(fn, N) and fn.tag == "fn" and fn.args[0].name == "run": return whole
        if isinstance(fn, N) and fn.tag == "fn" and fn.args[0].name == "compile":
            recv = fn.args[2] if len(fn.args) > 2 else None
            posed.append((args, kw, st.copy(), recv))
            return recv
    for con, src, tgt, ev in (("", "ve.query(Tg, Cd, ev)", True, True), ("[no evidence]", "ve.query(Tg, Cd)", True, False), ("[unconditional]", "ve.query(Tg, None, ev)", False, True), ("[one variable]", "ve.query(u, [u2], ev)", [u], True), ("[two variables]", "ve.query([u, t], [u2], ev)", [u, t], True)):
        rep.count("operations")
        posed.clear()
        b.V.call_model = answer
        try: x = b.at(src)
        finally: b.V.call_model = None
        con = "query" + con
        if x.dead or len(posed) != 1: rep.undec(f"{con}: not followed"); continue
        args, kw, st, recv = posed[0]
        a = dict(zip(("target", "evidence"), args)); a.update(kw)
        e = fresh("x")
        wq = where(ctx, VE, "query")
        if "target" in a: J.members(f"query|{VE}.{con}.target", f"{src}: the joint that is asked for", b.theory, b.V.coll(a["target"], st), lambda z: (Or(tg_(z), cd_(z)) if tgt is True else tg_(z) if tgt is False else Or(*[Eq(z, q) for q in tgt + [u2]])), wq)
        if ev and a.get("evidence") is not None: J.bounded(f"query|{VE}.{con}.evidence", f"{src}: the evidence", b.theory, b.V.snap(a["evidence"], st), base("dict", EV), wq, nonempty(base("dict", EV)), True, tries=300, none=True)     # no evidence may be None as well as empty
        out = lst(TG) if tgt is True else mk("tup", *tgt) if tgt else None
        ans = App("op:Div", whole, App("op:Pow", whole, out)) if tgt is not False else whole
        pc = And(x.cond(), valid, nonempty(base("list", TG)), n_(u), n_(u2), n_(t), Not(Eq(u, u2)), Not(Eq(t, u)), Not(Eq(t, u2)))
        J.bounded(f"posterior|{VE}.{con}", f"{src}: the answer, normalised for every state of the conditioning variables", b.theory, x.snap(), ans, wq, pc, True, tries=800)

    # ---- elimination orderings
    b = inference_bench(ctx)
    O = "bcause.inference.ordering"
    b.V.peel = 3
    b.run("vs = bn.varsizes")
    picked = []
    def choose(fn, args, kw, st, fr, e):
        """an arbitrary element of what is chosen from"""
        if fn.tag == "app" and fn.args[0] == "attr:choice" and args or fn.tag == "lib" and fn.args[0].endswith("random.choice") and args:
            q = sym(f"chosen{len(picked)}"); picked.append(q)
            st.pc = And(st.pc, In(b.V.coll(args[0], st), q))
            return q
    b.V.call_model = choose
    for h in ("min_size_heuristic", "min_fill_heuristic", "min_weight_heuristic"):
        b.fn(O, h)
        for names, spec in (("[]", lambda e: F), ("[u]", lambda e: Eq(e, u)), ("[u, u2]", lambda e: Or(Eq(e, u), Eq(e, u2)))):
            rep.count("operations")
            picked.clear()
            src = f"{h}(g, {names}, varsizes=vs)"
            x = b.at(src)
            if x.dead: rep.undec(f"{h}: not followed"); continue
            J.members(f"ordering|{h}", f"{src}: the variables that are ordered", b.theory, x.coll(""), spec, where_fn(O, h), And(x.cond(100000), Not(Eq(u, u2))))
