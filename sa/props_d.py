"""Property deciders on Engine B: learning steps."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import where, plain_names, N_, E_, FS, EN, n_, ed_, fs_
from props_c import inference_bench, every
from values import Budget

TR, CV, PC, OB, OB2 = (sym(n) for n in ("Tr", "Cv", "pc", "obs", "obs2"))
tr_, cv_, ob_ = mem("list", TR), mem("set", CV), mem("dict", OB)
v_, c_, c2_ = sym("v"), sym("c"), sym("c2")


def scalar_ndim(a):
    """numpy.ndim of a list or tuple of names is not 0"""
    if a.tag == "eq" and any(isc(x) and x.args[1] == 0 for x in a.args) and any(x.tag == "app" and x.args[0] == "lib:numpy.ndim" and x.args[1].tag in ("coll", "tup") for x in a.args): return False
    return None


def scope(t, e, V, st):
    """the variables of a factor expression over opaque factors; a scalar has none"""
    if t.tag == "ite": return Fite(t.args[0], scope(t.args[1], e, V, st), scope(t.args[2], e, V, st))
    if t.tag == "app":
        op = t.args[0]
        if op in ("op:Mult", "op:Add"): return Or(scope(t.args[1], e, V, st), scope(t.args[2], e, V, st))
        if op == "posterior": return In(t.args[1], e)
        if op.startswith("new:"):
            dom = t.args[1] if t.args[1].tag != "kw" else next((a.args[1] for a in t.args[1:] if a.tag == "kw" and a.args[0] == "domain"), None)
            if dom is not None: return In(dom, e)
        if op in ("int", "float", "sum", "len"): return F
        if op == "get" and t.args[1] is PC: return Or(Eq(e, t.args[2]), ed_(e, t.args[2]))
    if isc(t) or t in (c_, c2_): return F
    return None


def scope_(t, e):
    try: return scope(t, e, None, None)
    except (TypeError, AttributeError): return None


def known(t):
    """every leaf of the factor expression is understood"""
    if t.tag == "ite": return known(t.args[1]) and known(t.args[2])
    if t.tag == "app" and t.args[0] in ("op:Mult", "op:Add"): return known(t.args[1]) and known(t.args[2])
    return scope(t, fresh(), None, None) is not None


def learner_bench(ctx, em=True):
    b = inference_bench(ctx)
    b.theory.strict = False
    b.theory.facts = plain_names([scalar_ndim])
    b.theory.subsets = list(b.theory.subsets) + [(TR, N_), (OB, N_), (OB2, N_), (CV, N_)]
    b.theory.within = {**b.theory.within, v_: N_}
    b.V.opaque_classes |= {"MultinomialFactor"}
    for n in ("v", "c", "c2", "df"): b.let(n, sym(n))
    b.lst("Tr", TR); b.set("Cv", CV); b.dict("pc", PC); b.dict("obs", OB); b.dict("obs2", OB2)
    b.cls("ExpectationMaximization"); b.cls("GradientLikelihood")
    return b


def terms_of(t, op):
    """flatten nested applications of a commutative operation"""
    if t.tag == "app" and t.args[0] == op: return terms_of(t.args[1], op) + terms_of(t.args[2], op)
    return [t]


def c13(ctx, rep):
    EM, GD, PL = "ExpectationMaximization", "GradientLikelihood", "IterativeParameterLearning"
    rep.rule("the model after a step, the factors the maximisation returns, the query the expectation poses and the expected counts it "
             "adds up are derived as terms over any network, trained variables, converged variables and observations, and compared with their definition")
    J = Judge(rep)
    e = fresh("x")
    e2 = Tup(fresh("x"), fresh("y"))
    w = lambda c, m: where(ctx, c, m)

    def posed(fn): return isinstance(fn, N) and fn.tag == "fn"

    # ---- maximisation
    b = learner_bench(ctx)
    b.run("em = ExpectationMaximization(bn, Tr)")
    b.run("em._model = bn; em._model_evolution = [bn]; em._converged_vars = Cv")
    rep.count("operations")
    if b.st.dead: rep.undec(f"{EM}: cannot be built in the analysis")
    else:
        x = b.at("em._maximization(pc)")
        if x.dead: rep.undec(f"{EM}._maximization: not followed")
        else:
            J.members(f"step|{EM}._maximization", "the variables that get a new factor: trained and not converged", b.theory, x.coll(""), lambda z: And(tr_(z), Not(cv_(z))), w(EM, "_maximization"), x.cond())
            x = b.at("em._maximization(pc)[v]")
            pc = And(tr_(v_), Not(cv_(v_)))
            t = x.snap()
            for q in cases_of(t):
                if not (q.tag == "app" and q.args[0] == "op:Div"): continue
                num, den = q.args[1], q.args[2]
                if not (num is Get(PC, v_) and den.tag == "app" and den.args[0] == ".marginalize" and den.args[1] is num) or any(a.tag == "kw" for a in den.args[2:]): continue
                sp = Or(*[In(a.args[0], e) if a.tag == "star" else Eq(e, a) for a in den.args[2:]])
                J.formula(f"step|{EM}._maximization.over", "the variables the counts are summed over: the one that is trained", b.theory, sp, Eq(e, v_), w(EM, "_maximization"), pc)
            J.value(f"step|{EM}._maximization.value", "the new factor: counts divided by their sum over the variable", b.theory, t,
                    App("op:Div", Get(PC, v_), App(".marginalize", Get(PC, v_), v_)), w(EM, "_maximization"), And(x.cond(), pc))
        x = b.at("em._get_pseudocounts_dict()")
        rep.count("operations")
        if x.dead: rep.undec(f"{EM}._get_pseudocounts_dict: not followed")
        else:
            J.members(f"counts|{EM}._get_pseudocounts_dict", "counts are started for every trained variable", b.theory, x.coll(""), tr_, w(EM, "_get_pseudocounts_dict"), x.cond())
            x = b.at("em._get_pseudocounts_dict()[v]")
            t = x.snap()
            for t in cases_of(t):
                z = next((a.args[1] for a in t.args[1:] if a.tag == "kw" and a.args[0] == "values"), t.args[2] if len(t.args) > 2 and t.args[2].tag != "kw" else None) if t.tag == "app" else None
                if z is not None and isc(z): J.value(f"counts|{EM}._get_pseudocounts_dict.start", "the counts start at zero", b.theory, C(bool(z.args[1] == 0)), C(True), w(EM, "_get_pseudocounts_dict"))

    # ---- the model after a step
    for cls, src in ((EM, "ExpectationMaximization(bn, Tr)"), (GD, "GradientLikelihood(m, Tr)")):
        b = learner_bench(ctx)
        base_ = "bn" if cls == EM else "m"
        b.run(f"le = {src}")
        b.run(f"le._model = {base_}; le._model_evolution = [{base_}]; le._data = df; le._trainable_vars = Tr; le._converged_vars = Cv")
        b.V.call_model = lambda fn, args, kw, st, fr, ex: b.run("pc", st) if posed(fn) and fn.args[0].name == "_calculate_updated_factors" else None
        b.let("before", b.st.frames[0][base_])
        rep.count("operations")
        for b.theory.subsets in (list(b.theory.subsets) + [(PC, N_)],): pass
        b.run("le.step()")
        if b.st.dead: rep.undec(f"{cls}.step: not followed"); continue
        pcs, ws = mem("dict", PC), w(cls, "_update_model")
        J.members(f"step|{cls}.step.factors", "le.step(): exactly one factor per variable", b.theory, b.at("le.model.factors").coll(""), n_, ws)
        x = b.at("le.model.factors[v]")
        J.value(f"step|{cls}.step.trained", "le.step(): a variable with a new factor has the new one", b.theory, x.snap(), Get(PC, v_), ws, And(pcs(v_), n_(v_)))
        J.value(f"step|{cls}.step.kept", "le.step(): every other variable keeps its factor", b.theory, x.snap(), Get(FS, v_), ws, And(Not(pcs(v_)), n_(v_)))
        J.members(f"step|{cls}.step.nodes", "le.step(): the nodes", b.theory, b.at("le.model.graph.nodes").coll(""), n_, ws)
        J.members(f"step|{cls}.step.edges", "le.step(): the edges", b.theory, b.at("le.model.graph.edges").coll(""), lambda p: ed_(p.args[0], p.args[1]), ws, pair=True)
        if cls == GD: J.members(f"step|{cls}.step.endogenous", "le.step(): the endogenous variables", b.theory, b.at("le.model.endogenous").coll(""), mem("list", EN), ws)
        for k, src in ((0, "le.model_evolution[0] is before"), (-1, "le.model_evolution[-1] is le.model")):
            x = b.at(src)
            if not x.dead: J.value(f"history|{cls}.model_evolution[{k}]", src, b.theory, x.snap(), C(True), w(cls, "_record_model"))
        # starting
        b = learner_bench(ctx)
        b.run(f"le = {src if False else ('ExpectationMaximization(bn, Tr)' if cls == EM else 'GradientLikelihood(m, Tr)')}")
        b.V.opaque_methods |= {"_process_data"}
        b.let("before", b.st.frames[0][base_])
        b.graph("g2", sym("N2"), sym("E2")); b.dict("F2", sym("F2")); b.cls("BayesianNetwork")
        b.run("other = BayesianNetwork(dag=g2, factors=F2)")
        b.run("le._converged_vars = Cv; le._model_evolution = [other, other]; le._model = other")
        b.run("le.initialize(df)")
        rep.count("operations")
        if b.st.dead: rep.undec(f"{cls}.initialize: not followed"); continue
        wi = w(cls, "initialize")
        x = b.at("le.model.factors[v]")
        J.value(f"start|{cls}.initialize.factors", "le.initialize(): starts from the factors of the prior model", b.theory, x.snap(), Get(FS, v_), wi, n_(v_))
        J.members(f"start|{cls}.initialize.edges", "le.initialize(): starts from the graph of the prior model", b.theory, b.at("le.model.graph.edges").coll(""), lambda p: ed_(p.args[0], p.args[1]), wi, pair=True)
        for k in (0, -1):
            x = b.at(f"le.model_evolution[{k}] is before")
            if not x.dead: J.value(f"start|{cls}.initialize.history", "le.initialize(): the history is the prior model alone", b.theory, x.snap(), C(True), wi)
        if cls == EM: J.members(f"start|{cls}.initialize.converged", "le.initialize(): nothing has converged", b.theory, b.at("le._converged_vars").coll(""), lambda z: F, wi)
        # what is trained
        b = learner_bench(ctx)
        b.run(f"le = {'ExpectationMaximization(bn, Tr)' if cls == EM else 'GradientLikelihood(m, Tr)'}")
        b.run(f"le._model = {base_}")
        b.run("le._process_data(df)")
        rep.count("operations")
        if b.st.dead: rep.undec(f"{cls}._process_data: not followed"); continue
        J.members(f"trained|{cls}", "with a list of variables: exactly these are trained", b.theory, b.at("le.trainable_vars").coll(""), tr_, w(cls, "_process_data"), nonempty(base("list", TR)))

    # ---- the gradient learner re-estimates each trained variable
    b = learner_bench(ctx)
    b.run("gd = GradientLikelihood(m, Tr)")
    b.run("gd._model = m; gd._model_evolution = [m]; gd._data = df")
    b.V.opaque_methods |= {"_updated_factor"}
    x = b.at("gd._calculate_updated_factors()")
    rep.count("operations")
    if x.dead: rep.undec(f"{GD}._calculate_updated_factors: not followed")
    else:
        J.members(f"step|{GD}._calculate_updated_factors", "exactly the trained variables get a new factor", b.theory, x.coll(""), tr_, w(GD, "_calculate_updated_factors"), x.cond())
        x = b.at("gd._calculate_updated_factors()[v]")
        t = x.snap()
        for q in cases_of(t):
            if q.tag == "app" and q.args[0] == "._updated_factor" and len(q.args) > 2:
                J.value(f"step|{GD}._calculate_updated_factors.value", "each from its own estimate", b.theory, q.args[2], v_, w(GD, "_calculate_updated_factors"), tr_(v_))
    b.V.opaque_methods -= {"_updated_factor"}
    b.V.opaque_methods |= {"_compute_N_and_P", "fitPMF"}
    x = b.at("gd._updated_factor(v)")
    rep.count("operations")
    if x.dead: rep.undec(f"{GD}._updated_factor: not followed")
    else:
        b.theory.subsets = list(b.theory.subsets)
        for q in cases_of(x.snap()):
            s = scope_(q, e)
            if s is not None: J.formula(f"step|{GD}._updated_factor.domain", "the estimate is a distribution of the variable alone", b.theory, s, Eq(e, v_), w(GD, "_updated_factor"), And(n_(v_), fs_(v_), Not(mem("list", EN)(v_)), (lambda y: Not(Ex([y], ed_(y, v_))))(fresh())))      # exogenous variables have no parents

    # ---- the records of a class
    b = learner_bench(ctx)
    b.run("em = ExpectationMaximization(bn, Tr)")
    b.run("em._model = bn; em._data = df")
    sub, analysis = sym("records"), sym("analysis")
    b.let("sub", sub); b.let("an", analysis)
    b.run("em._datadeps = [(an, sub)]")
    x = b.at("em._get_obs_counts(v)")
    rep.count("operations")
    wc = w(EM, "_get_obs_counts")
    t = x.snap() if not x.dead else C(None)
    asked_an = any(q is analysis for q in walk(t))
    cmps = [q for q in walk(t) if q.tag == "app" and q.args[0] == "reduce" and len(q.args) > 2 and q.args[2].tag == "coll" and q.args[1].tag == "app" and q.args[1].args[0] == "op:BitAnd"]
    anyof = [q for q in walk(t) if q.tag == "in" and q.args[0].tag == "form" and q.args[0].args[0].tag == "eq"]
    if not asked_an or len(cmps) != 1 or len(blocks(cmps[0].args[2])) != 1:
        if asked_an and anyof and not cmps: J.formula(f"counts|{EM}._get_obs_counts.all", "a record counts when all observations agree with it", b.theory, F, T, wc)
        else: rep.undec(f"{EM}._get_obs_counts: not followed")
    else:
        k = blocks(cmps[0].args[2])[0]
        eqs = [q for q in walk(k) if q.tag == "eq"]
        gets = [r for q in eqs for r in q.args if r.tag == "app" and r.args[0] == "get"]
        guards = [g for a in k.args if isinstance(a, N) and a.tag in ("in", "and") for g in (a.args if a.tag == "and" else [a])]
        ins = [g for g in guards if g.tag == "in" and g.args[0].tag in ("bv", "fv")]
        tables = [r.args[1] for r in gets if r.args[1] in (sub, sym("df"))]
        if len(ins) != 1 or len(gets) < 2 or not tables: rep.undec(f"{EM}._get_obs_counts: not followed")
        else:
            rest = [g for g in guards if g not in ins and g not in eqs]
            J.formula(f"counts|{EM}._get_obs_counts.all", "a record counts when all observations agree with it", b.theory, F if rest and all(g.tag in ("not", "eq") for g in rest) else T, T, wc)
            J.formula(f"counts|{EM}._get_obs_counts.records", "the records that are counted are those the observations were taken from", b.theory, F if sub not in tables else T, T, wc)

    # ---- expectation
    for con, n, trained in (("one class of records", 1, "[v]"), ("two classes of records", 2, "[v]"), ("two trained variables", 1, "[u, v]")):
        b = learner_bench(ctx)
        b.run(f"em = ExpectationMaximization(bn, {trained})")
        b.run("em._model = m; em._model_evolution = [bn]; em._converged_vars = Cv; em._data = df")
        b.cls("VariableElimination"); b.run("em._inf = VariableElimination(bn)")      # left behind by an earlier step
        asked = []
        def classes(fn, args, kw, st, fr, ex):
            if not posed(fn): return None
            nm = fn.args[0].name
            if nm == "query":
                a = dict(zip(("target", "conditioning", "evidence"), args)); a.update(kw)
                recv = fn.args[2] if len(fn.args) > 2 else None
                asked.append((b.V.snap(a["target"], st), b.V.snap(a["evidence"], st) if a.get("evidence") is not None else None, a.get("conditioning"), recv, st.copy()))
                return App("posterior", b.V.snap(a["target"], st), b.V.snap(a["evidence"], st) if a.get("evidence") is not None else C(None))
            if nm == "_get_obs_counts": return b.run("[(obs, c)]" if n == 1 else "[(obs, c), (obs2, c2)]", st)
            if nm == "_get_pseudocounts_dict": return b.run("pc", st)
        b.V.call_model = classes
        rep.count("operations")
        try: x = b.at("em._expectation()[v]")
        except Budget: rep.undec(f"{EM}._expectation, {con}: too large"); continue
        finally: b.V.call_model = None
        we = w(EM, "_expectation")
        if x.dead or not asked: rep.undec(f"{EM}._expectation, {con}: not followed"); continue
        fam = lambda z: Or(Eq(z, v_), ed_(z, v_))
        obs_of = [OB, OB2]
        pc = And(Not(cv_(v_)), n_(v_), Not(Eq(sym("u"), v_)))
        t = x.snap()
        leaf = [q for q in cases_of(t) if any(r.tag == "app" and r.args[0] in ("posterior",) for r in walk(q))]
        if not leaf: rep.undec(f"{EM}._expectation, {con}: the result is not followed"); continue
        # the model that is asked
        for tg, ev, cond, recv, st in asked[:1]:
            if recv is None: continue
            st = st.copy(); st.frames[0]["asked"] = recv
            f = b.run("asked.model is em._model", st) if not st.dead else None
            if f is not None and not st.dead: J.value(f"expectation|{EM}._expectation.model", "the current model is asked", b.theory, f, C(True), we)
        # what is added
        parts = additive(t)
        for cond, adds in parts:
            g = And(pc, cond)
            # the queries
            for q in {r for y in adds for r in terms_of(y, "op:Mult") if r.tag == "app" and r.args[0] == "posterior"}:
                tg, ev = q.args[1], q.args[2]
                o = next((s for s in obs_of if any(r is s for r in walk(ev))), None)
                if o is None:
                    J.formula(f"expectation|{EM}._expectation.evidence", "the posterior is taken given the observations of the class", b.theory, And(g, F), g, we); continue
                J.value(f"expectation|{EM}._expectation.evidence", "the posterior is taken given exactly the observations of the class", b.theory, ev, base("dict", o), we, g)
                J.members(f"expectation|{EM}._expectation.target", "the posterior is of the members of the family that are not observed", b.theory, tg,
                          lambda z: And(fam(z), Not(mem("dict", o)(z))), we, g)
            if adds and adds[0] is Get(PC, v_): adds = adds[1:]
            elif adds and Get(PC, v_) in adds: adds = [a for a in adds if a is not Get(PC, v_)]
            else:
                J.formula(f"expectation|{EM}._expectation.counts", f"{con}: the counts collected so far are kept", b.theory, And(g, T), F, we) if adds else None
                continue
            J.formula(f"expectation|{EM}._expectation.classes", f"{con}: every class of records is added once", b.theory, And(g, T if len(adds) == n else F), g, we)
            if len(adds) != n: continue
            for a in adds:
                if not known(a): rep.undec(f"{EM}._expectation, {con}: an added term is not followed"); continue
                J.formula(f"expectation|{EM}._expectation.scope", f"{con}: what is added is over the whole family", b.theory, And(g, scope(a, e, None, None)), And(g, fam(e)), we)
                fs = terms_of(a, "op:Mult")
                J.formula(f"expectation|{EM}._expectation.weight", f"{con}: weighted by the number of records, once", b.theory, And(g, T if sum(1 for q in fs if q in (c_, c2_)) == 1 else F), g, we)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, N) or x in seen: continue
        seen.add(x); yield x
        todo += [a for a in x.args if isinstance(a, N)]


def cases_of(t):
    if isinstance(t, N) and t.tag == "ite": return cases_of(t.args[1]) + cases_of(t.args[2])
    return [t] if isinstance(t, N) else []


def additive(t, cond=T):
    """[(condition, summands)] of a term whose operands are case distinctions"""
    if cond is F: return []
    if t.tag == "ite": return additive(t.args[1], And(cond, t.args[0])) + additive(t.args[2], And(cond, Not(t.args[0])))
    if t.tag == "app" and t.args[0] == "op:Add":
        return [(And(c1, c2), a1 + a2) for c1, a1 in additive(t.args[1], cond) for c2, a2 in additive(t.args[2], T) if And(c1, c2) is not F]
    if t.tag == "app" and t.args[0] == "op:Mult":
        return [(And(c1, c2), [App("op:Mult", x, y) for x in [prod(a1)] for y in [prod(a2)]] if len(a1) == 1 and len(a2) == 1 else [t])
                for c1, a1 in additive(t.args[1], cond) for c2, a2 in additive(t.args[2], T) if And(c1, c2) is not F]
    return [(cond, [t])]


def prod(xs): return xs[0]
