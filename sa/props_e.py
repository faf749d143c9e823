"""Property deciders on Engine B: several models, interval results."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import where, plain_names, N_, FS, EN, n_
from props_c import inference_bench
from props_d import cases_of, walk
from values import Budget

MS, MS2, LF, TV = (sym(n) for n in ("Ms", "Ms2", "Lf", "Tv"))
INFN, DF, NN, MX, TOL = (sym(n) for n in ("infn", "df", "n", "mx", "tol"))
QARGS = ("target", "do", "evidence", "counterfactual", "targets_subgraphs")


def some(facts, *syms):
    """the symbolic arguments are given: they are not None"""
    def f(a):
        if a.tag == "eq" and C(None) in a.args and any(s in a.args for s in syms): return False
        if a.tag == "tru" and (a.args[0] in syms or a.args[0].tag == "app" and a.args[0].args[0] == "attr:models"): return True
        return facts(a) if facts else None
    return f


def callargs(t, names, skip=1):
    """{parameter: argument} of a call left as a term"""
    out = {}
    for i, a in enumerate([a for a in t.args[1 + skip:] if a.tag not in ("kw", "star")]):
        if i < len(names): out[names[i]] = a
    for a in t.args[1 + skip:]:
        if a.tag == "kw" and a.args[0] != "**": out[a.args[0]] = a.args[1]
    return out


def params(ctx, cls, name):
    k, m, _ = ctx.w.cls(cls).lookup(name)
    return [a.arg for a in m.node.args.args][1:]


def kwds(t):
    """the dictionaries given as ** of a call left as a term"""
    return [a.args[1] for a in t.args if isinstance(a, N) and a.tag == "kw" and a.args[0] == "**"]


def alternatives(c):
    """[(fvs, guard, element)] of a collection with case distinctions in its elements; None if it is not one"""
    if c.tag == "tup": return [([], T, x) for x in c.args]
    if c.tag == "ite":
        a, b = alternatives(c.args[1]), alternatives(c.args[2])
        return None if a is None or b is None else [(f, And(c.args[0], g), e) for f, g, e in a] + [(f, And(Not(c.args[0]), g), e) for f, g, e in b]
    if c.tag != "coll": return None
    out = []
    for k in blocks(c):
        fvs, (g, el, v) = opened(k.args[0], *k.args[1:])
        out += [(fvs, And(g, cd), x) for cd, x in cases(el)]
    return out


def bench(ctx):
    b = inference_bench(ctx)
    b.theory.strict = False
    b.theory.facts = some(plain_names(), INFN, DF, NN, MX, TOL, sym("r"), sym("lo"), sym("hi"))
    for n in QARGS: b.let(n, sym(n))
    for n in ("infn", "df", "n", "mx", "tol"): b.let(n, sym(n))
    b.lst("Ms", MS); b.lst("Ms2", MS2); b.lst("Lf", LF); b.lst("Tv", TV)
    for c in ("CausalMultiInference", "IntervalProbFactor", "EMCC", "GDCC", "SimpleModelAggregatorEM", "SimpleModelAggregatorGD"): b.cls(c)
    return b


# ------------------------------------------------------------------------------------ reductions over models
REDUCE = {".min": "min", ".max": "max", "lib:numpy.min": "min", "lib:numpy.max": "max", "lib:numpy.amin": "min", "lib:numpy.amax": "max", "min": "min", "max": "max",
          ".mean": "mean", "lib:numpy.mean": "mean", "lib:numpy.median": "median", "sum": "sum", ".sum": "sum", "lib:numpy.sum": "sum"}
PLAIN = ("lib:numpy.array", "lib:numpy.asarray", ".tolist", "lib:numpy.ravel", ".ravel", ".flatten", "lib:numpy.stack", "lib:numpy.vstack")


def bare(t):
    while t.tag == "app" and t.args[0] in PLAIN and isinstance(t.args[1], N) and not any(a.tag == "kw" and a.args[0] == "axis" for a in t.args[1:]): t = t.args[1]
    return t


def model_var(g, fvs, L):
    """the variable of a block that stands for a model of the list L"""
    return next((a.args[1] for a in ([g] if g.tag == "in" else list(g.args) if g.tag == "and" else []) if a.tag == "in" and a.args[0] is L and a.args[1] in fvs), None)


def mapped(t, fn, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, N): return t
    if t not in memo:
        n = rebuild(t.tag, tuple(mapped(a, fn, memo) if isinstance(a, N) else a for a in t.args))
        memo[t] = fn(n) if isinstance(n, N) else n
    return memo[t]


def uncut(t):
    """a part of a list (by slices with constant ends, also put together): the members of the list that are kept, whichever these are"""
    def cut(c): return c.tag == "app" and c.args[0] == "slice" and c.args[1].tag == "coll" and all(isc(a) for a in c.args[2:])
    def pieces(c):
        if cut(c): return [c]
        if c.tag == "app" and c.args[0] == "op:Add":
            l = [pieces(a) for a in c.args[1:]]
            if all(l): return sum(l, [])
        return None
    def part(c):
        ps = pieces(c)
        if not ps or any(p.args[1] is not ps[0].args[1] for p in ps): return None
        ends = [slice(*(a.args[1] for a in p.args[2:])) for p in ps]
        try: whole = all(len(set().union(*(range(n)[x] for x in ends))) == n for n in range(24))
        except (TypeError, ValueError): return None
        l = ps[0].args[1]
        return l if whole else filt(l, lambda el: In(sym("kept"), el))
    def one(n):
        if n.tag in ("in", "tru"):
            l = part(n.args[0])
            if l is not None: return In(l, n.args[1]) if n.tag == "in" else nonempty(l)
        return n
    return mapped(t, one)


def reduction(t, L):
    """(operation, 'models' | 'states' | 'one', [(variables, guard, value) over the models]) or None"""
    t = bare(t)
    if t.tag == "app" and t.args[0] == "idx" and isc(t.args[2]): return "element", "one", []
    if t.tag == "coll":          # one reduction per state
        al = alternatives(t)
        if not al: return None
        if any(model_var(g, f, L) is not None for f, g, _ in al):
            r = [bare(el) for f, g, el in al]
            return (REDUCE[r[0].args[0]], "states", []) if all(x.tag == "app" and x.args[0] in REDUCE for x in r) else None
        return reduction(al[0][2], L) if len(al) == 1 and bare(al[0][2]).tag == "app" else None
    if t.tag != "app" or t.args[0] not in REDUCE: return None
    op, m = REDUCE[t.args[0]], bare(t.args[1])
    ax = next((a.args[1] for a in t.args[2:] if a.tag == "kw" and a.args[0] == "axis"), t.args[2] if len(t.args) > 2 and t.args[2].tag != "kw" else C(None))
    al = alternatives(m) if m.tag == "coll" else None
    if not al or not isc(ax): return None
    ax = ax.args[1]
    out = [model_var(g, f, L) is not None for f, g, _ in al]
    if any(out) != all(out): return None
    outer = out[0]
    inner = [alternatives(bare(el)) for f, g, el in al if bare(el).tag == "coll"]
    flat = [el.tag == "app" and el.args[0] in ("attr:values", "attr:values_list", "attr:values_array") and el.args[1] in f for f, g, el in al]
    if not inner and not any(flat):
        return (op, "models", al) if ax is None and outer else None
    if ax not in (0, 1, -1): return None
    first = ax == 0
    if inner and len(inner) != len(al) or any(flat) != all(flat): return None
    if flat[0]: return (op, "models" if first else "states", al) if outer else None
    if outer:
        if any(len(x or []) != 1 for x in inner): return None
        return (op, "models" if first else "states", [(f, g, x[0][2]) for (f, g, _), x in zip(al, inner)])
    if len(inner) != 1 or not inner[0] or any(model_var(g, f, L) is None for f, g, _ in inner[0]): return None
    return op, "models" if not first else "states", inner[0]


def bound_of(J, rep, b, t, L, want, key, what, wh):
    """t: the lower or upper values of an interval made from the factors in L"""
    r = reduction(uncut(t), L)
    if r is None: rep.undec(f"{key.partition('|')[2]}: {what}"); return
    op, axis, al = r
    J.formula(key, f"{what}: the {want} over the models", b.theory, T if op == want and axis == "models" else F, T, wh)
    if axis == "models" and al:
        e = fresh("m")
        mv = [model_var(g, f, L) for f, g, _ in al]
        J.formula(key + ".all", f"{what}: over all the models", b.theory, Or(*[Ex(f, And(g, Eq(m, e))) for (f, g, _), m in zip(al, mv)]), In(L, e), wh)
        J.formula(key + ".each", f"{what}: each model's own value", b.theory, T if all(m in el.fv for (_, _, el), m in zip(al, mv)) else F, T, wh)


DROPS = {".dropna", ".head", ".tail", ".sample", ".drop_duplicates", ".drop", ".truncate", ".query", ".nlargest", ".nsmallest", ".fillna", ".shift"}


def passed(J, key, what, th, got, spec, wh):
    """an argument that is handed on: another argument, a constant, or a part of it, is a difference"""
    if got.tag == "ite":
        for cd, c in cases(got):
            if not (isc(c) and any(k.tag in ("tru", "eq") and spec in k.args for k in walk(cd))): passed(J, key, what, th, c, spec, wh)
        return
    if got is not spec and (isc(got) or got.tag == "sym" or got.tag == "app" and got.args[0] in DROPS and got.args[1] is spec): return J.formula(key, what, th, F, T, wh)
    return J.value(key, what, th, got, spec, wh)


def c12(ctx, rep):
    rep.rule("the answers that inference over several models collects, the models it asks, the interval it makes of them and the store of an interval "
             "factor are derived as terms over any list of models or factors and compared with their definition: every model is asked the given query, "
             "low is the minimum over all of them and up the maximum, state by state")
    J = Judge(rep)
    CM, IV = "CausalMultiInference", "IntervalProbFactor"
    w = lambda c, m: where(ctx, c, m)
    e = fresh("x")

    # ---- every model is asked the given query
    def asked(b, c, key, what, models, wh, answers=".query"):
        alts = alternatives(uncut(c))
        if alts is None: rep.undec(f"{key}: {what}"); return
        phi, firm = [], True
        for fvs, g, el in alts:
            if el.tag == "app" and el.args[0] == answers and el.args[1].tag == "app" and el.args[1].args[0] == ".call" and el.args[1].args[1] is INFN and el.args[1].args[2].tag == "ref" and not fvs:
                J.formula(f"asked|{key}.model", f"{what}: the models that are asked", b.theory, F, T, wh); return
            own = [a for a in (g.args if g.tag == "and" else [g]) if any(k.tag == "app" and str(k.args[0]).startswith(("attr:", ".")) and k.args[1] in fvs for k in walk(a))]
            if own and el.tag == "app" and el.args[0] == answers:
                J.formula(f"asked|{key}.some", f"{what}: models are left out by a condition on them", b.theory, F, T, wh); return
            ok = el.tag == "app" and el.args[0] == answers and el.args[1].tag == "app" and el.args[1].args[0] == ".call" and el.args[1].args[1] is INFN and len(el.args[1].args) == 3
            if not ok: firm = False; continue
            phi.append(Ex(fvs, And(g, Eq(el.args[1].args[2], e))))
            got = callargs(el, QARGS)
            for n in QARGS:
                v = got.get(n, C(None) if n != "counterfactual" else C(False))
                if g is not F: passed(J, f"asked|{key}.{n}", f"{what}: the {n} each model is asked", b.theory, v, sym(n), wh)
        if not firm: rep.undec(f"{key}: {what}"); return
        J.formula(f"asked|{key}", f"{what}: the models that are asked", b.theory, Or(*phi), models(e), wh)

    q = "query(target, do, evidence, counterfactual, targets_subgraphs)"
    b = bench(ctx)
    b.assume(Ex([e], In(base("list", MS), e)))
    b.run("mi = CausalMultiInference(Ms, infn, False)")
    rep.count("operations", 2)
    x = b.at(f"mi.{q}")
    if x.dead: rep.undec(f"{CM}.query: not followed")
    else: asked(b, x.coll(""), f"{CM}.query", "the answers", mem("list", MS), w(CM, "query"))
    for con, src, models in (("after adding models", "mi.add_models(Ms2)", lambda z: Or(In(MS, z), In(MS2, z))), ("after setting models", "mi.set_models(Ms2)", mem("list", MS2))):
        for first in (False, True):
            b = bench(ctx)
            b.assume(And(Ex([e], In(base("list", MS), e)), Ex([e], In(base("list", MS2), e))))
            b.run("mi = CausalMultiInference(Ms, infn, False)")
            if first: b.run(f"r0 = mi.{q}")
            b.run(src)
            rep.count("operations")
            x = b.at(f"mi.{q}")
            con_ = con + (" to one that has answered" if first else "")
            if x.dead or b.st.dead: rep.undec(f"{CM}.query, {con_}: not followed")
            else: asked(b, x.coll(""), f"{CM}.query, {con_}", "the answers", models, w(CM, src[3:13]))

    # ---- the learners' models
    for cls, agg, opt, src in (("EMCC", "SimpleModelAggregatorEM", "ExpectationMaximization", "EMCC(m, df, infn, False, mx, n)"), ("GDCC", "SimpleModelAggregatorGD", "GradientLikelihood", "GDCC(m, df, infn, False, n, tol, mx)")):
        b = bench(ctx)
        b.V.opaque_classes |= {agg}
        b.run(f"ec = {src}")
        rep.count("operations", 2)
        x = b.at(f"ec.{q}")
        wc = w(cls, "compile")
        alts = alternatives(x.coll("")) if not x.dead else None
        runs = [c for c in x.calls if c[0] == ".run" and c[2] and c[2][0].tag == "app" and c[2][0].args[0] == "new:" + agg]
        if not alts or not runs: rep.undec(f"{cls}.query: not followed")
        else:
            A = runs[-1][2][0]
            got = callargs(A, params(ctx, agg, "__init__"), 0)
            mref = b.V.snap(b.st.frames[0]["m"], b.st)
            for n, v in (("model", mref), ("data", DF), ("max_iter", MX)) + ((("tol", TOL),) if cls == "GDCC" else ()):
                if n in got: (J.value if n == 'model' else lambda *a: passed(J, *a))(f"learned|{cls}.compile.{n}", f"the models are learned from the given {n}", b.theory, got[n], v, wc)
            nm = runs[-1][2][1] if len(runs[-1][2]) > 1 else dict(runs[-1][3] or {}).get("num_models")
            if nm is not None: J.value(f"learned|{cls}.compile.num_models", "as many models as asked for", b.theory, nm, NN, wc)
            asked(b, x.coll(""), f"{cls}.query", "the answers", lambda z: In(App("attr:models", A), z), wc)
        b = bench(ctx)
        b.V.opaque_classes |= {opt}; b.V.opaque_methods |= {"randomize_factors"}
        src = f"{agg}(m, df, Tv, mx)" if cls == "EMCC" else f"{agg}(m, df, tol, mx, Tv)"
        b.assume(Ex([e], In(base("list", TV), e)))
        b.run(f"ag = {src}")
        rep.count("operations")
        x = b.at("[ag.run(n), ag.models][1]")
        alts = alternatives(x.coll("")) if not x.dead else None
        if not alts: rep.undec(f"{agg}.run: not followed"); continue
        rng = b.at("range(n)").v
        for fvs, g, el in alts:
            o = el.args[1] if el.tag == "app" and el.args[0] == "attr:model" else None
            if o is None or not (o.tag == "app" and o.args[0] == "new:" + opt): rep.undec(f"{agg}.run: not followed"); continue
            wr = w(agg, "_build_optimizer")
            cnt = [a.args[0] for a in ([g] if g.tag == "in" else list(g.args) if g.tag == "and" else []) if a.tag == "in" and a.args[1] in fvs]
            if len(cnt) == 1 and cnt[0].tag == "app" and cnt[0].args[0] == "range":
                a = cnt[0].args[1:]
                n1 = a[0] if len(a) == 1 else a[1] if len(a) == 2 and isc(a[0]) and a[0].args[1] == 0 else None
                if n1 is not None: J.value(f"learned|{agg}.run.count", "one model per run asked for", b.theory, n1, NN, w(agg, "generate"))
                elif len(a) == 2: J.value(f"learned|{agg}.run.count", "one model per run asked for", b.theory, C(False), C(True), w(agg, "generate"))
            else: rep.undec(f"{agg}.run: the number of models")
            got = callargs(o, params(ctx, opt, "__init__"), 0)
            tv = got.get("trainable_vars")
            if tv is not None: J.members(f"learned|{agg}.run.trained", "the variables each run trains", b.theory, tv, mem("list", TV), wr)
            pm = got.get("prior_model")
            if pm is not None and pm.tag == "app" and pm.args[0] == ".randomize_factors" and len(pm.args) > 2:
                rv = callargs(pm, ["variables", "allow_zero"])
                if "variables" in rv: J.members(f"learned|{agg}.run.start", "the factors each run starts from at random", b.theory, rv["variables"], mem("list", TV), wr)
                J.value(f"learned|{agg}.run.start.model", "the model whose factors are drawn", b.theory, pm.args[1], b.V.snap(b.st.frames[0]["m"], b.st), wr)
            else: rep.undec(f"{agg}.run: the models the runs start from")
        ran = [c for c in x.calls if c[0] == ".run" and c[2] and c[2][0].tag == "app" and c[2][0].args[0] == "new:" + opt]
        if not ran: rep.undec(f"{agg}.run: the optimisers are not run")
        for c in ran:
            a = dict(zip(("data", "max_iter"), c[2][1:])); a.update(dict(c[3] or {}))
            ws = w(agg, "_single_generate")
            passed(J, f"learned|{agg}.run.data", "each run learns from the given data", b.theory, a.get("data", C(None)), DF, ws)
            if "max_iter" in a: J.value(f"learned|{agg}.run.max_iter", "each run gets the given limit", b.theory, a["max_iter"], MX, ws)

    # ---- an interval from the answers
    b = bench(ctx)
    b.V.opaque_classes |= {IV}
    b.assume(Ex([e], In(base("list", LF), e)))
    b.run("mi = CausalMultiInference(Ms, infn, True)")
    rep.count("operations", 2)

    def interval(t, key, wh, L=LF):
        got = callargs(t, params(ctx, IV, "__init__"), 0)
        for n, op in (("values_low", "min"), ("values_up", "max")):
            if n not in got: rep.undec(f"{key}: {n}")
            else: bound_of(J, rep, b, got[n], L, op, f"bounds|{key}.{n}", f"{n}, state by state", wh)
        for n, at in (("domain", "attr:domain"), ("left_vars", "attr:left_vars"), ("vtype", "attr:vtype")):
            v = got.get(n)
            if v is None:
                if n == "left_vars" and got.get("right_vars") is None: J.formula(f"bounds|{key}.{n}", "the left variables are those of the factors", b.theory, F, T, wh)
            elif v.tag in ("app", "ite") and all(c.tag == "app" and c.args[0].startswith("attr:") for c in cases_of(v)):
              for v in cases_of(v): J.formula(f"bounds|{key}.{n}", f"the {n} is that of the factors", b.theory, T if v.args[0] == at else F, T, wh)
            else: rep.undec(f"{key}: {n}")

    wf = w(IV, "from_precise")
    x = b.at("IntervalProbFactor.from_precise(Lf)")
    if x.dead: rep.undec(f"{IV}.from_precise: not followed")
    else:
        for t in cases_of(x.snap()):
            if t.tag == "app" and t.args[0] == "new:" + IV: interval(t, f"{IV}.from_precise", wf)
            else: rep.undec(f"{IV}.from_precise: not followed")
    wp = w(CM, "query")
    # through the public operation: the answers of the models are Lf
    for key, flag in ((f"{CM}.query, interval result", "True"),):
        b = bench(ctx)
        b.V.opaque_classes |= {IV}
        b.assume(Ex([e], In(base("list", MS), e)))
        b.run(f"mi = CausalMultiInference(Ms, infn, {flag})")
        x = b.at(f"mi.{q}")
        rep.count("operations")
        if x.dead: rep.undec(f"{key}: not followed"); continue
        t = x.snap()
        for cd, leaf in cases(t):
            if leaf.tag in ("tup", "coll"):
                el = [a[2] for a in alternatives(leaf) or [] if not a[0] and a[1] is T]
                if len(el) != 2: rep.undec(f"{key}: not followed"); continue
                for el_, op, n in zip(el, ("min", "max"), ("low", "up")): bound_of(J, rep, b, el_, MS, op, f"bounds|{CM}.query.number.{n}", f"{n} end of an interval of numbers", wp)
            elif leaf.tag == "app" and leaf.args[0] == "new:" + IV: interval(leaf, f"{CM}.query.factor", wp, MS)
            else: rep.undec(f"{key}: not followed")

    # ---- indicators: the value each model gives
    for m in ("prob_necessity", "prob_sufficiency", "prob_necessity_sufficiency"):
        b = bench(ctx)
        b.let("p", sym("p")); b.let("qq", sym("qq")); b.let("ca", C("ca")); b.let("fe", C("fe"))
        b.run("mi = CausalMultiInference(Ms, infn, False)")
        b.V.call_model = lambda fn, args, kw, st, fr, ex: b.run("Lf", st) if fn.tag == "fn" and fn.args[0].name == "query" else None
        rep.count("operations")
        x = b.at(f"mi.{m}(ca, fe, ('t', 'f'), ('t', 'f'))")
        alts = alternatives(x.coll("")) if not x.dead else None
        if not alts: rep.undec(f"{CM}.{m}: not followed"); continue
        phi, firm = [], True
        for fvs, g, el in alts:
            if el.tag == "app" and el.args[0] == ".get_value" and el.args[1].tag == "app" and el.args[1].args[0] == "idx" and isc(el.args[1].args[2]) and model_var(g, fvs, LF) is not None:
                J.formula(f"bounds|{CM}.{m}.each", "each model's own value", b.theory, F, T, w(CM, m)); firm = False
            elif el.tag == "app" and el.args[0] == ".get_value" and el.args[1] in fvs: phi.append(Ex(fvs, And(g, Eq(el.args[1], e))))
            else: firm = False
        if firm: J.formula(f"bounds|{CM}.{m}", "one value per model", b.theory, Or(*phi), In(LF, e), w(CM, m))
        else: rep.undec(f"{CM}.{m}: not followed")

    # ---- the interval factor keeps low with low and up with up
    LO, HI, OB = sym("lo"), sym("hi"), sym("ob")
    store = ("numpy", "NumpyStore")
    b = bench(ctx)
    b.V.opaque_classes |= {"NumpyStore"}
    b.dict("D", sym("D")); b.lst("Lv", sym("Lv")); b.let("lo", LO); b.let("hi", HI); b.dict("ob", OB)
    b.run(f"f = IntervalProbFactor(D, lo, hi, left_vars=Lv, vtype='{store[0]}')")
    rep.count("operations")
    wi = w(IV, "__init__")
    t = b.at("f.store")
    made = [k for k in walk(t.snap()) if k.tag == "app" and k.args[0] == "new:" + store[1]] if not t.dead else []
    if len(set(made)) != 1: rep.undec(f"{IV}.__init__: not followed")
    else:
        got = callargs(made[0], ["data", "domain"], 0)
        data, dom = got.get("data"), got.get("domain")
        parts = []
        for cd, d in cases(data) if data is not None else []:
            d = bare(d)
            a = alternatives(d) if d.tag in ("coll", "tup") else None
            if a and all(not f and g is T for f, g, _ in a): parts.append([x_[2] for x_ in a])
        marks = None
        if dom is not None:
            for v in cases_of(Get(dom, C("_bound"))) if dom.tag in ("coll", "ite") else []:
                a = alternatives(v) if v.tag in ("coll", "tup") else None
                if a and all(not f and g is T and isc(l) for f, g, l in a): marks = [l.args[1] for _, _, l in a]
        if not parts or marks is None or sorted(marks) != ["low", "up"]: rep.undec(f"{IV}.__init__: not followed")
        else:
            for p in parts:
                if len(p) != 2: rep.undec(f"{IV}.__init__: not followed"); continue
                for mk_, s, other in (("low", LO, HI), ("up", HI, LO)):
                    ws = {z for z in walk(p[marks.index(mk_)])}
                    if s in ws and other not in ws: J.formula(f"sides|{IV}.__init__.{mk_}", f"the {mk_} values are stored as {mk_}", b.theory, T, T, wi)
                    elif other in ws and s not in ws: J.formula(f"sides|{IV}.__init__.{mk_}", f"the {mk_} values are stored as {mk_}", b.theory, F, T, wi)
                    else: rep.undec(f"{IV}.__init__: the {mk_} values")
    b.V.opaque_classes |= {IV}
    b.let("sto", sym("sto"))
    b.run("f._store = sto")
    sto = sym("sto")

    def side_of(t):
        """which side of the store a values term is read from"""
        out = set()
        for k in walk(t):
            if k.tag == "app" and k.args[0] == ".restrict":
                for a in k.args[2:]:
                    if a.tag == "kw" and a.args[0] == "_bound" and isc(a.args[1]): out.add(a.args[1].args[1])
                    if a.tag == "kw" and a.args[0] == "**": out |= {y.args[1] for y in walk(a) if isc(y) and y.args[1] in ("low", "up")}
        return out
    for n, sd in (("store_low", "low"), ("store_up", "up")):
        x = b.at(f"f.{n}")
        rep.count("operations")
        s = side_of(x.snap()) if not x.dead else set()
        if s and s <= {"low", "up"}: J.formula(f"sides|{IV}.{n}", f"{n} reads the {sd} values", b.theory, T if s == {sd} else F, T, w(IV, n))
        else: rep.undec(f"{IV}.{n}: not followed")
    for n, src in (("restrict", "f.restrict(**ob)"), ("rename_vars", "f.rename_vars(ob)")):
        x = b.at(src)
        rep.count("operations")
        leaves = [t for t in cases_of(x.snap()) if t.tag == "app" and t.args[0] == "new:" + IV] if not x.dead else []
        if not leaves: rep.undec(f"{IV}.{n}: not followed")
        for t in leaves:
            got = callargs(t, params(ctx, IV, "__init__"), 0)
            for a, sd in (("values_low", "low"), ("values_up", "up")):
                s = side_of(got[a]) if a in got else set()
                if len(s) >= 1 and s <= {"low", "up"}: J.formula(f"sides|{IV}.{n}.{sd}", f"the {sd} values of the result come from the {sd} values", b.theory, T if s == {sd} else F, T, w(IV, n))
                else: rep.undec(f"{IV}.{n}: {a}")
                if n == "restrict" and a in got:
                    used = any(k.tag == "sym" and k is OB for k in walk(got[a]))
                    J.formula(f"sides|{IV}.{n}.{sd}.observed", "the values are those at the observed states", b.theory, T if used else F, T, w(IV, n))
    rep.least("operations", 20)
