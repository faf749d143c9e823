"""Property deciders on Engine B: value stores."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import where, plain_names, stores, factor_bench, FS, N_
from props_d import learner_bench
from props_e import params
from values import Budget


def c10(ctx, rep):
    rep.rule("for symbolic factors with any domain and any right-hand variables, for every operation that derives a factor and every kind of value store, the kind recorded in the result "
             "and the class of the store that holds its values are derived and compared with those of the operand; operations of models and learners that put new factors in the place of old ones, and "
             "readers that are told the kind, are derived for any kind")
    J = Judge(rep)
    MF, DF, IF = "MultinomialFactor", "DeterministicFactor", "IntervalProbFactor"
    D1, lv = sym("D1"), sym("lv")
    OPS = [("f1 * f2", MF, "multiply"), ("f1 + f2", MF, "addition"), ("f1 - f2", MF, "subtract"), ("f1 / f2", MF, "divide"), ("f1 * 2.0", MF, "multiply"), ("f1 + 2", MF, "addition"), ("f1 - 2.0", MF, "subtract"),
           ("f1 / 2.0", MF, "divide"), ("2.0 * f1", MF, "__rmul__"), ("1 + f1", MF, "__radd__"), ("1 - f1", MF, "__rsub__"), ("f1 ** M", MF, "marginalize"), ("f1 ^ M", MF, "maxmarginalize"),
           ("f1.restrict(**O)", MF, "restrict"), ("f1.R(**O)", MF, "R"), ("f1.rename_vars(mp)", MF, "rename_vars"), ("f1.to_deterministic()", MF, "to_deterministic"), ("f1.constant(x)", MF, "constant"),
           ("fd.to_multinomial()", DF, "to_multinomial"), ("fd.constant(x)", DF, "constant"), ("fd.rename_vars(mp)", DF, "rename_vars"),
           ("fi.restrict(**O)", IF, "restrict"), ("fi.rename_vars(mp)", IF, "rename_vars"), ("IntervalProbFactor.from_precise([f1, f2])", IF, "from_precise")]
    FNS = [("uniform_multinomial", "D1, R1, vt"), ("random_multinomial", "D1, R1, vt"), ("random_deterministic", "D1, R1, vt"), ("canonical_multinomial", "D1, lv, R1, vt"), ("canonical_deterministic", "D1, lv, R1, vt")]
    for vt, store in stores(ctx):
        b = factor_bench(ctx, vt)
        if b.st.dead: rep.undec(f"{MF} with {vt} values cannot be built in the analysis"); continue
        b.let("lv", lv); b.let("x", sym("x")); b.let("lo", sym("lo")); b.let("up", sym("up")); b.dict("mp", "mp")
        b.cls(DF); b.cls(IF)
        b.theory.facts = plain_names([lambda a: True if a.tag == "in" and a.args[1] is lv and a.args[0] is D1 else None])
        for n, src in (("fd", "DeterministicFactor(domain=D1, values=values1, left_vars=[lv], vtype=vt)"), ("fi", "IntervalProbFactor(domain=D1, values_low=lo, values_up=up, left_vars=[v for v in D1 if v not in R1], vtype=vt)")):
            st0 = b.st.copy()
            b.run(f"{n} = {src}")
            if b.st.dead: rep.undec(f"{src}[{store}]: not followed"); b.st.assign(st0)
        todo = [(s, f"{c}.{m}", where(ctx, c, m)) for s, c, m in OPS if hasattr(ctx.w.cls(c).lookup(m)[1], "qual")] + [(n, f"{c}.__init__", where(ctx, c, "__init__")) for n, c in (("f1", MF), ("fd", DF), ("fi", IF))]
        for n, a in FNS:
            mod = "bcause.factors.deterministic" if n == "canonical_deterministic" else "bcause.factors.mulitnomial"
            f = ctx.w.fn(mod, n)
            b.fn(mod, n); todo.append((f"{n}({a})", n, f"{f.module.relpath} {f.qual}"))
        for src, con, wh in todo:
            if src.split(".")[0] in ("fd", "fi") and src.split(".")[0] not in b.st.frames[0]: continue
            rep.count("operations")
            con = f"{con}[{store}]"
            try: x = b.at(src)
            except Budget: rep.undec(con + ": too large"); continue
            if x.dead: rep.undec(con + ": not followed"); continue
            pc = x.cond()
            J.value(f"store|{con}.vtype", f"{src}: the kind of value store recorded", b.theory, x.snap(".vtype"), C(vt), wh, pc)
            J.value(f"store|{con}.class", f"{src}: the class of the store", b.theory, x.snap(".store.__class__"), mk("cls", ctx.w.cls(store)), wh, pc)

    # ---- new factors in the place of old ones
    v = sym("v"); vt = sym("vt")

    def facts(a):
        if a.tag == "in" and a.args[1] is v and a.args[0] in (FS, N_): return True
        if a.tag == "eq" and C(None) in a.args and any(k.tag == "app" and k.args[0] == "get" and k.args[1] is FS for k in a.args): return False
        if a.tag == "eq" and C(None) in a.args and vt in a.args: return False
        if a.tag == "tru" and (a.args[0] is vt or a.args[0].tag == "app" and a.args[0].args[0] == "attr:vtype"): return True
        return None

    kept = App("attr:vtype", Get(FS, v))
    b = learner_bench(ctx)
    b.theory.facts = plain_names([facts])
    b.V.opaque_classes -= {"MultinomialFactor"}
    b.V.opaque_methods |= {"fitPMF", "_compute_N_and_P"}
    b.let("v", v); b.let("w", sym("w")); b.let("vt", vt); b.let("path", sym("path"))
    b.run("em = ExpectationMaximization(bn, Tr)"); b.run("em._model = bn; em._data = df")
    b.run("gd = GradientLikelihood(m, Tr)"); b.run("gd._data = df; gd._max_iter = 3")
    EM, GD, SC = "ExpectationMaximization", "GradientLikelihood", "StructuralCausalModel"
    for src, c, m in (("m.randomize_factors([v]).factors[v].vtype", SC, "randomize_factors"),
                      ("em._get_pseudocounts_dict()[v].vtype", EM, "_get_pseudocounts_dict"), ("gd._updated_factor(v).vtype", GD, "_updated_factor")):
        rep.count("operations")
        if b.st.dead: rep.undec(f"{c}.{m}: not followed"); continue
        try: x = b.at(src)
        except Budget: rep.undec(f"{c}.{m}: too large"); continue
        if x.dead: rep.undec(f"{c}.{m}: not followed"); continue
        t = deciding(x.snap(), facts)
        stay = lambda k: k is kept or k.tag == "app" and k.args[0] == "bm"
        con = f"{c}.{m}"
        if all(k is kept for k, cd in leaves(t)): rep.ok(f"{con}: {src}")
        elif any(isc(k) and cd is T for k, cd in leaves(t)): J.formula(f"store|{con}", f"{src}: the kind of value store of the factor that is replaced", b.theory, F, T, where(ctx, c, m))
        else: J.value(f"store|{con}", f"{src}: the kind of value store of the factor that is replaced", b.theory, t, kept, where(ctx, c, m), T)

    # ---- readers and conversions that are told the kind
    for mod, n, src in (("bcause.conversion.pgmpy", "toMultinomialFactor", "toMultinomialFactor(cpd, vt)"), ("bcause.conversion.pgmpy", "toBCauseBNet", "toBCauseBNet(net, vt)"), ("bcause.readwrite.bnread", "from_bif", "from_bif(path, vt)"),
                        ("bcause.readwrite.bnread", "from_xmlbif", "from_xmlbif(path, vt)"), ("bcause.readwrite.scmread", "from_bif", "from_bif(path, vt)"), ("bcause.readwrite.scmread", "from_xmlbif", "from_xmlbif(path, vt)")):
        b = learner_bench(ctx)
        b.theory.facts = plain_names([facts])
        b.let("vt", vt); b.let("path", sym("path")); b.let("cpd", sym("cpd")); b.let("net", sym("net"))
        b.fn(mod, n)
        f = ctx.w.fn(mod, n)
        wh = f"{f.module.relpath} {f.qual}"
        rep.count("operations")
        built = []
        try: x = b.at(src)
        except Budget: rep.undec(f"{mod}.{n}: too large"); continue
        for c in x.calls:
            if c[0] != "new:MultinomialFactor" or f.module.name != mod: continue
            a = dict(zip(params(ctx, MF, "__init__"), c[2])); a.update(dict(c[3] or {}))
            built.append(a.get("vtype", C(None)))
        if not built: rep.undec(f"{mod}.{n}: the factors that are built are not followed"); continue
        for t in built:
            t = deciding(t, facts)
            if all(k is vt for k, cd in leaves(t)): rep.ok(f"{n}: the kind of value store asked for")
            elif any(isc(k) for k, cd in leaves(t)): J.formula(f"store|{mod}.{n}", "the kind of value store asked for", b.theory, F, T, wh)
            else: J.value(f"store|{mod}.{n}", "the kind of value store asked for", b.theory, t, vt, wh, T)
    rep.least("operations", 100)


def leaves(t, cd=T):
    if t.tag == "ite": return leaves(t.args[1], And(cd, t.args[0])) + leaves(t.args[2], And(cd, Not(t.args[0])))
    return [(t, cd)]


def decide(f, facts):
    if f.tag == "not":
        d = decide(f.args[0], facts)
        return Not(d)
    if f.tag in ("and", "or"): return (And if f.tag == "and" else Or)(*[decide(a, facts) for a in f.args])
    r = facts(f)
    return f if r is None else T if r else F


def deciding(t, facts):
    """the value with the conditions that are known put in"""
    if t.tag == "ite": return Ite(decide(t.args[0], facts), deciding(t.args[1], facts), deciding(t.args[2], facts))
    return t
