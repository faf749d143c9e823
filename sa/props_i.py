"""Property deciders on Engine B: probabilities of records and sampling of records."""
from __future__ import annotations
from core import *
from terms import *
from bench import *
from props_b import where, factor_bench, FS, N_, E_, EN, n_, ed_, fs_
from props_c import inference_bench
from props_d import walk
from props_e import uncut, mapped
from props_g import unmarked, plain, given, one
from values import Budget

OBS, SIZE = sym("obs"), sym("n")
SUMS = {"lib:numpy.sum": "+", "sum": "+", "lib:builtins.sum": "+", "lib:numpy.prod": "*", "lib:math.prod": "*", "lib:math.fsum": "+"}


def conj(g): return list(g.args) if g.tag == "and" else [g]


def kw(t, name): return next((a.args[1] for a in t.args[1:] if isinstance(a, N) and a.tag == "kw" and a.args[0] == name), None)


def pos_args(t): return [a for a in t.args[1:] if not (isinstance(a, N) and a.tag == "kw")]


def c20(ctx, rep):
    rep.rule("the terms that factors and networks return as probabilities of records are compared with the product (or sum of logarithms) over the factors of the variables asked for, each of every record; the draws of forward sampling are read from the calls "
             "it makes: who is drawn from, under which condition, in which order, given what, and what is joined to the records; the weights handed to the random choice are compared with the values of the factor")
    J = Judge(rep)
    e = fresh("x")

    def attempt(b, src, con):
        rep.count("operations")
        try: x = b.at(src)
        except Budget: rep.undec(f"{con}: too large"); return None
        if x.dead: rep.undec(f"{con}: not followed"); return None
        return x

    # ---- one factor
    MF = "MultinomialFactor"
    for meth, log in (("prob", False), ("log_prob", True)):
        con, wh = f"{MF}.{meth}", where(ctx, MF, meth)
        b = factor_bench(ctx, "numpy"); b.let("obs", OBS)
        b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"get_value"}
        x = attempt(b, f"f1.{meth}(obs)", con)
        if x is None: continue
        t = uncut(x.snap())
        while t.tag == "app" and t.args[0] in ("lib:numpy.log", "lib:numpy.array", "list") and len(t.args) == 2:
            if t.args[0] == "lib:numpy.log": log = None if log else "twice"
            t = t.args[1]
        if t.tag != "coll" or len(blocks(t)) != 1: rep.undec(f"{con}: the list"); continue
        fvs, (g, el, _) = opened(blocks(t)[0].args[0], *blocks(t)[0].args[1:])
        if len(fvs) != 1: rep.undec(f"{con}: the list"); continue
        o = fvs[0]
        J.formula(f"record|{con}.records", "one for every record", b.theory, g, In(OBS, o), wh) if not any(k.tag in ("cmp",) for k in walk(g)) else rep.undec(f"{con}: one for every record")
        took = 0
        while el.tag == "app" and el.args[0] in ("lib:math.log", "lib:numpy.log", "float", "lib:builtins.float") and len(el.args) == 2:
            took += el.args[0].endswith("log"); el = el.args[1]
        if not (el.tag == "app" and el.args[0] == ".get_value"): rep.undec(f"{con}: the values"); continue
        J.formula(f"record|{con}.log", "its logarithm, where asked for", b.theory, T if took == (1 if log is True else 0) and log != "twice" else F, T, wh)
        star = next((a.args[1] for a in el.args[1:] if a.tag == "kw" and a.args[0] == "**"), None)
        if star is o or star is not None and star.tag == "coll" and len(blocks(star)) == 1:
            if star is not o:
                f2, (g2, k2, v2) = opened(blocks(star)[0].args[0], *blocks(star)[0].args[1:])
                src = {a.args[0] for a in conj(g2) if a.tag == "in"}
                if o not in src: J.formula(f"record|{con}.value", "the value at the record itself", b.theory, F, T, wh); continue
                if v2 is not Get(o, k2): rep.undec(f"{con}: the value at the record"); continue
            rep.ok(f"{con}: the value at the record itself")
        else: rep.undec(f"{con}: the value at the record")

    # ---- a network
    for src, meth, spec, op in (("bn.log_prob(obs)", "log_prob", lambda e: n_(e), "+"), ("bn.log_prob(obs, S)", "log_prob", lambda e: In(base("list", sym("S")), e), "+"), ("bn.prob(obs)", "prob", lambda e: n_(e), "*")):
        con, wh = f"PGModel.{meth}" + (" (of some variables)" if ", S" in src else ""), where(ctx, "PGModel", meth)
        b = inference_bench(ctx); th = b.theory
        b.let("obs", OBS); b.cls("PGModel")
        b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"log_prob" if meth == "prob" else "prob", "sample"}
        if ", S" in src: b.assume(nonempty(base("list", sym("S"))))
        th.subsets = list(th.subsets) + [(N_, FS), (FS, N_)]
        x = attempt(b, src, con)
        if x is None: continue
        t = x.snap()
        if t.tag != "app" or t.args[0] not in SUMS: rep.undec(f"{con}: the total"); continue
        J.formula(f"network|{con}.total", "the product of probabilities, or the sum of their logarithms", th, T if SUMS[t.args[0]] == op else F, T, wh)
        if t.args[0].startswith("lib:numpy"):
            ax = kw(t, "axis") or (pos_args(t)[1] if len(pos_args(t)) > 1 else NONE)
            axs = list(cases(ax))
            if all(isc(v) for _, v in axs): J.formula(f"network|{con}.axis", "record by record", th, And(*(Or(Not(cd), T if v is C(0) else F) for cd, v in axs)), T, wh)
            else: rep.undec(f"{con}: record by record")
        c = uncut(pos_args(t)[0])
        if c.tag != "coll": rep.undec(f"{con}: the factors"); continue
        members, ok = [], True
        for k in blocks(c):
            fvs, (g, el, _) = opened(k.args[0], *k.args[1:])
            for cd, y in cases(el):
                if th.table(And(g, cd), F) == "same": continue
                if not (y.tag == "app" and y.args[0] == "." + meth and len(y.args) >= 3): ok = False; continue
                fac = y.args[1]
                if fac is NONE and th.table(And(x.cond(), g, cd), F) == "same" or fac is NONE: continue
                if not (fac.tag == "app" and fac.args[0] == "get" and fac.args[1] is FS): ok = False; continue
                J.formula(f"network|{con}.records", "of the records that are given", th, T if y.args[2] is OBS else F, T, wh) if y.args[2] is OBS or not any(q is OBS for q in walk(y.args[2])) else rep.undec(f"{con}: the records")
                members.append(Ex(fvs, And(g, cd, Eq(e, fac.args[2]))))
        if not ok: rep.undec(f"{con}: the factors"); continue
        J.formula(f"network|{con}.factors", "over the factors of all the variables asked for", th, Or(*members), And(spec(e)), wh)

    # ---- forward sampling
    f = ctx.w.fn("bcause.models.sampling", "forward_sampling")
    con, wh = "forward_sampling", f"{f.module.relpath} {f.qual}"
    b = inference_bench(ctx); th = b.theory
    b.let("n", SIZE); b.fn("bcause.models.sampling", "forward_sampling")
    b.V.orders = True
    b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"sample", "sample_conditional"}
    th.subsets = list(th.subsets) + [(N_, FS), (FS, N_)]
    th.strict = False
    x = attempt(b, "forward_sampling(bn, n)", con)
    if x is not None:
        draws = [c for c in x.calls if c[0] in (".sample", ".sample_conditional") and c[2] and c[2][0].tag == "app" and c[2][0].args[0] == "get" and c[2][0].args[1] is FS]
        other = [c for c in x.calls if c[0] in (".sample", ".sample_conditional") and c not in draws and c[2] and c[2][0] is not NONE and not (c[2][0].tag == "app" and c[2][0].args[0] == "ite")]
        if not draws or other: rep.undec(f"{con}: the draws are not followed")
        else:
            root = lambda v: Not(Ex([e], ed_(e, v)))
            whole = []
            for nm, pc, a, k, site in draws:
                v = a[0].args[2]
                cs = [q for q in conj(pc) if v in q.fv or q.tag == "tru" and str(getattr(q.args[0], "args", [""])[0]).startswith("order:")]
                if v.tag != "fv" or any(q.size > 60 for q in cs): rep.undec(f"{con}: who is drawn"); continue
                g, marks = unmarked(And(*cs))
                if marks == {"topo"}: rep.ok(f"{con}: in topological order")
                elif not marks or marks == {"topo", "turned"}: J.formula(f"sample|{con}.order", "parents are drawn before their children", th, F, T, wh)
                else: rep.undec(f"{con}: the order")
                if any(y.tag == "app" and y.args[0] not in ("get",) or y.tag == "top" for y in walk(g)): rep.undec(f"{con}: who is drawn"); continue
                whole.append(subst(g, {v: e}))
                if nm == ".sample":
                    J.formula(f"sample|{con}.roots", "drawn on their own: variables without parents only", th, And(n_(v), fs_(v), g, Not(root(v))), F, wh)
                    s = a[1] if len(a) > 1 else k.get("size")
                    if s is SIZE: rep.ok(f"{con}: as many as asked for")
                    elif s is None or isc(s): J.formula(f"sample|{con}.size", "as many as asked for", th, F, T, wh)
                    else: rep.undec(f"{con}: as many as asked for")
                else:
                    J.formula(f"sample|{con}.given", "drawn given others: variables with parents only", th, And(n_(v), fs_(v), g, root(v)), F, wh)
                    s = a[1] if len(a) > 1 else k.get("observations")
                    if s is None: rep.undec(f"{con}: given what was drawn"); continue
                    s = uncut(s)
                    carried = any(y.tag in ("sym", "app") and str(y.args[0]).startswith("lcv:") for y in walk(s))
                    if s.tag == "app" and s.args[0] == ".to_dict" and carried: rep.ok(f"{con}: given what was drawn before")
                    elif not carried and not any(y.tag == "top" for y in walk(s)) and s.tag != "coll": J.formula(f"sample|{con}.records", "given what was drawn before", th, F, T, wh)
                    else: rep.undec(f"{con}: given what was drawn before")
            if whole: J.formula(f"sample|{con}.all", "every variable is drawn", th, And(n_(e), fs_(e), Or(*whole)), And(n_(e), fs_(e)), wh)
            cc = [c for c in x.calls if c[0] == "pandas.concat"]
            for c in cc:
                ax = c[3].get("axis") or (c[2][1] if len(c[2]) > 1 else NONE)
                if isc(ax): J.formula(f"sample|{con}.joined", "joined record by record", th, T if ax.args[1] in (1, "columns") else F, T, wh)
                else: rep.undec(f"{con}: joined record by record")

    # ---- one draw
    con, wh = f"{MF}._sample", where(ctx, MF, "_sample")
    b = factor_bench(ctx, "numpy"); th = b.theory
    b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"get_value"}
    x = attempt(b, "f1._sample()", con)
    if x is not None:
        ch = [c for c in x.calls if c[0] in ("numpy.random.choice", "random.choices", "random.choice")]
        if len(ch) != 1: rep.undec(f"{con}: the draw")
        else:
            c = ch[0]
            p = c[3].get("p") or c[3].get("weights") or (c[2][3] if len(c[2]) > 3 else None)
            if p is None: J.formula(f"sample|{con}.weights", "weighted with the values of the factor", th, F, T, wh)
            else:
                total = None
                if p.tag == "app" and p.args[0] == "op:Div": total, p = p.args[2], p.args[1]
                vals = p
                while vals.tag == "app" and vals.args[0] in ("lib:numpy.array", "lib:numpy.asarray", "list") and len(vals.args) >= 2: vals = vals.args[1]
                if total is not None:
                    inner = total.args[1] if total.tag == "app" and total.args[0] in (".sum", "lib:numpy.sum", "sum") and len(total.args) == 2 else None
                    if inner is p or inner is vals: rep.ok(f"{con}: normalised by their own sum")
                    else: rep.undec(f"{con}: normalised by their own sum")
                if vals.tag == "coll" and len(blocks(vals)) == 1:
                    fv, (g, el, _) = opened(blocks(vals)[0].args[0], *blocks(vals)[0].args[1:])
                    while el.tag == "app" and el.args[0] in ("float", "lib:builtins.float") and len(el.args) == 2: el = el.args[1]
                    if el.tag == "app" and el.args[0] == ".get_value": rep.ok(f"{con}: weighted with the values of the factor")
                    elif isc(el): J.formula(f"sample|{con}.weights", "weighted with the values of the factor", th, F, T, wh)
                    else: rep.undec(f"{con}: weighted with the values of the factor")
                else: rep.undec(f"{con}: weighted with the values of the factor")
    # ---- how many
    con, wh = f"{MF}.sample", where(ctx, MF, "sample")
    b = factor_bench(ctx, "numpy"); th = b.theory; b.let("n", SIZE)
    b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"_sample"}
    x = attempt(b, "f1.sample(n)", con)
    if x is not None:
        t = x.snap()
        k = blocks(t)[0] if t.tag == "coll" and len(blocks(t)) == 1 else None
        g, el = (k.args[1], k.args[2]) if k is not None else (None, None)
        r = next((a.args[0] for a in conj(g) if a.tag == "in" and a.args[0].tag == "app" and a.args[0].args[0] == "range"), None) if g is not None else None
        if r is None or el.tag != "app" or el.args[0] != "._sample" or len(conj(g)) != 1: rep.undec(f"{con}: the draws")
        else: J.formula(f"sample|{con}.size", "as many draws as asked for", th, T if r.args[1:] in ((SIZE,), (C(0), SIZE)) else F, T, wh) if r.args[1:] in ((SIZE,), (C(0), SIZE)) or not any(y is SIZE for y in walk(r)) or all(isc(a) or a is SIZE for a in r.args[1:]) and len(r.args) == 3 and r.args[1] is not C(0) else rep.undec(f"{con}: the draws")
    con, wh = f"{MF}.sample_conditional", where(ctx, MF, "sample_conditional")
    b = factor_bench(ctx, "numpy"); th = b.theory; b.let("obs", OBS)
    b.V.opaque_methods = set(getattr(b.V, "opaque_methods", ())) | {"_sample", "R", "restrict"}
    x = attempt(b, "f1.sample_conditional(obs)", con)
    if x is not None:
        t = uncut(x.snap())
        if t.tag != "coll" or len(blocks(t)) != 1: rep.undec(f"{con}: the draws")
        else:
            fv, (g, el, _) = opened(blocks(t)[0].args[0], *blocks(t)[0].args[1:])
            if len(fv) == 1 and In(OBS, fv[0]) in conj(g) and not any(k.tag == "app" for k in walk(g)): J.formula(f"sample|{con}.records", "one draw for every observation, in their order", th, g, In(OBS, fv[0]), wh)
            elif len(fv) == 1 and any(a.tag == "in" and a.args[0].tag == "app" and a.args[0].args[0] == ".drop_duplicates" for a in conj(g)): J.formula(f"sample|{con}.records", "one draw for every observation, in their order", th, F, T, wh)
            else: rep.undec(f"{con}: the draws")
    rep.least("operations", 9)
