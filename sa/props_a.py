"""Properties decided on the heap / effect / dependence summaries (Engine A)."""
from __future__ import annotations
import ast
from heap import path, root, is_ext, AV, E
from loader import AnalysisBroken
import wellformed

# operations that are documented to change the object they are called on (and nothing else)
MUTATORS = {"set_variables", "set_value", "set_operationSet", "set_restrict", "set_marginalize", "set_maxmarginalize",
            "set_multiply", "set_addition", "set_subtract", "set_divide", "set_factor", "fill_random_equations",
            "fill_random_marginals", "fill_random_factors", "randomize_factors", "set_default", "set_models", "add_models",
            "set_interval_result"}
# plain functions whose documented purpose is to write into one argument: name -> parameter
WRITES_ARG = {"set_value": "data"}
VALUE_BASES = ("Factor", "DiscreteStore", "PGModel")
STATEFUL_BASES = ("Inference", "ParameterLearning", "ModelAggregator")
QUERY = {"query", "causal_query", "counterfactual_query", "prob_necessity", "prob_sufficiency", "prob_necessity_sufficiency"}
SKIP_FILES = ("btree",)          # unregistered, unfinished store


def derived(c, bases): return any(k.name in bases for k in c.mro())


def skip(f): return any(s in f.module.relpath for s in SKIP_FILES)


def roots(ctx):
    if "roots" in ctx.cache: return ctx.cache["roots"]
    w, out = ctx.w, []
    for f in w.funcs:
        if f.parent is None and f.cls is None and f.is_public and not f.is_abstract and not skip(f): out.append((f, None))
    for c in w.classes:
        if skip(c) or c.subclasses and (c.is_abstract or any(getattr(b, "id", getattr(b, "attr", "")) == "ABC" for b in c.node.bases)): continue
        names = {}
        for k in reversed(c.mro()): names.update(k.methods)
        for nm, f in names.items():
            if f.is_abstract or skip(f): continue
            if f.is_public or (nm.startswith("__") and nm.endswith("__")): out.append((f, c))
    ctx.cache["roots"] = out
    return out


def summaries(ctx, omit=False):
    k = ("sum", omit)
    if k not in ctx.cache:
        ctx.cache[k] = [(f, c, ctx.heap.analyse_root(f, c, omit=omit)) for f, c in roots(ctx)]
    return ctx.cache[k]


def where(e): return f"{e.site[0]}:{e.site[1]} in {e.site[2]}"


def entry(f, c): return f"{c.name}.{f.name}" if c is not None else f.qual


def pname(f, i):
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    if a.vararg: names.append("*" + a.vararg.arg)
    names += [p.arg for p in a.kwonlyargs]
    if a.kwarg: names.append("**" + a.kwarg.arg)
    return names[i] if isinstance(i, int) and i < len(names) else str(i)


def is_method(f): return f.cls is not None and not f.is_static


def init_of(c):
    k, f, _ = c.lookup("__init__")
    return f if k == "method" else None


def ctor(ctx, c):
    f = init_of(c)
    return ctx.heap.analyse_root(f, c) if f is not None else None


def reach(s, loc, fields):
    """locations that a field path leads to in the final heap of a summary"""
    cur = {loc}
    for fl in fields:
        nxt = set()
        for l in cur:
            v = s.heap.get((l, fl))
            if isinstance(v, AV): nxt |= set(v.locs())
            if fl == "[]":
                for (l2, f2), v2 in s.heap.items():
                    if l2 == l and isinstance(f2, str) and f2.startswith("k:") and isinstance(v2, AV): nxt |= set(v2.locs())
            if is_ext(l) and root(l) != ("P", 0): nxt.add(("F", l, fl))
        cur = nxt
    return cur


def deep_deps(s, v):
    d, seen, todo = set(v.deps), set(), list(v.locs())
    while todo:
        l = todo.pop()
        if l in seen: continue
        seen.add(l)
        for (x, fl), u in s.heap.items():
            if x == l and isinstance(u, AV): d |= u.deps; todo += u.locs()
    return d


def shallow_deps(s, v, depth=2):
    """what a value and, for plain containers, its elements depend on"""
    d, cur = set(v.deps), list(v.locs())
    for _ in range(depth):
        nxt = []
        for l in cur:
            if s.heap.get((l, "$t")): continue
            for (x, fl), u in s.heap.items():
                if x == l and isinstance(fl, str) and (fl == "[]" or fl[:2] in ("k:", "t:")) and isinstance(u, AV): d |= u.deps; nxt += u.locs()
        cur = nxt
    return d


# ------------------------------------------------------------------------------------------------ C01
def c01(ctx, rep):
    rep.rule("no public operation writes into an object reachable from one of its arguments, from the receiver of a "
             "non-mutating operation of a factor, store or model, or from what an inference, learner or aggregator was built with")
    ctors = {}
    for f, c, s in summaries(ctx):
        rep.count("entry_points")
        meth = is_method(f)
        for e in s.events.values():
            if e.kind != "write" or e.loc is None or not is_ext(e.loc): continue
            r, p = path(e.loc)
            rep.count("write_sites_seen")
            if r[0] == "G": continue
            i = r[1]
            nm = pname(f, i)
            if meth and i == 0 and not f.is_classmethod:
                if f.name == "__init__" or f.name in MUTATORS: continue
                if c not in ctors: ctors[c] = ctor(ctx, c)
                cs = ctors[c]
                if cs is None: continue
                full = p + (e.field,) if isinstance(e.field, str) else p
                if derived(c, VALUE_BASES):
                    fl = full[0]
                    v = cs.heap.get((("P", 0), fl))
                    if v is None: continue
                    dd = deep_deps(cs, v)
                    al = any(is_ext(l) for l in v.locs())
                    if al or any(d[0] == "P" and d[1] != 0 for d in dd):
                        rep.bad("receiver-modified", f"{entry(f, c)}|self.{fl}",
                                f"{entry(f, c)} changes the {c.name} it is called on (field {'.'.join(full)})", where(e))
                    continue
                if p:
                    bad = [l for l in reach(cs, ("P", 0), p) if is_ext(l) and root(l)[0] == "P" and root(l) != ("P", 0)]
                    if bad:
                        q = pname(init_of(c), root(bad[0])[1])
                        rep.bad("constructor-argument-modified", f"{entry(f, c)}|{q}",
                                f"{entry(f, c)} writes into the object given as {q} when the {c.name} was built (self.{'.'.join(full)})", where(e))
                continue
            if nm.startswith("*") and not p: continue            # the callee's own tuple / dict of extra arguments
            if c is None and WRITES_ARG.get(f.name) == nm: continue
            rep.bad("argument-modified", f"{entry(f, c)}|{nm}",
                    f"{entry(f, c)} writes into its argument {nm}" + (f" (at {'.'.join(map(str, p))})" if p else ""), where(e))
        if not any(k.startswith(("receiver-modified|" + entry(f, c) + "|", "argument-modified|" + entry(f, c) + "|")) for k in rep.violations):
            rep.ok(f"{entry(f, c)}: {sum(e.kind == 'write' for e in s.events.values())} write sites examined")
    rep.least("entry_points", 400)
    rep.stats["call_sites"] = ctx.heap.ncalls; rep.stats["contexts"] = ctx.heap.nctx


# ------------------------------------------------------------------------------------------------ C02
def mutated_containers(ctx):
    """class -> fields whose container is written in place by a public operation of the class"""
    out = {}
    for f, c, s in summaries(ctx):
        if c is None or not is_method(f) or f.name == "__init__": continue
        for e in s.events.values():
            if e.kind != "write" or e.loc is None: continue
            r, p = path(e.loc)
            if r == ("P", 0) and p and not f.is_classmethod: out.setdefault(c, {}).setdefault(p[0], set()).add(f.name)
    return out


def c02(ctx, rep):
    rep.rule("a field whose container some public operation of its class writes in place never aliases, in a constructed or returned "
             "object, a container of the caller, of the receiver or of the module")
    mut = mutated_containers(ctx)
    rep.stats["mutable_fields"] = sorted(f"{c.name}.{f}" for c, d in mut.items() for f in d)
    n = 0
    for f, c, s in summaries(ctx):
        if c is not None and f.name == "__init__":
            objs = {("P", 0): c}
        else:
            objs, seen, todo = {}, set(), list(s.ret.locs()) if s.ret else []
            while todo:
                l = todo.pop()
                if l in seen or is_ext(l): continue
                seen.add(l)
                for t in s.heap.get((l, "$t"), E):
                    if t in mut: objs[l] = t
                for (x, fl), v in s.heap.items():
                    if x == l and isinstance(v, AV): todo += v.locs()
        for o, cl in objs.items():
            for fl, who in mut.get(cl, {}).items():
                v = s.heap.get((o, fl))
                if not isinstance(v, AV): continue
                n += 1
                ext = [l for l in v.locs() if is_ext(l)]
                if ext and o == ("P", 0): ext = [l for l in ext if root(l) != ("P", 0)]
                if ext:
                    r, p = path(ext[0])
                    src = ("module state " + str(r[1])) if r[0] == "G" else pname(f, r[1]) + "".join("." + str(x) for x in p)
                    rep.bad("shared-container", f"{entry(f, c)}|{cl.name}.{fl}",
                            f"the {cl.name} built by {entry(f, c)} keeps in {fl} the very container of {src}, "
                            f"which {', '.join(sorted(who))} writes in place", f"{f.module.relpath} {f.qual}")
                else: rep.ok(f"{entry(f, c)}: {cl.name}.{fl} is a container of its own")
        # two attributes of one object that are one container, which is written in place through one of them
        if c is None or not is_method(f) or f.is_classmethod: continue
        for fl, who in mut.get(c, {}).items():
            if not any(e.kind == "write" and e.loc == ("F", ("P", 0), fl) and (e.field == "[]" or str(e.field).startswith("k:")) for _, c2, s2 in summaries(ctx) if c2 is c for e in s2.events.values()): continue
            n += 1
            mine = s.heap.get((("P", 0), fl))
            mine = set(mine.locs()) if isinstance(mine, AV) else set()
            mine |= {("F", ("P", 0), fl)} if (("P", 0), fl) not in s.mw else set()
            for (x, other), v in s.heap.items():
                if x != ("P", 0) or other == fl or not isinstance(v, AV) or not set(v.locs()) & mine or str(other).startswith("$"): continue
                rep.bad("shared-within-object", f"{entry(f, c)}|{c.name}.{other}={fl}",
                        f"{entry(f, c)} makes {other} and {fl} one container, which {', '.join(sorted(who))} writes in place", f"{f.module.relpath} {f.qual}")
    rep.stats["object_fields_checked"] = n
    rep.least("object_fields_checked", 60)


# ------------------------------------------------------------------------------------------------ C03
def self_fields(s):
    W = {}
    for e in s.events.values():
        if e.kind == "write" and e.loc is not None and root(e.loc) == ("P", 0):
            p = path(e.loc)[1]
            W.setdefault(p[0] if p else e.field, []).append(e)
    R = {(path(l)[1][0] if path(l)[1] else fl) for l, fl in s.reads if root(l) == ("P", 0)}
    return W, R


def memo_decorated(f):
    for d in getattr(f.node, 'decorator_list', []):
        n = d.func if isinstance(d, ast.Call) else d
        nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
        if nm in ("cache", "lru_cache", "cached_property", "memoize"): return nm
    return None


def reassigned_fields(ctx):
    """class -> fields written (rebound or in place) by some public operation other than the constructor"""
    if "reassigned" in ctx.cache: return ctx.cache["reassigned"]
    out = {}
    for f, c, s in summaries(ctx):
        if c is None or not is_method(f) or f.name == "__init__" or f.is_classmethod: continue
        for fl, es in self_fields(s)[0].items(): out.setdefault(c, {}).setdefault(fl, set()).add(f.name)
    ctx.cache["reassigned"] = out
    return out


def c03(ctx, rep):
    rep.rule("for every query operation of every inference class: no attribute is both read in the state an earlier call left it and "
             "written, unless what is written depends on no argument of the query (compile once); no query writes module state; "
             "no memoised function reads an attribute that is changed after construction")
    for f, c, s in summaries(ctx):
        if c is None or not derived(c, ("Inference",)) or f.name not in QUERY: continue
        rep.count("query_operations")
        W, R = self_fields(s)
        names = f.params
        for e in s.events.values():
            if e.kind == "write" and e.loc is not None and root(e.loc)[0] == "G":
                rep.bad("module-state-written", f"{entry(f, c)}|{root(e.loc)[1]}", f"{entry(f, c)} writes module-level state {root(e.loc)[1]}", where(e))
        for fl in sorted(map(str, set(W) & R)):
            v = s.heap.get((("P", 0), fl))
            deps = shallow_deps(s, v) if isinstance(v, AV) else set()
            args = sorted({pname(f, d[1]) for d in deps if d[0] == "P" and d[1] != 0})
            if args or not isinstance(v, AV):
                rep.bad("state-carried-between-queries", f"{entry(f, c)}|{fl}",
                        f"{entry(f, c)} reads attribute {fl} as an earlier query left it, and writes into it what depends on {', '.join(args) or 'unknown inputs'}",
                        where(W[fl][0]))
            else: rep.ok(f"{entry(f, c)}: {fl} is only compiled once, from {sorted({d[1] for d in deps if d[0] == 'O'})}")
        rep.ok(f"{entry(f, c)}: writes {sorted(map(str, W))}, carries over {sorted(map(str, set(W) & R))}")
    rep.least("query_operations", 20)
    ra = reassigned_fields(ctx)
    for f in ctx.w.funcs:
        m = memo_decorated(f)
        if not m or skip(f): continue
        rep.count("memoised_functions")
        classes = [c for c in ctx.w.classes if f.cls in c.mro()] if f.cls is not None else [None]
        for c in classes:
            if c is not None and c.is_abstract and c.subclasses: continue
            s = ctx.heap.analyse_root(f, c)
            bad = []
            for l, fl in s.reads:
                r, p = path(l)
                full = p + (fl,)
                if r[0] == "G": continue
                if r == ("P", 0) and c is not None and not f.is_static and full and full[0] in ra.get(c, {}):
                    bad.append((full[0], sorted(ra[c][full[0]])))
            if bad: rep.bad("memoised-over-mutable-state", f"{entry(f, c)}|{bad[0][0]}",
                            f"{entry(f, c)} is memoised ({m}) but reads {bad[0][0]}, changed by {', '.join(bad[0][1])}", f"{f.module.relpath} {f.qual}")
            else: rep.ok(f"{entry(f, c)} memoised over immutable state")


# ------------------------------------------------------------------------------------------------ C04
def c04(ctx, rep):
    rep.rule("a learner's run, or the compilation of a causal inference object, reads no attribute as an earlier run left it; whatever an object derives lazily from an attribute is dropped "
             "by every public operation that changes that attribute")
    for f, c, s in summaries(ctx):
        if c is None or not (derived(c, ("ParameterLearning",)) and f.name in ("run", "initialize")
                             or derived(c, ("CausalInference",)) and f.name == "compile"): continue
        rep.count("learner_runs")
        W, R = self_fields(s)
        stale = sorted(map(str, set(W) & R))
        for fl in stale:
            rep.bad("state-of-earlier-run", f"{entry(f, c)}|{fl}", f"{entry(f, c)} reads attribute {fl} as an earlier run left it, and writes it", where(W[fl][0]))
        if not stale: rep.ok(f"{entry(f, c)}: rewrites {sorted(map(str, W))} before reading them")
    rep.least("learner_runs", 4)
    # lazily derived attributes: groups of attributes that a non-mutating operation fills in when they are not there yet
    lazy = {}
    for f, c, s in summaries(ctx):
        if c is None or not is_method(f) or f.is_classmethod or f.name == "__init__" or f.name in MUTATORS: continue
        if not derived(c, VALUE_BASES + STATEFUL_BASES) or f.name in ("run", "initialize", "step", "reset", "generate"): continue
        W, R = self_fields(s)
        grp = {}
        for fl in set(W) & R:
            v = s.heap.get((("P", 0), fl))
            if isinstance(v, AV): grp[fl] = ({d[1] for d in deep_deps(s, v) if d[0] == "O"}, {a[1] for a in v.atoms if a[0] == "c"})
        if not grp: continue
        guards = set.intersection(*[g[0] | {fl} if len(grp) == 1 else g[0] for fl, g in grp.items()]) & set(grp)
        src = set().union(*[g[0] for g in grp.values()]) | set(grp)
        if guards: lazy.setdefault(c, []).append((f.name, grp, guards, src - guards))
        rep.count("lazy_groups")
    for f, c, s in summaries(ctx):
        if c is None or f.name not in MUTATORS or c not in lazy: continue
        W, R = self_fields(s)
        must = {fl for l, fl in s.mw if l == ("P", 0)}
        for by, grp, guards, src in lazy[c]:
            hit = sorted(map(str, src & set(W)))
            if not hit: continue
            rep.count("mutators_of_lazy_classes")
            why = None
            if not guards & set(W): why = f"leaves {', '.join(sorted(guards))} as it is"
            elif set(hit) & must and not guards & must: why = f"resets {', '.join(sorted(guards))} on some paths only"
            else:
                for g in guards & set(W):
                    v = s.heap.get((("P", 0), g))
                    k = {a[1] for a in v.atoms if a[0] == "c"} if isinstance(v, AV) and all(a[0] == "c" for a in v.atoms) else set()
                    if k and k <= grp[g][1]: why = f"sets {g} to the value that means up to date"
                    elif isinstance(v, AV) and not k and ("O", g) in deep_deps(s, v): why = f"may keep {g} as it was"
            if why: rep.bad("stale-derived-state", f"{entry(f, c)}|{hit[0]}",
                            f"{entry(f, c)} changes {', '.join(hit)} but {why}, so {by} goes on answering from what it derived before", f"{f.module.relpath} {f.qual}")
            else: rep.ok(f"{entry(f, c)} drops what {by} derived")
    rep.least("mutators_of_lazy_classes", 2)


# ------------------------------------------------------------------------------------------------ C05
SEED_PARAMS = ("random_state", "seed", "rng")


def seedish(f, d):
    """a dependence that may be a seed the caller gave: a parameter or an attribute named so"""
    if d[0] == "P": nm = pname(f, d[1])
    elif d[0] == "O": nm = str(d[1])
    else: return False
    return any(x in nm.lower() for x in ("seed", "random_state", "rng", "random", "generator"))


def c05(ctx, rep):
    rep.rule("every draw comes from the process-wide generators that the seed operation seeds, or from a generator seeded by a caller's "
             "argument; nothing else reseeds, saves or restores them; no entropy source; draws do not happen in an order that "
             "depends on set iteration; a seed argument reaches the generator")
    seedfn = ctx.w.fn("bcause.util.randomUtil", "seed")
    s = ctx.heap.analyse_root(seedfn)
    seeded = {e.detail for e in s.events.values() if e.kind == "draw" and "seed" in e.flags and any(d[0] == "P" and d[1] == 0 for d in e.deps)}
    for lib in ("numpy.random", "random"):
        if any(d in (lib + ".seed",) for d in seeded): rep.ok(f"seed() seeds {lib} with its argument")
        else: rep.bad("seed-incomplete", f"seed|{lib}", f"the seed operation does not seed {lib} with its argument", "bcause/util/randomUtil.py")
    for f, c, s in summaries(ctx):
        name = entry(f, c)
        has = False
        for e in s.events.values():
            if e.kind not in ("draw", "rng"): continue
            has = True
            rep.count("random_sites")
            fl = set(map(str, e.flags))
            demo = e.site[2].rsplit(".", 1)[-1].startswith("define_model") or f.name.startswith("define_model")
            if "entropy" in fl: rep.bad("entropy", f"{e.site[2]}|{e.detail}", f"{name} draws from {e.detail}, which no seed governs", where(e))
            if e.kind == "draw" and "seed" in fl and f is not seedfn and not demo:
                rep.bad("reseeded", f"{e.site[2]}|{e.detail}", f"{name} reseeds the generator the user seeded", where(e))
            if e.kind == "draw" and "state" in fl: rep.bad("state-rewound", f"{e.site[2]}|{e.detail}", f"{name} saves or restores the generator state", where(e))
            if e.kind == "rng" and "none" in fl | {e.detail.split("(")[-1].rstrip(")")}:
                rep.bad("unseeded-generator", f"{e.site[2]}|{e.detail}", f"{name} uses a generator of its own that no seed governs ({e.detail})", where(e))
            if "clock" in fl and not any(seedish(f, d) for d in e.deps if d[0] != "CLOCK"):
                rep.bad("unseeded-generator", f"{e.site[2]}|{e.detail}", f"{name} seeds a generator of its own with something that differs from one run of the program to the next ({e.detail})", where(e))
            if e.kind == "draw" and "U" in fl:
                rep.bad("unordered-draws", f"{e.site[2]}|{e.detail}", f"{name} draws in an order that follows set iteration", where(e))
        # a seed parameter must reach a generator
        for i, p in enumerate(f.params):
            if p in SEED_PARAMS and f is not seedfn:
                rep.count("seed_parameters")
                if any(e.kind in ("rng", "draw") and any(d[0] == "P" and d[1] == i for d in e.deps) for e in s.events.values()): rep.ok(f"{name}: {p} reaches the generator")
                elif any(e.kind in ("rng", "draw") for e in s.events.values()) or not s.returns:
                    rep.bad("seed-ignored", f"{name}|{p}", f"{name} ignores its argument {p}", f"{f.module.relpath} {f.qual}")
                else: rep.undec(f"{name}: {p}")
        if has: rep.ok(name)
    rep.least("random_sites", 10)


# ------------------------------------------------------------------------------------------------ C16
def unordered_results(w, f):
    """places where results of workers are collected in completion order and nothing in the function puts them in order again"""
    nodes = list(ast.walk(f.node))
    if any(isinstance(x, ast.Call) and (getattr(x.func, "id", "") in ("sorted", "dict") or getattr(x.func, "attr", "") == "sort") or isinstance(x, ast.DictComp)
           or isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in nodes): return
    for x in nodes:
        if not isinstance(x, ast.Call): continue
        nm = getattr(x.func, "id", getattr(x.func, "attr", ""))
        if nm in ("imap_unordered", "as_completed"): yield x, nm
        for k in x.keywords:
            if k.arg == "return_as" and isinstance(k.value, ast.Constant) and "unordered" in str(k.value.value): yield x, k.value.value


def c16(ctx, rep):
    rep.rule("code run by the workers of a parallel run neither writes an object the workers share (anything not created by the worker "
             "itself or handed to it alone) nor draws from the process-wide generator")
    n = 0
    for f, c, s in summaries(ctx):
        if c is None or not derived(c, STATEFUL_BASES): continue
        for e in s.events.values():
            if "W" not in e.flags: continue
            n += 1
            if e.kind == "draw" and ("global" in e.flags or "seed" in e.flags):
                rep.bad("draw-in-worker", f"{e.site[2]}|{e.detail}", f"{entry(f, c)}: parallel workers draw from the shared generator, so the results depend on their interleaving", where(e))
            if e.kind == "write" and e.loc is not None and is_ext(e.loc):
                rep.bad("shared-write-in-worker", f"{e.site[2]}|{path(e.loc)[1]}.{e.field}", f"{entry(f, c)}: parallel workers write the shared object {path(e.loc)[1]}.{e.field}", where(e))
    rep.stats["worker_events"] = n
    for f in ctx.w.funcs:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) in ("Parallel", "Thread", "ThreadPoolExecutor", "Pool", "Process", "ThreadPool"):
                rep.count("parallel_sites"); rep.ok(f"{f.qual}: workers analysed")
        for x, how in unordered_results(ctx.w, f):
            rep.bad("results-in-completion-order", f"{f.qual}|{how}", f"{f.qual} takes the results of the workers in the order they finish ({how})", f"{f.module.relpath}:{x.lineno} in {f.qual}")
    rep.least("parallel_sites", 1)


# ------------------------------------------------------------------------------------------------ C19
def not_impl_only(f):
    """the function is declared unavailable: it raises NotImplementedError (possibly through a sibling)"""
    return any(isinstance(x, ast.Raise) and x.exc is not None and "NotImplementedError" in ast.dump(x.exc) for x in ast.walk(f.node))


def c19(ctx, rep):
    rep.rule("with its optional arguments left out, no public operation uses None where an object is required, and every operation "
             "that is not declared unavailable can return")
    for f, c, s in summaries(ctx, omit=True):
        name = entry(f, c)
        rep.count("entry_points")
        bad = False
        for e in s.events.values():
            if e.kind == "none":
                bad = True
                rep.bad("none-used", f"{e.site[2]}|{e.detail}", f"{name} called without its optional arguments uses None: {e.detail}", where(e))
        err = [e for e in s.events.values() if e.kind in ('typeerr', 'none')]
        if not s.returns and err and not unavailable(ctx, f, c):
            bad = True
            rep.bad("never-returns", name, f"{name} cannot return when called without its optional arguments: {err[0].detail}", f"{f.module.relpath} {f.qual}")
        if not bad: rep.ok(name)
    rep.least("entry_points", 400)
    calls, loads, bad = wellformed.check(ctx.w, skip)
    rep.stats["call_sites_bound"], rep.stats["attribute_loads"] = calls, loads
    for kind, f, key, text, line in bad:
        rep.bad(kind, f"{f.qual}|{key}", text, f"{f.module.relpath}:{line} in {f.qual}")
    if not bad: rep.ok("every resolved call binds and every attribute of self or of a module exists")


def unavailable(ctx, f, c, seen=None):
    seen = seen or set()
    if f in seen: return False
    seen.add(f)
    if not_impl_only(f): return True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and c is not None:
            k, g, _ = c.lookup(x.func.attr)
            if k == "method" and unavailable(ctx, g, c, seen): return True
    return False
