"""Effect / alias models of the library functions the package uses (builtins, numpy, pandas, networkx, random,
functools, itertools, copy, joblib / threads).  Everything not listed is assumed to return a value that aliases
nothing and to modify nothing."""
import ast

E = frozenset()

ANN = {"dict": {"dict"}, "Dict": {"dict"}, "OrderedDict": {"dict"}, "defaultdict": {"dict"}, "Mapping": {"dict"},
       "list": {"list"}, "List": {"list"}, "tuple": {"tuple"}, "Tuple": {"tuple"}, "set": {"set"}, "Set": {"set"},
       "str": {"num"}, "int": {"num"}, "float": {"num"}, "bool": {"num"}, "Hashable": {"num"},
       "DataFrame": {"df"}, "Series": {"series"}, "ndarray": {"nd"}, "DiGraph": {"graph"}, "Graph": {"graph"},
       "Callable": {"func"}, "callable": {"func"}, "Path": {"num"}}
ISINST = {"dict": {"dict"}, "OrderedDict": {"dict"}, "list": {"list"}, "tuple": {"tuple"}, "set": {"set"},
          "str": {"str", "num"}, "int": {"num"}, "float": {"num"}, "bool": {"num"}, "DataFrame": {"df"}, "ndarray": {"nd"},
          "DiGraph": {"graph"}, "Graph": {"graph"}, "Series": {"series"}}
CTOR_TYPES = {"dict": {"dict"}, "OrderedDict": {"dict"}, "defaultdict": {"dict"}, "list": {"list"}, "set": {"set", "U"},
              "DiGraph": {"graph"}, "DataFrame": {"df"}, "WeakKeyDictionary": {"dict"}, "WeakValueDictionary": {"dict"},
              "Counter": {"dict"}, "deque": {"list"}}
NAME_HINTS = {
    "model": (["@DiscreteDAGModel"], []), "prior_model": (["@DiscreteDAGModel"], []), "m": (["@DiscreteDAGModel"], []),
    "models": (["list"], ["@DiscreteDAGModel"]), "bnet": (["@DiscreteDAGModel"], []), "cmodel": (["@DiscreteDAGModel"], []),
    "data": ([], []), "df": (["df"], []), "dag": (["graph"], []), "graph": (["graph"], []), "moral": (["graph"], []),
    "domain": (["dict"], []), "domains": (["dict"], []), "dom": (["dict"], []), "evidence": (["dict"], []),
    "obs": (["dict"], []), "observation": (["dict"], []), "names_mapping": (["dict"], []), "varsizes": (["dict"], []),
    "list_factors": (["list"], ["@MultinomialFactor"]), "factors": ([], ["@DiscreteFactor"]),
    "store": (["@DiscreteStore"], []), "op1": (["@DiscreteStore"], []), "op2": (["@DiscreteStore"], []),
    "f": (["@DiscreteFactor"], []), "ops": ([], []), "to_remove": (["list"], []), "on": (["list"], []),
    "variables": (["list"], []), "left_vars": (["list"], []), "right_vars": (["list"], []), "trainable_vars": (["list"], []),
    "other": ([], []), "vars_remove": (["list"], []), "do": ([], []),
}
BINOPS = {"Mult": "__mul__", "Add": "__add__", "Sub": "__sub__", "Div": "__truediv__", "BitXor": "__xor__", "Pow": "__pow__",
          "BitOr": "__or__", "BitAnd": "__and__", "MatMult": "__matmul__", "FloorDiv": "__floordiv__"}

# names of methods that library containers also have (an unknown receiver may be either)
LIBNAMES = {"copy", "add", "update", "pop", "append", "extend", "remove", "get", "keys", "values", "items", "sort", "clear",
            "insert", "index", "max", "min", "sum", "mean", "union", "intersection", "difference", "reshape", "tolist"}

LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "appendleft", "popleft", "extendleft", "rotate"}
SET_MUT = {"add", "discard", "remove", "pop", "update", "clear", "difference_update", "intersection_update",
           "symmetric_difference_update"}
DICT_MUT = {"pop", "popitem", "setdefault", "update", "clear", "move_to_end", "__setitem__", "__delitem__"}
GRAPH_MUT = {"add_edge", "add_edges_from", "add_node", "add_nodes_from", "remove_edge", "remove_edges_from", "remove_node",
             "remove_nodes_from", "clear", "clear_edges", "update", "add_weighted_edges_from"}
ND_MUT = {"fill", "sort", "put", "resize", "itemset", "partition", "setflags", "setfield", "byteswap"}
DF_MUT = {"insert", "update", "pop", "__setitem__"}
ANY_MUT = (LIST_MUT | SET_MUT | DICT_MUT | GRAPH_MUT | {"fill", "put", "resize", "itemset", "__setattr__"}) - {"update_"}
INPLACE = {"drop", "fillna", "dropna", "rename", "replace", "reset_index", "set_index", "sort_values", "sort_index",
           "drop_duplicates", "query", "eval", "mask", "where", "clip", "interpolate", "ffill", "bfill", "rename_axis", "set_axis"}
VIEWS = {"ravel", "reshape", "transpose", "squeeze", "swapaxes", "view", "diagonal", "to_numpy", "get_group"}
RNG_METHODS = {"choice", "uniform", "random", "rand", "randn", "randint", "random_sample", "normal", "dirichlet", "multinomial",
               "binomial", "shuffle", "permutation", "integers", "sample", "choices", "beta", "gamma", "poisson", "exponential",
               "standard_normal", "random_integers", "ranf", "bytes", "triangular", "gauss", "betavariate", "getrandbits",
               "randrange", "geometric", "standard_gamma", "laplace", "logistic", "multivariate_normal", "vonmises", "zipf",
               "hypergeometric", "randbytes", "expovariate", "gammavariate", "normalvariate", "lognormvariate", "weibull",
               "pareto", "power", "rayleigh", "wald", "standard_exponential", "chisquare", "f", "noncentral_f", "logseries",
               "negative_binomial", "permuted", "random_raw"}
ENTROPY = {"os.urandom", "os.getrandom", "secrets.token_bytes", "secrets.token_hex", "secrets.randbelow", "secrets.choice",
           "secrets.randbits", "uuid.uuid4", "uuid.uuid1", "random.SystemRandom", "secrets.SystemRandom", "time.time_ns()"}
NEEDS_OBJECT = {"inspect.getfullargspec", "inspect.signature", "inspect.getsource", "os.path.join", "os.path.exists", "os.path.basename", "pandas.concat",
                "networkx.DiGraph.copy", "networkx.topological_sort", "networkx.ancestors", "networkx.descendants"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.now", "os.getpid",
         "time.monotonic_ns", "threading.get_ident", "builtins.id", "builtins.hash"}
DATACLASS_FRESH = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.array", "numpy.arange", "numpy.linspace",
                   "numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like", "numpy.concatenate", "numpy.stack",
                   "numpy.vstack", "numpy.hstack", "numpy.repeat", "numpy.tile", "numpy.where", "numpy.copy", "numpy.sum",
                   "numpy.max", "numpy.min", "numpy.prod", "numpy.cumsum", "numpy.sort", "numpy.argsort", "numpy.unique",
                   "numpy.divide", "numpy.multiply", "numpy.add", "numpy.subtract", "numpy.einsum", "numpy.maximum", "numpy.minimum",
                   "numpy.log", "numpy.exp", "numpy.abs", "numpy.mean", "numpy.amax", "numpy.amin", "numpy.nansum", "numpy.nanmax",
                   "numpy.delete", "numpy.insert", "numpy.append", "numpy.take", "numpy.choose", "numpy.round", "numpy.true_divide"}
NP_VIEW = {"numpy.ravel", "numpy.asarray", "numpy.reshape", "numpy.transpose", "numpy.moveaxis", "numpy.squeeze", "numpy.atleast_1d",
           "numpy.atleast_2d", "numpy.swapaxes", "numpy.expand_dims", "numpy.broadcast_to", "numpy.rollaxis", "numpy.asanyarray",
           "numpy.ascontiguousarray", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.diagonal", "numpy.nditer", "numpy.atleast_3d",
           "numpy.lib.stride_tricks.as_strided", "numpy.array_split", "numpy.split"}
NP_MUT = {"numpy.put", "numpy.copyto", "numpy.fill_diagonal", "numpy.place", "numpy.putmask", "numpy.put_along_axis",
          "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at", "numpy.divide.at", "heapq.heappush", "heapq.heapify", "heapq.heappop",
          "bisect.insort", "networkx.set_node_attributes", "networkx.set_edge_attributes", "networkx.add_path",
          "networkx.add_cycle", "networkx.add_star", "operator.setitem", "operator.delitem", "operator.iadd", "operator.ior",
          "networkx.freeze", "networkx.classes.function.set_node_attributes"}
SCALAR_FN = {"builtins.len", "builtins.isinstance", "builtins.issubclass", "builtins.hasattr", "builtins.callable", "builtins.any",
             "builtins.all", "builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.repr", "builtins.hash",
             "builtins.id", "builtins.print", "builtins.abs", "builtins.round", "builtins.pow", "builtins.divmod", "builtins.ord",
             "builtins.chr", "builtins.format", "builtins.bytes", "builtins.complex", "numpy.ndim", "numpy.shape", "numpy.isscalar",
             "numpy.size", "math.log", "math.prod", "math.isnan", "os.path.exists", "os.path.abspath"}
SETNX = {"networkx.descendants", "networkx.ancestors", "networkx.node_connected_component"}


def _deps(pos, kw=()):
    d = set()
    for p in pos:
        if isinstance(p, tuple): p = p[1]
        d |= p.deps
    for v in (kw.values() if kw else ()): d |= v.deps
    return frozenset(d)


def _v(p): return p[1] if isinstance(p, tuple) else p


def _truth(v):
    c = v.consts() if v is not None else None
    return c is not None and all(bool(x) for x in c)


def _maybe_true(v):
    if v is None: return False
    c = v.consts()
    if c is None: return True
    return any(bool(x) for x in c)


def draw(fr, st, name, pos, kw, n, local=None):
    """a random draw"""
    fl = set()
    for p in list(pos) + list(kw.values()):
        if fr.unordered(st, _v(p)): fl.add("UA")
    fr.event("draw", None, None, n, name, frozenset(fl | ({local} if local else {"global"})))


def method(fr, st, loc, ts, name, pos, kw, ds, n, o):
    """library method on an object location"""
    from heap import AV, BOT, SC, TOP, S, T, is_ext
    me = AV({("o", loc)}, o.deps)
    deps = o.deps | _deps(pos, kw)
    arg = [_v(p) for p in pos]
    kt = ts - {"any", "U", "num", "func"}
    known = bool(kt)

    def el(v): return fr.elems(st, v, n)

    # ---- mutators
    mut = False
    if known:
        if "list" in kt and name in LIST_MUT: mut = True
        if "set" in kt and name in SET_MUT: mut = True
        if "dict" in kt and name in DICT_MUT: mut = True
        if "graph" in kt and name in GRAPH_MUT: mut = True
        if "nd" in kt and name in ND_MUT: mut = True
        if kt & {"df", "series"} and name in DF_MUT: mut = True
        if "dictview" in kt and not mut: pass
    elif name in ANY_MUT:
        # unknown receiver: pandas/numpy have pure add/pop-like names, our data model does not pass those around
        mut = not (name in ("add", "sort", "update") and len(arg) == 0)
    if name in INPLACE and _maybe_true(kw.get("inplace")): mut = True
    if name == "setflags": mut = False
    if "iter" in kt and name in ("send", "close", "throw"): return SC
    if mut:
        new = BOT
        if name in ("append", "add", "appendleft", "remove", "discard", "fill", "put"): new = arg[0] if arg else BOT
        elif name == "insert": new = arg[-1] if arg else BOT
        elif name in ("extend", "extendleft"): new = el(arg[0]) if arg else BOT
        elif name == "update":
            for a in arg: new = new | fr.dictvals(st, a, n) if not ("set" in kt) else new | el(a)
            for v in kw.values(): new = new | v
        elif name == "setdefault": new = arg[1] if len(arg) > 1 else BOT
        if name in ("remove", "discard"): new = BOT
        uo = any(fr.unordered(st, a) for a in arg) if name in ("extend", "update") else False
        if fr.uctx and name in ("append", "insert", "setdefault", "update", "add_edge", "add_node"): uo = True
        old = BOT
        if name in ("pop", "popitem", "popleft", "setdefault"):
            c = arg[0].consts() if arg else None
            old = fr.dictvals(st, me, n) if "dict" in kt else el(me)
            if name == "popitem": old = fr.fresh(st, n, "pair", {"tuple"}, old)
        fr.store(st, loc, "[]", new.dep(deps - o.deps) if new.atoms else AV(E, _deps(pos, kw)), n, False, f".{name}()")
        if uo and not is_ext(loc) and (loc, "$t") in st.heap and "list" in kt: st.heap[(loc, "$t")] = st.heap[(loc, "$t")] | {"U"}
        if name == "sort" and (loc, "$t") in st.heap: st.heap[(loc, "$t")] = st.heap[(loc, "$t")] - {"U"}
        if name in ("pop", "popitem", "popleft", "setdefault"):
            r = old | (arg[1] if len(arg) > 1 else BOT)
            if "set" in kt: r = r | SC
            return (r if r.atoms else SC).dep(deps)
        return AV({("c", None)}, deps)

    # ---- accessors
    if name in ("keys",):
        # order of keys = order of the dict
        v = fr.fresh(st, n, "keys", {"dictview", "iter"} | ({"U"} if "U" in ts else set()), SC, deps)
        if is_ext(loc) and (loc, "[]") not in st.mw: fr.reads.add((loc, "[]"))
        return v
    if name == "values" and (not known or "dict" in kt):
        return fr.fresh(st, n, "values", {"iter"} | ({"U"} if "U" in ts else set()), fr.dictvals(st, me, n), deps)
    if name == "items" and (not known or kt & {"dict", "graph", "df"}):
        t = fr.fresh(st, n, "item", {"tuple"}, None, deps)
        tl = t.locs()[0]
        st.heap[(tl, "t:0")] = SC.dep(o.deps)
        st.heap[(tl, "t:1")] = st.heap.get((tl, "t:1"), BOT) | fr.dictvals(st, me, n)
        return fr.fresh(st, n, "items", {"iter", "dictview"} | ({"U"} if "U" in ts else set()), t, deps)
    if name == "get" and (not known or "dict" in kt):
        c = arg[0].consts() if arg else None
        v = fr.subscript(st, me, arg[0] if arg else SC, n)
        return v | (arg[1] if len(arg) > 1 else AV({("c", None)}))
    if name == "copy":
        if known:
            nt = set(ts) - {"dictview"}
            return copy_shallow(fr, st, me, n, nt, deps)
        return copy_shallow(fr, st, me, n, set(), deps)
    if name in ("to_undirected", "to_directed", "reverse", "edge_subgraph") and "graph" in kt:
        if name == "edge_subgraph": return me
        return fr.fresh(st, n, "g", {"graph"}, None, deps)
    if name == "subgraph": return AV({("o", loc)}, deps)          # a view of the receiver
    if name in ("successors", "predecessors", "neighbors", "nodes", "adjacency"):
        return fr.fresh(st, n, "nbrs", {"iter"}, SC, deps)
    if name in ("edges", "in_edges", "out_edges"):
        return fr.fresh(st, n, "edges", {"edgeview"}, None, deps)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        e = el(me)
        for a in arg: e = e | el(a)
        return fr.fresh(st, n, "setop", {"set", "U"}, e, deps)
    if name in ("isdisjoint", "issubset", "issuperset", "index", "count", "startswith", "endswith", "join", "format", "tolist_"):
        for a in arg:
            if name in ("isdisjoint", "issubset", "issuperset"): fr.deref(a, n, st, "argument of ." + name + " in")
        return SC.dep(deps)
    if name in VIEWS and (not known or kt & {"nd", "df", "series"}):
        return AV({("o", loc)}, deps)
    if name in ("flatten", "astype", "sum", "max", "min", "argmax", "argmin", "mean", "cumsum", "round", "clip", "repeat", "dot", "prod") and kt & {"nd"}:
        if name == "astype" and "copy" in kw and not _truth(kw["copy"]): return AV({("o", loc)}, deps)
        if kw.get("out") is not None: fr.mutate(st, kw["out"], SC, n, "out=")
        return fr.fresh(st, n, "nd", {"nd"}, SC, deps)
    if name == "tolist": return fr.fresh(st, n, "lst", {"list"}, SC, deps)
    if name in ("to_dict", "to_records", "iterrows", "itertuples") and (not known or kt & {"df", "series"}):
        d = fr.fresh(st, n, "row", {"dict"}, SC, deps)
        return fr.fresh(st, n, "recs", {"list"} if name == "to_dict" else {"iter"}, d, deps)
    if kt & {"df", "series", "index"}:
        if name in ("any", "all", "isna", "isnull", "notna", "value_counts", "drop_duplicates", "sort_values", "fillna", "drop", "dropna",
                    "reset_index", "groupby", "merge", "join", "assign", "rename", "replace", "apply", "map", "head", "tail", "sample",
                    "append", "astype", "set_index", "query", "reindex", "isin", "unique", "nunique", "size", "count", "sum"):
            if name == "sample":
                if "random_state" not in kw: draw(fr, st, "DataFrame.sample", pos, kw, n)
            return fr.fresh(st, n, "df", {"df", "series"}, SC, deps)
        return AV({T, S}, deps)
    if kt & {"rs"}:
        if name in RNG_METHODS:
            if name == "shuffle" and arg: fr.mutate(st, arg[0], BOT, n, "shuffle")
            draw(fr, st, "local." + name, pos, kw, n, "local")
            return pick(fr, st, name, arg, n, deps)
        if name == "seed": return SC
    if kt & {"parallel"}:
        return TOP
    if kt & {"executor"}:
        if name in ("submit", "apply_async", "apply"):
            fr.worker += 1
            try: r = fr.apply(arg[0], list(pos[1:]), {k: v for k, v in kw.items()}, None, n, st) if arg else TOP
            finally: fr.worker -= 1
            f = fr.fresh(st, n, "future", {"future"}, None)
            st.heap[(f.locs()[0], "$res")] = st.heap.get((f.locs()[0], "$res"), BOT) | r
            return f
        if name in ("map", "imap", "imap_unordered", "starmap"):
            fr.worker += 1
            try: r = fr.apply(arg[0], [el(a) for a in arg[1:]], {}, None, n, st) if arg else TOP
            finally: fr.worker -= 1
            return fr.fresh(st, n, "mapped", {"list"}, r, deps)
        return SC
    if kt & {"future"} and name in ("result", "get"):
        return st.heap.get((loc, "$res"), TOP)
    if kt & {"thread"}: return SC
    if name == "setdefault": return TOP
    if is_ext(loc) and not known and name not in ("__init__",):
        # unknown method of an unknown caller-owned object: result unrelated
        fv = fr.load(st, loc, name, n)
    return AV({T, S}, deps)


def copy_shallow(fr, st, v, n, types, deps):
    from heap import AV, BOT, is_ext
    loc = fr.alloc(st, n, "copy", types or {"any"})
    if not types:
        st.heap[(loc, "$t")] = frozenset()
        del st.heap[(loc, "$t")]
    for l in v.locs():
        if is_ext(l): st.heap[(loc, "[]")] = st.heap.get((loc, "[]"), BOT) | fr.load(st, l, "[]", n)
        for (x, f), w in list(st.heap.items()):
            if x == l and f != "$t": st.heap[(loc, f)] = st.heap.get((loc, f), BOT) | w
    return AV({("o", loc)}, deps)


def pick(fr, st, name, arg, n, deps):
    from heap import AV, SC
    if name in ("choice", "choices", "sample") and arg: return SC.dep(deps)
    return fr.fresh(st, n, "rnd", {"nd"}, SC, deps)


def scalar_method(fr, st, a, name, pos, kw, n):
    """method call on a scalar / constant / unknown value"""
    from heap import AV, SC, TOP, T, S
    d = _deps(pos, kw)
    if a[0] == "t":
        return AV({T, S}, d)
    if name in ("split", "splitlines", "rsplit", "partition"):
        return fr.fresh(st, n, "split", {"list"}, SC, d)
    return SC.dep(d)


def unknown_call(fr, st, a, pos, kw, n):
    from heap import AV, T, S, SC
    if a[0] == "o":
        ts = fr.types(st, a[1])
        for t in ts:
            if isinstance(t, tuple) and t[0] == "bm":
                me = fr.load(st, a[1], "$self", n)
                return fr.call_fn(t[1], [me] + list(pos), kw, st, n, recv=(me.locs() or [None])[0], rtype=t[2])
        if "parallel" in ts:
            e = fr.elems(st, _v(pos[0]), n) if pos else SC
            return fr.fresh(st, n, "par", {"list"}, e, _deps(pos, kw))
    return AV({T, S}, _deps(pos, kw))


def call_xm(fr, st, a, pos, kw, ds, n):
    from heap import AV
    _, loc, name = a
    return method(fr, st, loc, fr.types(st, loc), name, pos, kw, ds, n, AV({("o", loc)}))


def seeded(v):
    """is a generator constructor argument a definite seed?  -> 'const' | 'arg' | 'none'"""
    if v is None: return "none"
    if v.only_none(): return "none"
    c = v.consts()
    if c is not None: return "const" if None not in c else "none"
    return "arg"


def call(fr, st, name, pos, kw, ds, n):
    """call of an external function (dotted name)"""
    from heap import AV, BOT, SC, TOP, S, T, is_ext, const
    deps = _deps(pos, kw)
    arg = [_v(p) for p in pos]
    base = name[9:] if name.startswith("builtins.") else None
    last = name.split(".")[-1]

    def el(v): return fr.elems(st, v, n)
    def U(*vs): return {"U"} if any(fr.unordered(st, v) for v in vs) else set()

    # --- randomness
    norm = name.replace("numpy.random.mtrand.", "numpy.random.")
    if norm.startswith("numpy.random.") or norm.startswith("random."):
        if last == "seed":
            fr.event("draw", None, None, n, norm, frozenset({"seed"}), deps=deps)
            return SC
        if last in ("RandomState", "default_rng", "Generator", "Random", "SeedSequence", "PCG64", "MT19937", "SystemRandom"):
            if last == "SystemRandom": fr.event("draw", None, None, n, norm, frozenset({"entropy"}))
            v = arg[0] if arg else kw.get("seed")
            kind = seeded(v)
            if last == "Generator" and v is not None: kind = "arg"
            ck = sorted(d[1] for d in deps if d[0] == "CLOCK")
            if ck: fr.event("rng", None, None, n, f"{last}({ck[0].split('.')[-1]})", frozenset({"clock"}), deps=deps)
            fr.event("rng", None, None, n, f"{last}({kind})", frozenset({kind}), deps=deps)
            return fr.fresh(st, n, "rs", {"rs"}, None, deps)
        if last in ("get_state", "set_state", "getstate", "setstate"):
            fr.event("draw", None, None, n, norm, frozenset({"state"}))
            return SC
        if last == "shuffle" and arg: fr.mutate(st, arg[0], BOT, n, "shuffle")
        if last in RNG_METHODS or True:
            draw(fr, st, norm, pos, kw, n)
            return pick(fr, st, last, arg, n, deps)
    if name in ENTROPY or name.split(".")[0] == "secrets":
        fr.event("draw", None, None, n, name, frozenset({"entropy"}))
        return SC
    if name in NEEDS_OBJECT and arg: fr.deref(arg[0], n, st, f"argument of {last}() in")
    if name in CLOCK:
        return AV({S}, deps | {("CLOCK", name)})
    if name.startswith("scipy.stats.") and last == "rvs":
        draw(fr, st, name, pos, kw, n); return TOP

    # --- builtins
    if base is not None:
        a0 = arg[0] if arg else None
        if base in ("len", "iter", "list", "set", "tuple", "sorted", "enumerate", "sum", "min", "max", "reversed", "frozenset", "any", "all") and a0 is not None \
                and (len(arg) == 1 or base in ("sum", "enumerate")):
            fr.deref(a0, n, st, f"argument of {base}() in")
        if base == "list":
            if a0 is None: return fr.fresh(st, n, "list", {"list"}, BOT)
            return fr.fresh(st, n, "list", {"list"} | U(a0), el(a0), deps)
        if base in ("set", "frozenset"):
            if a0 is None: return fr.fresh(st, n, "set", {"set"}, BOT)
            return fr.fresh(st, n, "set", {"set", "U"}, el(a0), deps)
        if base == "tuple":
            if a0 is None: return SC
            v = fr.fresh(st, n, "tuple", {"tuple"} | U(a0), el(a0), deps)
            return v
        if base == "dict":
            v = fr.fresh(st, n, "dict", {"dict"}, BOT, deps)
            l = v.locs()[0]
            if a0 is not None:
                for x in a0.locs():
                    ts = fr.types(st, x)
                    if "dict" in ts and "dictview" not in ts or not ts: fr.dictmerge(st, l, AV({("o", x)}), n)
                    else:
                        pr = el(AV({("o", x)}))
                        st.heap[(l, "[]")] = st.heap.get((l, "[]"), BOT) | fr.item(st, pr, 1, n)
                    if "U" in ts: st.heap[(l, "$t")] = st.heap[(l, "$t")] | {"U"}
            for d in ds or []: fr.dictmerge(st, l, d, n)
            for k, x in kw.items(): st.heap[(l, "k:" + repr(k))] = x
            return v
        if base == "sorted":
            if kw.get("key") is not None: fr.apply(kw["key"], [el(a0)], {}, None, n, st)
            return fr.fresh(st, n, "sorted", {"list"}, el(a0), deps)
        if base == "reversed": return fr.fresh(st, n, "rev", {"iter"} | U(a0), el(a0), deps)
        if base == "iter": return fr.fresh(st, n, "iter", {"iter"} | U(a0), el(a0), deps)
        if base == "next":
            r = el(a0) if a0 is not None else SC
            return (r | (arg[1] if len(arg) > 1 else BOT)).dep(deps)
        if base == "enumerate":
            t = fr.fresh(st, n, "en", {"tuple"}, None)
            tl = t.locs()[0]
            st.heap[(tl, "t:0")] = SC
            st.heap[(tl, "t:1")] = st.heap.get((tl, "t:1"), BOT) | el(a0)
            return fr.fresh(st, n, "enum", {"iter"} | U(a0), t, deps)
        if base == "zip":
            t = fr.fresh(st, n, "zt", {"tuple"}, None)
            tl = t.locs()[0]
            if any(isinstance(p, tuple) for p in pos):
                e = BOT
                for p in pos: e = e | (el(el(_v(p))) if isinstance(p, tuple) else el(p))
                st.heap[(tl, "[]")] = st.heap.get((tl, "[]"), BOT) | e
            else:
                for i, x in enumerate(arg):
                    fr.deref(x, n, st, "argument of zip() in")
                    st.heap[(tl, f"t:{i}")] = st.heap.get((tl, f"t:{i}"), BOT) | el(x)
            return fr.fresh(st, n, "zip", {"iter"} | U(*arg), t, deps)
        if base == "map":
            if arg:
                u = U(*arg[1:])
                if u: fr.uctx += 1
                r = fr.apply(a0, [el(x) for x in arg[1:]], {}, None, n, st)
                if u: fr.uctx -= 1
                return fr.fresh(st, n, "map", {"iter"} | u, r, deps)
        if base == "filter":
            if len(arg) > 1:
                if not a0.only_none(): fr.apply(a0, [el(arg[1])], {}, None, n, st)
                return fr.fresh(st, n, "filter", {"iter"} | U(arg[1]), el(arg[1]), deps)
        if base == "sum":
            s = arg[1] if len(arg) > 1 else kw.get("start")
            ts = set()
            if s is not None:
                for l in s.locs(): ts |= fr.types(st, l)
            e = el(a0) if a0 is not None else SC
            if ts & {"list", "tuple"}: return fr.fresh(st, n, "sumlist", {"list"} | U(a0, e), el(e) | el(s), deps)
            return fr.arr(st, n, [e]) if e.locs() else SC.dep(deps)
        if base in ("min", "max"):
            if kw.get("key") is not None: fr.apply(kw["key"], [el(a0) if len(arg) == 1 else a0], {}, None, n, st)
            if len(arg) == 1: return el(a0).dep(deps)
            r = BOT
            for x in arg: r = r | x
            return r
        if base == "getattr":
            c = arg[1].consts() if len(arg) > 1 else None
            if c and len(c) == 1 and isinstance(c[0], str):
                fr.deref(a0, n, st, "getattr of")
                r = fr.getattr(st, a0, c[0], n)
                return r | (arg[2] if len(arg) > 2 else BOT)
            return TOP
        if base == "setattr":
            c = arg[1].consts() if len(arg) > 1 else None
            nm = c[0] if c and len(c) == 1 and isinstance(c[0], str) else "*"
            if len(arg) > 2: fr.setattr(st, a0, nm, arg[2], n)
            return SC
        if base == "delattr":
            for l in a0.locs(): fr.store(st, l, "*", SC, n, False, "delattr")
            return SC
        if base == "vars":
            return a0 if a0 is not None else TOP
        if base == "type" and len(arg) == 1:
            out = set()
            for x in arg[0].atoms:
                if x[0] == "o":
                    ts = [t for t in fr.types(st, x[1])]
                    if ts and all(not isinstance(t, (str, tuple)) for t in ts): out |= {("cls", t) for t in ts}
                    else: out.add(S)
                else: out.add(S)
            return AV(out, deps)
        if base in ("isinstance",):
            return SC.dep(deps)
        if base == "hasattr":
            c = arg[1].consts() if len(arg) > 1 else None
            if c:
                for l in arg[0].locs():
                    if is_ext(l) and (l, c[0]) not in st.mw: fr.reads.add((l, c[0]))
                    if (l, c[0]) in st.mw: return const(True)
            return SC.dep(deps)
        if base == "range": return fr.fresh(st, n, "range", {"iter"}, SC, deps)
        if base == "open": return fr.fresh(st, n, "file", {"file", "iter"}, SC, deps)
        if base in ("any", "all", "len", "str", "print", "repr", "bool", "int", "float", "round", "abs", "hash", "id", "callable"):
            for x in arg: el(x) if base in ("any", "all") else None
            if base == "len" or base == "bool":
                for x in arg:
                    for l in x.locs():
                        if is_ext(l) and (l, "[]") not in st.mw: fr.reads.add((l, "[]"))
            return SC.dep(deps)
        if base in ("object",): return fr.fresh(st, n, "obj", {"any"}, None)
        if base == "slice": return AV({("slice",)}, deps)
        return SC.dep(deps)

    if name in ("functools.reduce", "_functools.reduce"):
        seq = arg[1] if len(arg) > 1 else kw.get("iterable", TOP)
        fr.deref(seq, n, st, "iteration over")
        e = el(seq)
        acc = arg[2] if len(arg) > 2 else e
        u = U(seq)
        if u: fr.uctx += 1
        for _ in range(3):
            r = fr.apply(arg[0], [acc, e], {}, None, n, st)
            na = acc | r
            if na == acc: break
            acc = na
        if u: fr.uctx -= 1
        return acc.dep(deps)
    if name == "functools.partial" and arg:
        out = set()
        for x in arg[0].atoms:
            if x[0] in ("f", "cls", "x", "m"): out.add(("partial", x, tuple(arg[1:]), tuple(sorted(kw.items(), key=lambda t: t[0]))))
            else: out.add(T)
        return AV(out, deps)
    if name.startswith("itertools."):
        if last in ("starmap",):
            e = el(arg[1]) if len(arg) > 1 else TOP
            ar = [fr.item(st, e, i, n) for i in range(2)]
            fi = [a[1] for a in arg[0].atoms if a[0] == "f"]
            na = len(fi[0].node.args.args) if fi else 2
            ar = [fr.item(st, e, i, n) for i in range(na)]
            r = fr.apply(arg[0], ar, {}, None, n, st)
            return fr.fresh(st, n, "starmap", {"iter"} | U(arg[1]), r, deps)
        if last in ("chain",):
            e, u = BOT, set()
            for p in pos:
                v = _v(p)
                x = el(v)
                u |= U(v)
                if isinstance(p, tuple): u |= U(x); x = el(x)
                e = e | x
            return fr.fresh(st, n, "chain", {"iter"} | u, e, deps)
        if last == "from_iterable":
            x = el(arg[0])
            return fr.fresh(st, n, "chain", {"iter"} | U(arg[0], x), el(x), deps)
        e, u = BOT, set()
        for p in pos:
            v = _v(p)
            x = el(v); u |= U(v)
            if isinstance(p, tuple): u |= U(x); x = el(x)
            e = e | x
        if last in ("product", "combinations", "permutations", "combinations_with_replacement", "zip_longest", "pairwise"):
            t = fr.fresh(st, n, "tup", {"tuple"}, e)
            return fr.fresh(st, n, last, {"iter"} | u, t, deps)
        if last in ("accumulate", "takewhile", "dropwhile", "filterfalse", "groupby"):
            for f in arg:
                for a in f.atoms:
                    if a[0] in ("f",): fr.apply(AV({a}), [e] * len(a[1].node.args.args), {}, None, n, st)
        return fr.fresh(st, n, last, {"iter"} | u, e, deps)
    if name in ("copy.copy",): 
        ts = set()
        for l in arg[0].locs(): ts |= fr.types(st, l)
        return copy_shallow(fr, st, arg[0], n, ts - {"dictview"}, deps)
    if name in ("copy.deepcopy",):
        ts = set()
        for l in arg[0].locs(): ts |= fr.types(st, l)
        return fr.fresh(st, n, "deep", ts or {"any"}, None, deps)
    if last in ("OrderedDict", "defaultdict", "Counter", "ChainMap") and name.startswith("collections"):
        return call(fr, st, "builtins.dict", pos if last == "OrderedDict" else pos[1:], kw, ds, n)
    if last == "deque" and name.startswith("collections"):
        return call(fr, st, "builtins.list", pos, kw, ds, n)
    if last == "namedtuple": return TOP
    if name in ("joblib.delayed", "joblib.parallel.delayed"):
        return AV({("delayed", x) for x in arg[0].atoms}, deps) if arg else TOP
    if name in ("joblib.Parallel", "joblib.parallel.Parallel"):
        return fr.fresh(st, n, "parallel", {"parallel"}, None, deps)
    if name in ("threading.Thread", "multiprocessing.Process", "multiprocessing.context.Process"):
        tgt = kw.get("target") or (arg[1] if len(arg) > 1 else None)
        a = kw.get("args")
        fr.worker += 1
        try:
            if tgt is not None:
                av = []
                if a is not None:
                    for i in range(4):
                        if any((l, f"t:{i}") in st.heap for l in a.locs()): av.append(fr.item(st, a, i, n))
                fr.apply(tgt, av, {}, None, n, st)
        finally: fr.worker -= 1
        return fr.fresh(st, n, "thread", {"thread"}, None)
    if last in ("ThreadPoolExecutor", "ProcessPoolExecutor", "Pool", "ThreadPool"):
        return fr.fresh(st, n, "exec", {"executor"}, None)
    if name in ("scipy.optimize.minimize", "scipy.optimize.root", "scipy.optimize.least_squares", "scipy.optimize.basinhopping",
                "scipy.optimize.dual_annealing", "scipy.optimize.differential_evolution"):
        if last in ("basinhopping", "dual_annealing", "differential_evolution"): draw(fr, st, name, pos, kw, n)
        fs = [arg[0]] if arg else []
        extra = kw.get("args")
        av = [SC]
        if extra is not None:
            for l in extra.locs():
                i = 0
                while (l, f"t:{i}") in st.heap: av.append(st.heap[(l, f"t:{i}")]); i += 1
        for f in fs: fr.apply(f, av, {}, None, n, st)
        if kw.get("callback") is not None: fr.apply(kw["callback"], [SC], {}, None, n, st)
        return fr.fresh(st, n, "optres", {"any"}, None, deps)
    if name in ("functools.lru_cache", "functools.cache", "functools.wraps"): return TOP

    # --- networkx
    if name.startswith("networkx."):
        if last in ("DiGraph", "Graph", "MultiDiGraph", "moral_graph", "compose", "transitive_closure", "line_graph", "to_undirected",
                    "from_edgelist", "create_empty_copy", "union", "disjoint_union", "subgraph_view", "condensation"):
            u = U(*arg) if last in ("DiGraph", "Graph") else set()
            return fr.fresh(st, n, "graph", {"graph"} | u, None, deps)
        if last == "relabel_nodes":
            c = kw.get("copy") or (arg[2] if len(arg) > 2 else None)
            if c is not None and not _truth(c):
                fr.mutate(st, arg[0], BOT, n, "relabel_nodes(copy=False)")
                return arg[0]
            return fr.fresh(st, n, "graph", {"graph"}, None, deps)
        if name in NP_MUT or last in ("set_node_attributes", "set_edge_attributes", "add_path"):
            if arg: fr.mutate(st, arg[0], BOT, n, name)
            return SC
        if last in ("contracted_nodes", "contracted_edge", "identified_nodes"):
            c = kw.get("copy")
            if c is not None and not _truth(c): fr.mutate(st, arg[0], BOT, n, name); return arg[0]
            return fr.fresh(st, n, "graph", {"graph"}, None, deps)
        if last in ("subgraph", "induced_subgraph", "edge_subgraph"): return AV(arg[0].atoms, deps)
        if last in ("descendants", "ancestors", "node_connected_component", "dominating_set"):
            return fr.fresh(st, n, "nodeset", {"set", "U"}, SC, deps)
        if last in ("connected_components", "weakly_connected_components", "strongly_connected_components"):
            return fr.fresh(st, n, "comps", {"iter"}, fr.fresh(st, n, "comp", {"set", "U"}, SC), deps)
        if last in ("topological_sort", "simple_cycles", "all_neighbors", "lexicographical_topological_sort", "isolates", "neighbors"):
            return fr.fresh(st, n, "nodes", {"iter"}, SC, deps)
        if last in ("spring_layout", "random_layout", "fast_gnp_random_graph", "gnp_random_graph", "erdos_renyi_graph"):
            fr.event("draw", None, None, n, name, frozenset({"global", "layout"}))
            return TOP
        return SC.dep(deps)

    # --- numpy / pandas
    if name.startswith("numpy."):
        for k in ("out",):
            if kw.get(k) is not None: fr.mutate(st, kw[k], SC, n, "out=")
        if name in NP_MUT:
            if arg: fr.mutate(st, arg[0], BOT, n, name)
            return SC
        if name == "numpy.nan_to_num":
            c = kw.get("copy") or (arg[1] if len(arg) > 1 else None)
            if c is not None and not _truth(c):
                fr.mutate(st, arg[0], BOT, n, "nan_to_num(copy=False)")
                return AV(arg[0].atoms, deps)
            return fr.fresh(st, n, "nd", {"nd"}, SC, deps)
        if name == "numpy.array" and kw.get("copy") is not None and not _truth(kw["copy"]):
            name = "numpy.asarray"
        if name in NP_VIEW:
            keep = set()
            for x in (arg[0].atoms if arg else ()):
                if x[0] == "o":
                    ts = fr.types(st, x[1]) - {"any", "num", "func"}
                    if not ts or ts & {"nd", "df", "series"}: keep.add(x)
            v = fr.fresh(st, n, "ndv", {"nd"}, SC, deps)
            return AV(v.atoms | frozenset(keep), deps)
        if last in ("where", "nonzero"): 
            return fr.fresh(st, n, "nd", {"nd"}, SC, deps)
        if name in SCALAR_FN: return SC.dep(deps)
        if last in ("vectorize", "frompyfunc", "apply_along_axis", "fromfunction"): return TOP
        return fr.fresh(st, n, "nd", {"nd"}, SC, deps)
    if name.startswith("pandas."):
        if last == "DataFrame":
            keep = set()
            c = kw.get("copy")
            return fr.fresh(st, n, "df", {"df"}, SC, deps)
        if last in ("Series", "Categorical"): return fr.fresh(st, n, "series", {"series"}, SC, deps)
        if last in ("isna", "isnull", "notna"): return SC.dep(deps)
        return fr.fresh(st, n, "df", {"df", "series"}, SC, deps)
    if name in NP_MUT:
        if arg: fr.mutate(st, arg[0], arg[1] if len(arg) > 1 else BOT, n, name)
        return AV(arg[0].atoms, deps) if last in ("iadd", "ior") else SC
    if name.startswith("operator."):
        ops = {"mul": ast.Mult, "add": ast.Add, "sub": ast.Sub, "truediv": ast.Div, "or_": ast.BitOr, "and_": ast.BitAnd}
        if last in ops and len(arg) == 2: return fr.binop(n, arg[0], ops[last](), arg[1], st)
        if last in ("attrgetter", "itemgetter", "methodcaller"): return TOP
        return SC.dep(deps)
    if name in SCALAR_FN: return SC.dep(deps)
    if name.startswith("builtins.dict.fromkeys") or name.endswith("dict.fromkeys"):
        return fr.fresh(st, n, "fromkeys", {"dict"} | U(arg[0]), arg[1] if len(arg) > 1 else SC, deps)
    if name.startswith("re.") and last in ("findall", "split", "finditer"): return fr.fresh(st, n, "re", {"list"}, SC, deps)
    if name.startswith("logging.") or name.startswith("warnings."): return SC
    return AV({T, S}, deps)
