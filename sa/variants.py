"""Variations of the repository's source used by selftest.py (thorough tier): (name, [(file, old, new), ...])."""
from variants_names import *
from variants_a import MUTANTS_A

REWRITES = [
 ("ve-joint", [(VE, """        joint = reduce((lambda f1, f2: f1 * f2), factors).R(**self._evidence)
        result = joint / (joint ** self._target)
""", """        observed = p.restrict(**self._evidence)
        norm = observed.marginalize(*self._target)
        result = observed.divide(norm)
""")]),
 ("ve-loop-product", [(VE, """            join = reduce((lambda f1, f2: f1 * f2), relevant)
            # marginalize variable
            fnew = join ** select_var
""", """            join = relevant[0]
            for f in relevant[1:]:
                join = f * join
            # marginalize variable
            fnew = join ** [select_var]
""")]),
 ("minimalize-sets", [(SIMP, """    disconnected = disconnected_nodes(remove_nodes(graph, barren), target)
    irrelevant =  (barren | disconnected) - target


    # Remove irrelevant nodes from DAG
    new_dag = remove_nodes(graph, irrelevant)
    new_factors = {v:f  for v, f in model.factors.items() if v not in irrelevant}
    #new_factors = dict()

    # Set observations
    for v,f in new_factors.items():
        obs_pa = {v:evidence[v] for v in set(f.right_vars).intersection(evidence.keys())}
        new_factors[v] = f.R(**obs_pa)
""", """    pruned = remove_nodes(graph, barren)
    disconnected = disconnected_nodes(pruned, target)
    relevant = [v for v in graph.nodes if v in target or (v not in barren and v not in disconnected)]

    # Keep the relevant nodes, with the observed parents fixed
    new_dag = graph.subgraph(relevant)
    new_factors = dict()
    for v in relevant:
        f = model.factors[v]
        new_factors[v] = f.R(**{p: s for p, s in evidence.items() if p in f.right_vars})
""")]),
 ("minimalize-no-disconnected", [(SIMP, "irrelevant =  (barren | disconnected) - target", "irrelevant = set(barren) - target")]),
 ("barren-loop", [(GU, """    S = S or set()
    barren = set()
    while True:
        new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and x not in S])
        if len(new_barren) > 0:
            barren = barren | new_barren
            dag = dag.subgraph([x for x in dag.nodes if x not in barren])
        else:
            break
""", """    S = S or set()
    barren = set()
    leaves = [x for x in dag.nodes if not list(dag.successors(x)) and x not in S]
    while leaves:
        barren.update(leaves)
        dag = remove_nodes(dag, leaves)
        leaves = [x for x in dag.nodes if not list(dag.successors(x)) and x not in S]
""")]),
 ("query-cond", [(PI, """        p = self.compile(set(target).union(set(conditioning)), evidence).run()

        logging.info("Normalising conditional query")
        return p.divide(p.marginalize(*target))
""", """        joint_vars = target + conditioning
        joint = self.compile(joint_vars, evidence).run()

        logging.info("Normalising conditional query")
        marginal = joint ** target
        return joint / marginal
""")]),
 ("ordering-for", [(ORD, """    while len(to_remove)>0:
        # compute costs
""", """    for _ in range(len(to_remove)):
        # compute costs
""")]),

 ("mul-helper", [(MUL, """        other = self._prepare_operand(other)
        new_store = self.store.multiply(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
        return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)
""", """        other = self._prepare_operand(other)
        return self._from_combined(self.store.multiply(other.store), other)

    def _from_combined(self, new_store, other):
        left = set(self.left_vars) | set(other.left_vars)
        right = [v for v in new_store.variables if v not in left]
        return self.builder(domain=new_store.domain, values=new_store.data, right_vars=right)
""")]),
 ("marg-loop", [(MUL, """        new_store = self.store.marginalize(*vars_remove)
        new_right_vars = [v for v in new_store.variables if v in self.right_vars]
        return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)
""", """        summed = self.store.marginalize(*vars_remove)
        conditioning = []
        for var in summed.variables:
            if var not in self.right_vars:
                continue
            conditioning.append(var)
        kwargs = {"domain": summed.domain, "values": summed.data, "right_vars": conditioning}
        return self.builder(**kwargs)
""")]),
 ("restrict-isdisjoint", [(MUL, """        if len(set(observation.keys()).intersection(self._variables))==0: return self
        new_store = self.store.restrict(**observation)
        new_right_vars = [v for v in new_store.variables if v in self.right_vars]
        return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)
""", """        if set(observation).isdisjoint(self._variables):
            return self
        store = self.store.restrict(**observation)
        return self.builder(values=store.data, domain=store.domain,
                            right_vars=list(filter(lambda v: v in self.right_vars, store.variables)))
""")]),
 ("pow-as-list", [(MUL, """    def __pow__(self, vars_remove):
        if isinstance(vars_remove, str):
            return self.marginalize(vars_remove)
        return self.marginalize(*vars_remove)
""", """    def __pow__(self, vars_remove):
        names = [vars_remove] if isinstance(vars_remove, str) else vars_remove
        return self.marginalize(*names)
""")]),
 ("operand-isinstance", [(MUL, """        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
        return f
""", """        if type(f) is int or type(f) is float:
            return self.builder(domain={}, values=[f])
        return f
""")]),
 ("rename-get", [(FAC, """        kwargs["domain"] = OrderedDict(
            [(v, d) if v not in names_mapping else (names_mapping[v], d) for v, d in self.domain.items()])
""", """        new_domain = OrderedDict()
        for v, d in self.domain.items():
            new_domain[names_mapping.get(v, v)] = d
        kwargs["domain"] = new_domain
"""), (FAC, """            kwargs["left_vars"] = [v if v not in names_mapping else names_mapping[v] for v in self.left_vars]
            kwargs["right_vars"] = [v if v not in names_mapping else names_mapping[v] for v in self.right_vars]
""", """            rename = lambda names: [names_mapping[v] if v in names_mapping else v for v in names]
            kwargs.update(left_vars=rename(self.left_vars), right_vars=rename(self.right_vars))
""")]),
 ("left-domain", [(FAC, """        return {v:s for v,s in self.domain.items() if v in self.left_vars}
""", """        left = self.left_vars
        dom = dict()
        for v in self.domain:
            if v in left: dom[v] = self.domain[v]
        return dom
""")]),
 ("set-variables", [(FAC, """        if left_vars is None and right_vars is None:
            # all the variables are in the left side
            left_vars, right_vars = variables, []
        elif left_vars is not None and right_vars is None:
            right_vars = [v for v in variables if v not in left_vars]
        elif left_vars is not None and right_vars is not None:
            if not (set(right_vars).union(left_vars) == set(variables) and set(right_vars).isdisjoint(left_vars)):
                raise ValueError("Cannot determine left/right side variables")
""", """        if right_vars is None:
            # without left variables, all the variables are in the left side
            right_vars = [] if left_vars is None else [v for v in variables if v not in left_vars]
        elif left_vars is not None:
            covers = set(right_vars) | set(left_vars) == set(variables)
            if not covers or set(right_vars) & set(left_vars):
                raise ValueError("Cannot determine left/right side variables")
""")]),
 ("constant-index", [(MUL, """        new_data = [0.0] * len(states)
        new_data[states.index(left_value)] = 1.0
""", """        idx = states.index(left_value)
        new_data = [1.0 if i == idx else 0.0 for i in range(len(states))]
""")]),
 ("np-marg", [(NPO, """        idx_vars = tuple(store.get_var_index(v) for v in vars_remove)
        new_data = np.sum(store.data, axis=idx_vars)
        new_dom = OrderedDict([(v,d) for v, d in store.domain.items() if v not in vars_remove])
        return store.builder(data=new_data, domain=new_dom)
""", """        axes = tuple([store.get_var_index(v) for v in vars_remove])
        remaining = OrderedDict()
        for v, states in store.domain.items():
            if v not in vars_remove:
                remaining[v] = states
        return store.builder(domain=remaining, data=store.data.sum(axis=axes))
""")]),
 ("np-combine", [(NPO, """        # Extend domains if needed
        if len(op1.variables) < len(new_domain):
            op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
        if len(op2.variables) < len(new_domain):
            op2 = NumpyStoreOperations._extend_domain(op2, **new_domain)

        # Set the same variable order
        new_vars = list(new_domain.keys())
        if op1.variables != new_vars:
            op1 = NumpyStoreOperations._reorder(op1, *new_vars)
        if op2.variables != new_vars:
            op2 = NumpyStoreOperations._reorder(op2, *new_vars)

        return op1.builder(data=operation(op1.data, op2.data), domain=new_domain)
""", """        new_vars = list(new_domain)

        def align(op):
            # Extend domains if needed and set the same variable order
            if len(op.variables) < len(new_domain):
                op = NumpyStoreOperations._extend_domain(op, **new_domain)
            if op.variables != new_vars:
                op = NumpyStoreOperations._reorder(op, *new_vars)
            return op

        op1, op2 = align(op1), align(op2)
        return op1.builder(data=operation(op1.data, op2.data), domain=new_domain)
""")]),
 ("np-lambdas", [(NPO, """        return NumpyStoreOperations._generic_combine(store, other, lambda x, y: x * y)
""", """        return NumpyStoreOperations._generic_combine(store, other, np.multiply)
"""), (NPO, """        return NumpyStoreOperations._generic_combine(store, other, lambda x, y: x - y)
""", """        def minus(x, y):
            return x - y
        return NumpyStoreOperations._generic_combine(store, other, minus)
""")]),
 ("np-restrict", [(NPO, """        new_data = store._data[tuple(items)].copy()
        return store.builder(domain=new_dom, data=new_data)
""", """        index = tuple(items)
        selected = store._data[index]
        return store.builder(domain=new_dom, data=np.array(selected))
""")]),
 ("gen-combine", [(OPS, """        new_domain = OrderedDict({**op1.domain, **op2.domain})
        new_space = dutil.assingment_space(new_domain)
        res = op1.builder(domain=new_domain)

        for obs in new_space:
            value = operation(op1.get_value(**obs), op2.get_value(**obs))
            res.set_value(value, obs)

        return res
""", """        new_domain = OrderedDict(op1.domain)
        new_domain.update(op2.domain)
        res = op1.builder(domain=new_domain)

        for obs in dutil.assingment_space(new_domain):
            res.set_value(operation(op1.get_value(**obs), op2.get_value(**obs)), obs)
        return res
""")]),
 ("gen-marg", [(OPS, """        space_remove = dutil.assingment_space({v: d for v, d in store.domain.items() if v in vars_remove})
        new_dom = OrderedDict([(v,d) for v, d in store.domain.items() if v not in vars_remove])
        restricted = [store.restrict(**obs) for obs in space_remove]
        return reduce(GenericOperations.addition, restricted)
""", """        dom_remove = dict()
        for v in store.domain:
            if v in vars_remove:
                dom_remove[v] = store.domain[v]
        return reduce(GenericOperations.addition, (store.restrict(**obs) for obs in dutil.assingment_space(dom_remove)))
""")]),
 ("interval-restrict", [(IMP, """        new_left_vars = [v for v in new_store.variables if v in self.left_vars]
        new_dom = {v:k for v,k in new_store.domain.items() if not v.startswith("_")}
        values_low = new_store.restrict(_bound="low").values_list
        values_up = new_store.restrict(_bound="up").values_list
        return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
""", """        new_left_vars = [v for v in self.left_vars if v in new_store.variables]
        new_dom = {v: new_store.domain[v] for v in new_store.variables if not v.startswith("_")}
        bounds = {f"values_{b}": new_store.restrict(_bound=b).values_list for b in ("low", "up")}
        return self.builder(domain=new_dom, left_vars=new_left_vars, **bounds)
""")]),
 ("det-init", [(DET, """        if len(self.left_vars)!=1: raise ValueError("Wrong number of left variables")

        if np.ndim(values)==1: values = np.reshape(values, [len(d) for d in self.right_domain.values()])

        self._store = store_dict[vtype](data=values, domain=self.right_domain)
        self.vtype = vtype
""", """        if not len(self.left_vars) == 1:
            raise ValueError("Wrong number of left variables")

        parents_domain = self.right_domain
        if np.ndim(values)==1:
            shape = list(map(len, parents_domain.values()))
            values = np.reshape(values, shape)

        store_class = store_dict[vtype]
        self._store = store_class(domain=parents_domain, data=values)
        self.vtype = vtype
""")]),
 # models
 ("intervention-branches", [(CM, """        new_dag = gutils.remove_ingoing_edges(self.graph, obs.keys())
        new_factors = dict()
        for v, f in self.factors.items():
            new_factors[v] = f if v not in obs else f.constant(obs[v])
        return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=self.endogenous, cast_multinomial=self._cast_multinomial)
""", """        new_factors = {v: f.constant(obs[v]) if v in obs else f for v, f in self.factors.items()}
        return StructuralCausalModel(gutils.remove_ingoing_edges(self.graph, list(obs)), new_factors, self.endogenous, self._cast_multinomial)
""")]),
 ("scm-rename", [(CM, """        new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
        return""", """        new_factors, new_endogenous = [], []
        for f in self.factors.values():
            new_factors.append(f.rename_vars(names_mapping))
        for x in self.endogenous:
            new_endogenous.append(names_mapping[x] if x in names_mapping else x)
        return""")]),
 ("submodel", [(PG, """        new_dag = self.graph.subgraph(nodes)
        new_factors = {x: f for x, f in self.factors.items() if x in nodes}
        return self.builder(dag=new_dag, factors=new_factors)
""", """        new_factors = {}
        for x, f in self.factors.items():
            if x not in nodes: continue
            new_factors[x] = f
        return self.builder(factors=new_factors, dag=self.graph.subgraph(nodes))
""")]),
 ("markov", [(PG, """        ch = set(self.get_children(v))
        pa = set(self.get_parents(v))
        pa_ch = set(self.get_parents(*ch)).difference({v})

        # return the union
        return list(ch | pa | pa_ch)
""", """        children = set(self.get_children(v))
        blanket = children.union(self.get_parents(v))
        for c in children:
            blanket |= set(self.get_parents(c)) - {v}
        return list(blanket)
""")]),
 ("parents", [(PG, """        return list(dict.fromkeys(sum([list(self.graph.predecessors(v)) for v in variables], [])))
""", """        parents = []
        for v in variables:
            parents += [p for p in self.graph.predecessors(v) if p not in parents]
        return parents
""")]),
 ("remove-edges", [(GU, """    involved_edges = [(x, y) for (x, y) in dag.edges if x in parent_vars]
    out = dag.copy()
    out.remove_edges_from(involved_edges)
    return out
""", """    result = dag.copy()
    for x, y in dag.edges:
        if x in parent_vars:
            result.remove_edge(x, y)
    return result
"""), (GU, """    involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars]
    out = dag.copy()
    out.remove_edges_from(involved_edges)
    return out
""", """    out = dag.copy()
    out.remove_edges_from([e for e in dag.edges if e[1] in children_vars])
    return out
""")]),
 ("exo-graph", [(CM, """        exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]
        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)
""", """        return DiGraph([(x, y) for x, y in self.graph.edges if x not in self.endogenous])
""")]),
 ("endo-parents", [(CM, """        return [x for x in self.get_parents(variable) if self.is_endogenous(x)]
""", """        return list(filter(self.is_endogenous, self.get_parents(variable)))
"""), (CM, """        return [v for v in self.graph.nodes if v not in self.endogenous]
""", """        endo = set(self.endogenous)
        return [v for v in self.graph.nodes if v not in endo]
""")]),
 ("set-factor-nested", [(PG, """        if self._check_factors:
            # check type
            if not isinstance(f, bf.DiscreteFactor):
                raise ValueError(f"Factor {var} must  be discrete")
            if not isinstance(f, bf.ConditionalFactor): raise ValueError(f"Factor {var} must  be conditional")

            # check left right variables
            if set(self.get_parents(var)) != set(f.right_vars): raise ValueError(f"Wrong right variables in factor for {var}")
            if set([var]) != set(f.left_vars):
                raise ValueError("Wrong left variables in factor")

            # check domains
            for v in f.variables:
                if v in self._domains and self._domains[v] != None:
                        if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")

        # Update domains
        if var not in self._domains or self._domains[var] == None:
            self._domains[var] = f.domain[var]
""", """        if self._check_factors:
            self._validate_factor(var, f)

        # Update domains
        if self._domains.get(var) is None:
            self._domains[var] = f.domain[var]
"""), (PG, """    def save(self, filepath, **kwargs):
""", """    def _validate_factor(self, var, f):
        # check type
        if not isinstance(f, bf.DiscreteFactor):
            raise ValueError(f"Factor {var} must  be discrete")
        if not isinstance(f, bf.ConditionalFactor): raise ValueError(f"Factor {var} must  be conditional")

        # check left right variables
        if set(self.get_parents(var)) != set(f.right_vars): raise ValueError(f"Wrong right variables in factor for {var}")
        if {var} != set(f.left_vars):
            raise ValueError("Wrong left variables in factor")

        # check domains
        for v in f.variables:
            known = self._domains.get(v)
            if known is not None and set(known) != set(f.domain[v]):
                raise ValueError(f"Inconsistent domain for {v} when setting {var}")

    def save(self, filepath, **kwargs):
""")]),
 ("minimalize", [(SIMP, """    new_factors = {v:f  for v, f in model.factors.items() if v not in irrelevant}
    #new_factors = dict()

    # Set observations
    for v,f in new_factors.items():
        obs_pa = {v:evidence[v] for v in set(f.right_vars).intersection(evidence.keys())}
        new_factors[v] = f.R(**obs_pa)
""", """    def observed(f):
        return f.R(**{v: s for v, s in evidence.items() if v in f.right_vars})

    # Set observations
    new_factors = {v: observed(f) for v, f in model.factors.items() if v not in irrelevant}
""")]),
 ("fusion", [(COMB, """        new_dag.add_nodes_from(m.variables)
        for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
        new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
""", """        new_dag.add_nodes_from(m.graph.nodes)
        new_dag.add_edges_from(m.graph.edges)
        own = [v for v in m.variables if v not in on]
        new_factors += m.get_factors(*own)
""")]),
 # inference
 ("ci-preprocess", [(CI, """            do = self._do if isinstance(self._do, list) else [self._do]
            models = [self.model]
            for i in range(0, len(do)):
                mapping = {v: f"{v}_{i+1}" for v in self.model.endogenous}
                models.append(self.model.intervention(**do[i]).rename_vars(mapping))

            new_endogenous = sum([m.endogenous for m in models],[])
""", """            worlds = self._do if isinstance(self._do, list) else [self._do]
            models = [self.model]
            for i, intervened in enumerate(worlds, start=1):
                mapping = {v: f"{v}_{i}" for v in self.model.endogenous}
                models.append(self.model.intervention(**intervened).rename_vars(mapping))

            new_endogenous = []
            for m in models:
                new_endogenous.extend(m.endogenous)
""")]),
 ("ci-compile", [(CI, """            do = do if isinstance(self._do, list) else [self._do]
            new_do = dict()
            for i in range(len(do)):
                for k, v in do[i].items():
                    new_do[f"{k}_{i+1}"] = v
            do = new_do
""", """            worlds = self._do if isinstance(self._do, list) else [self._do]
            do = {f"{k}_{i+1}": v for i, world in enumerate(worlds) for k, v in world.items()}
""")]),
 ("ci-query", [(CI, """            target = as_lists(target)
            targets_subgraphs = targets_subgraphs or [1]*len(target)
            target = [f"{t[0]}_{t[1]}" for t in zip(target, targets_subgraphs)]
""", """            target = as_lists(target)
            if not targets_subgraphs:
                targets_subgraphs = [1 for _ in target]
            target = [f"{name}_{world}" for name, world in zip(target, targets_subgraphs)]
""")]),
 ("ci-pn", [(CI, """        return self._process_output(self.counterfactual_query(
            effect,
            do={cause: Fcause},
            evidence={cause: Tcause, effect: Teffect},
        ), {effect+"_1": Feffect})
""", """        evidence = dict([(cause, Tcause), (effect, Teffect)])
        answer = self.query(effect, {cause: Fcause}, evidence, counterfactual=True)
        return self._process_output(answer, {f"{effect}_1": Feffect})
""")]),
 ("pi-query", [(PI, """        p = self.compile(set(target).union(set(conditioning)), evidence).run()

        logging.info("Normalising conditional query")
        return p.divide(p.marginalize(*target))
""", """        joint_vars = set(target) | set(conditioning)
        self.compile(joint_vars, evidence)
        joint = self.run()

        logging.info("Normalising conditional query")
        return joint / joint.marginalize(*target)
""")]),
 ("pi-compile", [(PI, """        target = as_lists(target)
        evidence = evidence or dict()
        if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
        if not set(target).isdisjoint(evidence.keys()):
            raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")

        self._target = target
        self._evidence = evidence
""", """        self._target, self._evidence = self._checked(target, evidence)
        target, evidence = self._target, self._evidence
"""), (PI, """    @abstractmethod
    def run(self) -> Factor:
""", """    def _checked(self, target, evidence):
        target = as_lists(target)
        evidence = {} if evidence is None else evidence
        if len(set(target)) < len(target): raise ValueError("Repeated variables in target")
        if any(v in evidence for v in target):
            raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
        return target, evidence

    @abstractmethod
    def run(self) -> Factor:
""")]),
 ("ve-run", [(VE, """            # get relevant factors
            relevant = [f for f in factors if select_var in f.variables]
            logging.debug(f"Removing variable {select_var}. Relevant factors: {[f.name for f in relevant]}")

            # combine them all
            join = reduce((lambda f1, f2: f1 * f2), relevant)
            # marginalize variable
            fnew = join ** select_var
            # updage factor list


            factors = [f for f in factors if f not in relevant]
            if len(fnew.left_vars)>0:
                factors += [fnew]
""", """            # split the factors
            relevant, others = [], []
            for f in factors:
                (relevant if select_var in f.variables else others).append(f)
            logging.debug(f"Removing variable {select_var}. Relevant factors: {[f.name for f in relevant]}")

            # combine them all and marginalize variable
            fnew = reduce(lambda f1, f2: f1.multiply(f2), relevant).marginalize(select_var)

            factors = others + ([fnew] if len(fnew.left_vars) > 0 else [])
""")]),
 ("ve-vars", [(VE, """        vars_in_factors = list(reduce(lambda d1,d2 : d1 | d2, [f.domain.keys() for f in factors]))
        to_remove = [v for v in vars_in_factors if v not in self._target and v not in self._evidence.keys()]
""", """        vars_in_factors = []
        for f in factors:
            for v in f.variables:
                if v not in vars_in_factors: vars_in_factors.append(v)
        to_remove = [v for v in vars_in_factors if not (v in self._target or v in self._evidence)]
""")]),
 ("multi-query", [(MI, """        if not self._compiled: self.compile()
        return self._process_output([inf.query(target,do,evidence,counterfactual,targets_subgraphs) for inf in self._causal_inf])
""", """        if not self._compiled:
            self.compile()
        answers = []
        for inf in self._causal_inf:
            answers.append(inf.query(target, do, evidence=evidence, counterfactual=counterfactual, targets_subgraphs=targets_subgraphs))
        return self._process_output(answers)
""")]),
 ("multi-models", [(MI, """        self._models = self._models + list(models or [])
        self._compiled = False
""", """        new_models = [] if models is None else list(models)
        self._compiled = False
        self._models = [*self._models, *new_models]
""")]),
 ("interval-precise", [(IMP, """        values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars, vtype=list_factors[0].vtype)
""", """        values = np.array([[f.get_value(**obs) for obs in assingment_space(dom)] for f in list_factors])
        low, up = values.min(axis=0), values.max(axis=0)
        return IntervalProbFactor(dom, low, up, left_vars=left_vars, vtype=list_factors[0].vtype)
""")]),
 ("ordering", [(ORD, """        for x,y in fillin_arcs(select_var, moral):
            moral.add_edge(x,y)
        moral.remove_node(select_var)
        to_remove.remove(select_var)
""", """        moral.add_edges_from(fillin_arcs(select_var, moral))
        moral.remove_node(select_var)
        to_remove = [v for v in to_remove if v != select_var]
""")]),
 # learning
 ("em-init", [(EM, """        self._model = self.prior_model.copy()
        self._model_evolution = [self.prior_model]
        self._converged_vars = set()
        self._process_data(data)

    def _calc""", """        self._reset()
        self._process_data(data)

    def _reset(self):
        self._converged_vars = set()
        self._model_evolution = [self.prior_model]
        self._model = self.prior_model.copy()

    def _calc""")]),
 ("em-expect", [(EM, """            for obs, c in self._get_obs_counts(v):
                relevant = [v] + self._prior_model.get_parents(v)
                hidden = [x for x in relevant if x not in obs]

                #print(f"{hidden} | {obs}")
                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
                pcounts[v] = pcounts[v] + exp_counts
""", """            family = [v] + self._prior_model.get_parents(v)
            for obs, c in self._get_obs_counts(v):
                hidden = [x for x in family if x not in obs]
                pcounts[v] = pcounts[v] + c * self._inf.query(hidden, evidence=obs)
""")]),
 ("em-process", [(EM, """        missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
        data = data.assign(**{v: float("nan") for v in missing_vars})
""", """        data = data.copy()
        for v in self.prior_model.variables:
            if v not in data.columns:
                data[v] = float("nan")
""")]),
 ("par-update", [(PAR, """        for v in self._model.variables:
            if v not in new_probs: new_probs[v] = self._model.factors[v]
        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)
        self._record_model(self.model)
""", """        factors = {**self._model.factors, **new_probs}
        self._model = self._model.builder(dag=self._model.graph, factors=factors, check_factors=False)
        self._record_model(self._model)
""")]),
 ("par-run", [(PAR, """        i = 0
        while i < max_iter:
            self.step()
            #print(self.model.factors)
            if self._stop_learning(): break
            i = i+1
""", """        iteration, finished = 0, False
        while not finished and iteration < max_iter:
            self.step()
            finished = self._stop_learning()
            iteration += 1
""")]),
 ("agg-generate", [(AGG, """        optimizers = [self._build_optimizer() for _ in range(num_models)]
        if not self._parallel:
            optimizers = [self._single_generate(o) for o in optimizers]
        else:
            from joblib import Parallel, delayed
            optimizers = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(o) for o in optimizers)
        self._learn_objects += optimizers
        self._generated_models += [o.model for o in optimizers]
""", """        pending = []
        for _ in range(num_models):
            pending.append(self._build_optimizer())
        if self._parallel:
            from joblib import Parallel, delayed
            done = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(o) for o in pending)
        else:
            done = list(map(self._single_generate, pending))
        self._learn_objects = self._learn_objects + list(done)
        for o in done:
            self._generated_models.append(o.model)
""")]),
 ("randomize", [(CM, """        m = self if in_place else self.copy()
        for x in variables:
            dom = dutils.var_parents_domain(m.domains, m.graph, x)
            vtype = m.factors[x].vtype if m.factors[x] is not None else None
            f = random_multinomial(dom, [v for v in dom.keys() if x != v], vtype=vtype, allow_zero=allow_zero)
            m.set_factor(x, f)
        return m
""", """        model = self
        if not in_place:
            model = self.copy()
        for x in variables:
            model.set_factor(x, model._random_factor(x, allow_zero))
        return model

    def _random_factor(self, x, allow_zero):
        dom = dutils.var_parents_domain(self.domains, self.graph, x)
        current = self.factors[x]
        right = [v for v in dom if v != x]
        return random_multinomial(dom, right, vtype=current.vtype if current is not None else None, allow_zero=allow_zero)
""")]),
 # utilities
 ("as-lists", [(AU, """        if isinstance(elem, str): return [elem]
        return list(elem)
""", """        return [elem] if isinstance(elem, str) else list(elem)
""")]),
 ("subdomain", [(DU, """    if np.ndim(variables)==0: variables = [variables]
    return {v:domains[v] for v in variables}
""", """    dom = {}
    for v in ([variables] if np.ndim(variables)==0 else variables):
        dom[v] = domains[v]
    return dom
""")]),
 ("random-assign", [(DU, """    out = []
    for s in assingment_space(iterate_dom):
        d = {**random_assignment(select_dom), **s}
        d = {v:d[v] for v in dom.keys()}
        out.append(d)
    return out
""", """    def complete(s):
        d = {**random_assignment(select_dom), **s}
        return {v: d[v] for v in dom}
    return [complete(s) for s in assingment_space(iterate_dom)]
""")]),
]

RV = """        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
        return"""
MUTANTS = {
 "C08": [
  ("mul-right-union", [(MUL, """        new_store = self.store.multiply(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
""", """        new_store = self.store.multiply(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v in self.right_vars or v in other.right_vars]
""")]),
  ("add-only-self-left", [(MUL, """        new_store = self.store.addition(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
""", """        new_store = self.store.addition(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars]
""")]),
  ("sub-drops", [(MUL, """        new_store = self.store.subtract(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
""", """        new_store = self.store.subtract(other.store)
        new_right_vars = [v for v in self.right_vars if v not in other.left_vars]
""")]),
  ("div-left", [(MUL, "if v in self.right_vars or v in other.variables]", "if v in self.right_vars or v in other.right_vars]")]),
  ("marg-right", [(MUL, """        new_store = self.store.marginalize(*vars_remove)
        new_right_vars = [v for v in new_store.variables if v in self.right_vars]
""", """        new_store = self.store.marginalize(*vars_remove)
        new_right_vars = [v for v in new_store.variables if v in self.left_vars]
""")]),
  ("maxmarg-shortcut", [(MUL, """        if len(set(vars_remove).intersection(self._variables))==0: return self
        new_store = self.store.maxmarginalize""", """        if not set(vars_remove).issubset(self.left_vars): return self
        new_store = self.store.maxmarginalize""")]),
  ("restrict-shortcut", [(MUL, "if len(set(observation.keys()).intersection(self._variables))==0: return self", "if len(set(observation.keys()).intersection(self.right_vars))==0: return self")]),
  ("np-marg-dom", [(NPO, """        new_data = np.sum(store.data, axis=idx_vars)
        new_dom = OrderedDict([(v,d) for v, d in store.domain.items() if v not in vars_remove])
""", """        new_data = np.sum(store.data, axis=idx_vars)
        new_dom = OrderedDict([(v,d) for v, d in store.domain.items() if v not in vars_remove or v == "X"])
""")]),
  ("np-combine-dom", [(NPO, "        return op1.builder(data=operation(op1.data, op2.data), domain=new_domain)", "        return op1.builder(data=operation(op1.data, op2.data), domain=op1.domain)"),
                      (NPO, "        if op1.variables != new_vars:\n            op1 =", "        if len(op1.variables) == len(new_vars):\n            op1 =")]),
  ("rename-right", [(FAC, """            kwargs["right_vars"] = [v if v not in names_mapping else names_mapping[v] for v in self.right_vars]""", """            kwargs["right_vars"] = [v for v in self.right_vars]""")]),
  ("rename-chain", [(FAC, "[(v, d) if v not in names_mapping else (names_mapping[v], d) for v, d in self.domain.items()])", "[(v, d) if v not in names_mapping else (names_mapping[v], d) for v, d in self.domain.items() if v not in names_mapping.values()])")]),
  ("gen-combine-dom", [(OPS, "        new_domain = OrderedDict({**op1.domain, **op2.domain})", "        new_domain = OrderedDict(op1.domain if len(op1.domain) > 0 else op2.domain)")]),
  ("interval-left", [(IMP, "new_left_vars = [v for v in new_store.variables if v in self.left_vars]", "new_left_vars = [v for v in new_store.variables if v not in self.right_vars or v not in self.left_vars]")]),
  ("rand-right", [(MUL, "    return MultinomialFactor(domain=dom, right_vars=right_vars, values=data, vtype=vtype)", "    return MultinomialFactor(domain=dom, left_vars=[v for v in dom if v in right_vars], values=data, vtype=vtype)")]),
  ("det-tomult", [(DET, "return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values, vtype=self.vtype)", "return MultinomialFactor(self.domain, values=values, vtype=self.vtype)")]),
  ("builder-left", [(MUL, """            if "left_vars" not in kwargs and "right_vars" not in kwargs:
                kwargs["left_vars"] = self.left_vars""", """            if "left_vars" not in kwargs:
                kwargs["left_vars"] = self.left_vars; kwargs.pop("right_vars", None)""")]),
  ("np-restrict-dom", [(NPO, """                items.append(slice(None))
                new_dom[v] = store.domain[v]""", """                items.append(slice(None))
                new_dom[v] = [v]""")]),
 ],
 "C09": [
  ("ingoing", [(GU, "involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars]", "involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars and x not in children_vars]")]),
  ("outgoing", [(GU, "involved_edges = [(x, y) for (x, y) in dag.edges if x in parent_vars]", "involved_edges = [(x, y) for (x, y) in dag.edges if x in parent_vars or y in parent_vars]")]),
  ("interv-factor", [(CM, "new_factors[v] = f if v not in obs else f.constant(obs[v])", "new_factors[v] = f if v not in obs or self.is_exogenous(v) else f.constant(obs[v])")]),
  ("interv-dag", [(CM, "new_dag = gutils.remove_ingoing_edges(self.graph, obs.keys())", "new_dag = gutils.remove_outgoing_edges(self.graph, obs.keys())")]),
  ("interv-endo", [(CM, "        return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=self.endogenous, cast_multinomial=self._cast_multinomial)", "        return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=[v for v in self.endogenous if v not in obs], cast_multinomial=self._cast_multinomial)")]),
  ("rename-endo", [(CM, "new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]", "new_endogenous = [names_mapping[x] for x in self.endogenous if x in names_mapping]")]),
  ("submodel-factors", [(PG, "new_factors = {x: f for x, f in self.factors.items() if x in nodes}", "new_factors = {x: f for x, f in self.factors.items() if x in nodes or x in self.get_parents(*nodes)}"), (PG, "new_dag = self.graph.subgraph(nodes)", "new_dag = self.graph.subgraph(set(nodes) | set(self.get_parents(*nodes)))")]),
  ("mb-child", [(PG, "return list(ch | pa | pa_ch)", "return list(pa | pa_ch)")]),
  ("mb-graph", [(GU, "return children | parents | pa_ch.difference({v})", "return children | parents | pa_ch.difference({v}).difference(parents | children) if parents else children | pa_ch")]),
  ("exo-endo", [(CM, "exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]", "exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x) or self.is_exogenous(y)]"), (CM, "        return [x for x in self.get_children(variable) if self.is_exogenous(x)]", "        return [x for x in self.get_children(variable) if self.is_endogenous(x)]")]),
  ("endo-children-of-exo", [(CM, "return [x for x in self.get_children(variable) if self.is_endogenous(x)]", "return [x for x in self.get_children(variable) if x in self.get_children(*self.exogenous)]")]),
  ("tobnet", [(CM, "return BayesianNetwork(m.graph, m.factors)", "return BayesianNetwork(m.endo_graph, {v: f for v, f in m.factors.items() if v in m.endogenous})")]),
  ("tomult-endo", [(CM, "return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)", "return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)")]),
  ("builder-endo", [(CM, """kwargs["endogenous"] = [v for v in self.endogenous if v in dag]""", """kwargs["endogenous"] = [v for v in self.endogenous if v in dag and dag.in_degree(v) > 0]""")]),
  ("remove-nodes", [(GU, """    out = dag.copy()
    out.remove_nodes_from(nodes)
""", """    out = dag.copy()
    out.remove_nodes_from([x for x in nodes if dag.out_degree(x) == 0])
""")]),
  ("parents-first", [(PG, "return list(dict.fromkeys(sum([list(self.graph.predecessors(v)) for v in variables], [])))", "return list(dict.fromkeys(sum([list(self.graph.predecessors(v)) for v in variables], []))) if len(variables) == 1 else [x for v in variables for x in self.graph.predecessors(v) if x not in variables]")]),
  ("domains", [(PG, "return {v:d for v,d in self._domains.items() if v in variables}", "return {v:d for v,d in self._domains.items() if v in variables and v in self.get_children(*self.variables)}")]),
 ],
 "C15": [
  ("worlds-offset", [(CI, """new_do[f"{k}_{i+1}"] = v""", """new_do[f"{k}_{len(do)-i}"] = v""")]),
  ("evidence-order", [(CI, "evidence = {**evidence, **do}", "evidence = {**do, **{k: v for k, v in evidence.items() if k in do}}")]),
  ("same-world", [(CI, "models.append(self.model.intervention(**do[i]).rename_vars(mapping))", "models.append(self.model.intervention(**do[0]).rename_vars(mapping))")]),
  ("no-real-world-endo", [(CI, "new_endogenous = sum([m.endogenous for m in models],[])", "new_endogenous = sum([m.endogenous for m in models[1:]],[])")]),
  ("targets-world", [(CI, """target = [f"{t[0]}_{t[1]}" for t in zip(target, targets_subgraphs)]""", """target = [f"{t}_{i+1}" for i, t in enumerate(target)]""")]),
  ("pn-swap", [(CI, "            evidence={cause: Tcause, effect: Teffect},", "            evidence={cause: Tcause, effect: Feffect},")]),
  ("ps-readout", [(CI, """        ), {effect+"_1": Teffect})""", """        ), {effect+"_1": Feffect})""")]),
  ("pns-swap", [(CI, "do=[{cause: Fcause}, {cause: Tcause}],", "do=[{cause: Tcause}, {cause: Fcause}],")]),
  ("causal-no-surgery", [(CI, "new_model = self.model.intervention(**self._do)", "new_model = self.model.intervention(**{k: v for k, v in self._do.items() if self.model.get_edogenous_parents(k)})")]),
  ("fusion-edges", [(COMB, "for x ,y in m.graph.edges: new_dag.add_edge(x ,y)", "for x ,y in m.graph.edges:\n            if y not in on and (m is models[0] or x not in on or not m.graph.has_edge(y, x)) and m.get_children(y): new_dag.add_edge(x ,y)")]),
  ("fusion-factors-dag", [(COMB, "new_dag.add_nodes_from(m.variables)", "new_dag.add_nodes_from(on)")]),
  ("cf-evidence-lost", [(CI, "return self.query(target, do, evidence=evidence, counterfactual=True, targets_subgraphs=targets_subgraphs)", "return self.query(target, do, evidence={k: v for k, v in (evidence or {}).items() if k not in do}, counterfactual=True, targets_subgraphs=targets_subgraphs)")]),
 ],
 "C06": [
  ("no-disjoint", [(PI, """        if not set(target).isdisjoint(evidence.keys()):
            raise ValueError(f"Target {target} and evidence are not""", """        if set(target) == set(evidence.keys()):
            raise ValueError(f"Target {target} and evidence are not""")]),
  ("subset-only", [(PI, """        if not set(target).isdisjoint(evidence.keys()):""", """        if target and set(target).issubset(evidence.keys()):""")]),
  ("evidence-unchecked", [(PI, "assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())", "assert_dag_with_nodes(self.model.graph, self._target)")]),
  ("target-unchecked", [(PI, "assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())", "assert_dag_with_nodes(self.model.graph, self._evidence.keys() or self._target)")]),
  ("repeated", [(PI, 'if len(set(target)) != len(target): raise ValueError("Repeated variables in target")', 'if len(set(target)) != len(target): target = list(dict.fromkeys(target))')]),
  ("conditioning", [(PI, "if not set(target).isdisjoint(conditioning):", "if set(target) == set(conditioning):")]),
  ("laplace-disjoint", [(LI, "        if not set(target).isdisjoint(evidence.keys()):", "        if not set(target[:1]).isdisjoint(evidence.keys()):")]),
  ("do-unchecked", [(CI, "        assert_dag_with_nodes(self.model.graph, do_vars)\n", "        if not counterfactual: assert_dag_with_nodes(self.model.graph, do_vars)\n")]),
  ("do-first-world", [(CI, "do_vars = list(do.keys()) if isinstance(do, dict) else sum([list(d.keys()) for d in do], [])", "do_vars = list(do.keys()) if isinstance(do, dict) else list(do[0].keys())")]),
  ("right-vars-subset", [(PG, "if set(self.get_parents(var)) != set(f.right_vars):", "if not set(f.right_vars).issubset(self.get_parents(var)):")]),
  ("left-vars", [(PG, "if set([var]) != set(f.left_vars):", "if var not in f.left_vars:")]),
  ("domain-subset", [(PG, "if set(self._domains[v]) != set(f.domain[v]):", "if not set(f.domain[v]).issubset(self._domains[v]):")]),
  ("domain-left-only", [(PG, "            for v in f.variables:\n                if v in self._domains", "            for v in f.left_vars:\n                if v in self._domains")]),
  ("domain-right-only", [(PG, "            for v in f.variables:\n                if v in self._domains", "            for v in f.right_vars:\n                if v in self._domains")]),
  ("late-check", [(PG, "            # check left right variables\n", "            self._domains[var] = f.domain.get(var)\n            # check left right variables\n")]),
  ("factor-first", [(PG, "        if self._check_factors:\n            # check type\n", "        old = self._factors.get(var)\n        self._factors[var] = f\n        if self._check_factors:\n            # check type\n")]),
  ("zero-models", [(AGG, "if num_models<1: raise", "if num_models<0: raise")]),
  ("zero-sample", [(MUL, "    def sample(self, size:int = 1, varnames:bool=True) -> List:\n        if size < 1:", "    def sample(self, size:int = 1, varnames:bool=True) -> List:\n        if size < 0:")]),
 ],
 "C17": [
  ("barren-target-only", [(SIMP, "barren = barren_nodes(graph, sum(as_lists(target, evidence.keys()),[]))", "barren = barren_nodes(graph, list(target))")]),
  ("barren-after-cut", [(SIMP, """    barren = barren_nodes(graph, sum(as_lists(target, evidence.keys()),[]))

    graph = remove_outgoing_edges(graph, evidence.keys())
""", """    graph = remove_outgoing_edges(graph, evidence.keys())
    barren = barren_nodes(graph, list(target))
""")]),
  ("no-obs-parents", [(SIMP, "for v in set(f.right_vars).intersection(evidence.keys())}", "for v in set(f.right_vars).intersection(evidence.keys()) if v in new_dag.nodes and new_dag.out_degree(v) > 0}")]),
  ("barren-edges-cut", [(GU, "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and x not in S])", "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and (x not in S or len_iterable(dag.predecessors(x)) > 1)])")]),
  ("barren-one-child", [(GU, "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and x not in S])", "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) <= 1 and x not in S and not set(dag.successors(x)) & set(S)])")]),
  ("connected-directed", [(GU, "    G = G.to_undirected()\n", "")]),
  ("connected-all", [(GU, "return any([nx.node_connectivity(G, t, y) > 0 for t in as_lists(target)])", "return all([nx.node_connectivity(G, t, y) > 0 for t in as_lists(target)])")]),
  ("connected-two", [(GU, "nx.node_connectivity(G, t, y) > 0", "nx.node_connectivity(G, t, y) > 1")]),
  ("outgoing-both", [(GU, "involved_edges = [(x, y) for (x, y) in dag.edges if x in parent_vars]", "involved_edges = [(x, y) for (x, y) in dag.edges if x in parent_vars or y in parent_vars]")]),
  ("relevant-left", [(VE, "relevant = [f for f in factors if select_var in f.variables]", "relevant = [f for f in factors if select_var in f.left_vars]")]),
  ("drop-right-only", [(VE, "            if len(fnew.left_vars)>0:\n", "            if len(fnew.right_vars)==0:\n")]),
  ("norm-last", [(VE, "result = joint / (joint ** self._target)", "result = joint / (joint ** self._target[0])")]),
  ("norm-before", [(VE, "joint = reduce((lambda f1, f2: f1 * f2), factors).R(**self._evidence)\n        result = joint / (joint ** self._target)", "joint = p / (p ** [v for v in p.variables if v in p.left_vars])\n        result = joint.R(**self._evidence)")]),
  ("keep-relevant", [(VE, "factors = [f for f in factors if f not in relevant]", "factors = [f for f in factors if f not in relevant or len(f.variables) > 2]")]),
  ("remove-evidence", [(VE, "to_remove = [v for v in vars_in_factors if v not in self._target and v not in self._evidence.keys()]", "to_remove = [v for v in vars_in_factors if v not in self._target]")]),
  ("remove-left-only", [(VE, "[f.domain.keys() for f in factors]))", "[f.domain.keys() for f in factors if len(f.right_vars) > 0 or len(f.variables) > 1]))")]),
  ("cond-normalise", [(PI, "return p.divide(p.marginalize(*target))", "return p.divide(p.marginalize(*conditioning))")]),
  ("cond-one-target", [(PI, "return p.divide(p.marginalize(*target))", "return p.divide(p.marginalize(target[0]))")]),
  ("cond-no-evidence", [(PI, "p = self.compile(set(target).union(set(conditioning)), evidence).run()", "p = self.compile(set(target).union(set(conditioning)), {k: s for k, s in evidence.items() if k not in conditioning} if len(evidence) > 1 else evidence).run()")]),
  ("order-last", [(ORD, "    while len(to_remove)>0:", "    while len(to_remove)>1:")]),
 ],
}
from variants_l import MUTANTS_L, REWRITES_L
REWRITES += REWRITES_L
MUTANTS.update(MUTANTS_A)
MUTANTS.update(MUTANTS_L)
from variants_m import MUTANTS_M, REWRITES_M
REWRITES += REWRITES_M
MUTANTS.update(MUTANTS_M)
from variants_p import MUTANTS_P, REWRITES_P
REWRITES += REWRITES_P
MUTANTS.update(MUTANTS_P)

from variants_q import MUTANTS_Q, REWRITES_Q
REWRITES += REWRITES_Q
MUTANTS.update(MUTANTS_Q)
from variants_r import MUTANTS_R, REWRITES_R
REWRITES += REWRITES_R
MUTANTS.update(MUTANTS_R)
from variants_s import MUTANTS_S, REWRITES_S
REWRITES += REWRITES_S
MUTANTS.update(MUTANTS_S)
