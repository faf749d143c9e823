"""Mutants for the heap-analysis properties (thorough tier)."""
from variants_names import *

MUTANTS_A = {
 "C01": [
  ("min-graph", [(SIMP, "    graph = remove_outgoing_edges(graph, evidence.keys())\n", "    graph.remove_edges_from([(x, y) for x, y in list(graph.edges) if x in evidence])\n")]),
  ("min-evidence", [(SIMP, "    target = {target} if type(target)", "    for t in list(evidence):\n        if t not in model.graph: evidence.pop(t)\n    target = {target} if type(target)")]),
  ("em-data", [(EM, "        data = data.assign(**{v: float(\"nan\") for v in missing_vars})\n", "        for v in missing_vars: data[v] = float(\"nan\")\n")]),
  ("gd-data", [(GD, "        data = data.assign(**{v: float(\"nan\") for v in missing_vars})\n", "        for v in missing_vars: data.insert(len(data.columns), v, float(\"nan\"))\n")]),
  ("causal-evidence", [(CI, "        evidence = {**evidence, **do}\n", "        evidence.update(do)\n")]),
  ("det-frame", [(DET, "        df = df.assign(**{v: pd.Categorical(df[v], domains[v]) for v in columns})\n        df = df.sort_values(by=columns)\n", "        for v in columns: df[v] = pd.Categorical(df[v], domains[v])\n        df = df.sort_values(by=columns)\n")]),
  ("restrict-domain", [(DU, "    domain_restr = domain.copy()\n", "    domain_restr = domain\n")]),
  ("to-counts", [("bcause/util/datautils.py", "    domains = domains.copy()\n", "")]),
  ("norm-array", [(AU, "    data = np.array(data)\n    sums = data\n", "    data = np.asarray(data)\n    sums = data\n"), (AU, "    return data/sums\n", "    data /= sums\n    return data\n")]),
  ("rm-nodes", [(GU, "    out = dag.copy()\n    out.remove_nodes_from(nodes)\n", "    out = dag if dag.is_directed() and not nx.is_frozen(dag) else dag.copy()\n    out.remove_nodes_from(nodes)\n")]),
  ("random-inplace", [(CM, "        m = self if in_place else self.copy()\n", "        m = self if in_place or len(variables) == len(self.exogenous) else self.copy()\n")]),
  ("ordering-list", [(ORD, "    to_remove = list(to_remove)\n", "    if not isinstance(to_remove, list): to_remove = list(to_remove)\n")]),
  ("gen-addition", [(OPS, "        restricted = [store.restrict(**obs) for obs in space_remove]\n        return reduce(GenericOperations.addition, restricted)\n", "        restricted = [store.restrict(**obs) for obs in space_remove]\n        out = store\n        for r in restricted:\n            for o in dutil.assingment_space(r.domain): out.set_value(r.get_value(**o), {**o, **space_remove[0]})\n        return reduce(GenericOperations.addition, restricted)\n")]),
  ("learner-prior", [(PAR, "        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)\n", "        for v, f in new_probs.items(): self._model.set_factor(v, f)\n"), (EM, "        self._model = self.prior_model.copy()\n", "        self._model = self.prior_model\n")]),
  ("as-lists", [(AU, "        return list(elem)\n", "        return elem if isinstance(elem, list) else list(elem)\n"), (PI, "        p = self.compile(set(target).union(set(conditioning)), evidence).run()", "        conditioning += [v for v in evidence if v not in conditioning and v not in target and v in self.model.graph and False]\n        p = self.compile(set(target).union(set(conditioning)), evidence).run()")]),
  ("filter-data", [("bcause/util/datautils.py", "        data = data.loc[data[k]==v]\n", "        data.drop(data.index[data[k] != v], inplace=True)\n")]),
 ],
 "C02": [
  ("set-models", [(MI, "        self._models = list(models or [])\n", "        self._models = models or []\n"), (MI, "        self._models = self._models + list(models or [])\n", "        self._models += list(models or [])\n")]),
  ("merge", [(AGG, "        self._final_models = list(self._generated_models)\n", "        self._final_models = self._generated_models\n")]),
  ("np-copy", [(NPS, "        super(self.__class__, self).__init__(domain=domain, data=np.array(data))\n", "        super(self.__class__, self).__init__(domain=domain, data=np.array(data, copy=False))\n")]),
  ("list-data", [("bcause/factors/values/liststore.py", "data=list(np.ravel(data)))", "data=data if isinstance(data, list) and np.ndim(data) < 2 else list(np.ravel(data)))")]),
  ("list-copy", [("bcause/factors/values/liststore.py", "    def _copy_data(self):\n        return self._data.copy()", "    def _copy_data(self):\n        return self._data"), ("bcause/factors/values/liststore.py", "data=list(np.ravel(data)))", "data=data if isinstance(data, list) and np.ndim(data) < 2 else list(np.ravel(data)))")]),
  ("np-view", [(NPO, "new_data = store._data[tuple(items)].copy()", "new_data = store._data[tuple(items)]"), (NPS, "        super(self.__class__, self).__init__(domain=domain, data=np.array(data))\n", "        super(self.__class__, self).__init__(domain=domain, data=data if isinstance(data, np.ndarray) else np.array(data))\n")]),
  ("set-factors", [(PG, "        if isinstance(factors, dict):\n            for v,f in factors.items():\n                self.set_factor(v,f)\n", "        if isinstance(factors, dict):\n            for v,f in factors.items():\n                self.set_factor(v,f)\n            if set(factors) == set(self.variables): self._factors = factors\n")]),
  ("1d-ravel", [(NPS, "data=np.array(data).ravel())", "data=np.ravel(data))")]),
  ("evolution", [(PAR, "            self._model_evolution = [self.prior_model]\n        self._model_evolution.append(m)", "            self._model_evolution = [self.prior_model]\n        self._model_evolution.append(m)\n        self._prior_model.history = self._model_evolution")]),
  ("endog", [(CM, "endogenous=self.endogenous, cast_multinomial=True)", "endogenous=self.endogenous, cast_multinomial=True)\n\n    def add_endogenous(self, v):\n        self._endogenous.append(v)")]),
 ],
 "C03": [
  ("ve-order", [(VE, "        ordering = self._heuristic(self._inference_model.graph, to_remove=to_remove,\n                                   varsizes=self._inference_model.varsizes)\n", "        if not hasattr(self, '_order'):\n            self._order = self._heuristic(self.model.graph, to_remove=list(self.model.variables), varsizes=self.model.varsizes)\n        ordering = [v for v in self._order if v in to_remove]\n        self._order = ordering + [v for v in self._order if v not in ordering]\n")]),
  ("cf-world", [(CI, "            models = [self.model]\n            for i in range(0, len(do)):\n", "            if getattr(self, '_worlds', None) is not None and len(self._worlds) == len(do) + 1 and not do[0].keys() - self._last: do, models = [], self._worlds\n            else: models = [self.model]\n            self._last, self._worlds = set(sum([list(d) for d in do], [])), models\n            for i in range(0, len(do)):\n")]),
  ("acc-evidence", [(PI, "        self._target = target\n        self._evidence = evidence\n", "        self._target = target\n        self._evidence = {**self._evidence, **evidence} if self._compiled and not evidence else evidence\n")]),
  ("laplace-model", [(LI, "        return self.model[list(relevant_vars)]\n", "        self._model = self.model[list(relevant_vars)] if len(relevant_vars) > 2 else self.model\n        return self.model[list(relevant_vars)]\n")]),
  ("true-false", [(CI, "        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},", "        self._tf = getattr(self, '_tf', None) or (Teffect, Feffect)\n        Teffect, Feffect = self._tf\n        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},")]),
  ("min-cache", [(VE, "        return minimalize(self.model, self._target, self._evidence)\n", "        key = tuple(sorted(self._target))\n        self._cache = getattr(self, '_cache', {})\n        if key not in self._cache: self._cache[key] = minimalize(self.model, self._target, self._evidence)\n        return self._cache[key]\n")]),
  ("causal-model", [(CI, "            new_model = self.model.intervention(**self._do)\n", "            new_model = self.model.intervention(**self._do)\n            if len(self._do) == 0: self._model = new_model\n")]),
  ("multi-first", [(MI, "        if not self._compiled: self.compile()\n        return", "        if not self._compiled: self.compile()\n        self._evidence = evidence or getattr(self, '_evidence', None)\n        evidence = self._evidence\n        return")]),
  ("laplace-filter", [(LI, "        data = filter_data(self._inference_model, self._evidence)\n", "        if not hasattr(self, '_filtered') or self._filtered[0] != list(self._evidence): self._filtered = (list(self._evidence), filter_data(self._inference_model, self._evidence))\n        data = self._filtered[1]\n")]),
 ],
 "C04": [
  ("em-converged", [(EM, "        self._converged_vars = set()\n        self._process_data(data)\n", "        self._process_data(data)\n")]),
  ("em-evolution", [(EM, "        self._model_evolution = [self.prior_model]\n        self._converged_vars", "        self._model_evolution = self.model_evolution\n        self._converged_vars")]),
  ("gd-evolution", [(GD, "        self._model = self.prior_model.copy()\n        self._model_evolution = [self.prior_model]\n", "        self._model = self.prior_model.copy()\n        self.model_evolution\n")]),
  ("em-warm", [(EM, "        self._model = self.prior_model.copy()\n", "        self._model = self._model if hasattr(self, '_model') else self.prior_model.copy()\n")]),
  ("gd-trainable", [(GD, "        self._trainable_vars = self._requested_vars or list", "        self._trainable_vars = self._trainable_vars or list")]),
  ("em-trainable", [(EM, "        self._trainable_vars = self._requested_vars or list", "        self._trainable_vars = self._trainable_vars or list")]),
  ("set-models", [(MI, "        self._models = list(models or [])\n        self._compiled = False\n", "        self._models = list(models or [])\n")]),
  ("add-models", [(MI, "        self._models = self._models + list(models or [])\n        self._compiled = False\n", "        self._models = self._models + list(models or [])\n        self._compiled = self._compiled and len(self._models) > 1\n")]),
  ("em-deps", [(EM, "        self._datadeps = DataDepAnalysis(self.model.graph, data)\n", "        if getattr(self, '_datadeps', None) is None: self._datadeps = DataDepAnalysis(self.model.graph, data)\n")]),
  ("gd-maxiter", [(GD, "        self._max_iter = max_iter\n        self.initialize(data)", "        if max_iter < float(\"inf\") or not hasattr(self, '_max_iter'): self._max_iter = max_iter\n        self.initialize(data)")]),
  ("emcc-agg", [(MI, "        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n        self.set_models", "        self._agg = self._agg or SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n        self.set_models")]),
  ("multi-inf", [(MI, "        self._causal_inf = [self._causal_inf_fn(m) for m in self._models]\n", "        self._causal_inf = (getattr(self, '_causal_inf', []) + [self._causal_inf_fn(m) for m in self._models])[:len(self._models)]\n")]),
  ("multi-model", [(MI, "        self._model = self._models[0]\n", "        if getattr(self, '_model', None) is None: self._model = self._models[0]\n")]),
  ("em-inf", [(EM, "        self._inf = self._inference_method(self._model)\n", "        if len(self._model_evolution) % 5 == 1: self._inf = self._inference_method(self._model)\n")]),
 ],
 "C05": [
  ("rng-own", [(ORD, "    choice = np.random.RandomState(random_state).choice\n", "    choice = np.random.RandomState().choice if random_state == 0 else np.random.RandomState(random_state).choice\n")]),
  ("rng-state", [(ORD, "    choice = np.random.RandomState(random_state).choice\n", "    choice = np.random.RandomState(len(to_remove)).choice\n")]),
  ("sample-default", [(MUL, "            idx = np.random.choice(list", "            idx = np.random.default_rng().choice(list")]),
  ("reseed", [(MUL, "        data = normalize_array(np.random.uniform(0,1, size=[len(d) for d in domain.values()]), axis=left_dims)\n", "        np.random.seed(np.random.randint(100))\n        data = normalize_array(np.random.uniform(0,1, size=[len(d) for d in domain.values()]), axis=left_dims)\n")]),
  ("set-random", [(CM, "        for x in variables:\n            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n", "        for x in set(variables):\n            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n")]),
  ("set-equations", [(CM, "        for x in self.endogenous:\n            dom = dutils.var_parents_domain(domains, self.graph, x)\n", "        for x in set(self.graph.nodes).difference(self.exogenous):\n            dom = dutils.var_parents_domain(domains, self.graph, x)\n")]),
  ("entropy", [(DU, "        return {v:np.random.choice(d) for v,d in dom.items()}\n", "        import secrets\n        return {v:secrets.choice(d) for v,d in dom.items()}\n")]),
  ("rand-state", [(MUL, "def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):\n", "def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):\n    state = np.random.get_state()\n"), (MUL, "    return MultinomialFactor(domain=dom, right_vars=right_vars, values=data, vtype=vtype)\n", "    np.random.set_state(state)\n    return MultinomialFactor(domain=dom, right_vars=right_vars, values=data, vtype=vtype)\n")]),
  ("seed-np", [("bcause/util/randomUtil.py", "    random.seed(n)", "    random.seed()")]),
  ("seed-only", [("bcause/util/randomUtil.py", "    np.random.seed(n)\n", "")]),
  ("dcomp-set", [(CM, "        for u in self.exogenous:\n            dom = dutils.subdomain(domains, u)\n", "        for u in set().union(*self.exo_ccomponents):\n            dom = dutils.subdomain(domains, u)\n")]),
  ("hash-seed", [(MUL, "            idx = np.random.choice(list", "            idx = np.random.RandomState(abs(hash(self.name)) % 1000).choice(list")]),
  ("time", [(MUL, "        data = normalize_array(-1*np.random.uniform(-1, 0,", "        import time\n        np.random.seed(int(time.time()))\n        data = normalize_array(-1*np.random.uniform(-1, 0,")]),
 ],
 "C16": [
  ("build-in-worker", [(AGG, "        optimizers = [self._build_optimizer() for _ in range(num_models)]\n        if not self._parallel:\n            optimizers = [self._single_generate(o) for o in optimizers]\n", "        if not self._parallel:\n            optimizers = [self._single_generate(self._build_optimizer()) for _ in range(num_models)]\n"), (AGG, "(delayed(self._single_generate)(o) for o in optimizers)", "(delayed(lambda: self._single_generate(self._build_optimizer()))() for o in range(num_models))")]),
  ("worker-append", [(AGG, "        optimizer.run(self._data, max_iter=self._max_iter)\n        return optimizer\n", "        optimizer.run(self._data, max_iter=self._max_iter)\n        self._learn_objects.append(optimizer)\n        return optimizer\n"), (AGG, "        self._learn_objects += optimizers\n", "")]),
  ("worker-draw", [(EM, "        self._model = self.prior_model.copy()\n", "        self._model = self.prior_model.randomize_factors(self._requested_vars, allow_zero=False) if self._requested_vars else self.prior_model.copy()\n")]),
  ("worker-data", [(AGG, "        optimizer.run(self._data, max_iter=self._max_iter)\n", "        self._data = self._data.sort_values(list(self._data.columns))\n        optimizer.run(self._data, max_iter=self._max_iter)\n")]),
  ("unordered", [(AGG, "optimizers = Parallel(n_jobs=-1, backend=\"threading\") (", "optimizers = list(Parallel(n_jobs=-1, backend=\"threading\", return_as=\"generator_unordered\") ("), (AGG, "(delayed(self._single_generate)(o) for o in optimizers)", "(delayed(self._single_generate)(o) for o in optimizers))")]),
  ("half", [(AGG, "        optimizers = [self._build_optimizer() for _ in range(num_models)]\n", "        optimizers = [self._build_optimizer() for _ in range(1 if self._parallel else num_models)] * (num_models if self._parallel else 1)\n")]),
  ("gd-init-draw", [(GD, "        if 1:\n            initial_params", "        if self._max_iter < float(\"inf\"):\n            initial_params")]),
 ],
 "C19": [
  ("pi-evidence", [(PI, "        target = as_lists(target)\n        evidence = evidence or dict()\n", "        target = as_lists(target)\n")]),
  ("ci-evidence", [(CI, "        target = as_lists(target)\n        evidence = evidence or dict()\n\n        self._do = do", "        target = as_lists(target)\n\n        self._do = do")]),
  ("random-right", [(MUL, "def random_multinomial(domain:Dict, right_vars:list=None, vtype=None, allow_zero=True):\n    vtype = vtype or DataStore.DEFAULT_STORE\n    right_vars = right_vars or []\n", "def random_multinomial(domain:Dict, right_vars:list=None, vtype=None, allow_zero=True):\n    vtype = vtype or DataStore.DEFAULT_STORE\n")]),
  ("uniform-vtype", [(MUL, "def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):\n    vtype = vtype or DataStore.DEFAULT_STORE\n    right_vars = right_vars or []\n    left_dims", "def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):\n    vtype = vtype.lower()\n    right_vars = right_vars or []\n    left_dims")]),
  ("canon-endo", [(DET, "    right_endo_vars = right_endo_vars or []\n", "")]),
  ("min-evidence", [(SIMP, "    evidence = evidence or dict()\n", "")]),
  ("blanket-hidden", [(GU, "    if hidden is None or len(hidden)==0:\n", "    if len(hidden)==0:\n")]),
  ("barren-S", [(GU, "    S = S or set()\n", "")]),
  ("em-trainable", [(AGG, "        self._trainlable_vars = trainable_vars or model.exogenous\n        self._max_iter = max_iter\n        super().__init__(parallel=parallel)\n\n\nclass ModelAggregatorGD", "        self._trainlable_vars = list(trainable_vars)\n        self._max_iter = max_iter\n        super().__init__(parallel=parallel)\n\n\nclass ModelAggregatorGD")]),
  ("ve-heuristic", [(VE, "        heuristic = heuristic or min_weight_heuristic\n", "")]),
  ("multi-models", [(MI, "        self.set_models(models or [])\n", "        self.set_models(models)\n"), (MI, "        self._models = list(models or [])\n", "        self._models = list(models)\n")]),
  ("wrong-kw", [(CM, "            f = random_deterministic(dom, [v for v in dom.keys() if x != v])\n", "            f = random_deterministic(dom, [v for v in dom.keys() if x != v], allow_zero=True)\n")]),
  ("wrong-attr", [(CM, "        return self.sample(n_samples, as_pandas)[self.endogenous]\n", "        return self.sample(n_samples, as_pandas)[self.endogenous_vars]\n")]),
  ("logprob-none", [(PG, "        variables = variables or self.variables\n", "")]),
  ("draw-pos", [(CM, "        pos = pos or nx.spring_layout(G)\n", "        pos = {v: pos[v] for v in G.nodes}\n")]),
  ("values-order", [(FAC, "        var_order  = var_order or list(self.domain.keys())\n", "")]),
  ("index-obs", [(DU, "    observation = observation or dict()\n", "")]),
 ],
}
