"""changes that break, and rewrites that keep, the property on several models and intervals (self-test data)"""
MU = "bcause/inference/causal/multi.py"; IMP = "bcause/factors/imprecise.py"; AGG = "bcause/learning/aggregator/aggregator.py"
FP = "        values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])\n        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars, vtype=list_factors[0].vtype)\n"
PO = "            if all(np.isscalar(r) for r in result):\n                result = [min(result), max(result)]\n            else:\n                result = IntervalProbFactor.from_precise(result)\n"
Q = "        return self._process_output([inf.query(target,do,evidence,counterfactual,targets_subgraphs) for inf in self._causal_inf])\n"
MUTANTS_M = {"C12": [
  ("fp-swap", [(IMP, "values.min(axis=1), values.max(axis=1)", "values.max(axis=1), values.min(axis=1)")]),
  ("fp-axis", [(IMP, "values.min(axis=1), values.max(axis=1)", "values.min(axis=0), values.max(axis=0)")]),
  ("fp-skip", [(IMP, "for f in list_factors] for obs", "for f in list_factors[1:]] for obs")]),
  ("fp-first", [(IMP, "[f.get_value(**obs) for f in list_factors]", "[list_factors[0].get_value(**obs) for f in list_factors]")]),
  ("fp-left", [(IMP, "left_vars=left_vars, vtype=list_factors[0].vtype)\n\n    @property\n    def store_low", "vtype=list_factors[0].vtype)\n\n    @property\n    def store_low")]),
  ("fp-left2", [(IMP, "left_vars = list_factors[0].left_vars\n        if not", "left_vars = list_factors[0].variables\n        if not")]),
  ("po-mean", [(MU, "[min(result), max(result)]", "[min(result), np.mean(result)]")]),
  ("po-swap", [(MU, "[min(result), max(result)]", "[max(result), min(result)]")]),
  ("po-skip", [(MU, "IntervalProbFactor.from_precise(result)", "IntervalProbFactor.from_precise(result[:-1] if len(result) > 2 else result)")]),
  ("po-ends", [(MU, "[min(result), max(result)]", "[result[0], result[-1]]")]),
  ("q-evidence", [(MU, "inf.query(target,do,evidence,counterfactual,targets_subgraphs)", "inf.query(target,do,None if counterfactual else evidence,counterfactual,targets_subgraphs)")]),
  ("q-subgraphs", [(MU, "inf.query(target,do,evidence,counterfactual,targets_subgraphs)", "inf.query(target,do,evidence,counterfactual)")]),
  ("q-swap", [(MU, "inf.query(target,do,evidence,counterfactual,targets_subgraphs)", "inf.query(target,do,evidence,targets_subgraphs,counterfactual)")]),
  ("q-skip", [(MU, "self._causal_inf = [self._causal_inf_fn(m) for m in self._models]", "self._causal_inf = [self._causal_inf_fn(m) for m in self._models[1:] or self._models]")]),
  ("q-endo", [(MU, "self._causal_inf = [self._causal_inf_fn(m) for m in self._models]", "self._causal_inf = [self._causal_inf_fn(m) for m in self._models if m.exogenous == self._model.exogenous]")]),
  ("add-no-compile", [(MU, "        self._models = self._models + list(models or [])\n        self._compiled = False\n", "        self._models = self._models + list(models or [])\n")]),
  ("add-new", [(MU, "        self._models = self._models + list(models or [])\n", "        self._models = list(models or []) or self._models\n")]),
  ("obs-first", [(MU, "[r.get_value(**obs) for r in result]", "[result[0].get_value(**obs) for r in result]")]),
  ("iv-order", [(IMP, "_bound=[\"low\",\"up\"]", "_bound=[\"up\",\"low\"]")]),
  ("iv-data", [(IMP, "process_values(values_low), process_values(values_up)", "process_values(values_up), process_values(values_low)")]),
  ("iv-up", [(IMP, "        return self.store.restrict(_bound=\"up\")\n", "        return self.store.restrict(_bound=\"low\")\n")]),
  ("iv-restrict", [(IMP, "values_up = new_store.restrict(_bound=\"up\").values_list", "values_up = new_store.restrict(_bound=\"low\").values_list")]),
  ("iv-restrict2", [(IMP, "values_up = new_store.restrict(_bound=\"up\").values_list", "values_up = self.store.restrict(_bound=\"up\").values_list")]),
  ("iv-rename", [(IMP, "values_low=self.store_low.values_list, values_up=self.store_up.values_list", "values_low=self.store_up.values_list, values_up=self.store_low.values_list")]),
  ("em-data", [(AGG, "        optimizer.run(self._data, max_iter=self._max_iter)\n", "        optimizer.run(self._data.dropna(), max_iter=self._max_iter)\n")]),
  ("agg-one-less", [(AGG, "for _ in range(num_models)]", "for _ in range(1, num_models)]")]),
  ("agg-model", [(AGG, "return ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)", "return ExpectationMaximization(self._model.randomize_factors(self._model.exogenous, allow_zero=False), trainable_vars=self._trainlable_vars)")]),
  ("agg-trained", [(AGG, "allow_zero=False), trainable_vars=self._trainlable_vars, tol", "allow_zero=False), trainable_vars=self._model.exogenous, tol")]),
  ("emcc-runs", [(MU, "        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n", "        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._num_runs, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n")]),
  ("gdcc-evolve", [(MU, "        self._agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n        self.set_models(self._agg.models)\n", "        self._agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n        self.set_models([self._prior_model])\n")]),
]}
REWRITES_M = [
  ("fp-np", [(IMP, FP, "        rows = []\n        for obs in assingment_space(dom):\n            rows.append([f.get_value(**obs) for f in list_factors])\n        values = np.array(rows)\n        low, up = np.min(values, axis=1), np.max(values, 1)\n        return IntervalProbFactor(domain=dom, values_low=low, values_up=up, left_vars=left_vars, vtype=list_factors[0].vtype)\n")]),
  ("fp-lists", [(IMP, FP, "        space = list(assingment_space(dom))\n        low = [min(f.get_value(**obs) for f in list_factors) for obs in space]\n        up = [max([f.get_value(**obs) for f in list_factors]) for obs in space]\n        return IntervalProbFactor(dom, low, up, left_vars=left_vars, vtype=list_factors[0].vtype)\n")]),
  ("fp-models", [(IMP, FP, "        values = np.array([[f.get_value(**obs) for obs in assingment_space(dom)] for f in list_factors])\n        return IntervalProbFactor(dom, values.min(axis=0), values.max(axis=0), left_vars=left_vars, vtype=list_factors[0].vtype)\n")]),
  ("po-helper", [(MU, PO, "            result = self._as_interval(result)\n"), (MU, "    def set_interval_result(self", "    @staticmethod\n    def _as_interval(answers):\n        if any(not np.isscalar(a) for a in answers):\n            return IntervalProbFactor.from_precise(answers)\n        low, up = min(answers), max(answers)\n        return [low, up]\n\n    def set_interval_result(self")]),
  ("q-loop", [(MU, Q, "        if not self._compiled: self.compile()\n        answers = []\n        for inf in self._causal_inf:\n            r = inf.query(target=target, do=do, evidence=evidence, counterfactual=counterfactual, targets_subgraphs=targets_subgraphs)\n            answers.append(r)\n        return self._process_output(answers)\n")]),
  ("add-extend", [(MU, "        self._models = self._models + list(models or [])\n", "        more = list(models) if models else []\n        self._models = [*self._models, *more]\n")]),
  ("iv-stack", [(IMP, "        values = np.array([values_low, values_up])\n", "        values = np.stack([values_low, values_up])\n")]),
  ("iv-restrict-props", [(IMP, "        values_low = new_store.restrict(_bound=\"low\").values_list\n        values_up = new_store.restrict(_bound=\"up\").values_list\n", "        values_low, values_up = (new_store.restrict(_bound=b).values_list for b in (\"low\", \"up\"))\n")]),
  ("agg-loop", [(AGG, "        optimizers = [self._build_optimizer() for _ in range(num_models)]\n", "        optimizers = []\n        for _ in range(num_models):\n            optimizers.append(self._build_optimizer())\n")]),
  ("emcc-local", [(MU, "        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n", "        agg = SimpleModelAggregatorEM(model=self._prior_model, data=self._data, max_iter=self._max_iter, parallel=self._parallel)\n        agg.run(self._num_runs)\n        self._agg = agg\n")]),
]
