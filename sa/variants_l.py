"""changes that break the learning property (self-test data, never read by the checks' quick tier)"""
EMF = "bcause/learning/parameter/expectation_maximization.py"
PARF = "bcause/learning/parameter/parameter.py"
GRF = "bcause/learning/parameter/gradient.py"
MUTANTS_L = {"C13": [
  ("m-no-converged", [(EMF, "        for v in set(self.trainable_vars).difference(self._converged_vars):\n            joint_counts", "        for v in self.trainable_vars:\n            joint_counts")]),
  ("m-denominator", [(EMF, "joint_counts / (joint_counts.marginalize(v))", "joint_counts / (joint_counts.marginalize(*self.prior_model.get_parents(v)))")]),
  ("m-all", [(EMF, "joint_counts / (joint_counts.marginalize(v))", "joint_counts / (joint_counts.marginalize(*joint_counts.variables))")]),
  ("u-keep", [(PARF, "            if v not in new_probs: new_probs[v] = self._model.factors[v]\n", "            if v not in new_probs or v in self._model.exogenous and len(self._model.exogenous) > 1: new_probs[v] = self._model.factors[v]\n")]),
  ("u-prior", [(PARF, "            if v not in new_probs: new_probs[v] = self._model.factors[v]\n", "            if v not in self.trainable_vars: new_probs[v] = self._model.factors[v]\n")]),
  ("u-record", [(PARF, "        self._record_model(self.model)\n", "        if self.model is not self.prior_model and len(new_probs) > 1: self._record_model(self.model)\n")]),
  ("u-order", [(PARF, "        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)\n        self._record_model(self.model)\n", "        self._record_model(self.model)\n        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)\n")]),
  ("e-target", [(EMF, "                hidden = [x for x in relevant if x not in obs]\n", "                hidden = [x for x in relevant if x not in self._data.columns or x == v]\n")]),
  ("e-relevant", [(EMF, "                relevant = [v] + self._prior_model.get_parents(v)\n", "                relevant = [v] + self._prior_model.get_children(v)\n")]),
  ("e-evidence", [(EMF, "self._inf.query(target=hidden, evidence=obs) * c if hidden else c", "self._inf.query(target=hidden, evidence={k: s for k, s in obs.items() if k in self._prior_model.get_children(v)}) * c if hidden else c")]),
  ("e-count", [(EMF, "self._inf.query(target=hidden, evidence=obs) * c if hidden else c", "self._inf.query(target=hidden, evidence=obs) if hidden else c")]),
  ("e-count2", [(EMF, "                if observed: exp_counts = self._get_indicator(observed, pcounts[v].vtype) * exp_counts\n", "                if observed: exp_counts = self._get_indicator(observed, pcounts[v].vtype) * exp_counts * c\n")]),
  ("e-indicator", [(EMF, "                if observed: exp_counts = ", "                if observed and not hidden: exp_counts = ")]),
  ("e-indicator-parents", [(EMF, "observed = {x: obs[x] for x in relevant if x in obs}", "observed = {x: obs[x] for x in relevant[1:] if x in obs}")]),
  ("e-last", [(EMF, "                pcounts[v] = pcounts[v] + exp_counts\n", "                pcounts[v] = exp_counts\n")]),
  ("e-model", [(EMF, "        self._inf = self._inference_method(self._model)\n", "        self._inf = self._inference_method(self._prior_model)\n")]),
  ("e-stale-inf", [(EMF, "        self._inf = self._inference_method(self._model)\n", "        if getattr(self, '_inf', None) is None: self._inf = self._inference_method(self._model)\n")]),
  ("p-one", [(EMF, "MultinomialFactor(dom, values=0, vtype", "MultinomialFactor(dom, values=1, vtype")]),
  ("i-converged", [(EMF, "        self._converged_vars = set()\n        self._process_data(data)\n", "        self._converged_vars = set(self.prior_model.variables).difference(self._requested_vars or self.prior_model.variables)\n        self._process_data(data)\n")]),
  ("i-model", [(EMF, "        self._model = self.prior_model.copy()\n", "        self._model = self._model.copy() if hasattr(self, '_model') else self.prior_model.copy()\n")]),
  ("i-history", [(GRF, "        self._model_evolution = [self.prior_model]\n", "        self._model_evolution = [self._model]\n")]),
  ("t-em", [(EMF, "        self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()])\n", "        self._trainable_vars = [v for v in self._requested_vars or data.columns if data[v].isna().any()]\n")]),
  ("t-gd", [(GRF, "        self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()]) \n", "        self._trainable_vars = self.prior_model.exogenous\n")]),
  ("g-keys", [(GRF, "for U in self.trainable_vars}", "for U in self.trainable_vars if self._prior_model.get_edogenous_children(U)}")]),
  ("g-domain", [(GRF, "MultinomialFactor(m.get_domains([U]), values", "MultinomialFactor(m.get_domains([U] + bmY), values")]),
  ("c-or", [(EMF, "reduce( lambda x,y : x&y,", "reduce( lambda x,y : x|y,")]),
  ("c-subset", [(EMF, "[data[v] == s for v,s in obs.items()]", "[data[v] == s for v,s in obs.items() if v != target]")]),
  ("c-data", [(EMF, "[data[v] == s for v,s in obs.items()], data.index == data.index)", "[self._data[v] == s for v,s in obs.items()], self._data.index == self._data.index)")]),
]}

REWRITES_L = [
  ("em-max-comp", [(EMF, "        new_probs = dict()\n        for v in set(self.trainable_vars).difference(self._converged_vars):\n            joint_counts = pcounts[v]\n            new_probs[v] = joint_counts / (joint_counts.marginalize(v))\n        return new_probs\n",
     "        active = [v for v in self.trainable_vars if v not in self._converged_vars]\n        return {v: pcounts[v].divide(pcounts[v].marginalize(v)) for v in active}\n")]),
  ("em-exp-local", [(EMF, "                pcounts[v] = pcounts[v] + exp_counts\n", "                total = total + exp_counts\n            pcounts[v] = total\n"), (EMF, "            for obs, c in self._get_obs_counts(v):\n                relevant = [v] + self._prior_model.get_parents(v)\n",
     "            total = pcounts[v]\n            relevant = [*self._prior_model.get_parents(v), v]\n            for obs, c in self._get_obs_counts(v):\n")]),
  ("em-exp-helper", [(EMF, "                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if hidden else c\n", "                exp_counts = self._weighted_posterior(hidden, obs, c)\n"),
     (EMF, "    def _get_indicator(self", "    def _weighted_posterior(self, hidden, obs, count):\n        if len(hidden) == 0:\n            return count\n        return count * self._inf.query(hidden, None, obs)\n\n    def _get_indicator(self")]),
  ("em-sets", [(EMF, "hidden = [x for x in relevant if x not in obs]", "hidden = list(set(relevant) - set(obs.keys()))"), (EMF, "relevant = [v] + self._prior_model.get_parents(v)", "relevant = [v]\n                relevant.extend(self._prior_model.get_parents(v))")]),
  ("update-merge", [(PARF, "        for v in self._model.variables:\n            if v not in new_probs: new_probs[v] = self._model.factors[v]\n        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)\n",
     "        old = self._model\n        merged = {v: new_probs[v] if v in new_probs else old.factors[v] for v in old.variables}\n        self._model = old.builder(dag=old.graph, factors=merged, check_factors=False)\n")]),
  ("update-record-inline", [(PARF, "        self._record_model(self.model)\n", "        self._model_evolution = self.model_evolution + [self._model]\n")]),
  ("counts-all", [(EMF, "        return [(obs, int(sum(reduce( lambda x,y : x&y, [data[v] == s for v,s in obs.items()], data.index == data.index))))\n                for deps, data in self._datadeps for obs in deps.get_minimal_obs_blanket(target)]\n",
     "        out = []\n        for deps, records in self._datadeps:\n            for obs in deps.get_minimal_obs_blanket(target):\n                agree = records.index == records.index\n                for x, s in obs.items():\n                    agree = agree & (records[x] == s)\n                out.append((obs, int(agree.sum())))\n        return out\n")]),
  ("pseudo-loop", [(EMF, "        return {v: get_pcounts(v) for v in self.trainable_vars}\n", "        out = {}\n        for v in self.trainable_vars:\n            out[v] = get_pcounts(v)\n        return out\n"), (EMF, "dom = dutils.subdomain(self.prior_model.domains, *([v] + pa))", "dom = {x: self.prior_model.domains[x] for x in [v] + pa}")]),
  ("gd-loop", [(GRF, "        return {U:self._updated_factor(U, **kwargs) for U in self.trainable_vars}\n", "        updated = dict()\n        for var in self._trainable_vars:\n            updated[var] = self._updated_factor(var, **kwargs)\n        return updated\n"),
     (GRF, "updated_factor = MultinomialFactor(m.get_domains([U]), values=results['params'], vtype=m.factors[U].vtype)", "prior = m.factors[U]\n        updated_factor = MultinomialFactor(prior.domain, values=results['params'], vtype=prior.vtype)")]),
  ("requested", [(EMF, "        self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()])\n", "        if self._requested_vars:\n            self._trainable_vars = list(self._requested_vars)\n        else:\n            self._trainable_vars = [v for v in data.columns if data[v].isna().any()]\n")]),
]
