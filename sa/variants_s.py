"""changes that break, and rewrites that keep, sampling and the probabilities of records (self-test data)"""
SA = "bcause/models/sampling.py"; PG = "bcause/models/pgmodel.py"; MN = "bcause/factors/mulitnomial.py"
MUTANTS_S = {"C20": [
  ("s-nodes", [(SA, "nx.topological_sort(model.graph)", "model.graph.nodes")]),
  ("s-rev", [(SA, "nx.topological_sort(model.graph)", "reversed(list(nx.topological_sort(model.graph)))")]),
  ("s-root", [(SA, "if len(model.get_parents(v)) == 0 :", "if len(model.get_parents(v)) <= 1 and len(model.get_children(v)) == 0 or len(model.get_parents(v)) == 0:")]),
  ("s-size", [(SA, ".sample(n_samples)", ".sample(1)")]),
  ("s-axis", [(SA, "axis=1)", "axis=0)")]),
  ("s-skip", [(SA, "    for v in nx.topological_sort(model.graph):\n", "    for v in nx.topological_sort(model.graph):\n        if len(model.get_parents(v)) == 0 and len(model.get_children(v)) == 0: continue\n")]),
  ("s-logaxis", [(PG, "for f in self.get_factors(*variables)], axis=0)", "for f in self.get_factors(*variables)], axis=1)")]),
  ("s-logall", [(PG, "        variables = variables or self.variables\n        return np.sum(", "        variables = self.variables\n        return np.sum(")]),
  ("s-logroots", [(PG, "variables = variables or self.variables\n        return", "variables = variables or [v for v in self.variables if len(self.get_parents(v)) > 0]\n        return")]),
  ("s-prod", [(PG, "np.prod([f.prob(observations) for f in self.factor_list], axis=0)", "np.sum([f.prob(observations) for f in self.factor_list], axis=0)")]),
  ("s-prodsome", [(PG, "np.prod([f.prob(observations) for f in self.factor_list], axis=0)", "np.prod([f.prob(observations) for f in self.factor_list if f.right_vars], axis=0)")]),
  ("s-nolog", [(MN, "[math.log(self.get_value(**x)) for x in observations]", "[self.get_value(**x) for x in observations]")]),
  ("s-first", [(MN, "        return [self.get_value(**x) for x in observations]", "        return [self.get_value(**observations[0]) for x in observations]")]),
  ("s-noprob", [(MN, "list(range(0, len(possible_states))), p=probs / probs.sum())", "list(range(0, len(possible_states))))")]),
  ("s-dups", [(MN, "_sample(varnames=varnames) for obs in observations]", "_sample(varnames=varnames) for obs in df_obs.to_dict('records')]")]),
  ("s-range", [(MN, "for _ in range(0,size)]", "for _ in range(1,size)]")]),
]}
REWRITES_S = [
  ("s-loop", [(MN, "        return [self.get_value(**x) for x in observations]", "        out = []\n        for x in observations:\n            out.append(self.get_value(**x))\n        return out")]),
  ("s-helper", [(MN, "        return [math.log(self.get_value(**x)) for x in observations]", "        return [math.log(p) for p in self.prob(observations)]")]),
  ("s-order", [(SA, "    for v in nx.topological_sort(model.graph):\n", "    order = list(nx.topological_sort(model.graph))\n    for v in order:\n")]),
  ("s-if", [(SA, "        if len(model.get_parents(v)) == 0 : obs_v = model.factors[v].sample(n_samples)\n        else: obs_v = model.factors[v].sample_conditional(data.to_dict(\"records\"))\n", "        f = model.factors[v]\n        if model.get_parents(v):\n            obs_v = f.sample_conditional(data.to_dict(\"records\"))\n        else:\n            obs_v = f.sample(n_samples)\n")]),
  ("s-list", [(SA, "    data = pd.DataFrame()\n", "    data = pd.DataFrame()\n    logged = 0\n"), (SA, "        data = pd.concat([data, pd.DataFrame(obs_v)], axis=1)\n", "        new = pd.DataFrame(obs_v)\n        data = pd.concat([data, new], axis=\"columns\")\n")]),
  ("s-logvars", [(PG, "        variables = variables or self.variables\n        return np.sum([f.log_prob(observations) for f in self.get_factors(*variables)], axis=0)", "        if not variables:\n            variables = self.variables\n        logs = [self.factors[v].log_prob(observations) for v in variables]\n        return np.sum(logs, axis=0)")]),
  ("s-prodvals", [(PG, "np.prod([f.prob(observations) for f in self.factor_list], axis=0)", "np.prod([f.prob(observations) for f in self.factors.values()], axis=0)")]),
  ("s-range1", [(MN, "for _ in range(0,size)]", "for _ in range(size)]")]),
  ("s-dictkey", [(MN, "        return [factors[tuple(obs[k] for k in df_obs.keys())]._sample(varnames=varnames) for obs in observations]", "        out = []\n        for obs in observations:\n            key = tuple(obs[k] for k in df_obs.keys())\n            out.append(factors[key]._sample(varnames=varnames))\n        return out")]),
  ("s-direct", [(MN, "        return [factors[tuple(obs[k] for k in df_obs.keys())]._sample(varnames=varnames) for obs in observations]", "        return [self.R(**obs)._sample(varnames=varnames) for obs in observations]")]),
]
