"""changes that break, and rewrites that keep, c-components and the q-decomposition (self-test data)"""
I = "bcause/models/info.py"; M = "bcause/models/cmodel.py"
OLD = """                if order.index(p) < order.index(x):
                    g.add_edge(p, x)"""
MUTANTS_R = {"C18": [
  ("r-cyclic", [(I, OLD, """                if p not in nx.descendants(model.endo_graph, x):
                    g.add_edge(p, x)""")]),
  ("r-nodes", [(I, "order = list(topological_sort(g))", "order = list(g.nodes)")]),
  ("r-own-parents", [(I, "list(pa_c) + c_comp[0:i]", "list(pa_c)")]),
  ("r-no-pa", [(I, "list(pa_c) + c_comp[0:i]", "c_comp[0:i]")]),
  ("r-first", [(I, "for v in c_comp]))", "for v in c_comp[:1]]))")]),
  ("r-exo-graph", [(M, "exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]", "exo_edges = [(x,y) for x,y in self.graph.edges]")]),
  ("r-endo", [(M, "[set(c).intersection(self.endogenous) for c in self.ccomponents]", "[set(c).intersection(self.endogenous) for c in self.ccomponents if len(c) > 2]")]),
  ("r-exo", [(I, "return model.get_ccomponent(v).intersection(model.exogenous)", "return model.get_ccomponent(v).intersection(model.get_exogenous_parents(v))")]),
  ("r-cond", [(I, "conditioning=list(model.qgraph.predecessors(v)))", "conditioning=list(model.endo_graph.predecessors(v)))")]),
  ("r-cond2", [(I, "conditioning=list(model.qgraph.predecessors(v)))", "conditioning=[x for x in model.qgraph.predecessors(v) if x in ccomp])")]),
  ("r-target", [(I, "    return {v:inf.query(v,conditioning=list(model.qgraph.predecessors(v))) for v in ccomp}", "    return {x:inf.query(x,conditioning=list(model.qgraph.predecessors(v))) for x in ccomp}")]),
  ("r-laplace", [(I, "if data is None:\n", "if data is None or len(data) == 0:\n        data = None\n    if data is None or model.has_deterministic:\n")]),
  ("r-nodata", [(M, "self.get_qfactors(c.pop(), data).items()", "self.get_qfactors(c.pop()).items()")]),
  ("r-some", [(M, "for c in self.ccomponents)))", "for c in self.ccomponents if len(c) > 2)))")]),
  ("r-qbnet", [(M, "self.get_qfactorisation(data))", "self.get_qfactorisation())")]),
  ("r-qbnet2", [(M, "BayesianNetwork(self.qgraph, self.get_q", "BayesianNetwork(self.endo_graph, self.get_q")]),
  ("r-lik", [(M, "        bn = self.get_qbnet()\n", "        bn = self.get_qbnet(data)\n")]),
  ("r-vars", [(M, "bn.log_prob(obs,variables)", "bn.log_prob(obs)")]),
  ("r-parents", [(M, "[x for x in self.get_parents(variable) if self.is_endogenous(x)]", "[x for x in self.get_parents(variable) if not self.is_exogenous(x) and self.get_exogenous_parents(x)]")]),
]}
REWRITES_R = [
  ("r-pos", [(I, "    order = list(topological_sort(g))\n", "    order = list(topological_sort(g))\n    rank = {v: i for i, v in enumerate(order)}\n"), (I, OLD, "                if rank[p] < rank[x]:\n                    g.add_edge(p, x)")]),
  ("r-enum", [(I, "        for i in range(len(c_comp)):\n            x = c_comp[i]\n", "        for i, x in enumerate(c_comp):\n")]),
  ("r-skip", [(I, OLD, "                if order.index(p) >= order.index(x):\n                    continue\n                g.add_edge(p, x)")]),
  ("r-pa-set", [(I, "        pa_c = set(itertools.chain(*[model.get_edogenous_parents(v) for v in c_comp]))\n        pa_c = pa_c.difference(c_comp)\n", "        pa_c = {p for v in c_comp for p in model.get_edogenous_parents(v) if p not in c_comp}\n")]),
  ("r-helper", [(I, "def get_qgraph(model", "def _precedes(order, p, x):\n    return order.index(p) < order.index(x)\n\ndef get_qgraph(model"), (I, OLD, "                if _precedes(order, p, x):\n                    g.add_edge(p, x)")]),
  ("r-edges", [(I, OLD, "                if order.index(p) < order.index(x):\n                    new_edges.append((p, x))"), (I, "    for c_comp in model.endo_ccomponents:\n", "    new_edges = []\n    for c_comp in model.endo_ccomponents:\n"), (I, "\n    return g\n", "\n    g.add_edges_from(new_edges)\n    return g\n")]),
  ("r-amp", [(M, "[set(c).intersection(self.endogenous) for c in self.ccomponents]", "[{v for v in c if self.is_endogenous(v)} for c in self.ccomponents]")]),
  ("r-exo-isct", [(I, "return model.get_ccomponent(v).intersection(model.exogenous)", "return set(model.get_ccomponent(v)) & set(model.exogenous)")]),
  ("r-exo-diff", [(M, "[set(c).intersection(self.exogenous) for c in self.ccomponents]", "[set(c).difference(self.endogenous) for c in self.ccomponents]")]),
  ("r-fact-loop", [(M, "        return dict(itertools.chain(*(self.get_qfactors(c.pop(), data).items() for c in self.ccomponents)))\n", "        factors = dict()\n        for c in self.ccomponents:\n            factors.update(self.get_qfactors(next(iter(c)), data))\n        return factors\n")]),
  ("r-qf-loop", [(I, "    return {v:inf.query(v,conditioning=list(model.qgraph.predecessors(v))) for v in ccomp}", "    g = model.qgraph\n    out = dict()\n    for x in ccomp:\n        out[x] = inf.query(x, conditioning=list(g.predecessors(x)))\n    return out")]),
  ("r-qf-target", [(I, "inf.query(v,conditioning=list(model.qgraph.predecessors(v)))", "inf.query([v], conditioning=list(model.qgraph.predecessors(v)))")]),
  ("r-exo-simple", [(M, "        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)", "        return DiGraph(exo_edges)")]),
  ("r-lik-gen", [(M, "        return np.sum(bn.log_prob(obs, variables))", "        return sum(bn.log_prob(obs, variables=variables))")]),
]
