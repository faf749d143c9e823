"""changes that break, and rewrites that keep, models in other representations (self-test data)"""
F = "bcause/readwrite/bnwrite.py"; S = "bcause/readwrite/scmwrite.py"; P = "bcause/conversion/pgmpy.py"
MUTANTS_Q = {"C14": [
  ("q-first", [(F, "[x for x in model.get_parents(v)][::-1] + [v]", "[v] + [x for x in model.get_parents(v)]")]),
  ("q-vals-rev", [(F, "f.values_array(vorder).flatten()", "f.values_array(vorder[::-1]).flatten()")]),
  ("q-vals-F", [(F, "f.values_array(vorder).flatten()", "f.values_array(vorder).flatten('F')")]),
  ("q-idx-model", [(F, "{v: variables.index(v) for v in variables}", "{v: model.variables.index(v) for v in variables}")]),
  ("q-sizes-order", [(F, '[f"{model.varsizes[v]}" for v in variables]', '[f"{model.varsizes[v]}" for v in model.variables]')]),
  ("q-nofactors", [(F, "{len(model.factors)}", "{len(model.endogenous)}")]),
  ("q-round", [(F, "[str(p) for p in values]", '[f"{p:.6f}" for p in values]')]),
  ("q-int-all", [(F, "if v in integer_varlist:", "if v in integer_varlist or label == 'BAYES':")]),
  ("q-scm-int", [(S, "integer_varlist=model.endogenous", "integer_varlist=model.variables")]),
  ("q-scm-order", [(S, "var_order=var_order", "var_order=None")]),
  ("q-ev-rev", [(P, 'args["evidence"] = parents', 'args["evidence"] = parents[::-1]')]),
  ("q-ev-card", [(P, "[card[p] for p in parents]", "[card[p] for p in f.right_vars[::-1]]")]),
  ("q-ev-lay", [(P, "f.values_array([v] + parents)", "f.values_array(parents + [v])")]),
  ("q-states", [(P, "state_names = f.domain", "state_names = f.left_domain")]),
  ("q-shape", [(P, ".reshape(card[v], -1)", ".reshape(-1, card[v])")]),
  ("q-mf-card", [(P, "card = [len(d) for d in domain.values()]", "card = [len(d) for d in domain.values()][::-1]")]),
  ("q-nodes", [(P, "    dag.add_nodes_from(orig.nodes)\n", "")]),
  ("q-arcs", [(P, "DiGraph(orig.in_edges)", "DiGraph([(y, x) for x, y in orig.in_edges])")]),
]}
REWRITES_Q = [
  ("q-join", [(F, '        out += f"{len(idx)}\\t" + " ".join([str(p) for p in idx]) + "\\n"\n', '        line = " ".join(map(str, idx))\n        out = out + f"{len(idx)}\\t{line}\\n"\n')]),
  ("q-idx", [(F, "    var_idx = {v: variables.index(v) for v in variables}\n", "    var_idx = dict()\n    for i, v in enumerate(variables):\n        var_idx[v] = i\n")]),
  ("q-helper", [(F, "def to_uai(model:'BayesianNetwork', filepath, rev", "def _row(values):\n    return f\"{len(values)}\\t\" + \" \".join([str(p) for p in values]) + \"\\n\"\n\ndef to_uai(model:'BayesianNetwork', filepath, rev"),
               (F, '        out += f"{len(values)}\\t" + " ".join([str(p) for p in values]) + "\\n"\n', "        out += _row(values)\n")]),
  ("q-parents", [(F, "        var_order[v] = [x for x in model.get_parents(v)][::-1] + [v]\n", "        family = list(reversed(list(model.get_parents(v))))\n        family.append(v)\n        var_order[v] = family\n")]),
  ("q-remove", [(F, "            vorder = [x for x in vorder if x != v]\n", "            vorder = vorder[:-1]\n")]),
  ("q-ravel", [(F, "f.values_array(vorder).flatten()", "f.values_array(vorder).ravel()")]),
  ("q-int", [(F, "            values = [int(p) for p in values]\n", "            values = list(map(int, values))\n")]),
  ("q-writer", [(F, '    with open(filepath, "w+") as file:\n        # Writing data to a file\n        file.write(out)', '    filepath.write_text(out)')]),
  ("q-cpd", [(P, "    args = dict(\n        variable = v,\n        variable_card = card[v],\n        values = values,\n        state_names = f.domain\n    )\n\n    if len(parents)>0:\n        args[\"evidence\"] = parents\n        args[\"evidence_card\"] = [card[p] for p in parents]\n\n    return pfd.TabularCPD(**args)",
            "    if not parents:\n        return pfd.TabularCPD(v, card[v], values, state_names=f.domain)\n    return pfd.TabularCPD(v, card[v], values, evidence=parents, evidence_card=[card[p] for p in parents], state_names=f.domain)")]),
  ("q-net", [(P, "    factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}\n", "    factors = dict()\n    for cpd in orig.cpds:\n        factors[cpd.variable] = toMultinomialFactor(cpd, vtype)\n"),
            (P, "    dag = DiGraph(orig.in_edges)\n    dag.add_nodes_from(orig.nodes)\n", "    dag = DiGraph()\n    dag.add_nodes_from(orig.nodes)\n    dag.add_edges_from(orig.in_edges)\n")]),
  ("q-pg", [(P, "    dest.add_cpds(*[toTabularCPT(f) for f in orig.factors.values()])\n", "    for f in orig.factors.values():\n        dest.add_cpds(toTabularCPT(f))\n")]),
  ("q-mf", [(P, "    card = [len(d) for d in domain.values()]\n    data = np.reshape([factor.get_value(**s) for s in assingment_space(domain)], card)\n", "    values = [factor.get_value(**s) for s in assingment_space(domain)]\n    data = np.array(values).reshape([len(domain[x]) for x in domain])\n")]),
]
