"""changes that break, and rewrites that keep, the value store of results (self-test data)"""
MN = "bcause/factors/mulitnomial.py"; DT = "bcause/factors/deterministic.py"; IMP = "bcause/factors/imprecise.py"; CM = "bcause/models/cmodel.py"
EMF = "bcause/learning/parameter/expectation_maximization.py"; GRF = "bcause/learning/parameter/gradient.py"; PG = "bcause/conversion/pgmpy.py"; BR = "bcause/readwrite/bnread.py"; SR = "bcause/readwrite/scmread.py"
MUTANTS_P = {"C10": [
  ("builder", [(MN, "            return MultinomialFactor(**kwargs, vtype=vtype)", "            return MultinomialFactor(**kwargs)")]),
  ("det-builder", [(DT, "            return DeterministicFactor(**kwargs, vtype=vtype)", "            return DeterministicFactor(**kwargs)")]),
  ("int-builder", [(IMP, "            return IntervalProbFactor(**kwargs, vtype=vtype)", "            return IntervalProbFactor(**kwargs)")]),
  ("to-det", [(MN, "left_vars=[v], values=values, vtype=self.vtype)", "left_vars=[v], values=values)")]),
  ("to-mult", [(DT, "return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values, vtype=self.vtype)", "return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values)")]),
  ("operand", [(MN, "        new_store = self.store.restrict(**observation)\n        new_right_vars = [v for v in new_store.variables if v in self.right_vars]\n        return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)",
     "        new_store = self.store.restrict(**observation)\n        new_right_vars = [v for v in new_store.variables if v in self.right_vars]\n        return MultinomialFactor(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)")]),
  ("marg-none", [(MN, "        new_store = self.store.maxmarginalize(*vars_remove)\n        new_right_vars = [v for v in new_store.variables if v in self.right_vars]\n        return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)",
     "        new_store = self.store.maxmarginalize(*vars_remove)\n        new_right_vars = [v for v in new_store.variables if v in self.right_vars]\n        return MultinomialFactor(new_store.domain, new_store.data, right_vars = new_right_vars, vtype=None if not new_right_vars else self.vtype)")]),
  ("rand-det", [(MN, "return MultinomialFactor(domain=dom, right_vars=right_vars, values=data, vtype=vtype)", "return MultinomialFactor(domain=dom, right_vars=right_vars, values=data)")]),
  ("canon", [(MN, "canonical_deterministic(domain, exo_var, right_endo_vars, vtype).to_multinomial()", "canonical_deterministic(domain, exo_var, right_endo_vars).to_multinomial()")]),
  ("canon-det", [(DT, "return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)", "return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var])")]),
  ("precise", [(IMP, "left_vars=left_vars, vtype=list_factors[0].vtype)\n\n    @property\n    def store_low", "left_vars=left_vars)\n\n    @property\n    def store_low")]),
  ("randomize", [(CM, "vtype = m.factors[x].vtype if m.factors[x] is not None else None\n", "vtype = None\n")]),
  ("em", [(EMF, "MultinomialFactor(dom, values=0, vtype=self.prior_model.factors[v].vtype)", "MultinomialFactor(dom, values=0)")]),
  ("gd", [(GRF, "values=results['params'], vtype=m.factors[U].vtype)", "values=results['params'])")]),
  ("bif", [(BR, "    return __read(BIFReader, filepath, vtype)", "    return __read(BIFReader, filepath, DataStore.DEFAULT_STORE)")]),
  ("xml", [(SR, "bnread.from_xmlbif(filepath, vtype)", "bnread.from_xmlbif(filepath)")]),
  ("pgm", [(PG, "toMultinomialFactor(f, vtype) for f", "toMultinomialFactor(f) for f")]),
  ("recorded", [(MN, "        self.vtype = vtype\n", "        self.vtype = DataStore.DEFAULT_STORE\n")]),
]}
REWRITES_P = [
  ("p-builder", [(MN, "            return MultinomialFactor(**kwargs, vtype=vtype)", "            kwargs['vtype'] = self.vtype\n            return MultinomialFactor(**kwargs)")]),
  ("p-randomize", [(CM, "            vtype = m.factors[x].vtype if m.factors[x] is not None else None\n", "            old = m.factors[x]\n            vtype = None\n            if old is not None:\n                vtype = old.vtype\n")]),
  ("p-em", [(EMF, "MultinomialFactor(dom, values=0, vtype=self.prior_model.factors[v].vtype)", "MultinomialFactor(domain=dom, values=0, vtype=getattr(self.prior_model.factors[v], 'vtype'))")]),
  ("p-read", [(BR, "    vtype = vtype or DataStore.DEFAULT_STORE\n    return __read(BIFReader, filepath, vtype)", "    if vtype is None:\n        vtype = DataStore.DEFAULT_STORE\n    return __read(reader=BIFReader, filepath=filepath, vtype=vtype)")]),
  ("p-to-mult", [(DT, "return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values, vtype=self.vtype)", "kind = self.vtype\n        return MultinomialFactor(self.domain, values, None, self.right_vars, kind)")]),
]
