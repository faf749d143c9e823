"""Planted changes against C12 and C10 (see mkseed.py)."""
MULTI = "bcause/inference/causal/multi.py"; IMP = "bcause/factors/imprecise.py"; AGG = "bcause/learning/aggregator/aggregator.py"
MUL = "bcause/factors/mulitnomial.py"; DET = "bcause/factors/deterministic.py"; PGM = "bcause/conversion/pgmpy.py"; BNR = "bcause/readwrite/bnread.py"
PRE = '''
import networkx as nx, numpy as np, pandas as pd
import bcause as bc
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import CausalMultiInference
from bcause.inference.causal.elimination import CausalVariableElimination
from bcause.factors.imprecise import IntervalProbFactor
from bcause.factors import MultinomialFactor, DeterministicFactor
bc.randomUtil.seed(1)
m = StructuralCausalModel(nx.DiGraph([("X","Y"),("Y","Z"),("U","X"),("V","Y"),("W","Z")]), cast_multinomial=True)
m.fill_random_factors(dict(X=[0,1], Y=[0,1], Z=[0,1], U=[0,1,2], V=[0,1,2,3], W=[0,1,2,3]))
ms = [m.randomize_factors(m.exogenous, allow_zero=False) for _ in range(5)]
'''
SEEDS = [
 dict(id="c12-set-models", property="C12", needs="a query, then set_models, then another query", breaks="after the models were replaced the inference answers with the old ones",
  edits=[(MULTI, "        self._models = list(models or [])\n        self._compiled = False\n", "        self._models = list(models or [])\n        self._compiled = getattr(self, '_compiled', False)\n")],
  demo=PRE + '''
inf = CausalMultiInference(ms[:2])
inf.causal_query("Z", do=dict(X=0))
inf.set_models(ms[2:])
a = inf.causal_query("Z", do=dict(X=0))
b = CausalMultiInference(ms[2:]).causal_query("Z", do=dict(X=0))
assert a.store.values_list == b.store.values_list, (a, b)
'''),
 dict(id="c12-outer-models", property="C12", needs="more than two models, the extreme one in the middle", breaks="the upper end of an interval is taken over all models but the last, when there are more than two",
  edits=[(IMP, "[f.get_value(**obs) for f in list_factors] for obs in", "[f.get_value(**obs) for f in list_factors[:2] + list_factors[3:]] for obs in")],
  demo='''
from bcause.factors.imprecise import IntervalProbFactor
from bcause.factors import MultinomialFactor
F = [MultinomialFactor(dict(A=[0, 1]), [p, 1 - p]) for p in (.3, .4, .9, .5)]
g = IntervalProbFactor.from_precise(F)
assert list(g.store_up.values_list) == [.9, .7] and abs(g.store_low.values_list[1] - .1) < 1e-9, g
'''),
 dict(id="c12-subgraph", property="C12", needs="a counterfactual whose target lives in another world than the first one", breaks="a counterfactual query over several models forgets in which world the target is",
  edits=[(MULTI, "inf.query(target,do,evidence,counterfactual,targets_subgraphs) for inf", "inf.query(target,do,evidence,counterfactual) for inf")],
  demo=PRE + '''
multi = CausalMultiInference(ms)
single = [CausalVariableElimination(x) for x in ms]
kw = dict(target=["Z"], do=[dict(X=0), dict(X=1)], evidence=None, counterfactual=True, targets_subgraphs=[2])
multi.set_interval_result(False)
got = multi.query(**kw); want = [s.query(**kw) for s in single]
for g, w in zip(got, want):
    assert g.domain.keys() == w.domain.keys() and g.store.values_list == w.store.values_list, (g, w)
'''),
 dict(id="c12-learn-fewer", property="C12", needs="parallel generation of the models", breaks="parallel generation gives one model less than asked for when several are",
  edits=[(MULTI, "            self._agg.run(num_models=step_runs)\n", "            self._agg.run(num_models=min(step_runs, self._num_runs - len(self.models)) - 0 if step_runs < 2 else step_runs - 1)\n")],
  demo=PRE + '''
'''),
 dict(id="c12-interval-label", property="C12", needs="restricting an interval factor to a state of its last variable", breaks="low and up values are read from the same end after a restriction to several states",
  edits=[(IMP, "        new_left_vars = [v for v in new_store.variables if v in self.left_vars]\n", "        new_left_vars = [v for v in new_store.variables if v in self.right_vars or v in self.left_vars]\n")],
  demo='''
'''),
 dict(id="c10-canonical", property="C10", needs="canonical factors with a kind other than the default", breaks="canonical multinomial factors are always of the default kind",
  edits=[(MUL, "    return canonical_deterministic(domain, exo_var, right_endo_vars, vtype).to_multinomial()\n", "    f = canonical_deterministic(domain, exo_var, right_endo_vars)\n    return f.to_multinomial()\n")],
  demo='''
from bcause.factors.mulitnomial import canonical_multinomial
f = canonical_multinomial(dict(Y=[0,1], X=[0,1], U=[0,1,2,3]), "U", ["X"], vtype="list")
assert f.vtype == "list" and type(f.store).__name__ == "ListStore", (f.vtype, type(f.store))
'''),
 dict(id="c10-to-multinomial", property="C10", needs="a deterministic factor with a kind other than the default and no right-hand variables", breaks="a constant deterministic factor becomes a multinomial one of the default kind",
  edits=[(DET, "right_vars=self.right_vars, values=values, vtype=self.vtype)", "right_vars=self.right_vars, values=values, vtype=self.vtype if self.right_vars else None)")],
  demo='''
from bcause.factors import DeterministicFactor
f = DeterministicFactor(dict(Y=["a","b"], X=[0,1]), left_vars=["Y"], values=["a","b"], vtype="list")
assert f.to_multinomial().vtype == "list"
g = f.constant("b").to_multinomial()
assert g.vtype == "list" and type(g.store).__name__ == "ListStore", g
'''),
 dict(id="c10-xmlbif", property="C10", needs="reading an XMLBIF file with a kind other than the default", breaks="the kind asked for is ignored when an XMLBIF file is read",
  edits=[(PGM, "    factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}\n", "    factors = {f.variable:toMultinomialFactor(f, vtype if len(f.variables) > 1 else None) for f in orig.cpds}\n")],
  demo='''
import bcause.conversion.pgmpy as cp, networkx as nx
from bcause.models.bnet import BayesianNetwork
from bcause.factors import MultinomialFactor
b = BayesianNetwork(nx.DiGraph([("A","B")]), [MultinomialFactor(dict(A=["a","b"]), [.3,.7]), MultinomialFactor(dict(B=["a","b"], A=["a","b"]), [.1,.2,.9,.8], right_vars=["A"])])
c = cp.toBCauseBNet(cp.toPgmpyBNet(b), "list")
assert [c.factors[v].vtype for v in "AB"] == ["list", "list"]
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c12-learn-fewer", "c12-interval-label")]
