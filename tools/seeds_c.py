"""Planted changes against C13 (see mkseed.py)."""
EMF = "bcause/learning/parameter/expectation_maximization.py"; PARF = "bcause/learning/parameter/parameter.py"; GRF = "bcause/learning/parameter/gradient.py"
PRE = '''
import networkx as nx, numpy as np, pandas as pd
import bcause as bc
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
from bcause.learning.parameter.gradient import GradientLikelihood
bc.randomUtil.seed(1)
m = StructuralCausalModel(nx.DiGraph([("V1","V2"),("U1","V1"),("U2","V2")]), cast_multinomial=True)
m.fill_random_factors({v: ([0, 1] if v[0] == "V" else [0, 1, 2, 3]) for v in m.graph.nodes})
data = m.sample(60, as_pandas=True)[m.endogenous]
'''
SEEDS = [
 dict(id="c13-requested", property="C13", needs="a list of trainable variables that leaves one out, in the gradient learner", breaks="the gradient learner also re-estimates variables that were not asked for",
  edits=[(GRF, "        return {U:self._updated_factor(U, **kwargs) for U in self.trainable_vars}\n", "        return {U:self._updated_factor(U, **kwargs) for U in self._prior_model.exogenous}\n")],
  demo=PRE + '''
p = m.randomize_factors(m.exogenous, allow_zero=False)
gd = GradientLikelihood(p, trainable_vars=["U1"])
gd.run(data)
assert np.allclose(gd.model.factors["U2"].values, p.factors["U2"].values)
'''),
 dict(id="c13-parents", property="C13", needs="a trained variable with parents, some of them not observed", breaks="hidden parents of a trained variable are left out of its expected counts, so it no longer depends on them",
  edits=[(EMF, "                hidden = [x for x in relevant if x not in obs]\n", "                hidden = [x for x in relevant if x not in obs and (x == v or x in self.trainable_vars)]\n")],
  demo=PRE + '''
p = m.randomize_factors(m.exogenous, allow_zero=False)
from bcause.models.bnet import BayesianNetwork
from bcause.factors import MultinomialFactor
g = nx.DiGraph([("H","Y")])
b = BayesianNetwork(g, dict(H=MultinomialFactor({"H": ["h","k"]}, values=[.3,.7]), Y=MultinomialFactor({"Y": ["a","b"], "H": ["h","k"]}, left_vars=["Y"], right_vars=["H"], values=[.2,.9,.8,.1])))
d = pd.DataFrame({"Y": ["a","a","b"]})
em = ExpectationMaximization(b, trainable_vars=["Y"])
em.run(d, max_iter=1)
f = em.model.factors["Y"]
# expected counts by hand
w = lambda y, h: b.factors["H"].get_value(H=h) * b.factors["Y"].get_value(Y=y, H=h)
post = lambda y, h: w(y, h) / sum(w(y, q) for q in ("h", "k"))
for h in ("h", "k"):
    want = 2 * post("a", h) / (2 * post("a", h) + post("b", h))
    assert abs(f.get_value(Y="a", H=h) - want) < 1e-9, (h, f.get_value(Y="a", H=h), want)
'''),
]
