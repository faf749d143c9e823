"""Planted changes against C14, C18 and C20 (see mkseed.py)."""
BW = "bcause/readwrite/bnwrite.py"; PGM = "bcause/conversion/pgmpy.py"; SW = "bcause/readwrite/scmwrite.py"
INFO = "bcause/models/info.py"; CMOD = "bcause/models/cmodel.py"
PRE18 = """
import networkx as nx, numpy as np, bcause as bc
from bcause.models.cmodel import StructuralCausalModel
bc.randomUtil.seed(1)
def model(g):
    m = StructuralCausalModel(g, cast_multinomial=True)
    m.fill_random_factors({v: list(range(2 if any(g.predecessors(v)) else 4)) for v in g.nodes})
    return m
"""
SAMP = "bcause/models/sampling.py"; PGMOD = "bcause/models/pgmodel.py"
PRE20 = """
import networkx as nx, numpy as np, bcause as bc
from bcause.models import BayesianNetwork
from bcause.factors import MultinomialFactor
bc.randomUtil.seed(1)
"""
SEEDS = [
 dict(id="c14-evidence-card", property="C14", needs="a factor with two parents of different numbers of states, declared in another order than its domain", breaks="the numbers of states of the parents are listed in another order than the parents",
  edits=[(PGM, '        args["evidence_card"] = [card[p] for p in parents]\n', '        args["evidence_card"] = [k for p, k in card.items() if p in parents]\n')],
  demo='''
from bcause.factors import MultinomialFactor
from bcause.conversion.pgmpy import toTabularCPT
import numpy as np
f = MultinomialFactor(dict(X=[0, 1], A=[0, 1], B=[0, 1, 2]), np.array([.1,.2,.3,.4,.5,.6,.9,.8,.7,.6,.5,.4]).reshape(2, 2, 3), right_vars=["B", "A"])
t = toTabularCPT(f)
card = dict(zip(t.variables, t.cardinality))
assert {k: int(c) for k, c in card.items()} == dict(X=2, A=2, B=3), card
for x in (0, 1):
    for a in (0, 1):
        for b in (0, 1, 2): assert abs(t.get_value(X=x, A=a, B=b) - f.get_value(X=x, A=a, B=b)) < 1e-9
'''),
 dict(id="c14-order-index", property="C14", needs="a UAI file written with a variable order other than the model's", breaks="the scopes name the variables by their position in the model instead of the order asked for",
  edits=[(BW, "    var_idx = {v: variables.index(v) for v in variables}\n", "    var_idx = {v: i for i, v in enumerate(model.variables)} if label == 'BAYES' else {v: variables.index(v) for v in variables}\n")],
  demo='''
import os, tempfile, networkx as nx, bcause as bc
from bcause.models import BayesianNetwork
from bcause.factors import MultinomialFactor
from bcause.readwrite import bnread
g = nx.DiGraph([("A", "B"), ("B", "C")])
m = BayesianNetwork(g, dict(A=MultinomialFactor(dict(A=[0, 1]), [.3, .7]), B=MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[.1, .2], [.9, .8]], right_vars=["A"]), C=MultinomialFactor(dict(C=[0, 1], B=[0, 1]), [[.4, .6], [.6, .4]], right_vars=["B"])))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.uai")
    m.save(p, var_order=["C", "B", "A"])
    lines = open(p).read().split("\\n")
sizes = [l.split() for l in lines[4:7]]
assert [set(map(int, x[1:])) for x in sizes] == [{0, 1}, {1, 2}, {2}], sizes
'''),
 dict(id="c14-digits", property="C14", needs="a probability with more than eight digits", breaks="the probabilities of a UAI file are rounded",
  edits=[(BW, '        out += f"{len(values)}\\t" + " ".join([str(p) for p in values]) + "\\n"\n', '        out += f"{len(values)}\\t" + " ".join([f"{p:.8g}" for p in values]) + "\\n"\n')],
  demo='''
import os, tempfile, networkx as nx
from bcause.models import BayesianNetwork
from bcause.factors import MultinomialFactor
from bcause.readwrite import bnread
g = nx.DiGraph(); g.add_node("A")
x = 0.12345678912345
m = BayesianNetwork(g, dict(A=MultinomialFactor(dict(A=[0, 1]), [x, 1 - x])))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.uai")
    m.save(p)
    n = bnread.from_uai(p)
assert n.factors["V0"].values_list[0] == x, n.factors["V0"].values_list
'''),
 dict(id="c18-last-two", property="C18", needs="a component of more than three variables", breaks="in the q-decomposition the parents of the first variables of a large component are forgotten",
  edits=[(INFO, "        pa_c = set(itertools.chain(*[model.get_edogenous_parents(v) for v in c_comp]))\n", "        pa_c = set(itertools.chain(*[model.get_edogenous_parents(v) for v in c_comp[-3:]]))\n")],
  demo=PRE18 + """
g = nx.DiGraph([("W","A"),("A","B"),("B","C"),("C","D"),("U","A"),("U","B"),("U","C"),("U","D"),("Y","W")])
m = model(g)
assert all("W" in m.qgraph.predecessors(x) for x in "ABCD"), m.qgraph.edges
"""),
 dict(id="c18-some-variables", property="C18", needs="the maximum likelihood of some of the variables", breaks="the maximum likelihood is always that of all the variables",
  edits=[(CMOD, "        return np.sum(bn.log_prob(obs,variables))\n", "        return np.sum(bn.log_prob(obs))\n")],
  demo=PRE18 + """
m = model(nx.DiGraph([("A","B"),("U","A"),("W","B")]))
d = m.sampleEndogenous(40)
a = m.max_log_likelihood(d, ["A"]); b = np.sum(m.get_qbnet(d).log_prob(d.to_dict("records"), ["A"]))
assert abs(a - b) < 1e-9, (a, b)
"""),
 dict(id="c18-exo-part", property="C18", needs="a component with more than one exogenous variable", breaks="the exogenous variables of a variable's component are its own parents only",
  edits=[(INFO, "    return model.get_ccomponent(v).intersection(model.exogenous)\n", "    return model.get_ccomponent(v).intersection(model.get_exogenous_parents(v) or model.exogenous)\n")],
  demo=PRE18 + """
m = model(nx.DiGraph([("A","B"),("B","C"),("U","A"),("U","B"),("W","B"),("W","C")]))
assert m.get_exo_ccomponent("A") == {"U", "W"}, m.get_exo_ccomponent("A")
"""),
 dict(id="c20-node-order", property="C20", needs="a network whose child was added to the graph before its parents", breaks="variables are drawn in the order in which they were added to the graph",
  edits=[(SAMP, "    for v in nx.topological_sort(model.graph):\n", "    for v in model.graph.nodes:\n")],
  demo=PRE20 + """
g = nx.DiGraph(); g.add_nodes_from(["B", "A"]); g.add_edge("A", "B")
m = BayesianNetwork(g, dict(A=MultinomialFactor(dict(A=[0, 1]), [.5, .5]), B=MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[1, 0], [0, 1]], right_vars=["A"])))
d = m.sample(20)
assert len(d) == 20 and (d.A == d.B).all(), d
"""),
 dict(id="c20-isolated", property="C20", needs="a network with a variable that has no arcs", breaks="variables without arcs are not drawn",
  edits=[(SAMP, "    for v in nx.topological_sort(model.graph):\n", "    for v in nx.topological_sort(model.graph):\n        if len(model.get_parents(v)) == 0 and len(model.get_children(v)) == 0 and len(data) > 0: continue\n")],
  demo=PRE20 + """
g = nx.DiGraph([("A", "B")]); g.add_node("C")
m = BayesianNetwork(g, dict(A=MultinomialFactor(dict(A=[0, 1]), [.5, .5]), B=MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[1, 0], [0, 1]], right_vars=["A"]), C=MultinomialFactor(dict(C=[0, 1]), [.5, .5])))
d = m.sample(5)
assert set(d.columns) == {"A", "B", "C"} and len(d) == 5, d
"""),
 dict(id="c20-some-axis", property="C20", needs="the joint log-probability of some variables only", breaks="the log-probabilities of some variables are added over the records instead of over the variables",
  edits=[(PGMOD, "        return np.sum([f.log_prob(observations) for f in self.get_factors(*variables)], axis=0)\n", "        return np.sum([f.log_prob(observations) for f in self.get_factors(*variables)], axis=0 if len(variables) > 2 else -1)\n")],
  demo=PRE20 + """
g = nx.DiGraph([("A", "B")]); g.add_node("C")
m = BayesianNetwork(g, dict(A=MultinomialFactor(dict(A=[0, 1]), [.5, .5]), B=MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[.9, .2], [.1, .8]], right_vars=["A"]), C=MultinomialFactor(dict(C=[0, 1]), [.5, .5])))
obs = [dict(A=0, B=0, C=0), dict(A=0, B=1, C=0), dict(A=1, B=1, C=1)]
got = m.log_prob(obs, ["A", "B"])
want = np.log([.45, .05, .4])
assert np.shape(got) == (3,) and np.allclose(got, want), got
"""),
]
