"""Planted changes against C06, C08, C09, C15, C17 (see mkseed.py)."""
GU = "bcause/util/graphutils.py"; MUL = "bcause/factors/mulitnomial.py"; CI = "bcause/inference/causal/causal.py"
PI = "bcause/inference/probabilistic/probabilistic.py"; VE = "bcause/inference/probabilistic/elimination.py"
PG = "bcause/models/pgmodel.py"; CM = "bcause/models/cmodel.py"; SIMP = "bcause/models/transform/simplification.py"
FAC = "bcause/factors/factor.py"; COMB = "bcause/models/transform/combination.py"; MI = "bcause/inference/causal/multi.py"
PRE = '''
import itertools, networkx as nx, numpy as np, pandas as pd
import bcause as bc
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.factors.mulitnomial import random_multinomial
from bcause.models.bnet import BayesianNetwork
from bcause.models.cmodel import StructuralCausalModel
def bnet(edges, dom=None, seed=1):
    bc.randomUtil.seed(seed)
    g = nx.DiGraph(edges)
    dom = dom or {v: ["a", "b"] for v in g.nodes}
    f = {v: random_multinomial({x: dom[x] for x in [v] + list(g.predecessors(v))}, right_vars=list(g.predecessors(v))) for v in g.nodes}
    return BayesianNetwork(g, f)
def joint(m):
    """the joint distribution as {frozenset(assignment): probability}, straight from the tables"""
    out = {}
    vs = list(m.graph.nodes)
    for st in itertools.product(*[m.factors[v].domain[v] for v in vs]):
        a = dict(zip(vs, st)); p = 1.0
        for v in vs:
            p *= m.factors[v].get_value(**{x: a[x] for x in m.factors[v].variables})
        out[frozenset(a.items())] = p
    return out
def posterior(m, target, ev):
    n = {}; z = 0
    for a, p in joint(m).items():
        a = dict(a)
        if any(a[k] != s for k, s in ev.items()): continue
        z += p
        k = tuple(a[t] for t in target); n[k] = n.get(k, 0) + p
    return {k: p / z for k, p in n.items()}
def scm(edges=(("V1","V2"),("V2","V3"),("U1","V1"),("U2","V2"),("U3","V3")), seed=1, cast=True):
    bc.randomUtil.seed(seed)
    m = StructuralCausalModel(nx.DiGraph(list(edges)), cast_multinomial=cast)
    m.fill_random_factors({v: ([0, 1] if v[0] == "V" else [0, 1, 2, 3]) for v in m.graph.nodes})
    return m
'''
def seed(id, prop, needs, breaks, edits, demo): return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo)
SEEDS = [
 seed("c17-barren-roots", "C17", "a query with evidence on a leaf that has three parents",
  "observed leaves with several parents are pruned as if they were barren",
  [(GU, "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and x not in S])",
        "new_barren = set([x for x in dag.nodes if len_iterable(dag.successors(x)) == 0 and (x not in S or len_iterable(dag.predecessors(x)) > 2)])")],
  '''
from bcause.inference.probabilistic.elimination import VariableElimination as VE
m = bnet([("A","D"),("B","D"),("C","D"),("A","B")], seed=2)
r = VE(m).query("A", evidence=dict(D="a"))
want = posterior(m, ["A"], dict(D="a"))
for s in ["a", "b"]: assert abs(r.get_value(A=s) - want[(s,)]) < 1e-9, (r, want)
'''),
 seed("c17-cond-evidence", "C17", "a conditional query on two conditioning variables together with evidence",
  "the evidence of a conditional query with several conditioning variables is dropped",
  [(PI, "        p = self.compile(set(target).union(set(conditioning)), evidence).run()",
        "        p = self.compile(set(target).union(set(conditioning)), evidence if len(conditioning) < 2 else None).run()")],
  '''
from bcause.inference.probabilistic.elimination import VariableElimination as VE
m = bnet([("A","C"),("B","C"),("C","D"),("A","D"),("B","D")], seed=3)
r = VE(m).query("C", conditioning=["A", "B"], evidence=dict(D="a"))
for a in "ab":
    for b in "ab":
        want = posterior(m, ["C"], dict(A=a, B=b, D="a"))
        for c in "ab": assert abs(r.R(A=a, B=b).get_value(C=c) - want[(c,)]) < 1e-9
'''),
 seed("c15-cf-evidence", "C15", "a counterfactual that intervenes on two variables and has evidence about one of them",
  "evidence about the intervened variable in the actual world is lost in counterfactual queries",
  [(CI, "        return self.query(target, do, evidence=evidence, counterfactual=True, targets_subgraphs=targets_subgraphs)",
        "        return self.query(target, do, evidence={v: s for v, s in (evidence or {}).items() if len(do) < 2 or v not in do}, counterfactual=True, targets_subgraphs=targets_subgraphs)")],
  '''
from bcause.inference.causal.elimination import CausalVariableElimination as CVE
for sd in range(5, 10):
    m = scm([("V1","V2"),("V2","V3"),("V1","V3"),("U1","V1"),("U2","V2"),("U2","V3")], seed=sd)
    # P(V3_{V1=0,V2=0} | V2=1, V3=1) straight from the tables
    num = {0: 0.0, 1: 0.0}
    for u1 in range(4):
        for u2 in range(4):
            pu = m.factors["U1"].get_value(U1=u1) * m.factors["U2"].get_value(U2=u2)
            for v1 in (0, 1):
                p = pu * m.factors["V1"].get_value(V1=v1, U1=u1) * m.factors["V2"].get_value(V2=1, V1=v1, U2=u2) * m.factors["V3"].get_value(V3=1, V2=1, V1=v1, U2=u2)
                for y in (0, 1): num[y] += p * m.factors["V3"].get_value(V3=y, V2=0, V1=0, U2=u2)
    r = CVE(m).counterfactual_query("V3", do=dict(V1=0, V2=0), evidence=dict(V2=1, V3=1))
    for y in (0, 1): assert abs(r.get_value(V3_1=y) - num[y] / sum(num.values())) < 1e-9, (r, num)
'''),
 seed("c15-worlds", "C15", "a counterfactual query over three hypothetical worlds",
  "with more than two hypothetical worlds the interventions of the later worlds are attached to the wrong copy",
  [(CI, '                    new_do[f"{k}_{i+1}"] = v', '                    new_do[f"{k}_{min(i, 1)+1}"] = v')],
  '''
from bcause.inference.causal.elimination import CausalVariableElimination as CVE
m = scm([("V1","V2"),("U1","V1"),("U2","V2")], seed=13)
r = CVE(m).counterfactual_query(["V2"]*3, do=[dict(V1=0), dict(V1=1), dict(V1=0)], targets_subgraphs=[1, 2, 3])
want = {}
for u2 in range(4):
    for st in itertools.product((0, 1), repeat=3):
        p = m.factors["U2"].get_value(U2=u2)
        for y, x in zip(st, (0, 1, 0)): p *= m.factors["V2"].get_value(V2=y, V1=x, U2=u2)
        want[st] = want.get(st, 0) + p
for st, p in want.items(): assert abs(r.get_value(V2_1=st[0], V2_2=st[1], V2_3=st[2]) - p) < 1e-9, (st, p, r)
'''),
 seed("c09-exo-intervention", "C09", "an intervention on an exogenous variable",
  "intervening on an exogenous variable leaves its distribution as it was",
  [(CM, "new_factors[v] = f if v not in obs else f.constant(obs[v])", "new_factors[v] = f if v not in obs or self.is_exogenous(v) else f.constant(obs[v])")],
  '''
m = scm(seed=3)
n = m.intervention(U2=1)
f = n.factors["U2"]
assert [f.get_value(U2=i) for i in range(4)] == [0, 1, 0, 0], f
'''),
 seed("c09-two-interventions", "C09", "intervening at once on two variables one of which is a parent of the other",
  "the arc between two variables that are both intervened on survives",
  [(GU, "involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars]", "involved_edges = [(x, y) for (x, y) in dag.edges if y in children_vars and x not in children_vars]")],
  '''
from bcause.util.graphutils import remove_ingoing_edges
g = nx.DiGraph([("A","B"),("B","C"),("C","D")])
assert set(remove_ingoing_edges(g, ["B","C"]).edges) == {("C","D")}
'''),
 seed("c09-blanket", "C09", "the Markov blanket of a variable whose child has another parent that is also a child",
  "spouses are left out of the Markov blanket of a variable that has no parents",
  [(GU, "return children | parents | pa_ch.difference({v})", "return children | parents | (pa_ch.difference({v}) if parents else set())")],
  '''
from bcause.util.graphutils import markov_blanket
g = nx.DiGraph([("A","C"),("B","C"),("C","D"),("E","D")])
assert set(markov_blanket(g, "A")) == {"B", "C"}, markov_blanket(g, "A")
assert set(markov_blanket(g, "C")) == {"A", "B", "D", "E"}
'''),
 seed("c08-sub-right", "C08", "subtracting a factor that is conditional on a variable the first factor does not have",
  "the difference of two factors puts the conditioning variables of the second one on the left",
  [(MUL, """        new_store = self.store.subtract(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v not in self.left_vars and v not in other.left_vars]
""", """        new_store = self.store.subtract(other.store)
        new_right_vars = [v for v in new_store.variables
                          if v in self.right_vars and v not in other.left_vars]
""")],
  '''
bc.randomUtil.seed(1)
dom = dict(A=["a1","a2"], B=["b1","b2"])
f = random_multinomial(dict(A=dom["A"])); g = random_multinomial(dom, right_vars=["B"])
h = f - g
assert set(h.left_vars) == {"A"} and set(h.right_vars) == {"B"}, (h.left_vars, h.right_vars)
'''),
 seed("c06-one-common", "C06", "a joint query whose targets share one variable with the evidence",
  "only queries all of whose targets are observed are rejected",
  [(PI, "        if not set(target).isdisjoint(evidence.keys()):\n            raise ValueError(f\"Target {target} and evidence are not",
        "        if len(target) > 0 and set(target).issubset(evidence.keys()):\n            raise ValueError(f\"Target {target} and evidence are not")],
  '''
from bcause.inference.probabilistic.elimination import VariableElimination as VE
m = bnet([("A","B"),("B","C")])
try: VE(m).compile(["A", "B"], dict(B="a"))
except ValueError: pass
else: raise AssertionError("accepted")
'''),
 seed("c06-domain-subset", "C06", "setting a factor whose states for a variable are a proper subset of those already known to the model",
  "a factor with fewer states for a variable than the rest of the model is accepted",
  [(PG, "if set(self._domains[v]) != set(f.domain[v]):", "if not set(f.domain[v]).issubset(self._domains[v]):")],
  '''
bc.randomUtil.seed(1)
m = BayesianNetwork(nx.DiGraph([("A","B")]))
m.set_factor("A", random_multinomial(dict(A=["a1","a2","a3"])))
try: m.set_factor("B", random_multinomial(dict(B=["b1","b2"], A=["a1","a2"]), right_vars=["A"]))
except ValueError: pass
else: raise AssertionError("accepted")
'''),
]
