SEEDS = [{'id': 'c01-counts-domain',
  'property': 'C01',
  'needs': 'counting data with a missing value',
  'breaks': 'to_counts extends the state lists of the domain dictionary it was given',
  'edits': [('bcause/util/datautils.py', 'domains[x] = domains[x] + ["nan"]', 'domains[x].append("nan")')],
  'demo': '\n'
          'import pandas as pd, numpy as np\n'
          'from bcause.util.datautils import to_counts\n'
          'dom = dict(A=["a1","a2"], B=["b1","b2"])\n'
          'try: to_counts(dom, pd.DataFrame(dict(A=["a1","a2",np.nan], B=["b1","b2","b1"])))\n'
          'except ZeroDivisionError: pass\n'
          'assert dom == dict(A=["a1","a2"], B=["b1","b2"]), dom\n'},
 {'id': 'c02-numpy-alias',
  'property': 'C02',
  'needs': "writing into a store built from a caller's array",
  'breaks': 'a numpy store shares its array with the caller (and with every store built from the same data)',
  'edits': [('bcause/factors/values/numpystore.py',
             'super(self.__class__, self).__init__(domain=domain, data=np.array(data))\n',
             'super(self.__class__, self).__init__(domain=domain, data=np.asarray(data))\n')],
  'demo': '\n'
          'import numpy as np\n'
          'from bcause.factors import MultinomialFactor\n'
          'a = np.array([[.1,.9],[.3,.7]])\n'
          'f = MultinomialFactor(dict(A=["a1","a2"],B=["b1","b2"]), a, right_vars=["A"], vtype="numpy")\n'
          'f.store.set_value(.5, dict(A="a1", B="b1"))\n'
          'assert a[0][0] == .1, a\n'},
 {'id': 'c03-stale-world',
  'property': 'C03',
  'needs': 'two causal queries on the same inference object that set different variables to the same value',
  'breaks': 'the intervened model of the first query is reused for the second',
  'edits': [('bcause/inference/causal/causal.py',
             '            new_model = self.model.intervention(**self._do)\n',
             '            key = str(list(self._do.values()))\n'
             '            if getattr(self, "_last_world", (None,))[0] != key:\n'
             '                self._last_world = (key, self.model.intervention(**self._do))\n'
             '            new_model = self._last_world[1]\n')],
  'demo': '\n'
          'import networkx as nx, numpy as np, pandas as pd\n'
          'import bcause as bc\n'
          'from bcause.factors import MultinomialFactor, DeterministicFactor\n'
          'from bcause.models.cmodel import StructuralCausalModel\n'
          'import bcause.util.domainutils as dutils\n'
          'def scm(cast=True, seed=1):\n'
          '    bc.randomUtil.seed(seed)\n'
          '    m = StructuralCausalModel(nx.DiGraph([("V1","V2"),("V2","V3"),("U1","V1"),("U2","V2"),("U3","V3")]), cast_multinomial=cast)\n'
          '    m.fill_random_factors(dict(V1=[0,1],V2=[0,1],V3=[0,1],U1=[0,1],U2=[0,1,2,3],U3=[0,1,2,3]))\n'
          '    return m\n'
          '\n'
          'from bcause.inference.causal.elimination import CausalVariableElimination as CVE\n'
          'm = scm(seed=3)\n'
          'q = lambda i, x: i.causal_query("V3", do={x: 1})\n'
          'inf = CVE(m); q(inf, "V2")\n'
          'a = q(inf, "V1"); b = q(CVE(m), "V1")\n'
          'assert a.domain == b.domain and np.allclose(a.values, b.values, equal_nan=True), (a, b)\n'},
 {'id': 'c04-em-once',
  'property': 'C04',
  'needs': 'asking an EMCC object a query, replacing the models, and compiling it again',
  'breaks': 'models learned by an earlier compilation are kept by a later one',
  'edits': [('bcause/inference/causal/multi.py',
             '        self._agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)\n'
             '        self._agg.run(num_models=self._num_runs)\n',
             '        if self._agg is None:\n'
             '            self._agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)\n'
             '        self._agg.run(num_models=self._num_runs)\n')],
  'demo': '\n'
          'import networkx as nx, numpy as np, pandas as pd\n'
          'import bcause as bc\n'
          'from bcause.factors import MultinomialFactor, DeterministicFactor\n'
          'from bcause.models.cmodel import StructuralCausalModel\n'
          'import bcause.util.domainutils as dutils\n'
          'def scm(cast=True, seed=1):\n'
          '    bc.randomUtil.seed(seed)\n'
          '    m = StructuralCausalModel(nx.DiGraph([("V1","V2"),("V2","V3"),("U1","V1"),("U2","V2"),("U3","V3")]), cast_multinomial=cast)\n'
          '    m.fill_random_factors(dict(V1=[0,1],V2=[0,1],V3=[0,1],U1=[0,1],U2=[0,1,2,3],U3=[0,1,2,3]))\n'
          '    return m\n'
          '\n'
          'from bcause.inference.causal.multi import GDCC\n'
          'm = scm(seed=5)\n'
          'data = m.sample(50)[m.endogenous]\n'
          'inf = GDCC(m, data, num_runs=2, max_iter=2)\n'
          'inf.compile(); inf.compile()\n'
          'assert len(inf.models) == 2, len(inf.models)\n'},
 {'id': 'c05-set-order',
  'property': 'C05',
  'needs': 'two runs of the interpreter with different hash seeds',
  'breaks': 'random factors are drawn in the iteration order of a set of names',
  'edits': [('bcause/models/cmodel.py',
             '        for x in variables:\n            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n            vtype',
             '        for x in set(variables).intersection(m.variables):\n'
             '            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n'
             '            vtype')],
  'demo': '\n'
          'import subprocess, sys, os\n'
          'code = """\n'
          'import networkx as nx, bcause as bc\n'
          'from bcause.models.cmodel import StructuralCausalModel\n'
          'bc.randomUtil.seed(1)\n'
          'm = StructuralCausalModel(nx.DiGraph([("U1","V1"),("U2","V2"),("U3","V3"),("V1","V2"),("V2","V3")]))\n'
          'm.fill_random_factors(dict(V1=[0,1],V2=[0,1],V3=[0,1],U1=[0,1],U2=[0,1,2,3],U3=[0,1,2,3]))\n'
          'r = m.randomize_factors(m.exogenous)\n'
          'print([r.factors[u].values for u in ("U1","U2","U3")])\n'
          '"""\n'
          'outs = {subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, '
          'check=True).stdout for h in range(6)}\n'
          'assert len(outs) == 1, outs\n'},
 {'id': 'c16-shared-prior',
  'property': 'C16',
  'needs': 'several models generated in parallel, so that the runs interleave',
  'breaks': 'every run draws its starting point inside the worker, from the shared generator',
  'edits': [('bcause/learning/parameter/gradient.py',
             '        if 1:\n            initial_params',
             '        if self._tol > 1e-5:\n'
             '            initial_params = np.random.dirichlet([1.0] * len(m.factors[U].values))\n'
             '        elif 1:\n'
             '            initial_params')],
  'demo': '\n'
          'import networkx as nx, numpy as np, pandas as pd\n'
          'import bcause as bc\n'
          'from bcause.factors import MultinomialFactor, DeterministicFactor\n'
          'from bcause.models.cmodel import StructuralCausalModel\n'
          'import bcause.util.domainutils as dutils\n'
          'def scm(cast=True, seed=1):\n'
          '    bc.randomUtil.seed(seed)\n'
          '    m = StructuralCausalModel(nx.DiGraph([("V1","V2"),("V2","V3"),("U1","V1"),("U2","V2"),("U3","V3")]), cast_multinomial=cast)\n'
          '    m.fill_random_factors(dict(V1=[0,1],V2=[0,1],V3=[0,1],U1=[0,1],U2=[0,1,2,3],U3=[0,1,2,3]))\n'
          '    return m\n'
          '\n'
          'from bcause.learning.aggregator.aggregator import SimpleModelAggregatorGD\n'
          'import bcause.learning.parameter.gradient as g, threading, time\n'
          'm = scm(seed=5); data = m.sample(60)[m.endogenous]\n'
          'class Draws:\n'
          '    def __init__(self): self.by = []\n'
          'rec = Draws()\n'
          'class R:\n'
          '    def __getattr__(self, k):\n'
          '        f = getattr(np.random, k)\n'
          '        def w(*a, **b):\n'
          '            rec.by.append(threading.current_thread() is threading.main_thread()); return f(*a, **b)\n'
          '        return w\n'
          'class NP:\n'
          '    random = R()\n'
          '    def __getattr__(self, k): return getattr(np, k)\n'
          'g.np = NP()\n'
          'agg = SimpleModelAggregatorGD(m, data, tol=1e-3, max_iter=2, parallel=True)\n'
          'agg.run(3)\n'
          'assert all(rec.by), "draws made by the workers"\n'},
 {'id': 'c19-random-det',
  'property': 'C19',
  'needs': 'random_deterministic called without parents',
  'breaks': 'random_deterministic fails unless the parents are given',
  'edits': [('bcause/factors/mulitnomial.py',
             '    right_vars = right_vars or []\n    data = np.zeros([len(d) for d in dom.values()])\n',
             '    data = np.zeros([len(d) for d in dom.values()])\n')],
  'demo': '\nfrom bcause.factors.mulitnomial import random_deterministic\nf = random_deterministic(dict(A=["a1","a2"]))\nassert sum(f.values) == 1\n'},
 {'id': 'c19-uniform',
  'property': 'C19',
  'needs': 'uniform_multinomial called without the list of parents',
  'breaks': 'uniform_multinomial fails unless the parents are given',
  'edits': [('bcause/factors/mulitnomial.py',
             '    right_vars = right_vars or []\n'
             '    left_dims = [i for i,v in enumerate(domain.keys()) if v not in right_vars]\n'
             '    data = normalize_array(np.ones(',
             '    left_dims = [i for i,v in enumerate(domain.keys()) if v not in right_vars]\n    data = normalize_array(np.ones(')],
  'demo': '\nfrom bcause.factors.mulitnomial import uniform_multinomial\nf = uniform_multinomial(dict(A=["a1","a2"]))\nassert list(f.values) == [.5, .5]\n'}]
