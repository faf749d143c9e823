From a1995f9e07179b389efcd86836bc3a8d2cf0e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 01/35] fix: learners must not add columns to the caller's data
 frame

---
 bcause/learning/parameter/expectation_maximization.py | 2 +-
 bcause/learning/parameter/gradient.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..55fec86 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -79,7 +79,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
-        for v in missing_vars: data[v] = float("nan")
+        data = data.assign(**{v: float("nan") for v in missing_vars})
 
         # Set as trainable variables those with missing
         self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..e3abb0c 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -151,7 +151,7 @@ class GradientLikelihood(IterativeParameterLearning):
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
-        for v in missing_vars: data[v] = float("nan")
+        data = data.assign(**{v: float("nan") for v in missing_vars})
 
         # Set as trainable variables those with missing
         self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
-- 
2.43.0


From c959fafebc1cf7bee5ec77af40772b6c05cfa849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 02/35] fix: building a deterministic factor must not re-type
 the caller's data frame

---
 bcause/factors/deterministic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..e2322e7 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -45,9 +45,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
 
-        for v in columns:
-            df[v] = pd.Categorical(df[v], domains[v])
-
+        df = df.assign(**{v: pd.Categorical(df[v], domains[v]) for v in columns})
         df = df.sort_values(by=columns)
 
         domf = dutils.subdomain(domains, *columns)
-- 
2.43.0


From c5617520284a9f6cd25670063dd43948ff0c6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 03/35] fix: adding models to a multi-model inference must not
 extend the caller's list

---
 bcause/inference/causal/multi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..fa4b52a 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -28,12 +28,11 @@ class CausalMultiInference(CausalInference):
         return self._models
 
     def set_models(self, models: list[StructuralCausalModel]):
-        self._models = models or []
+        self._models = list(models or [])
         self._compiled = False
 
     def add_models(self, models: list[StructuralCausalModel]):
-        models = models or []
-        self._models += models
+        self._models = self._models + list(models or [])
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-- 
2.43.0


From 643f67f6942fd220769abdd45329d4a154abbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 04/35] fix: elimination heuristics must not empty the caller's
 list of variables

---
 bcause/inference/ordering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 04a6999..537a466 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -38,6 +38,7 @@ def _get_elim_ordering(dag, varsizes=None, to_remove=None, heuristic=Heuristic.M
             moral.nodes[v]["size"] = varsizes[v]
 
     ordering = []
+    to_remove = list(to_remove)
 
     while len(to_remove)>0:
         # compute costs
-- 
2.43.0


From cb60a162ff7c5a4a08378250dae20b2701ba7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 05/35] fix: elimination heuristics ignored their random_state
 argument

---
 bcause/inference/ordering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 537a466..e7fb17a 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -59,15 +59,15 @@ def _get_elim_ordering(dag, varsizes=None, to_remove=None, heuristic=Heuristic.M
     return ordering
 
 def min_fill_heuristic(dag:nx.DiGraph, to_remove, random_state = 0, **kwargs) -> list:
-    return _get_elim_ordering(dag, varsizes=None, to_remove=to_remove, heuristic=Heuristic.MIN_FILL, random_state=0)
+    return _get_elim_ordering(dag, varsizes=None, to_remove=to_remove, heuristic=Heuristic.MIN_FILL, random_state=random_state)
 
 def min_size_heuristic(dag:nx.DiGraph, to_remove, random_state = 0, **kwargs) -> list:
-    return _get_elim_ordering(dag, varsizes=None, to_remove=to_remove, heuristic=Heuristic.MIN_SIZE, random_state=0)
+    return _get_elim_ordering(dag, varsizes=None, to_remove=to_remove, heuristic=Heuristic.MIN_SIZE, random_state=random_state)
 
 def min_weight_heuristic(dag:nx.DiGraph, to_remove, random_state = 0, varsizes = None) -> list:
     if varsizes is None:
         raise ValueError("Size of Variables must be provided")
-    return _get_elim_ordering(dag, varsizes, to_remove=to_remove, heuristic=Heuristic.MIN_WEIGHT, random_state=0)
+    return _get_elim_ordering(dag, varsizes, to_remove=to_remove, heuristic=Heuristic.MIN_WEIGHT, random_state=random_state)
 
 
 heuristic_functions = {
-- 
2.43.0


From 3622d327d89f059fde269d2ce48fe70a687e9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 06/35] fix: writing into a store must not change the data it
 was built or restricted from

---
 bcause/factors/values/numpystore.py    | 2 +-
 bcause/factors/values/treedictstore.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index bf66303..3d1dbd9 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -63,7 +63,7 @@ class Numpy1DStore(DiscreteStore):
         self.builder = builder
         #self.set_operationSet(ListStoreOperations)
         self.set_operationSet(GenericOperations)
-        super(self.__class__, self).__init__(domain=domain, data=np.ravel(data))
+        super(self.__class__, self).__init__(domain=domain, data=np.array(data).ravel())
 
     @staticmethod
     def _check_consistency(data, domain):
diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..048870f 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -52,8 +52,9 @@ class TreeDictStore(DiscreteStore):
             else:
                 other_obs = {v: s for v, s in observation.items() if v != data["var"]}
                 ch = data["children"][observation[data["var"]]]
-                data["children"][observation[data["var"]]] = modify_dict(ch, other_obs, value)
-                out = data
+                new_ch = dict(data["children"])
+                new_ch[observation[data["var"]]] = modify_dict(ch, other_obs, value)
+                out = treeNode(data["var"], new_ch)
             return out
 
         relevant_obs = {v: s for v, s in observation.items() if v in self.domain}
-- 
2.43.0


From 92e99054e0c8cfb711bdefd0b38ca67da339d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 07/35] fix: running a learner again must not reuse the
 trainable variables, convergence and history of the previous run

---
 bcause/learning/parameter/expectation_maximization.py | 5 ++++-
 bcause/learning/parameter/gradient.py                 | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 55fec86..665baf0 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -23,6 +23,8 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
+        self._converged_vars = set()
         self._process_data(data)
 
     def _calculate_updated_factors(self):
@@ -44,6 +46,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                  inference_method=VariableElimination):
         self._prior_model = prior_model
         self._trainable_vars = trainable_vars
+        self._requested_vars = trainable_vars
         self._inference_method = inference_method
         self._converged_vars = set()
 
@@ -82,7 +85,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         data = data.assign(**{v: float("nan") for v in missing_vars})
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
+        self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()])
 
         self._datadeps = DataDepAnalysis(self.model.graph, data)
         self._variables = list(data.columns)
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index e3abb0c..99c1849 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -39,11 +39,13 @@ class GradientLikelihood(IterativeParameterLearning):
     def __init__(self, prior_model: StructuralCausalModel, trainable_vars: list = None, tol : float = 1e-8):
         self._prior_model = prior_model
         self._trainable_vars = trainable_vars
+        self._requested_vars = trainable_vars
         self._tol = tol
 
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
@@ -154,7 +156,7 @@ class GradientLikelihood(IterativeParameterLearning):
         data = data.assign(**{v: float("nan") for v in missing_vars})
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
+        self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()]) 
                                                                                             
 
         for v in self._trainable_vars:
-- 
2.43.0


From e969a50955c9b79737456a0df715d4c0c5ab4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 08/35] fix: parallel generation of models must draw and
 collect them in the same order as the sequential one

---
 bcause/learning/aggregator/aggregator.py | 28 +++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 032051d..26f0ed0 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -49,16 +49,24 @@ class ModelAggregator(ABC):
 
     def generate(self, num_models : int):
         if num_models<1: raise ValueError(f"Wrong number of models: {num_models}")
+        # The random initial points are drawn here, so that a parallel run gives the same models as a sequential one
+        optimizers = [self._build_optimizer() for _ in range(num_models)]
         if not self._parallel:
-            self._generated_models += [self._single_generate(i) for i in range(num_models)]
+            optimizers = [self._single_generate(o) for o in optimizers]
         else:
             from joblib import Parallel, delayed
-            self._generated_models +=  Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+            optimizers = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(o) for o in optimizers)
+        self._learn_objects += optimizers
+        self._generated_models += [o.model for o in optimizers]
 
     @abstractmethod
-    def _single_generate(self, i):
+    def _build_optimizer(self):
         pass
 
+    def _single_generate(self, optimizer):
+        optimizer.run(self._data, max_iter=self._max_iter)
+        return optimizer
+
     @abstractmethod
     def merge(self):
         pass
@@ -73,11 +81,8 @@ class SimpleModelAggregator(ModelAggregator):
         self._final_models = self._generated_models
 
 class ModelAggregatorEM(ModelAggregator):
-    def _single_generate(self, i):
-        optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
-        optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+    def _build_optimizer(self):
+        return ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
 
 class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
@@ -90,11 +95,8 @@ class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
 
 class ModelAggregatorGD(ModelAggregator):
-    def _single_generate(self, i):
-        optimizer = GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
-        optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+    def _build_optimizer(self):
+        return GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
 
 
 class SimpleModelAggregatorGD(SimpleModelAggregator, ModelAggregatorGD):
-- 
2.43.0


From 599266a14cf4b3e0219f0324ad686166b327e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 09/35] fix: generating more models must not extend the list of
 an earlier merge

---
 bcause/learning/aggregator/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 26f0ed0..ae8b798 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -78,7 +78,7 @@ class ModelAggregator(ABC):
 
 class SimpleModelAggregator(ModelAggregator):
     def merge(self):
-        self._final_models = self._generated_models
+        self._final_models = list(self._generated_models)
 
 class ModelAggregatorEM(ModelAggregator):
     def _build_optimizer(self):
-- 
2.43.0


From 96a3c3a630b56643551b231a929a40617f6467f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 10/35] fix: conversions, randomisation and learning must keep
 the value store of the factors they start from

---
 bcause/factors/imprecise.py                           | 2 +-
 bcause/factors/mulitnomial.py                         | 2 +-
 bcause/learning/parameter/expectation_maximization.py | 2 +-
 bcause/learning/parameter/gradient.py                 | 2 +-
 bcause/models/cmodel.py                               | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..6c71b57 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -61,7 +61,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars)
+        return IntervalProbFactor(dom, values.min(axis=1), values.max(axis=1), left_vars=left_vars, vtype=list_factors[0].vtype)
 
     @property
     def store_low(self):
diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..862621a 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -47,7 +47,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         v = self.left_vars[0]
         values = self.values_array().argmax(axis=self.variables.index(v))
         from bcause.factors import DeterministicFactor
-        return DeterministicFactor(self.domain, left_vars=[v], values=values)
+        return DeterministicFactor(self.domain, left_vars=[v], values=values, vtype=self.vtype)
 
     def constant(self, left_value):
 
diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 665baf0..4cb0379 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -36,7 +36,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
             from bcause.util import domainutils as dutils
             pa = self.prior_model.get_parents(v)
             dom = dutils.subdomain(self.prior_model.domains, *([v] + pa))
-            return MultinomialFactor(dom, values=0)
+            return MultinomialFactor(dom, values=0, vtype=self.prior_model.factors[v].vtype)
 
         return {v: get_pcounts(v) for v in self.trainable_vars}
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 99c1849..27e15ba 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -79,7 +79,7 @@ class GradientLikelihood(IterativeParameterLearning):
         N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)
 
         results = self.fitPMF(initial_params, N_bmVbmY, P_bmVbmYu, **kwargs)
-        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'])
+        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'], vtype=m.factors[U].vtype)
         updated_factor.trajectory = results['trajectory'] # the trajectory of the iterations in the optimization process
 
         return updated_factor
diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..e1ddb57 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -210,7 +210,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         m = self if in_place else self.copy()
         for x in variables:
             dom = dutils.var_parents_domain(m.domains, m.graph, x)
-            f = random_multinomial(dom, [v for v in dom.keys() if x != v], allow_zero=allow_zero)
+            vtype = m.factors[x].vtype if m.factors[x] is not None else None
+            f = random_multinomial(dom, [v for v in dom.keys() if x != v], vtype=vtype, allow_zero=allow_zero)
             m.set_factor(x, f)
         return m
 
-- 
2.43.0


From ed2f8f812f1871aa0e831251f95c78c912f33dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 11/35] fix: the gradient learner looked a variable up by
 substring of its name

---
 bcause/learning/parameter/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 27e15ba..343ffc9 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -79,7 +79,7 @@ class GradientLikelihood(IterativeParameterLearning):
         N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)
 
         results = self.fitPMF(initial_params, N_bmVbmY, P_bmVbmYu, **kwargs)
-        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'], vtype=m.factors[U].vtype)
+        updated_factor = MultinomialFactor(m.get_domains([U]), values=results['params'], vtype=m.factors[U].vtype)
         updated_factor.trajectory = results['trajectory'] # the trajectory of the iterations in the optimization process
 
         return updated_factor
@@ -125,7 +125,7 @@ class GradientLikelihood(IterativeParameterLearning):
     def _compute_P(self, bmv: Dict, bmy: Dict, m: Any, U: str, bmV: List[str], bmY: List[str]) -> Dict:
         # compute \prod_{V \in \bmV} P(v|Pa(V))
         P = {}
-        for u in m.get_domains(U)[U]:
+        for u in m.get_domains([U])[U]:
             prod_P_v_pav = 1 # As the product of P(v|Pa(V)) \in {0, 1}, so we initiate the value to 1.
                              # If we find any P(v|Pa(V)) = 0, we stop the computation as it must be that \prod_{V \in \bmV} P(v|Pa(V)) = 0   
             for V in bmV:
-- 
2.43.0


From 1be6d84e251bddd7ba6cc231a3b9d861606884a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 12/35] fix: casting a causal model to multinomial factors must
 keep its endogenous variables

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index e1ddb57..1698ce4 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From 6f985335bd89814cb791421dcf9134e418f70547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 13/35] fix: renaming some of the variables of a causal model
 must keep the names of the others

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 1698ce4..cd41d5e 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -201,7 +201,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From f0d4c9e2e7396b85cfcfbea4e3fa4a1d784ba337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 14/35] fix: a causal model could not be built from the string
 notation of its graph

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index cd41d5e..f981103 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -148,7 +148,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From 91b7a496aa0fab1e4fa963a54d20228e412b2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 15/35] fix: extracting a submodel always failed

---
 bcause/models/pgmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..747469a 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -180,7 +180,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From 798cd4464fffa9ced585e856e780be9c1f2d5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 16/35] fix: the string notation of a graph dropped isolated
 nodes

---
 bcause/util/graphutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..a40fefd 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -21,14 +21,18 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 def str2dag(str_dag: str) -> nx.DiGraph:
     arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    nodes = []
     for s in str_dag[1:-1].split("]["):
         if "|" in s:
             x, right_vars = s.split("|")
             for y in right_vars.split(":"):
                 arcs.append((y, x))
+        else:
+            nodes.append(s)
 
-    return nx.DiGraph(arcs)
+    dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(nodes)
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From fc96f28b0c8cb90bc5e65f042d9ce1a2c8fcc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 17/35] fix: compiling a probabilistic query without evidence
 always failed

---
 bcause/inference/probabilistic/datainference.py | 3 ++-
 bcause/inference/probabilistic/probabilistic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..b17f48b 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -19,12 +19,13 @@ class LaplaceInference(ProbabilisticInference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
 
         self._inference_model = self._preprocess()
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..8a379e6 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -18,12 +18,13 @@ class ProbabilisticInference(Inference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
         assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
 
-- 
2.43.0


From be11c79b11429c20776aec7cc3e68b5234c1d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 18/35] fix: canonical and random deterministic factors failed
 without right-hand variables

---
 bcause/factors/deterministic.py | 1 +
 bcause/factors/mulitnomial.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index e2322e7..a8f616b 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -129,6 +129,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_endo_vars = right_endo_vars or []
 
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 862621a..b9d83b7 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -235,6 +235,7 @@ def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):
 
 def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_vars = right_vars or []
     data = np.zeros([len(d) for d in dom.values()])
     for idx in [list(s.values()) for s in random_assignment(to_numeric_domains(dom), right_vars)]:
         set_value(1., data, idx)
-- 
2.43.0


From c7ed641e58930e61a1c52b23bbd98ea1ef62e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 19/35] fix: probabilities in scientific notation were split
 when reading UAI files

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..badd502 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..b3557ab 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
-- 
2.43.0


From e7e8e5084de984f9e01132b38382f917776fd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 20/35] fix: UAI readers accepted any part of the expected
 header label

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index badd502..518023e 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -41,7 +41,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     # Check the label
     with open(filepath) as f:
         l = f.readline().replace(" ", "").replace("\n", "")
-        if l not in label:
+        if l != label:
             raise ValueError(f"Wrong label in uai file: {l}")
             # Generator with the numbers in the file
 
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index b3557ab..401c467 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -29,7 +29,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     # Check the label
     with open(filepath) as f:
         l = f.readline().replace(" ", "").replace("\n", "")
-        if l not in label:
+        if l != label:
             raise ValueError(f"Wrong label in uai file: {l}")
             # Generator with the numbers in the file
 
-- 
2.43.0


From 669995ab17fc9f93a52aaf80daba93d42e0a155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 21/35] fix: reading a model dropped the variables without
 parents and children

---
 bcause/conversion/pgmpy.py  | 1 +
 bcause/readwrite/bnread.py  | 4 +++-
 bcause/readwrite/scmread.py | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..d59dd75 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -51,6 +51,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index 518023e..95f7e1f 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -72,7 +72,9 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
 
         assert varnames[int(next(numbers))] == v
 
-    dag = nx.DiGraph(arcs)
+    dag = nx.DiGraph()
+    dag.add_nodes_from(varnames)
+    dag.add_edges_from(arcs)
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 401c467..5f4f828 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -60,7 +60,9 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
 
         assert varnames[int(next(numbers))] == v
 
-    dag = nx.DiGraph(arcs)
+    dag = nx.DiGraph()
+    dag.add_nodes_from(varnames)
+    dag.add_edges_from(arcs)
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From 7c2fddfc49e91c09923651971b12465661281855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 22/35] fix: merging models failed when one of them has an
 isolated node of its own

---
 bcause/models/transform/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..491dee2 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -14,9 +14,9 @@ def fusion_roots(models, on, **builder_kargs):
         raise ValueError("All models when fusion must all of the same type")
 
     new_dag = nx.DiGraph()
-    for v in models[0].variables: new_dag.add_node(v)
     new_factors = models[0].get_factors(*on)
     for m in models:
+        new_dag.add_nodes_from(m.variables)
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
-- 
2.43.0


From 9d5bf487f3fb9188f88c928c959208dcbb298c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 23/35] fix: merging models checked each common node in one of
 the models only

---
 bcause/models/transform/combination.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 491dee2..373a5d9 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -1,13 +1,10 @@
-from itertools import starmap
-
 import networkx as nx
 
 
 def fusion_roots(models, on, **builder_kargs):
     is_root = lambda x ,m : len(list(m.graph.predecessors(x))) ==0
 
-    #todo: review this
-    if not all(starmap(is_root, zip(on ,models))):
+    if not all(is_root(x, m) for x in on for m in models):
         raise ValueError("Common nodes when fusion must all be root")
 
     if len(set([type(m) for m in models]))!=1:
-- 
2.43.0


From 727365d7e57a406bfbcbc454c5b18a65362bf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 24/35] fix: exporting a factor misplaced its values unless the
 left variable was the last one and of the size of the first one

---
 bcause/conversion/pgmpy.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index d59dd75..48312d6 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -25,22 +25,16 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
-
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    parents = f.right_vars
+    values = f.values_array([v] + parents).reshape(card[v], -1)
 
     args = dict(
         variable = v,
         variable_card = card[v],
-        values = values.T,
+        values = values,
         state_names = f.domain
     )
 
-    parents = f.right_vars
     if len(parents)>0:
         args["evidence"] = parents
         args["evidence_card"] = [card[p] for p in parents]
-- 
2.43.0


From 2c33d5d54edfac5568da0317b5d57cb56e4eee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 25/35] fix: restricting a numpy store to several states
 mislabelled them unless given in domain order

---
 bcause/factors/values/numpyops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..46bb709 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -112,9 +112,9 @@ class NumpyStoreOperations(OperationSet):
                     idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
                     items.append(idx)
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
+                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in new_dom[v]]
+                    items.append(idx)
             else:
                 items.append(slice(None))
                 new_dom[v] = store.domain[v]
-- 
2.43.0


From fc761325c0df140afbd02036e45fc1de7a9e035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 26/35] fix: combining numpy stores whose common variables list
 their states in another order mixed the states up

---
 bcause/factors/values/numpyops.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 46bb709..fc9685e 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -35,6 +35,9 @@ class NumpyStoreOperations(OperationSet):
 
         new_domain = OrderedDict({**op1.domain, **op2.domain})
 
+        # Set the same order of the states in the common variables
+        op1 = NumpyStoreOperations._reorder_states(op1, new_domain)
+
         # Extend domains if needed
         if len(op1.variables) < len(new_domain):
             op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
@@ -69,6 +72,16 @@ class NumpyStoreOperations(OperationSet):
         # create new object
         return store.builder(data = new_data, domain = new_dom)
 
+    @staticmethod
+    def _reorder_states(store, new_domain) -> 'NumpyStore':
+        new_data = store.data
+        for i, v in enumerate(store.variables):
+            if store.domain[v] != new_domain[v]:
+                new_data = np.take(new_data, [store.domain[v].index(s) for s in new_domain[v]], axis=i)
+        if new_data is store.data:
+            return store
+        return store.builder(data=new_data, domain=OrderedDict([(v, new_domain[v]) for v in store.variables]))
+
     @staticmethod
     def _extend_domain(store, **extra_dom) -> 'NumpyStore':
 
-- 
2.43.0


From 2aa7f896ea09737795da01b482d6bead8179b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 27/35] fix: 0/0 is 0 in every value store, as in the numpy one

---
 bcause/factors/values/listops.py     | 2 +-
 bcause/factors/values/operations.py  | 3 ++-
 bcause/factors/values/treedictops.py | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/listops.py b/bcause/factors/values/listops.py
index e6e4c3a..ef48316 100644
--- a/bcause/factors/values/listops.py
+++ b/bcause/factors/values/listops.py
@@ -63,7 +63,7 @@ class  ListStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'ListStore', other: 'ListStore') -> 'ListStore':
-        return  ListStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return  ListStoreOperations._generic_combine(store, other, lambda x, y: np.nan_to_num(np.divide(x, y)))
 
     @staticmethod
     def restrict(store : 'ListStore', observation:dict) -> 'ListStore':
diff --git a/bcause/factors/values/operations.py b/bcause/factors/values/operations.py
index 3f5dff1..73aea39 100644
--- a/bcause/factors/values/operations.py
+++ b/bcause/factors/values/operations.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
+import numpy as np
 
 import bcause.util.domainutils as dutil
 
@@ -93,7 +94,7 @@ class GenericOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'DataStore', other: 'DataStore') -> 'DataStore':
-        return GenericOperations._generic_combine(store, other, lambda x, y: x / y)
+        return GenericOperations._generic_combine(store, other, lambda x, y: np.nan_to_num(np.divide(x, y)))
 
     @staticmethod
     def restrict(store : 'DataStore', observarion:dict) -> 'DataStore':
diff --git a/bcause/factors/values/treedictops.py b/bcause/factors/values/treedictops.py
index f446bab..699d48e 100644
--- a/bcause/factors/values/treedictops.py
+++ b/bcause/factors/values/treedictops.py
@@ -4,6 +4,8 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
+import numpy as np
+
 from bcause.factors.values.operations import OperationSet
 from bcause.util.treesutil import build_default_tree, treeNode
 
@@ -102,7 +104,7 @@ class TreeDictStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'TreeDictStore', other: 'TreeDictStore') -> 'TreeDictStore':
-        return TreeDictStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return TreeDictStoreOperations._generic_combine(store, other, lambda x, y: np.nan_to_num(np.divide(x, y)))
 
 
     @staticmethod
-- 
2.43.0


From 008550d02294afa50346d1940f08240af11c8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 28/35] fix: renaming the variables of an interval factor
 always failed

---
 bcause/factors/imprecise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 6c71b57..c38d903 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -89,6 +89,12 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return OrderedDict({v:s for v,s in self.store.domain.items() if not v.startswith("_")})
 
 
+    def rename_vars(self, names_mapping) -> IntervalProbFactor:
+        rename = lambda v: names_mapping[v] if v in names_mapping else v
+        return self.builder(domain=OrderedDict([(rename(v), d) for v, d in self.domain.items()]),
+                            values_low=self.store_low.values_list, values_up=self.store_up.values_list,
+                            left_vars=[rename(v) for v in self.left_vars])
+
     # Factor operations
     def restrict(self, **observation) -> IntervalProbFactor:
         if len(set(observation.keys()).intersection(self._variables)) == 0: return self
-- 
2.43.0


From 2bca220352207c100b1fce0291d3895b44e352af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:36 +0000
Subject: [PATCH 29/35] fix: restricting an interval factor failed with tree
 stores

---
 bcause/factors/imprecise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index c38d903..dc4f1d5 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -101,8 +101,8 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         new_store = self.store.restrict(**observation)
         new_left_vars = [v for v in new_store.variables if v in self.left_vars]
         new_dom = {v:k for v,k in new_store.domain.items() if not v.startswith("_")}
-        values_low = new_store.restrict(_bound="low").data
-        values_up = new_store.restrict(_bound="up").data
+        values_low = new_store.restrict(_bound="low").values_list
+        values_up = new_store.restrict(_bound="up").values_list
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
     def _prepare_operand(self, f):
-- 
2.43.0


From 07ab21f0dc63b74697ef223903e125310979a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 30/35] fix: a number on the left of a factor in an arithmetic
 expression was always an error

---
 bcause/factors/mulitnomial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index b9d83b7..a1f2d9a 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -169,25 +169,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From ad057f0eafffa8e305e2e0d41fdf2ab123029f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:23 +0000
Subject: [PATCH 31/35] fix: a submodel listed as endogenous the variables it
 had dropped

---
 bcause/models/cmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index f981103..9e3ec73 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -157,7 +157,9 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs:
+            dag = gutils.str2dag(kwargs["dag"]) if isinstance(kwargs["dag"], str) else kwargs["dag"]
+            kwargs["endogenous"] = [v for v in self.endogenous if v in dag]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
-- 
2.43.0


From a4986f9201e1caee9529b555c511f625c718063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 32/35] fix: expected counts ignored which states the observed
 variables of a family have

---
 bcause/learning/parameter/expectation_maximization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 4cb0379..3ed1139 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -8,6 +8,7 @@ from bcause.inference.probabilistic.elimination import VariableElimination
 from bcause.learning.parameter import IterativeParameterLearning
 from bcause.models.cmodel import StructuralCausalModel
 from bcause.models.pgmodel import DiscreteDAGModel
+from bcause.util import domainutils as dutils
 from bcause.util.datadeps import DataDepAnalysis
 
 
@@ -56,6 +57,10 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
 
 
+    def _get_indicator(self, obs, vtype):
+        dom = dutils.subdomain(self.prior_model.domains, *obs)
+        return MultinomialFactor(dom, values=[float(s == obs) for s in dutils.assingment_space(dom)], vtype=vtype)
+
     def _expectation(self, **kwargs):
         #print("===")
         self._inf = self._inference_method(self._model)
@@ -67,7 +72,10 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 hidden = [x for x in relevant if x not in obs]
 
                 #print(f"{hidden} | {obs}")
-                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
+                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if hidden else c
+                # The observed variables of the family are counted in their observed states only
+                observed = {x: obs[x] for x in relevant if x in obs}
+                if observed: exp_counts = self._get_indicator(observed, pcounts[v].vtype) * exp_counts
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
-- 
2.43.0


From 03f0e508cb88e6e1ff69426a04d2a8c73c3fb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 33/35] fix: records with different missing variables were
 counted several times

---
 bcause/learning/parameter/expectation_maximization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 3ed1139..bb41a63 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -52,8 +52,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._converged_vars = set()
 
     def _get_obs_counts(self, target):
-        obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
+        return [(obs, int(sum(reduce( lambda x,y : x&y, [data[v] == s for v,s in obs.items()], data.index == data.index))))
+                for deps, data in self._datadeps for obs in deps.get_minimal_obs_blanket(target)]
 
 
 
@@ -95,7 +95,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         # Set as trainable variables those with missing
         self._trainable_vars = self._requested_vars or list(data.columns[data.isna().any()])
 
-        self._datadeps = DataDepAnalysis(self.model.graph, data)
+        # records with different missing variables are counted apart
+        self._datadeps = [(DataDepAnalysis(self.model.graph, d), d) for _, d in data.groupby([data[v].isna() for v in data.columns])]
         self._variables = list(data.columns)
         self._data = data
 
-- 
2.43.0


From 7f248297ec76006b8337b3aaa675bcd84ae372ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 34/35] fix: keep the graph of the q-decomposition acyclic when
 two c-components point into each other

---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From ac168162be3d1c87a6c9e0e668b013c4d5411eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 35/35] fix: conditional sampling matched an observation with
 its factor by the order of its keys

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index a1f2d9a..ebfa0d1 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -147,7 +147,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[k] for k in df_obs.keys())]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0

