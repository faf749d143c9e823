"""Files the variations touch."""
MUL, DET, IMP, FAC = "bcause/factors/mulitnomial.py", "bcause/factors/deterministic.py", "bcause/factors/imprecise.py", "bcause/factors/factor.py"
NPO, OPS, STO, LST, NPS, TDO = ("bcause/factors/values/" + x for x in ("numpyops.py", "operations.py", "store.py", "listops.py", "numpystore.py", "treedictops.py"))
CM, PG, BN, SIMP, COMB = "bcause/models/cmodel.py", "bcause/models/pgmodel.py", "bcause/models/bnet.py", "bcause/models/transform/simplification.py", "bcause/models/transform/combination.py"
GU, DU, AU = "bcause/util/graphutils.py", "bcause/util/domainutils.py", "bcause/util/arrayutils.py"
CI, MI, VE, PI, LI, ORD = ("bcause/inference/" + x for x in ("causal/causal.py", "causal/multi.py", "probabilistic/elimination.py", "probabilistic/probabilistic.py", "probabilistic/datainference.py", "ordering.py"))
PAR, EM, GD, AGG = "bcause/learning/parameter/parameter.py", "bcause/learning/parameter/expectation_maximization.py", "bcause/learning/parameter/gradient.py", "bcause/learning/aggregator/aggregator.py"
