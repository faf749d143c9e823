HEAP = "interprocedural heap / effect / dependence analysis (abstract interpretation of the syntax tree)"
HEAPNOTE = """Every public operation is analysed for every receiver class, with all calls into the repository inlined into a context-sensitive
points-to and effect summary. Trusted: the effect model of numpy, pandas, networkx, pgmpy and the standard library in libmodel.py;
an operation on a value of unknown type is assumed not to write. """

prop("C01", "No operation modifies the objects it is given",
 """Apart from the operations whose documented purpose is to change the object they are called on, no public operation modifies
 any object the caller passes in (data frames, lists, dictionaries, graphs, domains, models, factors), nor the factor or model it is called on.
 Inference engines, learners and model generators likewise leave the model, data and lists they were built with unchanged, whatever is called on them later.""",
 ["inputs", "histories"], "for every public operation, every receiver class and value store, every argument and every path through the code it reaches",
 """Tests check results, hardly ever the state of the arguments afterwards, and an in-place change is only visible to a caller who goes on using the argument; it must hold on
 every path, including options (heuristics, evidence, parallel runs) no test reads back.""",
 ["bcause/factors", "bcause/models", "bcause/inference", "bcause/learning", "bcause/util"],
 [("factor operations build new factors", "bcause/factors/mulitnomial.py"), ("model operations copy graph and factor dictionaries", "bcause/models/pgmodel.py, bcause/models/cmodel.py, bcause/models/transform"),
  ("learners work on a copy of the prior model and of the data", "bcause/learning/parameter"), ("elimination heuristics work on a copy of the graph and variable list", "bcause/inference/elimination, bcause/inference/ordering.py")],
 HEAP, HEAPNOTE)

prop("C02", "Objects own their mutable state",
 """An object built from, or derived from, other objects shares no modifiable container with them or with other objects: changing it through any of its
 own operations (writing values, adding models, setting factors, running it again) never shows in the data, store, list, graph or model it came from, nor the other way round; nor are two attributes of one object the same container, which a later operation changes through one of them.""",
 ["inputs", "histories"], "for every constructor, copy, derivation and setter, every value store, and every later mutating operation",
 """Sharing is invisible until one of the two objects is changed; it takes a two step history per pair of operations, which the tests do not run.""",
 ["bcause/factors/values", "bcause/factors", "bcause/models", "bcause/inference", "bcause/learning"],
 [("stores copy the data given to them", "bcause/factors/values/*.py"), ("models copy domains and factor dictionaries", "bcause/models/*.py"), ("lists of models are copied", "bcause/inference/causal/multi.py, bcause/learning/aggregator.py")],
 HEAP, HEAPNOTE + "Only fields whose container some public operation of the class writes in place are considered.")

prop("C03", "Query results do not depend on earlier queries",
 """Asking an inference object a query gives the answer a freshly built object would give: no query leaves behind state that influences a later query,
 other than one-time preparation that does not depend on any argument of the query.""",
 ["histories", "inputs"], "for every inference class, every kind of query and every sequence of earlier queries with whatever arguments",
 """The tests build one object per query or ask one sequence; a leftover of an earlier query (target, evidence, intervention, cached result, module-level state) shows only in specific sequences.""",
 ["bcause/inference"],
 [("query compiles the model for the given target and evidence before running", "bcause/inference/inference.py"), ("causal queries build a new inference over the modified model", "bcause/inference/causal/causal.py, elimination.py"),
  ("multi-model inference compiles once", "bcause/inference/causal/multi.py")],
 HEAP, HEAPNOTE + "Decided as: attributes carried over between calls and written, with the argument dependence of what is written into them and their elements.")

prop("C04", "Nothing stale survives a re-run or a change of models",
 """Running a learner again, on other data or with other settings, behaves as if it had just been built: nothing of an earlier run takes part.
 Whatever an object prepares lazily is prepared again after an operation that changes what it was prepared from.""",
 ["histories"], "for every learner and every sequence of runs; for every object with lazily prepared state and every operation that changes its sources",
 """No test runs a learner twice or changes the models of an inference object after querying it.""",
 ["bcause/learning", "bcause/inference/causal/multi.py", "bcause/factors", "bcause/models"],
 [("learner initialisation resets trainable variables, convergence and history", "bcause/learning/parameter/*.py"), ("changing the models drops the compiled state", "bcause/inference/causal/multi.py")],
 HEAP, HEAPNOTE)

prop("C05", "All randomness is governed by the seed",
 """After seeding through the library, everything it draws (samples, random graphs, factors, equations, domains, initial parameters, orderings) is determined by the seed: all draws come from the
 seeded generators, no operation reseeds or rewinds them or uses an entropy source or generator of its own, and draws never follow the iteration order of a set.
 An operation that takes a random state makes its draws depend on it.""",
 ["inputs", "histories", "configurations"], "for every public operation, on every path that reaches a random draw, under every hash seed",
 """Tests compare a few seeded runs within one process and one hash seed; an unseeded source or hash-order dependent draw shows only across processes or in operations they do not repeat.""",
 ["bcause/util/randomUtil.py", "bcause/util/graphutils.py", "bcause/util/domainutils.py", "bcause/factors", "bcause/models", "bcause/learning", "bcause/inference"],
 [("seed sets both process-wide generators", "bcause/util/randomUtil.py"), ("random state argument of heuristics", "bcause/inference/ordering.py")],
 HEAP, HEAPNOTE + "Draw order: every loop or comprehension enclosing a draw is checked for iterating a set.")

prop("C16", "Parallel generation of models gives what the sequential one gives",
 """Generating models in parallel gives the same models in the same order as generating them one after the other from the same seed: workers neither draw from the shared random generator nor
 modify an object they share, whatever their interleaving.""",
 ["schedules"], "for every interleaving of the workers, every number of runs and every learner",
 """Interleavings are not controlled by tests; the parallel option is not tested at all.""",
 ["bcause/learning/aggregator.py", "bcause/learning/parameter"],
 [("optimisers are built (and drawn) before the workers start; workers touch only their own optimiser", "bcause/learning/aggregator.py")],
 HEAP, HEAPNOTE + "Events raised inside callables handed to a parallel executor are marked and must be local to the worker.")

prop("C19", "Optional arguments may be left out",
 """Every public operation works when its optional arguments are left out: it never uses a missing (None) argument where an object is needed, and none of the operations that the library offers
 fails on every call because of a wrong argument list or an attribute that does not exist, nor calls another operation with arguments it does not take.""",
 ["inputs", "configurations"], "for every public operation of every class, with every optional argument omitted, on every path",
 """Tests exercise a small share of the operations with their defaults; several always failed at the pinned commit (see the fix commits).""",
 ["bcause"],
 [("None defaults are replaced before use", "all public operations")],
 HEAP, HEAPNOTE + "A use of None is reported only when None is the only value that reaches the use on that path.")

MEMB = "abstract interpretation in a membership/provenance domain (collections summarised as formulas over their inputs), compared with the specification over atomic membership facts"
MEMBNOTE = """The operation is interpreted abstractly on symbolic inputs (any graph, any domains, any variable sets), every collection it builds being summarised as a membership formula,
loops by one generic element; no path is enumerated and no solver is used. A difference is reported only when a consistent assignment of the atomic facts separates the formula of the code from
the specified one; what is not followed is counted as undecided in the evidence, not reported. Trusted: the meaning of Python's collections and of the networkx and numpy operations in values.py. """

ALGEB = "abstract interpretation in a membership/provenance domain and a factor algebra (results as terms over the inputs' factors), compared with the specified term on small networks"
ALGEBNOTE = """The code is interpreted abstractly on a network with any graph and factors; what it computes is derived as a term of products, marginals, quotients and restrictions of the input's factors, each guarded by a membership
formula. The derived term and the specified one (the posterior) are compared by giving both their meaning on small networks (up to three variables, all shapes drawn, random tables modulo a prime, so that a coincidence is
negligible): a difference found there is a real one; agreement is a bounded verdict. While loops are followed for a bounded number of iterations (three layers of barren nodes; orderings of two variables). Nothing of /repo is executed. """

prop("C08", "Every factor operation returns a factor over the right variables",
 """The scope of the result of each factor operation (multiply, add, subtract, divide, scalar operands on either side, marginalise, max-marginalise, restrict, rename, conversion, constant) is the one
 the operation defines: which variables it has, which of them are conditioning (right) and which conditioned (left) variables, with every variable keeping its states. It is the same for every value store.""",
 ["inputs", "configurations"], "for every domain, every choice of right-hand variables of the operands, every set of variables or evidence given, and every value store",
 """The tests multiply and restrict a few fixed factors, mostly compare values and hardly the left and right variables; a wrong scope shows for particular overlaps of the two scopes.""",
 ["bcause/factors/mulitnomial.py", "bcause/factors/deterministic.py", "bcause/factors/imprecise.py", "bcause/factors/factor.py", "bcause/factors/values"],
 [("operations compute new domain and right variables", "bcause/factors/mulitnomial.py"), ("stores compute the domain of the result", "bcause/factors/values/store.py, operations.py, *ops.py"), ("rename, constant, to_multinomial", "bcause/factors/deterministic.py, imprecise.py")],
 MEMB, MEMBNOTE + "Operands over two generic variables sets; variable names starting with an underscore are excluded, as the constructors exclude them.")

prop("C09", "Graph surgery yields exactly the intended model",
 """Copies, interventions, submodels, renamings and conversions of a model have exactly the nodes, edges, factors and endogenous variables they promise: an intervention removes the edges into the intervened
 variables and nothing else and replaces only their factors by constants; a submodel keeps the edges and factors among the chosen variables; renaming maps each node, edge and endogenous variable; parents, children,
 Markov blankets, endogenous and exogenous subgraphs and domains are those of the graph; and the graph utilities remove exactly the named nodes or edges.""",
 ["inputs"], "for every graph, every set of endogenous variables, every intervention, variable subset and renaming",
 """The tests use half a dozen small graphs; an edge lost, kept or added wrongly shows only on particular shapes (shared children, several intervened variables, roots, nodes kept without parents).""",
 ["bcause/models", "bcause/util/graphutils.py"],
 [("intervention, rename_vars, builder", "bcause/models/cmodel.py"), ("submodel, parents, children, Markov blanket", "bcause/models/pgmodel.py"), ("edge and node removal", "bcause/util/graphutils.py")],
 MEMB, MEMBNOTE)

prop("C17", "Variable elimination answers with the posterior of the whole network",
 """For every network, target, conditioning set and evidence, the answer of VariableElimination is the posterior of the targets in the whole network: pruning (barren nodes, nodes disconnected from the targets, observed
 parents) leaves that posterior unchanged and keeps graph and factors in agreement; every variable that is neither target nor evidence is put in the elimination ordering, exactly once, by every heuristic; eliminating a variable
 multiplies every factor that mentions it and uses each factor once; the evidence is entered in the final product; and the result is normalised over all the targets, for every state of the conditioning variables.""",
 ["inputs"], "for every network shape, every set of targets, conditioning and observed variables, and every elimination ordering",
 """The tests query a few fixed networks. A barren node computed from the targets alone, a factor lost or used twice, or a normalisation over one of two targets leaves most of those answers unchanged.""",
 ["bcause/inference/probabilistic/elimination.py", "bcause/inference/probabilistic/probabilistic.py", "bcause/inference/ordering.py", "bcause/models/transform/simplification.py", "bcause/util/graphutils.py"],
 [("run", "bcause/inference/probabilistic/elimination.py"), ("query", "bcause/inference/probabilistic/probabilistic.py"), ("minimalize", "bcause/models/transform/simplification.py"), ("barren, disconnected", "bcause/util/graphutils.py"), ("heuristics", "bcause/inference/ordering.py")],
 ALGEB, ALGEBNOTE)

prop("C15", "Causal queries are posed to the right model with the right evidence",
 """An interventional query is answered in the model with the edges into the intervened variables removed, for the given target, with the interventions and the given observations as evidence. A counterfactual
 query is answered in the fusion of the real world with one intervened copy per world, sharing the exogenous variables and nothing else, where each target and intervention is read in its own world and the observations in the real one.
 The probabilities of necessity, of sufficiency and of both pose and read out exactly their defining counterfactual query.""",
 ["inputs"], "for every model, target, intervention, evidence and assignment of targets to worlds, and every pair of cause and effect states",
 """The tests compare a few numbers on a few models, where a wrong world, edge or piece of evidence often leaves the number unchanged.""",
 ["bcause/inference/causal/causal.py", "bcause/inference/causal/elimination.py", "bcause/models/transform/combination.py"],
 [("query compilation", "bcause/inference/causal/causal.py, bcause/inference/inference.py"), ("counterfactual (twin) fusion", "bcause/models/transform/combination.py, bcause/models/cmodel.py")],
 MEMB, MEMBNOTE + "One and two counterfactual worlds; the probabilistic inference itself is taken as given.")

prop("C06", "Valid arguments are accepted, invalid ones rejected without effect",
 """Every operation that validates its arguments accepts exactly the valid ones. A query is accepted only if its targets are distinct variables of the model disjoint from the evidence and the conditioning variables, the evidence is on variables
 of the model, and every intervention, in every counterfactual world, is on variables of the model. A factor is accepted for a variable only if that variable is its only left variable, its right variables are exactly the parents, and
 the states of every variable agree with those already in the model. A number of models or of samples below one, and an empty list of models, are rejected. Valid arguments are not rejected, and when setting a factor is rejected the model's
 factors and domains are what they were.""",
 ["inputs"], "for every combination of targets, evidence, conditioning, interventions, graph, factor scope and domains",
 """The tests check a few rejected calls with one wrong name each; partial overlaps, one wrong name among several, extra right-hand variables or a domain that is a subset are not tried.""",
 ["bcause/inference", "bcause/models/pgmodel.py", "bcause/models/cmodel.py", "bcause/learning/aggregator/aggregator.py", "bcause/factors/mulitnomial.py"],
 [("query compilation", "bcause/inference/probabilistic/probabilistic.py, datainference.py, bcause/inference/causal/causal.py, multi.py"), ("set_factor", "bcause/models/pgmodel.py, bcause/models/cmodel.py"), ("generate, sample", "bcause/learning/aggregator/aggregator.py, bcause/factors/mulitnomial.py")],
 MEMB, MEMBNOTE + "The condition compared is the one under which no raise statement is reached; errors raised inside numpy, pandas or networkx are outside. Lists of targets with repetitions are covered by the case of two targets.")

prop("C13", "A learning step re-estimates what is trained and keeps everything else",
 """A step of a learner keeps the graph and the factor of every variable that is not re-estimated, gives the model exactly one factor per variable, and appends the model to the history, which starts with the prior model; learning starts from the
 prior model's factors. With a list of variables, exactly these are trained. In expectation maximisation, exactly the trained variables that have not converged are re-estimated, the new factor being the expected counts of the variable and its parents divided
 by their sum over the variable; the expected counts start at zero and add, for every class of records, the number of records that agree with all observations of the class times the posterior, in the current model and given exactly those observations,
 of the members of the family that are not observed, counted at the observed states of the others. The gradient learner gives each trained variable a distribution over that variable alone.""",
 ["inputs", "histories"], "for every network, trained and converged variables, and every pattern of observed and missing variables",
 """The tests learn exogenous variables of fixed models with all other variables observed; with partly observed families both parts of the expectation were wrong at the pinned commit (see the fix commits), and no test noticed.""",
 ["bcause/learning/parameter/expectation_maximization.py", "bcause/learning/parameter/parameter.py", "bcause/learning/parameter/gradient.py"],
 [("_expectation, _maximization, _get_obs_counts, initialize", "bcause/learning/parameter/expectation_maximization.py"), ("step, _update_model, history", "bcause/learning/parameter/parameter.py"), ("_updated_factor", "bcause/learning/parameter/gradient.py")],
 MEMB, MEMBNOTE + "One and two classes of records, one and two trained variables. Inference is taken as given (C17). Not decided: the d-separation filter that chooses the observations of a class, the convergence test, and the objective that the gradient learner hands to scipy.")

prop("C12", "Intervals over several models are the tightest that hold every answer",
 """Inference over several models asks each of its models (those given, those added later, or those learned from the given data and prior model, as many as asked for and each from its own random start) the very query it was asked, and answers with
 the list of their answers or with the interval whose lower end is the minimum and whose upper end is the maximum over all the models, state by state, over the variables of the answers. An interval factor keeps lower values lower and upper values upper
 through construction, restriction and renaming.""",
 ["inputs", "histories"], "for every list of models, every query, and every sequence of adding or setting models and querying",
 """The tests compare one interval of two or three models with stored numbers and query with few arguments; a model left out, an argument that is not handed on, or low and up from different states shows only with other lists and queries.""",
 ["bcause/inference/causal/multi.py", "bcause/factors/imprecise.py", "bcause/learning/aggregator/aggregator.py"],
 [("query, _process_output, compile, add_models, set_models", "bcause/inference/causal/multi.py"), ("from_precise, restrict, rename_vars, store_low, store_up", "bcause/factors/imprecise.py"), ("generate, _build_optimizer", "bcause/learning/aggregator/aggregator.py")],
 MEMB, MEMBNOTE + "Inference in each model is taken as given (C15, C17); the numpy and Python reductions min and max are trusted; a reduction written in a way the analysis does not know is undecided.")

prop("C10", "Results keep the kind of value store of what they come from",
 """Every operation that derives a factor from others (arithmetic, scalars on either side, marginalising, restricting, renaming, constants, conversion between deterministic, multinomial and interval factors) returns one of the same kind of value store, recorded in
 the factor and used for its values; so do the operations that put a new factor in the place of an old one in a model or a learner, and the constructors and readers that are told the kind.""",
 ["inputs", "configurations"], "for every operation, every kind of value store, and operands of any scope",
 """Most tests run with the default kind, where a result that falls back to the default looks right; with another kind the result is of the wrong kind and the next operation mixes two kinds of store.""",
 ["bcause/factors", "bcause/models/cmodel.py", "bcause/learning/parameter", "bcause/conversion/pgmpy.py", "bcause/readwrite"],
 [("builder of each factor class", "bcause/factors/mulitnomial.py, deterministic.py, imprecise.py"), ("to_multinomial, to_deterministic, from_precise, canonical factors", "bcause/factors"), ("randomize_factors", "bcause/models/cmodel.py"),
  ("pseudo counts, updated factors", "bcause/learning/parameter"), ("vtype argument of readers", "bcause/readwrite, bcause/conversion/pgmpy.py")],
 MEMB, MEMBNOTE + "Operands of the same kind; UAI readers take no kind and are outside.")

prop("C14", "A model written or converted is the model that is read back",
 """Writing a model as UAI text, or handing it to pgmpy (on its own or to write BIF and XMLBIF files, and back), neither mixes up nor drops anything: every variable, arc and factor is there; the scope named for a table is the very order
 in which its values are laid out (UAI: parents, then the variable itself, by position in the order of the sizes, in the order asked for); numbers of states, state names and evidence go with their own variable in the same order; values are not
 rounded, and made integer only for the equations or where asked.""",
 ["inputs", "configurations"], "for every model and factor, any number and order of parents, cardinalities, isolated variables, and every variable order asked for",
 """The tests write and read a few networks with binary variables and few parents: a table laid out in another order than its scope has the same size and reads back without an error, with the values given to other states.""",
 ["bcause/readwrite", "bcause/conversion/pgmpy.py"],
 [("to_uai", "bcause/readwrite/bnwrite.py, scmwrite.py"), ("toTabularCPT, toMultinomialFactor, toPgmpyBNet, toBCauseBNet", "bcause/conversion/pgmpy.py"), ("to_bif, to_xmlbif, from_bif, from_xmlbif", "bcause/readwrite")],
 MEMB, MEMBNOTE + "The text is derived symbolically as a sequence of repeated words. pgmpy's own readers and writers and the arrays' reshape are trusted; the UAI readers are outside.")

prop("C18", "The q-decomposition of a causal model has its distribution and is a network",
 """The c-components of a causal model are the connected components of the arcs that leave exogenous variables, and its endogenous and exogenous components are exactly their endogenous and exogenous parts. The graph of the q-decomposition joins to every endogenous variable
 its endogenous parents, what precedes it in its component and the parents of the component that precede it, all in one topological order, so that it never has a cycle. Its network has, for every endogenous variable of every component, the distribution
 of that variable given its parents in that graph: by inference in the model, or from the data when they are given. The likelihood of data is that of the model's network over all the records, and the maximum likelihood that of the network from the data, over the variables asked for.""",
 ["inputs"], "for every causal model in which each endogenous variable has an exogenous parent, any confounding, any data and variables asked for",
 """The tests look at the components and likelihoods of a few small models, where components do not point into each other and orders coincide; an arc too many (a cycle) or too few shows only in models with interleaved components.""",
 ["bcause/models/info.py", "bcause/models/cmodel.py"],
 [("get_qgraph, get_qfactors, get_ccomponent", "bcause/models/info.py"), ("ccomponents, get_qfactorisation, get_qbnet, log_likelihood, max_log_likelihood", "bcause/models/cmodel.py")],
 MEMB, MEMBNOTE + "Connected components and topological order of networkx are trusted; inference is taken as given (C17); that such a graph factorises the model's distribution is the theorem of Tian and Pearl, not proved here.")

prop("C20", "Sampling and likelihood run over every variable, record by record",
 """The probability (or log-probability) of records in a network is, for each record, the product (or sum of logarithms) over the factors of all the variables asked for of the factor's value at that very record. Forward sampling draws every variable, parents before children:
 variables without parents as many times as asked for, the others given the records drawn so far, joined record by record; a draw from a factor is weighted with its normalised values, and conditional sampling makes one draw for every observation, in their order.""",
 ["inputs"], "for every network, every set of variables asked for, every list of records and number of samples",
 """The tests sample few records from networks whose nodes were added in topological order and compare likelihoods of all the variables; a skipped variable, a child drawn before its parent or totals over the wrong axis need other graphs or requests.""",
 ["bcause/models/sampling.py", "bcause/models/pgmodel.py", "bcause/factors/mulitnomial.py"],
 [("forward_sampling", "bcause/models/sampling.py"), ("log_prob, prob", "bcause/models/pgmodel.py"), ("prob, log_prob, sample, sample_conditional, _sample", "bcause/factors/mulitnomial.py")],
 MEMB, MEMBNOTE + "The values of a factor are taken as given (C07 is not claimed); which prepared factor an observation is looked up in, in conditional sampling, and the distribution of the drawn samples are outside; numpy's choice and pandas' concat are trusted.")

prop("C07", "Numeric values of factor operations follow their definitions",
 """The values that products, sums, maxima, quotients, restrictions and interval operations compute are those that the definitions give for every combination of states, within rounding, and 0/0 is 0.""",
 ["inputs"], "for every factor, every domain and order of states, every operation",
 """Tests compare a few tables of two or three binary variables.""",
 ["bcause/factors"], [("product, addition, marginalise, restrict", "bcause/factors/mulitnomial.py, bcause/factors/values")],
 na="""The values are the outcome of broadcasting, axis reductions and index arithmetic on run-time tables, which no dataflow or type argument in reach derives; scopes, domains and kinds of the results are decided in C08 and C10, and defects met on
 the way were repaired (KNOWN_FINDINGS.txt).""")

prop("C11", "The value stores give the same answers",
 """The list, tree and numpy value stores return equal values from every operation on equal factors, whatever the order in which variables and states are listed.""",
 ["inputs"], "for every factor, store and operation",
 """Tests run the stores on the same few factors, whose states are listed in the same order.""",
 ["bcause/factors/values"], [("the stores", "bcause/factors/values")],
 na="""Agreement of three algorithms (recursion over a tree, loops over configurations, array broadcasting) on run-time numbers is a relational property of values; the static domains built here see scopes and provenance, not numbers. Running the stores against
 each other would be a test, not static analysis. Defects met on the way were repaired.""")

prop("C21", "Learning converges to the best likelihood, sampling follows the distribution",
 """Each step of expectation maximisation does not lower the likelihood of the data, gradient learning ends in a model that fits the data at least as well as its start, and samples follow the distribution of the model.""",
 ["inputs", "histories"], "for every model, every data set, every seed",
 """Tests look at one model, one seed and a tolerance.""",
 ["bcause/learning/parameter", "bcause/models/sampling.py"], [("the learners", "bcause/learning/parameter"), ("sampling", "bcause/models/sampling.py")],
 na="""Monotone likelihood, optimality of a numeric optimiser and convergence in distribution quantify over real numbers and random draws that no sound static argument bounds. What the steps re-estimate and how draws are weighted is decided in C13 and C20.""")
