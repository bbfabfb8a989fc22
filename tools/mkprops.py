import json
M='src/graph_ensembles/models.py'; S='src/graph_ensembles/sparse/models/'; K='src/graph_ensembles/spark/models.py'
SE=S+'ensembles.py'; SF=S+'fitness.py'; SI=S+'invariant.py'; SC=S+'conditional.py'; SR=S+'random.py'
G='src/graph_ensembles/graphs.py'; SG='src/graph_ensembles/sparse/graphs.py'
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("link-probability","Link probabilities follow the model formula and are probabilities",
"For every fitness-type model (logistic odds d*x*y and scale-invariant exponential, single- and multi-label, in the dense, sparse and spark implementations) and every non-negative, possibly infinite parameter and fitness values, the link probability is exactly the model formula: t/(1+t) or 1-exp(-t) with t=d*x*y for one label, and 1 minus the product over common labels of (1 - per-label probability) for a multi-label pair. It always lies in [0,1], is 0 when any factor is 0 and 1 when the product is infinite with no zero factor.",
["inputs"],"all parameters and fitnesses in [0,inf], all label supports of the two vertices, every number of labels",
"A test samples a handful of fitness vectors; the zero, infinite and disjoint/partially overlapping label-support cases multiply and only a proof over all values and all supports settles them.",
[M,SF,SI,K],[("p_ij / p_ijk of FitnessModel, ScaleInvariantModel, MultiFitnessModel, MultiInvariantModel",M),("sorted-merge p_ij over (labels, values) tuples",SF),("p_ij of the invariant models, with dyadic factor",SI),("spark p_ij with explicit label arrays",K)])
add("log-probability","Log-probabilities are the logarithms of the link probability",
"For every fitness-type model, implementation, parameter and fitness values, the two logarithmic link functions equal the logarithm of the link probability and of its complement. They are minus infinity exactly when that probability, respectively its complement, is zero, and never NaN.",
["inputs"],"all parameters and fitnesses in [0,inf], all label supports",
"Only the relation between two independently written functions over all inputs shows they describe the same model; tests compare a few numbers.",
[M,SF,SI,K],[("logp / log1mp and logp_ijk / log1mp_ijk",M),("sparse logp / log1mp",SF),("sparse invariant logp / log1mp",SI),("spark logp / log1mp",K)])
add("fit-objective","The function solved by fit is the expected number of edges with its exact slope",
"For every fitness-type model (total and per-label fits, dense, sparse and spark), every parameter value and every fitness input, the function handed to the solver returns the expected number of admissible edges at that parameter, and its second component is the exact derivative of the first with respect to the parameter. The value at the fitted parameter therefore agrees with the expected number of edges the model reports afterwards.",
["inputs","configurations"],"all parameters (including 0 and infinity), fitness vectors, label supports, self-loop settings and block partitions",
"A wrong derivative or a pair counted twice still converges on most test fixtures; only the identity for all inputs guarantees that fits are right.",
[M,SF,SI,SC,K],[("p_jac_ij / p_jac_ijk",M),("exp_edges_f_jac, exp_edges_f_jac_layer, density_fit_fun, density_fit_layer",M),("sparse fit functions",SF),("spark fit functions over row blocks",K)])
add("solver-honesty","The solver reports convergence only for a genuine solution inside the bracket",
"For every function, target, tolerance, starting point and iteration limit, the returned solution is a point at which the function was evaluated, the reported residual is the distance of the function from the target at that very point, and convergence is reported exactly when this residual is within atol + rtol*target. At most the allowed number of iterations is made, and for a monotone function the solution stays within the allowed interval.",
["inputs","histories"],"all monotone functions (as an arbitrary oracle), targets, tolerances, iteration limits and starting points",
"The iteration sequence depends on an arbitrary oracle; off-by-one residuals or stale flags only show for particular sequences.",
["src/graph_ensembles/solver.py"],[("monotonic_newton_solver","src/graph_ensembles/solver.py"),("Solution","src/graph_ensembles/solver.py")])
add("fit-reproduces-constraint","A converged fit reproduces the constraint it was given",
"Whenever a density fit of any model reports convergence, the expected number of edges (total, or for every label in a per-label fit) computed from the stored parameter equals the requested number within the solver tolerance. When it does not converge a warning is issued, the stored parameter is always the solver's answer, and for the random ensemble the fit reproduces edges and total weight exactly.",
["inputs","configurations"],"all admissible fitnesses, numbers of edges, initial conditions, tolerances, self-loop options, per-label or total fits",
"Tests fit two fixed networks; a parameter stored for the wrong label, a stale constraint or a swallowed non-convergence needs particular inputs.",
[M,SF,SC,K],[("fit of FitnessModel, MultiFitnessModel, RandomDiGraph",M),("fit (sparse)",SF),("fit (conditional)",SC),("fit (spark)",K)])
add("expected-edges","Expected edge counts are the sum of link probabilities over admissible pairs",
"For every ensemble and implementation the expected number of edges equals the sum of the link probability over all ordered vertex pairs, including the diagonal exactly when self-loops are allowed. The per-label expected number equals the same sum of the per-label probability for that label only.",
["inputs","configurations"],"all vertex and label counts, fitness values, parameters and self-loop settings",
"The sums range over all sizes; index mistakes cancel or stay hidden when vertices equal labels, inputs are symmetric or a block is exactly full.",
[M,SE,SR,K],[("exp_edges, exp_edges_label, expected_num_edges, expected_num_edges_label",M),("exp_edges, exp_edges_layer",SE),("RandomDiGraph.expected_num_edges",SR),("spark exp_edges / exp_edges_layer",K)])
add("expected-degrees","Expected degrees are row, column and union sums of link probabilities",
"For every ensemble and vertex, the expected out-degree and in-degree are the sums of the link probabilities leaving and entering the vertex over admissible partners, and the expected undirected degree is the sum over partners of the probability that at least one of the two directions exists, a self-loop counting once. The same holds label by label for the label-resolved sequences.",
["inputs","configurations"],"all vertex and label counts, asymmetric fitnesses, supports, parameters and self-loop settings",
"Each dyad is visited once or twice depending on supports and loop shape; double counting shows only for particular overlaps.",
[M,SE,SR,K],[("exp_degrees, exp_degrees_label, expected_degree and directed variants",M),("exp_degrees, exp_degrees_label",SE),("spark exp_degrees, exp_degrees_layer",K)])
add("expected-neighbour-average","Expected neighbour averages are probability-weighted means over neighbours",
"For every ensemble, direction and vertex property, the expected neighbour average of a vertex is the sum over other vertices of link probability (out, in, or either direction) times property, divided by the corresponding expected degree, with the vertex itself included once exactly when self-loops are requested, and 0 for a vertex of zero expected degree. The average neighbour degree is that quantity for the corresponding expected degree sequence.",
["inputs","configurations"],"all properties, directions, degree types, self-loop options, fitnesses and parameters",
"The numerator and the denominator come from different code and must agree on every pair; tests use a few uniform properties.",
[M,SE,SR,K],[("exp_av_nn_prop, expected_av_nn_property, expected_av_nn_degree",M),("sparse exp_av_nn_prop",SE),("RandomDiGraph.expected_av_nn_property",SR),("spark exp_av_nn_prop",K)])
add("log-likelihood","The log-likelihood sums the log-probability of every admissible pair once",
"For every ensemble and every observed graph without inadmissible edges, given as graph object, dense array or sparse matrix, the log-likelihood equals the sum over admissible ordered pairs of the log link probability where the edge is present and of the log complement where it is absent, label by label for labelled graphs. It is minus infinity exactly when some present edge has probability 0 or some absent edge has probability 1.",
["inputs"],"all graphs, sizes, supports, parameters and self-loop settings",
"Pairs outside a sparse support, rows without edges and early exits at infinities are handled by special cases that only particular graphs reach.",
[M,SE,SR,K],[("_likelihood, _likelihood_tensor, log_likelihood",M),("sparse _likelihood, _likelihood_layer",SE),("RandomDiGraph.log_likelihood",SR),("spark log_likelihood",K)])
add("sampling","Sampling tests every admissible pair exactly once against its own probability",
"For every ensemble, parameter and stream of random numbers, a sampled graph contains an edge (per label for labelled ensembles) exactly for the admissible ordered pairs whose own fresh uniform draw is below that pair's link probability, so edges are independent with the model's marginals. No edge appears on an excluded diagonal, no pair is drawn twice, and the sampled graph has the ensemble's vertices and labels.",
["inputs","schedules"],"all parameters and fitnesses and all outcomes of the random number stream",
"A random sample cannot distinguish a reused draw, a skipped pair or a shifted probability; the statement is about every outcome of the stream.",
[M,SE,SR,K],[("_binary_sample, _binary_sample_tensor, sample",M),("sparse _binary_sample, _binary_sample_layer",SE),("RandomDiGraph._binary_sample",SR),("spark _binary_sample",K)])
add("sampled-weights","Sampled weights have the prescribed conditional distribution",
"In weighted samples every sampled edge, and no other pair, carries a weight drawn freshly from the prescribed law: exponential with mean s_out*s_in/(total*p) of the same pair (and label) for the strength-preserving scheme, and exponential or geometric with the fitted rate for the random ensemble. Expected strengths therefore equal the given ones up to excluded self-loops, and unequal total strengths are rejected.",
["inputs","schedules"],"all strengths, parameters and random number streams",
"The scale is only visible in the distribution of a random draw.",
[M,SE,SR,K],[("_cremb_sample, _cremb_sample_tensor, _weighted_sample, _discrete_weighted_sample",M),("sparse _cremb_sample, _cremb_sample_layer",SE),("spark _cremb_sample",K)])
add("random-ensemble","The uniform random ensemble reproduces its closed-form expectations",
"For the uniform random ensemble, in all three implementations, every expectation is the closed form for independent links of one common probability: edges p*n*(n-1) or p*n^2 with self-loops, total weight edges divided by the mean-weight rate, degrees, neighbour averages, and log-likelihood from the counts of present and absent admissible pairs. Fitting inverts these formulas.",
["inputs","configurations"],"all vertex counts, edge counts, weights, probabilities in [0,1] and self-loop settings",
"The code uses closed forms instead of sums, so agreement with the ensemble definition is an identity in n and p.",
[M,SR,K],[("RandomDiGraph",M),("RandomDiGraph (sparse)",SR),("RandomDiGraph (spark)",K)])
add("query-purity","Queries do not change the model and answers do not depend on query order",
"For every sequence of expectation, neighbour-average, likelihood and sampling queries on a fitted ensemble or a graph, each answer equals the one a fresh copy would give for the same arguments, and parameters, fitnesses, self-loop setting and adjacency stay unchanged, also when a query fails. Asking to recompute always returns a freshly computed value for the current state.",
["histories","inputs"],"all sequences of queries with all argument combinations, including failing ones",
"Cached values and temporarily switched options interact across calls; a test fixes one order.",
[M,SE,SR,K,G,SG],[("stored results guarded by presence checks and recompute flags",M),("temporary self-loop switch in neighbour averages",M),("average_nn_degree",G),("stored results",SG)])
add("graph-measures","Graph measures agree with the edge list they were built from",
"For every graph (directed or not, labelled or not, weighted or not, dense or sparse) the adjacency matrices and tensors, edge counts, degrees and neighbour averages, and for graphs with weights also the weighted matrices, total weights and strengths (overall, by group, by label), are exactly the sums over the stored edges that their names say: undirected versions count an edge in either direction once and a self-loop once, weights of repeated edges add up, and neighbour averages without self-loops ignore them in numerator and denominator. Dense and sparse graphs built from the same data give the same values.",
["inputs"],"all vertex sets, edge lists (unsorted, repeated, with self-loops, reciprocal), labels, groups and weights",
"The matrix expressions must be right for all edge lists; the fixtures have few self-loops, reciprocal or repeated edges.",
[G,SG],[("adjacency_matrix, adjacency_tensor, degree, strength, *_by_group, *_by_label",G),("sparse counterparts, sum_by_group, av_nn_prop",SG)])
add("graph-construction","Graph construction maps identifiers and edges faithfully",
"For every vertex table and edge table, construction gives each vertex, group and label identifier a distinct consecutive position, places every edge between the positions of its own endpoints (and label), and chooses an integer type able to hold every position, whatever the row order or number of identifier columns. Repeated vertex identifiers, edges to unknown vertices and non-positive weights are rejected, and conversion to networkx keeps identifiers, edges and weights.",
["inputs"],"all vertex and edge tables, identifier types, orders and sizes, including beyond 255 and 65535 vertices",
"Size thresholds and row orders are a combinatorial space; tests use five vertices.",
[G,SG],[("Graph.__init__, MultiGraph.__init__, generate_id_dict, get_num_bytes, to_networkx",G),("sparse counterparts",SG)])
add("conditional-model","The conditional model respects the observed group graph",
"For the model conditioned on an observed group graph, every sampled edge joins groups that are linked and every linked group pair receives at least one edge, link probabilities are the unconditional ones divided by the probability of the group link (0 for unlinked groups), and expected edges, directed degrees, fit function and likelihood are the corresponding sums. Aggregated weights, when requested, add up to the observed group weight.",
["inputs","schedules"],"all group partitions, group graphs, fitnesses, parameters, self-loop settings and random streams",
"The sequential conditional sampling is correct only if the running normalisation is right after every possible prefix of draws.",
[SC],[("cond_p_ij, p_jac_ij, exp_edges, exp_degrees, _binary_sample, _cremb_sample, _wagg_sample, _agg_likelihood",SC)])
add("spark-partition","Distributed results do not depend on the block partition",
"For every number of blocks and vertices, the distributed implementation covers each ordered vertex pair (each unordered dyad for symmetric quantities) exactly once over its blocks, so expectations, likelihood, fit function and confusion counts equal the sum over all admissible pairs and do not depend on the number of blocks.",
["configurations","inputs"],"all vertex counts and block counts, including more blocks than vertices and ragged last blocks",
"Boundary pairs between blocks depend on the remainder of the division; tests use one block count.",
[K],[("block iteration, p_iter_rdd, p_sym_rdd, layers_rdd and block-offset kernels",K)])
add("random-walk-measures","PageRank and trophic depth follow their defining recursions",
"For every weighted or unweighted graph, row normalisation turns each non-empty row into proportions of its own total whatever the weight type, one propagation step moves each vertex's mass along its normalised links (spreading the mass of dead ends evenly unless absorbing), and the returned PageRank is a probability vector obtained by iterating the damped recursion until its change is below tolerance or the limit is reached. Trophic depth is the analogous iterate of its own recursion.",
["inputs"],"all graphs, weight types, damping factors, tolerances and iteration limits",
"Dead ends, integer weights and iteration limits are input-dependent branches; no test covers all.",
["src/graph_ensembles/lib.py"],[("normalise_rows, propagate_measure, pagerank, trophic_depth","src/graph_ensembles/lib.py")])
add("input-validation","Models accept exactly the admissible inputs and store them unaltered",
"For every combination of constructor arguments, a model is created exactly when its arguments are recognised, vertex (and label) counts are positive integers, fitnesses have the right shape and no negative value, edge counts and parameters are non-negative numbers of the right length, and at least one of constraint or parameter is given; otherwise a clear error is raised. The accepted values are stored unaltered (up to documented scalar/array and per-label broadcasting), and querying an unfitted model raises an error.",
["inputs","configurations"],"all argument combinations and values",
"The number of combinations of present, absent and invalid arguments is exponential.",
[M,SF,SC,SR,K],[("__init__ of the model classes",M),("__init__ (sparse)",SF),("__init__ (spark)",K)])
import re
for p in P:
    n=len(re.findall(r"[.](?=\s|$)",p["statement"]))
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    print(p["id"],n,len(p["statement"]))

for i,p in enumerate(P): p["id"]="C%02d"%(i+1)
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
