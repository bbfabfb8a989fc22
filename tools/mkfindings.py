"""Regenerate known-findings.json (committed; never written by a check)."""
import json
FIXED = """20592db C06 dense expected_num_edges_label looped over vertices instead of labels
eec66ff C11 dense labelled CremB sampling crashed and used the strength of the wrong label
387933a C08 expected out-in neighbour property added the self-loop with the wrong dyad
eff0048 C11 weighted samples of the random ensemble dropped the drawn weights
0ad0ebc C12 expected_total_weight of the random ensemble ignored its fitted parameters
57d95d5 C12 out-in neighbour average of the random ensemble counted a self-loop twice
4c43d5a C12 log-likelihood of the random ensemble was NaN at p=0 and p=1
8e2ba35 C14 dense graphs overwrote the weights of repeated edges
52d7dbe C14 dense undirected multigraph counted weighted self-loops twice
3d164a0 C14 dense strength by group truncated fractional weights
1ad349a C14 dense in-neighbour average kept self-loops when asked not to
82e9ddc C10 sample and log_likelihood ignored their selfloops argument
52580c6 C13 expected neighbour averages leaked the self-loop option into later answers
dc4ba63 C13 graph average_nn_degree returned a value cached for another self-loop option
6f7bc73 C14 neighbour averages without self-loops still counted them in the degree
7c06e9d C14 weighted=True matrix of an unweighted sparse undirected graph lost self-loops
7a0decd C09 dense labelled likelihood rejected a list of sparse layers
880f901 C07 expected degrees by label counted each dyad twice
903ecfa C13 spark labelled ensembles tested the wrong cache attribute and dropped recompute
2267fba C18 row normalisation of integer or boolean weights was truncated to 0/1
ebb1420 C18 trophic depth failed on sparse arrays
9776bc4 C03 labelled invariant fit function was NaN for infinite parameters
4289c3b C16 conditional expected degrees tested the wrong direction of the group link
25d319b C01 labelled sparse/spark models silently missed common labels of unsorted indices
572eb7a C05 per-label fits with an integer x0 truncated the fitted parameters
10620b0 C08 neighbour averages of vector-valued properties divided by the wrong degree
a9d4381 C13 a failing neighbour-average query left the self-loop option changed
ba10b05 C11 labelled CremB weights of a vertex without strength were read out of bounds
fcee61d C15 networkx conversion of undirected multigraphs kept the weight of one direction only
32e6d3c C07 spark degrees by label crashed when no edge is possible
5dd45f8 C04 the solver left the bracket when the target is not attained and the slope vanishes
e12e66c C18 pagerank and trophic depth crashed for an iteration limit of zero
5075943 C19 a negative number of edges was accepted when numbers per label were given too"""
out = dict(
    findings=[
        dict(id="conditional-av-nn", property="C16",
             where="src/graph_ensembles/sparse/models/conditional.py ConditionalInvariantModel inherits expected_av_nn_property/expected_av_nn_degree of DiGraphEnsemble",
             what="ConditionalInvariantModel.expected_av_nn_property uses the unconditional link probabilities in the numerator (inherited kernel), not the probabilities conditioned on the group graph"),
        dict(id="conditional-undirected-degree", property="C16",
             where="src/graph_ensembles/sparse/models/conditional.py exp_degrees",
             what="ConditionalInvariantModel.expected_degree uses p_ij + p_ji - p_ij*p_ji for two vertices of the same group (or of mutually linked groups conditioned together), although the two directions are not independent given the group link"),
    ],
    fixed=["fixed: property=%s %s %s" % (l.split()[1], l.split()[0], " ".join(l.split()[2:])) for l in FIXED.splitlines()],
)
import os
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known-findings.json"), "w"), indent=1)
