#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

ECC="medil/ecc_algorithms.py"; GR="medil/graph.py"; SA="medil/sample.py"; MO="medil/models.py"
IT="medil/independence_testing.py"; EV="medil/evaluate.py"; VA="medil/vae.py"; VI="medil/visualize.py"

p("C01","Clique cover search returns an edge clique cover of the given graph",
"""For every undirected dependence graph given as a symmetric 0/1 adjacency matrix with ones on the
diagonal, the clique cover search returns a 0/1 biadjacency matrix with one column per vertex in which every row is a
nonempty clique of the graph, both ends of every edge lie together in at least one row, and every vertex, isolated
ones included, lies in at least one row.""",
["inputs"],"all symmetric 0/1 (integer or boolean) matrices with unit diagonal, of any size",
"""the tests run the search on seven hand-picked graphs; the properties of the cover depend on the reduction rules,
the reconstruction and the depth limit interacting on arbitrary graphs (147 of the 32768 graphs on six vertices broke
it before the repairs)""",
[ECC,GR],[("search loop, branching and depth limit","find_clique_min_cover, branch"),("reduction rules and reconstruction","ReducibleUndDepGraph.reduzieren, rule_1, rule_2, rule_3, reconstruct_cover"),("isolated vertices","add_isolated_verts")],
[("adj_matrix","uncovered edges, with the diagonal marking the vertices not removed yet",GR),("the_cover","cliques chosen so far",GR)],
["return value of find_clique_min_cover"])

p("C02","Clique covers are minimum",
"""The cover returned by the clique cover search has the fewest rows possible: no edge clique cover of the graph
(with a singleton clique for every isolated vertex) has fewer.""",
["inputs"],"all symmetric 0/1 matrices with unit diagonal",
"""the tests compare the number of cliques on seven graphs only; minimality quantifies over all covers of all graphs""",
[ECC,GR],[("iterative deepening over the number of cliques","find_clique_min_cover"),("branching on the cliques of the neighbourhood of one edge","branch, choose_nbrhood, max_cliques")],
observe=["return value of find_clique_min_cover"])

p("C03","Maximal clique enumeration is exact",
"""For every undirected graph (whatever its diagonal), the maximal clique enumerator yields every maximal clique
exactly once, as a list of distinct vertices, and yields nothing else; for the graph without vertices it yields nothing.""",
["inputs"],"all symmetric adjacency matrices of any size, any diagonal",
"the tests never call the enumerator directly; it is an in-place stack machine whose completeness is an invariant over all graphs",
[ECC],[("pivoting backtracking over candidate sets with an explicit stack","max_cliques")],
[("cand, subg, ext_u, stack","candidate, common-neighbour and branching sets of the partial clique",ECC)],["values yielded by max_cliques"])

p("C04","One-pure-child structure learning yields a sound structure for every graph",
"""For every undirected graph with at least one vertex (whatever its diagonal), structure learning under the
one-pure-child assumption succeeds and returns a boolean latent-by-measurement matrix with exactly as many latents as
the largest independent set has vertices. Every latent has at least one pure child (a measurement with no other
latent parent), every measurement has a latent parent, and every two adjacent measurements share a latent parent.""",
["inputs"],"all symmetric adjacency matrices with at least one vertex",
"the tests reach the heuristic only through two Gaussian fits, whose graphs have no edges left over for the repair loop",
[ECC],[("maximum independent set, its neighbourhoods, and assignment of left-over edges","find_heuristic_1pc")],
observe=["return value of find_heuristic_1pc"])

p("C05","One-pure-child structures are recovered exactly from their graphs",
"""If an undirected graph is the one induced by a structure in which every latent has a pure child and every
measurement has a latent parent (two measurements adjacent exactly when they share a latent), then structure learning
under the one-pure-child assumption returns that structure, up to the order of the latents.""",
["inputs"],"all boolean biadjacency matrices with at least one pure child per latent and no orphan measurement",
"identifiability is a statement about all structures; the tests fit two",
[ECC],[("maximum independent set picks one pure child per latent, whose neighbourhoods are the latents' children","find_heuristic_1pc, max_cliques")],
observe=["return value of find_heuristic_1pc"])

p("C06","Random one-pure-child structures have the promised shape and density",
"""For every number of measurements, number of latents from one to that many, density between zero and one, and random
generator, random generation under the one-pure-child assumption returns a boolean matrix with the requested latents
and measurements in which every latent has at least one pure child, every measurement has a latent parent, and the
number of edges is exactly measurements + round(density * (measurements - latents) * (latents - 1)). If the
number of latents is not given it is drawn between one and measurements - 1, and density may be None to be drawn too.""",
["inputs","configurations"],"all sizes, densities in [0,1] or None, and all outcomes of the random draws",
"the tests sample two configurations and check two marginal sums; the guarantee is over every random outcome",
[SA],[("pure children first, then random fill and column-wise shuffles","biadj")],observe=["return value of sample.biadj"])

p("C07","Random general structures induce a graph with exactly the requested density",
"""For every number of measurements, density between zero and one and random generator, random generation without
the one-pure-child assumption returns a boolean structure in which every latent has a child, every measurement has a
parent, and exactly round(density * n * (n - 1) / 2) of the pairs of the n measurements share a latent. Asking for a number
of latents in this mode is refused with a ValueError.""",
["inputs","configurations"],"all sizes, densities in [0,1], and all outcomes of the random draws",
"the test's density assertion compares a value with itself, and only one size is used",
[SA,ECC],[("random upper triangle with a fixed number of edges, then clique cover search","biadj, find_clique_min_cover")],observe=["return value of sample.biadj"])

p("C08","Random Gaussian parameters respect the structure and their ranges",
"""A randomly parameterized Gaussian model has a nonzero weight exactly where its structure has an edge, every such
weight of magnitude at least 0.5 and below 2, error means of magnitude below 2 and error variances from 0.5 to below 2, one per
measurement, and keeps a structure it was given unchanged. VAE parameterization is refused with NotImplementedError and
any other name with ValueError.""",
["inputs","configurations"],"all structures (given or drawn) and all outcomes of the random draws",
"one model is drawn in the tests, and only zero patterns are looked at",
[SA],[("uniform draws, random signs, boolean-mask assignment","mcm")],observe=["parameters of the model returned by sample.mcm"])

p("C09","Random generation depends only on the given generator",
"""Generating a random structure, a random Gaussian model, or a dataset from a Gaussian model draws only from the generator
given to that call or model: generators in equal states give equal results whatever was generated before, and no
other generator nor any global random state is read or advanced.""",
["inputs","histories"],"all call histories, seeds and arguments",
"reproducibility quantifies over what happened before the call; the tests always use the shared default generators",
[SA,MO],[("generator passed down to every draw","mcm, biadj, GaussianMCM.sample")],observe=["results of sample.mcm, sample.biadj, GaussianMCM.sample and state of numpy's generators"])

p("C10","Gaussian samples follow the model's distribution",
"""A dataset of any size sampled from a Gaussian model has one row per requested observation and one column per
measurement, its rows being independent draws of latents times weights plus errors: jointly normal with mean equal
to the error means and covariance equal to weights' transpose times weights plus the diagonal matrix of the error variances.""",
["inputs"],"all weight matrices, error means, nonnegative error variances and sample sizes",
"the tests compare empirical means (not covariances) of two models, within a tolerance, for one seed",
[MO],[("standard normal latents mapped by the weights plus independent errors","GaussianMCM.sample")],observe=["return value of GaussianMCM.sample"])

p("C11","Gaussian fits respect the structure and minimize the covariance distance",
"""Fitting a Gaussian model keeps a structure or dependence graph supplied by the user, and otherwise learns the
structure from the data; the fitted error means are the column means, fitted weights are zero off the structure, and
fitted weights and error variances are the optimizer's minimizer of the summed squared difference between the sample
covariance and weights' transpose times weights plus the diagonal error variances. In particular the fit is never worse
by that measure than unit weights on the structure with unit error variances.""",
["inputs"],"all datasets with at least two rows and two nonconstant columns, and all boolean structures",
"two fits of easy models are compared with the truth within tolerances; support and objective are never inspected for other structures",
[MO],[("objective closure, packing of weights and variances","GaussianMCM.fit, _compute_biadj")],observe=["biadj, udg and parameters after GaussianMCM.fit"])

p("C12","The Gaussian dependence graph is the BIC decision for every pair",
"""The dependence graph a Gaussian model estimates from a dataset is boolean, symmetric and without self-loops, and joins two
distinct variables exactly when n * log(max(1 - r^2, 0.00001)) + log(n) < 0 for their sample correlation r and sample size n.
It therefore does not change when variables are shifted or rescaled, and permuting the variables permutes the graph.""",
["inputs"],"all datasets with at least two rows and no constant column",
"the tests see graphs of two simulated datasets with unit-scale variables; scale invariance was in fact broken",
[MO],[("pairwise log-likelihood gain against the BIC penalty","GaussianMCM._estimate_udg")],observe=["udg after GaussianMCM.fit"])

p("C13","Dependence graph estimation applies its test to every pair",
"""Dependence graph estimation returns a boolean adjacency matrix without self-loops. With a pairwise test, two distinct variables are joined
exactly when the test's p-value for them (lower-numbered variable first) is below the significance level, and the symmetric p-value matrix (zero diagonal) is
returned with it; a supplied p-value matrix is thresholded the same way and returned. With distance
covariance, they are joined exactly when n times their distance covariance over the product of their mean distances is at least the
chi-square(1) critical value, and no p-values are returned.""",
["inputs","configurations"],"all datasets, methods (supplied p-values, fast distance covariance, xi correlation, distance correlation), and significance levels",
"the test file for this module contains one empty test",
[IT],[("thresholding, pair enumeration and symmetric scatter of p-values","estimate_UDG")],observe=["return value of estimate_UDG"])

p("C14","Distance covariance matrices equal their definition",
"""For every dataset, the distance covariance routine returns the symmetric matrix whose (i, j) entry is the mean over all pairs of observations of the
product of the doubly centered absolute-difference matrices of variables i and j, and the vector of mean absolute differences per variable.
Shifting a variable changes nothing, and rescaling a variable by c scales its row, column and mean by |c|.""",
["inputs"],"all real datasets with at least one row",
"never called by any test",
[IT],[("pairwise distances, double centering, inner products","dcov")],observe=["return value of dcov"])

p("C15","The xi correlation and p-value equal their definition and use ranks only",
"""For any two equally long samples, the xi correlation is 1 - (sum of absolute differences of consecutive relative ranks of y after sorting by x) / (2n) /
mean(g(1 - g)), where g are the relative ranks of -y, and its p-value is one minus the normal cdf of sqrt(n) times xi over the asymptotic standard deviation
for the chosen treatment of ties. Hence it does not change under strictly increasing transformations of x or y; samples of unequal length are
refused with a ValueError and empty ones give NaN.""",
["inputs"],"all real samples of equal length with non-constant y, ties allowed",
"never called by any test with a checked result",
[IT],[("average ranks, stable order of x ranks, variance formula","_xicorr, xicorr, xicor_test")],observe=["return value of xicorr"])

p("C16","Structure distances are exact and ignore latent order",
"""The structural distances between two structures over the same measurements are the sum of squared differences between their matrices of
shared-latent counts, and the number of pairs of measurements sharing a latent in one but not the other. Both are symmetric in their
arguments, zero for a structure compared with itself, and unchanged by reordering the latents of either, and the recovered undirected
graph has an empty diagonal and joins exactly the pairs sharing a latent.""",
["inputs"],"all pairs of boolean structures with the same number of measurements and any numbers of latents",
"three comparisons of fixed structures are tested",
[EV],[("co-occurrence counts and xor of recovered graphs","sfd, recover_ug")],observe=["return values of sfd and recover_ug"])

p("C17","Weight distances are minimal over all latent orders",
"""The permutation-invariant distances between a predicted and a true weight matrix (the latter padded with zero rows when it has fewer) return a permutation of the
predicted latents and the squared Euclidean distance it attains, in the plain variant between the entries and in the absolute variant between
their absolute values, and no permutation attains a smaller one.""",
["inputs"],"all real matrices with the same number of columns and no more true than predicted rows",
"not tested at all",
[EV],[("minimum over all permutations","min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs")],observe=["return values"])

p("C18","Computations leave their inputs unchanged",
"""Structure search and learning, clique enumeration, dependence testing, structure and weight comparison, parameter sampling, dataset sampling and model fitting never
modify the arrays they are given: after the call every input array has the contents it had before.""",
["inputs"],"all inputs of the public computations",
"no test compares an input with its former contents",
[ECC,GR,IT,EV,SA,MO],[("copies before in-place updates","reducible_copy, recover_ug, min_perm_squared_l2_dist, estimate_UDG, GaussianMCM._estimate_udg")],observe=["argument arrays after each call"])

p("C19","The decoder keeps measurements separate, and all its weights are trainable",
"""In the generative network, the hidden units are divided into one block per measurement, and a measurement's reconstructed mean and log-variance depend on the
first-layer units of its own block only, for every number of measurements, hidden layers and block width, and all weight values, whether trained or not. Every weight
used in encoding or decoding is a registered parameter of the model, so that the optimizer updates it and saving the model's state keeps it.""",
["inputs","configurations"],"all network sizes, weight values and inputs",
"the only test trains the default network once and checks nothing; the block structure needs width above one to be visible",
[VA],[("block-diagonal masks multiplied into the weights","Decoder.__init__, Decoder.forward, SparseLinear.forward")],observe=["outputs and parameters of VariationalAutoencoder"])

p("C20","The network's latents are reparameterized in training and their mean otherwise",
"""The generative network's forward pass returns reconstruction, log-variance of the data, and mean and log-variance of the latents given by the encoder; the latent fed to the decoder is the
encoded mean plus exp(half the encoded log-variance) times fresh standard normal noise when training, and exactly the encoded mean in evaluation
mode, where the pass is therefore deterministic.""",
["inputs"],"all inputs, weights and both modes",
"never asserted by a test",
[VA],[("reparameterization trick","VariationalAutoencoder.latent_sample, forward")],observe=["outputs of VariationalAutoencoder.forward"])

p("C21","The network's loss is the negative beta-weighted Gaussian evidence lower bound",
"""The loss of a batch is beta times the Kullback-Leibler divergence of the encoded normals from the standard normal, plus half the sum over observations of the log-determinant
of the batch-averaged diagonal covariance and the squared Mahalanobis distance of the reconstruction error, plus, only when training weights are passed, lambda times their
nuclear norm and mu times their entrywise L1 norm. The divergence term is never negative and zero exactly for standard normals.""",
["inputs"],"all batches, outputs of the network, weights and hyperparameters",
"the training test asserts nothing about the loss",
[MO],[("closed-form divergence and Gaussian log-likelihood","NeuroCausalFactorAnalysis._elbo_gaussian")],observe=["return value of _elbo_gaussian"])

p("C22","Network training follows its protocol in every epoch",
"""For every number of epochs and batches, training updates the weights once per training batch in training mode with freshly cleared gradients, then evaluates the validation batches in evaluation mode without
gradients or updates, and records one entry per epoch for each of the four loss histories, the mean over batches of the batch loss (or
unweighted reconstruction error) divided by the batch size. The data are standardized whether or not the split is given, all training data are visited in order, and the log and saved results are written inside the model's directory.""",
["inputs","histories"],"all datasets, splits, numbers of epochs, batch sizes and paths",
"one training run with nothing asserted; after its first epoch training was in evaluation mode and no test noticed",
[MO],[("epoch and batch loops","NeuroCausalFactorAnalysis.fit, _train_vae, _valid_vae, log, _data_loader")],observe=["sequence of mode switches, optimizer calls and files written; loss"])

p("C23","Penalized estimators optimize their stated objective and can be sampled",
"""The penalized estimators minimize, over weights W and error variances D, the Gaussian discrepancy trace(S inv(Sigma)) + logdet(Sigma) or the squared Frobenius norm of S - Sigma, where S is the sample covariance and Sigma
= W'W + D, each plus lambda times the nuclear norm and mu times the entrywise L1 norm of W, and the validation losses evaluate the same expressions at the estimates. Once
fitted by a method the model samples latents times the fitted weights plus normal errors with the fitted variances; sampling or fitting with an unknown method, or sampling before fitting, is refused with a ValueError.""",
["inputs","histories"],"all datasets, penalties, methods and call orders",
"no test uses these estimators; sampling after fitting in fact always failed",
[MO],[("objective closures and stored estimates","DevMedil.fit, fit_penalized_mle, fit_penalized_lse, validation_mle, validation_lse, sample")],observe=["objective, estimates and samples of DevMedil"])

p("C24","Graph reduction keeps its bookkeeping consistent",
"""After building a dependence graph's auxiliary structure, edges and their indices correspond one to one, each edge is stored with exactly the common neighbours of its ends (themselves included) and the number
of edges among these. Covering a clique or edges removes exactly those edges, in both directions and no others, from the uncovered edges, and afterwards the count and the index list of the uncovered edges agree with the graph again.""",
["inputs","histories"],"all graphs and all sequences of coverings",
"two fixed graphs are compared with hand-computed tables",
[GR],[("index bijection, common-neighbour table, edge removal","make_aux, add_edges, rm_edges, cover_edges, n_choose_2")],
[("extant_edges_idx, num_edges","uncovered edges by index, and their number",GR),("common_neighbors, nbrhood_edge_counts","closed common neighbourhoods and their edge counts",GR)],observe=["attributes of the graph after each operation"])

p("C25","Structures are exported to graphs without loss",
"""The directed graph exported from a structure has the latents as its first vertices and the measurements after them, with an edge from a latent to a measurement exactly where the structure has one and no
other edges; it is therefore acyclic and determines the structure.""",
["inputs"],"all biadjacency matrices",
"not tested",
[VI],[("biadjacency placed in the latent-to-measurement block","get_dag_from_biadj")],observe=["return value of get_dag_from_biadj"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
