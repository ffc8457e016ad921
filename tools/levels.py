"""id -> (level, technique, note) for gen_manifest.py."""
PV = "contract-based deductive verification (pyvc obligations over the AST of /repo, z3/cvc5)"
B = "contract evaluated on the real code over enumerated and random inputs (bounded stand-in)"
RT = " The same contract is also evaluated on the real code for a bounded input set, to find failing inputs to replay."
P = lambda n: ("proof", PV, n + RT)
LEVELS = {
"C01": P("All sizes: rules, reductions, copies, the undoing of removals and the search loop, over a ghost history of removals and chosen cliques; clique enumeration by contract C03, marking of covered edges by C24; partial correctness (termination of the search is not proved)."),
"C02": ("exploration", B, "Bounded: all graphs to 5 vertices (6 in thorough) against an exact cover solver. Minimality over all covers is beyond per-function contracts. One open finding (depth limit) is listed by failing input."),
"C03": P("All sizes: invariant over the explicit stack, ghost multiplicity of an arbitrary maximal clique; partial correctness (termination not proved)."),
"C04": P("All sizes; max_cliques enters by its contract (C03); assumed lemma: every clique extends to a maximal one."),
"C05": P("All sizes; max_cliques by its contract (C03); assumed lemma: pigeonhole."),
"C06": P("All sizes and densities; generator methods by contract."),
"C07": P("All sizes and densities; find_clique_min_cover by its contract (C01)."),
"C08": P("All structures and generators; generator methods by contract."),
"C09": P("Two runs with generators in equal states return equal results and leave equal states, no other source of randomness is touched."),
"C10": P("All models; ghost law of the returned array, computed by affine transport of the generator's contract."),
"C11": P("All structures and data; scipy minimize is assumed to return its numerical minimizer of the objective it is given, so the minimum is relative to that."),
"C12": P("All data and structures over the reals."),
"C13": P("All data, tests and process pools (Pool.map by contract)."),
"C14": P("All data over the reals."),
"C15": P("All data over the reals; rank invariance by a relational (two-run) contract."),
"C16": P("All structures over the reals."),
"C17": P("All pairs of weights over the reals; itertools.permutations by contract."),
"C18": P("Frame conditions of all the other contracts, for inputs of any size."),
"C19": P("All structures and layer widths; torch operations by contract; relational contracts over the input gradient and dependence."),
"C20": P("All inputs; torch operations by contract."),
"C21": P("All inputs over the reals; torch operations by contract."),
"C22": P("All datasets, epochs and batches; torch, scikit-learn and the model's callees by contract."),
"C23": P("All data, structures and penalties; numpy linear algebra and scipy minimize by contract."),
"C24": P("All graphs with at least one edge and all sequences of coverings (the state after one covering is again the state before the next)."),
"C25": P("All structures; networkx-like container operations by contract."),
}
