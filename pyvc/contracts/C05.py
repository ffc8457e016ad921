from contracts.C04 import *

def recovered(ip, dtype):
    """graph: induced by a structure M (K x n), p(k) a pure child of latent k, par(v) a parent of measurement v."""
    c = cx(); n, K = size("n", 1), size("K", 1); M = c.fn("structure", I, I, B_); g = c.fn("graph", I, I, B_); p, par, com = c.fn("pure", I, I), c.fn("parent", I, I), c.fn("common", I, I, I); k, l, u, v = c.int("k"), c.int("l"), c.int("u"), c.int("v")
    c.assume(z3.ForAll([k], z3.Implies(inr(k, K), z3.And(inr(p(k), n), M(k, p(k)))), patterns=[p(k)]))
    c.assume(z3.ForAll([k, l], z3.Implies(z3.And(inr(k, K), inr(l, K), M(l, p(k))), l == k), patterns=[M(l, p(k))]))
    c.assume(z3.ForAll([v], z3.Implies(inr(v, n), z3.And(inr(par(v), K), M(par(v), v))), patterns=[par(v)]))
    c.assume(z3.ForAll([u, v], g(u, v) == g(v, u), patterns=[g(u, v)]))
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(inr(u, n), inr(v, n), u != v, g(u, v)), z3.And(inr(com(u, v), K), M(com(u, v), u), M(com(u, v), v))), patterns=[g(u, v)]))
    c.assume(z3.ForAll([k, u, v], z3.Implies(z3.And(inr(k, K), inr(u, n), inr(v, n), u != v, M(k, u), M(k, v)), g(u, v)), patterns=[z3.MultiPattern(M(k, u), M(k, v))]))
    G = arr.new((n, n), dtype, lambda i, j: arr.cast(g(num(i), num(j)), dtype), "graph"); G.meta["g"] = g
    A, inv = run(ip, dtype, G, n); C = c.ghost.get("cliques")
    if C is None or not hasattr(inv, "S"): raise Unsupported("the independent sets are not enumerated")
    if not isinstance(A, Arr) or A.ndim != 2: c.oblige("a matrix", False); return
    L = A.shape[0]; c.oblige("one column per measurement", num(A.shape[1]) == n); a = A.fn(); S = inv.elt; h = lambda i: par(S(i))
    # the pure children are independent, hence L >= K
    C.at_least(K, p, "the pure children are independent"); lemma("at least as many latents", num(L) >= K)
    # the parents of the vertices of the independent set are distinct, hence L <= K; an injection between equally many is onto
    i, j = c.int("i"), c.int("j"); at = c.fn("at", I, I)
    c.oblige("vertices of the independent set have distinct parents", z3.Implies(z3.And(inr(i, L), inr(j, L), i != j), z3.And(inr(h(i), K), h(i) != h(j))), "lemma")
    c.assumed.add("pigeonhole: an injection of [0, L) into [0, K) has L <= K, and is onto if L = K")
    c.assume(num(L) <= K, z3.ForAll([k], z3.Implies(inr(k, K), z3.And(inr(at(k), L), h(at(k)) == k)), patterns=[at(k)]))
    c.oblige("as many latents", num(L) == K)
    # every vertex of the independent set has just that parent
    c.local.append([inr(i, L), inr(k, K), M(k, S(i))])
    try:
        lemma("a latent of a vertex of the independent set is the parent of some vertex of it", z3.And(inr(at(k), L), h(at(k)) == k, M(k, S(at(k)))))
        lemma("other vertices of the independent set are not adjacent to it", z3.Implies(at(k) != i, z3.And(S(at(k)) != S(i), z3.Not(g(S(at(k)), S(i))))))
        lemma("vertices sharing it would be", z3.Implies(S(at(k)) != S(i), g(S(at(k)), S(i))))
        c.oblige("the vertices of the independent set are pure children", k == h(i), "lemma")
    finally: c.local.pop()
    c.assume(z3.ForAll([i, k], z3.Implies(z3.And(inr(i, L), inr(k, K), M(k, S(i))), k == h(i)), patterns=[M(k, S(i))]))
    b0 = inv.B0
    c.local.append([inr(i, L), inr(v, n)])
    try: lemma("the row of a vertex of the independent set is its parent's row", tobool(b0(i, v)) == M(h(i), v))
    finally: c.local.pop()
    c.assume(z3.ForAll([i, v], z3.Implies(z3.And(inr(i, L), inr(v, n)), tobool(b0(i, v)) == M(h(i), v)), patterns=[inv.B(i, v)]))
    # hence no edge is left to the loop
    W = inv.W; z = z3.IntVal(0); c.local.append([W.N > 0, inr(W.es(z), W.ps.n)])
    try:
        e = W.elem(z); u0, v0 = num(e[0]), num(e[1]); cm = com(u0, v0); q = at(cm)
        lemma("an uncovered edge joins adjacent measurements", z3.And(inr(u0, n), inr(v0, n), u0 != v0, g(u0, v0)))
        lemma("they share a latent", z3.And(inr(cm, K), inr(q, L), h(q) == cm, M(cm, u0), M(cm, v0)))
        lemma("whose row covers them", z3.And(tobool(b0(q, u0)), tobool(b0(q, v0))))
        c.oblige("no edge is uncovered", False, "lemma")
    finally: c.local.pop()
    c.assume(W.N == 0)
    pointwise("the structure is recovered, up to the order of the latents", (L, n), lambda i, v: tobool(a(i, v)) == M(h(i), v))

def goals(): return [Goal(f"find_heuristic_1pc[{d}]", lambda ip, d=d: recovered(ip, d)) for d in "bi"]
