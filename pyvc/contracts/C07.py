from contracts.common import *

def cover_contract(ip, n, calls=None):
    """find_clique_min_cover under its contract (C01): every row a nonempty clique, every edge and every vertex in a row."""
    c = cx()
    def contract(ip_, f, args, kw):
        U = args[0] if args else kw["graph"]; u = U.fn()
        if not shape_is("graph given to the clique cover search", U, (n, n)): raise PathEnd()
        pointwise("the graph given to the clique cover search is symmetric", (n, n), lambda i, j: tobool(u(i, j)) == tobool(u(j, i)), "pre")
        pointwise("the graph given to the clique cover search has ones on its diagonal", (n,), lambda i: tobool(u(i, i)), "pre")
        k = size("rows", 0); C = int01("cover", (k, n), "i"); cv = C.fn(); row, mem = c.fn("row", I, I, I), c.fn("member", I, I)
        r, i, j = c.int("r"), c.int("i"), c.int("j"); b = lambda r, i: tobool(cv(r, i)); t = b(r, i)
        c.axiom(z3.ForAll([r, i, j], z3.Implies(z3.And(inr(r, k), inr(i, n), inr(j, n), b(r, i), b(r, j)), tobool(u(i, j))), patterns=[z3.MultiPattern(b(r, i), b(r, j))] if b(r, i).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
        c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, n), inr(j, n), tobool(u(i, j))), z3.And(inr(row(i, j), k), b(row(i, j), i), b(row(i, j), j))), patterns=[row(i, j)]))
        c.axiom(z3.ForAll([r], z3.Implies(inr(r, k), z3.And(inr(mem(r), n), b(r, mem(r)))), patterns=[mem(r)]))
        c.assumed.add("find_clique_min_cover: contract C01")
        c.ghost["cover"] = (U, C, k, row, mem)
        return C
    ip.contracts["ecc_algorithms.find_clique_min_cover"] = contract

def general(ip):
    n = size("n", 1); c = cx(); d = c.const("density", R); c.assume(d >= 0, d <= 1); g = given_rng()
    cover_contract(ip, n)
    A = returns(ip, lambda: call(ip, "sample", "biadj", num_meas=n, density=d, one_pure_child=False, rng=g))
    if "cover" not in c.ghost: raise Unsupported("the clique cover search is not used")
    U, C, k, row, mem = c.ghost["cover"]; u = U.fn()
    if not shape_is("structure", A, (k, n)): return
    c.oblige("boolean", A.dtype == "b"); a = A.fn(); E = lambda l, i: tobool(a(l, i))
    l = c.int("l"); c.local.append([inr(l, k)])
    try: c.oblige("every latent has a child", z3.And(inr(mem(l), n), E(l, mem(l))))
    finally: c.local.pop()
    i, j = c.int("i"), c.int("j"); c.local.append([inr(j, n)])
    try: c.oblige("every measurement has a parent", z3.And(inr(row(j, j), k), E(row(j, j), j)))
    finally: c.local.pop()
    share = lambda i, j: exists([k], lambda l: z3.And(E(l, i), E(l, j)))
    c.local.append([inr(i, n), inr(j, n), i < j])
    try:
        w = c.const("l", I); fwd = z3.Implies(z3.And(inr(w, k), E(w, i), E(w, j)), tobool(u(i, j)))
        c.oblige("measurements sharing a latent are adjacent in the drawn graph", fwd)
        c.oblige("measurements adjacent in the drawn graph share a latent", z3.Implies(tobool(u(i, j)), z3.And(inr(row(i, j), k), E(row(i, j), i), E(row(i, j), j))))
    finally: c.local.pop()
    maxe = num(n) * (num(n) - 1) / 2
    # by the two obligations above the pairs sharing a latent are the adjacent pairs
    equal("exactly round(density * n * (n - 1) / 2) pairs share a latent", ssum([n, n], lambda i, j: z3.If(z3.And(i < j, tobool(u(i, j))), 1, 0)), round_(real(maxe) * d))

def refused(ip):
    n, L = size("n", 1), size("L", 1); c = cx(); d = c.const("density", R)
    raises("ValueError", lambda: call(ip, "sample", "biadj", num_meas=n, density=d, one_pure_child=False, num_latent=L, rng=given_rng()), "a number of latents in this mode")

def goals(): return [Goal("biadj[general]", general), Goal("biadj[general, number of latents]", refused)]
