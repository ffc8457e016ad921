from contracts.common import *

def post(ip, A, L, n, d):
    c = cx()
    if not shape_is("structure", A, (L, n)): return
    c.oblige("boolean", A.dtype == "b")
    f = A.fn()
    maxe = (num(n) - num(L)) * (num(L) - 1)
    equal("the number of edges is measurements + round(density * (measurements - latents) * (latents - 1))", ssum([L, n], lambda i, j: num(f(i, j))), num(n) + round_(real(maxe) * d))
    i, j = c.int("i"), c.int("j")
    c.local.append([inr(i, L)])
    try: c.oblige("every latent has a pure child", exists([n], lambda j: z3.And(tobool(f(i, j)), forall([L], lambda k: z3.Implies(tobool(f(k, j)), k == i)))))
    finally: c.local.pop()
    c.local.append([inr(j, n)])
    try: c.oblige("every measurement has a latent parent", exists([L], lambda i: tobool(f(i, j))))
    finally: c.local.pop()

def given(ip):
    n, L = size("n", 1), size("L", 1); c = cx(); c.assume(L <= n); d = c.const("density", R); c.assume(d >= 0, d <= 1)
    A = returns(ip, lambda: call(ip, "sample", "biadj", num_meas=n, density=d, num_latent=L, rng=given_rng()))
    post(ip, A, L, n, d)

def drawn(ip):
    """Without a number of latents (or a density) one is drawn: the result has the promised form for the drawn ones."""
    n = size("n", 2); c = cx(); d = c.const("density", R); c.assume(d >= 0, d <= 1); g = given_rng()
    A = returns(ip, lambda: call(ip, "sample", "biadj", num_meas=n, density=d, rng=g))
    L = num(A.shape[0]); c.oblige("at least one latent and fewer than measurements", z3.And(L >= 1, L < num(n)))
    post(ip, A, L, n, d)

def density_drawn(ip):
    n, L = size("n", 1), size("L", 1); c = cx(); c.assume(L <= n); g = given_rng()
    A = returns(ip, lambda: call(ip, "sample", "biadj", num_meas=n, density=None, num_latent=L, rng=g))
    d = c.const("d", R)
    i, j = c.int("i"), c.int("j"); f = A.fn()
    if shape_is("structure", A, (L, n)):
        c.local.append([inr(i, L)])
        try: c.oblige("every latent has a pure child", exists([n], lambda j: z3.And(tobool(f(i, j)), forall([L], lambda k: z3.Implies(tobool(f(k, j)), k == i)))))
        finally: c.local.pop()
        c.local.append([inr(j, n)])
        try: c.oblige("every measurement has a latent parent", exists([L], lambda i: tobool(f(i, j))))
        finally: c.local.pop()

def goals(): return [Goal("biadj[latents and density given]", given), Goal("biadj[latents drawn]", drawn), Goal("biadj[density drawn]", density_drawn)]
