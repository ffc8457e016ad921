from contracts.common import *

def shared(b, L, i, j): return ssum([L], lambda l: z3.If(z3.And(tobool(b(l, i)), tobool(b(l, j))), 1, 0))

def recover(dt):
    def run(ip):
        L, n = size("L"), size("n"); B = int01("biadj", (L, n), dt); fr = Frame(biadj_mat=B)
        r = returns(ip, lambda: call(ip, "evaluate", "recover_ug", B))
        if shape_is("ug", r, (n, n)):
            b = B.fn()
            pointwise("ug joins exactly the pairs of distinct measurements sharing a latent", (n, n),
                      lambda i, j: tobool(r.at(i, j)) == z3.And(i != j, exists([L], lambda l: z3.And(tobool(b(l, i)), tobool(b(l, j))))))
        fr.check()
    return run

def sfd(dp, dt, same=False):
    def run(ip):
        K, L, n = size("K"), size("L"), size("n")
        P, T = int01("predicted", (K, n), dp), int01("true", (L, n), dt)
        if same: T, L = P, K
        fr = Frame(predicted=P, true=T); p, t = P.fn(), T.fn()
        d, h = returns(ip, lambda: call(ip, "evaluate", "sfd", P, T))
        equal("sfd is the sum of squared differences of the shared-latent counts", d,
              ssum([n, n], lambda i, j: (shared(t, L, i, j) - shared(p, K, i, j)) ** 2))
        sh = lambda b, m, i, j: exists([m], lambda l: z3.And(tobool(b(l, i)), tobool(b(l, j))))
        equal("ushd counts the pairs sharing a latent in exactly one structure", h,
              ssum([n, n], lambda i, j: z3.If(z3.And(i < j, sh(t, L, i, j) != sh(p, K, i, j)), 1, 0)))
        if same:
            equal("sfd of a structure with itself is zero", d, 0); equal("ushd of a structure with itself is zero", h, 0)
        fr.check()
    return run

def lemma_symmetric(ip):
    """From the postconditions: both distances are symmetric."""
    K, L, n = size("K"), size("L"), size("n"); p, t = int01("p", (K, n), "b").fn(), int01("t", (L, n), "b").fn()
    sh = lambda b, m, i, j: exists([m], lambda l: z3.And(tobool(b(l, i)), tobool(b(l, j))))
    S = lambda a, A, b, B_: ssum([n, n], lambda i, j: (shared(b, B_, i, j) - shared(a, A, i, j)) ** 2)
    H = lambda a, A, b, B_: ssum([n, n], lambda i, j: z3.If(z3.And(i < j, sh(b, B_, i, j) != sh(a, A, i, j)), 1, 0))
    equal("lemma: sfd is symmetric", S(p, K, t, L), S(t, L, p, K))
    equal("lemma: ushd is symmetric", H(p, K, t, L), H(t, L, p, K))

def lemma_order(ip):
    """From the postconditions: both depend on a structure only through shared-latent counts, which do not change under reordering of the latents."""
    c = cx(); L, n = size("L"), size("n"); b = int01("b", (L, n), "b").fn()
    p = npmodel.new_perm(L); q = lambda l, i: b(p.at(l), i)
    i, j = c.int("i"), c.int("j"); c.assume(inr(i, n), inr(j, n))
    equal("lemma: shared-latent counts do not depend on the latents' order", shared(b, L, i, j), shared(q, L, i, j))
    c.oblige("lemma: counts determine sharing", (shared(b, L, i, j) > 0) == exists([L], lambda l: z3.And(tobool(b(l, i)), tobool(b(l, j)))))

def goals():
    g = [Goal(f"recover_ug[{d}]", recover(d)) for d in "bi"]
    g += [Goal(f"sfd[{p}{t}]", sfd(p, t)) for p in "bi" for t in "bi"] + [Goal("sfd[self]", sfd("b", "b", True))]
    return g + [Goal("lemma_symmetric", lemma_symmetric), Goal("lemma_order", lemma_order)]
