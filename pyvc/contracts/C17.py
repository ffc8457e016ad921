from contracts.common import *

def run(name, ab):
    def go(ip):
        K, L, n = size("K", 1), size("L"), size("n"); c = cx(); c.assume(L <= K)
        P, T = sym_arr("predicted", (K, n), "f"), sym_arr("true", (L, n), "f"); fr = Frame(predicted_W=P, true_W=T); p, t = P.fn(), T.fn()
        v = rabs if ab else (lambda x: x)
        tt = lambda i, j: z3.If(i < L, t(i, j), z3.RealVal(0))
        dist = lambda q: ssum([K, n], lambda i, j: (v(p(q(i), j)) - v(tt(i, j))) ** 2)
        # an arbitrary competitor
        other = npmodel.new_perm(K, "competitor"); c.ghost.setdefault("perms", []).append(other)
        perm, d = returns(ip, lambda: call(ip, "evaluate", name, P, T))
        if shape_is("permutation", perm, (K,)):
            g = perm.fn()
            pointwise("a permutation: in range", (K,), lambda i: inr(g(i), K))
            pointwise("a permutation: injective", (K, K), lambda i, j: z3.Implies(i != j, g(i) != g(j)))
            equal("the distance is the one this permutation attains", d, dist(g))
            c.oblige("no permutation attains a smaller distance", real(num(d)) <= real(dist(other.at)))
        fr.check()
    return go

def goals(): return [Goal("min_perm_squared_l2_dist", run("min_perm_squared_l2_dist", False)), Goal("min_perm_squared_l2_dist_abs", run("min_perm_squared_l2_dist_abs", True))]
