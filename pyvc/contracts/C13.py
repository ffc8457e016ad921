from contracts.common import *

def pairwise(method):
    def go(ip):
        n, p = size("n", 1), size("p", 0); c = cx(); X = sym_arr("sample", (n, p), "f"); F = Frame(sample=X); x = X.fn(); a = c.const("alpha", R)
        T = c.lib
        test = "dcor_test" if method == "dcov_big" else "xicor_test"
        # the pairwise test under its contract: the p-value is a function of the two samples, in this order
        def pv(f, g):
            t = lib_term("pvalue:" + test, [n], [lambda o: real(f(o)), lambda o: real(g(o))], [(R, 0)])
            return t[0]()
        def contract(ip_, f, args, kw):
            xy = args[0]; r0, r1 = ip_.unpack(xy, 2, [False, False])
            f0, f1 = r0.fn(), r1.fn()
            return pv(f0, f1)
        ip.contracts[f"independence_testing.{test}"] = contract
        udg, P = returns(ip, lambda: call(ip, "independence_testing", "estimate_UDG", X, method, a))
        if shape_is("udg", udg, (p, p)) and shape_is("p-values", P, (p, p)):
            c.oblige("udg is boolean", udg.dtype == "b")
            col = lambda v: (lambda o: x(o, v))
            i, j = c.int("i"), c.int("j")
            c.local.append([inr(i, p), inr(j, p), i < j])
            try:
                q = pv(col(i), col(j))
                c.oblige("p-value of the pair, lower-numbered variable first", z3.And(P.at(i, j) == q, P.at(j, i) == q))
                c.oblige("joined exactly when the p-value is below the significance level", z3.And(tobool(udg.at(i, j)) == (q < a), tobool(udg.at(j, i)) == (q < a)))
            finally: c.local.pop()
            pointwise("no self-loops, zero diagonal of the p-values", (p,), lambda i: z3.And(z3.Not(tobool(udg.at(i, i))), P.at(i, i) == 0))
        F.check()
    return go

def supplied(ip):
    n, p = size("n"), size("p"); c = cx(); X, Q = sym_arr("sample", (n, p), "f"), sym_arr("pvals", (p, p), "f"); F = Frame(sample=X, p_vals=Q); q = Q.fn(); a = c.const("alpha", R)
    udg, P = returns(ip, lambda: call(ip, "independence_testing", "estimate_UDG", X, Q, a))
    if shape_is("udg", udg, (p, p)):
        c.oblige("udg is boolean", udg.dtype == "b")
        pointwise("thresholded exactly, no self-loops", (p, p), lambda i, j: tobool(udg.at(i, j)) == z3.And(i != j, q(i, j) < a))
    if shape_is("returned p-values", P, (p, p)): entries("the supplied p-values are returned", P, lambda i, j: q(i, j))
    F.check()

def dcov_fast(default):
    def go(ip):
        n, p = size("n", 1), size("p"); c = cx(); X = sym_arr("sample", (n, p), "f"); F = Frame(sample=X); a = c.const("alpha", R) if not default else z3.Q(1, 20)
        C, D = sym_arr("dcov", (p, p), "f"), sym_arr("d_bars", (p,), "f"); Cf, Df = C.fn(), D.fn()
        def contract(ip_, f, args, kw):
            c.oblige("distance covariance of the sample itself", args[0] is X or args[0].buf is X.buf, "pre"); return (C, D)
        ip.contracts["independence_testing.dcov"] = contract
        udg, P = returns(ip, lambda: call(ip, "independence_testing", "estimate_UDG", X) if default else call(ip, "independence_testing", "estimate_UDG", X, "dcov_fast", a))
        c.oblige("no p-values are returned", P is None)
        if shape_is("udg", udg, (p, p)):
            c.oblige("udg is boolean", udg.dtype == "b")
            crit = uf("chi2ppf", R, R, R)(z3.RealVal(1), z3.simplify(1 - a))
            pointwise("joined exactly when n * dcov / (product of mean distances) reaches the chi-square(1) critical value, no self-loops", (p, p),
                      lambda i, j: tobool(udg.at(i, j)) == z3.And(i != j, real(n) * Cf(i, j) / (Df(i) * Df(j)) >= crit))
        F.check()
    return go

def goals(): return [Goal("estimate_UDG[xicor]", pairwise("xicor")), Goal("estimate_UDG[dcov_big]", pairwise("dcov_big")), Goal("estimate_UDG[p-values]", supplied), Goal("estimate_UDG[dcov_fast]", dcov_fast(False)), Goal("estimate_UDG[default]", dcov_fast(True))]
