from contracts.common import *

def dists(f, n, v):
    d = lambda s, t: rabs(real(f(s, v)) - real(f(t, v)))
    N = real(n)
    row = lambda s: ssum([n], lambda t: d(s, t)) / N
    tot = ssum([n, n], lambda s, t: d(s, t)) / (N * N)
    return (lambda s, t: d(s, t) - row(s) - row(t) + tot), tot

def spec_cov(f, n):
    def at(i, j):
        a, b = dists(f, n, i)[0], dists(f, n, j)[0]
        return ssum([n, n], lambda s, t: a(s, t) * b(s, t)) / (real(n) * real(n))
    return at

def run(ip):
    n, p = size("n", 1), size("p", 0); X = sym_arr("samples", (n, p), "f"); fr = Frame(samples=X); f = X.fn()
    cov, bars = returns(ip, lambda: call(ip, "independence_testing", "dcov", X))
    if shape_is("covariances", cov, (p, p)) and shape_is("mean distances", bars, (p,)):
        entries("mean distances are the mean absolute differences", bars, lambda i: dists(f, n, i)[1])
        entries("cov[i,j] is the mean product of doubly centered distances", cov, spec_cov(f, n))
        pointwise("cov is symmetric", (p, p), lambda i, j: cov.at(i, j) == cov.at(j, i))
    fr.check()

def lemma(ip):
    """Shifting changes nothing; rescaling by c scales by |c| (via the distances, which everything else is linear in)."""
    n = size("n", 1); c = cx(); x, y = sym_arr("x", (n,), "f").fn(), sym_arr("y", (n,), "f").fn(); a, k = c.const("a", R), c.const("k", R); s, t = c.int("s"), c.int("t")
    c.oblige("lemma: distances of the shifted and rescaled variable", rabs((k * x(s) + a) - (k * x(t) + a)) == rabs(k) * rabs(x(s) - x(t)))
    # the doubly centered matrices are linear in the distances
    d, e = (lambda s, t: rabs(x(s) - x(t))), (lambda s, t: rabs(y(s) - y(t)))
    def centered(d):
        N = real(n); row = lambda s: ssum([n], lambda t: d(s, t)) / N; tot = ssum([n, n], d) / (N * N)
        return (lambda s, t: d(s, t) - row(s) - row(t) + tot), tot
    m = c.const("m", R)
    A, ta = centered(d); Bm, tb = centered(e); A2, ta2 = centered(lambda s, t: m * d(s, t))
    equal("lemma: mean distance scales", ta2, m * ta)
    N2 = real(n) * real(n)
    equal("lemma: covariance scales", ssum([n, n], lambda s, t: A2(s, t) * Bm(s, t)) / N2, m * ssum([n, n], lambda s, t: A(s, t) * Bm(s, t)) / N2)
    equal("lemma: variance scales twice", ssum([n, n], lambda s, t: A2(s, t) * A2(s, t)) / N2, m * m * ssum([n, n], lambda s, t: A(s, t) * A(s, t)) / N2)

def goals(): return [Goal("dcov", run), Goal("lemma_scale", lemma)]
