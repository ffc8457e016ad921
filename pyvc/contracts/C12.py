from contracts.common import *

def corr(X, n, p):
    f = X.fn(); return npmodel.corr_term(lambda v, o: real(f(o, v)), p, n)

def model(ip, **attrs):
    m = ip.call(func(ip, "models", "GaussianMCM"), [], {})
    for k, v in attrs.items(): m.attrs[k] = v
    return m

def bic_udg(X, n, p):
    """The property's decision for the pair (i, j)."""
    r = corr(X, n, p); eps = z3.Q(1, 100000)
    def at(i, j):
        lo, hi = i, j
        q = r(lo, hi); v = 1 - q * q
        return z3.And(i != j, real(n) * log_(z3.If(v >= eps, v, eps)) + log_(real(n)) < 0)
    return at

def run(ip):
    n, p = size("n", 1), size("p", 1); X = sym_arr("dataset", (n, p), "f"); fr = Frame(dataset=X)
    m = model(ip, dataset=X)
    returns(ip, lambda: ip.call(ip.getattr(m, "_estimate_udg"), [], {}))
    U = m.attrs["udg"]
    if shape_is("udg", U, (p, p)):
        if U.dtype != "b": cx().oblige("udg is boolean", False)
        spec = bic_udg(X, n, p)
        c = cx(); i, j = c.int("i"), c.int("j")
        # the threshold -log(n)/n is not positive
        L = log_(real(n)); c.require("log n is not negative", L >= 0, "lemma"); z = c.const("z", R); c.assume(z * real(n) == -L); c.require("the threshold is not positive", z <= 0, "lemma"); c.require("threshold", (-L) / real(n) == z, "lemma")
        pointwise("no self-loops", (p,), lambda i: z3.Not(U.at(i, i)))
        for nm, rel in (("above the diagonal", i < j), ("below the diagonal", i > j)):
            c.local.append([inr(i, p), inr(j, p), rel])
            try: c.oblige(f"udg[i,j] is the BIC decision for the pair ({nm})", U.at(i, j) == tobool(spec(i, j)))
            finally: c.local.pop()
        pointwise("udg is symmetric", (p, p), lambda i, j: U.at(i, j) == U.at(j, i))
    fr.check()

def lemma_affine(ip):
    """The squared Pearson correlation (definition) of shifted and rescaled variables is unchanged, so the decision is."""
    n = size("n", 2); c = cx(); x, y = sym_arr("x", (n,), "f").fn(), sym_arr("y", (n,), "f").fn()
    a, b, s, t = [c.const(k, R) for k in "abst"]; c.assume(s != 0, t != 0)
    mean = lambda f: ssum([n], lambda o: f(o)) / real(n)
    def cov(f, g):
        mf, mg = mean(f), mean(g)
        return ssum([n], lambda o: (f(o) - mf) * (g(o) - mg))
    xs, ys = (lambda o: s * x(o) + a), (lambda o: t * y(o) + b)
    equal("lemma: the covariance scales by s*t", cov(xs, ys), s * t * cov(x, y))
    equal("lemma: the variance scales by s*s", cov(xs, xs), s * s * cov(x, x))
    cxy, vx, vy = c.const("cxy", R), c.const("vx", R), c.const("vy", R); c.assume(vx > 0, vy > 0)
    equal("lemma: hence the squared correlation is unchanged", (s * t * cxy) ** 2 / ((s * s * vx) * (t * t * vy)), cxy ** 2 / (vx * vy))

def lemma_permute(ip):
    """Permuting the variables permutes the decisions: the decision for a pair reads only the two variables' observations."""
    n, p = size("n", 1), size("p", 1); c = cx(); X = sym_arr("X", (n, p), "f"); pi = npmodel.new_perm(p); f = X.fn()
    Y = arr.new((n, p), "f", lambda o, v: f(o, pi.at(v)))
    i, j = c.int("i"), c.int("j"); c.assume(inr(i, p), inr(j, p), i < j)
    u, v = pi.at(i), pi.at(j)
    c.assume(pi.at(i) < pi.at(j))
    c.oblige("lemma: permuted variables, permuted graph (order kept)", tobool(bic_udg(Y, n, p)(i, j)) == tobool(bic_udg(X, n, p)(u, v)))

def goals(): return [Goal("GaussianMCM._estimate_udg", run), Goal("lemma_affine", lemma_affine), Goal("lemma_permute", lemma_permute)]
