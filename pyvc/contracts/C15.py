from contracts.common import *

def ranks(f, n):
    """Average rank of entry i: the entries below it plus half of one more than those equal to it."""
    less = lambda i: ssum([n], lambda j: z3.If(f(j) < f(i), 1, 0)); eq = lambda i: ssum([n], lambda j: z3.If(f(j) == f(i), 1, 0))
    return lambda i: real(less(i)) + (real(eq(i)) + 1) / 2

def parts(x, y, n):
    N = real(n); fr = lambda i: ranks(y, n)(i) / N; g = lambda i: ranks(lambda j: -y(j), n)(i) / N
    cu = ssum([n], lambda i: g(i) * (1 - g(i))) / N
    R_ = arr.new((n,), "f", ranks(x, n))
    pi = npmodel.argsort_([R_], {}).fn()
    a1 = ssum([num(n) - 1], lambda k: rabs(fr(pi(k + 1)) - fr(pi(k)))) / (2 * N)
    return fr, cu, pi, 1 - a1 / cu

def run(ties):
    def go(ip):
        n = size("n", 1); c = cx(); X, Y = sym_arr("x", (n,), "f"), sym_arr("y", (n,), "f"); F = Frame(x=X, y=Y); x, y = X.fn(), Y.fn()
        r = returns(ip, lambda: call(ip, "independence_testing", "xicorr", X, Y, ties) if ties is not None else call(ip, "independence_testing", "xicorr", X, Y))
        corr, p = r.vals
        fr, cu, pi, xi = parts(x, y, n)
        equal("the xi correlation is its definition", corr, xi)
        N = real(n)
        if ties is False:
            sd = sqrt_(z3.Q(2, 5)); z = sqrt_(N) * xi / sd
        else:
            q = npmodel.sort_copy(arr.new((n,), "f", fr)).fn(); w = lambda i: 2 * N - 2 * (real(i) + 1) + 1
            ai = ssum([n], lambda i: w(i) * q(i) * q(i)) / N / N; ci = ssum([n], lambda i: w(i) * q(i)) / N / N
            m = lambda i: (ssum([num(i) + 1], lambda j: q(j)) + (N - (real(i) + 1)) * q(i)) / N
            b = ssum([n], lambda i: m(i) * m(i)) / N
            v = (ai - 2 * b + ci * ci) / (cu * cu)
            z = sqrt_(N) * xi / sqrt_(v)
        equal("the p-value is one minus the normal cdf of the standardized correlation", p, 1 - uf("Phi", R, R)(acsort(z3.simplify(z, som=True))))
        F.check()
    return go

def order(ip):
    """The order used sorts x: argsort of the ranks is a permutation along which x does not decrease."""
    n = size("n", 1); c = cx(); x = sym_arr("x", (n,), "f").fn(); rk = ranks(x, n)
    pi = npmodel.argsort_([arr.new((n,), "f", rk)], {}).fn()
    a, b, j = c.int("a"), c.int("b"), c.int("j"); c.assume(inr(a, n), inr(b, n), x(a) > x(b))
    # if x(a) > x(b) then everything not above b is below a, and both counts of equals are at least 1
    lt = lambda i: (lambda j: z3.If(x(j) < x(i), 1, 0)); eq = lambda i: (lambda j: z3.If(x(j) == x(i), 1, 0))
    le = lambda i: (lambda j: z3.If(x(j) <= x(i), 1, 0))
    sum_equal("everything not above b is below or equal", [n], lambda j: lt(b)(j) + eq(b)(j), le(b))
    sum_le("not above b implies below a", [n], le(b), lt(a))
    eqa, eqb = ssum([n], eq(a)), ssum([n], eq(b))
    c.oblige("a greater value has a greater rank", rk(a) > rk(b))

def refuse(ip):
    n, m = size("n"), size("m"); c = cx(); c.assume(n != m); X, Y = sym_arr("x", (n,), "f"), sym_arr("y", (m,), "f")
    raises("ValueError", lambda: call(ip, "independence_testing", "xicorr", X, Y), "samples of unequal length are refused")

def empty(ip):
    X, Y = sym_arr("x", (0,), "f"), sym_arr("y", (0,), "f")
    r = returns(ip, lambda: call(ip, "independence_testing", "xicorr", X, Y))
    cx().oblige("empty samples give nan", all(isinstance(v, float) and v != v for v in r.vals))

def wrapper(ip):
    """xicor_test returns the p-value of its two rows."""
    n = size("n", 1); X = sym_arr("xy", (2, n), "f"); f = X.fn()
    p = returns(ip, lambda: call(ip, "independence_testing", "xicor_test", X))
    q = returns(ip, lambda: call(ip, "independence_testing", "xicorr", arr.getitem(X, 0), arr.getitem(X, 1)))
    equal("xicor_test is xicorr's p-value for the first row and the second", p, q.vals[1])

def lemma_monotone(ip):
    """Ranks do not change under strictly increasing transformations, and everything else is computed from ranks."""
    n = size("n", 1); c = cx(); x = sym_arr("x", (n,), "f").fn(); h = c.fn("h", R, R); a, b, i = z3.Real("ha"), z3.Real("hb"), c.int("i")
    c.axiom(z3.ForAll([a, b], z3.Implies(a < b, h(a) < h(b)), patterns=[z3.MultiPattern(h(a), h(b))])); c.assume(inr(i, n))
    equal("lemma: ranks of the transformed sample", ranks(lambda j: h(x(j)), n)(i), ranks(x, n)(i))
    equal("lemma: ranks of the negated transformed sample", ranks(lambda j: -h(x(j)), n)(i), ranks(lambda j: -x(j), n)(i))

def goals(): return [Goal("xicorr[ties]", run(True)), Goal("xicorr[default]", run(None)), Goal("xicorr[no ties]", run(False)), Goal("sorting order", order), Goal("xicorr[unequal]", refuse), Goal("xicorr[empty]", empty), Goal("xicor_test", wrapper), Goal("lemma_monotone", lemma_monotone)]
