from contracts.common import *
import torchmodel as tm

def model(ip, **hyper):
    cls = func(ip, "models", "NeuroCausalFactorAnalysis"); o = Obj(cls); o.attrs["hyperparams"] = dict(hyper); return o

def kl(mu, lv, n, l):
    m, v = mu.fn(), lv.fn()
    return ssum([n, l], lambda o, t: (core.exp_(real(v(o, t))) - 1 - real(v(o, t)) + real(m(o, t)) * real(m(o, t))) / 2)

def loss(weights, hyper_beta=False):
    def go(ip):
        n, m, l = size("n", 1), size("m", 1), size("l", 1); c = cx()
        x, xr, lc, mu, lv = sym_arr("x", (n, m), "f"), sym_arr("x_recon", (n, m), "f"), sym_arr("logcov", (n, m), "f"), sym_arr("mu", (n, l), "f"), sym_arr("logvar", (n, l), "f")
        lam, mup, beta = c.const("lambda", R), c.const("mu", R), c.const("beta", R); k, l0 = size("h", 1), size("l0", 1); W = sym_arr("W", (k, l0), "f")
        F = Frame(x=x, x_recon=xr, logcov=lc, mu=mu, logvar=lv, weight=W); T = tm.Tensor
        d = model(ip, **{"lambda": lam, "mu": mup, "beta": c.const("other", R)})
        v = returns(ip, lambda: ip.call(ip.getattr(d, "_elbo_gaussian"), [T(x), T(xr), T(lc), T(mu), T(lv), T(W) if weights else None, beta], {}))
        if not isinstance(v, tm.Tensor) or v.a.ndim: c.oblige("the loss is a scalar tensor", False); return
        f, g, h = x.fn(), xr.fn(), lc.fn(); w = W.fn()
        cov = lambda j: ssum([n], lambda o: core.exp_(real(h(o, j)))) / real(num(n))
        rec = ssum([n], lambda o: ssum([m], lambda j: core.log_(cov(j))) + ssum([m], lambda j: (real(f(o, j)) - real(g(o, j))) * (real(f(o, j)) - real(g(o, j))) / cov(j))) / 2
        pen = lam * real(npmodel.npnorm_([W, "nuc"], {})) + mup * ssum([k, l0], lambda i, j: rabs(real(w(i, j)))) if weights else z3.RealVal(0)
        equal("the loss is the negative beta-weighted Gaussian lower bound" + (" with both penalties" if weights else ""), v.a.scalar(), beta * kl(mu, lv, n, l) + rec + pen); F.check()
    return go

def divergence(ip):
    """The divergence term itself (a lemma over the specification): nonnegative, zero exactly for standard normals."""
    n, l = size("n", 1), size("l", 1); c = cx(); mu, lv = sym_arr("mu", (n, l), "f"), sym_arr("logvar", (n, l), "f"); m, v = mu.fn(), lv.fn()
    t = lambda o, s: (core.exp_(real(v(o, s))) - 1 - real(v(o, s)) + real(m(o, s)) * real(m(o, s))) / 2
    pointwise("every term of the divergence is nonnegative", (n, l), lambda o, s: t(o, s) >= 0, "lemma")
    pointwise("a term of the divergence vanishes only at mean 0 and log-variance 0", (n, l), lambda o, s: z3.Implies(t(o, s) == 0, z3.And(real(m(o, s)) == 0, real(v(o, s)) == 0)), "lemma")
    pointwise("and it does vanish there", (n, l), lambda o, s: z3.Implies(z3.And(real(m(o, s)) == 0, real(v(o, s)) == 0), t(o, s) == 0), "lemma")

def helper(ip):
    n, m = size("n", 1), size("m", 1); c = cx(); cov = sym_arr("cov", (n, m), "f"); d = model(ip)
    r = returns(ip, lambda: ip.call(ip.getattr(d, "_apply_along_axis"), [tm.TORCH["diag"], tm.Tensor(cov)], {"axis": 0}))
    if not isinstance(r, tm.Tensor): c.oblige("a tensor", False); return
    if shape_is("one matrix per observation", r.a, (n, m, m)): f = cov.fn(); entries("diagonal matrices of the rows", r.a, lambda o, i, j: z3.If(num(i) == num(j), real(f(o, i)), z3.RealVal(0)))

def goals():
    return [Goal("_elbo_gaussian[weights]", loss(True)), Goal("_elbo_gaussian[no weights]", loss(False)), Goal("divergence", divergence), Goal("_apply_along_axis", helper)]
