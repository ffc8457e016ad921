from contracts.common import *

def sigma(W, D, l, m):
    w, d = W.fn(), D.fn()
    return arr.new((m, m), "f", lambda i, j: ssum([l], lambda t: real(w(t, i)) * real(w(t, j))) + real(d(i, j)))

def cov_of(X, n, m):
    x = X.fn(); f = npmodel.cov_term(lambda v, o: real(x(o, v)), m, n, 1); return arr.new((m, m), "f", lambda i, j: f(i, j))

def penalties(W, l, m, lam, mu):
    w = W.fn(); nuc = npmodel.npnorm_([W, "nuc"], {})
    return lam * real(nuc) + mu * ssum([l, m], lambda i, j: rabs(real(w(i, j))))

def objective_is(what, val, meth, S, W, D, l, m, lam, mu):
    """val is the stated objective at (W, D)."""
    c = cx(); Sg = sigma(W, D, l, m); s = S.fn()
    if meth == "lse":
        sg = Sg.fn(); equal(what, val, ssum([m, m], lambda i, j: (s(i, j) - sg(i, j)) * (s(i, j) - sg(i, j))) + penalties(W, l, m, lam, mu)); return
    inv = npmodel.inv_([Sg], {}); iv = inv.fn()
    sign, ld = npmodel.slogdet_([Sg], {}); sign2, ld2 = npmodel.slogdet_([inv], {})
    c.assume(sign2 == sign, ld2 == -ld); c.assumed.add("linear algebra: the inverse has the same sign and the negated logarithm of the determinant")
    if isinstance(val, float): c.oblige(what + " (infinite only where the determinant of Sigma is not positive)", z3.And(z3.BoolVal(val == float("inf")), sign <= 0)); return
    c.oblige(what + " (finite only where the determinant of Sigma is positive)", sign > 0)
    equal(what, val, ssum([m, m], lambda i, j: real(s(i, j)) * real(iv(j, i))) + ld + penalties(W, l, m, lam, mu))

def fitted(ip, d, X, n, m, l, meth, lam, mu):
    """After fitting: the estimates are read off the optimizer's minimizer of the stated objective."""
    c = cx(); W, D = d.attrs["W_hat"], d.attrs["D_hat"]
    ms = [ev[1] for ev in flat(c.events) if ev[0] == "minimize"]; c.oblige("one optimization", len(ms) == 1)
    if len(ms) != 1 or not shape_is("weights", W, (l, m)) or not shape_is("error covariance", D, (m, m)): return
    q = ms[0]; y = q["x"]; yf = y.fn(); w, dd = W.fn(), D.fn()
    if q["extra"] or set(q["kw"]) - {"method"}: raise Unsupported("options of the optimizer")
    c.oblige("one parameter per weight and per measurement", num(arr.size(q["x0"])) == num(l) * num(m) + num(m))
    pointwise("the error covariance is diagonal", (m, m), lambda i, j: z3.Implies(i != j, dd(i, j) == 0))
    k = c.int("k"); c.assume(inr(k, m)); L = num(l) * num(m)
    pointwise("every error variance is the magnitude of a parameter of its own", (m,), lambda j: dd(j, j) == rabs(yf(L + j)))
    pointwise("every weight is a parameter of its own", (l, m), lambda i, j: w(i, j) == yf(i * num(m) + j))
    for nm, v in (("W_hat_" + meth, W), ("D_hat_" + meth, D)):
        a = d.attrs.get(nm)
        if isinstance(a, Arr) and shape_is(nm, a, v.shape): entries(f"{nm} keeps the estimates for sampling", a, v.fn())
        else: c.oblige(f"{nm} keeps the estimates for sampling", False)
    val = ip.call(q["fun"], [y], {})
    objective_is("the optimizer is given the stated objective", val, meth, cov_of(X, n, m), W, D, l, m, lam, mu)

def fit(meth, via, opc):
    def go(ip):
        n, m = size("n", 2), size("m", 1 if opc else 2); c = cx(); X = sym_arr("dataset", (n, m), "f"); F = Frame(dataset=X); g = given_rng()
        d = ip.call(func(ip, "models", "DevMedil"), [], {"rng": g, "one_pure_child": opc}); lam, mu = c.const("lambda", R), c.const("mu", R)
        l = m if opc else dim(num(m) * num(m) / 4)
        if via == "direct": r = returns(ip, lambda: ip.call(ip.getattr(d, "fit_penalized_" + meth), [X, lam, mu], {}))
        elif via == "fit": r = returns(ip, lambda: ip.call(ip.getattr(d, "fit"), [X, meth, lam, mu], {}))
        else: lam = mu = z3.Q(1, 10); r = returns(ip, lambda: ip.call(ip.getattr(d, "fit"), [X], {"method": meth}))
        c.oblige("fit returns the model", r is d)
        fitted(ip, d, X, n, m, l, meth, lam, mu); rng_only(g, "the starting point is drawn from the model's generator"); F.check()
    return go

def validation(meth):
    def go(ip):
        n, m, l = size("n", 2), size("m", 1), size("l", 1); c = cx(); Y = sym_arr("data", (n, m), "f"); d = ip.call(func(ip, "models", "DevMedil"), [], {"rng": given_rng()}); lam, mu = c.const("lambda", R), c.const("mu", R)
        W, D = sym_arr("W", (l, m), "f"), sym_arr("D", (m, m), "f"); d.attrs["W_hat"] = W; d.attrs["D_hat"] = D; F = Frame(data=Y, W_hat=W, D_hat=D)
        v = returns(ip, lambda: ip.call(ip.getattr(d, "validation_" + meth), [lam, mu, Y], {}))
        objective_is("the validation loss is the stated expression at the estimates", v, meth, cov_of(Y, n, m), W, D, l, m, lam, mu)
        F.check()
    return go

def sample(meth, default):
    def go(ip):
        l, m, n = size("l", 1), size("m", 1), size("n", 0); c = cx(); g = given_rng(); d = ip.call(func(ip, "models", "DevMedil"), [], {"rng": g})
        W, v = sym_arr("W", (l, m), "f"), sym_arr("v", (m,), "f"); w, s = W.fn(), v.fn(); D = arr.new((m, m), "f", lambda i, j: z3.If(num(i) == num(j), s(i), z3.RealVal(0)), "D")
        # fitted by this method, and afterwards possibly by the other one
        W2, D2 = sym_arr("otherW", (l, m), "f"), sym_arr("otherD", (m, m), "f"); o = "lse" if meth == "mle" else "mle"
        for k, x in (("W_hat_" + meth, W), ("D_hat_" + meth, D), ("W_hat_" + o, W2), ("D_hat_" + o, D2), ("W_hat", W2), ("D_hat", D2)): d.attrs[k] = x
        F = Frame(W=W, D=D)
        normal_rows(lambda: returns(ip, lambda: ip.call(ip.getattr(d, "sample"), [n] if default else [n, meth], {})), n, m, lambda j: z3.RealVal(0), lambda i, j: ssum([l], lambda t: w(t, i) * w(t, j)) + z3.If(i == j, s(i), z3.RealVal(0)), g)
        F.check()
    return go

def refused(what, meth=None):
    def go(ip):
        n, m = size("n", 2), size("m", 1); X = sym_arr("dataset", (n, m), "f"); d = ip.call(func(ip, "models", "DevMedil"), [], {"rng": given_rng()})
        if what == "other":
            o = "lse" if meth == "mle" else "mle"; W, D = sym_arr("W", (m, m), "f"), sym_arr("D", (m, m), "f")
            for k, x in (("W_hat_" + o, W), ("D_hat_" + o, D), ("W_hat", W), ("D_hat", D)): d.attrs[k] = x
        f = {"fit": lambda: ip.call(ip.getattr(d, "fit"), [X, "ols"], {}), "sample": lambda: ip.call(ip.getattr(d, "sample"), [n, "ols"], {}), "before": lambda: ip.call(ip.getattr(d, "sample"), [n, meth], {}), "other": lambda: ip.call(ip.getattr(d, "sample"), [n, meth], {})}[what]
        raises("ValueError", f, "refused")
    return go

def goals():
    g = [Goal(f"DevMedil.fit[{k}, {v}{'' if o else ', general'}]", fit(k, v, o)) for k in ("mle", "lse") for v, o in (("direct", True), ("fit", True), ("default", True), ("direct", False))]
    g += [Goal(f"DevMedil.validation_{k}", validation(k)) for k in ("mle", "lse")] + [Goal(f"DevMedil.sample[{k}]", sample(k, False)) for k in ("mle", "lse")] + [Goal("DevMedil.sample[default]", sample("mle", True))]
    g += [Goal("DevMedil.fit[unknown method]", refused("fit")), Goal("DevMedil.sample[unknown method]", refused("sample"))] + [Goal(f"DevMedil.sample[{k} {w}]", refused(x, k)) for k in ("mle", "lse") for w, x in (("before fitting", "before"), ("fitted by the other method only", "other"))]
    return g
