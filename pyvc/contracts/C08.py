from contracts.common import *

def given(ip):
    L, M = size("L", 1), size("M", 1); c = cx(); E = int01("biadj", (L, M), "b"); F = Frame(biadj=E); e = E.fn(); g = given_rng()
    m = returns(ip, lambda: call(ip, "sample", "mcm", g, "Gaussian", E))
    post(ip, m, E, e, L, M)
    entries("the model keeps the structure it was given", m.attrs["biadj"], lambda i, j: e(i, j))
    F.check()

def post(ip, m, E, e, L, M):
    c = cx(); P = m.attrs["parameters"].attrs
    W, mu, v = P["biadj_weights"], P["error_means"], P["error_variances"]
    if shape_is("weights", W, (L, M)):
        def body(i, j):
            w = real(W.at(i, j)); a = rabs(w)
            return z3.If(tobool(e(i, j)), z3.And(a >= z3.Q(1, 2), a < 2), w == 0)
        pointwise("weights are zero off the structure, of magnitude in [0.5, 2) on it", (L, M), body)
    if shape_is("error means", mu, (M,)): pointwise("error means have magnitude below 2", (M,), lambda i: rabs(real(mu.at(i))) < 2)
    if shape_is("error variances", v, (M,)): pointwise("error variances are in [0.5, 2)", (M,), lambda i: z3.And(real(v.at(i)) >= z3.Q(1, 2), real(v.at(i)) < 2))

def drawn(ip):
    """Without a structure one is drawn (sample.biadj under its contract: a boolean matrix) with the options given."""
    L, M = size("L", 1), size("M", 1); c = cx(); E = int01("drawn", (L, M), "b"); e = E.fn(); g = given_rng(); opts = {"num_meas": M, "density": c.const("density", R), "one_pure_child": False}
    def contract(ip_, f, args, kw):
        kw = dict(kw); r = kw.pop("rng", args[0] if args else None)
        c.oblige("the structure is drawn from the given generator", r is g, "pre")
        c.oblige("the options are passed on", set(kw) == set(opts) and all(kw[k] is opts[k] for k in opts), "pre"); return E
    ip.contracts["sample.biadj"] = contract
    m = returns(ip, lambda: call(ip, "sample", "mcm", g, **opts))
    post(ip, m, E, e, L, M)
    entries("the model has the drawn structure", m.attrs["biadj"], lambda i, j: e(i, j))

def refused(name, kind):
    def go(ip):
        L, M = size("L", 1), size("M", 1); E = int01("biadj", (L, M), "b")
        raises(kind, lambda: call(ip, "sample", "mcm", given_rng(), name, E), f"parameterization {name}")
    return go

def goals(): return [Goal("mcm[given structure]", given), Goal("mcm[drawn structure]", drawn), Goal("mcm[VAE]", refused("VAE", "NotImplementedError")), Goal("mcm[unknown]", refused("gaussian", "ValueError"))]
