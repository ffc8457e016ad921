from contracts.common import *

def sample(ip):
    L, M, n = size("L", 1), size("M", 1), size("n", 0); c = cx(); g = given_rng()
    E = int01("biadj", (L, M), "b"); m = ip.call(func(ip, "models", "GaussianMCM"), [], {"biadj": E, "rng": g})
    W, mu, v = sym_arr("W", (L, M), "f"), sym_arr("mu", (M,), "f"), sym_arr("v", (M,), "f"); w, u, s = W.fn(), mu.fn(), v.fn()
    P = m.attrs["parameters"]; P.attrs["biadj_weights"] = W; P.attrs["error_means"] = mu; P.attrs["error_variances"] = v
    F = Frame(biadj_weights=W, error_means=mu, error_variances=v)
    normal_rows(lambda: returns(ip, lambda: ip.call(ip.getattr(m, "sample"), [n], {})), n, M, lambda j: u(j),
                lambda i, j: ssum([L], lambda l: w(l, i) * w(l, j)) + z3.If(i == j, s(i), z3.RealVal(0)), g)
    F.check()

def goals(): return [Goal("GaussianMCM.sample", sample)]
