from contracts.common import *

def biadj(opc, known):
    def go(ip):
        n = size("n", 2 if not known else 1); c = cx(); g = given_rng()
        if opc:
            kw = {"num_meas": n, "rng": g}
            if known:
                L = size("L", 1); c.assume(L <= n); d = c.const("density", R); c.assume(d >= 0, d <= 1); kw.update(num_latent=L, density=d)
            else: kw.update(density=None)
        else:
            d = c.const("density", R); c.assume(d >= 0, d <= 1); kw = {"num_meas": n, "rng": g, "density": d, "one_pure_child": False}
            ip.contracts["ecc_algorithms.find_clique_min_cover"] = lambda ip_, f, a, k: int01("cover", (size("k"), n), "i")
        returns(ip, lambda: call(ip, "sample", "biadj", **kw))
        rng_only(g)
        c.oblige("something is drawn", bool([e for e in flat(c.events) if e[0] == "rng"]) or not opc, "lemma")
    return go

def mcm(given):
    def go(ip):
        L, M = size("L", 1), size("M", 1); c = cx(); E = int01("biadj", (L, M), "b"); g = given_rng(); got = []
        def contract(ip_, f, args, kw):
            got.append(kw.get("rng", args[4] if len(args) > 4 else None)); return E
        ip.contracts["sample.biadj"] = contract
        m = returns(ip, lambda: call(ip, "sample", "mcm", g, "Gaussian", E) if given else call(ip, "sample", "mcm", g, num_meas=M))
        rng_only(g)
        if not given: c.oblige("the structure is drawn from the given generator", all(x is g for x in got) and len(got) == 1)
    return go

def sample(ip):
    L, M, n = size("L", 1), size("M", 1), size("n", 0); c = cx(); g = given_rng()
    m = ip.call(func(ip, "models", "GaussianMCM"), [], {"biadj": int01("biadj", (L, M), "b"), "rng": g})
    P = m.attrs["parameters"]; P.attrs["biadj_weights"] = sym_arr("W", (L, M), "f"); P.attrs["error_means"] = sym_arr("mu", (M,), "f"); P.attrs["error_variances"] = sym_arr("v", (M,), "f")
    returns(ip, lambda: ip.call(ip.getattr(m, "sample"), [n], {}))
    rng_only(g, "draws only from the model's generator")
    c.oblige("the model's generator is used", len([e for e in flat(c.events) if e[0] == "rng"]) > 0)

def goals(): return [Goal("biadj[one pure child]", biadj(True, True)), Goal("biadj[one pure child, size and density drawn]", biadj(True, False)), Goal("biadj[general]", biadj(False, True)), Goal("mcm[given structure]", mcm(True)), Goal("mcm[drawn structure]", mcm(False)), Goal("GaussianMCM.sample", sample)]
