from contracts.common import *
import loops

def fit(mode):
    def go(ip):
        n, M, L = size("n", 2), size("M", 1), size("L", 1); c = cx(); X = sym_arr("dataset", (n, M), "f"); x = X.fn(); F = Frame(dataset=X)
        kw = {}; E = int01("biadj", (L, M), "b"); e = E.fn(); U = symmetric01("udg", M, "b"); u = U.fn()
        if mode in ("structure", "both"): kw["biadj"] = E
        if mode in ("graph", "both"): kw["udg"] = U
        m = ip.call(func(ip, "models", "GaussianMCM"), [], kw); calls = []
        # callees under their contracts (C04: the learnt structure; C12: the estimated graph)
        def learn(ip_, f, args, k): calls.append(("learn", args[0] if args else k.get("graph"))); return E
        def est(ip_, f, args, k):
            me = args[0]; calls.append(("estimate", me.attrs.get("dataset"))); me.attrs["udg"] = U; return None
        ip.contracts["ecc_algorithms.find_heuristic_1pc"] = learn; ip.contracts["models.GaussianMCM._estimate_udg"] = est
        c.ghost["given"] = True
        r = returns(ip, lambda: ip.call(ip.getattr(m, "fit"), [X], {}))
        c.oblige("fit returns the model", r is m)
        if mode in ("structure", "both"):
            c.oblige("nothing is learnt when the structure is given", not calls)
        else:
            c.oblige("the structure is learnt once", [k for k, _ in calls].count("learn") == 1)
            g = [a for k, a in calls if k == "learn"][0] if calls else None
            c.oblige("the structure is learnt from the model's graph", isinstance(g, Arr) and g is m.attrs["udg"])
            if mode == "none": c.oblige("the graph is estimated from the dataset", any(k == "estimate" and (a is X or a.buf is X.buf) for k, a in calls))
            else: c.oblige("a given graph is kept", not any(k == "estimate" for k, _ in calls))
        if mode != "none" and mode != "structure" and shape_is("graph", m.attrs["udg"], (M, M)): entries("the given graph is kept", m.attrs["udg"], lambda i, j: u(i, j))
        B_ = m.attrs["biadj"]
        if not shape_is("structure", B_, (L, M)): return
        entries("the structure is the given or learnt one", B_, lambda i, j: e(i, j))
        P = m.attrs["parameters"].attrs; W, v, mu = P["biadj_weights"], P["error_variances"], P["error_means"]
        if not (shape_is("weights", W, (L, M)) and shape_is("error variances", v, (M,)) and shape_is("error means", mu, (M,))): return
        entries("error means are the column means", mu, lambda j: ssum([n], lambda o: x(o, j)) / real(n))
        pointwise("weights are zero off the structure", (L, M), lambda i, j: z3.Implies(z3.Not(tobool(e(i, j))), W.at(i, j) == 0))
        ms = [q for k, q in [ev for ev in flat(c.events) if ev[0] == "minimize"]]
        c.oblige("one optimization", len(ms) == 1)
        if len(ms) != 1: return
        q = ms[0]
        if q["extra"] or set(q["kw"]) - {"method"}: raise Unsupported("options of the optimizer")
        nw = ssum([L, M], lambda i, j: z3.If(tobool(e(i, j)), 1, 0)); y = q["x"]; yf = y.fn(); w, vv = W.fn(), v.fn()
        c.oblige("one parameter per edge and per measurement", num(arr.size(q["x0"])) == nw + num(M))
        cov = npmodel.cov_term(lambda k, o: x(o, k), M, n, 1)
        # the objective at an arbitrary point y equals the covariance distance at the parameters read off y as the fit reads them off the minimizer
        val = ip.call(q["fun"], [y], {})
        spec = ssum([M, M], lambda i, j: (lambda d: d * d)(cov(i, j) - ssum([L], lambda l: w(l, i) * w(l, j)) - z3.If(i == j, vv(i), z3.RealVal(0))))
        equal("the objective is the summed squared difference between sample and model covariance, at every point", val, spec)
        cnt, rank, en = arr.rank_of_mask(E)
        k = c.int("k"); c.assume(inr(k, M))
        first = c.quick(vv(k) == yf(num(nw) + k)) is not False and c.quick(vv(k) == yf(k)) is not True
        pointwise("every error variance is a parameter of its own", (M,), lambda j: vv(j) == yf(num(nw) + j if first else j))
        pointwise("every weight on the structure is a parameter of its own", (L, M), lambda i, j: z3.Implies(tobool(e(i, j)), w(i, j) == yf(rank(i, j) if first else num(M) + rank(i, j))))
        F.check()
    return go

def goals(): return [Goal(f"GaussianMCM.fit[{k} given]", fit(k)) for k in ("structure", "graph", "both", "none")]
