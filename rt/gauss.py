import itertools, warnings
import numpy as np
import scipy.optimize
from lib import *

M = mod("models"); EA = mod("ecc_algorithms")


def data(r, n, m, kind=None):
    kind = int(r.integers(0, 5)) if kind is None else kind
    X = r.normal(size=(n, m))
    if kind == 1: X = X @ r.normal(size=(m, m))
    if kind == 2 and m > 1: X[:, 1] = X[:, 0] * r.choice([-2, 1, 3]) + (r.random() < .5) * r.normal(size=n) * .1
    if kind == 3: X = np.round(X @ r.normal(size=(m, m)) * 2)
    if kind == 4: X = X * r.choice([1e-2, 1, 30], m) + r.normal(size=m) * 10
    for j in range(m):
        if np.ptp(X[:, j]) == 0: X[0, j] += 1
    return X


def bic(X):
    n, m = X.shape
    Z = X - X.mean(0); Z = Z / np.sqrt((Z ** 2).mean(0)); R = Z.T @ Z / n
    s = n * np.log(np.maximum(1 - R ** 2, 1e-5)) + np.log(n)
    return s


@prop("C12")
class C12:
    rule = "a dataset; every pair is compared with the BIC rule (pairs closer than 1e-6 to the threshold are left out); non-trivial if three or more variables"
    @staticmethod
    def nontrivial(c): return c["X"]["shape"][1] >= 3
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 12)
        for t in range(2500 if tier == "quick" else 20000):
            n = int(r.choice([2, 3, 4, 5, 8, 12, 20, 50, 200, 1500])); m = int(r.integers(2, 7)); yield {"X": data(r, n, m), "layout": "CFS"[int(r.integers(0, 3))], "seed": int(r.integers(0, 1000))}
    @staticmethod
    def udg(X):
        g = M.GaussianMCM(); g.dataset = X; g._estimate_udg(); return np.asarray(g.udg)
    @staticmethod
    def check(c):
        X = layout(c["X"].astype(float), c["layout"]); n, m = X.shape; u = C12.udg(X)
        need(u.dtype == bool and u.shape == (m, m), "not a boolean square matrix"); need((u == u.T).all(), "not symmetric"); need(not u.diagonal().any(), "a self-loop")
        s = bic(X); ok = np.abs(s) > 1e-6 * (1 + n); np.fill_diagonal(ok, False)
        bad = ok & (u != (s < 0)); need(not bad.any(), f"pair {np.argwhere(bad)[0].tolist() if bad.any() else ''} is not decided by the BIC rule")
        r = np.random.default_rng(c["seed"]); a = r.choice([-1, 1], m) * r.uniform(.05, 20, m); b = r.normal(size=m) * 3; p = r.permutation(m)
        v = C12.udg(X * a + b); need(((v == u) | ~ok).all(), "shifting and rescaling variables changes the graph")
        v = C12.udg(X[:, p]); need(((v == u[np.ix_(p, p)]) | ~ok[np.ix_(p, p)]).all(), "permuting the variables does not permute the graph")


def gobj(S, W, v): return float(((S - W.T @ W - np.diag(v)) ** 2).sum())


@prop("C11")
class C11:
    rule = "a dataset and a given structure, a given graph, or neither; non-trivial if at least two edges are fitted"
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 11)
        for t in range(320 if tier == "quick" else 2500):
            m = int(r.integers(2, 6)); n = int(r.choice([2, 3, 6, 20, 100])); X = data(r, n, m)
            c = {"X": X, "mode": ["biadj", "udg", "none", "both"][t % 4], "layout": "CFS"[int(r.integers(0, 3))]}
            if c["mode"] in ("biadj", "both"): c["biadj"] = r.random((int(r.integers(1, 4)), m)) < r.random()
            if c["mode"] in ("udg", "both"): c["udg"] = rand_graph(r, m, r.random(), int(r.integers(0, 2)), "bool")
            yield c
    @staticmethod
    def check(c):
        X = layout(c["X"].astype(float), c["layout"]); n, m = X.shape; kw = {}
        if "biadj" in c: kw["biadj"] = c["biadj"].astype(bool)
        if "udg" in c: kw["udg"] = c["udg"].astype(bool)
        g = M.GaussianMCM(**{k: v.copy() for k, v in kw.items()})
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always"); ret = g.fit(X)
        need(ret is g, "fit does not return the model")
        if "biadj" in c: need(np.array_equal(g.biadj, kw["biadj"]), "the given structure was not kept")
        elif "udg" in c:
            need(np.array_equal(g.udg, kw["udg"]), "the given graph was not kept")
            need(np.array_equal(g.biadj, EA.find_heuristic_1pc(kw["udg"])), "the structure is not the one of the given graph")
        else: need(np.array_equal(g.udg, C12.udg(X)), "the structure is not learnt from the data"); need(np.array_equal(g.biadj, EA.find_heuristic_1pc(np.asarray(g.udg))), "the structure is not the one of the estimated graph")
        b = np.asarray(g.biadj); p = g.parameters; W, v = np.asarray(p.biadj_weights), np.asarray(p.error_variances)
        need(close(p.error_means, X.mean(0), 1e-9), "error means are not the column means"); need(W.shape == b.shape and v.shape == (m,), "parameters have wrong shapes")
        need((W[~b] == 0).all(), "a weight off the structure is not zero")
        D = X - X.mean(0); S = D.T @ D / (n - 1)
        f1, f0 = gobj(S, W, v), gobj(S, b.astype(float), np.ones(m))
        need(f1 <= f0 * (1 + 1e-9) + 1e-9, f"the fit ({f1}) is worse than unit weights and variances ({f0})")
        if not any("ptimization failed" in str(w.message) for w in ws):
            R = S - W.T @ W - np.diag(v); gW = (-4 * W @ R)[b]; gv = -2 * np.diag(R); sc = 1 + np.abs(S).max() ** 1.5
            need(max(np.abs(gW).max(initial=0), np.abs(gv).max(initial=0)) < 2e-3 * sc, "fitted parameters are not a minimizer of the covariance distance")


def norms(W): return np.linalg.svd(W, compute_uv=False).sum() if W.size else 0.0


def mle_obj(S, W, d, lam, mu):
    Sig = W.T @ W + np.diag(d); s, ld = np.linalg.slogdet(Sig)
    if s <= 0: return np.inf
    return np.trace(S @ np.linalg.inv(Sig)) + ld + lam * norms(W) + mu * np.abs(W).sum()


def lse_obj(S, W, d, lam, mu): return ((S - W.T @ W - np.diag(d)) ** 2).sum() + lam * norms(W) + mu * np.abs(W).sum()


class Rec:
    """Stands in for scipy.optimize.minimize: records the objective and goes on with the real optimizer."""
    def __init__(s): s.fun = None; s.real = REAL
    def __call__(s, fun, x0, *a, **k):
        s.fun, s.x0 = fun, np.array(x0, float); s.res = s.real(fun, x0, *a, **k); return s.res


REAL = scipy.optimize.minimize


@prop("C23")
class C23:
    rule = "a dataset, penalties and a method, with sampling and refusals; the objective handed to the optimizer is compared with the stated one at random points; non-trivial always"
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 23)
        for t in range(110 if tier == "quick" else 800):
            m = int(r.integers(2, 4)); n = int(r.choice([5, 20, 60])); yield {"X": r.normal(size=(n, m)) @ r.normal(size=(m, m)) + r.normal(size=m), "Y": r.normal(size=(9, m)), "meth": ["mle", "lse"][t % 2], "lam": float(r.choice([0, .1, .5, r.random()])), "mu": float(r.choice([0, .1, .5, r.random()])), "seed": int(r.integers(0, 1000)), "via": ["fit", "direct", "default"][t // 2 % 3], "opc": bool(r.random() < .7), "sample": t % 4 < 2}
        for k in ("before", "other", "unknown"):
            for meth in ("mle", "lse"): yield {"refuse": k, "meth": meth, "X": r.normal(size=(10, 2))}
    @staticmethod
    def check(c):
        X = c["X"].astype(float); n, m = X.shape; meth = c["meth"]
        if "refuse" in c:
            d = M.DevMedil(rng=np.random.default_rng(1))
            def refused(f):
                try: f()
                except ValueError: return True
                return False
            if c["refuse"] == "before": need(refused(lambda: d.sample(3, meth)), "sampling before fitting is accepted")
            elif c["refuse"] == "unknown":
                for w in ("MLE", "", "ols", None): need(refused(lambda: d.fit(X, w)), "fitting by an unknown method is accepted"); need(refused(lambda: d.sample(3, w)), "sampling by an unknown method is accepted")
                d.fit(X, meth); need(refused(lambda: d.sample(3, "ols")), "sampling by an unknown method is accepted")
            else:
                d.fit(X, meth); need(refused(lambda: d.sample(3, "lse" if meth == "mle" else "mle")), "sampling by a method not fitted is accepted")
            return
        d = M.DevMedil(rng=np.random.default_rng(c["seed"]), one_pure_child=c["opc"]); rec = Rec(); lam, mu = c["lam"], c["mu"]
        scipy.optimize.minimize = rec; old = getattr(M, "minimize", None)
        if old is not None: M.minimize = rec
        try:
            if c["via"] == "fit": d.fit(X, meth, lam, mu)
            elif c["via"] == "default": lam = mu = .1; d.fit(X, meth)
            else: (d.fit_penalized_mle if meth == "mle" else d.fit_penalized_lse)(X, lam, mu)
        finally:
            scipy.optimize.minimize = REAL
            if old is not None: M.minimize = old
        D0 = X - X.mean(0); S = D0.T @ D0 / (n - 1); obj = mle_obj if meth == "mle" else lse_obj
        W, D = np.asarray(d.W_hat), np.asarray(d.D_hat); l = m if c["opc"] else m * m // 4
        need(W.shape == (l, m) and D.shape == (m, m) and (D - np.diag(np.diag(D)) == 0).all(), "estimates have wrong shapes"); need((np.diag(D) >= 0).all(), "a negative error variance")
        v = np.diag(D)
        if rec.fun is not None and rec.x0.size == l * m + m:
            r = np.random.default_rng(c["seed"])
            for _ in range(6):
                x = np.concatenate([r.normal(size=l * m), r.uniform(.1, 2, m)]); a, b = rec.fun(x), obj(S, x[:l * m].reshape(l, m), x[l * m:], lam, mu)
                need(close(a, b, 1e-6), f"the objective is {a}, stated {b}")
            fw = obj(S, W, v, lam, mu); need(fw <= rec.res.fun + 1e-6 * (1 + abs(rec.res.fun)), f"the estimates do not attain the optimizer's minimum ({fw} > {rec.res.fun})")
            need(fw <= obj(S, rec.x0[:l * m].reshape(l, m), np.abs(rec.x0[l * m:]), lam, mu) + 1e-9, "the estimates are worse than the starting point")
        for Y in (X, c["Y"].astype(float)):
            DY = Y - Y.mean(0); SY = DY.T @ DY / (len(Y) - 1); a, b = (d.validation_mle if meth == "mle" else d.validation_lse)(lam, mu, Y), obj(SY, W, v, lam, mu)
            need(close(a, b, 1e-6) or (np.linalg.cond(W.T @ W + D) > 1e8), f"the validation loss is {a}, stated {b}")
        if c["sample"] and c["opc"]:
            N = 20000; s = np.asarray(d.sample(N, meth)); need(s.shape == (N, m), "sample has wrong shape"); C = W.T @ W + D
            sd = np.sqrt(np.diag(C)); need((np.abs(s.mean(0)) <= 6.5 * sd / np.sqrt(N) + 1e-6).all(), "sample mean is not zero"); need((np.abs(s.T @ s / N - C) <= 6.5 * np.sqrt((np.outer(sd, sd) ** 2 + C ** 2) / N) + 1e-6).all(), "sample covariance is not W'W + D")
            need((np.abs((s[1:] * s[:-1]).mean(0)) < 6.5 * sd ** 2 / np.sqrt(N) + 1e-6).all(), "rows are not independent"); need(d.sample(1, meth).shape == (1, m), "sample of one observation has wrong shape")
        # refitting by the other method keeps the first estimates available for sampling
        if c["sample"] and c["seed"] % 3 == 0:
            o = "lse" if meth == "mle" else "mle"; d.fit(X, o, lam, mu); W2, D2 = np.asarray(d.W_hat), np.asarray(d.D_hat); N = 20000; s = np.asarray(d.sample(N, meth)); C = W.T @ W + D; sd = np.sqrt(np.diag(C))
            need((np.abs(s.T @ s / N - C) <= 6.5 * np.sqrt((np.outer(sd, sd) ** 2 + C ** 2) / N) + 1e-6).all(), "after fitting by another method, samples of the first do not follow its estimates")
