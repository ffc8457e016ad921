import itertools, math
import numpy as np
import scipy.stats
from lib import *

T = mod("independence_testing")


def samp(r, n, m):
    k = int(r.integers(0, 5)); X = r.normal(size=(n, m))
    if k == 1: X = X @ r.normal(size=(m, m))
    if k == 2: X = r.integers(0, max(2, n // 3), (n, m)).astype(float)
    if k == 3 and m > 1: X[:, -1] = X[:, 0] ** 2 + .1 * r.normal(size=n)
    if k == 4: X = X * r.choice([1e-3, 1, 1e3], m) + r.choice([0, 100], m)
    return X


def dcov_def(X):
    n, m = X.shape; C = []; b = []
    for j in range(m):
        d = np.abs(X[:, j][:, None] - X[:, j][None]); b.append(d.mean()); C.append(d - d.mean(0)[None] - d.mean(1)[:, None] + d.mean())
    return np.array([[(C[i] * C[j]).mean() for j in range(m)] for i in range(m)]).reshape(m, m), np.array(b)


@prop("C14")
class C14:
    rule = "a dataset; non-trivial if at least two observations of two variables"
    @staticmethod
    def nontrivial(c): return c["X"]["shape"][0] >= 2 and c["X"]["shape"][1] >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 14)
        for t in range(1500 if tier == "quick" else 10000):
            n = int(r.choice([1, 2, 3, 4, 5, 9, 20, 60], p=[.1, .1, .1, .2, .2, .15, .1, .05])); m = int(r.integers(1, 6)); X = samp(r, n, m)
            if t % 7 == 0: X[:, 0] = 2.5
            yield {"X": X.astype(int) if t % 5 == 0 else X, "layout": "CFS"[int(r.integers(0, 3))], "seed": t}
    @staticmethod
    def check(c):
        X = layout(c["X"], c["layout"]); C, b = T.dcov(X); D, e = dcov_def(np.asarray(X, float)); m = X.shape[1]
        sc = np.maximum(1e-300, np.sqrt(np.outer(np.diag(D), np.diag(D)))) + np.outer(e, e)
        need(np.shape(C) == D.shape and np.shape(b) == e.shape, "wrong shapes"); need((np.abs(C - D) <= 1e-8 * sc + 1e-12).all(), "the covariance matrix is not the definition"); need(close(b, e, 1e-9), "the mean distances are not the definition")
        r = np.random.default_rng(c["seed"]); k = r.choice([-1, 1], m) * r.choice([.5, 2, 3], m); s = r.integers(-3, 4, m)
        C2, b2 = T.dcov(np.asarray(X, float) * k + s); f = np.abs(k)
        need((np.abs(C2 - C * np.outer(f, f)) <= 1e-7 * sc * np.outer(f, f) + 1e-11).all() and close(b2, b * f, 1e-8), "shifting and rescaling do not act as they should")


def relranks(v, le=True):
    """average ranks over n"""
    v = np.asarray(v, float); n = len(v)
    return np.array([((v < w).sum() + ((v == w).sum() + 1) / 2) for w in v]) / n


def xi_def(x, y, ties, order):
    n = len(x); fr = relranks(y); gr = relranks(-np.asarray(y)); cu = (gr * (1 - gr)).mean()
    xi = 1 - np.abs(np.diff(fr[order])).sum() / (2 * n) / cu
    if not ties: return xi, 1 - scipy.stats.norm.cdf(np.sqrt(n) * xi / np.sqrt(2 / 5))
    q = np.sort(fr); i = np.arange(1, n + 1); ai = np.mean((2 * n - 2 * i + 1) * q * q) / n; ci = np.mean((2 * n - 2 * i + 1) * q) / n
    m = (np.cumsum(q) + (n - i) * q) / n; v = (ai - 2 * np.mean(m ** 2) + ci ** 2) / cu ** 2
    return xi, 1 - scipy.stats.norm.cdf(np.sqrt(n) * xi / np.sqrt(v)), v


def orders(x):
    x = np.asarray(x, float); R = scipy.stats.rankdata(x)
    yield np.argsort(R, kind="quicksort"); yield np.argsort(x, kind="stable"); yield np.argsort(x, kind="quicksort")


def agrees(got, x, y, ties):
    for o in orders(x):
        w = xi_def(x, y, ties, o)
        if len(w) == 3 and not w[2] > 1e-9: return close(got[0], w[0], 1e-9)
        if close(got[0], w[0], 1e-9) and close(got[1], w[1], 1e-7): return True
    return False


@prop("C15")
class C15:
    rule = "two samples, with and without ties; non-trivial if three or more observations"
    @staticmethod
    def nontrivial(c): return c["x"]["shape"][0] >= 3
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 15)
        for n in (2, 3, 4):
            for x in itertools.product(range(min(n, 3)), repeat=n):
                for y in itertools.product(range(min(n, 3)), repeat=n):
                    if len(set(y)) > 1 and (n < 4 or sum(x) % 3 == 0): yield {"x": np.array(x, float), "y": np.array(y, float), "ties": sum(y) % 2 == 0, "seed": 1}
        for t in range(2500 if tier == "quick" else 20000):
            n = int(r.choice([2, 3, 5, 8, 13, 17, 30, 60, 120])); x = r.normal(size=n) if r.random() < .6 else r.integers(0, max(2, n // 2), n).astype(float)
            y = [r.normal(size=n), r.integers(0, max(2, n // 2), n).astype(float), x ** 2 + .01 * r.normal(size=n), x.copy(), -x][int(r.integers(0, 5))]
            if len(set(y)) > 1: yield {"x": x, "y": y, "ties": bool(t % 2), "seed": t}
        for a, b in ((0, 0), (3, 2), (2, 3), (0, 1), (1, 0), (5, 4)): yield {"x": np.arange(a) * 1., "y": np.arange(b) * 1., "ties": True, "seed": 0}
    @staticmethod
    def check(c):
        x, y = np.asarray(c["x"], float), np.asarray(c["y"], float)
        if len(x) != len(y):
            try: T.xicorr(x, y)
            except ValueError: return
            raise Bad("samples of unequal length are accepted")
        got = T.xicorr(x, y, c["ties"])
        if not len(x): need(np.isnan(got[0]) and np.isnan(got[1]), "empty samples do not give NaN"); return
        need(agrees(got, x, y, c["ties"]), f"xi or p-value {tuple(map(float, got))} is not the definition")
        if c["ties"]: d = T.xicorr(x, y); need(close(d[0], got[0]) and close(d[1], got[1]), "the default treatment of ties is wrong")
        if c["seed"] % 3 == 0: need(agrees(T.xicorr(x.tolist(), y.tolist(), c["ties"]), x, y, c["ties"]), "lists are treated differently")
        for f in (lambda v: 2 * v + 1, lambda v: np.arctan(v / 4), lambda v: np.exp(v / 8), lambda v: v ** 3):
            fx, fy = f(x), f(y)
            if len(set(fx)) != len(set(x)) or len(set(fy)) != len(set(y)): continue
            h = T.xicorr(fx, fy, c["ties"])
            if len(set(x)) == len(x): need(close(h[0], got[0], 1e-9) and (close(h[1], got[1], 1e-7) or c["ties"] and not xi_def(x, y, True, np.argsort(x))[2] > 1e-9), "a strictly increasing transformation changes the result")
            else: need(agrees(h, x, y, c["ties"]), "a strictly increasing transformation changes the result")


@prop("C13")
class C13:
    rule = "a dataset (or p-value matrix), a method and a significance level; non-trivial if at least three variables"
    workers = 4
    @staticmethod
    def nontrivial(c): return (c["P"] if "P" in c else c["X"])["shape"][1] >= 3
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 13)
        for t in range(700 if tier == "quick" else 4000):
            m = int(r.integers(2, 7)); P = r.random((m, m)); 
            if t % 2: P = np.triu(P, 1); P = P + P.T
            if t % 5 == 0: P[0, 1] = P[1, 0] = .05
            yield {"P": P, "X": r.normal(size=(4, m)), "method": "given", "alpha": float(r.choice([.05, .01, .5, r.random()]))}
        for t in range(700 if tier == "quick" else 4000):
            n, m = int(r.choice([3, 5, 10, 40, 100])), int(r.integers(1, 7)); yield {"X": samp(r, n, m), "method": "dcov_fast", "alpha": float(r.choice([.05, .01, .3, .9])), "layout": "CFS"[int(r.integers(0, 3))]}
        for t in range(60 if tier == "quick" else 400):
            n, m = int(r.choice([5, 10, 30])), int(r.integers(2, 7)); X = samp(r, n, m)
            for j in range(m):
                if np.ptp(X[:, j]) == 0: X[0, j] += 1
            yield {"X": X, "method": "xicor", "alpha": float(r.choice([.05, .2, .5])), "layout": "CFS"[int(r.integers(0, 3))]}
        for t in range(10 if tier == "quick" else 60):
            yield {"X": samp(r, int(r.choice([5, 12])), int(r.integers(2, 5))), "method": "dcov_big", "alpha": float(r.choice([.05, .3]))}
        yield {"X": r.normal(size=(30, 18)), "method": "xicor", "alpha": .05}
    @staticmethod
    def check(c):
        X = layout(np.asarray(c["X"], float), c.get("layout", "C")); n, m = X.shape; al = c["alpha"]; me = c["method"]; off = ~np.eye(m, dtype=bool)
        if me == "given":
            P = np.asarray(c["P"], float); u, p = T.estimate_UDG(X, P.copy(), al)
            need(p is not None and np.array_equal(p, P), "the supplied p-values are not returned"); want = (P < al) & off; sure = off
        elif me == "dcov_fast":
            u, p = T.estimate_UDG(X, me, al) if al != .05 else T.estimate_UDG(X); need(p is None, "p-values are returned")
            D, e = dcov_def(X); crit = scipy.stats.chi2(1).ppf(1 - al)
            with np.errstate(all="ignore"): t = n * D / np.outer(e, e)
            want = (t >= crit) & off; sure = off & (np.abs(t - crit) > 1e-6 * (1 + crit)) & (e > 1e-12)[:, None] & (e > 1e-12)[None]
        else:
            u, p = T.estimate_UDG(X, me, al); p = np.asarray(p, float); want = np.zeros((m, m), bool); sure = off.copy()
            need(p.shape == (m, m) and (p.diagonal() == 0).all(), "the p-value matrix has a nonzero diagonal or wrong shape"); need(np.array_equal(p, p.T, equal_nan=True), "the p-value matrix is not symmetric")
            for i in range(m):
                for j in range(i + 1, m):
                    if me == "xicor":
                        ok = False
                        for o in orders(X[:, i]):
                            w = xi_def(X[:, i], X[:, j], True, o)
                            if not w[2] > 1e-9: ok = True
                            ok = ok or close(p[i, j], w[1], 1e-7)
                        need(ok, f"the p-value of variables {i}, {j} is {p[i, j]}, not the test's")
                    else:
                        import dcor
                        w = dcor.independence.distance_correlation_t_test(X[:, i].copy(), X[:, j].copy()).pvalue; need(close(p[i, j], w, 1e-6), f"the p-value of variables {i}, {j} is {p[i, j]}, not the test's {w}")
            want = (p < al) & off
        u = np.asarray(u); need(u.dtype == bool and u.shape == (m, m), "not a boolean adjacency matrix"); need(not u.diagonal().any(), "a self-loop")
        bad = sure & (u != want); need(not bad.any(), f"pair {np.argwhere(bad)[0].tolist() if bad.any() else ''} is not decided by the test")
