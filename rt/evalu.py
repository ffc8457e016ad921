import itertools
import numpy as np
from lib import *

E = mod("evaluate")


@prop("C16")
class C16:
    rule = "two structures over the same measurements; non-trivial if both have at least two latents"
    @staticmethod
    def nontrivial(c): return min(c["a"]["shape"][0], c["b"]["shape"][0]) >= 2
    @staticmethod
    def cases(tier, seed):
        for l, m in ((1, 1), (1, 2), (2, 2), (2, 3)):
            for x in itertools.product([0, 1], repeat=l * m):
                for y in itertools.product([0, 1], repeat=l * m):
                    if l * m > 4 and (sum(x) + 3 * sum(y)) % 5: continue
                    yield {"a": np.array(x, bool).reshape(l, m), "b": np.array(y, bool).reshape(l, m), "seed": 1, "layout": "C"}
        r = rng(seed, 16)
        for t in range(2000 if tier == "quick" else 15000):
            m = int(r.integers(1, 12)); yield {"a": r.random((int(r.integers(1, 12)), m)) < r.random(), "b": r.random((int(r.integers(1, 12)), m)) < r.random(), "seed": t, "layout": "CFS"[int(r.integers(0, 3))]}
        for l in (130, 260, 300): yield {"a": np.ones((l, 3), bool), "b": r.random((2, 3)) < .5, "seed": 1, "layout": "C"}
    @staticmethod
    def check(c):
        a, b = (layout(np.asarray(c[k]).astype(bool), c["layout"]) for k in "ab"); m = a.shape[1]
        A, B = a.T.astype(int) @ a.astype(int), b.T.astype(int) @ b.astype(int)
        s = int(((A - B) ** 2).sum()); h = int(np.triu((A > 0) != (B > 0), 1).sum())
        def eq(x, w, what): need(int(x[0]) == w[0] and int(x[1]) == w[1], f"distances {tuple(map(int, x))}, expected {w} ({what})")
        eq(E.sfd(a.copy(), b.copy()), (s, h), "definition"); eq(E.sfd(b.copy(), a.copy()), (s, h), "swapped"); eq(E.sfd(a.copy(), a.copy()), (0, 0), "with itself")
        r = np.random.default_rng(c["seed"]); eq(E.sfd(a[r.permutation(len(a))], b[r.permutation(len(b))]), (s, h), "latents reordered")
        u = np.asarray(E.recover_ug(a.copy())); w = (A > 0) & ~np.eye(m, dtype=bool); need(u.shape == (m, m) and (u.astype(bool) == w).all(), "the recovered graph does not join exactly the pairs sharing a latent")


@prop("C17")
class C17:
    rule = "predicted and true weights; compared with all permutations; non-trivial if two or more predicted rows"
    @staticmethod
    def nontrivial(c): return c["p"]["shape"][0] >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 17)
        for k in (7, 8) if tier == "quick" else (7, 7, 8, 8, 9):      # the best permutation is the last one, or any
            P = r.normal(size=(k, 2)); yield {"p": P, "t": P[::-1].copy(), "layout": "C"}; yield {"p": P, "t": P[r.permutation(k)[:k - 1]], "layout": "C"}
        for t in range(1500 if tier == "quick" else 10000):
            k = int(r.choice([1, 2, 3, 4, 5, 6], p=[.1, .25, .25, .2, .15, .05])); l = int(r.integers(0 if t % 20 == 0 else 1, k + 1)); m = int(r.integers(1, 6)); P, W = r.normal(size=(k, m)), r.normal(size=(l, m))
            if t % 3 == 0: W = P[r.permutation(k)[:l]] * (r.choice([-1, 1], (l, m)) if t % 2 else 1) + .1 * r.normal(size=(l, m)) * (t % 4)
            if t % 5 == 0: P, W = np.round(P), np.round(W)
            yield {"p": P, "t": W, "layout": "CFS"[int(r.integers(0, 3))]}
    @staticmethod
    def check(c):
        P, W = (layout(np.asarray(c[k], float), c["layout"]) for k in "pt"); k = len(P); Z = np.zeros_like(P); Z[:len(W)] = W
        for f, g in ((E.min_perm_squared_l2_dist, lambda v: v), (E.min_perm_squared_l2_dist_abs, np.abs)):
            perm, d = f(P.copy(), W.copy()); perm = np.asarray(perm)
            need(sorted(perm.tolist()) == list(range(k)), "not a permutation of the predicted latents")
            at = ((g(P[perm]) - g(Z)) ** 2).sum(); need(close(d, at, 1e-9), f"the distance {d} is not the one attained, {at}")
            best = min(((g(P[list(q)]) - g(Z)) ** 2).sum() for q in itertools.permutations(range(k))); need(d <= best + 1e-9 * (1 + best), f"a permutation attains {best} < {d}")


@prop("C25")
class C25:
    rule = "a structure; non-trivial if it has an edge"
    @staticmethod
    def nontrivial(c): return "true" in str(c["b"]["__nd__"]).lower() or "1" in str(c["b"]["__nd__"])
    @staticmethod
    def cases(tier, seed):
        for l, m in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
            for x in itertools.product([0, 1], repeat=l * m): yield {"b": np.array(x, [bool, int, float][sum(x) % 3]).reshape(l, m), "layout": "C"}
        r = rng(seed, 25)
        for t in range(1500): yield {"b": (r.random((int(r.integers(0 if t % 30 == 0 else 1, 14)), int(r.integers(1, 14)))) < r.random()).astype([bool, int, float, "int8"][t % 4]), "layout": "CFS"[int(r.integers(0, 3))]}
    @classmethod
    def setup(cls): cls.V = mod("visualize")
    @staticmethod
    def check(c):
        V = mod("visualize"); b = layout(c["b"], c["layout"]); l, m = b.shape; d = np.asarray(V.get_dag_from_biadj(b.copy()))
        want = np.zeros((l + m, l + m)); want[:l, l:] = b
        need(d.shape == want.shape and (d.astype(float) == want).all(), "the exported graph is not the structure's")
