import itertools, random
import numpy as np
from lib import *

S = mod("sample"); M = mod("models")


class Extreme(np.random.Generator):
    """A generator some of whose uniform draws are at the ends of their range."""
    def __new__(cls, *a): return super().__new__(cls)
    def __init__(self, seed): super().__init__(np.random.PCG64(seed)); self.k = seed
    def random(self, size=None, dtype=np.float64, out=None):
        r = super().random(size) if dtype is None else super().random(size, dtype)
        if size is None: return 0.0 if self.k % 2 else float(np.nextafter(1, 0))
        f = super().random(size); r = np.array(r); r[f < .3] = 0.0; r[f > .7] = np.nextafter(1, 0)
        return r


def mk(seed, kind="plain"): return Extreme(seed) if kind == "extreme" else np.random.default_rng(seed)


def rounds(x):
    f = np.floor(x)
    return {int(f), int(f) + 1} if abs(x - f - .5) < 1e-9 else {int(np.round(x))}


def check_1pc(b, m, l, density):
    need(isinstance(b, np.ndarray) and b.dtype == bool, "not a boolean array")
    need(b.shape == (l, m), f"shape {b.shape}, asked for {(l, m)}")
    need(b[:, b.sum(0) == 1].any(1).all() if l else True, "a latent has no pure child")
    need(b.any(0).all(), "a measurement has no latent parent")
    if density is not None: need(int(b.sum()) - m in rounds(density * (m - l) * (l - 1)), f"{int(b.sum())} edges, expected {m} + round({density} * {(m - l) * (l - 1)})")


@prop("C06")
class C06:
    rule = "sizes, density and seed (some generators return extreme draws); non-trivial if 2 <= latents < measurements or drawn"
    @staticmethod
    def nontrivial(c): return c["l"] == 0 or 2 <= c["l"] < c["m"]
    @staticmethod
    def cases(tier, seed):
        for m in range(1, 9):
            for l in range(0, m + 1):
                if l == 0 and m < 2: continue
                for d in (0, .1, .2, .25, .5, .73, .9, 1, 1.0, None):
                    for t in range(2): yield {"m": m, "l": l, "d": d, "seed": seed * 1000 + m * 91 + l * 7 + t, "kind": "extreme" if t else "plain"}
        r = rng(seed, 6)
        for _ in range(3000 if tier == "quick" else 20000):
            m = int(r.integers(2, 40)); l = int(r.integers(0, m + 1)); yield {"m": m, "l": l, "d": [None, float(r.random()), 0.0, 1.0, .2][int(r.choice(5, p=[.1, .7, .05, .05, .1]))], "seed": int(r.integers(0, 2 ** 31)), "kind": "plain"}
    @staticmethod
    def check(c):
        g = mk(c["seed"], c["kind"]); kw = {"num_latent": c["l"]} if c["l"] else {}
        b = S.biadj(num_meas=c["m"], density=c["d"], rng=g, **kw)
        l = c["l"] or len(b)
        need(1 <= l <= max(1, c["m"] - 1) if not c["l"] else True, f"{l} latents drawn for {c['m']} measurements")
        if c["d"] is None: need(c["m"] <= b.sum() <= c["m"] + (c["m"] - l) * (l - 1), "number of edges out of range")
        check_1pc(b, c["m"], l, c["d"])
        if not c["l"] and c["m"] >= 3 and c["seed"] % 50 == 0:
            ls = {len(S.biadj(num_meas=c["m"], density=c["d"], rng=np.random.default_rng(c["seed"] + i))) for i in range(60 * c["m"])} if c["m"] <= 6 else None
            if ls is not None: need(ls == set(range(1, c["m"])), f"numbers of latents drawn: {sorted(ls)}")


@prop("C07")
class C07:
    rule = "number of measurements, density and seed; non-trivial if three or more measurements"
    @staticmethod
    def nontrivial(c): return c["m"] >= 3
    @staticmethod
    def cases(tier, seed):
        for m in range(1, 9):
            for d in (0, .1, .2, .3, .5, .7, .9, 1): yield {"m": m, "d": d, "seed": seed * 100 + m, "l": 0}
            yield {"m": m, "d": .5, "seed": 1, "l": 1}
            if m > 1: yield {"m": m, "d": .5, "seed": 1, "l": m}
            if m > 1: yield {"m": m, "d": .5, "seed": 1, "l": -1}
        r = rng(seed, 7)
        for _ in range(1200 if tier == "quick" else 8000): yield {"m": int(r.integers(2, 12)), "d": float(r.choice([r.random(), 0., 1., .2, .5], p=[.8, .05, .05, .05, .05])), "seed": int(r.integers(0, 2 ** 31)), "l": 0}
    @staticmethod
    def check(c):
        m = c["m"]
        if c["l"]:
            try: S.biadj(num_meas=m, density=c["d"], one_pure_child=False, num_latent=c["l"], rng=mk(c["seed"]))
            except ValueError: return
            raise Bad("a number of latents was accepted")
        b = S.biadj(num_meas=m, density=c["d"], one_pure_child=False, rng=mk(c["seed"]))
        need(isinstance(b, np.ndarray) and b.dtype == bool and b.ndim == 2 and b.shape[1] == m, "not a boolean structure over the measurements")
        need(b.any(1).all(), "a latent has no child"); need(b.any(0).all(), "a measurement has no parent")
        k = int(np.triu(b.T.astype(int) @ b.astype(int) > 0, 1).sum())
        need(k in rounds(c["d"] * m * (m - 1) / 2), f"{k} pairs share a latent, expected round({c['d']} * {m * (m - 1) // 2})")


@prop("C08")
class C08:
    rule = "structure (given or drawn) and seed, some generators returning extreme draws; non-trivial if at least two edges"
    @staticmethod
    def nontrivial(c): return c.get("m", 2) >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 8)
        for t in range(1500 if tier == "quick" else 10000):
            kind = "extreme" if t % 3 == 0 else "plain"
            if t % 2:
                l, m = int(r.integers(1, 7)), int(r.integers(1, 9)); yield {"biadj": r.random((l, m)) < r.random(), "seed": int(r.integers(0, 2 ** 31)), "kind": kind, "layout": "CFS"[int(r.integers(0, 3))]}
            else: yield {"m": int(r.integers(2, 9)), "seed": int(r.integers(0, 2 ** 31)), "kind": kind, "opc": bool(r.random() < .7), "d": float(r.random())}
        for p in ("VAE", "", "gaussian", "vae", "Gauss", "GaussianX", "None"): yield {"param": p, "seed": 1, "kind": "plain"}
        yield {"param": "VAE", "seed": 2, "kind": "plain", "biadj": np.ones((1, 2), bool)}
        yield {"param": "Poisson", "seed": 2, "kind": "plain", "biadj": np.ones((1, 2), bool)}
    @staticmethod
    def check(c):
        g = mk(c["seed"], c["kind"])
        if "param" in c:
            kw = {"biadj": c["biadj"]} if "biadj" in c else {"num_meas": 4}
            try: S.mcm(rng=g, parameterization=c["param"], **kw)
            except NotImplementedError: need(c["param"] == "VAE", "NotImplementedError for an invalid parameterization"); return
            except ValueError: need(c["param"] != "VAE", "ValueError for the VAE parameterization"); return
            raise Bad("parameterization accepted")
        if "biadj" in c:
            b = layout(c["biadj"].astype(bool), c["layout"]); b0 = b.copy(); mcm = S.mcm(rng=g, biadj=b)
            need((b == b0).all(), "the given structure was modified"); need(np.array_equal(mcm.biadj, b0), "the model does not have the given structure")
        else: mcm = S.mcm(rng=g, num_meas=c["m"], one_pure_child=c["opc"], density=c["d"])
        b = np.asarray(mcm.biadj); p = mcm.parameters; w = np.asarray(p.biadj_weights); m = b.shape[1]
        need(b.dtype == bool and b.ndim == 2, "structure is not boolean"); need(w.shape == b.shape, "weights have another shape than the structure")
        need(((w != 0) == b).all(), "weights are not nonzero exactly where the structure has an edge")
        a = np.abs(w[b]); need((a >= .5).all() and (a < 2).all(), "a weight's magnitude is outside of [0.5, 2)")
        em, ev = np.asarray(p.error_means), np.asarray(p.error_variances)
        need(em.shape == (m,) and ev.shape == (m,), "not one error mean and variance per measurement")
        need((np.abs(em) < 2).all(), "an error mean has magnitude 2 or more"); need((ev >= .5).all() and (ev < 2).all(), "an error variance is outside of [0.5, 2)")


def state(g): return repr(g.bit_generator.state)


def shared():
    """All generators reachable as defaults of functions of the package, and the global ones."""
    import inspect, sys
    out = {}
    for mname, mo in list(sys.modules.items()):
        if not mname.startswith("medil"): continue
        for k, f in list(vars(mo).items()):
            fs = [f] if inspect.isfunction(f) else [x for x in vars(f).values() if inspect.isfunction(x)] if inspect.isclass(f) else []
            if isinstance(f, np.random.Generator): out[f"{mname}.{k}"] = f
            for q in fs:
                for j, d in enumerate((q.__defaults__ or ()) + tuple((q.__kwdefaults__ or {}).values())):
                    if isinstance(d, np.random.Generator): out[f"{mname}.{q.__qualname__}#{j}"] = d
    return out


def all_states():
    import torch
    s = {k: state(g) for k, g in shared().items()}
    s["numpy.random"] = repr([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state(legacy=True)]); s["random"] = repr(random.getstate()); s["torch"] = repr(torch.get_rng_state().tolist())
    return s


@prop("C09")
class C09:
    rule = "two histories of earlier calls, then the same call with generators in equal states; non-trivial always"
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 9)
        for t in range(500 if tier == "quick" else 3000):
            yield {"op": ["biadj", "biadj_gen", "mcm", "mcm_biadj", "sample", "mcm_gen", "biadj_none", "learnt"][t % 8], "m": int(r.integers(2, 8)), "seed": int(r.integers(0, 2 ** 31)), "hist": [int(x) for x in r.integers(0, 6, int(r.integers(1, 4)))], "n": int(r.integers(1, 6)), "bg": ["PCG64", "MT19937", "Philox"][int(r.integers(0, 3))], "copied": bool(r.integers(0, 2))}
    @staticmethod
    def history(h):
        for k in h:
            if k == 0: S.biadj(5)
            if k == 1: S.mcm(num_meas=4).sample(3)
            if k == 2: np.random.rand(3); random.random()
            if k == 3: M.GaussianMCM().rng.random()
            if k == 4: S.biadj(4, one_pure_child=False, rng=np.random.default_rng(3))
            if k == 5:
                import torch; torch.rand(2); np.random.seed(4)
    @staticmethod
    def check(c):
        m = c["m"]
        def call(g):
            op = c["op"]
            if op == "biadj": return [S.biadj(m, rng=g)]
            if op == "biadj_none": return [S.biadj(m, density=None, rng=g, num_latent=max(1, m // 2))]
            if op == "biadj_gen": return [S.biadj(m, one_pure_child=False, rng=g, density=.4)]
            if op in ("mcm", "mcm_gen", "mcm_biadj"):
                kw = {"num_meas": m} if op == "mcm" else {"num_meas": m, "one_pure_child": False} if op == "mcm_gen" else {"biadj": np.eye(m, dtype=bool)}
                x = S.mcm(rng=g, **kw); p = x.parameters
                return [x.biadj, p.biadj_weights, p.error_means, p.error_variances]
            if op == "sample":
                x = M.GaussianMCM(biadj=np.ones((2, m), bool), rng=g)
            else:
                x = M.GaussianMCM(rng=g); x.biadj = np.eye(2, m, dtype=bool)
            x.parameters.biadj_weights = np.linspace(-1, 1, 2 * m).reshape(2, m); x.parameters.error_means = np.arange(m) * 1.; x.parameters.error_variances = np.arange(m) * .5
            return [x.sample(c["n"]), x.sample(c["n"])]
        def gen(): return np.random.Generator(getattr(np.random, c["bg"])(c["seed"]))
        g1, g2 = gen(), gen()
        if c.get("copied"):     # another generator put into the same state
            g2 = np.random.Generator(getattr(np.random, c["bg"])(c["seed"] + 77)); g2.spawn(1); g2.random(3); g2.bit_generator.state = g1.bit_generator.state
        s0 = all_states(); a = call(g1); s1 = all_states()
        diff = [k for k in s0 if s0[k] != s1.get(k)]
        need(not diff, f"other generators were advanced: {diff[:3]}")
        C09.history(c["hist"])
        b = call(g2)
        need(all(np.array_equal(x, y) for x, y in zip(a, b)), "equal generators gave different results after another history")
        need(state(g1) == state(g2), "equal generators ended in different states")
        seeds = [np.random.default_rng(c["seed"] + 1 + i) for i in range(12)]
        if c["op"] in ("sample", "learnt", "mcm"):
            need(any(not all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, call(g))) for g in seeds[:3]), "the result does not depend on the given generator")
            need(state(g1) != state(gen()), "the given generator was not drawn from")


@prop("C10")
class C10:
    rule = "weights, error means and variances, sample size and seed; sample moments compared with the model's within six standard errors; non-trivial if at least two measurements"
    @staticmethod
    def nontrivial(c): return c["W"]["shape"][1] >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 10)
        for t in range(120 if tier == "quick" else 800):
            l, m = int(r.integers(1, 6)), int(r.integers(1, 7))
            W = r.normal(size=(l, m)) * (r.random((l, m)) < .7) * r.choice([.1, 1, 3])
            v = r.random(m) * r.choice([.2, 1, 4], m) * (r.random(m) < .9)
            n = int(r.choice([1, 2, 7, 20000, 20000, 40000]))
            yield {"W": W, "mu": r.normal(size=m) * 3, "v": v, "n": n, "seed": int(r.integers(0, 2 ** 31))}
        for n in (1, 5): yield {"W": np.zeros((2, 3)), "mu": np.array([1., -2, 5]), "v": np.zeros(3), "n": n, "seed": 5}
    @staticmethod
    def check(c):
        W, mu, v, n = (np.asarray(c[k], float) if k != "n" else c[k] for k in ("W", "mu", "v", "n")); l, m = W.shape
        x = M.GaussianMCM(biadj=W != 0, rng=np.random.default_rng(c["seed"]))
        x.parameters.biadj_weights, x.parameters.error_means, x.parameters.error_variances = W.copy(), mu.copy(), v.copy()
        d = np.asarray(x.sample(n)); need(d.shape == (n, m), f"sample of shape {d.shape}, expected {(n, m)}"); need(np.isfinite(d).all(), "the sample is not finite")
        C = W.T @ W + np.diag(v)
        # exact: directions of zero variance
        for j in range(m):
            if C[j, j] == 0: need(close(d[:, j], np.full(n, mu[j]), 1e-9), "a variable without variance is not constant")
        z = v == 0
        if z.any(): # without errors the values lie in the span of the weights
            B = W[:, z]; res = (d[:, z] - mu[z]); P = np.linalg.pinv(B) @ B; need(np.abs(res @ P - res).max() < 1e-6 * (1 + np.abs(res).max()), "error-free variables are not latents times weights")
        d2 = np.asarray(x.sample(n))
        if (np.diag(C) > 0).any(): need(not np.array_equal(d, d2), "two datasets are equal")
        if n < 1000: return
        sd = np.sqrt(np.diag(C)); D = d - mu
        need((np.abs(D.mean(0)) <= 6.5 * sd / np.sqrt(n) + 1e-9).all(), "sample means are not the error means")
        E = D.T @ D / n; se = np.sqrt((np.outer(sd, sd) ** 2 + C ** 2) / n)
        need((np.abs(E - C) <= 6.5 * se + 1e-9).all(), "the sample covariance is not weights' transpose times weights plus the error variances")
        j = sd > 1e-9; Z = D[:, j] / sd[j]
        need((np.abs((Z ** 3).mean(0)) < 6.5 * np.sqrt(15 / n)).all() and (np.abs((Z ** 4).mean(0) - 3) < 6.5 * np.sqrt(96 / n)).all(), "the margins are not normal")
        r = np.random.default_rng(1); u = r.normal(size=(len(sd[j]),)); y = Z @ u
        if y.std() > 1e-6: y = y / np.sqrt(u @ (C[np.ix_(j, j)] / np.outer(sd[j], sd[j])) @ u); need(abs((y ** 4).mean() - 3) < 6.5 * np.sqrt(96 / n) and abs((y ** 3).mean()) < 6.5 * np.sqrt(15 / n), "a combination of variables is not normal")
        for lag in (1, 2, n // 2): need((np.abs((Z[lag:] * Z[:-lag]).mean(0)) < 6.5 / np.sqrt(n - lag)).all(), "rows are not independent")
        need(len(np.unique(d[:, j], axis=0)) == n if j.any() else True, "rows are repeated")
