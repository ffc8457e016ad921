import os
import numpy as np
from lib import *

EA = mod("ecc_algorithms"); T = mod("independence_testing"); E = mod("evaluate"); S = mod("sample"); M = mod("models")
OPS = ["cover", "cliques", "1pc", "udg_given", "dcov_fast", "xicor", "dcov", "xicorr", "sfd", "recover_ug", "perm", "perm_abs", "mcm", "sample", "fit", "fit_udg", "fit_none", "ncfa", "dev", "dev_init", "dag", "isolated", "dcov_big", "est_udg", "cover_edgeless", "reduce"]


@prop("C18")
class C18:
    rule = "an operation, its arguments, their dtype and memory layout; every argument array is compared with a copy made before; non-trivial always"
    workers = 4
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 18)
        for t in range(30 if tier == "quick" else 250):
            for op in OPS:
                if op in ("ncfa",) and t % 6: continue
                if op in ("xicor", "dev", "dev_init", "dcov_big") and t % 2: continue
                yield {"op": op, "n": int(r.integers(1, 8)), "seed": int(r.integers(0, 2 ** 31)), "layout": "CFS"[int(r.integers(0, 3))], "dt": ["int", "bool"][int(r.integers(0, 2))]}
    @staticmethod
    def check(c):
        r = np.random.default_rng(c["seed"]); n = max(2, c["n"]); L = c["layout"]; op = c["op"]
        G = layout(rand_graph(r, n, r.random(), 1, c["dt"]), L); X = layout(r.normal(size=(12, n)) * 2 + 1, L); b = layout(r.random((int(r.integers(1, 5)), n)) < .6, L); b2 = layout(r.random((int(r.integers(1, 5)), n)) < .6, L)
        k = int(r.integers(1, 5)); P = layout(r.normal(size=(k, n)), L); W = layout(r.normal(size=(int(r.integers(1, k + 1)), n)), L); Q = layout(r.random((n, n)) * .2, L); y = layout(r.normal(size=(2, 9)), L)
        Z = layout(np.eye(n, dtype=c["dt"]), L); wt = layout(r.normal(size=b.shape) * b, L); em = r.normal(size=n); ev = r.random(n); idx = [r.permutation(12)[:8], r.permutation(12)[:4]]; iw = layout(r.normal(size=(n, n)), L)
        U = layout(rand_graph(r, n, r.random(), 0, "bool"), L)
        arrs = {"graph": G, "dataset": X, "structure": b, "second structure": b2, "predicted weights": P, "true weights": W, "p-values": Q, "samples": y, "edgeless graph": Z, "weights": wt, "error means": em, "error variances": ev, "training indices": idx[0], "validation indices": idx[1], "initial weights": iw, "dependence graph": U}
        was = {q: v.copy() for q, v in arrs.items()}
        if op == "cover": EA.find_clique_min_cover(G)
        elif op == "cover_edgeless": EA.find_clique_min_cover(Z)
        elif op == "reduce":
            g = mod("graph").UndirectedDependenceGraph(G)
            if g.num_edges:
                g.make_aux(); h = g.reducible_copy(); h.reduzieren(n * n); h.reduced_graph() if hasattr(h, "reduced_graph") else None
                if h.num_edges: h.choose_nbrhood()
        elif op == "cliques": list(EA.max_cliques(G))
        elif op == "1pc": EA.find_heuristic_1pc(G)
        elif op == "isolated": EA.add_isolated_verts(b)
        elif op == "udg_given": T.estimate_UDG(X, Q, .1)
        elif op in ("dcov_fast", "xicor", "dcov_big"): T.estimate_UDG(X[:, :3] if op != "dcov_fast" else X, op)
        elif op == "dcov": T.dcov(X)
        elif op == "xicorr": T.xicorr(y[0], y[1], bool(c["seed"] % 2))
        elif op == "sfd": E.sfd(b, b2)
        elif op == "recover_ug": E.recover_ug(b)
        elif op == "perm": E.min_perm_squared_l2_dist(P, W)
        elif op == "perm_abs": E.min_perm_squared_l2_dist_abs(P, W)
        elif op == "mcm": S.mcm(rng=r, biadj=b).sample(3)
        elif op == "sample":
            m = M.GaussianMCM(biadj=b, rng=np.random.default_rng(1)); p = m.parameters; p.biadj_weights, p.error_means, p.error_variances = wt, em, ev; m.sample(4); m.sample(1)
        elif op == "fit": M.GaussianMCM(biadj=b).fit(X[:, :n])
        elif op == "fit_udg": M.GaussianMCM(udg=U).fit(X)
        elif op == "fit_none": M.GaussianMCM().fit(X)
        elif op == "est_udg": g = M.GaussianMCM(); g.dataset = X; g._estimate_udg()
        elif op == "ncfa":
            import net
            with net.scratch() as d:
                f = M.NeuroCausalFactorAnalysis(path=os.path.join(d, "m")); f.hyperparams["num_epochs"] = 2; f.hyperparams["batch_size"] = 5; f.fit(X, idx if c["seed"] % 2 else None)
        elif op in ("dev", "dev_init"):
            d = M.DevMedil(rng=np.random.default_rng(2)); me = "mle" if c["seed"] % 2 or op == "dev_init" else "lse"; X3 = X[:, :2]
            if op == "dev_init": d.init_W = iw[:2, :2]
            d.fit(X3, me); (d.validation_mle if me == "mle" else d.validation_lse)(.1, .1, X3); d.sample(2, me)
        elif op == "dag": mod("visualize").get_dag_from_biadj(b)
        for q, v in arrs.items(): need(v.dtype == was[q].dtype and np.array_equal(v, was[q]), f"{op} modified its input ({q})")
