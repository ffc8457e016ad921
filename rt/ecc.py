import itertools, json, os
import numpy as np
import networkx as nx
from lib import *

EA = mod("ecc_algorithms"); G = mod("graph")
DT = ["int", "bool", "int8", "uint8", "float"]


def all_graphs(n):
    for bits in itertools.product([0, 1], repeat=n * (n - 1) // 2): yield bits


def structured(r, n):
    """Graphs with structure: unions of cliques, one-pure-child graphs, bipartite, complements of sparse graphs, cycles, cocktail party."""
    k = int(r.integers(0, 7)); A = np.eye(n, dtype=int)
    if k == 0:
        for _ in range(int(r.integers(1, 5))):
            c = r.random(n) < r.uniform(.2, .7); A[np.ix_(c, c)] = 1
    elif k == 1:
        A = rand_graph(r, n, r.uniform(.75, .98))
    elif k == 2:
        s = r.random(n) < .5; A = (s[:, None] ^ s[None]).astype(int); A &= (np.triu(r.random((n, n)) < .8, 1).astype(int)); A = A | A.T
    elif k == 3:
        p = r.permutation(n); A[p, np.roll(p, 1)] = 1; A = A | A.T
    elif k == 4:
        p = r.permutation(n); A = np.ones((n, n), int)
        for i in range(0, n - 1, 2): A[p[i], p[i + 1]] = A[p[i + 1], p[i]] = 0
    elif k == 5:
        l = int(r.integers(1, n + 1)); b = np.zeros((l, n), bool); p = r.permutation(n)
        b[np.arange(l), p[:l]] = True
        for v in p[l:]: b[r.random(l) < r.uniform(.1, .9), v] = True
        A = (b.T @ b).astype(int)
    else:
        A = rand_graph(r, n, r.uniform(.05, .35))
    A[np.arange(n), np.arange(n)] = 1
    return A


def edges_of(A): return [(i, j) for i in range(len(A)) for j in range(i + 1, len(A)) if A[i, j]]


def optimum(A):
    A = np.asarray(A).astype(int); n = len(A); edges = edges_of(A)
    iso = int(sum(1 for i in range(n) if A[i].sum() - A[i, i] == 0))
    if not edges: return iso
    H = nx.from_numpy_array(A - np.diag(np.diag(A)))
    sets = [sum(1 << k for k, (i, j) in enumerate(edges) if i in c and j in c) for c in map(set, nx.find_cliques(H)) if len(c) > 1]
    full = (1 << len(edges)) - 1
    by = [[s for s in sets if s >> k & 1] for k in range(len(edges))]
    def dfs(cov, k):
        if cov == full: return True
        if k == 0: return False
        best = None
        rest = full & ~cov
        while rest:
            b = (rest & -rest).bit_length() - 1; rest &= rest - 1
            if best is None or len(by[b]) < len(by[best]): best = b
            if len(by[best]) == 1: break
        return any(dfs(cov | s, k - 1) for s in by[best])
    for k in range(1, len(edges) + 1):
        if dfs(0, k): return k + iso


def cover_of(A):
    return EA.find_clique_min_cover(A)


def check_cover(A, c):
    n = len(A); A = np.asarray(A).astype(bool)
    c = np.asarray(c)
    need(c.ndim == 2 and c.shape[1] == n, f"cover has shape {c.shape} for {n} vertices")
    need(np.isin(c, [0, 1]).all(), "cover is not 0/1"); c = c.astype(bool)
    need(c.any(1).all(), "a row of the cover is empty")
    rec = c.T.astype(int) @ c.astype(int) > 0
    need(not (rec & ~A).any(), "a row of the cover is not a clique of the graph")
    need(not (A & ~rec).any(), "an edge or vertex is not covered")


def graph_cases(tier, seed, nfull):
    for n in range(1, 5):
        for bits in all_graphs(n):
            for dt in ("int", "bool"): yield {"n": n, "bits": "".join(map(str, bits)), "dtype": dt}
    for bits in all_graphs(5): yield {"n": 5, "bits": "".join(map(str, bits)), "dtype": "int" if sum(bits) % 3 else "bool"}
    r = rng(seed, 1)
    if nfull >= 6:
        for bits in all_graphs(6): yield {"n": 6, "bits": "".join(map(str, bits)), "dtype": "int"}
    else:
        for H in nx.graph_atlas_g():
            if H.number_of_nodes() == 6:
                for _ in range(6):
                    p = r.permutation(6); A = nx.to_numpy_array(H, nodelist=range(6)).astype(int)[np.ix_(p, p)]
                    yield {"n": 6, "bits": "".join(str(x) for x in A[np.triu_indices(6, 1)]), "dtype": "int"}


def big_cases(tier, seed, count, lo, hi):
    r = rng(seed, 2)
    for _ in range(count):
        n = int(r.integers(lo, hi + 1))
        A = structured(r, n) if r.random() < .6 else rand_graph(r, n, r.random())
        yield {"n": n, "bits": "".join(str(x) for x in A[np.triu_indices(n, 1)]), "dtype": DT[int(r.integers(0, 3))] if r.random() < .3 else "int", "layout": "CFS"[int(r.integers(0, 3))] if r.random() < .2 else "C"}


def build(case, diag=1):
    return layout(graph_from_bits(case["n"], [int(b) for b in case["bits"]], diag, case["dtype"]), case.get("layout", "C"))


@prop("C01")
class C01:
    rule = "a graph given by its upper triangle, memory layout and dtype; non-trivial if it has at least two edges"
    @staticmethod
    def nontrivial(c): return c["bits"].count("1") >= 2
    @staticmethod
    def cases(tier, seed):
        yield from graph_cases(tier, seed, 5 if tier == "quick" else 6)
        yield from big_cases(tier, seed, 2500 if tier == "quick" else 15000, 6, 11)
        yield from big_cases(tier, seed + 7, 60 if tier == "quick" else 400, 12, 13)
    @staticmethod
    def check(c):
        A = build(c); check_cover(A, cover_of(A.copy()))


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")
def known_c02():
    out = set()
    for l in open(KNOWN):
        if l.startswith("open: property=C02 input="):
            n, b = l.split()[2][len("input="):].split(":"); out.add((int(n), b))
    return out


def fixed_corpus(tier):
    """Graphs on 7 and 8 vertices, the same on every run (not drawn from the seed)."""
    r = rng(20240, 5)
    for H in nx.graph_atlas_g():
        if H.number_of_nodes() == 7:
            for t in range(1 if tier == "quick" else 3):
                p = r.permutation(7); A = nx.to_numpy_array(H, nodelist=range(7)).astype(int)[np.ix_(p, p)]
                yield {"n": 7, "bits": "".join(str(x) for x in A[np.triu_indices(7, 1)]), "dtype": "int"}
    r = rng(20241, 5)
    for _ in range(400 if tier == "quick" else 2000):
        n = int(r.integers(8, 10)); A = structured(r, n)
        yield {"n": n, "bits": "".join(str(x) for x in A[np.triu_indices(n, 1)]), "dtype": "int"}


@prop("C02")
class C02:
    rule = "a graph given by its upper triangle; the number of rows is compared with the optimum found by exhaustive search; non-trivial if it has at least two edges"
    nontrivial = C01.nontrivial
    keep_going = True
    @staticmethod
    def cases(tier, seed):
        yield from graph_cases(tier, seed, 5 if tier == "quick" else 6)
        known = known_c02()
        for c in fixed_corpus(tier):
            if (c["n"], c["bits"]) in known: continue
            yield c
    @staticmethod
    def check(c):
        A = build(c); got = len(np.asarray(cover_of(A.copy()))); opt = optimum(A)
        need(got <= opt, f"cover has {got} rows, but {opt} suffice")
    @staticmethod
    def still_known():
        """The listed inputs that still fail."""
        out = []
        for n, b in sorted(known_c02()):
            try:
                with quiet(): C02.check({"n": n, "bits": b, "dtype": "int"})
            except Bad as e: out.append(f"clique cover search is not minimum on {n} vertices, edges {b}: {e} (depth limit of the search)")
            if len(out) >= 1: break
        return out
    @staticmethod
    def post(viol, evaluations):
        """Failures of the listed kind (history: the search reached its depth limit, and is minimum with the limit lifted) on a few
        inputs that are not listed, because another, equally valid, order of enumeration was used, are the listed finding."""
        if not viol or any(c["n"] <= 6 for c, m in viol) or len(viol) > 0.06 * evaluations: return viol, []
        import inspect
        B = EA.branch; keep, known = [], []
        if "iteration_max" not in inspect.signature(B).parameters: return viol, []
        def lifted(*a, **k):
            ba = inspect.signature(B).bind(*a, **k); ba.arguments["iteration_max"] = 10 ** 9
            return B(*ba.args, **ba.kwargs)
        EA.branch = lifted
        try:
            for c, m in viol:
                try:
                    with quiet(): C02.check(c)
                    known.append((c, m))
                except Bad: keep.append((c, m))
        finally: EA.branch = B
        return keep, known


def all_max_cliques(A):
    A = np.asarray(A).astype(bool); n = len(A)
    nb = [sum(1 << j for j in range(n) if j != i and A[i, j]) for i in range(n)]
    out = set()
    H = nx.Graph(); H.add_nodes_from(range(n)); H.add_edges_from((i, j) for i in range(n) for j in range(i + 1, n) if A[i, j])
    if n <= 8:
        for S in range(1, 1 << n):
            com = (1 << n) - 1; ok = True
            for i in range(n):
                if S >> i & 1:
                    if (S & ~(1 << i)) & ~nb[i]: ok = False; break
                    com &= nb[i]
            if ok and com == 0: out.add(frozenset(i for i in range(n) if S >> i & 1))
        return out
    return {frozenset(c) for c in nx.find_cliques(H)}


@prop("C03")
class C03:
    rule = "a graph with any diagonal; the list of maximal cliques is compared with subset enumeration (n<=8) or networkx; non-trivial if at least three vertices"
    @staticmethod
    def nontrivial(c): return c["n"] >= 3
    @staticmethod
    def cases(tier, seed):
        yield {"n": 0, "bits": "", "dtype": "int", "diag": 0}
        for n in range(1, 6):
            for bits in all_graphs(n):
                for d in (0, 1, 2):
                    if n == 5 and d != sum(bits) % 3: continue
                    yield {"n": n, "bits": "".join(map(str, bits)), "dtype": "int" if d else "bool", "diag": d}
        r = rng(seed, 3)
        for _ in range(1500 if tier == "quick" else 8000):
            n = int(r.integers(5, 19)); A = structured(r, n) if r.random() < .5 else rand_graph(r, n, r.random())
            yield {"n": n, "bits": "".join(str(x) for x in A[np.triu_indices(n, 1)]), "dtype": DT[int(r.integers(0, 5))], "diag": int(r.integers(0, 3)), "layout": "CFS"[int(r.integers(0, 3))]}
    @staticmethod
    def check(c):
        n = c["n"]; r = np.random.default_rng(n + len(c["bits"]))
        A = build(c, 0)
        if n: A[np.arange(n), np.arange(n)] = 0 if c["diag"] == 0 else 1 if c["diag"] == 1 else r.integers(0, 2, n)
        got = list(EA.max_cliques(A))
        for q in got:
            need(len(set(map(int, q))) == len(q), f"{q} has repeated vertices")
        gs = [frozenset(map(int, q)) for q in got]
        need(len(set(gs)) == len(gs), "a clique is yielded twice")
        want = all_max_cliques(A) if n else set()
        need(set(gs) == want, f"yielded {sorted(map(sorted, set(gs) - want))[:3]} wrongly, missed {sorted(map(sorted, want - set(gs)))[:3]}")


def alpha(A):
    C = ~np.asarray(A).astype(bool); np.fill_diagonal(C, False)
    return max(len(q) for q in nx.find_cliques(nx.from_numpy_array(C.astype(int))))


@prop("C04")
class C04:
    rule = "a graph with any diagonal; non-trivial if at least three vertices"
    nontrivial = C03.nontrivial
    @staticmethod
    def cases(tier, seed):
        for c in C03.cases(tier, seed + 11):
            if c["n"]: yield c
    @staticmethod
    def check(c):
        n = c["n"]; r = np.random.default_rng(n + len(c["bits"])); A = build(c, 0)
        A[np.arange(n), np.arange(n)] = 0 if c["diag"] == 0 else 1 if c["diag"] == 1 else r.integers(0, 2, n)
        A0 = A.astype(bool)
        b = EA.find_heuristic_1pc(A)
        need(isinstance(b, np.ndarray) and b.dtype == bool and b.ndim == 2 and b.shape[1] == n, "not a boolean latent-by-measurement matrix")
        need(len(b) == alpha(A0), f"{len(b)} latents, but the largest independent set has {alpha(A0)} vertices")
        need(b[:, b.sum(0) == 1].any(1).all(), "a latent has no pure child")
        need(b.any(0).all(), "a measurement has no latent parent")
        U = b.T.astype(int) @ b.astype(int) > 0; off = ~np.eye(n, dtype=bool)
        need(not (A0 & off & ~U).any(), "adjacent measurements share no latent")


@prop("C05")
class C05:
    rule = "a one-pure-child structure; its induced graph is learnt from; non-trivial if at least two latents"
    @staticmethod
    def nontrivial(c): return len(c["biadj"]["__nd__"]) >= 2
    @staticmethod
    def cases(tier, seed):
        for l in range(1, 4):
            for m in range(l, min(l + 3, 6)):
                for rest in itertools.product(range(1, 2 ** l), repeat=m - l):
                    b = np.zeros((l, m), bool); b[:, :l] = np.eye(l)
                    for j, w in enumerate(rest): b[:, l + j] = [w >> i & 1 for i in range(l)]
                    p = rng(sum(rest), l, m).permutation(m)
                    for p in {tuple(range(m)), tuple(range(m))[::-1], tuple(int(x) for x in p)}: yield {"biadj": b[:, list(p)], "diag": int(sum(rest) % 3), "dtype": "bool" if sum(rest) % 2 else "int"}
        r = rng(seed, 5)
        for _ in range(1500 if tier == "quick" else 8000):
            m = int(r.integers(2, 15)); l = int(r.integers(1, m + 1)); b = np.zeros((l, m), bool); p = r.permutation(m)
            b[np.arange(l), p[:l]] = True
            q = r.uniform(.05, .95)
            for v in p[l:]:
                b[r.random(l) < q, v] = True
                if not b[:, v].any(): b[int(r.integers(0, l)), v] = True
            yield {"biadj": b, "diag": int(r.integers(0, 3)), "dtype": ["bool", "int", "int8", "float"][int(r.integers(0, 4))], "layout": "CFS"[int(r.integers(0, 3))]}
    @staticmethod
    def check(c):
        b = np.asarray(c["biadj"]).astype(bool); n = b.shape[1]
        A = (b.T.astype(int) @ b.astype(int) > 0)
        if c["diag"] == 0: np.fill_diagonal(A, False)
        if c["diag"] == 2: A[::2, :][np.arange(len(A[::2])), np.arange(0, n, 2)] = False
        got = EA.find_heuristic_1pc(layout(A.astype(c["dtype"]), c.get("layout", "C")))
        need(np.asarray(got).shape == b.shape, f"structure of shape {np.asarray(got).shape}, expected {b.shape}")
        need(sorted(map(tuple, np.asarray(got).astype(int).tolist())) == sorted(map(tuple, b.astype(int).tolist())), "the structure is not recovered")


@prop("C24")
class C24:
    rule = "a graph and a sequence of coverings (cliques of it, or lists of its edges); non-trivial if at least two edges and one covering"
    @staticmethod
    def nontrivial(c): return c["bits"].count("1") >= 2
    @staticmethod
    def cases(tier, seed):
        for n in range(2, 6):
            for t, bits in enumerate(all_graphs(n)):
                if sum(bits): yield {"n": n, "bits": "".join(map(str, bits)), "dtype": "int" if t % 3 else "bool", "seq": t}
        r = rng(seed, 24)
        for t in range(1200 if tier == "quick" else 8000):
            n = int(r.integers(4, 14)); A = structured(r, n) if r.random() < .5 else rand_graph(r, n, r.random())
            if len(edges_of(A)): yield {"n": n, "bits": "".join(str(x) for x in A[np.triu_indices(n, 1)]), "dtype": "int" if t % 3 else "bool", "seq": int(r.integers(0, 10 ** 6))}
    @staticmethod
    def agree(g, want, what):
        A = np.asarray(g.adj_matrix).astype(bool); n = len(A); off = ~np.eye(n, dtype=bool)
        need((A & off == want & off).all(), f"{what}: the uncovered edges are not the expected ones")
        need(int(g.num_edges) == int(np.triu(want, 1).sum()), f"{what}: the edge count {g.num_edges} disagrees with the graph")
        idx = [int(i) for i in g.extant_edges_idx]
        need(len(set(idx)) == len(idx), f"{what}: an uncovered edge is listed twice")
        need(set(idx) == {int(g.get_idx(e)) for e in zip(*np.nonzero(np.triu(want, 1)))}, f"{what}: the index list disagrees with the graph")
    @staticmethod
    def check(c):
        A = build(c); n = len(A); A0 = A.astype(bool)
        g = G.UndirectedDependenceGraph(A.copy()); g.make_aux()
        m = n * (n - 1) // 2
        idx = {}
        for u in range(n):
            for v in range(u + 1, n):
                i = int(g.get_idx((u, v))); need(0 <= i < m, "edge index out of range"); idx[(u, v)] = i
                e = g.get_edge(i); need((int(e[0]), int(e[1])) == (u, v), f"edge {(u, v)} has index {i}, which denotes {tuple(map(int, e))}")
        need(len(set(idx.values())) == m, "two edges have the same index")
        C24.agree(g, A0, "after building")
        for (u, v), i in idx.items():
            if A0[u, v]:
                com = A0[u] & A0[v]; need((np.asarray(g.common_neighbors[i]).astype(bool) == com).all(), f"common neighbours of {(u, v)} are wrong")
                cnt = int(np.triu(A0[np.ix_(com, com)], 1).sum()); need(int(g.nbrhood_edge_counts[i]) == cnt, f"number of edges among the common neighbours of {(u, v)} is wrong")
        r = np.random.default_rng(c["seq"])
        h = g.reducible_copy(); want = A0.copy(); C24.agree(h, want, "after copying")
        trail = [(g, A0.copy())]
        for step in range(int(r.integers(1, 6))):
            k = int(r.integers(0, 4))
            if k == 3:
                trail.append((h, want.copy())); h = h.reducible_copy(); continue
            if k == 0:
                es = edges_of(A0); sel = [es[i] for i in r.permutation(len(es))[: int(r.integers(1, min(4, len(es)) + 1))]]
                h.cover_edges(np.array(sel, int))
            else:
                cl = [int(x) for x in r.permutation(n)][:1]
                for v in r.permutation(n):
                    if int(v) not in cl and all(A0[v, w] for w in cl) and r.random() < .8: cl.append(int(v))
                if len(cl) < 2: continue
                row = np.zeros(n, int); row[cl] = 1
                h.the_cover = row.reshape(1, -1) if h.the_cover is None else np.vstack((h.the_cover, row))
                h.cover_edges(); sel = list(itertools.combinations(sorted(cl), 2))
            for u, v in sel: want[u, v] = want[v, u] = False
            C24.agree(h, want, f"after covering {sel}")
        for q, w in trail: C24.agree(q, w, "in a graph that was copied before covering")
