import itertools
from contracts.common import *

def where_is(a, v):
    """Claim: the value v occurs in the 1-d array a, at the place the array's construction gives for it."""
    if "at" in a.meta: p = a.meta["at"](num(v))
    else:
        c = cx(); h = c.ghost.get("listed at"); ps = [rank(h(num(v))) for rank, cnt, f, sh in c.masks if len(sh) == 1 and same(cnt, a.shape[0]) is True] if h is not None else []
        return z3.Or([z3.And(inr(p, a.shape[0]), num(a.at(p)) == num(v)) for p in ps] + [exists([a.shape[0]], lambda k: num(a.at(k)) == num(v))])
    return z3.And(inr(p, a.shape[0]), num(a.at(p)) == num(v))

def alike(a, b): return z3.simplify(num(a)).eq(z3.simplify(num(b)))
def hint(u, v, at=()):
    """Instances, at (u, v), of the facts about every enumeration of pairs made so far, and about every enumeration of pairs of positions
    in an enumeration of vertices."""
    c = cx(); L = list(zip(c.masks, c.mask_enums))
    def inst(m, en, *ix):
        rank, cnt, f, sh = m; r = rank(*ix); k = c.int("position")
        rng = z3.And(*[inr(q, d) for q, d in zip(ix, sh)]); P = arr.under(rng, lambda: tobool(f(*ix)))
        c.assume(k == r, z3.Implies(z3.And(rng, P), z3.And(inr(r, cnt), *[e(r) == q for e, q in zip(en, ix)])))
        return r
    bound = lambda e: any(nm in c.bound_names for nm in names(e))
    L = [(m, en) for m, en in L if not bound(m[1])]; n = [m for m, en in L if len(m[3]) == 2][0][3][0]
    pos = [(m[1], inst(m, en, u), inst(m, en, v)) for m, en in L if len(m[3]) == 1 and alike(m[3][0], n)]
    at = list(at) + [(cnt, r) for cnt, p, q in pos for r in (p, q)]
    for m, en in L:
        if len(m[3]) != 2: continue
        if alike(m[3][0], n): at += [(m[1], inst(m, en, u, v)), (m[1], inst(m, en, v, u))]
        for cnt, p, q in pos:
            if alike(m[3][0], cnt): at += [(m[1], inst(m, en, p, q)), (m[1], inst(m, en, q, p))]
    for m, en in L:
        if len(m[3]) == 1:
            for cnt, r in at:
                if alike(m[3][0], cnt): inst(m, en, r)
def names(e):
    st, out = [e], set()
    while st:
        x = st.pop(); st.extend(x.children())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
    return out
def edge_of(g, ip, x):
    u, v = ip.call(ip.getattr(g, "get_edge"), [x], {}); return num(npmodel.to_scalar(u)), num(npmodel.to_scalar(v))
def index_of(g, ip, u, v): return num(npmodel.to_scalar(ip.call(ip.getattr(g, "get_idx"), [(u, v)], {})))

def symmetric(n, dtype, diag):
    """An arbitrary symmetric 0/1 matrix (diag: None arbitrary)."""
    c = cx(); g = c.fn("A", I, I, B); i, j = c.int("i"), c.int("j")
    c.axiom(z3.ForAll([i, j], g(i, j) == g(j, i), patterns=[g(i, j)]))
    if diag is not None: c.axiom(z3.ForAll([i], g(i, i) == diag, patterns=[g(i, i)]))
    return arr.new((n, n), dtype, lambda i, j: arr.cast(g(num(i), num(j)), dtype), "A"), (lambda i, j: g(num(i), num(j)))

def pairs(n):
    c = cx(); u, v = c.int("u"), c.int("v"); return u, v, [u >= 0, u < v, v < n]

def bijection(ip, g, n):
    c = cx(); u, v, P = pairs(n); M = num(n) * (num(n) - 1) / 2; M2 = num(n) * (num(n) - 1)
    c.local.append(P)
    try:
        x = index_of(g, ip, u, v); c.oblige("the index of a pair is in range", z3.And(x >= 0, 2 * x < M2))
        p, q = edge_of(g, ip, x); c.oblige("the pair of an index of a pair", z3.And(p == u, q == v))
    finally: c.local.pop()
    x = c.int("x"); c.local.append([x >= 0, 2 * x < M2])
    try:
        p, q = edge_of(g, ip, x); c.oblige("an index denotes a pair", z3.And(p >= 0, p < q, q < n)); c.oblige("the index of the pair of an index", index_of(g, ip, p, q) == x)
    finally: c.local.pop()

def agree(ip, g, n, adj, what):
    """Uncovered edges, their number and their index list."""
    c = cx(); A = g.attrs["adj_matrix"]
    if not shape_is(what, A, (n, n)): return
    a = A.fn(); pointwise(f"{what}: the uncovered edges", (n, n), lambda i, j: (hint(i, j), z3.Implies(i != j, tobool(a(i, j)) == adj(i, j)))[1])
    equal(f"{what}: the number of uncovered edges", npmodel.to_scalar(g.attrs["num_edges"]), ssum([n, n], lambda i, j: z3.If(z3.And(num(i) < num(j), tobool(a(i, j))), z3.IntVal(1), z3.IntVal(0))))
    E = g.attrs["extant_edges_idx"]
    if not isinstance(E, Arr) or E.ndim != 1: c.oblige(f"{what}: an index list", False); return
    k, k2 = c.int("k"), c.int("k")
    c.local.append([inr(k, E.shape[0])])
    try:
        x = num(E.at(k)); c.oblige(f"{what}: listed indices are indices of pairs", z3.And(x >= 0, 2 * x < num(n) * (num(n) - 1)))
        p, q = edge_of(g, ip, x); c.oblige(f"{what}: listed edges are uncovered", z3.And(p >= 0, p < q, q < n, adj(p, q)))
        c.local.append([inr(k2, E.shape[0]), k != k2])
        try: c.oblige(f"{what}: no edge is listed twice", x != num(E.at(k2)))
        finally: c.local.pop()
    finally: c.local.pop()
    u, v, P = pairs(n); c.local.append(P + [adj(u, v)]); hint(u, v)
    try: c.oblige(f"{what}: every uncovered edge is listed", where_is(E, index_of(g, ip, u, v)))
    finally: c.local.pop()

def built(ip, dtype, some=True):
    c = cx(); n = size("n", 1); A, adj = symmetric(n, dtype, True)
    if some:
        u, v = c.int("u0"), c.int("v0"); c.assume(u >= 0, u < v, v < n, adj(u, v))
    F = Frame(adj_matrix=A); g = returns(ip, lambda: call(ip, "graph", "UndirectedDependenceGraph", A))
    returns(ip, lambda: ip.call(ip.getattr(g, "make_aux"), [], {})); F.check()
    return g, n, adj

def aux(dtype, also=None):
    def go(ip):
        c = cx(); g, n, adj = built(ip, dtype); bijection(ip, g, n); agree(ip, g, n, adj, "after building")
        N, K = g.attrs["common_neighbors"], g.attrs["nbrhood_edge_counts"]; u, v, P = pairs(n); c.local.append(P + [adj(u, v)])
        hint(u, v)
        try:
            x = index_of(g, ip, u, v); pointwise("the common neighbours of an edge's ends", (n,), lambda w: tobool(N.at(x, w)) == z3.And(adj(u, w), adj(v, w)))
            com = lambda w: tobool(N.at(x, w)); P_ = lambda w: z3.And(adj(u, w), adj(v, w))
            w = c.int("w"); c.assume(z3.ForAll([w], z3.Implies(inr(w, n), com(w) == P_(w)), patterns=[adj(u, w), adj(v, w)]))
            one = lambda q: z3.If(q, z3.IntVal(1), z3.IntVal(0)); m = lambda i, j: z3.And(com(i), com(j), adj(i, j)); dims = [n, n]
            up = lambda i, j: one(z3.And(num(i) < num(j), m(i, j)))
            sum_equal("pairs are ordered, reversed or equal", dims, lambda i, j: one(m(i, j)), lambda i, j: up(i, j) + one(z3.And(num(i) > num(j), m(i, j))) + one(z3.And(num(i) == num(j), m(i, i))))
            sum_equal("the reversed pairs", dims, lambda i, j: one(z3.And(num(i) < num(j), m(j, i))), up)
            sum_equal("the equal pairs", [n], lambda i: one(m(i, i)), lambda i: one(com(i)))
            sum_equal("the common neighbours", dims, up, lambda i, j: one(z3.And(num(i) < num(j), P_(i), P_(j), adj(i, j))))
            equal("the number of edges among the common neighbours", num(K.at(x)), ssum(dims, lambda i, j: one(z3.And(num(i) < num(j), P_(i), P_(j), adj(i, j)))))
            if also: also(g, n, adj, num(K.at(x)), P_)
        finally: c.local.pop()
    return go

KNOWN = {"adj_matrix", "num_vertices", "max_num_verts", "num_edges", "verbose", "common_neighbors", "get_idx", "get_edge", "nbrs", "extant_edges_idx", "nbrhood_edge_counts", "unreduced", "the_cover", "reduced_away", "reduced_order", "k_num_cliques", "reducing"}
class Index:
    """The index functions under their contract (proved for make_aux): a bijection between the pairs u < v < n and 0..n(n-1)/2-1."""
    def __init__(s, n):
        c = cx(); s.f, s.p, s.q = c.fn("index", I, I, I), c.fn("first", I, I), c.fn("second", I, I); u, v, x = (c.int(t) for t in "uvx"); M2 = num(n) * (num(n) - 1); s.M = c.int("pairs"); c.assume(2 * s.M == M2, s.M >= 0)
        c.axiom(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < v, v < n), z3.And(inr(s.f(u, v), s.M), s.p(s.f(u, v)) == u, s.q(s.f(u, v)) == v)), patterns=[s.f(u, v)]))
        for t in (s.p, s.q): c.axiom(z3.ForAll([x], z3.Implies(inr(x, s.M), z3.And(s.p(x) >= 0, s.p(x) < s.q(x), s.q(x) < n, s.f(s.p(x), s.q(x)) == x)), patterns=[t(x)]))
        ip_ = npmodel.IP[0]; o = lambda f, *a: arr.ewise(lambda *e: f(*[num(y) for y in e]), "i", *a)
        s.get_idx = Native("get_idx", lambda a, k: o(s.f, ip_.getitem(a[0], 0), ip_.getitem(a[0], 1))); s.get_edge = Native("get_edge", lambda a, k: (o(s.p, a[0]), o(s.q, a[0])))

def history(ip, dtype):
    """A reducible copy after any history of coverings: its uncovered edges, their number and their index list are arbitrary but agree."""
    c = cx(); g, n, adj0 = built(ip, dtype); ix = Index(n)
    for t in ("get_idx", "get_edge"): ip.getattr(g, t); g.attrs[t] = getattr(ix, t)
    h = returns(ip, lambda: ip.call(ip.getattr(g, "reducible_copy"), [], {}))
    for o in (g, h):
        if not set(o.attrs) <= KNOWN: raise Unsupported("the state of a graph has parts not described here")
        if any(o.attrs.get(t) is not getattr(ix, t) for t in ("get_idx", "get_edge")): raise Unsupported("own index functions of a copy")
    A, adj = symmetric(n, dtype, None); h.attrs["adj_matrix"] = A
    h.attrs["num_edges"] = ssum([n, n], lambda i, j: z3.If(z3.And(num(i) < num(j), adj(i, j)), z3.IntVal(1), z3.IntVal(0)))
    E = sym_arr("extant", (size("listed"),), "i"); h.attrs["extant_edges_idx"] = E; N = E.shape[0]; at = c.fn("at", I, I); k, u, v = c.int("k"), c.int("u"), c.int("v")
    x = E.at(k); c.axiom(z3.ForAll([k], z3.Implies(inr(k, N), z3.And(inr(x, ix.M), adj(ix.p(x), ix.q(x)), at(x) == k)), patterns=[x]))
    x = ix.f(u, v); c.axiom(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < v, v < n, adj(u, v)), z3.And(inr(at(x), N), E.at(at(x)) == x)), patterns=[x]))
    E.meta["at"] = c.ghost["listed at"] = at
    return g, h, n, adj0, adj

def copied(dtype):
    """A copy agrees with the graph too, and covering edges of it leaves the graph as it was."""
    def go(ip):
        c = cx(); g, h, n, adj0, adj = history(ip, dtype); arrays = lambda o: {t: o.attrs[t] for t in ("adj_matrix", "extant_edges_idx", "common_neighbors", "nbrhood_edge_counts")}
        F, F0 = Frame(**arrays(h)), Frame(**arrays(g)); num0 = h.attrs["num_edges"]
        q = returns(ip, lambda: ip.call(ip.getattr(h, "reducible_copy"), [], {})); agree(ip, q, n, adj, "the copy")
        u, v = c.int("u"), c.int("v"); c.assume(u >= 0, u < v, v < n); returns(ip, lambda: ip.call(ip.getattr(q, "cover_edges"), [arr.from_py([[u, v]])], {}))
        for o, f in ((h, F), (g, F0)):
            for t, (a, *_) in f.a.items(): c.oblige(f"frame: {t} not replaced", o.attrs[t] is a, "frame")
            f.check()
        equal("frame: the number of edges", h.attrs["num_edges"], num0)
    return go

def covering(dtype, clique):
    def go(ip):
        c = cx(); g, h, n, adj0, adj = history(ip, dtype); A = h.attrs["adj_matrix"]; G0 = Frame(original=g.attrs["adj_matrix"], original_list=g.attrs["extant_edges_idx"])
        if clique:
            k = size("cliques", 1); C = int01("cover", (k, n), "i"); h.attrs["the_cover"] = C; f = C.fn(); inq = lambda i: tobool(f(num(k) - 1, i)); hit = lambda i, j: z3.And(inq(i), inq(j)); F = Frame(the_cover=C)
            returns(ip, lambda: ip.call(ip.getattr(h, "cover_edges"), [], {}))
        else:
            k = size("edges", 1); X = sym_arr("edges", (k, 2), "i"); i = c.int("i"); e0, e1 = X.at(i, 0), X.at(i, 1); c.axiom(z3.ForAll([i], z3.Implies(inr(i, k), z3.And(e0 >= 0, e0 < e1, e1 < n)), patterns=[e0, e1]))
            f = X.fn(); hit = lambda i, j: exists([k], lambda t: z3.Or(z3.And(f(t, 0) == num(i), f(t, 1) == num(j)), z3.And(f(t, 0) == num(j), f(t, 1) == num(i)))); F = Frame(edges=X)
            returns(ip, lambda: ip.call(ip.getattr(h, "cover_edges"), [X], {}))
        E = h.attrs["extant_edges_idx"]
        if not isinstance(E, Arr) or E.ndim != 1: c.oblige("an index list", False); return
        u, v, P = pairs(n); b = c.int("b"); q = c.int("k"); c.local.append(P + [inr(q, E.shape[0])] + ([hit(u, v)] if clique else [inr(b, k), f(b, 0) == u, f(b, 1) == v])); hint(u, v, () if clique else [(k, b)])
        try: c.oblige("after covering: covered edges are not listed", num(E.at(q)) != index_of(h, ip, u, v))
        finally: c.local.pop()
        with bound(n, n, E.shape[0]) as (u, v, q): e, x = num(E.at(q)), index_of(h, ip, u, v)
        c.assume(z3.ForAll([u, v, q], z3.Implies(z3.And(u >= 0, u < v, v < n, inr(q, E.shape[0]), hit(u, v)), e != x), patterns=[z3.MultiPattern(e, x)]))
        agree(ip, h, n, lambda i, j: z3.And(adj(i, j), z3.Not(hit(i, j))), "after covering"); F.check(); G0.check()
    return go

def goals():
    return [Goal(f"make_aux[{t}]", aux(d)) for t, d in (("int", "i"), ("bool", "b"))] + [Goal("reducible_copy", copied("i")), Goal("cover_edges[edges]", covering("i", False)), Goal("cover_edges[clique]", covering("i", True)), Goal("cover_edges[clique, bool]", covering("b", True))]
