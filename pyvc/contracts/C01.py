"""Clique cover search.  State of a reducible graph h over the graph G (n vertices):
  unc(u, v): the uncovered edges; alive(v): the vertices not removed (the diagonal of h's matrix);
  I1 unc is symmetric, within G and between alive vertices; I2 the common neighbours of an uncovered edge {u, v} are N[u] & N[v] & alive;
  I3 its edge count is at most the number of edges of G between them;
  I4 the number of uncovered edges and their index list agree with unc (C24)."""
import itertools
from contracts.common import *
from contracts import C24, cover

one = lambda q: z3.If(q, z3.IntVal(1), z3.IntVal(0))

class State: pass

def state(ip, dtype):
    """An arbitrary state satisfying the invariant."""
    c = cx(); S = State(); S.g, S.h, S.n, S.G, S.adj = C24.history(ip, dtype); S.ix = None; n = S.n
    h = S.h; S.unc = lambda i, j: z3.And(num(i) != num(j), S.adj(i, j)); S.alive = lambda v: S.adj(v, v); S.dtype = dtype
    i, j, x, w = (c.int(t) for t in "ijxw")
    c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, n), inr(j, n), i != j, S.adj(i, j)), z3.And(S.G(i, j), S.adj(i, i), S.adj(j, j))), patterns=[S.adj(i, j)]))
    N0 = h.attrs["common_neighbors"]; K0 = h.attrs["nbrhood_edge_counts"]
    if not (isinstance(N0, Arr) and N0.ndim == 2 and isinstance(K0, Arr) and K0.ndim == 1): raise Unsupported("the auxiliary structure")
    M = N0.shape[0]; S.M = M; b = S.com0 = c.fn("common", I, I, B)
    N = h.attrs["common_neighbors"] = arr.new((M, n), N0.dtype, lambda x, w: arr.cast(b(num(x), num(w)), N0.dtype), "common_neighbors")
    k = S.count0 = c.fn("counts", I, I); h.attrs["nbrhood_edge_counts"] = arr.new((M,), "i", lambda x: k(num(x)), "nbrhood_edge_counts")
    S.first, S.second = lambda x: num(npmodel.to_scalar(ip.call(ip.getattr(h, "get_edge"), [x], {})[0])), lambda x: num(npmodel.to_scalar(ip.call(ip.getattr(h, "get_edge"), [x], {})[1]))
    with bound(M, n) as (x, w): p, q = S.first(x), S.second(x)
    hy = z3.And(inr(x, M), S.adj(p, q)); S.listed = lambda x: z3.And(inr(x, M), S.unc(S.first(x), S.second(x)))
    c.axiom(z3.ForAll([x, w], z3.Implies(z3.And(hy, inr(w, n)), b(x, w) == z3.And(S.G(p, w), S.G(q, w), S.alive(w))), patterns=[b(x, w)]))
    c.axiom(z3.ForAll([x], z3.Implies(hy, 2 * k(x) <= among(S, lambda w: b(x, w))), patterns=[k(x)]))
    return S

def among(S, sel):
    """Twice the number of edges of G between the selected vertices."""
    return ssum([S.n, S.n], lambda i, j: one(z3.And(num(i) != num(j), sel(i), sel(j), S.G(i, j))))

def sum_parts(what, n, f, at):
    """sum f = the terms at the distinct positions `at` + the sum of the others."""
    other = lambda i: z3.And(*[num(i) != a for a in at])
    sum_equal(what, [n], f, lambda i: sum(z3.If(num(i) == a, num(f(a)), z3.IntVal(0)) for a in at) + z3.If(other(i), num(f(i)), z3.IntVal(0)))

def only(h, was, what, names):
    for t in sorted(set(h.attrs) | set(was)):
        if t not in names.split(): cx().oblige(f"frame: {what} leaves {t}", t in h.attrs and t in was and h.attrs[t] is was[t], "frame")

def rule_1(dtype):
    def go(ip):
        c = cx(); S = state(ip, dtype); h, n = S.h, S.n; was = dict(h.attrs); F = Frame(extant=h.attrs["extant_edges_idx"], original=S.g.attrs["adj_matrix"])
        returns(ip, lambda: ip.call(ip.getattr(h, "rule_1"), [], {}))
        a1 = h.attrs["adj_matrix"]; A1 = a1.fn(); N1 = h.attrs["common_neighbors"]; K1 = h.attrs["nbrhood_edge_counts"]; alive1 = lambda v: tobool(A1(v, v))
        only(h, was, "rule 1", "adj_matrix num_vertices common_neighbors nbrhood_edge_counts"); F.check()
        pointwise("the uncovered edges stay", (n, n), lambda i, j: z3.Implies(i != j, tobool(A1(i, j)) == S.adj(i, j)))
        pointwise("only alive vertices stay alive", (n,), lambda v: z3.Implies(alive1(v), S.alive(v)))
        i, j = c.int("i"), c.int("j"); c.local.append([inr(i, n), inr(j, n), i != j, S.adj(i, j)])
        try:
            for f in (lambda r: one(S.adj(r, i)), lambda r: one(S.adj(i, r))): sum_parts("the degree of an end of an uncovered edge", n, f, [i, j])
            c.oblige("ends of uncovered edges stay alive", alive1(i))
        finally: c.local.pop()
        v, x = c.int("v"), c.int("x"); c.local.append([inr(v, n), alive1(v), z3.ForAll([x], z3.Implies(z3.And(inr(x, n), x != v), z3.Not(S.adj(v, x))), patterns=[S.adj(v, x)])])
        try:
            for f in (lambda r: one(S.adj(r, v)), lambda r: one(S.adj(v, r))): sum_equal("the degree of a vertex without uncovered edges", [n], f, lambda r: one(num(r) == v))
            c.oblige("alive vertices have an uncovered edge", False)
        finally: c.local.pop()
        deg = lambda v: ssum([n], lambda r: one(S.adj(r, v))) + ssum([n], lambda r: one(S.adj(v, r))); left = lambda v: z3.And(S.alive(v), deg(v) != 2)
        pointwise("exactly the alive vertices with an uncovered edge stay alive", (n,), lambda v: alive1(v) == left(v))
        al = c.fn("left", I, B); w = c.int("w"); c.assume(z3.ForAll([w], z3.Implies(inr(w, n), z3.And(al(w) == left(w), al(w) == alive1(w))), patterns=[al(w)]))
        x = c.int("x"); c.local.append([S.listed(x)])
        try:
            p, q = S.first(x), S.second(x); N = lambda w: S.com0(x, num(w))
            pointwise("the common alive neighbours of an uncovered edge", (n,), lambda w: tobool(N1.at(x, w)) == z3.And(S.G(p, w), S.G(q, w), al(w)))
            gone = lambda w: z3.And(N(w), z3.Not(al(num(w)))); D = [n, n]; e = lambda i, j: z3.And(num(i) != num(j), N(i), N(j), S.G(i, j))
            T = ssum(D, lambda i, j: one(z3.And(gone(i), e(i, j)))); rid = S.count0(x) - num(K1.at(x))
            c.oblige("the edges at removed vertices are subtracted", rid == T); c.assume(rid == T)
            sum_equal("edges at removed vertices, from their other ends", D, lambda i, j: one(z3.And(gone(j), e(i, j))), lambda i, j: one(z3.And(gone(j), e(j, i))))
            sel = lambda w: z3.And(S.G(p, w), S.G(q, w), al(num(w)))
            sum_le("edges that remain", D, lambda i, j: one(e(i, j)) - one(z3.And(gone(i), e(i, j))) - one(z3.And(gone(j), e(i, j))), lambda i, j: one(z3.And(num(i) != num(j), sel(i), sel(j), S.G(i, j))))
            c.oblige("the edge count of an uncovered edge", 2 * num(K1.at(x)) <= among(S, sel))
        finally: c.local.pop()
    return go

def rows_of(e, f):
    """The rows of f read in e."""
    st, out = [e], []
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().eq(f) and not any(x.arg(0).eq(y) for y in out): out.append(x.arg(0))
        st.extend(x.children())
    return out

def apps(e, f):
    """The applications of f in e."""
    st, out = [e], []
    while st:
        x = st.pop(); st.extend(x.children())
        if z3.is_app(x) and x.decl().eq(f) and not any(x.eq(y) for y in out): out.append(x)
    return out

def with_cover(S, some):
    """The cliques chosen so far: none, or an arbitrary nonempty 0/1 matrix."""
    c = cx(); S.k = size("cliques", 1) if some else 0; S.C = int01("cover", (S.k, S.n), "i") if some else None; S.h.attrs["the_cover"] = S.C

def consts(e):
    st, out = [e], {}
    while st:
        x = st.pop(); st.extend(x.children())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x): out[x.get_id()] = x
    return list(out.values())

def partners(S):
    """Every alive vertex has an uncovered edge (rule 1)."""
    c = cx(); q = c.ghost["partner"] = c.fn("partner", I, I); v = c.int("v")
    c.axiom(z3.ForAll([v], z3.Implies(z3.And(inr(v, S.n), S.alive(v)), z3.And(inr(q(v), S.n), S.unc(v, q(v)))), patterns=[S.alive(v), q(v)]))

def cover_pre(ip, n):
    """cover_edges: its precondition is an obligation; its contract (C24) gives the agreement of number and index list, the rest is executed."""
    def contract(ip_, f, args, kw):
        c = cx(); X = args[1] if len(args) > 1 else kw.get("edges"); h = args[0]; c.assumed.add("cover_edges: agreement of the edge count and index list by contract (C24)")
        if X is not None:
            if not (isinstance(X, Arr) and X.ndim == 2): raise Unsupported("edges to cover in another form")
            c.oblige("edges to cover: pairs", num(X.shape[1]) == 2, "pre")
            for q in consts(num(X.shape[0])) if "partner" in c.ghost else []:      # the loop variable is an alive vertex
                if not q.eq(num(n)): C24.hint(q, c.ghost["partner"](q))
            c.oblige("edges to cover: at least one", num(X.shape[0]) >= 1, "pre")
            pointwise("edges to cover: ordered pairs of vertices", (X.shape[0],), lambda k: z3.And(num(X.at(k, 0)) >= 0, num(X.at(k, 0)) < num(X.at(k, 1)), num(X.at(k, 1)) < n), "pre")
        else:
            C = h.attrs["the_cover"]
            if C is not None and shape_is("the cover to mark", C, (C.shape[0], n)): pointwise("the cover to mark: entries 0 or 1", C.shape, lambda r, x: z3.BoolVal(True) if C.dtype == "b" else z3.Or(num(C.at(r, x)) == 0, num(C.at(r, x)) == 1), "pre"); c.oblige("the cover to mark: some row", num(C.shape[0]) >= 1, "pre")
        return ip_.run_body(f, args, kw)
    ip.contracts["graph.ReducibleUndDepGraph.cover_edges"] = contract

def rule_2(dtype, some):
    def go(ip):
        c = cx(); S = state(ip, dtype); h, n = S.h, S.n; cover_pre(ip, n); with_cover(S, some); h.attrs["k_num_cliques"] = c.int("k"); h.attrs["reducing"] = False; was = dict(h.attrs)
        F = Frame(original=S.g.attrs["adj_matrix"], common_neighbors=h.attrs["common_neighbors"], nbrhood_edge_counts=h.attrs["nbrhood_edge_counts"], **({"the_cover": S.C} if some else {}))
        returns(ip, lambda: ip.call(ip.getattr(h, "rule_2"), [], {})); F.check()
        C1 = h.attrs["the_cover"]
        if C1 is S.C: only(h, was, "rule 2 when it does not apply", ""); return
        c.oblige("rule 2 applies: reduction goes on", h.attrs["reducing"] is True); equal("rule 2 applies: one clique fewer is left", h.attrs["k_num_cliques"], was["k_num_cliques"] - 1)
        only(h, was, "rule 2", "adj_matrix num_edges extant_edges_idx the_cover k_num_cliques reducing")
        if not shape_is("the cover", C1, (num(S.k) + 1, n)): return
        if some: pointwise("the cliques chosen before", (S.k, n), lambda r, v: num(C1.at(r, v)) == num(S.C.at(r, v)))
        row = lambda v: tobool(C1.at(S.k, v)); A1 = h.attrs["adj_matrix"].fn()
        pointwise("the uncovered edges", (n, n), lambda i, j: (C24.hint(i, j), z3.Implies(i != j, tobool(A1(i, j)) == z3.And(S.adj(i, j), z3.Not(z3.And(row(i), row(j))))))[1])
        pointwise("the alive vertices", (n,), lambda v: tobool(A1(v, v)) == S.alive(v))
        pointwise("the clique chosen is alive", (n,), lambda v: z3.Implies(row(v), S.alive(v)))
        xs = rows_of(C1.at(S.k, c.int("w")), S.com0)
        if len(xs) != 1: raise Unsupported("no single row of common neighbours chosen")
        x = xs[0]; p, q = S.first(x), S.second(x); N = lambda w: S.com0(x, num(w)); m = ssum([n], lambda w: one(N(w)))
        c.oblige("the clique chosen belongs to an uncovered edge", z3.And(S.listed(x), inr(p, n), inr(q, n), p != q, row(p), row(q)))
        a, b = c.int("a"), c.int("b"); c.local.append([inr(a, n), inr(b, n), a != b, row(a), row(b), z3.Not(S.G(a, b))])
        try:
            isp = lambda i, j, u, v: one(z3.And(num(i) == u, num(j) == v)); both = lambda i, j: one(z3.And(N(i), N(j))); D = [n, n]
            sum_le("edges among the vertices chosen", D, lambda i, j: one(z3.And(num(i) != num(j), N(i), N(j), S.G(i, j))), lambda i, j: both(i, j) - one(z3.And(num(i) == num(j), N(i))) - isp(i, j, a, b) - isp(i, j, b, a))
            sum_product("pairs of chosen vertices", D, both, lambda i: one(N(i)), lambda i: one(N(i)))
            c.oblige("the score of the edge chosen", S.count0(x) == m * (m - 1) / 2); c.assume(S.count0(x) == m * (m - 1) / 2)
            c.oblige("the clique chosen is a clique", False)
        finally: c.local.pop()
    return go

def with_history(S, some):
    """The vertices removed by rule 3 so far, with their prisoners: none, or an arbitrary list of vertices that are not alive any more."""
    c = cx(); n = S.n; S.R = 0; S.away = None
    if not some: return
    S.R = size("removed", 1); S.v, S.c, k = c.fn("removed", I, I), c.fn("chosen_before", I, I), c.int("k")
    c.axiom(z3.ForAll([k], z3.Implies(inr(k, S.R), z3.And(inr(S.v(k), n), z3.Not(S.alive(S.v(k))), S.c(k) >= 0, S.c(k) <= num(S.k))), patterns=[S.v(k)]))
    S.pri = c.fn("prisoner", I, I, B); S.away = S.h.attrs["reduced_away"] = arr.new((n, n), "b", lambda i, j: S.pri(num(i), num(j)), "reduced_away")
    S.order = S.h.attrs["reduced_order"] = SList(S.R, lambda k: (S.v(num(k)), S.c(num(k))))

def rule_3(dtype, some, removed):
    def go(ip):
        c = cx(); S = state(ip, dtype); h, n = S.h, S.n; cover_pre(ip, n); with_cover(S, some); partners(S); with_history(S, removed); h.attrs["k_num_cliques"] = c.int("k"); h.attrs["reducing"] = False; was = dict(h.attrs)
        F = Frame(original=S.g.attrs["adj_matrix"], common_neighbors=h.attrs["common_neighbors"], nbrhood_edge_counts=h.attrs["nbrhood_edge_counts"], **({"the_cover": S.C} if some else {}))
        FA = Frame(adj_matrix=h.attrs["adj_matrix"], **({"reduced_away": S.away} if removed else {}))
        returns(ip, lambda: ip.call(ip.getattr(h, "rule_3"), [], {})); F.check()
        L = h.attrs.get("reduced_order"); nL = len(L) if isinstance(L, list) else L.n if isinstance(L, SList) else 0; at = lambda k: L[k] if isinstance(L, list) else L.at_(num(k))
        if same(nL, S.R) is True: only(h, was, "rule 3 when it does not apply", ""); FA.check(); return
        only(h, was, "rule 3", "adj_matrix num_edges extant_edges_idx reducing reduced_away reduced_order")
        c.oblige("one vertex is removed", num(nL) == num(S.R) + 1)
        if removed:
            with_k = c.int("j"); c.local.append([inr(with_k, S.R)])
            try: c.oblige("the vertices removed before", z3.And(num(at(with_k)[0]) == S.v(with_k), num(at(with_k)[1]) == S.c(with_k)))
            finally: c.local.pop()
        v, t = at(S.R); v, t = num(npmodel.to_scalar(v)), num(npmodel.to_scalar(t))
        c.oblige("a vertex alive, and the number of cliques before", z3.And(inr(v, n), S.alive(v), t == num(S.k)))
        if not shape_is("prisoners", h.attrs["reduced_away"], (n, n)): return
        W = h.attrs["reduced_away"]; P = lambda w: tobool(W.at(v, w)); A1 = h.attrs["adj_matrix"].fn()
        if removed: pointwise("the prisoners of vertices removed before", (S.R, n), lambda k, w: tobool(W.at(S.v(k), w)) == S.pri(S.v(k), w))
        pointwise("prisoners are alive neighbours", (n,), lambda w: z3.Implies(P(w), z3.And(w != v, S.alive(w), S.G(v, w))))
        pointwise("neighbours of a prisoner are neighbours", (n, n), lambda w, x: z3.Implies(z3.And(P(w), S.alive(x), S.G(w, x)), S.G(v, x)))
        pointwise("the uncovered edges", (n, n), lambda i, j: (C24.hint(i, j), z3.Implies(i != j, tobool(A1(i, j)) == z3.And(S.adj(i, j), i != v, j != v)))[1])
        pointwise("the alive vertices", (n,), lambda u: tobool(A1(u, u)) == S.alive(u))
        x, y = c.int("x"), c.int("y"); c.local.append([inr(x, n), S.unc(v, x), P(x), z3.ForAll([y], z3.Implies(z3.And(inr(y, n), y != v, y != x), z3.Not(S.adj(x, y))), patterns=[S.adj(x, y)])])
        try:
            C24.hint(v, x)
            sum_equal("uncovered edges of a prisoner", [n], lambda y: z3.If(z3.Or(num(y) == v, z3.Not(S.adj(x, y))), z3.IntVal(0), z3.IntVal(1)), lambda y: one(num(y) == x))
            c.oblige("a prisoner has another uncovered edge", False)
        finally: c.local.pop()
        c.local.append([inr(x, n), S.unc(v, x), z3.Not(P(x)), z3.ForAll([y], z3.Implies(z3.And(inr(y, n), P(y), y != x), z3.Not(S.adj(y, x))), patterns=[S.adj(y, x)])])
        try: C24.hint(v, x); c.oblige("an exit has an uncovered edge to a prisoner", False)
        finally: c.local.pop()
    return go

def choose(ip):
    """With an uncovered edge left, choose_nbrhood gives the graph between the common neighbours of one."""
    c = cx(); S = state(ip, "i"); h, n = S.h, S.n; E = h.attrs["extant_edges_idx"]; c.assume(E.shape[0] >= 1); was = dict(h.attrs)
    F = Frame(original=S.g.attrs["adj_matrix"], **{t: h.attrs[t] for t in ("adj_matrix", "common_neighbors", "nbrhood_edge_counts", "extant_edges_idx")})
    try: r = ip.call(ip.getattr(h, "choose_nbrhood"), [], {})
    except PyRaise as e:
        ext = num(E.at(c.int("k"))).decl(); xs = []
        for q in c.pc:
            if not z3.is_quantifier(q): xs += [y for y in apps(q, ext) if not any(y.eq(z) for z in xs)]
        for x in xs:      # the edge chosen has edges between its common neighbours: itself
            p, q = S.first(x), S.second(x); N = lambda w: S.com0(x, num(w)); isp = lambda i, j, u, v: one(z3.And(num(i) == u, num(j) == v))
            sum_le("edges between the common neighbours", [n, n], lambda i, j: one(z3.And(num(i) == num(j), N(i))) + isp(i, j, p, q) + isp(i, j, q, p), lambda i, j: one(z3.And(S.G(i, j), N(i), N(j))))
            sum_equal("edges between the common neighbours, counted otherwise", [n, n], lambda i, j: one(z3.And(S.G(i, j), N(i), N(j))), lambda i, j: z3.If(z3.Or(z3.Not(S.G(i, j)), z3.Not(N(i)), z3.Not(N(j))), z3.IntVal(0), z3.IntVal(1)))
        c.oblige(f"returns without {e.kind} ({e.msg[:60]})", False, "safety"); raise PathEnd()
    F.check(); only(h, was, "choosing", "")
    if not shape_is("the neighbourhood", r, (n, n)): return
    f = r.fn(); nb = lambda i, j: tobool(f(i, j))
    pointwise("the neighbourhood is symmetric", (n, n), lambda i, j: nb(i, j) == nb(j, i))
    pointwise("the neighbourhood has edges between alive vertices", (n, n), lambda i, j: z3.Implies(nb(i, j), z3.And(S.G(i, j), S.alive(i), S.alive(j))))
    c.oblige("a new array", r.buf is not S.g.attrs["adj_matrix"].buf and r.buf is not h.attrs["adj_matrix"].buf)

def counted(g, n, adj, k, com):
    """The state built: the rest of the invariant (C24 has the common neighbours and the number k of edges between them)."""
    c = cx(); D = [n, n]; m = lambda i, j: z3.And(com(i), com(j), adj(i, j)); up = lambda i, j: one(z3.And(num(i) < num(j), m(i, j)))
    c.assume(k == ssum(D, up))
    sum_equal("pairs are ordered or reversed", D, lambda i, j: one(z3.And(num(i) != num(j), com(i), com(j), adj(i, j))), lambda i, j: up(i, j) + one(z3.And(num(j) < num(i), m(j, i)))); sum_equal("the pairs reversed", D, lambda i, j: one(z3.And(num(j) < num(i), m(j, i))), lambda i, j: up(j, i))
    c.oblige("the edge count of an edge", 2 * k <= ssum(D, lambda i, j: one(z3.And(num(i) != num(j), com(i), com(j), adj(i, j)))))
    sum_equal("vertices", [n], lambda i: one(adj(i, i)), lambda i: z3.IntVal(1)); equal("the number of vertices", npmodel.to_scalar(g.attrs["num_vertices"]), num(n))

def copied(kind):
    """A copy has the state of the graph copied, in arrays of its own."""
    def go(ip):
        c = cx(); S = state(ip, "i"); h, g, n = S.h, S.g, S.n; with_cover(S, True); src = g if kind == "graph" else h
        if kind == "removed": with_history(S, True)
        was = dict(src.attrs); arrays = ("adj_matrix", "common_neighbors", "nbrhood_edge_counts", "extant_edges_idx") + (("reduced_away",) if kind == "removed" else ()); F = Frame(**{t: src.attrs[t] for t in arrays})
        q = returns(ip, lambda: ip.call(ip.getattr(src, "reducible_copy"), [], {})); F.check(); only(src, was, "copying", "")
        c.oblige("a reducible graph", isinstance(q, Obj) and q is not src and q.cls.name == "ReducibleUndDepGraph" and q.attrs.get("unreduced") is g)
        for t in arrays:
            a, b = src.attrs[t], q.attrs.get(t)
            if not shape_is(f"copy: {t}", b, a.shape): continue
            c.oblige(f"copy: {t}: its own", b.buf is not a.buf); pointwise(f"copy: {t}: contents", a.shape, lambda *i: (tobool(a.at(*i)) == tobool(b.at(*i))) if a.dtype == "b" else num(a.at(*i)) == num(b.at(*i)))
        for t in ("get_idx", "get_edge"): c.oblige(f"copy: {t}", q.attrs.get(t) is src.attrs[t])
        equal("copy: the number of uncovered edges", npmodel.to_scalar(q.attrs["num_edges"]), npmodel.to_scalar(src.attrs["num_edges"])); c.oblige("copy: no cover", q.attrs.get("the_cover", 0) is None)
        if kind != "removed": c.oblige("copy: nothing removed", "reduced_away" not in q.attrs and "reduced_order" not in q.attrs); return
        L = q.attrs.get("reduced_order"); c.oblige("copy: the removals: a list of its own", isinstance(L, (list, SList)) and L is not S.order)
        if isinstance(L, SList): c.oblige("copy: the number of removals", num(L.n) == num(S.R)); pointwise("copy: the removals", (S.R,), lambda k: z3.And(num(L.at(k)[0]) == S.v(k), num(L.at(k)[1]) == S.c(k)))
    return go

def reconstruct(removed):
    """With no uncovered edge left, reconstruct_cover gives an edge clique cover."""
    def go(ip):
        c = cx(); g, h, n, G, adj = C24.history(ip, "i"); ch = cover.arbitrary(n, G, removed=removed); x, y = c.int("x"), c.int("y")
        c.axiom(z3.ForAll([x, y], z3.Not(ch.un(ch.R, x, y)), patterns=[ch.un(ch.R, x, y)]))
        if removed: cover.attach(ch, h)
        C = cover.int_rows(ch); F = Frame(original=g.attrs["adj_matrix"], **{t: h.attrs[t] for t in ("adj_matrix", "common_neighbors", "nbrhood_edge_counts") + (("reduced_away",) if removed else ())}); U = ip.loops[("graph.ReducibleUndDepGraph.reconstruct_cover", 0)] = cover.Undo(ch, C); U.known = arr.new((1,), "i", lambda i: 0).buf.id
        r = returns(ip, lambda: ip.call(ip.getattr(h, "reconstruct_cover"), [C], {})); F.check()
        if removed and not U.entered: raise Unsupported("the removals are undone in another form")
        cover.is_cover("the cover", r, ch, ch.K)
    return go

def goals():
    return [Goal("make_aux", C24.aux("i", counted))] + [Goal(f"reducible_copy[{t}]", copied(t)) for t in ("graph", "reduced", "removed")] + [Goal("rule_1", rule_1("i")), Goal("rule_2[first]", rule_2("i", False)), Goal("rule_2", rule_2("i", True)), Goal("rule_3[first]", rule_3("i", False, False)), Goal("rule_3", rule_3("i", True, True)), Goal("choose_nbrhood", choose),
        Goal("reduzieren", cover.reduzieren), Goal("branch[first]", cover.branch(True)), Goal("branch", cover.branch(False), {"quick_rl": 30000}), Goal("reconstruct_cover", reconstruct(True)), Goal("reconstruct_cover[none removed]", reconstruct(False))] + [Goal(f"history[{t}]", cover.lemmas(t)) for t in ("initial", "rule 1", "clique", "rule 3")] + [
        Goal(f"find_clique_min_cover[{t}, {d}]", cover.find(d, t == "edges")) for t in ("edges", "no edges") for d in "ib"]
