from contracts.common import *
from contracts.cliques import *

def lemma(what, f): cx().oblige(what, f, "lemma"); cx().assume(f)

class Cover:
    """Invariant of the loop over the edges not covered by the rows of the independent set: the cover only grows, the columns of the
    independent set stay as they are, edges taken are covered."""
    def __init__(s, n, f): s.n, s.f = n, f
    def make(s, env):
        c = cx(); C = c.ghost.get("cliques")
        if C is None: raise Unsupported("the independent sets are not enumerated")
        # the cover: the boolean array with one column per vertex
        a = [v for v in env.d.values() if isinstance(v, Arr) and v.dtype == "b" and v.ndim == 2 and v.buf.id > s.known0 and same(v.shape[1], s.n) is True]
        if len({id(v.buf) for v in a}) != 1: raise Unsupported("no cover before the loop over edges")
        s.A = a[0]; s.buf = s.A.buf; s.L = s.A.shape[0]; s.C = C
    def share(s, B, u, v): return exists([s.L], lambda k: z3.And(tobool(B(k, u)), tobool(B(k, v))))
    def entry(s, W):
        c = cx(); s.make(s.env); s.B0 = s.A.fn(); s.W = W
        Ws = [v for v in s.env.d.values() if isinstance(v, Clique)]
        if len({v.w.get_id() for v in Ws}) != 1: raise Unsupported("no single independent set before the loop over edges")
        s.S = Ws[0]; c.oblige("one row per vertex of the independent set", num(s.L) == num(s.S.n), "invariant")
        s.known = Buf._n; s.elt = lambda i: s.C.el(s.S.w, i)
    def havoc(s, W, t):
        c = cx(); B = s.B = c.fn("cover", I, I, B_); k, v, j = c.int("k"), c.int("v"), c.int("j"); wit = s.wit = c.fn("wit", I, I)
        b0 = s.B0; n, L = s.n, s.L
        c.assume(z3.ForAll([k, v], z3.Implies(z3.And(inr(k, L), inr(v, n), tobool(b0(k, v))), B(k, v)), patterns=[B(k, v)]))
        c.assume(z3.ForAll([k, j], z3.Implies(z3.And(inr(k, L), inr(j, L), B(k, s.elt(j))), tobool(b0(k, s.elt(j)))), patterns=[B(k, s.elt(j))]))
        with bound(W.N) as (j,): e = W.elem(j)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(inr(j, W.N), j < t), z3.And(inr(wit(j), L), B(wit(j), num(e[0])), B(wit(j), num(e[1])))), patterns=[W.es(j)]))
        c.assume(z3.Implies(W.N == 0, z3.ForAll([k, v], z3.Implies(z3.And(inr(k, L), inr(v, n)), B(k, v) == tobool(b0(k, v))), patterns=[B(k, v)])))
        s.buf.content = lambda *i: B(*[num(x) for x in i]); s.buf.memo = {}; s.buf.version += 1
    def preserved(s, W, t):
        c = cx(); b1 = s.A.fn(); b0 = s.B0; n, L = s.n, s.L; k, v, j = c.int("k"), c.int("v"), c.int("j"); c.assume(inr(j, W.N)); e = W.elem(j); e1 = W.elem(t - 1); C = s.C; mx = C.mx(s.S.w, num(e1[0]))
        c.assume(mx == mx)
        c.oblige("preserved: the cover only grows", z3.Implies(z3.And(inr(k, L), inr(v, n), tobool(b0(k, v))), tobool(b1(k, v))), "invariant")
        c.oblige("preserved: vertices of the independent set have no further latents", z3.Implies(z3.And(inr(k, L), inr(j, L), tobool(b1(k, s.elt(j)))), tobool(b0(k, s.elt(j)))), "invariant")
        c.oblige("preserved: edges taken before stay covered", z3.Implies(z3.And(inr(j, W.N), j < t - 1), z3.And(inr(s.wit(j), L), tobool(b1(s.wit(j), num(e[0]))), tobool(b1(s.wit(j), num(e[1]))))), "invariant")
        c.oblige("preserved: the edge taken is covered", s.share(b1, num(e1[0]), num(e1[1])), "invariant")
    def taken(s, W, e):
        for q in e: lemma("every vertex has a latent before the loop over edges", z3.And(inr(s.C.mx(s.S.w, num(q)), s.L), s.B(s.C.mx(s.S.w, num(q)), num(q))))
    def after(s, W):
        """Every adjacent pair shares a latent: covered by the rows of the independent set, or among the edges taken."""
        c = cx(); u, v = c.int("u"), c.int("v"); G = lambda u, v: tobool(s.f(u, v)); n = s.n
        m2 = [q for q in c.masks if len(q[3]) == 2]
        if len(m2) != 1: raise Unsupported("the edges are not listed")
        rk = m2[0][0](u, v); hy = z3.And(inr(u, n), inr(v, n), u < v, G(u, v)); c.local.append([hy])
        try:
            lemma("every edge is listed", z3.And(inr(rk, W.ps.n), *[num(x) == y for x, y in zip(W.ps.f(rk), (u, v))])); t = tobool(W.ps.test(rk)); w = s.wit(W.pos(rk))
            lemma("an edge on the list is covered in the end", z3.Implies(t, z3.And(inr(w, s.L), s.B(w, u), s.B(w, v))))
            lemma("an edge not on the list is covered in the end", z3.Implies(z3.Not(t), s.share(lambda k, v: s.B(num(k), num(v)), u, v)))
            lemma("every edge is covered in the end", s.share(lambda k, v: s.B(num(k), num(v)), u, v))
        finally: c.local.pop()
        sh = c.fn("sh", I, I, I); lo = lambda u, v: z3.If(u < v, u, v); hi = lambda u, v: z3.If(u < v, v, u)
        c.assume(z3.ForAll([u, v], z3.Implies(z3.And(inr(u, n), inr(v, n), u != v, G(u, v)), z3.And(inr(sh(u, v), s.L), s.B(sh(u, v), u), s.B(sh(u, v), v))), patterns=[G(u, v)]))      # by symmetry of the graph and of the conclusion
        c.local.append([inr(v, n)])
        try: lemma("every vertex has a latent in the end", z3.And(inr(s.C.mx(s.S.w, v), s.L), s.B(s.C.mx(s.S.w, v), v)))
        finally: c.local.pop()
        c.assume(z3.ForAll([v], z3.Implies(inr(v, n), z3.And(inr(s.C.mx(s.S.w, v), s.L), s.B(s.C.mx(s.S.w, v), v))), patterns=[G(v, v)]))
B_ = B

def symgraph(n, dtype):
    c = cx(); g = c.fn("graph", I, I, B_); u, v = c.int("u"), c.int("v"); c.assume(z3.ForAll([u, v], g(u, v) == g(v, u), patterns=[g(u, v)]))
    a = arr.new((n, n), dtype, lambda i, j: arr.cast(g(num(i), num(j)), dtype), "graph"); a.meta["g"] = g; return a

def run(ip, dtype, graph, n):
    c = cx(); cliques_contract(ip, n); inv = Cover(n, graph.meta["g"]); inv.known0 = Buf._n
    c.ghost["worklist"] = lambda ps: Worklist(ps, inv)
    fr = Frame(graph=graph)
    A = returns(ip, lambda: call(ip, "ecc_algorithms", "find_heuristic_1pc", graph), "structure learning"); fr.check()
    return A, inv

def sound(ip, dtype):
    c = cx(); n = size("n", 1); g = symgraph(n, dtype); f = g.fn(); G = lambda i, j: tobool(f(i, j))
    A, inv = run(ip, dtype, g, n); C = c.ghost.get("cliques")
    if not isinstance(A, Arr) or A.ndim != 2: c.oblige("a matrix", False); return
    if C is None: raise Unsupported("the independent sets are not enumerated")
    L = A.shape[0]; c.oblige("one column per measurement", num(A.shape[1]) == n); c.oblige("boolean", A.dtype == "b"); a = A.fn(); E = lambda k, v: tobool(a(k, v))
    if not hasattr(inv, "S"): raise Unsupported("no loop over uncovered edges")
    S = inv.elt
    # the number of latents
    i, j, v = c.int("i"), c.int("j"), c.int("v")
    c.oblige("no more latents than the largest independent set has vertices", z3.Implies(z3.And(inr(i, L), inr(j, L), i != j), z3.And(inr(S(i), n), S(i) != S(j), z3.Not(G(S(i), S(j))))))
    m = size("m"); t = c.fn("indep", I, I); x, y = c.int("x"), c.int("y")
    c.assume(z3.ForAll([x], z3.Implies(inr(x, m), inr(t(x), n)), patterns=[t(x)]))
    c.assume(z3.ForAll([x, y], z3.Implies(z3.And(inr(x, m), inr(y, m), x != y), z3.And(t(x) != t(y), z3.Not(G(t(x), t(y))))), patterns=[z3.MultiPattern(t(x), t(y))]))
    C.at_least(m, t, "an independent set is a clique of the graph enumerated")
    c.oblige("as many latents as the largest independent set has vertices", m <= num(L))
    c.local.append([inr(i, L), inr(j, L)])
    try: c.oblige("every latent has a pure child", z3.And(inr(S(i), n), E(j, S(i)) == (i == j)))
    finally: c.local.pop()
    c.local.append([inr(v, n)])
    try: c.oblige("every measurement has a latent parent", E(C.mx(inv.S.w, v), v))
    finally: c.local.pop()
    u = c.int("u"); c.local.append([inr(u, n), inr(v, n), G(u, v)])
    try: c.oblige("adjacent measurements share a latent parent", z3.Or(exists([L], lambda k: z3.And(E(k, u), E(k, v)))))
    finally: c.local.pop()

def goals(): return [Goal(f"find_heuristic_1pc[{d}]", lambda ip, d=d: sound(ip, d)) for d in "bi"]
