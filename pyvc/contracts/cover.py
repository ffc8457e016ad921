"""The history of a clique cover search over the graph G, for reconstructing covers:
  rows r < K are the cliques chosen; event t < R removed vertex v(t) with prisoners pri(t, .) when c(t) cliques had been chosen (c(R) = K);
  un(t, ., .) and al(t, .): the uncovered edges and the alive vertices when event t happened; those at t = R are the present ones."""
import ast, loops
from contracts.common import *

class Chain:
    def __init__(s, n, G, R, K, v, c, pri, al, un, row): s.n, s.G, s.R, s.K, s.v, s.c, s.pri, s.al, s.un, s.row = n, G, num(R), num(K), v, c, pri, al, un, row
    def facts(s):
        """(name, kinds of the variables, formula, patterns): t an event, T an event or the present, r a row, x y w vertices."""
        n, G, R, K, v, c, pri, al, un, row = s.n, s.G, s.R, s.K, s.v, s.c, s.pri, s.al, s.un, s.row
        some = lambda t, x, y, lo, hi: exists([K], lambda r: z3.And(lo <= r, r < hi, row(r, x), row(r, y)))
        one = lambda f: exists([n], f)
        return [("uncovered edges are edges between alive vertices", "Txy", lambda t, x, y: z3.Implies(un(t, x, y), z3.And(x != y, un(t, y, x), G(x, y), al(t, x), al(t, y))), lambda t, x, y: [un(t, x, y)]),
            ("removed vertices stay removed", "TTx", lambda t, u, x: z3.Implies(z3.And(t <= u, al(u, x)), al(t, x)), lambda t, u, x: [z3.MultiPattern(al(t, x), al(u, x))]),
            ("events", "t", lambda t: z3.And(inr(v(t), n), al(t, v(t)), c(t) >= 0, c(t) <= c(t + 1), c(t) <= K), lambda t: [v(t)]),
            ("prisoners are alive neighbours", "tw", lambda t, w: z3.Implies(pri(t, w), z3.And(w != v(t), al(t, w), G(v(t), w))), lambda t, w: [pri(t, w)]),
            ("neighbours of prisoners are neighbours", "twx", lambda t, w, x: z3.Implies(z3.And(pri(t, w), al(t, x), G(w, x)), G(v(t), x)), lambda t, w, x: [z3.MultiPattern(pri(t, w), G(w, x))]),
            ("the other uncovered edges stay or were covered", "txy", lambda t, x, y: z3.Implies(z3.And(un(t, x, y), x != v(t), y != v(t)), z3.Or(un(t + 1, x, y), some(t, x, y, c(t), c(t + 1)))), lambda t, x, y: [un(t, x, y)]),
            ("uncovered edges of a removed vertex", "tx", lambda t, x: z3.Implies(un(t, v(t), x), z3.Or(z3.And(pri(t, x), one(lambda y: z3.And(y != v(t), un(t, x, y)))), one(lambda w: z3.And(pri(t, w), un(t, w, x))))), lambda t, x: [un(t, v(t), x)]),
            ("every edge was uncovered first or is covered", "xy", lambda x, y: z3.Implies(z3.And(G(x, y), x != y), z3.Or(un(z3.IntVal(0), x, y), some(0, x, y, z3.IntVal(0), c(z3.IntVal(0))))), lambda x, y: [G(x, y)]),
            ("rows are cliques", "rxy", lambda r, x, y: z3.Implies(z3.And(row(r, x), row(r, y)), G(x, y)), lambda r, x, y: [z3.MultiPattern(row(r, x), row(r, y))]),
            ("rows are not empty", "r", lambda r: one(lambda x: row(r, x)), None),
            ("rows are alive when chosen", "Trx", lambda t, r, x: z3.Implies(z3.And(c(t) <= r, row(r, x)), al(t, x)), lambda t, r, x: [z3.MultiPattern(row(r, x), al(t, x))]),
            ("removed vertices have no uncovered edge", "tx", lambda t, x: z3.Not(un(R, v(t), x)), lambda t, x: [un(R, v(t), x)]),
            ("removed vertices are dead at later events", "st", lambda q, t: z3.Implies(q < t, z3.Not(al(t, v(q)))), lambda q, t: [al(t, v(q))])]
    def rng(s, kinds, xs): return z3.And(*[inr(x, {"t": s.R, "s": s.R, "T": s.R + 1, "r": s.K}.get(k, s.n)) for k, x in zip(kinds, xs)])
    def assume(s, but=()):
        c = cx()
        for nm, kinds, f, pats in s.facts():
            if nm in but: continue
            xs = [c.int(k) for k in kinds]; c.axiom(z3.ForAll(xs, z3.Implies(s.rng(kinds, xs), f(*xs)), patterns=pats(*xs) if pats else []))
        c.axiom(z3.And(s.c(s.R) == s.K, s.R >= 0, s.K >= 0))
    def oblige(s, what, hints=lambda nm, xs: None):
        c = cx()
        for nm, kinds, f, _ in s.facts():
            xs = [c.int(k) for k in kinds]; c.local.append([s.rng(kinds, xs)])
            try: hints(nm, xs); c.oblige(f"{what}: {nm}", f(*xs), "invariant")
            finally: c.local.pop()

def arbitrary(n, G, K=None, removed=None):
    """Any history; R = 0 or R >= 1 removals, K cliques."""
    c = cx(); R = size("removed", 1) if removed else 0 if removed is False else size("removed"); K = size("cliques") if K is None else K
    s = Chain(n, G, R, K, c.fn("removed", I, I), c.fn("chosen_before", I, I), c.fn("prisoner", I, I, B), c.fn("alive_at", I, I, B), c.fn("uncovered_at", I, I, I, B), c.fn("row", I, I, B)); s.assume(); return s

def int_rows(s, name="the_cover"):
    return arr.new((s.K, s.n), "i", lambda r, u: arr.cast(s.row(num(r), num(u)), "i"), name)

def attach(s, h):
    """The attributes of a graph that has this history (at least one removal)."""
    c = cx(); n = s.n; away = c.fn("reduced_away", I, I, B); t, w = c.int("t"), c.int("w")
    c.axiom(z3.ForAll([t, w], z3.Implies(z3.And(inr(t, s.R), inr(w, n)), away(s.v(t), w) == s.pri(t, w)), patterns=[away(s.v(t), w), s.pri(t, w)]))
    h.attrs["reduced_away"] = arr.new((n, n), "b", lambda i, j: away(num(i), num(j)), "reduced_away")
    h.attrs["reduced_order"] = SList(s.R, lambda k: (s.v(num(k)), s.c(num(k))))

def lemma(what, h, kinds, goal, fact, pats):
    """Proves the goal for arbitrary arguments, then assumes the fact (the same, in other terms) for all."""
    c = cx(); xs = [c.int(k) for k in kinds]; c.local.append([h.rng(kinds, xs)])
    try: c.oblige(what, goal(*xs), "lemma")
    finally: c.local.pop()
    xs = [c.int(k) for k in kinds]; c.assume(z3.ForAll(xs, z3.Implies(h.rng(kinds, xs), fact(*xs)), patterns=pats(*xs)))

class Undo:
    """Loop of reconstruct_cover; after undoing the events >= t, the rows >= c(t) are alive cliques covering un(t), the others are as chosen."""
    def __init__(s, ch, cover): s.ch, s.cover, s.entered = ch, cover, False
    def inv(s, D, t):
        h = s.ch; n, K, c = h.n, h.K, h.c
        return [("rows are alive", "rx", lambda r, x: z3.Implies(z3.And(c(t) <= r, D(r, x)), h.al(t, x)), lambda r, x: [D(r, x)]),
                ("rows are cliques", "rxy", lambda r, x, y: z3.Implies(z3.And(c(t) <= r, D(r, x), D(r, y)), h.G(x, y)), lambda r, x, y: [z3.MultiPattern(D(r, x), D(r, y))]),
                ("uncovered edges are covered", "xy", lambda x, y: z3.Implies(h.un(t, x, y), exists([K], lambda r: z3.And(c(t) <= r, D(r, x), D(r, y)))), lambda x, y: [h.un(t, x, y)]),
                ("cliques chosen before stay", "rx", lambda r, x: z3.Implies(r < c(t), D(r, x) == h.row(r, x)), lambda r, x: [D(r, x), h.row(r, x)]),
                ("cliques only grow", "rx", lambda r, x: z3.Implies(h.row(r, x), D(r, x)), lambda r, x: [D(r, x), h.row(r, x)])]
    def all(s, how, D, t, what=""):
        c = cx()
        for nm, kinds, f, pats in s.inv(D, t):
            xs = [c.int(k) for k in kinds]; rng = s.ch.rng(kinds, xs)
            if how == "assume": c.axiom(z3.ForAll(xs, z3.Implies(rng, f(*xs)), patterns=pats(*xs)))
            else:
                c.local.append([rng])
                try: c.oblige(f"{what}: {nm}", f(*xs), "invariant")
                finally: c.local.pop()
    def run(s, ip, st, env, module, it):
        c = cx(); h = s.ch; s.entered = True
        if st.orelse: raise Unsupported("for-else")
        if not isinstance(it, SList): raise Unsupported("the removals are undone in another form")
        c.oblige("every removal is undone", num(it.n) == h.R)
        k = c.int("k"); c.local.append([inr(k, h.R)])
        try:
            e = it.at(k)
            if not (isinstance(e, tuple) and len(e) == 2): raise Unsupported("the removals are kept in another form")
            c.oblige("removals are undone in reverse order", z3.And(num(e[0]) == h.v(h.R - 1 - k), num(e[1]) == h.c(h.R - 1 - k)))
        finally: c.local.pop()
        f0 = s.cover.fn(); s.all("oblige", lambda r, x: tobool(f0(r, x)), h.R, "before undoing")
        bufs = {}; inner = c.choose(2) == 0; t = c.int("event"); D = c.fn("undone", I, I, B)
        c.assume(inr(t, h.R) if inner else t == 0); s.all("assume", D, t + 1 if inner else z3.IntVal(0)); s.cover.set_view(lambda r, x: arr.cast(D(num(r), num(x)), s.cover.dtype))
        for q in loops.assigned_names(st.body) | loops.assigned_names([st.target]): env.d[q] = interp.Poison("set in an earlier iteration")
        if not inner: return
        ip.assign(st.target, (h.v(t), h.c(t)), env, module); n0 = len(c.events)
        with loops.Effects() as eff, loops._logs(bufs):
            try: ip.block(st.body, env, module)
            except interp.Continue: pass
            except (interp.Break, interp.Return): raise Unsupported("jump out of the loop that undoes removals")
        if eff.attrs or eff.lists or eff.others or len(c.events) != n0: raise Unsupported("effect in the loop that undoes removals")
        if any(b is not s.cover.buf and b.id <= s.known for b, _ in bufs.values()): raise Unsupported("another array is changed in the loop that undoes removals")
        f = s.cover.fn(); pointwise("after undoing: entries are 0 or 1", (h.K, h.n), lambda r, x: z3.Or(num(f(r, x)) == 0, num(f(r, x)) == 1), "invariant")
        new = lambda r, x: tobool(f(r, x)); E = c.fn("after", I, I, B); r, x = c.int("r"), c.int("x"); c.axiom(z3.ForAll([r, x], z3.Implies(z3.And(inr(r, h.K), inr(x, h.n)), E(r, x) == new(r, x)), patterns=[E(r, x)]))
        lemma("after undoing: vertices of a clique stay", h, "rx", lambda r, x: z3.Implies(D(r, x), new(r, x)), lambda r, x: z3.Implies(D(r, x), E(r, x)), lambda r, x: [D(r, x)])
        lemma("after undoing: the vertex is in cliques with a prisoner", h, "rw", lambda r, w: z3.Implies(z3.And(h.c(t) <= r, h.pri(t, w), D(r, w)), new(r, h.v(t))), lambda r, w: z3.Implies(z3.And(h.c(t) <= r, h.pri(t, w), D(r, w)), E(r, h.v(t))), lambda r, w: [z3.MultiPattern(h.pri(t, w), D(r, w))])
        hit = lambda x, y: exists([h.K], lambda r: z3.And(h.c(t) <= r, E(r, x), E(r, y))); v = h.v(t)
        for nm, g in (("uncovered edges at other vertices are covered", lambda x, y: z3.Implies(z3.And(h.un(t, x, y), x != v, y != v), hit(x, y))), ("uncovered edges of the vertex are covered", lambda x, y: z3.Implies(z3.And(h.un(t, x, y), x == v), z3.And(h.al(t, x), hit(x, y)))), ("uncovered edges to the vertex are covered", lambda x, y: z3.Implies(z3.And(h.un(t, x, y), y == v), hit(x, y)))):
            lemma("after undoing: " + nm, h, "xy", g, g, lambda x, y: [h.un(t, x, y)])
        s.all("oblige", new, t, "after undoing"); raise PathEnd()

def listings(n):
    """The enumerations of vertices made so far: (count, rank, element)."""
    c = cx(); return [(m[1], m[0], en[0], m[2]) for m, en in zip(c.masks, c.mask_enums) if len(m[3]) == 1 and z3.simplify(num(m[3][0])).eq(z3.simplify(num(n))) and not any(nm in c.bound_names for nm in names(m[1]))]
def names(e):
    st, out = [num(e)], set()
    while st:
        x = st.pop(); st.extend(x.children())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
    return out

def is_cover(what, C, h, k):
    """C is a 0/1 matrix of k rows, each a clique of G with at least one vertex, and every edge is in some row."""
    c = cx(); n, G = h.n, h.G
    if not shape_is(what, C, (k, n)): return
    f = C.fn(); D = lambda r, x: tobool(f(r, x))
    pointwise(f"{what}: entries are 0 or 1", (k, n), lambda r, x: z3.BoolVal(True) if C.dtype == "b" else z3.Or(num(f(r, x)) == 0, num(f(r, x)) == 1))
    pointwise(f"{what}: rows are cliques", (k, n, n), lambda r, x, y: z3.Implies(z3.And(D(r, x), D(r, y)), G(x, y)))
    pointwise(f"{what}: rows are not empty", (k,), lambda r: z3.Or(*[z3.And(inr(num(sk(r)), n), D(r, sk(r))) for sk in c.ghost.get("members", [])], *[z3.And(inr(e, n), D(r, e)) for cnt, _, en, _ in listings(n) for e in (num(en(z3.simplify(num(r) - (num(k) - num(cnt))))),)], exists([n], lambda x: D(r, x))))
    pointwise(f"{what}: every edge is in some row", (n, n), lambda x, y: z3.Implies(z3.And(x != y, G(x, y)), exists([k], lambda r: z3.And(D(r, x), D(r, y)))))

# ------------------------------------------------------------ histories change as the contracts of the rules say
def live(s, x): return z3.And(s.al(s.R, x), exists([s.n], lambda y: s.un(s.R, x, y)))
def after_rule_1(s):
    """Exactly the alive vertices with an uncovered edge stay alive."""
    a = cx().fn("left", I, B); x = cx().int("x"); cx().axiom(z3.ForAll([x], z3.Implies(inr(x, s.n), a(x) == live(s, x)), patterns=[a(x)]))
    return Chain(s.n, s.G, s.R, s.K, s.v, s.c, s.pri, lambda t, x: z3.If(t == s.R, a(x), s.al(t, x)), s.un, s.row)
def after_clique(s, q):
    """The clique q of alive vertices is chosen, its edges are covered."""
    return Chain(s.n, s.G, s.R, s.K + 1, s.v, lambda t: z3.If(t == s.R, s.K + 1, s.c(t)), s.pri, s.al, lambda t, x, y: z3.And(s.un(t, x, y), z3.Or(t != s.R, z3.Not(q(x)), z3.Not(q(y)))), lambda r, x: z3.If(r == s.K, q(x), s.row(r, x)))
def after_rule_3(s, v, P):
    """The vertex v with prisoners P is removed: its edges count as covered."""
    last = lambda t: t == s.R + 1
    return Chain(s.n, s.G, s.R + 1, s.K, lambda t: z3.If(t == s.R, v, s.v(t)), lambda t: z3.If(t >= s.R, s.K, s.c(t)), lambda t, w: z3.If(t == s.R, P(w), s.pri(t, w)), lambda t, x: z3.If(last(t), s.al(s.R, x), s.al(t, x)),
                 lambda t, x, y: z3.If(last(t), z3.And(s.un(s.R, x, y), x != v, y != v), s.un(t, x, y)), s.row)
def dead(s): k = cx().int("t"); return z3.ForAll([k], z3.Implies(inr(k, s.R), z3.Not(s.al(s.R, s.v(k)))), patterns=[s.v(k)])

def graph_(c):
    """A reflexive symmetric relation on n vertices, with at least one edge."""
    n = size("n", 1); G = c.fn("G", I, I, B); i, j = c.int("i"), c.int("j"); c.axiom(z3.ForAll([i, j], G(i, j) == G(j, i), patterns=[G(i, j)])); c.axiom(z3.ForAll([i], z3.Implies(inr(i, n), G(i, i)), patterns=[G(i, i)]))
    u, v = c.int("u0"), c.int("v0"); c.assume(u >= 0, u < v, v < n, G(u, v)); return n, G

def initial(n, G):
    zero = lambda *_: z3.IntVal(0); no = lambda *_: z3.BoolVal(False)
    return Chain(n, G, 0, 0, zero, zero, no, lambda t, x: z3.BoolVal(True), lambda t, x, y: z3.And(x != y, G(x, y)), no)

def lemmas(which):
    def go(ip):
        c = cx(); n, G = graph_(c)
        if which == "initial": initial(n, G).oblige("history"); return
        s = arbitrary(n, G)
        if which == "rule 1":
            r = after_rule_1(s); r.oblige("history"); k = c.int("t"); c.local.append([inr(k, s.R)])
            try: c.oblige("removed vertices are dead", z3.Not(r.al(r.R, s.v(k))))
            finally: c.local.pop()
        elif which == "clique":
            q = c.fn("clique", I, B); x, y = c.int("x"), c.int("y"); c.axiom(z3.ForAll([x], z3.Implies(q(x), z3.And(inr(x, n), s.al(s.R, x))), patterns=[q(x)])); c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(q(x), q(y)), G(x, y)), patterns=[z3.MultiPattern(q(x), q(y))])); w = c.int("some"); c.assume(q(w))
            after_clique(s, q).oblige("history")
        else:
            v = c.int("v"); P = c.fn("P", I, B); w, x = c.int("w"), c.int("x"); R = s.R; al = lambda x: s.al(R, x); un = lambda x, y: s.un(R, x, y); c.assume(dead(s)); c.assume(inr(v, n), al(v))
            c.axiom(z3.ForAll([w], z3.Implies(z3.And(inr(w, n), P(w)), z3.And(w != v, al(w), G(v, w))), patterns=[P(w)]))
            c.axiom(z3.ForAll([w, x], z3.Implies(z3.And(inr(w, n), inr(x, n), P(w), al(x), G(w, x)), G(v, x)), patterns=[z3.MultiPattern(P(w), G(w, x))]))
            c.axiom(z3.ForAll([x], z3.Implies(z3.And(inr(x, n), un(v, x)), z3.If(P(x), exists([n], lambda y: z3.And(y != v, un(x, y))), exists([n], lambda w: z3.And(P(w), un(w, x))))), patterns=[un(v, x)]))
            after_rule_3(s, v, P).oblige("history")
    return go

# ------------------------------------------------------------ callers: the contracts in place of the bodies
TOKENS = ("adj_matrix", "common_neighbors", "nbrhood_edge_counts", "extant_edges_idx", "reduced_away", "reduced_order")
class State(interp.Opaque): pass

class World:
    """Graph objects whose state is known only through their history."""
    def __init__(s, ip, n, G): s.ip, s.n, s.G, s.of = ip, n, G, {}
    def put(s, h, ch, dead=False):
        """The state of h is now one with this history."""
        c = cx(); s.of[id(h)] = (h, ch, dead)
        for t in TOKENS: h.attrs[t] = State("the state of a graph")
        h.ghost = {t: h.attrs[t] for t in TOKENS}
        e = h.attrs["num_edges"] = h.ghost["num_edges"] = c.int("num_edges"); x, y = c.int("x"), c.int("y"); a, b = c.int("a"), c.int("b"); un = lambda x, y: ch.un(ch.R, x, y)
        # the number of uncovered pairs u < v (C24)
        c.assume(e >= 0, z3.Implies(e != 0, z3.And(inr(a, s.n), inr(b, s.n), un(a, b))), z3.Implies(e == 0, z3.ForAll([x, y], z3.Implies(z3.And(inr(x, s.n), inr(y, s.n)), z3.Not(un(x, y))), patterns=[un(x, y)])))
    def get(s, h):
        if id(h) not in s.of or not isinstance(h, Obj): raise Unsupported("a graph whose state is not known")
        for t, v in h.ghost.items():
            if h.attrs.get(t) is not v: raise Unsupported("the state of a graph is changed directly")
        return s.of[id(h)][1]
    def new(s, unreduced=None):
        g = Obj(func(s.ip, "graph", "ReducibleUndDepGraph" if unreduced is not None else "UndirectedDependenceGraph")); g.attrs.update(verbose=False, num_vertices=s.n, max_num_verts=s.n)
        if unreduced is not None: g.attrs.update(unreduced=unreduced, the_cover=None, num_vertices=cx().int("num_vertices"))
        return g
    def cliques_of(s, what, C, ch):
        """The array C has the rows of this history."""
        if C is None: cx().oblige(f"{what}: no clique chosen", ch.K == 0, "pre"); return
        if not shape_is(what, C, (ch.K, s.n)): raise PathEnd()
        cx().oblige(f"{what}: some clique", ch.K >= 1, "pre")
        f = C.fn(); pointwise(f"{what}: the cliques chosen", (ch.K, s.n), lambda r, x: num(f(r, x)) == z3.If(ch.row(r, x), z3.IntVal(1), z3.IntVal(0)), "pre")
    def contracts(s):
        ip, n, G = s.ip, s.n, s.G; K = ip.contracts; Q = "graph.ReducibleUndDepGraph."; c_ = cx
        def copy(ip_, f, a, k):
            ch = s.get(a[0]); h = s.new(a[0].attrs.get("unreduced", a[0])); s.put(h, ch); return h
        K["graph.UndirectedDependenceGraph.reducible_copy"] = copy
        def rule_1(ip_, f, a, k): ch = s.get(a[0]); s.put(a[0], arbitrary(n, G, K=ch.K), True); c_().assume(dead(s.of[id(a[0])][1])); s.same_rows(ch, s.of[id(a[0])][1])
        def rule_2(ip_, f, a, k):
            h = a[0]; ch = s.get(h); c = c_(); s.cliques_of("cliques before rule 2", h.attrs["the_cover"], ch)
            if c.choose(2) == 0: return
            r = arbitrary(n, G, K=z3.simplify(ch.K + 1)); s.put(h, r); h.attrs["the_cover"] = int_rows(r); h.attrs["reducing"] = True; h.attrs["k_num_cliques"] = c.int("k")
        def rule_3(ip_, f, a, k):
            h = a[0]; ch = s.get(h); c = c_(); s.cliques_of("cliques before rule 3", h.attrs["the_cover"], ch); c.oblige("rule 3 applies when rule 1 does not any more", bool(s.of[id(h)][2]), "pre")
            if c.choose(2) == 0: return
            r = arbitrary(n, G, K=ch.K); s.same_rows(ch, r); s.put(h, r); h.attrs["reducing"] = True
        for q in (rule_1, rule_2, rule_3): K[Q + q.__name__] = q
        def reduzieren(ip_, f, a, k):
            h = a[0]; c = c_(); ch = s.get(h); s.cliques_of("cliques before reducing", h.attrs["the_cover"], ch); s.reduced(h)
        K[Q + "reduzieren"] = reduzieren
        def cover_edges(ip_, f, a, k):
            h = a[0]; c = c_(); ch = s.get(h)
            if len(a) > 1 or k: raise Unsupported("edges covered outside the rules")
            C = h.attrs["the_cover"]
            if C is None: c.oblige("without a clique chosen", ch.K == 0, "pre"); return
            if not shape_is("the cover to mark", C, (ch.K + 1, n)): raise PathEnd()
            fC = C.fn(); q = lambda x: tobool(fC(ch.K, x))
            pointwise("the cover to mark: the cliques chosen before", (ch.K, n), lambda r, x: num(fC(r, x)) == z3.If(ch.row(r, x), z3.IntVal(1), z3.IntVal(0)), "pre"); pointwise("the cover to mark: 0 or 1", (n,), lambda x: z3.Or(num(fC(ch.K, x)) == 0, num(fC(ch.K, x)) == 1), "pre")
            pointwise("the new clique is alive", (n,), lambda x: z3.Implies(q(x), ch.al(ch.R, x)), "pre"); pointwise("the new clique is a clique", (n, n), lambda x, y: z3.Implies(z3.And(q(x), q(y)), G(x, y)), "pre"); c.oblige("the new clique is not empty", exists([n], lambda x: q(x)), "pre")
            r = arbitrary(n, G, K=z3.simplify(ch.K + 1)); i, x = c.int("r"), c.int("x"); c.axiom(z3.ForAll([i, x], z3.Implies(z3.And(inr(i, r.K), inr(x, n)), r.row(i, x) == tobool(fC(i, x))), patterns=[r.row(i, x)])); s.put(h, r)
        K[Q + "cover_edges"] = cover_edges
        def reconstruct(ip_, f, a, k):
            h = a[0]; c = c_(); ch = s.get(h); C = a[1] if len(a) > 1 else k["the_cover"]; x, y = c.int("x"), c.int("y"); c.local.append([inr(x, n), inr(y, n)])
            try: c.oblige("reconstruction: no uncovered edge is left", z3.Not(ch.un(ch.R, x, y)), "pre")
            finally: c.local.pop()
            if C is None:      # without cliques no edge would ever have been uncovered
                c.oblige("reconstruction: no clique chosen", ch.K == 0, "pre"); t = c.int("t"); c.local.append([inr(t, ch.R), inr(x, n), inr(y, n), z3.ForAll([x, y], z3.Implies(z3.And(inr(x, n), inr(y, n)), z3.Not(ch.un(t + 1, x, y))), patterns=[ch.un(t + 1, x, y)])])
                i, j = c.int("i"), c.int("j"); c.local.append([inr(i, n), inr(j, n), ch.un(t, i, j)])
                try: c.oblige("no edge was uncovered at the event before", False, "lemma")
                finally: c.local.pop(); c.local.pop()
                c.assume(z3.ForAll([t, x, y], z3.Implies(z3.And(inr(t, ch.R + 1), inr(x, n), inr(y, n)), z3.Not(ch.un(t, x, y))), patterns=[ch.un(t, x, y)]))      # induction
                c.oblige("reconstruction: a cover", False, "pre"); raise PathEnd()
            s.cliques_of("reconstruction", C, ch); D = covering_rows(n, G, ch.K); C.set_view(lambda r, x: arr.cast(D(num(r), num(x)), C.dtype)); return C
        K[Q + "reconstruct_cover"] = reconstruct
        def choose(ip_, f, a, k):
            h = a[0]; c = c_(); ch = s.get(h); c.oblige("an uncovered edge is left to choose", num(h.attrs["num_edges"]) != 0, "pre"); nb = c.fn("neighbourhood", I, I, B); x, y = c.int("x"), c.int("y")
            c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(inr(x, n), inr(y, n)), z3.And(nb(x, y) == nb(y, x), z3.Implies(nb(x, y), z3.And(G(x, y), ch.al(ch.R, x), ch.al(ch.R, y))))), patterns=[nb(x, y)]))
            return arr.new((n, n), "i", lambda x, y: arr.cast(nb(num(x), num(y)), "i"), "neighbourhood")
        K[Q + "choose_nbrhood"] = choose
    def same_rows(s, a, b):
        c = cx(); r, x = c.int("r"), c.int("x"); c.axiom(z3.ForAll([r, x], z3.Implies(z3.And(inr(r, a.K), inr(x, s.n)), a.row(r, x) == b.row(r, x)), patterns=[a.row(r, x), b.row(r, x)]))
    def reduced(s, h):
        c = cx(); none = c.choose(2) == 0; r = arbitrary(s.n, s.G); c.assume(r.K == 0 if none else r.K >= 1); s.put(h, r); h.attrs["the_cover"] = None if none else int_rows(r); h.attrs["k_num_cliques"] = c.int("k"); h.attrs["reducing"] = c.const("reducing", B)

def covering_rows(n, G, k):
    """k rows, cliques of G, not empty, every edge in some row."""
    c = cx(); D = c.fn("covering", I, I, B); r, x, y = c.int("r"), c.int("x"), c.int("y")
    c.axiom(z3.ForAll([r, x, y], z3.Implies(z3.And(inr(r, k), inr(x, n), inr(y, n), D(r, x), D(r, y)), G(x, y)), patterns=[z3.MultiPattern(D(r, x), D(r, y))]))
    sk = c.fn("member", I, I); c.axiom(z3.ForAll([r], z3.Implies(inr(r, k), z3.And(inr(sk(r), n), D(r, sk(r)))), patterns=[sk(r)])); c.ghost.setdefault("members", []).append(sk)
    c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(inr(x, n), inr(y, n), x != y, G(x, y)), exists([k], lambda r: z3.And(D(r, x), D(r, y)))), patterns=[G(x, y)])); return D

class Loop:
    """A loop under a state invariant: havoc() before an arbitrary iteration or the exit, check() after an iteration."""
    def __init__(s, havoc, check, kind): s.havoc, s.check, s.kind = havoc, check, kind
    def run(s, ip, st, env, module, it):
        c = cx()
        if st.orelse: raise Unsupported("an else of a loop")
        s.check("before the loop", env); names = loops.assigned_names(st.body) | (loops.assigned_names([st.target]) if isinstance(st, ast.For) else set()); old = {q: env.d.get(q) for q in names}
        for q in names: env.d[q] = interp.Poison("set in an earlier iteration")
        elem = s.havoc(env, old, it)
        if isinstance(st, ast.For):
            if c.choose(2) == 1: return
            ip.assign(st.target, elem, env, module)
        elif not c.branch(ip.truth(ip.expr(st.test, env, module))): return
        known, bufs = arr.Buf._n, {}
        with loops._logs(bufs):
            try: ip.block(st.body, env, module)
            except interp.Continue: pass
            except interp.Break: return
        old_ones = [b for b, _ in bufs.values() if b.id <= known]
        c.oblige("an iteration changes no array made before it", not old_ones, "frame")
        s.check("after an iteration", env); raise PathEnd()

def reduzieren(ip):
    c = cx(); n, G = graph_(c); W = World(ip, n, G); W.contracts(); del ip.contracts["graph.ReducibleUndDepGraph.reduzieren"]
    g = W.new(); h = W.new(g); W.put(g, arbitrary(n, G, K=z3.IntVal(0), removed=False)); W.reduced(h); was = dict(g.attrs)
    def havoc(env, old, it): W.reduced(h)
    def check(what, env): W.cliques_of(what, h.attrs["the_cover"], W.get(h))
    ip.loops[("graph.ReducibleUndDepGraph.reduzieren", 0)] = Loop(havoc, check, "while")
    returns(ip, lambda: ip.call(ip.getattr(h, "reduzieren"), [c.int("k")], {})); check("reduced", None); W.get(g); c.oblige("frame: the graph reduced is another one", all(g.attrs.get(t) is v for t, v in was.items()), "frame")
    c.oblige("the number of cliques left is kept", "k_num_cliques" in h.attrs)

def branch_pre(W, g, C):
    """g has some history; C is None (nothing chosen), or the cliques chosen and a new one, alive."""
    c = cx(); ch = W.get(g); n, G = W.n, W.G
    if C is None: c.oblige("without a cover: no clique chosen", ch.K == 0, "pre"); return
    if not shape_is("the cover to continue", C, (ch.K + 1, n)): raise PathEnd()
    f = C.fn(); q = lambda x: tobool(f(ch.K, x))
    pointwise("the cover to continue: the cliques chosen before", (ch.K, n), lambda r, x: num(f(r, x)) == z3.If(ch.row(r, x), z3.IntVal(1), z3.IntVal(0)), "pre"); pointwise("the cover to continue: 0 or 1", (n,), lambda x: z3.Or(num(f(ch.K, x)) == 0, num(f(ch.K, x)) == 1), "pre")
    pointwise("the clique to add is alive", (n,), lambda x: z3.Implies(q(x), ch.al(ch.R, x)), "pre"); pointwise("the clique to add is a clique", (n, n), lambda x, y: z3.Implies(z3.And(q(x), q(y)), G(x, y)), "pre"); c.oblige("the clique to add is not empty", exists([n], lambda x: q(x)), "pre")

def branch_contract(W):
    def contract(ip, f, a, k):
        env = ip.bind_args(f, a, k); g, C = env.d["graph"], env.d["the_cover"]; c = cx(); branch_pre(W, g, C)
        if c.choose(2) == 0: return None
        m = size("cliques"); D = covering_rows(W.n, W.G, m); r = arr.new((m, W.n), "i", lambda r, x: arr.cast(D(num(r), num(x)), "i"), "cover")
        if C is not None: o = c.fn("reused", I, I, I); C.set_view(lambda r, x: arr.cast(o(num(r), num(x)), C.dtype))
        return r
    return contract

class Enum(SList):
    """max_cliques of the given graph (C03): in an arbitrary iteration, some maximal clique of it."""
    def __init__(s, n, nb): SList.__init__(s, 0, None); s.vertices, s.nb = n, nb
    def elem(s):
        c = cx(); m = size("clique size", 1); el = c.fn("el", I, I); i, j = c.int("i"), c.int("j"); c.assume(m <= s.vertices)
        c.axiom(z3.ForAll([i], z3.Implies(inr(i, m), inr(el(i), s.vertices)), patterns=[el(i)]))
        c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, m), inr(j, m), i != j), z3.And(el(i) != el(j), s.nb(el(i), el(j)))), patterns=[z3.MultiPattern(el(i), el(j))]))
        return SList(m, lambda k: el(num(k)))

def enumeration(ip, f, a, k):
    A = a[0] if a else k["nbrhood"]
    if not isinstance(A, Arr) or A.ndim != 2: raise Unsupported("max_cliques of something else")
    g = A.fn(); n = A.shape[0]; pointwise("the graph given to the clique enumeration is symmetric", (n, n), lambda i, j: tobool(g(i, j)) == tobool(g(j, i)), "pre"); cx().assumed.add("max_cliques: contract C03")
    return Enum(n, lambda i, j: tobool(g(i, j)))

def branch(first):
    """branch gives None or a cover; its own calls by contract (partial correctness)."""
    def go(ip):
        c = cx(); n, G = graph_(c); W = World(ip, n, G); W.contracts(); g = W.new(); g.attrs["the_cover"] = None
        if first: W.put(g, arbitrary(n, G, K=z3.IntVal(0), removed=False)); C = None; h0 = g
        else:
            h0 = W.new(g); W.put(h0, arbitrary(n, G)); ch = W.get(h0); h0.attrs["the_cover"] = State("cliques chosen"); q = c.fn("clique", I, B); x, y = c.int("x"), c.int("y")
            c.axiom(z3.ForAll([x], z3.Implies(z3.And(inr(x, n), q(x)), ch.al(ch.R, x)), patterns=[q(x)])); c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(inr(x, n), inr(y, n), q(x), q(y)), G(x, y)), patterns=[z3.MultiPattern(q(x), q(y))])); w = c.int("some"); c.assume(inr(w, n), q(w))
            C = arr.new((ch.K + 1, n), "i", lambda r, x: arr.cast(z3.If(num(r) == ch.K, q(num(x)), ch.row(num(r), num(x))), "i"), "the_cover")
        was = dict(h0.attrs); body = branch_contract(W); started = []
        def contract(ip_, f, a, k):
            if not started: started.append(1); return NotImplemented
            return body(ip_, f, a, k)
        ip.contracts["ecc_algorithms.branch"] = contract; ip.contracts["ecc_algorithms.max_cliques"] = enumeration
        state = {}
        def havoc(env, old, it):
            if not isinstance(it, Enum): raise Unsupported("a loop over something else than the cliques")
            return it.elem()
        def check(what, env):
            now = {id(v): (v, dict(v.attrs), v.attrs["the_cover"].buf.version if isinstance(v.attrs.get("the_cover"), Arr) else None) for v in env.d.values() if isinstance(v, Obj)}
            if not state: state.update(now); return
            for i, (v, at, ver) in state.items(): c.oblige("an iteration leaves the graphs as they were", set(at) == set(v.attrs) and all(v.attrs[t] is q for t, q in at.items()) and (ver is None or v.attrs["the_cover"].buf.version == ver), "invariant")
        ip.loops[("ecc_algorithms.branch", 0)] = Loop(havoc, check, "for")
        r = returns(ip, lambda: call(ip, "ecc_algorithms", "branch", h0, c.int("k"), C, c.int("iteration"), c.int("iteration_max"))); W.get(h0)
        c.oblige("frame: the graph given is left as it was", all(h0.attrs.get(t) is v for t, v in was.items()), "frame")
        if r is None: return
        if not isinstance(r, Arr) or r.ndim != 2: c.oblige("a cover: an array", False); return
        class H: pass
        H.n, H.G = n, G; is_cover("the cover", r, H, r.shape[0])
    return go

def find(dtype, some):
    """find_clique_min_cover, for graphs with (some) or without edges."""
    def go(ip):
        c = cx(); n = size("n", 1); g = c.fn("G", I, I, B); i, j = c.int("i"), c.int("j"); c.axiom(z3.ForAll([i, j], g(i, j) == g(j, i), patterns=[g(i, j)])); c.axiom(z3.ForAll([i], z3.Implies(inr(i, n), g(i, i)), patterns=[g(i, i)])); G = lambda i, j: g(num(i), num(j))
        if some: u, v = c.int("u0"), c.int("v0"); c.assume(u >= 0, u < v, v < n, G(u, v))
        else: c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, n), inr(j, n), i != j), z3.Not(G(i, j))), patterns=[g(i, j)]))
        A = arr.new((n, n), dtype, lambda i, j: arr.cast(G(i, j), dtype), "graph"); F = Frame(graph=A); W = World(ip, n, G)
        if some:
            def aux(ip_, f, a, k):
                h = a[0]; c.oblige("the graph given is searched", h.attrs.get("adj_matrix") is A, "pre"); e = h.attrs["num_edges"]; one = lambda q: z3.If(q, z3.IntVal(1), z3.IntVal(0))
                sum_le("pairs with an edge", [n, n], lambda i, j: one(z3.And(num(j) - num(i) >= 1, G(i, j))), lambda i, j: one(num(j) - num(i) >= 1))
                W.put(h, arbitrary(n, G, K=z3.IntVal(0), removed=False)); h.attrs["num_edges"] = h.ghost["num_edges"] = e; c.assumed.add("make_aux: contract C24")
            ip.contracts["graph.UndirectedDependenceGraph.make_aux"] = aux; ip.contracts["ecc_algorithms.branch"] = branch_contract(W)
        class H: pass
        H.n, H.G = n, G
        def havoc(env, old, it):
            for q, v in old.items():
                if v is None: env.d[q] = None if c.choose(2) == 0 else cover_array(n, G)
                elif isinstance(v, int) or is_z3(v): env.d[q] = c.int(q)
        def check(what, env):
            v = [env.d[q] for q in found]
            for q in v:
                if q is not None: is_cover(what, q, H, q.shape[0]) if isinstance(q, Arr) and q.ndim == 2 else c.oblige(f"{what}: an array", False)
        found = ["the_cover"]
        ip.loops[("ecc_algorithms.find_clique_min_cover", 0)] = Loop(havoc, check, "while")
        r = returns(ip, lambda: call(ip, "ecc_algorithms", "find_clique_min_cover", A)); F.check()
        if not isinstance(r, Arr) or r.ndim != 2: c.oblige("the cover: an array", False); return
        is_cover("the cover", r, H, r.shape[0]); f = r.fn(); k = r.shape[0]
        def covered(x):
            at = []
            for cnt, rank, en, m in listings(n): p = num(rank(x)); c.assume(z3.Implies(tobool(m(x)), z3.And(inr(p, cnt), num(en(p)) == x))); at.append(z3.simplify(num(k) - num(cnt) + p))
            return z3.Or(*[z3.And(inr(p, k), tobool(f(p, x))) for p in at], exists([k], lambda r: tobool(f(r, x))))
        pointwise("every vertex lies in a row", (n,), covered)
    return go

def cover_array(n, G):
    m = size("cliques"); D = covering_rows(n, G, m); return arr.new((m, n), "i", lambda r, x: arr.cast(D(num(r), num(x)), "i"), "cover")
