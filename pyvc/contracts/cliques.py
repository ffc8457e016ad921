"""max_cliques under its contract (C03), as an iterator, and a work list of edges under an invariant (for find_heuristic_1pc)."""
import ast, loops
from contracts.common import *

class Clique(SList):
    """The w-th yielded clique."""
    def __init__(s, C, w):
        s.C, s.w = C, num(w); SList.__init__(s, C.sz(s.w), lambda k: C.el(s.w, num(k)), mutable=True)
    def subst(s, f): return Clique(s.C, f(s.w))
    def merge(s, cond, o):
        if isinstance(o, Clique) and o.C is s.C: return Clique(s.C, z3.If(tobool(cond), s.w, o.w))
        raise Unsupported("merge of a clique and another value")

class Cliques:
    """The result of max_cliques(A) on a symmetric A with n > 0 vertices: N lists el(w, 0..sz(w)-1)."""
    def __init__(s, n, adj):
        c = cx(); s.n, s.adj = n, adj; s.N = c.int("cliques"); s.sz, s.el, s.mx = c.fn("sz", I, I), c.fn("el", I, I, I), c.fn("mx", I, I, I); s.p = 0
        w, i, j, v = (c.int(x) for x in "wijv"); el, sz, mx = s.el, s.sz, s.mx; ok = inr(w, s.N)
        c.assume(s.N >= 1)
        c.assume(z3.ForAll([w], z3.Implies(ok, z3.And(sz(w) >= 1, sz(w) <= n)), patterns=[sz(w)]))
        c.assume(z3.ForAll([w, i], z3.Implies(z3.And(ok, inr(i, sz(w))), inr(el(w, i), n)), patterns=[el(w, i)]))
        c.assume(z3.ForAll([w, i, j], z3.Implies(z3.And(ok, inr(i, sz(w)), inr(j, sz(w)), i != j), z3.And(el(w, i) != el(w, j), adj(el(w, i), el(w, j)))), patterns=[z3.MultiPattern(el(w, i), el(w, j))]))
        c.assume(z3.ForAll([w, v], z3.Implies(z3.And(ok, inr(v, n)), z3.And(inr(mx(w, v), sz(w)), z3.Not(adj(el(w, mx(w, v)), v)))), patterns=[mx(w, v)]))
        c.assumed.add("max_cliques: contract C03")
    def at_least(s, m, t, what):
        """t(0..m-1) is a clique: some yielded clique is at least as large."""
        c = cx(); i, j = c.int("i"), c.int("j")
        c.oblige(f"{what}: vertices", z3.Implies(inr(i, m), inr(t(i), s.n)), "lemma"); c.oblige(f"{what}: a clique", z3.Implies(z3.And(inr(i, m), inr(j, m), i != j), z3.And(t(i) != t(j), s.adj(t(i), t(j)))), "lemma")
        b = c.int("big"); c.assume(inr(b, s.N), s.sz(b) >= m)
        c.assumed.add("every clique of a finite graph extends to a maximal one, which is at least as large")
    def next(s):
        if s.p != 0: raise Unsupported("second next() of the clique iterator")
        s.p = 1; return Clique(s, 0)
    def siter(s):
        if s.p: raise Unsupported("part of the clique iterator is consumed")
        s.p = s.N; return s.N, lambda k: Clique(s, k)
    def minmax(s, which, kf, k):
        c = cx(); w = c.int("best"); lo = s.p; s.p = s.N
        if lo != 0: raise Unsupported("part of the clique iterator is consumed")
        c.assume(inr(w, s.N)); v = num(kf(Clique(s, w))); j = c.int("j"); c.local.append([inr(j, s.N)])
        try: u = num(kf(Clique(s, j)))
        finally: c.local.pop()
        c.assume(z3.ForAll([j], z3.Implies(inr(j, s.N), u <= v if which == "max" else u >= v), patterns=[s.sz(j)])); return Clique(s, w)
    def run_for(s, ip, st, env, module):
        """Invariant: a clique carried from iteration to iteration is one of those seen, none of which is larger."""
        c = cx()
        if st.orelse: raise Unsupported("for-else over cliques")
        lo = s.p
        if not isinstance(lo, int): return
        s.p = s.N
        target = loops.assigned_names([st.target]); carried = [q for q in loops.assigned_names(st.body) - target if q in env.d]
        if not all(isinstance(env.d[q], Clique) for q in carried): raise Unsupported("a value other than a clique carried over cliques")
        best = lambda q, k, j: z3.And(q.w >= 0, q.w < k, z3.Implies(z3.And(j >= 0, j < k), s.sz(j) <= s.sz(q.w)))
        for q in carried: c.oblige(f"on entry: {q} is the largest clique so far", best(env.d[q], z3.IntVal(lo), c.int("j")), "invariant")
        k = c.int("k"); j = c.int("j"); c.assume(k >= lo, k <= s.N)
        for q in carried:
            env.d[q] = Clique(s, c.int("w")); c.assume(z3.ForAll([j], best(env.d[q], k, j), patterns=[s.sz(j)]))
        others = {q: v for q, v in env.d.items() if q not in carried and q not in target}
        for q in loops.assigned_names(st.body) - target - set(carried): env.d.pop(q, None)
        if c.choose(2) == 0:
            c.assume(k < s.N); ip.assign(st.target, Clique(s, k), env, module); n0 = len(c.events)
            with loops.Effects() as eff:
                try: ip.block(st.body, env, module)
                except interp.Continue: pass
                except (interp.Break, interp.Return): raise Unsupported("jump out of a loop over cliques")
            if eff.attrs or eff.lists or eff.others or len(c.events) != n0: raise Unsupported("effect in a loop over cliques")
            for q in carried:
                if not isinstance(env.d[q], Clique): raise Unsupported("a value other than a clique carried over cliques")
                c.oblige(f"preserved: {q} is the largest clique so far", best(env.d[q], k + 1, c.int("j")), "invariant")
            raise PathEnd()
        c.assume(k == s.N)
        for q in (loops.assigned_names(st.body) | target) - set(carried): env.d[q] = interp.Poison("set in a loop over cliques")

def cliques_contract(ip, n):
    def contract(ip_, f, args, kw):
        U = args[0] if args else kw["nbrhood"]
        if not isinstance(U, Arr): raise Unsupported("max_cliques of something else")
        u = U.fn()
        if not shape_is("the graph given to the clique enumeration", U, (n, n)): raise PathEnd()
        pointwise("the graph given to the clique enumeration is symmetric", (n, n), lambda i, j: tobool(u(i, j)) == tobool(u(j, i)), "pre")
        if "cliques" in cx().ghost: raise Unsupported("second enumeration of cliques")
        C = cx().ghost["cliques"] = Cliques(n, lambda i, j: z3.And(num(i) != num(j), tobool(u(i, j)))); return C
    ip.contracts["ecc_algorithms.max_cliques"] = contract

class Worklist:
    """A deque of the structured elements of a set; the loop that empties it runs under the invariant inv:
    start(ip, env): checks and havocs; see C04."""
    def __init__(s, ps, inv):
        c = cx(); s.ps, s.inv = ps, inv; s.N = c.int("edges"); s.es, s.pos = c.fn("es", I, I), c.fn("pos", I, I); t, k = c.int("t"), c.int("k")
        c.assume(s.N >= 0)
        c.assume(z3.ForAll([t], z3.Implies(inr(t, s.N), inr(s.es(t), ps.n)), patterns=[s.es(t)]))
        with bound(s.N) as (t,): e = s.es(t); body = tobool(ps.test(e))
        c.assume(z3.ForAll([t], z3.Implies(inr(t, s.N), z3.And(inr(e, ps.n), body)), patterns=[e]))
        with bound(ps.n) as (k,):
            cond = tobool(ps.test(k)); a = ps.f(k); c.local.append([cond, inr(s.pos(k), s.N), inr(s.es(s.pos(k)), ps.n)])
            try: b = ps.f(s.es(s.pos(k)))
            finally: c.local.pop()
        eq = AndL([num(x) == num(y) for x, y in zip(a, b)]) if isinstance(a, tuple) else num(a) == num(b)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(inr(k, ps.n), cond), z3.And(inr(s.pos(k), s.N), eq)), patterns=[s.pos(k)]))
        s.left = s.N; s.done = z3.IntVal(0); s.cur = None
    def elem(s, t): return s.ps.f(s.es(t))
    def truth(s): return interp.simp2(s.left > 0)
    def len(s): return dim(s.left)
    def getattr(s, n):
        def take(a, k):
            npmodel.IP[0].effect(s)
            if not cx().branch(s.left > 0): raise PyRaise("IndexError", "pop from an empty deque")
            if s.cur is not None: raise Unsupported("several elements taken per iteration")
            s.cur = s.done; s.left = z3.simplify(s.left - 1); e = s.elem(s.cur); s.inv.taken(s, e); return e
        def append(a, k):
            cx().oblige("no edge is put back", False, "termination"); raise PathEnd()
        t = {"popleft": take, "pop": take, "append": append}
        return (Native("deque." + n, t[n]),) if n in t else None
    def run_while(s, ip, st, env, module):
        """Every element is taken once, in some order."""
        c = cx()
        if st.orelse: raise Unsupported("while-else")
        s.inv.entry(s)
        for q in loops.assigned_names(st.body): env.d[q] = interp.Poison("set in an earlier iteration")
        t = c.int("t"); c.assume(t >= 0, t <= s.N); s.done = t; s.left = z3.simplify(s.N - t)
        s.inv.havoc(s, t)
        v = ip.truth(ip.expr(st.test, env, module))
        if c.branch(v):
            bufs = {}; n0 = len(c.events)
            with loops.Effects() as eff, loops._logs(bufs):
                try: ip.block(st.body, env, module)
                except interp.Continue: pass
                except (interp.Break, interp.Return): raise Unsupported("jump out of the loop over edges")
            if eff.attrs or eff.lists or any(o is not s for o in eff.others) or len(c.events) != n0: raise Unsupported("effect in the loop over edges")
            if any(b.id <= s.inv.known and b is not s.inv.buf for b, _ in bufs.values()): raise Unsupported("another array is changed in the loop over edges")
            c.oblige("the loop over edges terminates: an edge is taken", s.cur is not None, "termination")
            s.inv.preserved(s, t + 1); raise PathEnd()
        c.oblige("the loop over edges ends when none is left", s.left == 0, "invariant"); c.assume(s.left == 0)
        s.inv.after(s)
