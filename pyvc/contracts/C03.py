"""Maximal cliques: the search is a depth-first walk; its state at the loop head is
  stack[k] = (SG(k), CA(k), EX(k)) for k < d, current sets SG(d), CA(d), EX(d), and Q[k] = P(k) for k < d.
One maximal clique K is fixed; y counts how often it was yielded.  Invariant: SG(k) are the vertices adjacent to P(0..k-1), the P
are pairwise adjacent, EX(k) <= CA(k) <= SG(k), P(k) left CA(k); and
  y = 0: some level LV is pending for K (P(0..LV-1) in K, K & SG(LV) <= CA(LV)) with an element of K in EX(LV);
  y = 1: no level is pending.
pyvc executes one iteration from an arbitrary such state."""
import ast, loops
from contracts.common import *

class Stale(interp.Opaque): pass

class LStack:
    """A list with n leading entries given by a function and further explicit ones."""
    def __init__(s, n, at, top=()): s.n, s.at_, s.top = num(n), at, list(top)
    def len(s): return dim(s.n + len(s.top))
    def truth(s): return True if s.top else interp.simp2(s.n > 0)
    def copyl(s):
        n, at, top = s.n, s.at_, list(s.top)
        def f(k):
            if not top: return at(k)
            r = top[-1]
            for j in range(len(top) - 2, -1, -1): r = interp.merge(simp2(num(k) == n + j), top[j], r)
            q = cx().quick(num(k) < n)
            return at(k) if q is True else r if q is False else interp.merge(num(k) < n, at(k), r)
        l = SList(dim(n + len(top)), f); l.src = (n, at, top); return l
    def pull(s):
        """The last entry as an explicit one."""
        if not s.top:
            if not cx().branch(s.n > 0): return False
            s.n = z3.simplify(s.n - 1); s.top = [s.at_(s.n)]
        return True
    def getattr(s, n):
        def append(a, k): cx_effect(s); s.top.append(a[0])
        def pop(a, k):
            if a and concrete(a[0]) != -1: raise Unsupported("pop from the front of a stack")
            cx_effect(s)
            if not s.pull(): raise PyRaise("IndexError", "pop from empty list")
            return s.top.pop()
        t = {"append": append, "pop": pop, "copy": lambda a, k: s.copyl()}
        return (Native("list." + n, t[n]),) if n in t else None
    def getitem(s, k):
        if isinstance(k, arr.Slice):
            if k.a is None and k.b is None and k.c is None: return s.copyl()
            raise Unsupported("slice of a stack")
        if concrete(k) == -1:
            if not s.pull(): raise PyRaise("IndexError", "list index out of range")
            return s.top[-1]
        raise Unsupported("subscript of a stack")
    def setitem(s, k, v):
        if concrete(k) != -1: raise Unsupported("store into a stack")
        cx_effect(s)
        if not s.pull(): raise PyRaise("IndexError", "list assignment index out of range")
        s.top[-1] = v
    def siter(s): l = s.copyl(); return l.n, l.at

def cx_effect(o): npmodel.IP[0].effect(o)
simp2 = interp.simp2

class Search:
    """Invariant of the loop of max_cliques."""
    def __init__(s, n, A, K, mw): s.n, s.A, s.K, s.mw, s.y, s.d = n, A, K, mw, 0, None
    # ---- which local variable holds what
    def roles(s, st, env):
        push = [q for q in ast.walk(st) if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == "append" and len(q.args) == 1 and isinstance(q.args[0], ast.Tuple) and len(q.args[0].elts) == 3 and all(isinstance(e, ast.Name) for e in q.args[0].elts) and isinstance(q.func.value, ast.Name)]
        if len(push) != 1: raise Unsupported("the search keeps its state in another form")
        s.stack = push[0].func.value.id; s.sets = [e.id for e in push[0].args[0].elts]
        qs = [k for k, v in env.d.items() if isinstance(v, list) and len(v) == 1 and k != s.stack]
        if len(qs) != 1 or not (isinstance(env.d.get(s.stack), list) and not env.d[s.stack]) or not all(isinstance(env.d.get(k), SSet) for k in s.sets): raise Unsupported("the search keeps its state in another form")
        s.q = qs[0]
    def facts(s, P, mem, d):
        """The structural invariant as (name, arity, formula) for levels k <= d."""
        n, A = s.n, s.A; V = lambda v: inr(v, n); SG, CA, EX = mem
        return {"the subgraph of the first level has all vertices": lambda v: z3.Implies(V(v), SG(z3.IntVal(0), v)),
                "cand <= subg, ext <= cand, all vertices": lambda k, v: z3.And(z3.Implies(EX(k, v), CA(k, v)), z3.Implies(CA(k, v), SG(k, v)), z3.Implies(SG(k, v), V(v))),
                "a vertex of the subgraph is adjacent to the clique so far": lambda k, v, j: z3.Implies(z3.And(SG(k, v), j >= 0, j < k), A(P(j), v)),
                "the clique so far is taken from subgraph and is no candidate any more": lambda k: z3.Implies(k < d, z3.And(V(P(k)), SG(k, P(k)), z3.Not(CA(k, P(k)))))}
    def run(s, ip, st, env, module, it):
        c = cx(); n, A, K, mw = s.n, s.A, s.K, s.mw; V = lambda v: inr(v, n)
        if st.orelse: raise Unsupported("while-else")
        s.roles(st, env); names = [s.stack, s.q] + s.sets
        ident = [id(env.d[k]) for k in s.sets]
        if len(set(ident)) != 3: raise Unsupported("the sets of the search share storage")
        # ---- entry: no level below, K is pending
        E0 = [env.d[k] for k in s.sets]; m0 = [e.member for e in E0]
        fresh = lambda: [c.int("k"), c.int("v"), c.int("j")]
        P0 = lambda k: z3.IntVal(0)
        mem0 = [(lambda k, v, m=m: tobool(m(v))) for m in m0]
        k, v, j = fresh(); z = z3.IntVal(0)
        for nm, f in s.facts(P0, mem0, z).items():
            c.oblige("on entry: " + nm, f(*([v] if f.__code__.co_argcount == 1 and "first level" in nm else [z, v, j][:f.__code__.co_argcount])), "invariant")
        c.oblige("on entry: every vertex is a candidate", z3.Implies(V(v), mem0[1](z, v)), "invariant")
        # K has an element in the extension: a vertex outside the extension gives one through maximality
        s.has_ext("on entry", E0)
        # ---- an arbitrary state
        d = c.int("d"); c.assume(d >= 0)
        P = c.fn("P", I, I); SG, CA, EX = (c.fn(q, I, I, B) for q in ("SG", "CA", "EX")); wit = c.fn("wit", I, I, I)
        ks, vs, js = fresh()
        for nm, f in s.facts(P, (SG, CA, EX), d).items():
            a = f.__code__.co_argcount
            if "first level" in nm: c.assume(z3.ForAll([vs], f(vs), patterns=[SG(z3.IntVal(0), vs)]))
            elif a == 2: c.assume(z3.ForAll([ks, vs], z3.Implies(z3.And(ks >= 0, ks <= d), f(ks, vs)), patterns=[SG(ks, vs), CA(ks, vs), EX(ks, vs)]))
            elif a == 3: c.assume(z3.ForAll([ks, vs, js], z3.Implies(z3.And(ks >= 0, ks <= d), f(ks, vs, js)), patterns=[z3.MultiPattern(SG(ks, vs), P(js))]))
            else: c.assume(z3.ForAll([ks], z3.Implies(z3.And(ks >= 0, ks <= d), f(ks)), patterns=[P(ks)]))
        c.assume(z3.ForAll([ks, vs], z3.Implies(z3.And(ks >= 0, ks <= d, V(vs), z3.Not(SG(ks, vs))), z3.And(wit(ks, vs) >= 0, wit(ks, vs) < ks, z3.Not(A(P(wit(ks, vs)), vs)))), patterns=[SG(ks, vs)]))
        pairA = lambda i, j: A(P(i), P(j))
        c.assume(z3.ForAll([ks, js], z3.Implies(z3.And(ks >= 0, ks < js, js < d), pairA(ks, js)), patterns=[z3.MultiPattern(P(ks), P(js))]))
        s.d, s.P, s.wit, s.SG = d, P, wit, SG
        LV, e = c.int("LV"), c.int("e"); x1, x2 = c.fn("x1", I, I), c.fn("x2", I, I); isx1 = c.fn("isx1", I, B)
        s.y = c.choose(2)
        if s.y == 0:
            c.assume(LV >= 0, LV <= d, EX(LV, e), K(e))
            c.assume(z3.ForAll([js], z3.Implies(z3.And(js >= 0, js < LV), K(P(js))), patterns=[P(js)]))
            c.assume(z3.ForAll([vs], z3.Implies(z3.And(K(vs), SG(LV, vs)), CA(LV, vs)), patterns=[SG(LV, vs), CA(LV, vs)]))
        else:
            # no level is pending: a vertex of the clique so far outside K, or a vertex of K that is no candidate any more
            c.assume(z3.ForAll([ks], z3.Implies(z3.And(ks >= 0, ks <= d), z3.If(isx1(ks), z3.And(x1(ks) >= 0, x1(ks) < ks, z3.Not(K(P(x1(ks))))), z3.And(K(x2(ks)), SG(ks, x2(ks)), z3.Not(CA(ks, x2(ks)))))), patterns=[isx1(ks)]))
        sets = lambda k: tuple(SSet((lambda v, f=f: f(num(k), num(v))), n) for f in (SG, CA, EX))
        env.d[s.stack] = LStack(d, sets); env.d[s.q] = LStack(d, lambda k: P(num(k)), [Stale("an entry of an earlier step")])
        cur = sets(d)
        for nm, q in zip(s.sets, cur): env.d[nm] = q
        for q in loops.assigned_names(st.body) - set(names): env.d[q] = interp.Poison("set in an earlier iteration")
        npicks = len(c.ghost.get("picks", [])); before = dict(env.d); mine = {id(q) for q in cur} | {id(env.d[s.stack]), id(env.d[s.q])}
        old = getattr(c, "effect_hook", None)
        def eh(o):
            if not isinstance(o, (SSet, LStack)) or isinstance(o, SSet) and id(o) not in mine and any(o is q for q in before.values()): raise Unsupported("the search changes something else")
        c.effect_hook = eh
        try:
            t = ip.truth(ip.expr(st.test, env, module))
            if not c.branch(t): return s.done("at the end")
            try: ip.block(st.body, env, module)
            except interp.Continue: pass
            except interp.Break: return s.done("at the end")
        finally: c.effect_hook = old
        for k_, v_ in env.d.items():
            if k_ not in names and k_ in before and before[k_] is not v_ and k_ not in loops.assigned_names(st.body): raise Unsupported("the search changes something else")
        # ---- the state after the iteration
        S, Q = env.d[s.stack], env.d[s.q]; now = [env.d.get(k) for k in s.sets]
        if not isinstance(S, LStack) or not isinstance(Q, LStack) or not all(isinstance(q, SSet) for q in now): raise Unsupported("the search keeps its state in another form")
        if not all(isinstance(t, tuple) and len(t) == 3 and all(isinstance(q, SSet) for q in t) for t in S.top): raise Unsupported("the search keeps its state in another form")
        live = [q for t in S.top for q in t] + now
        if len({id(q) for q in live}) != len(live) or any(getattr(q, "frozen", False) for q in live): raise Unsupported("the sets of the search share storage")
        d2 = z3.simplify(S.n + len(S.top)); lv = [t for t in S.top] + [tuple(now)]
        ms = [[q.member for q in t] for t in lv]
        def mk(w, base):
            def f(k, v):
                r = tobool(ms[-1][w](v))
                for t in range(len(lv) - 2, -1, -1): r = z3.If(k == S.n + t, tobool(ms[t][w](v)), r)
                return z3.If(k < S.n, base(k, v), r)
            return f
        SG2, CA2, EX2 = (mk(w, b) for w, b in enumerate((SG, CA, EX)))
        c.oblige("the clique so far has one entry per level", num(Q.len()) == d2 + 1, "invariant")
        ent = [q if is_z3(q) else None for q in Q.top]
        def P2(k):
            r = P(k)
            for t, q in enumerate(ent):
                if q is not None: r = z3.If(k == Q.n + t, q, r)
            return r
        def stale(k): return z3.Or([k == Q.n + t for t, q in enumerate(ent) if q is None] or [False])
        k, v, j = fresh(); c.assume(d2 >= 0) if c.quick(d2 >= 0) is True else c.oblige("levels", d2 >= 0, "invariant")
        c.oblige("the entries below the current level are vertices", z3.Implies(z3.And(k >= 0, k < d2), z3.Not(stale(k))), "invariant")
        rk = z3.And(k >= 0, k <= d2)
        for nm, f in s.facts(P2, (SG2, CA2, EX2), d2).items():
            a = f.__code__.co_argcount
            c.oblige("preserved: " + nm, f(v) if "first level" in nm else z3.Implies(rk, f(*[k, v, j][:a])), "invariant")
        # a vertex outside the subgraph of a level is not adjacent to some entry
        cand = [wit(k, v), wit(d, v), d] + [Q.n + t for t in range(len(ent))]
        c.oblige("preserved: every vertex adjacent to the clique so far is in the subgraph", z3.Implies(z3.And(rk, V(v), z3.Not(SG2(k, v))), z3.Or([z3.And(w >= 0, w < k, z3.Not(A(P2(w), v))) for w in cand])), "invariant")
        i = c.int("i"); c.oblige("preserved: the clique so far is a clique", z3.Implies(z3.And(i >= 0, i < j, j < d2), A(P2(i), P2(j))), "invariant")
        # ---- K
        us = cx().ghost.get("picks", [])[npicks:]
        if s.y == 0:
            alts = [(LV, e)] + [(d + 1, w) for q in us for w in (q, mw(q))]
            def pend(L, w, jj, vv): return z3.And(L >= 0, L <= d2, EX2(L, w), K(w), z3.Implies(z3.And(jj >= 0, jj < L), K(P2(jj))), z3.Implies(z3.And(K(vv), SG2(L, vv)), CA2(L, vv)))
            # the level and element are chosen from the state before: for each choice its own j and v
            c.oblige("preserved: while K is not yielded, some level leads to it", z3.Or([pend(L, w, c.int("j"), c.int("v")) for L, w in alts]), "invariant")
        else:
            news = [q for q in ent if q is not None] + us
            w1 = [x1(k), x1(d)] + [Q.n + t for t in range(len(ent))]; w2 = [x2(k), x2(d), P2(k)] + news
            c.oblige("preserved: after K is yielded, no level leads to it", z3.Implies(rk, z3.Or([z3.And(w >= 0, w < k, z3.Not(K(P2(w)))) for w in w1] + [z3.And(K(w), SG2(k, w), z3.Not(CA2(k, w))) for w in w2])), "invariant")
        # ---- termination: the sum over the levels of 3^|cand| decreases
        x = c.int("x")
        c.oblige("terminates: a level is added or removed or stays", z3.Or(d2 == d + 1, d2 == d, d2 == d - 1), "termination")
        kk = c.int("k")
        c.oblige("terminates: lower levels only lose candidates", z3.Implies(z3.And(kk >= 0, kk <= d2, kk <= d), z3.Implies(CA2(kk, x), CA(kk, x))), "termination")
        q = us
        c.oblige("terminates: the current level lost a candidate", z3.Or([d2 == d - 1] + [z3.And(CA(d, w), z3.Not(CA2(d, w))) for w in q]), "termination")
        c.oblige("terminates: a new level has some of the candidates left", z3.Implies(z3.And(d2 == d + 1, CA2(d + 1, x)), CA2(d, x)), "termination")
        raise PathEnd()
    def has_ext(s, what, E):
        """Some element of K is in the first extension set."""
        c = cx(); K = s.K; mex = E[2].member
        c.oblige(f"{what}: the extension set has a vertex of K", z3.Or([z3.And(K(w), tobool(mex(w))) for u in c.ghost.get("picks", []) for w in (u, s.mw(u))] or [False]), "invariant")
    def done(s, what): cx().events.append(("done", s.y)); return None
    # ---- yields
    def on_yield(s, val, env):
        c = cx(); n, A, K = s.n, s.A, s.K
        if s.d is None: c.oblige("yields only maximal cliques", False); raise PathEnd()
        if isinstance(val, LStack): raise Unsupported("yields the list it goes on changing")
        if not isinstance(val, SList) or not hasattr(val, "src"):
            raise Unsupported("yields another kind of value")
        bn, at, top = val.src; m = z3.simplify(bn + len(top))
        bad = [q for q in top if not is_z3(q)]
        c.oblige("the entries of a yielded clique are vertices", not bad)
        if bad: raise PathEnd()
        def L(k):
            r = num(at(k))
            for t, q in enumerate(top): r = z3.If(k == bn + t, q, r)
            return r
        i, j, v, w = (c.int(x) for x in "ijvw")
        c.oblige("the entries of a yielded clique are vertices", z3.Implies(inr(i, m), inr(L(i), n)))
        c.oblige("a yielded clique has distinct, pairwise adjacent vertices", z3.Implies(z3.And(i >= 0, i < j, j < m), z3.And(L(i) != L(j), A(L(i), L(j)))))
        cand = [s.wit(s.d, w), s.d] + [bn + t for t in range(len(top))]
        c.oblige("a yielded clique is maximal", z3.Implies(inr(w, n), z3.Or([z3.And(inr(q, m), z3.Not(A(L(q), w))) for q in cand])))
        # is it K?
        b = c.choose(3); ix = c.fn("ix", I, I); js = c.int("j"); vs = c.int("v")
        if b == 0:
            c.assume(z3.ForAll([vs], z3.Implies(K(vs), z3.And(inr(ix(vs), m), L(ix(vs)) == vs)), patterns=[K(vs)]))
            c.assume(z3.ForAll([js], z3.Implies(inr(js, m), K(L(js))), patterns=[s.P(js)])); 
            for t in range(len(top)): c.assume(z3.Implies(inr(bn + t, m), K(top[t])))
            c.oblige("no maximal clique is yielded twice", s.y == 0); s.y += 1
            if s.y > 1: raise PathEnd()
        elif b == 1: w1 = c.int("w"); c.assume(inr(w1, m), z3.Not(K(L(w1))))
        else: w2 = c.int("w"); c.assume(K(w2)); c.assume(z3.ForAll([js], z3.Implies(inr(js, m), L(js) != w2), patterns=[s.P(js)])); c.assume(*[top_ != w2 for top_ in top])

def exact(ip, dtype):
    c = cx(); n = size("n", 1); g = symmetric01("graph", n, dtype); f = g.fn(); fr = Frame(graph=g)
    A = lambda u, v: z3.And(u != v, tobool(f(u, v)))
    K, mw = c.fn("K", I, B), c.fn("mw", I, I); u, v = z3.Int("u"), z3.Int("v")
    c.assume(z3.ForAll([u], z3.Implies(K(u), inr(u, n)), patterns=[K(u)]))
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(K(u), K(v), u != v), A(u, v)), patterns=[z3.MultiPattern(K(u), K(v))]))
    c.assume(z3.ForAll([u], z3.Implies(z3.And(inr(u, n), z3.Not(K(u))), z3.And(K(mw(u)), z3.Not(A(u, mw(u))))), patterns=[K(u), mw(u)]))
    S = Search(n, A, K, mw); ip.loops[("ecc_algorithms.max_cliques", 0)] = S; ip.yield_hook = S.on_yield
    returns(ip, lambda: call(ip, "ecc_algorithms", "max_cliques", g), "enumeration")
    c.oblige("every maximal clique is yielded", S.y == 1); fr.check()

def empty(ip, dtype):
    c = cx(); g = arr.new((0, 0), dtype, lambda i, j: arr.cast(0, dtype)); ip.yield_hook = lambda v, e: c.oblige("yields nothing for the graph without vertices", False)
    returns(ip, lambda: call(ip, "ecc_algorithms", "max_cliques", g), "enumeration"); c.oblige("ends for the graph without vertices", True)

def goals(): return [Goal(f"max_cliques[{d}]", lambda ip, d=d: exact(ip, d), {"quick_rl": 200000}) for d in "bi"] + [Goal(f"max_cliques[no vertices, {d}]", lambda ip, d=d: empty(ip, d)) for d in "bi"]
