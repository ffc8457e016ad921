"""Discharges obligations: normalization, z3, then cvc5 on the SMT-LIB text."""
import z3, time, os, subprocess, tempfile, select, signal
from core import *
import core

def conjuncts(g):
    if z3.is_and(g): return [x for ch in g.children() for x in conjuncts(ch)]
    return [g]

def neq_trivial(g):
    """a = b decided by the normal form of linear/polynomial arithmetic."""
    if z3.is_eq(g) and z3.is_arith(g.arg(0)):
        d = z3.simplify(real(g.arg(0)) - real(g.arg(1)), som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0: return True
        try: return not core.poly(d)
        except OverflowError: return False
    return False

def witnesses(o, goal):
    """Instances of an existential goal at the constants and their images under the path's bijections."""
    if not (z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() == 1 and goal.var_sort(0) == I): return
    ks = {}; st = [goal]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: ks[x.get_id()] = x
        st.extend(x.children())
    ks = list(ks.values())
    fs = [f for b in o.ctx.bij for f in b[:2] if z3.is_func_decl(f) and f.arity() == 1]
    for w in [f(k) for f in fs for k in ks] + ks + [z3.IntVal(0)]: yield z3.simplify(z3.substitute_vars(goal.body(), w))

def z3_check(hyps, goal, ms, seed=1, mbqi=True):
    """One query, in a child process: z3 does not always keep to its time limit."""
    s = z3.Solver(); s.set("timeout", int(ms)); s.set("smt.random_seed", seed)
    if not mbqi: s.set("smt.mbqi", False)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    t = time.time(); rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try: os.write(wr, str(s.check()).encode())
        finally: os._exit(0)
    os.close(wr); ans = ""
    if select.select([rd], [], [], ms / 1000 + 1)[0]: ans = os.read(rd, 16).decode()
    else: os.kill(pid, signal.SIGKILL)
    os.close(rd); os.waitpid(pid, 0)
    return {"sat": z3.sat, "unsat": z3.unsat}.get(ans, z3.unknown), s, time.time() - t

def cvc5_check(smt, ms, extra=()):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt); p = f.name
    try:
        t = time.time()
        r = subprocess.run(["cvc5", f"--tlimit={int(ms)}", *extra, p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "unknown", time.time() - t
    except subprocess.TimeoutExpired: return "unknown", ms / 1000
    finally: os.unlink(p)

def relevant(hyps, goal, rounds=2):
    """Hypotheses sharing symbols with the goal, transitively."""
    def syms(e):
        out, stack, seen = set(), [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stack.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                stack.extend(x.children())
        return out
    S = syms(goal); hs = [(h, syms(h)) for h in hyps]; used = set()
    for _ in range(rounds):
        for j, (h, s) in enumerate(hs):
            if j not in used and (s & S or not s): used.add(j)
        S = S.union(*[hs[j][1] for j in used]) if used else S
    return [hs[j][0] for j in sorted(used)]

def ext_lemmas(fs, rounds=3, limit=80):
    """Pointwise ordered summands give ordered sums: S1 < S2 only if some summand of S1 is below that of S2."""
    out, done, apps = [], set(), {}
    def collect(e):
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_app(x) and x.decl().name() in core.SUMS and not core._hasvar(x): apps.setdefault(x.get_id(), x)
            stack.extend(x.children())
    for f in fs: collect(f)
    n = 0
    for r in range(rounds):
        new = []
        L = list(apps.values())
        for i, p in enumerate(L):
            for q in L[i + 1:]:
                k = (p.get_id(), q.get_id())
                if k in done or p.sort() != q.sort(): continue
                dp, dq = sum_dims(p), sum_dims(q)
                if len(dp) != len(dq): continue
                for perm in (itertools.permutations(range(len(dq))) if len(dq) <= 2 else [tuple(range(len(dq)))]):
                    if not all(same_dim(dp[a], dq[perm[a]]) for a in range(len(dp))): continue
                    done.add(k)
                    if len(new) > limit: break
                    for op in ("<", ">"):
                        w = [z3.Int(f"w!{next(WIT)}") for _ in dp]
                        bp, bq = z3.simplify(sum_body(p, w)), z3.simplify(sum_body(q, [w[perm.index(b)] for b in range(len(dq))]))
                        rng = z3.And([inr(x, d) for x, d in zip(w, dp)])
                        new.append(z3.Implies(p < q if op == "<" else p > q, z3.And(rng, bp < bq if op == "<" else bp > bq)))
        if not new: break
        out += new
        for f in new: collect(f)
        if len(out) > 3 * limit: break
    return out
import itertools
WIT = itertools.count()
def same_dim(a, b):
    d = z3.simplify(a - b, som=True)
    return z3.is_int_value(d) and d.as_long() == 0

def discharge(o, ms=20000, backends=("z3", "cvc5")):
    if o.status: return o.status
    t0 = time.time()
    goal = z3.simplify(o.goal)
    if z3.is_true(goal): o.status, o.backend = "proved", "simplifier"; return o.status
    parts = conjuncts(goal)
    if all(neq_trivial(p) for p in parts): o.status, o.backend = "proved", "normalizer"; return o.status
    rest = [p for p in parts if not neq_trivial(p)]
    status, backend, unk = None, "z3", None
    for p in rest:
        rel = relevant(o.hyps, p)
        if z3_check(rel, p, min(ms, 2000), mbqi=False)[0] == z3.unsat: continue
        if any(z3_check(o.hyps, w, t, mbqi=False)[0] == z3.unsat for t in (150, 1000) for w in itertools.islice(witnesses(o, p), 24)): backend = "z3 (witness)"; continue
        ext = ext_lemmas([z3.Not(p)])
        if ext:
            rel = relevant(o.hyps, z3.And(ext + [p]))
            r, s, dt = z3_check(rel + ext, p, min(ms, 6000))
            if r == z3.unsat: backend = "z3+sum-extensionality"; continue
        r, s, dt = z3_check(rel, p, min(ms, 4000))
        if r == z3.unsat: continue
        if r == z3.sat and len(rel) == len(o.hyps): status, unk = "refuted", p; break
        r, s, dt = z3_check(o.hyps, p, ms)
        if r == z3.unsat: continue
        if r == z3.sat: status, unk = "refuted", p; break
        if "cvc5" in backends:
            ans, dt = cvc5_check(s.to_smt2(), ms, ("--full-saturate-quant",))
            if ans == "unsat": backend = "cvc5"; continue
            if ans == "sat": status, unk = "refuted", p; break
        status, unk = "unknown", p; break
    else: status = "proved"
    o.status, o.backend, o.secs = status, backend if status == "proved" else None, time.time() - t0
    if unk is not None: o.reason = str(unk)[:600]
    return o.status
