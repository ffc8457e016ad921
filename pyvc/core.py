"""Core of pyvc: path context, obligations, z3 helpers, canonical library terms and sums.

Conventions
-----------
* Python values are kept concrete where they are; symbolic scalars are z3 expressions
  (Int for Python/NumPy integers: mathematical integers; Real for floats: mathematical reals; Bool).
* A *path* is one run of the interpreter under a list of branch decisions; forks are explored by re-execution.
"""
from __future__ import annotations
import z3, time, fractions, itertools, os, sys

z3.set_param("smt.random_seed", 1)
_mp0 = z3.MultiPattern
def _mp(*a):
    keep = list(a)           # z3py drops its references to the terms before using them
    return _mp0(*keep)
z3.MultiPattern = _mp

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The code left the subset pyvc can generate obligations for."""


class PyRaise(Exception):
    """A Python exception raised by the code under verification."""
    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class PathEnd(BaseException):
    """This path needs no continuation (infeasible, or the end of a loop-body proof)."""


class Obligation:
    __slots__ = ("name", "where", "hyps", "goal", "kind", "status", "backend", "secs", "model", "ctx", "timeout", "reason", "split")
    def __init__(s, name, where, hyps, goal, kind, ctx, timeout=None):
        s.name, s.where, s.hyps, s.goal, s.kind, s.ctx = name, where, hyps, goal, kind, ctx
        s.status = None; s.backend = None; s.secs = 0.0; s.model = None; s.timeout = timeout; s.reason = ""; s.split = None


_frames = {}
class Frame_(list):
    """Local assumptions; frames opened with the same assumptions have the same serial."""
    def __init__(s, fs):
        super().__init__(fs)
        k = tuple(f.get_id() if is_z3(f) else f for f in s)
        if k not in _frames: _frames[k] = (len(_frames), list(fs))
        s.serial = _frames[k][0]
class LocalStack(list):
    def append(s, fs): super().append(Frame_(fs))
    def key(s): return tuple(f.serial for f in s)

class Ctx:
    """State of one path."""
    def __init__(self, decisions=(), opts=None):
        self.pc = []              # assumptions
        self.local = LocalStack() # stack of local (bound-variable) assumptions
        self.obligs = []
        self.dec = list(decisions); self.pos = 0
        self.alts = []            # decision lists still to explore
        self.n = 0
        self.lib = {}             # canonical key -> record
        self.apps = []            # ground applications of library terms
        self.events = []
        self.masks_ = []
        self.mask_enums = []
        self.masks = []           # (rank, count, mask, shape): enumerations of the true entries of masks
        self.bij = []             # (fwd, inv, size_term, arity_prefix) bijections known to the path
        self.opts = opts or {}
        self.where = []
        self.solver = z3.Solver(); self.solver.set("timeout", 6000); self.solver.set("rlimit", self.opts.get("quick_rl", 1000000)); self.solver.set("smt.mbqi", False)   # a deterministic budget; the time is a backstop
        self.qf = z3.Solver(); self.qf.set("timeout", 2000); self.qf.set("rlimit", 400000); self.qf_n = 0
        self.nsolver = 0
        self.loop_specs = {}
        self.ghost = {}
        self.assumed = set()      # names of assumed library contracts used
        self.quick_cache = {}
        self.epoch = 0; self.epochs = 0
        self.depth = 0
        self.inlined = set()
        self.bound_names = set()

    # ---- naming
    def name(self, p):
        self.n += 1
        return f"{p}!{self.n}"
    def const(self, p, sort): return z3.Const(self.name(p), sort)
    def int(self, p="i"): return self.const(p, I)
    def fn(self, p, *sorts): return z3.Function(self.name(p), *sorts)

    # ---- assumptions
    def assume(self, *fs):
        for f in fs:
            f = tobool(f)
            if z3.is_true(f): continue
            if self.local:
                # facts about bound variables: keep them universally valid by guarding with the local assumptions
                self.local[-1].append(f)
                continue
            self.pc.append(f); self.solver.add(f)
    def axiom(self, f):
        """A closed fact (no bound variables free)."""
        self.pc.append(f); self.solver.add(f)
    def hyps(self):
        return self.pc + [f for l in self.local for f in l]

    # ---- obligations
    def oblige(self, name, goal, kind="post", timeout=None):
        goal = tobool(goal)
        g = simp(goal)
        o = Obligation(name, self.where[-1] if self.where else "", self.hyps(), goal, kind, self, timeout)
        if z3.is_true(g): o.status, o.backend = "proved", "simplifier"
        self.obligs.append(o)
        return o
    def require(self, name, goal, kind="safety"):
        """Obligation, then assumption."""
        if self.quick(goal) is True: 
            self.obligs.append(Obligation(name, self.where[-1] if self.where else "", [], goal, kind, self))
            self.obligs[-1].status, self.obligs[-1].backend = "proved", "z3(quick)"
            return
        self.oblige(name, goal, kind); self.assume(goal)

    def state_key(self):
        """Identifies the assumptions in force, for memoized evaluations."""
        return (self.epoch, self.local.key())

    # ---- quick queries
    def quick(self, cond):
        """True if provable, False if refutable, None if unknown."""
        if isinstance(cond, bool): return cond
        c = simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        loc = [f for l in self.local for f in l]
        key = (self.epoch, len(self.pc), self.local.key(), len(loc), c.get_id())
        if key in self.quick_cache: return self.quick_cache[key][1]
        # the quantifier-free assumptions usually suffice
        n = self.qf_n
        if n > len(self.pc): self.qf.reset(); n = 0
        for h in self.pc[n:]:
            if not _has_quant(h): self.qf.add(h)
        self.qf_n = len(self.pc)
        lq = [l for l in loc if not _has_quant(l)]
        def q0(f):
            self.qf.push()
            for l in lq: self.qf.add(l)
            self.qf.add(f); r = self.qf.check(); self.qf.pop(); return r
        r1 = q0(z3.Not(c))
        if r1 == z3.unsat: self.quick_cache[key] = (c, True); return True
        r2 = q0(c)
        if r2 == z3.unsat: self.quick_cache[key] = (c, False); return False
        if r1 == z3.sat and r2 == z3.sat and _plain(c):
            self.quick_cache[key] = (c, None); return None
        def q(f):
            self.solver.push()
            for l in loc: self.solver.add(l)
            self.solver.add(f)
            r = self.solver.check()
            self.solver.pop()
            return r
        res = None
        if q(z3.Not(c)) == z3.unsat: res = True
        elif q(c) == z3.unsat: res = False
        self.quick_cache[key] = (c, res)
        return res

    # ---- branching
    def branch(self, cond, label=""):
        if isinstance(cond, bool): return cond
        c = simp(tobool(cond))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.local:
            r = self.quick(c)
            if r is not None: return r
            raise Unsupported(f"branch on a bound variable: {str(c)[:120]}")
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            r = self.quick(c)
            if r is None:
                self.alts.append(self.dec[:self.pos] + [False])
                d = True
            else:
                d = r
            self.dec.append(d)
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        return d
    def choose(self, k, label=""):
        """Nondeterministic choice among k continuations (all explored)."""
        if self.local: raise Unsupported("choice under a bound variable")
        if self.pos < len(self.dec): d = self.dec[self.pos]
        else:
            for j in range(1, k): self.alts.append(self.dec[:self.pos] + [j])
            d = 0; self.dec.append(d)
        self.pos += 1
        return d


_hq = {}
def _has_quant(e):
    i = e.get_id()
    if i in _hq: return _hq[i][1]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        stack.extend(x.children())
    _hq[i] = (e, r); return r

def _plain(e):
    """Only constants (no library terms or functions about which quantified facts are known)."""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: return False
        stack.extend(x.children())
    return True

_cur = []
def cx() -> Ctx: return _cur[-1]


# --------------------------------------------------------------------------- scalars
def is_z3(x): return isinstance(x, z3.ExprRef)
def is_sym(x): return isinstance(x, z3.ExprRef)

def simp(e):
    return z3.simplify(e) if is_z3(e) else e

def num(x):
    """z3 arithmetic expression of a scalar."""
    import numbers
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("nan/inf in arithmetic")
        fr = fractions.Fraction(repr(x))
        return z3.Q(fr.numerator, fr.denominator)
    if isinstance(x, fractions.Fraction): return z3.Q(x.numerator, x.denominator)
    if z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_z3(x): return x
    raise Unsupported(f"not a number: {type(x).__name__}")

def real(x):
    x = num(x)
    if z3.is_int(x):
        s = simp(x)
        if z3.is_int_value(s): return z3.RealVal(s.as_long())
        return z3.ToReal(x)
    return x

def tobool(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if is_z3(x):
        if z3.is_bool(x): return x
        return x != 0
    if isinstance(x, (int, float)): return z3.BoolVal(bool(x))
    raise Unsupported(f"truth value of {type(x).__name__}")

def concrete(x):
    """Python value of a scalar if it is a literal, else None."""
    if isinstance(x, (bool, int, float)): return x
    if is_z3(x):
        s = z3.simplify(x)
        if z3.is_int_value(s): return s.as_long()
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if z3.is_rational_value(s):
            return s.as_fraction()
    return None

def dim(d):
    """Normal form of a dimension: int or z3 Int."""
    if isinstance(d, bool): return int(d)
    if isinstance(d, int): return d
    if is_z3(d):
        if z3.is_bool(d): d = num(d)
        s = z3.simplify(d, som=True)
        if z3.is_int_value(s): return s.as_long()
        return s
    raise Unsupported(f"dimension of type {type(d).__name__}")

def same(a, b):
    """Syntactic/semantic equality of dims: True/False/None."""
    a, b = dim(a), dim(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = z3.simplify(num(a) - num(b), som=True)
    if z3.is_int_value(d): return d.as_long() == 0
    return cx().quick(num(a) == num(b))

def AndL(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)): out += [tobool(g) for g in f]
        else: out.append(tobool(f))
    return z3.And(out) if len(out) != 1 else out[0]
def OrL(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)): out += [tobool(g) for g in f]
        else: out.append(tobool(f))
    return z3.Or(out) if len(out) != 1 else out[0]
Not, Implies, If = (lambda a: z3.Not(tobool(a))), (lambda a, b: z3.Implies(tobool(a), tobool(b))), None
def ite(c, a, b):
    c = simp(tobool(c)) if not isinstance(c, bool) else z3.BoolVal(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if z3.is_bool(a) if is_z3(a) else isinstance(a, bool):
        if z3.is_bool(b) if is_z3(b) else isinstance(b, bool):
            return z3.If(c, tobool(a), tobool(b))
    a, b = num(a), num(b)
    if a.sort() != b.sort(): a, b = real(a), real(b)
    if a.eq(b): return a
    return z3.If(c, a, b)

EXPAND = 16   # concrete ranges up to this length are expanded

def inr(k, n): return z3.And(num(k) >= 0, num(k) < num(n))

class bound:
    """with bound(n1, n2) as (k1, k2): bound variables with their range assumptions in force."""
    def __init__(self, *dims, extra=None):
        self.dims, self.extra = dims, extra
    def __enter__(self):
        c = cx()
        self.vs = [c.int("b") for _ in self.dims]
        for v in self.vs: c.bound_names.add(v.decl().name())
        c.local.append([inr(v, n) for v, n in zip(self.vs, self.dims) if n is not None])
        if self.extra: c.local[-1].append(self.extra(*self.vs))
        self.base = len(c.local[-1])
        return self.vs
    def __exit__(self, *a):
        l = cx().local.pop()
        self.facts = l[self.base:]      # facts learnt about terms containing the bound variables
        return False

def forall(dims, body, pats=None):
    """ForAll over 0<=k<dim (dim None: all integers); expands concrete ranges."""
    dims = [dim(d) if d is not None else None for d in dims]
    if all(isinstance(d, int) and d <= EXPAND for d in dims):
        return AndL([tobool(body(*map(z3.IntVal, ks))) for ks in itertools.product(*[range(d) for d in dims])] or [True])
    bd = bound(*dims)
    with bd as vs:
        b = tobool(body(*vs))
    if z3.is_true(simp(b)): return z3.BoolVal(True)
    rng = [inr(v, d) for v, d in zip(vs, dims) if d is not None]
    if bd.facts: cx_axiom(vs, rng, bd.facts)
    kw = {}
    if pats:
        try: kw["patterns"] = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats(*vs)]
        except z3.Z3Exception: kw = {}
    return z3.ForAll(vs, z3.Implies(z3.And(rng) if rng else z3.BoolVal(True), b), **kw)

def cx_axiom(vs, rng, facts):
    """Facts learnt about bound terms are valid for all values in range."""
    c = cx()
    f = z3.ForAll(vs, z3.Implies(z3.And(rng) if rng else z3.BoolVal(True), z3.And(facts)))
    if c.local: c.local[-1].append(f)
    else: c.axiom(f)

def exists(dims, body):
    dims = [dim(d) if d is not None else None for d in dims]
    if all(isinstance(d, int) and d <= EXPAND for d in dims):
        return OrL([tobool(body(*map(z3.IntVal, ks))) for ks in itertools.product(*[range(d) for d in dims])] or [False])
    bd = bound(*dims)
    with bd as vs:
        b = tobool(body(*vs))
    if z3.is_false(simp(b)): return z3.BoolVal(False)
    rng = [inr(v, d) for v, d in zip(vs, dims) if d is not None]
    if bd.facts: cx_axiom(vs, rng, bd.facts)
    return z3.Exists(vs, z3.And(*rng, b))


# --------------------------------------------------------------------------- occurrence helpers
def occurs(e, ids, _memo=None):
    """Does any constant with AST id in ids occur in e?"""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack.extend(x.children())
    return False

def abstract(e, bound_ids):
    """Replace the maximal subterms of e free of the given bound constants by placeholders.
    Returns (abstracted expression, list of arguments)."""
    args, place, memo = [], {}, {}
    def has(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if i in bound_ids: r = True
        elif z3.is_quantifier(x): r = has(x.body())
        else: r = any(has(c) for c in x.children())
        memo[i] = r
        return r
    out = {}
    def go(x):
        i = x.get_id()
        if i in out: return out[i]
        if not has(x):
            if z3.is_var(x) or z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x) or _hasvar(x): r = x
            else:
                if i not in place:
                    place[i] = z3.Const(f"#{len(args)}", x.sort()); args.append(x)
                r = place[i]
        elif i in bound_ids or not x.children(): r = x
        elif z3.is_quantifier(x):
            # rebuild the quantifier with its body abstracted (de Bruijn variables are left alone)
            r = z3.substitute(x, *[(c, go(c)) for c in _closed_free(x, bound_ids)]) if False else x
        else:
            r = x.decl()(*[go(c) for c in x.children()])
        out[i] = r
        return r
    return go(e), args

def _hasvar(x):
    stack, seen = [x], set()
    while stack:
        y = stack.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_var(y): return True
        if z3.is_quantifier(y): continue
        stack.extend(y.children())
    return False


# --------------------------------------------------------------------------- library terms
class LibRec:
    def __init__(s, name, dims, bodies, params, sort, fns): 
        s.name, s.dims, s.bodies, s.params, s.sort, s.fns = name, dims, bodies, params, sort, fns

def lib_term(name, dims, bodies, outs, facts=None):
    """A canonical uninterpreted term for a library function of array contents.

    dims    -- ranges of the bound variables of the contents (terms; they become arguments)
    bodies  -- functions of the bound variables giving the contents (list)
    outs    -- list of (result sort, number of extra index arguments)
    Returns a list of functions (callables over the extra indices).  Equal contents give equal results because the
    function symbols are shared by canonical key; facts(apps, dims_args) may emit closed axioms once per key."""
    c = cx()
    fs_ = [c.int("l") for _ in dims]        # fresh while the contents are evaluated (they may contain library terms themselves)
    for v in fs_: c.bound_names.add(v.decl().name())
    c.local.append([inr(k, d) for k, d in zip(fs_, dims)])
    nb = len(c.local[-1])
    try:
        bs = [b(*fs_) for b in bodies]
    finally:
        loc = c.local.pop()
    if loc[nb:]: cx_axiom(fs_, [inr(k, d) for k, d in zip(fs_, dims)], loc[nb:])
    ks = [z3.Int(f"@{j}") for j in range(len(dims))]
    ids = {k.get_id() for k in ks}
    bs = [acsort(canon_abs(z3.simplify(z3.substitute(b if is_z3(b) else num(b), *zip(fs_, ks))), ks)) for b in bs]
    absd, args = [], []
    wrap = z3.Function("@wrap", *[b.sort() for b in bs], I) if bs else None
    if bs:
        w, args = abstract(wrap(*bs), ids)
        absd = w.children() if w.decl().name() == "@wrap" else None
        if absd is None:        # constant contents: the whole tuple was taken as one parameter
            absd, args = [], []
            for b in bs:
                absd.append(z3.Const(f"#{len(args)}", b.sort())); args.append(b)
    dargs = [num(d) for d in dims]
    key = (name, tuple(b.sexpr() for b in absd), tuple(a.sort().name() for a in args), len(dims), tuple(str(o) for o in outs))
    if key not in c.lib:
        fns = []
        for t, (sort, k) in enumerate(outs):
            fns.append(z3.Function(c.name(name + ("" if len(outs) == 1 else f".{t}")), *[a.sort() for a in args], *[I] * len(dims), *[I] * k, sort))
        c.lib[key] = LibRec(name, dims, absd, args, outs, fns)
        rec = c.lib[key]
        if facts:
            # closed axioms over all parameter values
            ps = [z3.Const(c.name("p"), a.sort()) for a in args]
            ds = [c.int("d") for _ in dims]
            mk = [(lambda *ix, f=f: f(*ps, *ds, *ix)) for f in fns]
            body = lambda *ix, j=0: z3.substitute(absd[j], *[(z3.Const(f"#{t}", p.sort()), p) for t, p in enumerate(ps)], *[(k, num(i)) for k, i in zip(ks, ix)])
            for vs, pats, f in facts(mk, ds, body):
                allv = ps + ds + list(vs)
                if allv:
                    try:
                        used = [v for v in allv]
                        q = z3.ForAll(used, f, patterns=pats) if pats else z3.ForAll(used, f)
                    except z3.Z3Exception:
                        q = z3.ForAll(used, f)
                else: q = f
                c.axiom(q)
    rec = c.lib[key]
    fs = []
    for f in rec.fns:
        fs.append(lambda *ix, f=f: f(*args, *dargs, *[num(x) for x in ix]))
    ground = not any(_is_boundish(a) for a in args + dargs)
    if ground:
        c.apps.append((name, dims, bodies, fs, outs))
    return fs

def _is_boundish(e):
    c = cx()
    if not c.local: return False
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and (x.decl().name() in c.bound_names or x.decl().name().startswith("@")): return True
        stack.extend(x.children())
    return False


# --------------------------------------------------------------------------- sums
def _monomials(e, limit=400):
    """Sum-of-monomials form of a real/int expression: list of (coefficient fraction, [factors])."""
    one = [(fractions.Fraction(1), [])]
    def go(x):
        if z3.is_int_value(x): return [(fractions.Fraction(x.as_long()), [])]
        if z3.is_rational_value(x): return [(fractions.Fraction(x.numerator_as_long(), x.denominator_as_long()), [])]
        if z3.is_add(x):
            r = []
            for ch in x.children(): r += go(ch)
            return r
        if z3.is_sub(x):
            ch = x.children(); r = go(ch[0])
            for y in ch[1:]: r += [(-a, f) for a, f in go(y)]
            return r
        if x.decl().kind() == z3.Z3_OP_UMINUS: return [(-a, f) for a, f in go(x.arg(0))]
        if z3.is_mul(x):
            r = one
            for ch in x.children():
                g = go(ch)
                r = [(a * b, f + h) for a, f in r for b, h in g]
                if len(r) > limit: raise OverflowError
            return r
        if x.decl().kind() == z3.Z3_OP_DIV:
            d = go(x.arg(1))
            if len(d) == 1 and d[0][0] != 0:
                inv = [z3.RealVal(1) / f for f in d[0][1]]
                return [(a / d[0][0], f + inv) for a, f in go(x.arg(0))]
            # a sum in the denominator: keep it as an atomic inverse
            inv = z3.RealVal(1) / x.arg(1)
            if x.arg(0).eq(z3.RealVal(1)): return [(fractions.Fraction(1), [inv])]
            return [(a, f + [inv]) for a, f in go(x.arg(0))]
        if x.decl().kind() == z3.Z3_OP_POWER:
            ex = concrete(x.arg(1))
            if ex is not None and ex == int(ex) and 0 <= ex <= 4:
                r = one
                g = go(x.arg(0))
                for _ in range(int(ex)):
                    r = [(a * b, f + h) for a, f in r for b, h in g]
                    if len(r) > limit: raise OverflowError
                return r
        if x.decl().kind() == z3.Z3_OP_TO_REAL and (z3.is_add(x.arg(0)) or z3.is_mul(x.arg(0)) or z3.is_sub(x.arg(0)) or z3.is_int_value(x.arg(0)) or x.arg(0).decl().kind() == z3.Z3_OP_UMINUS):
            return [(a, [z3.ToReal(f) if z3.is_int(f) else f for f in fs]) for a, fs in go(x.arg(0))]
        return [(fractions.Fraction(1), [x])]
    return go(e)

def cancel(fs):
    """x * (1/x) = 1 for factors known to be nonzero."""
    c = cx(); fs = list(fs); j = 0
    while j < len(fs):
        f = fs[j]
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DIV and concrete(f.arg(0)) == 1:
            d = f.arg(1)
            for i, g in enumerate(fs):
                if i != j and g.eq(d) and c.quick(d != 0) is True:
                    fs = [x for t, x in enumerate(fs) if t not in (i, j)]; j = -1; break
        j += 1
    return fs

def poly(e):
    """Normal form {monomial text: (coefficient, factors)} of a real expression."""
    out = {}
    for a, fs in _monomials(e):
        fs = sorted(cancel(fs), key=lambda f: f.sexpr()); k = "*".join(f.sexpr() for f in fs)
        b = out.get(k, (0, fs))[0] + a
        out[k] = (b, fs)
    return {k: v for k, v in out.items() if v[0] != 0}

def fold_mul(fs, is_int):
    if not fs: return z3.IntVal(1) if is_int else z3.RealVal(1)
    fs = sorted(fs, key=lambda f: f.sexpr())
    r = fs[0]
    for f in fs[1:]: r = r * f
    return r

def ssum(dims, body, total_of=None):
    """Sum over 0<=k_j<dims_j of body(k...).  Normalizes: concrete ranges are expanded, sums are linear, factors free of the
    bound variables are pulled out, deltas collapse, bijective re-indexings and ravelled ranges are undone."""
    c = cx()
    dims = [dim(d) for d in dims]
    if any(isinstance(d, int) and d <= 0 for d in dims): return z3.IntVal(0)
    for j, d in enumerate(dims):
        if isinstance(d, int) and d <= EXPAND:
            parts = [ssum(dims[:j] + dims[j + 1:], (lambda *ks, v=v: body(*ks[:j], z3.IntVal(v), *ks[j:]))) for v in range(d)] if len(dims) > 1 else [num(body(z3.IntVal(v))) for v in range(d)]
            parts = [num(p) for p in parts]
            if any(z3.is_real(p) for p in parts): parts = [real(p) for p in parts]
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
    bd = bound(*dims)
    with bd as ks:
        e = body(*ks)
        e = num(e)
        e = normal(z3.simplify(e))
    rng = [inr(k, d) for k, d in zip(ks, dims)]
    if bd.facts: cx_axiom(ks, rng, bd.facts)
    return _sum_expr(dims, ks, e)

def _no_int_ite_lift(e):
    return e

def normal(e):
    """Rewrite ToReal(If(..)) to If(.., reals) so that equal summands look equal."""
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            ch = [go(y) for y in x.children()]
            if x.decl().kind() == z3.Z3_OP_TO_REAL and ch[0].decl().kind() == z3.Z3_OP_ITE:
                r = z3.If(ch[0].arg(0), real(ch[0].arg(1)), real(ch[0].arg(2)))
                r = go(r)
            else:
                r = x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
                r = canon_cmp(r)
        memo[i] = (x, r)
        return r
    return go(e)

def _threshold(ks, a):
    """(index of bound variable, t, below): the atom a is k < t (below) or k >= t for a single bound variable and t free of all."""
    k0 = a.decl().kind()
    if k0 not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(a.arg(0)): return None
    ids = {k.get_id() for k in ks}
    if not occurs(a, ids): return None
    d = z3.simplify(a.arg(0) - a.arg(1), som=True)
    for j, k in enumerate(ks):
        if not occurs(d, {k.get_id()}): continue
        t0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))), som=True)
        if occurs(t0, ids): return None
        cc = concrete(z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - t0, som=True))
        if cc not in (1, -1) or not z3.simplify(d - (cc * k + t0), som=True).eq(z3.IntVal(0)): return None
        # cc*k + t0 (<=, <, >=, >) 0
        if k0 in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            s = 1 if k0 == z3.Z3_OP_LE else 0
            return (j, z3.simplify(-t0 + s, som=True), True) if cc == 1 else (j, z3.simplify(t0 + (1 - s), som=True), False)
        s = 1 if k0 == z3.Z3_OP_GT else 0
        return (j, z3.simplify(-t0 + s, som=True), False) if cc == 1 else (j, z3.simplify(t0 + (1 - s), som=True), True)
    return None

def _split_ranges(dims, ks, e):
    """sum over k < N of e = sum over k < t + sum over k < N - t of e(k + t), for a threshold atom at t inside e with 0 <= t <= N."""
    c = cx(); ids = {k.get_id() for k in ks}
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x): continue
        if z3.is_bool(x):
            r = _threshold(ks, x)
            if r is not None:
                j, t, below = r; N = num(dims[j])
                rest = [z3.IntVal(0)]
                if c.quick(t <= 0) is True: return z3.simplify(z3.substitute(e, (x, z3.BoolVal(not below)))), None
                if c.quick(t >= N) is True: return z3.simplify(z3.substitute(e, (x, z3.BoolVal(below)))), None
                if c.quick(z3.And(t >= 0, t <= N)) is True:
                    lo = z3.simplify(z3.substitute(e, (x, z3.BoolVal(below))))
                    hi = z3.simplify(z3.substitute(z3.substitute(e, (x, z3.BoolVal(not below))), (ks[j], ks[j] + t)))
                    d1, d2 = list(dims), list(dims); d1[j] = dim(t); d2[j] = dim(N - t)
                    return (d1, lo), (d2, hi)
        stack.extend(x.children())
    return None, None

def _sum_expr(dims, ks, e):
    for _ in range(20):
        a, b = _split_ranges(dims, ks, e)
        if a is None: break
        if b is None: e = normal(a); continue
        ps = []
        for d, x in (a, b):
            if any(isinstance(q, int) and q <= 0 for q in d) or concrete(x) == 0: continue
            small = [j for j, q in enumerate(d) if isinstance(q, int) and q <= EXPAND]
            if small:
                j = small[0]; kk, dd = [k for i, k in enumerate(ks) if i != j], [q for i, q in enumerate(d) if i != j]
                for v in range(d[j]):
                    y = normal(z3.simplify(z3.substitute(x, (ks[j], z3.IntVal(v)))))
                    ps.append(_sum_expr(dd, kk, y) if kk else y)
            else: ps.append(_sum_expr(d, ks, normal(x)))
        if not ps: return z3.IntVal(0) if z3.is_int(e) else z3.RealVal(0)
        if len(ps) == 1: return ps[0]
        if any(z3.is_real(p) for p in ps): ps = [real(p) for p in ps]
        return z3.Sum(ps)
    isint = z3.is_int(e)
    try: monos = _monomials(e)
    except OverflowError: monos = [(fractions.Fraction(1), [e])]
    ids = {k.get_id() for k in ks}
    groups, flat = {}, []
    try: monos = [m for a, fs in monos for m in _split_ind(a, fs)]
    except OverflowError: pass
    for a, fs in monos:
        if a == 0: continue
        free = [f for f in fs if not occurs(f, ids)]
        dep = [f for f in fs if occurs(f, ids)]
        # idempotent indicator squared: If(c,1,0)*If(c,1,0) = If(c,1,0)
        dep = _fold_ind(_idem(dep), isint)
        free = _fold_ind(_idem(free), isint)
        fl = _flatten(dims, ks, dep, isint)
        if fl is not None: flat.append((a, free, fl)); continue
        dep = _drop_true(dims, ks, dep, isint)
        core = fold_mul(dep, isint)
        k = core.sexpr()
        groups.setdefault(k, (core, dep, []))[2].append((a, free))
    terms = []
    for a, free, sv in flat:
        t = sv
        if free:
            t0 = fold_mul(free, isint)
            t = (t0 * sv) if z3.is_int(t0) == z3.is_int(sv) else real(t0) * real(sv)
        if a != 1: t = (z3.IntVal(a.numerator) if a.denominator == 1 and z3.is_int(t) else z3.Q(a.numerator, a.denominator)) * (t if a.denominator == 1 and z3.is_int(t) else real(t))
        terms.append(t)
    for k, (core, dep, coefs) in groups.items():
        s = _sum_core(dims, ks, core, dep, isint)
        cs = []
        for a, free in coefs:
            t = fold_mul(free, isint) if free else None
            if isint and a.denominator == 1 and (t is None or z3.is_int(t)):
                ca = z3.IntVal(a.numerator)
            else: ca = z3.Q(a.numerator, a.denominator)
            cs.append(ca if t is None else (ca * t if a != 1 else t))
        if len(cs) > 1 and any(z3.is_real(x) for x in cs): cs = [real(x) for x in cs]
        co = z3.simplify(z3.Sum(cs)) if len(cs) > 1 else cs[0]
        if z3.is_real(co) != z3.is_real(s): co, s = real(co), real(s)
        if concrete(co) == 0: continue
        terms.append(co * s if concrete(co) != 1 else s)
    if not terms: return z3.IntVal(0) if isint else z3.RealVal(0)
    if len(terms) == 1: return terms[0]
    if any(z3.is_real(t) for t in terms): terms = [real(t) for t in terms]
    return z3.Sum(terms)

def _strip_ind(f):
    g = f.arg(0) if f.decl().kind() == z3.Z3_OP_TO_REAL else f
    if g.decl().kind() != z3.Z3_OP_ITE: return None
    a, b = concrete(g.arg(1)), concrete(g.arg(2))
    if (a, b) == (1, 0): return g.arg(0)
    if (a, b) == (0, 1): return z3.simplify(z3.Not(g.arg(0)))
    return None

def _split_ind(a, fs, depth=0):
    """If(c, v, 0) = [c] * v, and [p and q] = [p] * [q]."""
    for j, f in enumerate(fs):
        g = f.arg(0) if f.decl().kind() == z3.Z3_OP_TO_REAL else f
        if g.decl().kind() != z3.Z3_OP_ITE: continue
        c, p, q = g.arg(0), g.arg(1), g.arg(2)
        one, zero = (z3.RealVal(1), z3.RealVal(0)) if z3.is_real(f) else (z3.IntVal(1), z3.IntVal(0))
        if concrete(p) == 0 and concrete(q) != 0: c, p, q = z3.simplify(z3.Not(c)), q, p
        if concrete(q) == 0:
            if concrete(p) == 1:
                if not z3.is_and(c): continue
                rest = []
            else:
                if depth > 6: raise OverflowError
                rest = _monomials(real(p) if z3.is_real(f) else p)
            cs = list(c.children()) if z3.is_and(c) else [c]
            ind = [z3.If(x, one, zero) for x in cs]
            base = fs[:j] + ind + fs[j + 1:]
            if not rest: return _split_ind(a, base, depth)
            return [m for b, gs in rest for m in _split_ind(a * b, base + gs, depth + 1)]
    return [(a, fs)]

def _fold_ind(fs, isint):
    """The product of all indicators as one indicator with sorted conjuncts."""
    cs, rest = {}, []
    for f in fs:
        c = _strip_ind(f)
        if c is None: rest.append(f); continue
        for x in (c.children() if z3.is_and(c) else [c]): cs[x.sexpr()] = x
    if not cs: return rest
    cs = _fold_cmp(cs)
    l = [cs[k] for k in sorted(cs)]
    c = z3.And(l) if len(l) > 1 else l[0]
    return rest + [z3.If(c, z3.IntVal(1), z3.IntVal(0)) if isint else z3.If(c, z3.RealVal(1), z3.RealVal(0))]

def _fold_cmp(cs):
    """p <= q and p >= q is p = q; conjuncts implied by a stronger comparison of the same terms are dropped."""
    def shape(x):
        neg = z3.is_not(x); a = x.arg(0) if neg else x
        k = a.decl().kind() if z3.is_app(a) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) or not z3.is_arith(a.arg(0)): return None
        op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "=="}[k]
        if neg: op = {"<=": ">", ">=": "<", "==": "!="}[op]
        return op, a.arg(0), a.arg(1)
    by = {}
    for k, x in cs.items():
        r = shape(x)
        if r: by.setdefault((r[1].sexpr(), r[2].sexpr()), {})[r[0]] = (k, x, r[1], r[2])
    for g in by.values():
        drop = []
        if "<=" in g and ">=" in g:
            drop += ["<=", ">="]
            if "==" not in g:
                e = g["<="][2] == g["<="][3]; cs[e.sexpr()] = e
        if "==" in g: drop += ["<=", ">="]
        if "<" in g: drop += ["<=", "!="]
        if ">" in g: drop += [">=", "!="]
        for o in set(drop):
            if o in g: cs.pop(g[o][0], None)
    return cs

MAXFLAT = 4
def _flatten(dims, ks, dep, isint):
    """sum_k f(k) sum_t g(k, t) = sum_{k,t} f(k) g(k, t)."""
    c = cx()
    for j, f in enumerate(dep):
        g = f.arg(0) if f.decl().kind() == z3.Z3_OP_TO_REAL else f
        if not (z3.is_app(g) and g.decl().name() in SUMS): continue
        sd = sum_dims(g); ids = {k.get_id() for k in ks}
        if len(ks) + len(sd) > MAXFLAT or any(occurs(d, ids) for d in sd): continue
        new = [c.int("b") for _ in sd]
        for v in new: c.bound_names.add(v.decl().name())
        b = sum_body(g, new)
        if f is not g: b = real(b)
        rest = dep[:j] + dep[j + 1:]
        e = b
        for r in rest: e = e * r
        return _sum_expr(list(dims) + sd, list(ks) + new, normal(z3.simplify(e)))
    return None

def _drop_true(dims, ks, dep, isint):
    """Indicator conditions that hold for all indices in range are dropped."""
    out = []
    for f in dep:
        c = _strip_ind(f)
        if c is None: out.append(f); continue
        keep = []
        for q in (c.children() if z3.is_and(c) else [c]):
            if _linear_atom(q):
                q2 = canon_ineq(q)
                if holds_in_range(dims, ks, q): continue
                q = q2
            keep.append(q)
        if not keep: continue
        keep = _in_context(dims, ks, keep)
        if not keep: continue
        c2 = z3.And(keep) if len(keep) > 1 else keep[0]
        one, zero = (z3.IntVal(1), z3.IntVal(0)) if z3.is_int(f) else (z3.RealVal(1), z3.RealVal(0))
        out.append(z3.If(c2, one, zero))
    return _fold_ind(out, isint)

def _in_context(dims, ks, conj):
    """Comparisons inside a conjunct that are decided by the plain comparisons among the conjuncts are replaced by their value."""
    plain = [q for q in conj if _linear_atom(q) or (z3.is_eq(q) and z3.is_int(q.arg(0)))]
    if not plain: return conj
    out = []; changed = False
    for q in conj:
        if any(q is p for p in plain) or (z3.is_not(q) and z3.is_eq(q.arg(0))) or z3.is_quantifier(q): out.append(q); continue
        sub, stack, seen = [], [q], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_bool(x) and z3.is_app(x) and x.children() and z3.is_int(x.arg(0)) and (_linear_atom(x) or z3.is_eq(x)) and _noapp(x):
                for v in (True, False):
                    if holds_in_range(dims, ks, z3.Implies(z3.And(plain), x if v else z3.Not(x))): sub.append((x, z3.BoolVal(v))); break
            else: stack.extend(x.children())
        if sub:
            r = z3.simplify(z3.substitute(q, *sub)); changed = True
            if z3.is_true(r): continue
            out.extend(r.children() if z3.is_and(r) else [r])
        else: out.append(q)
    return _in_context(dims, ks, out) if changed and out else out

def _noapp(e):
    """Only constants, numbers and arithmetic."""
    return not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() for x in _subterms(e))
def _subterms(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())

def _linear_atom(q):
    if z3.is_not(q): q = q.arg(0)
    return z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_int(q.arg(0))

def canon_ineq(q):
    """Integer inequality as 0 <= linear form (a canonical positive literal)."""
    neg = z3.is_not(q); a = q.arg(0) if neg else q
    k = a.decl().kind(); x, y = a.arg(0), a.arg(1)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): x, y = y, x; strict = k == z3.Z3_OP_GT
    else: strict = k == z3.Z3_OP_LT
    # x <= y (or x < y)
    if neg: x, y, strict = y, x, not strict
    d = z3.simplify(y - x - (1 if strict else 0), som=True)
    return d >= 0

_rc = {}
def holds_in_range(dims, ks, q):
    c = cx()
    dims = [num(d) for d in dims]
    key = (id(c), len(c.pc), c.state_key(), q.get_id(), tuple(k.get_id() for k in ks), tuple(d.get_id() for d in dims))
    if key in _rc: return _rc[key][1]
    s = z3.Solver(); s.set("timeout", 2000); s.set("rlimit", 400000)
    for h in c.hyps():
        if not z3.is_quantifier(h) and _small(h): s.add(h)
    for k, d in zip(ks, dims): s.add(inr(k, d))
    s.add(z3.Not(q))
    r = s.check() == z3.unsat
    _rc[key] = (q, r, c, ks, dims); return r
_sm = {}
def _small(h):
    i = h.get_id()
    if i in _sm: return _sm[i][1]
    n, stack = 0, [h]
    while stack and n < 40:
        x = stack.pop(); n += 1
        if z3.is_quantifier(x): n = 99; break
        stack.extend(x.children())
    _sm[i] = (h, n < 40); return n < 40

_cc = {}
def canon_cmp(x):
    """Comparison of reals as p = 0, p <= 0 or p >= 0 with p's first monomial (in textual order) of coefficient 1."""
    k = x.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_real(x.arg(0)): return x
    i = x.get_id()
    if i in _cc: return _cc[i][1]
    r = x
    try:
        ms = {}
        for a, fs in _monomials(z3.simplify(x.arg(0) - x.arg(1), som=True), 20):
            fs = sorted(fs, key=lambda f: f.sexpr()); t = "*".join(f.sexpr() for f in fs)
            b = ms.get(t, (0, fs))[0] + a; ms[t] = (b, fs)
        ms = {t: v for t, v in ms.items() if v[0] != 0}
    except OverflowError: ms = {}
    if 0 < len(ms) <= 8:
        ts = sorted(ms, key=lambda t: (not ms[t][1], t)); lead = ms[ts[0]][0]
        if ms[ts[0]][1]:
            terms = []
            for t in ts:
                a, fs = ms[t]; a = a / lead
                m = fold_mul(fs, False) if fs else None
                if m is not None and z3.is_int(m): m = z3.ToReal(m)
                q = z3.Q(a.numerator, a.denominator)
                terms.append(q if m is None else (m if a == 1 else q * m))
            # one monomial on the left, the others on the right
            left = terms[0]; rest = []
            for t in ts[1:]:
                a, fs = ms[t]; a = -a / lead
                m = fold_mul(fs, False) if fs else None
                if m is not None and z3.is_int(m): m = z3.ToReal(m)
                q = z3.Q(a.numerator, a.denominator)
                rest.append(q if m is None else (m if a == 1 else q * m))
            right = z3.RealVal(0) if not rest else (rest[0] if len(rest) == 1 else z3.Sum(rest))
            if lead < 0: k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
            r = {z3.Z3_OP_LE: lambda: left <= right, z3.Z3_OP_GE: lambda: left >= right, z3.Z3_OP_LT: lambda: z3.Not(left >= right), z3.Z3_OP_GT: lambda: z3.Not(left <= right), z3.Z3_OP_EQ: lambda: left == right}[k]()
    _cc[i] = (x, r); return r

_AC = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IFF}
def acsort(e):
    """Arguments of commutative operators in textual order (z3's own order depends on term creation)."""
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            ch = [go(y) for y in x.children()]
            k = x.decl().kind()
            if k in _AC:
                if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): ch = [b for a in ch for b in (a.children() if z3.is_app(a) and a.decl().kind() == k else [a])]
                ch = sorted(ch, key=lambda c: c.sexpr())
                if k == z3.Z3_OP_ADD: r = z3.Sum(ch)
                elif k == z3.Z3_OP_MUL: r = z3.Product(ch)
                elif k == z3.Z3_OP_AND: r = z3.And(ch)
                elif k == z3.Z3_OP_OR: r = z3.Or(ch)
                else: r = ch[0] == ch[1]
            else:
                if k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SUMS: rec = SUMS[x.decl().name()]; na = len(rec.params); ch = list(_sym_args(rec, ch[:na])) + ch[na:]
                r = x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
            if k == z3.Z3_OP_EQ or k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                r2 = canon_cmp(r)
                if r2 is not r: r = go_cmp(r2)
        memo[i] = (x, r); return r
    def go_cmp(x):
        # sort the sides of a canonical comparison without canonicalizing it again
        if z3.is_not(x): return z3.Not(go_cmp(x.arg(0)))
        a, b = go(x.arg(0)), go(x.arg(1))
        if x.decl().kind() == z3.Z3_OP_EQ: return a == b
        return x.decl()(a, b)
    return go(e)

def canon_abs(e, cs):
    """|x - y| and |y - x| written alike: the leading monomial (one with the first bound variable) is positive."""
    memo = {}
    ids = [c.get_id() for c in cs]
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            ch = [go(y) for y in x.children()]
            r = x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
            if r.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(r) and not z3.is_int_value(r.arg(1)) and not z3.is_rational_value(r.arg(1)):
                p, q = r.arg(1), r.arg(2)
                if z3.is_real(p) and concrete(z3.simplify(p + q, som=True)) == 0:
                    cnd = r.arg(0); kind = cnd.decl().kind()
                    ok = False
                    if kind in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT):
                        d = z3.simplify(cnd.arg(0) - cnd.arg(1), som=True)
                        if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT): d = z3.simplify(-d, som=True)
                        if concrete(z3.simplify(d - p, som=True)) == 0: ok = True
                    if ok:
                        try: ms = _monomials(z3.simplify(p, som=True))
                        except OverflowError: ms = []
                        if ms:
                            def rank(m):
                                t = fold_mul(list(m[1]), False) if m[1] else z3.RealVal(1)
                                lead = next((j for j, i_ in enumerate(ids) if occurs(t, {i_})), len(ids))
                                return (lead, t.sexpr())
                            lead = min(ms, key=rank)
                            if lead[0] < 0: p = z3.simplify(-p, som=True)
                            else: p = z3.simplify(p, som=True)
                            r = z3.If(p >= 0, p, z3.simplify(-p, som=True))
        memo[i] = (x, r); return r
    return go(e)

def _is_ind(f):
    if f.decl().kind() != z3.Z3_OP_ITE: return False
    a, b = concrete(f.arg(1)), concrete(f.arg(2))
    return (a, b) in ((1, 0), (0, 1))

def _idem(dep):
    out, seen = [], set()
    for f in dep:
        g = f.arg(0) if f.decl().kind() == z3.Z3_OP_TO_REAL else f
        if _is_ind(g):
            if g.get_id() in seen: continue
            seen.add(g.get_id())
        out.append(f)
    return out

def _sum_core(dims, ks, core, dep, isint):
    """Sum of a product of factors all of which contain bound variables."""
    c = cx()
    # ranges of variables that do not occur: multiply
    idx = [j for j, k in enumerate(ks) if occurs(core, {k.get_id()})]
    if len(idx) < len(ks):
        mult = None
        for j in range(len(ks)):
            if j not in idx:
                dj = num(dims[j])
                if concrete(dj) is None and c.quick(dj >= 0) is not True: dj = z3.If(dj >= 0, dj, z3.IntVal(0))
                mult = dj if mult is None else mult * dj
        if not idx:
            return mult if isint else (real(mult) * core if concrete(core) != 1 else real(mult))
        s = _sum_core([dims[j] for j in idx], [ks[j] for j in idx], core, dep, isint)
        return (mult * s) if z3.is_int(s) else real(mult) * s
    # delta: factor If(k == t, a, 0) with t free of k
    for f in dep:
        g = f.arg(0) if f.decl().kind() == z3.Z3_OP_TO_REAL else f
        if g.decl().kind() != z3.Z3_OP_ITE: continue
        pos, z = (g.arg(0), g.arg(2)), None
        if concrete(g.arg(2)) == 0 and concrete(g.arg(2)) is not False: cond, val = g.arg(0), g.arg(1)
        elif concrete(g.arg(1)) == 0 and z3.is_not(g.arg(0)): cond, val = g.arg(0).arg(0), g.arg(2)
        else: continue
        conj = list(cond.children()) if z3.is_and(cond) else [cond]
        hit = None
        for q in conj:
            if z3.is_eq(q) and z3.is_int(q.arg(0)):
                for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                    for j, k in enumerate(ks):
                        if a.eq(k) and not occurs(b, {k.get_id()}): hit = (j, b, q)
                if hit is None:
                    # linear: solve q.arg(0)-q.arg(1) = 0 for some k
                    d = z3.simplify(q.arg(0) - q.arg(1), som=True)
                    for j, k in enumerate(ks):
                        t0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))), som=True)
                        t1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - t0, som=True)
                        cc = concrete(t1)
                        if cc in (1, -1) and z3.simplify(d - (cc * k + t0), som=True).eq(z3.IntVal(0)):
                            hit = (j, z3.simplify(-t0 if cc == 1 else t0), q); break
            if hit: break
        if hit:
            j, t, q = hit
            k = ks[j]
            sub = z3.simplify(z3.substitute(core, (k, t)))
            rest_k, rest_d = [x for i, x in enumerate(ks) if i != j], [x for i, x in enumerate(dims) if i != j]
            guard = inr(t, dims[j])
            zero = z3.IntVal(0) if z3.is_int(sub) else z3.RealVal(0)
            with_guard = sub
            if rest_k and occurs(guard, {x.get_id() for x in rest_k}):
                with_guard = z3.If(guard, sub, zero)
                return _sum_expr(rest_d, rest_k, normal(z3.simplify(with_guard)))
            r = _sum_expr(rest_d, rest_k, normal(sub)) if rest_k else sub
            if c.quick(guard) is True: return r
            return z3.If(guard, r, z3.IntVal(0) if z3.is_int(r) else z3.RealVal(0))
    # bijective re-indexing: k occurs only as the argument of a registered bijection over the same range
    for j, k in enumerate(ks):
        for fwd, size in c.bij:
            app = None
            ok = True
            stack, seen = [core], set()
            while stack and ok:
                x = stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().eq(fwd) and x.arg(x.num_args() - 1).eq(k):
                    if app is None: app = x
                    elif not app.eq(x): ok = False
                    continue
                if x.eq(k): ok = False; break
                stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
            # (the other arguments may contain other bound variables: for each of their values the map is a bijection)
            if ok and app is not None and same(size, dims[j]) is True and not any(occurs(a, {k.get_id()}) for a in app.children()[:-1]):
                kk = c.int("b"); c.bound_names.add(kk.decl().name())
                e2 = z3.substitute(core, (app, kk))
                ks2 = list(ks); ks2[j] = kk
                return _sum_expr(dims, ks2, e2)
    # enumeration of a mask: the sum over (k..) with mask(k..) of f(rank(k..)) is the sum of f over the ranks
    r = _unrank(dims, ks, core, dep, isint)
    if r is not None: return r
    r = _rerank(dims, ks, core, isint)
    if r is not None: return r
    # ravelled range: k in 0..a*b-1 occurring only as k/b and k%b
    for j, k in enumerate(ks):
        divs = {}
        ok = True
        stack, seen = [core], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            kind = x.decl().kind() if z3.is_app(x) else None
            if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and x.arg(0).eq(k) and not occurs(x.arg(1), {k.get_id()}):
                divs.setdefault(x.arg(1).sexpr(), [x.arg(1), []])[1].append(x)
                continue
            if x.eq(k): ok = False; break
            stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        if ok and len(divs) == 1:
            b, xs = list(divs.values())[0]
            a = c.int("b"); l = c.int("b"); c.bound_names |= {a.decl().name(), l.decl().name()}
            arange = quotient(dims[j], b)
            if arange is not None:
                e2 = z3.substitute(core, *[(x, a if x.decl().kind() == z3.Z3_OP_IDIV else l) for x in xs])
                nd, nk = list(dims), list(ks)
                nd[j:j + 1] = [arange, dim(b)]; nk[j:j + 1] = [a, l]
                return _sum_expr(nd, nk, normal(e2))
    # unravelled range: k_i, k_j occurring only as B * k_i + k_j with k_j < B
    for i in range(len(ks)):
        for j in range(len(ks)):
            if i == j: continue
            r = _ravel_pair(core, ks[i], ks[j], num(dims[j]))
            if r is not None:
                t = c.int("b"); c.bound_names.add(t.decl().name())
                nk = [k for q, k in enumerate(ks) if q not in (i, j)] + [t]; nd = [d for q, d in enumerate(dims) if q not in (i, j)] + [dim(num(dims[i]) * num(dims[j]))]
                return _sum_expr(nd, nk, normal(z3.simplify(r(t))))
    # canonical order of the bound variables: try the permutation giving the smallest key
    return _sum_app(dims, ks, core)

def _unrank(dims, ks, core, dep, isint):
    c = cx()
    for rank, cnt, mf, shape in c.masks:
        d = len(shape)
        if d > len(ks): continue
        for pos in itertools.permutations(range(len(ks)), d):
            kv = [ks[j] for j in pos]
            if not all(same(dims[j], n) is True for j, n in zip(pos, shape)): continue
            app = rank(*kv)
            if not contains(core, app): continue
            t = c.int("b"); ids = {k.get_id() for k in kv}; rest, outer, bad = [], [], False
            for f in dep:
                q = _strip_ind(f)
                f2 = z3.substitute(f, (app, t))
                if not occurs(f2, ids): rest.append(f2); continue
                if q is None: bad = True; break
                keep = []
                for x in (q.children() if z3.is_and(q) else [q]):
                    x2 = z3.substitute(x, (app, t))
                    if occurs(x2, ids): outer.append(x)
                    else: keep.append(x2)
                if keep:
                    e = z3.And(keep) if len(keep) > 1 else keep[0]
                    rest.append(z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_int(f) else z3.If(e, z3.RealVal(1), z3.RealVal(0)))
            if bad or not outer or any(occurs(x, {t.get_id()}) for x in outer): continue
            P, O = tobool(mf(*kv)), z3.And(outer) if len(outer) > 1 else outer[0]
            if not holds_in_range([dims[j] for j in pos], kv, P == O): continue
            c.bound_names.add(t.decl().name())
            nk = [k for j, k in enumerate(ks) if j not in pos] + [t]; nd = [x for j, x in enumerate(dims) if j not in pos] + [dim(cnt)]
            if not rest: rest = [z3.IntVal(1) if isint else z3.RealVal(1)]
            return _sum_expr(nd, nk, normal(z3.simplify(fold_mul(rest, isint))))
    return None

def _rerank(dims, ks, core, isint):
    """The sum over the ranks k of f(enumeration(k)) is the sum of f over the elements of the mask."""
    c = cx()
    for (rank, cnt, mf, shape), en in zip(c.masks, c.mask_enums):
        for j, k in enumerate(ks):
            apps = [e(k) for e in en]; vs = [c.int("b") for _ in en]
            sub = z3.substitute(core, *zip(apps, vs))
            if sub.eq(core) or occurs(sub, {k.get_id()}) or not occurs(sub, {v.get_id() for v in vs}): continue
            if not (num(dims[j]).eq(cnt) or same(dims[j], cnt) is True): continue
            ids = {x.get_id() for x in ks}
            if any(occurs(num(d), ids) for d in shape): continue
            for v in vs: c.bound_names.add(v.decl().name())
            P = tobool(mf(*vs)); z = z3.IntVal(0) if z3.is_int(sub) else z3.RealVal(0)
            nk = [x for i, x in enumerate(ks) if i != j] + vs; nd = [x for i, x in enumerate(dims) if i != j] + [dim(d) for d in shape]
            return _sum_expr(nd, nk, normal(z3.simplify(z3.If(P, sub, z))))
    return None

def contains(e, t):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(t): return True
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False

def _ravel_pair(core, ki, kj, B):
    """If ki and kj occur only inside integer terms of the form B*ki + kj + rest: the function t -> core with that replaced by t + rest."""
    ids = {ki.get_id(), kj.get_id()}; hits = []
    stack, seen = [core], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not occurs(x, ids): continue
        if z3.is_quantifier(x): return None
        if z3.is_int(x) and (z3.is_add(x) or z3.is_mul(x) or x.get_id() in ids):
            d = z3.simplify(x - (B * ki + kj), som=True)
            if not occurs(d, ids): hits.append((x, d)); continue
            if x.get_id() in ids: return None
        if not x.children(): return None
        stack.extend(x.children())
    if not hits: return None
    return lambda t: z3.substitute(core, *[(x, t + d) for x, d in hits])

def quotient(p, b):
    """a with p = a*b as polynomials, or None."""
    p, b = num(p), num(b)
    if same(p, b) is True: return 1
    try: ms = _monomials(z3.simplify(p, som=True))
    except OverflowError: return None
    out = []
    for a, fs in ms:
        for j, f in enumerate(fs):
            if f.eq(b):
                out.append((a, fs[:j] + fs[j + 1:])); break
        else:
            # not syntactically divisible: give up
            return None
    r = z3.IntVal(0)
    for a, fs in out:
        if a.denominator != 1: return None
        t = z3.IntVal(a.numerator)
        for f in fs: t = t * f
        r = r + t
    return dim(r)

def _symmetric(rec):
    """Pairs of parameters whose exchange leaves the summand unchanged."""
    out = []
    ps = [z3.Const(f"#{t}", p.sort()) for t, p in enumerate(rec.params)]
    for a, b in itertools.combinations(range(len(ps)), 2):
        if ps[a].sort() != ps[b].sort(): continue
        e = acsort(z3.substitute(rec.bodies[0], (ps[a], ps[b]), (ps[b], ps[a])))
        if e.eq(rec.bodies[0]): out.append((a, b))
    return out
def _sym_args(rec, args):
    if not rec.sym: return args
    args = list(args); ch = True
    while ch:
        ch = False
        for a, b in rec.sym:
            if args[a].sexpr() > args[b].sexpr(): args[a], args[b] = args[b], args[a]; ch = True
    return args

_SUMN = itertools.count(1)
SUMS = {}     # symbol name -> record (names are globally unique)
def sum_body(app, ix):
    """The summand of a SUM application at indices ix."""
    rec = SUMS[app.decl().name()]; na = len(rec.params)
    e = z3.substitute(rec.bodies[0], *[(z3.Const(f"#{t}", p.sort()), app.arg(t)) for t, p in enumerate(rec.params)])
    return z3.substitute(e, *[(q, num(i)) for q, i in zip(rec.cs, ix)])
def sum_dims(app):
    rec = SUMS[app.decl().name()]
    return [app.arg(t) for t in range(len(rec.params), app.num_args())]

def _sum_app(dims, ks, core):
    c = cx()
    best = None
    for perm in (itertools.permutations(range(len(ks))) if len(ks) <= 4 else [tuple(range(len(ks)))]):
        cs = [z3.Int(f"@{t}") for t in range(len(ks))]
        e = z3.substitute(core, *[(ks[p], cs[t]) for t, p in enumerate(perm)])
        e = acsort(canon_abs(z3.simplify(e), cs))
        ab, args = abstract(e, {x.get_id() for x in cs})
        key = (ab.sexpr(), tuple(a.sexpr() for a in args), tuple(num(dims[p]).sexpr() for p in perm))
        if best is None or key < best[0]: best = (key, ab, args, [dims[p] for p in perm], cs)
    _, ab, args, ds, cs = best
    k = ("sum", ab.sexpr(), tuple(a.sort().name() for a in args), len(ds))
    if k not in c.lib:
        f = z3.Function(f"SUM!{next(_SUMN)}", *[a.sort() for a in args], *[I] * len(ds), core.sort())
        c.lib[k] = LibRec("sum", ds, [ab], args, core.sort(), [f]); c.lib[k].cs = cs
        c.lib[k].sym = _symmetric(c.lib[k])
        SUMS[f.name()] = c.lib[k]
        _sum_axioms(c.lib[k], f, ab, args, ds, cs)
    f = c.lib[k].fns[0]
    args = _sym_args(c.lib[k], args)
    app = f(*args, *[num(d) for d in ds])
    if not any(_is_boundish(a) for a in args):
        key2 = app.get_id()
        c.apps.append(("sum", ds, [lambda *ix, e=ab, a=args, cs=cs: z3.substitute(e, *[(z3.Const(f"#{t}", x.sort()), x) for t, x in enumerate(a)], *[(q, num(i)) for q, i in zip(cs, ix)])], [lambda app=app: app], [(core.sort(), 0)]))
    return app

def _nonneg(e, depth=0):
    if e.decl().kind() == z3.Z3_OP_TO_REAL: return _nonneg(e.arg(0))
    if z3.is_int_value(e): return e.as_long() >= 0
    if z3.is_rational_value(e): return e.numerator_as_long() >= 0
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE: return _nonneg(e.arg(1)) and _nonneg(e.arg(2))
    if k == z3.Z3_OP_MUL:
        ch = list(e.children())
        # even powers
        while ch:
            x = ch.pop()
            for j, y in enumerate(ch):
                if y.eq(x): ch.pop(j); break
            else:
                if not _nonneg(x): return False
        return True
    if k == z3.Z3_OP_ADD: return all(_nonneg(x) for x in e.children())
    if k == z3.Z3_OP_POWER:
        ex = concrete(e.arg(1))
        return ex is not None and ex == int(ex) and int(ex) % 2 == 0
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(("abs", "sqrt", "exp")): return True
    return False

def _sum_axioms(rec, f, ab, args, ds, cs):
    """Nonnegative summands: the sum is nonnegative, at least each summand, and zero iff all summands are zero."""
    c = cx()
    if not _nonneg(ab): return
    ps = [z3.Const(c.name("p"), a.sort()) for a in args]
    dd = [c.int("d") for _ in ds]
    vs = [c.int("k") for _ in ds]
    body = z3.substitute(ab, *[(z3.Const(f"#{t}", p.sort()), p) for t, p in enumerate(ps)], *[(q, v) for q, v in zip(cs, vs)])
    S = f(*ps, *dd)
    rng = z3.And([inr(v, d) for v, d in zip(vs, dd)])
    sk = [z3.Function(c.name("wit"), *[p.sort() for p in ps], *[I] * len(dd), I)(*ps, *dd) for _ in ds]
    bw = z3.substitute(body, *[(v, w) for v, w in zip(vs, sk)])
    allp = ps + dd
    q = (lambda vars, f, pats: z3.ForAll(vars, f, patterns=pats) if vars else f)
    zero = 0
    c.axiom(q(allp, z3.And(S >= zero, z3.Implies(S != zero, z3.And(*[inr(w, d) for w, d in zip(sk, dd)], bw != zero))), [S]))
    pat = [S]
    full = allp + vs
    # at least each summand (instantiated on terms of the body when possible)
    try:
        cands = _patterns_for(body, vs)
        if cands: c.axiom(z3.ForAll(full, z3.Implies(rng, S >= body), patterns=[z3.MultiPattern(S, *cands)]))
        else: c.axiom(z3.ForAll(full, z3.Implies(rng, S >= body)))
    except z3.Z3Exception:
        c.axiom(z3.ForAll(full, z3.Implies(rng, S >= body)))

def _patterns_for(body, vs):
    """A set of uninterpreted applications inside body that together contain all of vs."""
    need = {v.get_id() for v in vs}
    out = []
    stack, seen = [body], set()
    found = []
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and occurs(x, need): 
            if not any(ch.decl().kind() in (z3.Z3_OP_ITE,) for ch in x.children() if z3.is_app(ch)): found.append(x)
        stack.extend(x.children())
    found.sort(key=lambda x: len(x.sexpr()))
    for x in found:
        cov = {v.get_id() for v in vs if occurs(x, {v.get_id()})}
        if cov & need:
            out.append(x); need -= cov
        if not need: return out
    return []


# --------------------------------------------------------------------------- real functions
_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]

def rabs(x):
    x = num(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return ite(x.arg(0), rabs(x.arg(1)), rabs(x.arg(2)))
    v = concrete(x)
    if v is not None: return abs(v) if isinstance(v, int) else z3.Q(abs(v).numerator, abs(v).denominator)
    return ite(x >= 0, x, -x)

def log_(x):
    c = cx(); c.assumed.add("log: strictly increasing on the positive reals, log 1 = 0")
    f = uf("log", R, R)
    if "log" not in c.ghost:
        c.ghost["log"] = True
        a, b = z3.Reals("la lb")
        c.axiom(f(z3.RealVal(1)) == 0)
        c.axiom(z3.ForAll([a, b], z3.Implies(z3.And(a > 0, a < b), f(a) < f(b)), patterns=[z3.MultiPattern(f(a), f(b))]))
    return f(acsort(z3.simplify(real(x), som=True)))

def exp_(x):
    c = cx(); c.assumed.add("exp: positive, exp x >= 1 + x with equality only at 0")
    f = uf("exp", R, R)
    if "exp" not in c.ghost:
        c.ghost["exp"] = True
        a = z3.Real("ea")
        c.axiom(z3.ForAll([a], z3.And(f(a) > 0, f(a) >= 1 + a, z3.Implies(f(a) == 1 + a, a == 0)), patterns=[f(a)]))
        c.axiom(f(z3.RealVal(0)) == 1)
    return f(acsort(z3.simplify(real(x), som=True)))

def sqrt_(x):
    c = cx(); c.assumed.add("sqrt: nonnegative, squares to its argument when that is nonnegative")
    f = uf("sqrt", R, R)
    if "sqrt" not in c.ghost:
        c.ghost["sqrt"] = True
        a = z3.Real("sa")
        c.axiom(z3.ForAll([a], z3.Implies(a >= 0, z3.And(f(a) >= 0, f(a) * f(a) == a)), patterns=[f(a)]))
    return f(acsort(z3.simplify(real(x), som=True)))

ROOTS = {}
def root_of_squares(e):
    """sqrt of a sum of squares e: its square is e."""
    r = sqrt_(e); ROOTS[r.get_id()] = (r, e); return r

def round_(x):
    c = cx(); c.assumed.add("round: within one half of its argument, identity on integers")
    f = uf("round", R, I)
    if z3.is_int(num(x)): return num(x)
    if "round" not in c.ghost:
        c.ghost["round"] = True
        a = z3.Real("ra")
        c.axiom(z3.ForAll([a], z3.And(2 * z3.ToReal(f(a)) >= 2 * a - 1, 2 * z3.ToReal(f(a)) <= 2 * a + 1), patterns=[f(a)]))
    return f(acsort(z3.simplify(real(x), som=True)))

def trunc_(x):
    """Real to integer conversion (towards zero)."""
    x = num(x)
    if z3.is_int(x): return x
    s = simp(x)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL: return s.arg(0)
    return z3.If(s >= 0, z3.ToInt(s), -z3.ToInt(-s))
