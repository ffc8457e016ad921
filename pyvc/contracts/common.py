"""Helpers for stating contracts."""
import z3
from core import *
import core, arr, interp, npmodel
from arr import Arr, SList, Buf, sym_arr, ssum
from interp import Interp, Obj, SSet, Native
from prove import Goal

def func(ip, mod, name):
    f = ip.module(mod)[name]
    return f.resolve() if hasattr(f, "resolve") else f

def call(ip, mod, name, *args, **kw):
    return ip.call(func(ip, mod, name), list(args), kw)

def size(name, lo=0):
    n = cx().const(name, I); cx().assume(n >= lo); return n

def int01(name, shape, dtype="i"):
    """An arbitrary 0/1 array (dtype b, i or f)."""
    m = sym_arr(name, shape, "b")
    if dtype == "b": return m
    return arr.astype(m, dtype)

def symmetric01(name, n, dtype="b", diag=None):
    """An arbitrary symmetric 0/1 matrix; diag: None arbitrary, True/False fixed."""
    c = cx(); g = c.fn(name, I, I, B)
    def at(i, j):
        i, j = num(i), num(j)
        lo, hi = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
        e = g(lo, hi)
        return e if diag is None else z3.If(i == j, z3.BoolVal(diag), e)
    a = arr.new((n, n), dtype, lambda i, j: arr.cast(at(i, j), dtype), name)
    return a

def shape_is(what, a, shape):
    c = cx()
    if not isinstance(a, Arr): c.oblige(f"{what}: an array", False); return False
    if a.ndim != len(shape): c.oblige(f"{what}: {len(shape)} dimensions", False); return False
    c.oblige(f"{what}: shape", AndL([num(p) == num(q) for p, q in zip(a.shape, shape)] or [True]))
    return True

def entries(what, a, spec, dtype=None):
    """Every entry of a equals spec(*idx)."""
    c = cx()
    if dtype and a.dtype != dtype: c.oblige(f"{what}: dtype {dtype}", False)
    def body(*i):
        p, q = a.at(*i), spec(*i)
        if z3.is_bool(p) or (is_z3(q) and z3.is_bool(q)) or isinstance(q, bool): return tobool(p) == tobool(q)
        return real(p) == real(q)
    pointwise(what, a.shape, body)

def pointwise(what, dims, body, kind="post"):
    """Obligation for arbitrary indices (skolemized here)."""
    c = cx()
    ks = [c.int("k") for _ in dims]
    c.local.append([inr(k, d) for k, d in zip(ks, dims)])
    try: 
        g = body(*ks)
        c.oblige(what, g, kind)
    finally: c.local.pop()

def equal(what, a, b, kind="post"):
    a, b = num(a) if not z3.is_expr(a) or not z3.is_bool(a) else a, b
    if z3.is_bool(a): cx().oblige(what, a == tobool(b), kind)
    else:
        b = num(b)
        cx().oblige(what, real(a) == real(b) if z3.is_real(a) or z3.is_real(b) else a == b, kind)

class Frame:
    """The arrays given to a call, to be compared with their contents after it."""
    def __init__(s, **arrays): s.a = {k: (v, v.buf.content, v.fn(), v.buf.version) for k, v in arrays.items()}
    def check(s):
        for k, (v, c0, f0, ver) in s.a.items():
            if v.buf.content is c0: cx().oblige(f"frame: {k} unchanged", True, "frame"); continue
            f1 = v.fn()
            pointwise(f"frame: {k} unchanged", v.shape, lambda *i: (tobool(f1(*i)) == tobool(f0(*i))) if v.dtype == "b" else f1(*i) == f0(*i), "frame")

def never(what="no exception is raised"): cx().oblige(what, False, "safety")

def returns(ip, thunk, what="returns"):
    """Runs thunk; an exception on a feasible path is a failed obligation."""
    try: return thunk()
    except PyRaise as e:
        cx().oblige(f"{what} without {e.kind} ({e.msg[:60]})", False, "safety"); raise PathEnd()

def raises(kind, thunk, what):
    try: thunk()
    except PyRaise as e:
        cx().oblige(f"{what}: {kind} (got {e.kind})", interp.exc_isa(e.kind, kind), "post"); return
    cx().oblige(f"{what}: {kind}", False, "post")

def sum_le(what, dims, f, g):
    """Rule: pointwise f <= g (an obligation) gives sum f <= sum g."""
    c = cx(); ks = [c.int("k") for _ in dims]
    c.local.append([inr(k, d) for k, d in zip(ks, dims)])
    try: c.oblige(what + " (pointwise)", num(f(*ks)) <= num(g(*ks)), "lemma")
    finally: c.local.pop()
    c.assume(ssum(dims, f) <= ssum(dims, g))

def sum_equal(what, dims, f, g):
    c = cx(); ks = [c.int("k") for _ in dims]
    c.local.append([inr(k, d) for k, d in zip(ks, dims)])
    try: c.oblige(what + " (pointwise)", num(f(*ks)) == num(g(*ks)), "lemma")
    finally: c.local.pop()
    c.assume(ssum(dims, f) == ssum(dims, g))

def sum_product(what, dims, f, p, q):
    """Rule: f(i, j) = p(i) q(j) (an obligation) gives sum f = (sum p)(sum q)."""
    sum_equal(what, dims, f, lambda i, j: num(p(i)) * num(q(j)))
    cx().assume(ssum(dims, f) == ssum(dims[:1], p) * ssum(dims[1:], q))

def given_rng(name="given"): return npmodel.Rng(name)

def flat(evs):
    """All events, those of loops and of conditions included."""
    for e in evs:
        if not isinstance(e, tuple): yield from flat(e.events)
        elif e[0] == "if": yield from flat(e[2])
        else: yield e

def rng_only(g, what="draws only from the given generator"):
    """Every random draw of this path was made from g."""
    other = [e for e in flat(cx().events) if e[0] == "rng" and e[1] != g.name]
    cx().oblige(what + (f" (not from {other[0][1]})" if other else ""), not other, "frame")

def axis_sum(f, n):
    return ssum([n], f)

class Draws:
    """Distribution of the rows of a result computed from normal draws only: the code is executed for chosen values of the draws
    (symbolically), giving the result as an affine function of them, hence its mean and covariance.
    T[draws] affine (proved) and draws independent and jointly normal => T is jointly normal with mean T[means] and covariance
    sum over the draws k of T_k applied to both arguments of the covariance kernel of draw k."""
    def __init__(s, run): s.run_ = run; s.info = None
    def run(s, content):
        """content(k, info): function of the index giving the values of draw k."""
        c = cx(); info = []
        def hook(r, tag, shape, dtype):
            if tag[0] not in ("mvn", "normal"): raise Unsupported(f"a {tag[0]} draw in a normal sample")
            k = len(info); info.append((tag, shape, r))
            return arr.new(shape, "f", lambda *i: real(content(k, tag, shape)(*[num(q) for q in i])), f"draw{k}")
        c.ghost["draw_hook"] = hook
        try: r = s.run_()
        finally: c.ghost["draw_hook"] = None
        if s.info is None: s.info = info
        elif len(info) != len(s.info): raise Unsupported("the draws depend on drawn values")
        return r
    @staticmethod
    def mean(tag):
        return (lambda *i: real(tag[2](i[-1]))) if tag[0] == "mvn" else (lambda *i: z3.RealVal(0))
    @staticmethod
    def kernel(tag, i, j):
        if tag[0] == "mvn": return z3.If(AndL([p == q for p, q in zip(i[:-1], j[:-1])] or [True]), real(tag[3](i[-1], j[-1])), z3.RealVal(0))
        return z3.If(AndL([p == q for p, q in zip(i, j)] or [True]), z3.RealVal(1), z3.RealVal(0))

def normal_rows(run, n, p, mean, cov, gen):
    """run() returns an (n, p) array of independent normal rows with this mean(i) and cov(i, j)."""
    c = cx(); zero = lambda k, t, sh: (lambda *i: z3.RealVal(0))
    D = Draws(run)
    fs, gs = {}, {}
    def sym(tab, nm):
        def content(k, t, sh):
            if k not in tab: tab[k] = c.fn(f"{nm}{k}", *[I] * len(sh), R)
            return lambda *i: tab[k](*i) if len(i) else tab[k]()
        return content
    F, G = sym(fs, "draw"), sym(gs, "other")
    r0 = D.run(zero)
    if not shape_is("sample", r0, (n, p)): return
    c.oblige("the sample is random", len(D.info) > 0)
    c.oblige("all draws come from the model's generator", all(r is gen for _, _, r in D.info))
    o, j = c.int("o"), c.int("j"); c.assume(inr(o, n), inr(j, p))
    z = real(r0.at(o, j)); a, b = c.const("alpha", R), c.const("beta", R)
    rf, rg = real(D.run(F).at(o, j)), real(D.run(G).at(o, j))
    rc = real(D.run(lambda k, t, sh: (lambda *i: a * F(k, t, sh)(*i) + b * G(k, t, sh)(*i))).at(o, j))
    equal("the sample is an affine function of the normal draws, hence jointly normal", rc - z, a * (rf - z) + b * (rg - z))
    equal("mean", real(D.run(lambda k, t, sh: D.mean(t)).at(o, j)), mean(j))
    q, i = c.int("o2"), c.int("i"); c.assume(inr(q, n), inr(i, p)); z2 = real(r0.at(q, i)); total = z3.RealVal(0)
    for k, (tag, sh, _) in enumerate(D.info):
        x = [c.int("x") for _ in sh]; c.assume(*[inr(u, d) for u, d in zip(x, sh)])
        # the tag of this run: mean and covariance arguments are the same in every run
        g = real(D.run(lambda m, t, s_: (lambda *y: D.kernel(t, x, y)) if m == k else zero(m, t, s_)).at(q, i)) - z2
        h = real(D.run(lambda m, t, s_: (lambda *y: z3.substitute(g, *zip(x, y)) if y else g) if m == k else zero(m, t, s_)).at(o, j)) - z
        total = total + h
    c.oblige("rows are independent", z3.Implies(o != q, total == 0))
    c.oblige("covariance", z3.Implies(o == q, total == real(cov(i, j))))
