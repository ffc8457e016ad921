"""Symbolic NumPy arrays: shape (ints or z3 Ints), dtype b/i/f, contents as a function of index expressions.

A Buf owns contents and is mutable; an Arr is a view on a Buf: per buffer axis either ('fix', e) or ('ax', axis, start, step).
Reading an expression from an Arr builds a fresh, unaliased Arr over the contents at that time (NumPy value semantics);
basic slicing, transposition and diagonal access give views with write-through."""
import z3, itertools
from core import *
import core

DT = {bool: "b", int: "i", float: "f"}
RANK = {"b": 0, "i": 1, "f": 2}

def cast(e, dt):
    if dt == "b": return tobool(e)
    if dt == "i":
        if isinstance(e, z3.ExprRef) and z3.is_real(e): return trunc_(e)
        if isinstance(e, float): return num(int(e))
        return num(e)
    if dt == "f": return real(e)
    raise Unsupported(f"dtype {dt}")

def dtype_of_scalar(x):
    if isinstance(x, bool): return "b"
    if isinstance(x, int): return "i"
    if isinstance(x, float): return "f"
    if is_z3(x): return "b" if z3.is_bool(x) else "i" if z3.is_int(x) else "f"
    raise Unsupported(f"no dtype for {type(x).__name__}")

def under(cond, thunk):
    """thunk() with cond assumed; what is learnt meanwhile is kept under that condition."""
    k = cx(); k.local.append([cond])
    try: r = thunk()
    finally: fs = k.local.pop()[1:]
    for f in fs: k.assume(z3.Implies(cond, f))
    return r

class Buf:
    _n = 0
    def __init__(s, shape, dtype, content, name=None):
        s.shape, s.dtype, s.content, s.name = tuple(dim(d) for d in shape), dtype, content, name
        s.version = 0; s.memo = {}
        Buf._n += 1; s.id = Buf._n
        s.frozen_by = None
    def get(s, idx):
        idx = tuple(num(i) for i in idx)
        key = tuple(i.get_id() for i in idx) + (cx().state_key(),)
        m = s.memo.get(key)
        if m is not None and m[0] is s.content: return m[2]
        r = cast(s.content(*idx), s.dtype)
        s.memo[key] = (s.content, idx, r)
        return r
    def snap(s):
        c = s.content
        memo = {}
        def f(*idx):
            idx = tuple(num(i) for i in idx)
            key = tuple(i.get_id() for i in idx) + (cx().state_key(),)
            if key in memo: return memo[key][1]
            r = cast(c(*idx), s.dtype)
            memo[key] = (idx, r)
            return r
        return f
    def store(s, cond_val):
        """cond_val(idx) -> (condition, value); writes value where condition holds."""
        old, dt = s.content, s.dtype; guards = getattr(cx(), "guards", ())      # conditions of the branches being executed
        def new(*idx):
            c, v = cond_val(*idx)
            if guards: c = z3.And(*guards, tobool(c))
            c = simp(tobool(c)) if is_z3(c) else z3.BoolVal(bool(c))
            if z3.is_false(c): return cast(old(*idx), dt)
            if z3.is_true(c): return cast(v() if callable(v) else v, dt)
            if cx().local:
                q = cx().quick(c)
                if q is not None: return cast((v() if callable(v) else v) if q else old(*idx), dt)
            return ite(c, under(c, lambda: cast(v() if callable(v) else v, dt)), under(z3.Not(c), lambda: cast(old(*idx), dt)))
        s.content = new; s.version += 1
        hook = getattr(cx(), "store_hook", None)
        if hook: hook(s)

class Arr:
    __slots__ = ("buf", "shape", "map", "meta")
    def __init__(s, buf, shape=None, map=None):
        s.buf = buf
        s.shape = buf.shape if shape is None else tuple(dim(d) for d in shape)
        s.map = [("ax", k, 0, 1) for k in range(len(buf.shape))] if map is None else map
        s.meta = {}
    @property
    def dtype(s): return s.buf.dtype
    @property
    def ndim(s): return len(s.shape)
    def bidx(s, idx):
        out = []
        for m in s.map:
            if m[0] == "fix": out.append(num(m[1]))
            else:
                e = num(idx[m[1]])
                if m[3] != 1: e = e * m[3]
                out.append(z3.simplify(num(m[2]) + e) if not (isinstance(m[2], int) and m[2] == 0 and m[3] == 1) else e)
        return out
    def at(s, *idx):
        return s.buf.get(s.bidx(idx))
    def fn(s):
        """Contents now, as a function (snapshot)."""
        f = s.buf.snap()
        return lambda *idx: f(*s.bidx(idx))
    def scalar(s):
        if s.ndim != 0: raise Unsupported("array used as scalar")
        return s.at()
    def set_view(s, value_at):
        """Write-through: self[idx] = value_at(idx)."""
        s.store_view(lambda *i: (z3.BoolVal(True), lambda: value_at(*i)))
    def store_view(s, cond_val):
        """As Buf.store, through the view: cond_val takes indices of the view."""
        def cv(*b):
            conds, idx = [], [None] * s.ndim
            for m, e, d in zip(s.map, b, s.buf.shape):
                if m[0] == "fix": conds.append(num(e) == num(m[1]))
                else:
                    if m[3] == 1: i = num(e) - num(m[2]) if not (isinstance(m[2], int) and m[2] == 0) else num(e)
                    elif m[3] == -1: i = num(m[2]) - num(e)
                    else: raise Unsupported("store through a strided view")
                    i = z3.simplify(i)
                    if idx[m[1]] is None: idx[m[1]] = i
                    else: conds.append(idx[m[1]] == i)      # diagonal view
                    if not (isinstance(m[2], int) and m[2] == 0 and m[3] == 1 and same(s.shape[m[1]], d) is True):
                        conds.append(inr(i, s.shape[m[1]]))
            idx = [z3.IntVal(0) if i is None else i for i in idx]
            at = z3.And(conds) if conds else z3.BoolVal(True); cond, v = under(at, lambda: cond_val(*idx))
            return (at if z3.is_true(z3.simplify(tobool(cond))) else z3.And(at, tobool(cond))), v
        s.buf.store(cv)
    def __repr__(s): return f"Arr{s.shape}{s.dtype}"

class SList:
    """Python sequence of symbolic length with element function."""
    def __init__(s, n, at, mutable=True): s.n, s.at_, s.mutable = dim(n), at, mutable
    def at(s, k): return s.at_(k)

class SIter(SList):
    """One-shot iterable of symbolic length (range, zip, generator...)."""

def new(shape, dtype, content, name=None):
    return Arr(Buf(shape, dtype, content, name))

def const_arr(shape, dtype, v):
    v = cast(v, dtype)
    return new(shape, dtype, lambda *i: v)

def sym_arr(name, shape, dtype):
    """An arbitrary array."""
    c = cx(); lv = list(getattr(c, "loop_vars", ()))      # inside a summarized loop: a new array in every iteration
    f = c.fn(name, *[I] * (len(lv) + len(shape)), {"b": B, "i": I, "f": R}[dtype])
    a = new(shape, dtype, lambda *i: f(*lv, *[num(x) for x in i]), name)
    a.meta["sym"] = f
    return a

def from_py(x, dtype=None):
    """NumPy array of (nested) Python sequences / scalars."""
    if isinstance(x, Arr): return astype(x, dtype) if dtype else copy(x)
    if isinstance(x, (bool, int, float)) or is_z3(x):
        dt = dtype or dtype_of_scalar(x)
        return const_arr((), dt, x)
    if isinstance(x, SList):
        with bound(x.n) as (k,): e0 = x.at(k)
        if isinstance(e0, (list, tuple)) and any(isinstance(v, Arr) and v.ndim for v in e0):
            xs = x; x = SList(x.n, lambda k: from_py(list(xs.at(k))))
            with bound(x.n) as (k,): e0 = x.at(k)
        if isinstance(e0, Arr):
            shape = list(e0.shape); dt = dtype or e0.dtype
            for t, d in enumerate(shape):
                if not isinstance(d, int) and occurs(d, {k.get_id()}): unit_length(x, t); shape[t] = 1
        elif isinstance(e0, (list, tuple)):
            dt = dtype or max((dtype_of_scalar(v) for v in e0), key=RANK.get); m = len(e0)
            def f(k, j):
                vs = [cast(v, dt) for v in x.at(k)]
                r = vs[-1]
                for t in range(len(vs) - 2, -1, -1): r = ite(num(j) == t, vs[t], r)
                return r
            return new((x.n, m), dt, f)
        else: shape = (); dt = dtype or dtype_of_scalar(e0)
        def f(k, *r):
            e = x.at(k)
            return e.at(*r) if isinstance(e, Arr) else e
        fz = f
        return new((x.n,) + tuple(shape), dt, lambda *i: cast(fz(*i), dt))
    if isinstance(x, (list, tuple)):
        if not x: return const_arr((0,), dtype or "f", 0)
        parts = [from_py(v, dtype) for v in x]
        dt = dtype or max((p.dtype for p in parts), key=RANK.get)
        sh = parts[0].shape
        for p in parts[1:]: check_same_shape(p.shape, sh)
        fs = [p.fn() for p in parts]
        def f(k, *r):
            c = concrete(k)
            if c is not None and 0 <= c < len(fs): return cast(fs[c](*r), dt)
            v = cast(fs[-1](*r), dt)
            for t in range(len(fs) - 2, -1, -1): v = ite(num(k) == t, cast(fs[t](*r), dt), v)
            return v
        return new((len(x),) + sh, dt, f)
    raise Unsupported(f"array from {type(x).__name__}")

def unit_length(x, t):
    """The elements of x are arrays whose length along axis t is not the same by construction: they are shown to have length 1."""
    c = cx(); k = c.int("k"); c.local.append([inr(k, x.n)])
    try:
        d = num(x.at(k).shape[t])
        for (rank, cnt, f, sh), en in zip(c.masks, c.mask_enums):
            if len(sh) == 1 and cnt.eq(d):
                e0, e1 = en[0](0), en[0](1); i = c.int("i")
                c.assume(z3.Implies(cnt >= 1, z3.And(inr(e0, sh[0]), tobool(f(e0)))), z3.Implies(cnt >= 2, z3.And(inr(e1, sh[0]), tobool(f(e1)), e0 < e1)))
                with bound(sh[0]) as (i,): P = tobool(f(i))
                c.assume(z3.Implies(cnt <= 0, z3.ForAll([i], z3.Implies(inr(i, sh[0]), z3.Not(P)))))
                break
        c.require("rows of an array have the same length", d == 1)
    finally: c.local.pop()
    fact = z3.Implies(inr(k, x.n), d == 1)      # as just shown for any k
    try: q = z3.ForAll([k], fact, patterns=[d])
    except z3.Z3Exception: q = z3.ForAll([k], fact)
    c.axiom(q)

def check_same_shape(a, b):
    if len(a) != len(b): raise PyRaise("ValueError", "shapes")
    for p, q in zip(a, b): req_same(p, q)

def req_same(p, q, what="dimensions agree"):
    r = same(p, q)
    if r is True: return
    if r is False: raise PyRaise("ValueError", f"{what}: {p} vs {q}")
    cx().require(what, num(p) == num(q))

def lift(x):
    if isinstance(x, Arr): return x
    if isinstance(x, (bool, int, float)) or is_z3(x): return const_arr((), dtype_of_scalar(x), x)
    if isinstance(x, (list, tuple, SList)): return from_py(x)
    raise Unsupported(f"operand {type(x).__name__}")

def bshape(*shs):
    n = max(map(len, shs)); out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shs if len(s) - n + k >= 0]
        non1 = [d for d in ds if not (isinstance(d, int) and d == 1)]
        if not non1: out.append(1); continue
        for d in non1[1:]: req_same(non1[0], d, "operands broadcast")
        out.append(non1[0])
    return tuple(out)

def baccess(a, n):
    """Contents of a broadcast to n dimensions."""
    f, off, sh = a.fn(), n - a.ndim, a.shape
    return lambda *i: f(*[z3.IntVal(0) if isinstance(d, int) and d == 1 else i[off + k] for k, d in enumerate(sh)])

def ewise(op, dt, *args):
    """Elementwise operation.  Scalars stay scalars."""
    if not any(isinstance(a, Arr) and a.ndim for a in args):
        vs = [a.scalar() if isinstance(a, Arr) else a for a in args]
        return cast(op(*vs), dt) if dt else op(*vs)
    A = [lift(a) for a in args]
    sh = bshape(*[a.shape for a in A])
    fs = [baccess(a, len(sh)) for a in A]
    if dt is None: dt = max((a.dtype for a in A), key=RANK.get)
    d = dt
    return new(sh, d, lambda *i: cast(op(*[f(*i) for f in fs]), d))

def astype(a, dt):
    f = a.fn()
    return new(a.shape, dt, lambda *i: cast(f(*i), dt))

def copy(a):
    f = a.fn(); r = new(a.shape, a.dtype, f)
    if "at" in a.meta: r.meta["at"] = a.meta["at"]      # a hint where values are; holds no claim
    return r

def transpose(a, perm=None):
    n = a.ndim
    perm = list(range(n))[::-1] if perm is None else list(perm)
    inv = [perm.index(k) for k in range(n)]
    m = [(x if x[0] == "fix" else ("ax", inv[x[1]], x[2], x[3])) for x in a.map]
    r = Arr(a.buf, [a.shape[p] for p in perm], m); r.meta = dict(a.meta); return r

def size(a):
    r = 1
    for d in a.shape: r = r * d if isinstance(r, int) and isinstance(d, int) else num(r) * num(d)
    return dim(r)

def prod(ds):
    r = 1
    for d in ds: r = r * d if isinstance(r, int) and isinstance(d, int) else num(r) * num(d)
    return dim(r)

# ------------------------------------------------------------------ arithmetic
def _arith(f):
    def op(a, b):
        a, b = num(a), num(b)
        if a.sort() != b.sort(): a, b = real(a), real(b)
        return f(a, b)
    return op

def floordiv(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) and z3.is_int(b):
        c = concrete(b)
        if c is None:
            if cx().quick(b > 0) is not True: cx().require("divisor positive", b > 0)
        elif c < 0: raise Unsupported("floor division by a negative number")
        elif c == 0: raise PyRaise("ZeroDivisionError")
        return a / b
    return z3.ToReal(z3.ToInt(real(a) / real(b)))

def mod(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) and z3.is_int(b):
        c = concrete(b)
        if c is None:
            if cx().quick(b > 0) is not True: cx().require("divisor positive", b > 0)
        elif c <= 0: raise Unsupported("modulus not positive")
        return a % b
    raise Unsupported("real modulus")

def truediv(a, b):
    a, b = real(a), real(b)
    return a / b

def power(a, b):
    a = num(a); e = concrete(b)
    if e is None: raise Unsupported("symbolic exponent")
    if e == 0.5: return sqrt_(a)
    if e == int(e) and 0 < e <= 8 and e % 2 == 0 and a.get_id() in ROOTS: return power(ROOTS[a.get_id()][1], e / 2)
    if e == int(e) and 0 <= e <= 8:
        r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
        for k in range(int(e)): r = a if k == 0 else r * a
        return r
    if e == -1: return real(1) / real(a)
    if e == -2: return real(1) / (real(a) * real(a))
    if e == -0.5: return real(1) / sqrt_(a)
    raise Unsupported(f"power {e}")

_add, _sub, _mul = _arith(lambda a, b: a + b), _arith(lambda a, b: a - b), _arith(lambda a, b: a * b)

def binop(op, a, b):
    A = [x for x in (a, b)]
    dts = [x.dtype if isinstance(x, Arr) else dtype_of_scalar(x) if not isinstance(x, (list, tuple, SList)) else from_py(x).dtype for x in A]
    arr = any(isinstance(x, Arr) for x in A)
    bb = dts == ["b", "b"]
    mx = max(dts, key=RANK.get)
    if op == "+":
        if bb and arr: return ewise(lambda x, y: z3.Or(tobool(x), tobool(y)), "b", a, b)
        return ewise(_add, mx if mx != "b" else "i", a, b)
    if op == "*":
        if bb and arr: return ewise(lambda x, y: z3.And(tobool(x), tobool(y)), "b", a, b)
        return ewise(_mul, mx if mx != "b" else "i", a, b)
    if op == "-":
        if bb and arr: raise PyRaise("TypeError", "numpy boolean subtract")
        return ewise(_sub, mx if mx != "b" else "i", a, b)
    if op == "/": return ewise(truediv, "f", a, b)
    if op == "//": return ewise(floordiv, mx if mx != "b" else "i", a, b)
    if op == "%": return ewise(mod, mx if mx != "b" else "i", a, b)
    if op == "**": return ewise(power, ("f" if isinstance(b, float) else mx) if mx != "b" else "i", a, b)
    if op in "&|^":
        if "f" in dts: raise PyRaise("TypeError", "bitwise on float")
        if bb:
            f = {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op]
            return ewise(lambda x, y: f(tobool(x), tobool(y)), "b", a, b)
        raise Unsupported("bitwise on ints")
    raise Unsupported(f"operator {op}")

def cmp(op, a, b):
    def f(x, y):
        if op in ("==", "!="):
            if (z3.is_bool(x) if is_z3(x) else isinstance(x, bool)) and (z3.is_bool(y) if is_z3(y) else isinstance(y, bool)):
                e = tobool(x) == tobool(y)
            else:
                x, y = num(x), num(y)
                if x.sort() != y.sort(): x, y = real(x), real(y)
                e = x == y
            return e if op == "==" else z3.Not(e)
        x, y = num(x), num(y)
        if x.sort() != y.sort(): x, y = real(x), real(y)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    return ewise(f, "b", a, b)

def neg(a):
    if isinstance(a, Arr) and a.dtype == "b": raise PyRaise("TypeError", "numpy boolean negative")
    return ewise(lambda x: -num(x), None if isinstance(a, Arr) else None, a)

def invert(a):
    dt = a.dtype if isinstance(a, Arr) else dtype_of_scalar(a)
    if dt == "b": return ewise(lambda x: z3.Not(tobool(x)), "b", a)
    if dt == "i": return ewise(lambda x: -num(x) - 1, "i", a)
    raise PyRaise("TypeError", "invert float")

# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None: return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)): ax = tuple(int(concrete(x)) for x in axis)
    else: ax = (int(concrete(axis)),)
    ax = tuple(x + a.ndim if x < 0 else x for x in ax)
    for x in ax:
        if not 0 <= x < a.ndim: raise PyRaise("AxisError", "axis")
    return ax

def reduce_(a, axis, fn, dt, keepdims=False):
    """fn(dims, body) over the reduced axes."""
    ax = _axes(a, axis); f = a.fn(); sh = a.shape
    keep = [k for k in range(a.ndim) if k not in ax]
    def at(*i):
        i = list(i)
        if keepdims: i = [i[k] for k in keep]
        def body(*ks):
            idx = [None] * len(sh)
            for k, v in zip(keep, i): idx[k] = v
            for k, v in zip(ax, ks): idx[k] = v
            return f(*idx)
        return fn([sh[k] for k in ax], body)
    out = [1 if k in ax else sh[k] for k in range(len(sh))] if keepdims else [sh[k] for k in keep]
    if not out: return cast(at(), dt)
    return new(out, dt, at)

def sum_(a, axis=None, keepdims=False):
    a = lift(a)
    return reduce_(a, axis, lambda ds, b: ssum(ds, lambda *k: num(b(*k))), "i" if a.dtype in "bi" else "f", keepdims)

def mean(a, axis=None, keepdims=False):
    a = lift(a); ax = _axes(a, axis)
    n = prod([a.shape[k] for k in ax])
    return binop("/", sum_(a, axis, keepdims), n)

def any_(a, axis=None, keepdims=False):
    a = lift(a)
    return reduce_(a, axis, lambda ds, b: exists(ds, lambda *k: tobool(b(*k))), "b", keepdims)

def all_(a, axis=None, keepdims=False):
    a = lift(a)
    return reduce_(a, axis, lambda ds, b: forall(ds, lambda *k: tobool(b(*k))), "b", keepdims)

def matmul(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim and b.ndim: pass
    else: raise PyRaise("ValueError", "matmul of scalars")
    dt = max(a.dtype, b.dtype, key=RANK.get)
    fa, fb = a.fn(), b.fn()
    ka, kb = a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0]
    req_same(ka, kb, "matrix product dimensions agree")
    la, lb = list(a.shape[:-1]), ([b.shape[-1]] if b.ndim > 1 else [])
    if a.ndim > 2 or b.ndim > 2: raise Unsupported("batched matmul")
    def at(*i):
        ia, ib = i[:len(la)], i[len(la):]
        if dt == "b": return exists([ka], lambda k: z3.And(tobool(fa(*ia, k)), tobool(fb(k, *ib))))
        return ssum([ka], lambda k: _mul(fa(*ia, k), fb(k, *ib)))
    if not la and not lb: return cast(at(), dt)
    return new(la + lb, dt, at)

# ------------------------------------------------------------------ indexing
class Slice:
    def __init__(s, a, b, c): s.a, s.b, s.c = a, b, c

def norm_slice(sl, n):
    """(start, length, step) of a slice over a dimension n."""
    st = 1 if sl.c is None else concrete(sl.c)
    if st == -1 and sl.a is None and sl.b is None: return (dim(num(n) - 1), n, -1)
    if st != 1: raise Unsupported("slice step")
    def clip(v, default):
        if v is None: return default
        v = dim(v)
        if isinstance(v, int) and isinstance(n, int):
            return max(0, n + v) if v < 0 else min(v, n)
        if isinstance(v, int) and v == 0: return 0
        if isinstance(v, int) and v < 0:
            e = num(n) + v
            return dim(e) if cx().quick(e >= 0) is True else dim(z3.If(e >= 0, e, z3.IntVal(0)))
        e, q = num(v), cx().quick
        if q(e < 0) is not False:
            if q(e >= 0) is not True: e = z3.If(e < 0, z3.If(num(n) + e < 0, z3.IntVal(0), num(n) + e), e)
        if q(e <= num(n)) is True: return dim(e)
        return dim(z3.If(e > num(n), num(n), e))
    a, b = clip(sl.a, 0), clip(sl.b, n)
    if isinstance(a, int) and a == 0: return (0, b, 1)
    ln = dim(num(b) - num(a))
    if isinstance(ln, int): return (a, max(0, ln), 1)
    if cx().quick(num(ln) >= 0) is not True: ln = dim(z3.If(num(b) >= num(a), num(b) - num(a), z3.IntVal(0)))
    return (a, ln, 1)

def norm_index(i, n, what="index in range"):
    """Nonnegative index for a scalar subscript, with the bounds obligation."""
    i = dim(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: raise PyRaise("IndexError", f"index {i} out of bounds for {n}")
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0:
        r = dim(num(n) + i)
        _bounds(r, n, what); return r
    _bounds(i, n, what)
    return i

def _bounds(i, n, what):
    c = cx()
    g = inr(i, n)
    q = c.quick(g)
    if q is True: return
    if c.opts.get("index_raises"):       # out-of-range subscripts are observable behaviour here
        if not c.branch(g): raise PyRaise("IndexError", what)
        return
    if q is False: raise PyRaise("IndexError", what)
    if num(i).decl().kind() != z3.Z3_OP_UNINTERPRETED or True: c.require(what, g)

def getitem(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = expand_key(a, key)
    adv = [k for k in key if isinstance(k, Arr)]
    if not adv: return basic(a, key)
    if len(adv) == 1 and adv[0].dtype == "b" and adv[0].ndim == a.ndim and len(key) == 1: return mask_get(a, adv[0])
    # 1-d boolean masks act as their flatnonzero
    key = [flatnonzero(k) if isinstance(k, Arr) and k.dtype == "b" and k.ndim == 1 else k for k in key]
    if any(isinstance(k, Arr) and k.dtype == "b" for k in key): raise Unsupported("mask in a mixed subscript")
    return fancy_get(a, key)

def expand_key(a, key):
    key = [from_py(list(k) if isinstance(k, tuple) else k) if isinstance(k, (list, tuple, SList)) else k for k in key]
    key = [k.scalar() if isinstance(k, Arr) and k.ndim == 0 else k for k in key]
    used = sum((k.ndim if isinstance(k, Arr) and k.dtype == "b" else 1) for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if not isinstance(k, Arr) and not is_z3(k)]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + [Slice(None, None, None)] * (a.ndim - used) + key[p + 1:]
    else: key = key + ([Slice(None, None, None)] * (a.ndim - used) if not (len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == "b") else [Slice(None, None, None)] * (a.ndim - used))
    if used > a.ndim: raise PyRaise("IndexError", "too many indices")
    return key

def basic(a, key):
    """View."""
    ax, shape, sub = 0, [], {}
    for k in key:
        if k is None: shape.append(1); continue
        n = a.shape[ax]
        if isinstance(k, Slice):
            st, ln, step = norm_slice(k, n)
            sub[ax] = ("ax", len(shape), st, step); shape.append(ln)
        else:
            if is_z3(k) and z3.is_bool(k) or isinstance(k, bool): raise Unsupported("boolean scalar subscript")
            sub[ax] = ("fix", norm_index(k, n))
        ax += 1
    m = []
    for x in a.map:
        if x[0] == "fix": m.append(x); continue
        y = sub[x[1]]
        if y[0] == "fix": m.append(("fix", dim(num(x[2]) + num(y[1]) * x[3])))
        else: m.append(("ax", y[1], dim(num(x[2]) + num(y[2]) * x[3]), x[3] * y[3]))
    r = Arr(a.buf, shape, m)
    if not shape: return r.at()
    return r

def fancy_get(a, key):
    """Integer-array subscripts (with slices and scalars): a copy."""
    # scalars broadcast with the index arrays
    arrs = [(j, lift(k)) for j, k in enumerate(key) if isinstance(k, Arr) or (k is not None and not isinstance(k, Slice))]
    js = [j for j, _ in arrs]
    contiguous = js == list(range(js[0], js[-1] + 1))
    bsh = bshape(*[k.shape for _, k in arrs])
    f = a.fn()
    acc = {j: baccess(k, len(bsh)) for j, k in arrs}
    ax = 0; axis_of = {}
    for j, k in enumerate(key):
        if k is None: raise Unsupported("newaxis with index arrays")
        axis_of[j] = ax; ax += 1
    for j, k in arrs: idx_bounds(k, a.shape[axis_of[j]])
    sls = {j: norm_slice(k, a.shape[axis_of[j]]) for j, k in enumerate(key) if isinstance(k, Slice)}
    pre = [j for j in range(len(key)) if j in sls and contiguous and j < js[0]] if contiguous else []
    post = [j for j in range(len(key)) if j in sls and j not in pre]
    shape = [sls[j][1] for j in pre] + list(bsh) + [sls[j][1] for j in post]
    negs = {j: _maybe_neg(k) for j, k in arrs}
    def at(*i):
        ip, ib, io = i[:len(pre)], i[len(pre):len(pre) + len(bsh)], i[len(pre) + len(bsh):]
        idx = [None] * len(key)
        for j, v in zip(pre, ip): idx[j] = num(sls[j][0]) + v * sls[j][2]
        for j, v in zip(post, io): idx[j] = num(sls[j][0]) + v * sls[j][2]
        for j, _ in arrs:
            e = num(acc[j](*ib))
            idx[j] = z3.simplify(e)
        return f(*idx)
    return new(shape, a.dtype, at)

def _maybe_neg(k): return False

def idx_bounds(k, n):
    """Every entry of the index array is a valid subscript (negative entries are not modelled)."""
    c = cx()
    if k.meta.get("below") is not None and same(k.meta["below"], n) is True: return
    if k.ndim == 0: return norm_index(k.at(), n)
    f = k.fn()
    with bound(*k.shape) as vs:
        g = inr(f(*vs), n)
        ok = c.quick(g)
    if ok is True: return
    c.require("index array in range", forall(k.shape, lambda *v: inr(f(*v), n)))

def rank_of_mask(m):
    """(count, rank, enum): the row-major numbering of the true entries of a boolean array."""
    f = m.fn(); c = cx(); d = m.ndim
    c.assumed.add("boolean-mask subscripts and nonzero enumerate the true entries once each in row-major order")
    def facts(fs, ds, body):
        cnt, rank, *en = fs
        k, k2 = c.int("k"), c.int("k")
        vs = [c.int("v") for _ in range(d)]
        P = tobool(body(*vs))
        rng = z3.And([inr(v, x) for v, x in zip(vs, ds)])
        out = [([], [cnt()], cnt() >= 0)]
        out.append((vs, [rank(*vs)], z3.Implies(z3.And(rng, P), z3.And(inr(rank(*vs), cnt()), *[e(rank(*vs)) == v for e, v in zip(en, vs)]))))
        ev = [e(k) for e in en]
        out.append(([k], [e(k) for e in en], z3.Implies(inr(k, cnt()), z3.And(*[inr(e, x) for e, x in zip(ev, ds)], tobool(body(*ev)), rank(*ev) == k))))
        # order
        ev2 = [e(k2) for e in en]
        lex = z3.BoolVal(False)
        for t in range(d - 1, -1, -1): lex = z3.Or(ev[t] < ev2[t], z3.And(ev[t] == ev2[t], lex)) if t < d - 1 else ev[t] < ev2[t]
        out.append(([k, k2], [z3.MultiPattern(en[0](k), en[0](k2))], z3.Implies(z3.And(k >= 0, k < k2, k2 < cnt()), lex)))
        return out
    fs = lib_term(f"nonzero{d}", m.shape, [lambda *i: tobool(f(*i))], [(I, 0), (I, d)] + [(I, 1)] * d, facts)
    c.assume(fs[0]() >= 0)
    if not any(cnt.eq(fs[0]()) and x.eq(fs[1](*[z3.Int(f"@m{t}") for t in range(d)])) for _, cnt, _, _, x in c.masks_ if True):
        c.masks_.append((None, fs[0](), None, None, fs[1](*[z3.Int(f"@m{t}") for t in range(d)]))); c.masks.append((fs[1], fs[0](), f, m.shape)); c.mask_enums.append(fs[2:])
    return fs[0](), fs[1], fs[2:]

def count_is_sum(m):
    cnt, rank, en = rank_of_mask(m)
    s = ssum(m.shape, lambda *i, f=m.fn(): num(f(*i)))
    cx().assumed.add("the number of true entries is the sum of the array")
    if not (is_z3(s) and s.eq(cnt)): cx().assume(num(s) == cnt)
    return cnt, rank, en

def flatnonzero(m):
    m = astype(lift(m), "b")
    if m.ndim != 1: raise Unsupported("flatnonzero of a matrix")
    cnt, rank, en = rank_of_mask(m)
    r = new((cnt,), "i", lambda k: en[0](k))
    r.meta["below"] = m.shape[0]; r.meta["mask"] = (m, rank)
    return r

def nonzero(m):
    m = astype(lift(m), "b")
    if m.ndim == 0: raise Unsupported("nonzero of scalar")
    cnt, rank, en = rank_of_mask(m)
    out = []
    for t in range(m.ndim):
        r = new((cnt,), "i", lambda k, e=en[t]: e(k)); r.meta["below"] = m.shape[t]; r.meta["nz"] = (m, rank, t)
        out.append(r)
    return tuple(out)

def mask_get(a, m):
    check_same_shape(a.shape, m.shape)
    cnt, rank, en = rank_of_mask(m)
    f = a.fn()
    r = new((cnt,), a.dtype, lambda k: f(*[e(k) for e in en]))
    r.meta["mask"] = (m, rank)
    if "at" in a.meta: r.meta["at"] = lambda v, h=a.meta["at"]: rank(h(v))
    return r

def setitem(a, key, val):
    if not isinstance(key, tuple): key = (key,)
    key = expand_key(a, key)
    adv = [k for k in key if isinstance(k, Arr)]
    if not adv:
        ax, shape, sub = 0, [], {}
        v = basic(a, key) if True else None
        if not isinstance(v, Arr):
            # a single element
            idx = []
            for j, k in enumerate(key): idx.append(norm_index(k, a.shape[j]))
            val = val.scalar() if isinstance(val, Arr) and val.ndim == 0 else val
            if isinstance(val, Arr):
                if all(same(d, 1) is True for d in val.shape): val = val.at(*[z3.IntVal(0)] * val.ndim)
                else: raise PyRaise("ValueError", "setting an element with a sequence")
            b = a.bidx(idx)
            cval = cast(val, a.dtype)
            a.buf.store(lambda *i: (z3.And([num(x) == num(y) for x, y in zip(i, b)]) if b else z3.BoolVal(True), cval))
            return
        src = lift(val)
        vs = list(src.shape)
        while len(vs) > len(v.shape) and same(vs[0], 1) is True: vs.pop(0)
        if len(vs) != src.ndim: src = reshape(src, vs)
        _bcast_to(src.shape, v.shape)
        g = baccess(src, v.ndim)
        v.set_view(lambda *i: g(*i))
        return
    if len(adv) == 1 and adv[0].dtype == "b" and adv[0].ndim == a.ndim and len(key) == 1:
        m = adv[0]; check_same_shape(a.shape, m.shape)
        mf = m.fn(); src = lift(val)
        if src.ndim == 0: g = lambda *i: src.at()
        else:
            cnt, rank, en = rank_of_mask(m)
            if same(src.shape[0], 1) is not True:
                if same(src.shape[0], cnt) is not True:
                    cnt, rank, en = count_is_sum(m)
                req_same(src.shape[0], cnt, "mask assignment length")
            sf = src.fn()
            g = lambda *i: sf(rank(*i))
        inv = a.map
        if not all(x == ("ax", k, 0, 1) for k, x in enumerate(a.map)): return _store_through(a, lambda *i: (tobool(mf(*i)), lambda: g(*i)))
        a.buf.store(lambda *i: (tobool(mf(*i)), (lambda: g(*i))))
        return
    key = [flatnonzero(k) if isinstance(k, Arr) and k.dtype == "b" and k.ndim == 1 else k for k in key]
    return fancy_set(a, key, val)

def _store_through(a, cv): a.store_view(cv)

def _bcast_to(s, t):
    if len(s) > len(t): raise PyRaise("ValueError", "could not broadcast")
    for k in range(1, len(s) + 1):
        if isinstance(s[-k], int) and s[-k] == 1: continue
        req_same(s[-k], t[-k], "assigned value has the right shape")

def fancy_set(a, key, val):
    """a[index arrays / slices] = val.  Written as: entry (i..) is val at the (last) position addressing it."""
    arrs = [(j, lift(k)) for j, k in enumerate(key) if not isinstance(k, Slice)]
    bsh = bshape(*[k.shape for _, k in arrs])
    if len(bsh) > 1: raise Unsupported("store with a matrix of indices")
    for j, k in arrs: idx_bounds(k, a.shape[j])
    sls = {j: norm_slice(k, a.shape[j]) for j, k in enumerate(key) if isinstance(k, Slice)}
    src = lift(val)
    js = [j for j, _ in arrs]; contiguous = js == list(range(js[0], js[-1] + 1))
    pre = [j for j in sls if contiguous and j < js[0]]
    post = [j for j in sls if j not in pre]
    n = bsh[0] if bsh else None
    tgt = [sls[j][1] for j in pre] + ([n] if bsh else []) + [sls[j][1] for j in post]
    _bcast_to(src.shape, tgt)
    g = baccess(src, len(tgt))
    acc = {j: baccess(k, len(bsh)) for j, k in arrs}
    c = cx()
    inv = inverse_position([k for _, k in arrs], n)
    if inv is None and src.ndim == 0 or (inv is None and all(same(d, 1) is True for d in src.shape[:1]) and src.ndim == len(tgt) and False):
        # the same value everywhere: which position does not matter
        v0 = src.at()
        def cv(*i):
            conds = [inr(z3.simplify(num(i[j]) - num(sls[j][0])), sls[j][1]) for j in sls]
            hit = exists([n], lambda k: z3.And([num(acc[j](k)) == num(i[j]) for j, _ in arrs])) if bsh else z3.And([num(acc[j]()) == num(i[j]) for j, _ in arrs])
            return z3.And(*conds, hit), (lambda: v0)
        return _apply(a, cv)
    if inv is None: inv = last_position([k for _, k in arrs], n)
    def cv(*i):
        conds = [inr(z3.simplify(num(i[j]) - num(sls[j][0])), sls[j][1]) for j in sls if not (same(sls[j][0], 0) is True and same(sls[j][1], a.shape[j]) is True)]
        hit, pos = inv(*[num(i[j]) for j, _ in arrs])
        pi = [z3.simplify(num(i[j]) - num(sls[j][0])) for j in pre]; po = [z3.simplify(num(i[j]) - num(sls[j][0])) for j in post]
        def value():
            v = g(*pi, *([pos] if bsh else []), *po)
            if bsh and is_z3(v):        # at an addressed element, the index array holds the element's own index
                es = [(num(acc[j](pos)), num(i[j])) for j, _ in arrs]; es = [(e, x) for e, x in es if e.children() and not e.eq(x)]
                if es: v = z3.substitute(v, *es)
            return v
        return z3.And(*conds, hit), value
    _apply(a, cv)

def _apply(a, cv):
    if all(x == ("ax", k, 0, 1) for k, x in enumerate(a.map)): return a.buf.store(cv)
    if all(x[0] == "ax" and x[2] == 0 and x[3] == 1 for x in a.map):     # transposed
        return a.buf.store(lambda *b: cv(*[b[[q for q, x in enumerate(a.map) if x[1] == k][0]] for k in range(a.ndim)]))
    a.store_view(cv)

def last_position(ks, n):
    """As inverse_position, for any index arrays: the last position addressing an element (the value written last stays)."""
    d = len(ks); fs = [baccess(k, 1) for k in ks]; cx().assumed.add("a store through index arrays: the last value written to an element stays")
    def facts(gs, dd, body):
        hit, pos = gs; c = cx(); k = c.int("k"); v = [c.int("v") for _ in range(d)]; V = lambda q: [num(body(q, j=t)) for t in range(d)]
        p = pos(*v); at = V(p); vk = V(k)
        return [(v, [hit(*v)], z3.Implies(hit(*v), z3.And(inr(p, dd[0]), *[a == b for a, b in zip(at, v)]))),
                ([k], [hit(*vk)], z3.Implies(inr(k, dd[0]), z3.And(hit(*vk), pos(*vk) >= k)))]
    gs = lib_term("lastpos", [n], [lambda k, t=t: num(fs[t](k)) for t in range(d)], [(B, d), (I, d)], facts)
    return lambda *i: (gs[0](*i), gs[1](*i))

def inverse_position(ks, n):
    """For parallel 1-d index arrays: a function (i...) -> (is addressed, position), or None if not known to be injective."""
    if n is None:
        vs = [k.at() for k in ks]
        return lambda *i: (z3.And([a == num(v) for a, v in zip(i, vs)]), z3.IntVal(0))
    # arange
    for t, k in enumerate(ks):
        if k.ndim == 1 and k.meta.get("arange"):
            st = k.meta["arange"][0]
            def f(*i, t=t, st=st):
                pos = z3.simplify(i[t] - num(st))
                fs = [baccess(q, 1) for q in ks]
                return z3.And(inr(pos, n), *[num(fs[s](pos)) == i[s] for s in range(len(ks)) if s != t]), pos
            return f
    if all(k.ndim == 1 and "nz" in k.meta for k in ks) and len(ks) == ks[0].meta["nz"][0].ndim and all(k.meta["nz"][0] is ks[0].meta["nz"][0] for k in ks):
        order = [k.meta["nz"][2] for k in ks]
        if sorted(order) == list(range(len(ks))):
            m, rank = ks[0].meta["nz"][:2]; mf = m.fn()
            def f(*i):
                idx = [None] * len(order)
                for o, v in zip(order, i): idx[o] = v
                return z3.And(*[inr(v, d) for v, d in zip(idx, m.shape)], tobool(mf(*idx))), rank(*idx)
            return f
    for t, k in enumerate(ks):
        if k.ndim == 1 and "mask" in k.meta and k.meta.get("below") is not None:
            m, rank = k.meta["mask"]; mf = m.fn()
            def f(*i, t=t):
                pos = rank(i[t]); fs = [baccess(q, 1) for q in ks]
                return z3.And(inr(i[t], m.shape[0]), tobool(mf(i[t])), *[num(fs[s](pos)) == i[s] for s in range(len(ks)) if s != t]), pos
            return f
    if len(ks) == 1 and "inv" in ks[0].meta:
        iv = ks[0].meta["inv"]
        return lambda i: iv(i)
    # a run of concrete indices
    if isinstance(n, int) and n <= EXPAND:
        fs = [baccess(q, 1) for q in ks]
        def f(*i):
            hit, pos = z3.BoolVal(False), z3.IntVal(0)
            for k in range(n):
                h = z3.And([num(g(z3.IntVal(k))) == x for g, x in zip(fs, i)])
                pos = ite(h, z3.IntVal(k), pos); hit = z3.Or(hit, h)
            return hit, pos
        return f
    return None

# ------------------------------------------------------------------ shapes
def reshape(a, shape):
    shape = [s.scalar() if isinstance(s, Arr) else s for s in shape]
    shape = [dim(s) for s in shape]
    total = size(a)
    if any(isinstance(s, int) and s == -1 for s in shape):
        others = prod([s for s in shape if not (isinstance(s, int) and s == -1)])
        if same(others, 1) is True: miss = total
        elif isinstance(others, int) and isinstance(total, int): miss = total // others
        else:
            miss = quotient(total, others)
            if miss is None: raise Unsupported("reshape with an unknown dimension")
        shape = [miss if isinstance(s, int) and s == -1 else s for s in shape]
    else: req_same(prod(shape), total, "reshape keeps the size")
    f = a.fn()
    if list(map(str, shape)) == list(map(str, a.shape)): return Arr(a.buf, a.shape, a.map)
    # dropping or adding unit axes: views
    src = [(k, d) for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    dst = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(src) == len(dst) and all(same(p[1], q[1]) is True for p, q in zip(src, dst)):
        pos = {p[0]: q[0] for p, q in zip(src, dst)}
        m = [x if x[0] == "fix" else (("ax", pos[x[1]], x[2], x[3]) if x[1] in pos else ("fix", x[2])) for x in a.map]
        r = Arr(a.buf, shape, m); r.meta = dict(a.meta); return r
    sh = a.shape
    def at(*i):
        flat = ravel_index(i, shape)
        return f(*unravel(flat, sh, i, shape))
    r = new(shape, a.dtype, at)
    return r

def ravel_index(i, shape):
    e = num(i[0]) if i else z3.IntVal(0)
    for k, d in list(zip(i, shape))[1:]: e = e * num(d) + num(k)
    return e

def unravel(flat, sh, i, shape):
    """Indices of position flat in shape sh; shortcuts when the flat index was just built from the same trailing axes."""
    if len(sh) == 1: return [flat]
    if len(sh) == 0: return []
    if len(sh) == len(shape) + 1 and len(sh) == 2:
        return [num(i[0]) / num(sh[1]), num(i[0]) % num(sh[1])]
    if len(shape) == 1:
        out, rest = [], num(i[0])
        for d in reversed(sh[1:]): out.append(rest % num(d)); rest = rest / num(d)
        out.append(rest); return out[::-1]
    out, rest = [], flat
    for d in reversed(sh[1:]): out.append(rest % num(d)); rest = rest / num(d)
    out.append(rest); return out[::-1]

def ravel(a):
    return reshape(a, [-1]) if a.ndim != 1 else Arr(a.buf, a.shape, a.map)

def concat(arrs, axis=0):
    arrs = [lift(a) for a in arrs]
    n = arrs[0].ndim; axis = axis + n if axis < 0 else axis
    dt = max((a.dtype for a in arrs), key=RANK.get)
    for a in arrs[1:]:
        if a.ndim != n: raise PyRaise("ValueError", "concatenate")
        for k in range(n):
            if k != axis: req_same(arrs[0].shape[k], a.shape[k], "concatenated dimensions agree")
    fs = [a.fn() for a in arrs]
    offs = [0]
    for a in arrs: offs.append(dim(num(offs[-1]) + num(a.shape[axis])))
    sh = list(arrs[0].shape); sh[axis] = offs[-1]
    def at(*i):
        e = num(i[axis])
        def v(t): return cast(fs[t](*i[:axis], z3.simplify(e - num(offs[t])), *i[axis + 1:]), dt)
        r = v(len(fs) - 1)
        for t in range(len(fs) - 2, -1, -1): r = ite(e < num(offs[t + 1]), v(t), r)
        return r
    return new(sh, dt, at)

def vstack(xs):
    ys = []
    for x in xs:
        x = lift(x)
        ys.append(basic(x, [None, Slice(None, None, None)]) if x.ndim == 1 else x)
    return concat(ys, 0)

def hstack(xs):
    xs = [lift(x) for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)

def diag_view(a):
    """View of the diagonal of a square matrix."""
    n = a.shape[0]
    m = [x if x[0] == "fix" else ("ax", 0, x[2], x[3]) for x in a.map]
    if same(a.shape[0], a.shape[1]) is not True: n = dim(z3.If(num(a.shape[0]) <= num(a.shape[1]), num(a.shape[0]), num(a.shape[1])))
    return Arr(a.buf, [n], m)

def fill_diagonal(a, v):
    a_ = diag_view(a)
    src = lift(v)
    if src.ndim == 0: e = src.at(); a_.set_view(lambda i: cast(e, a.dtype))
    else:
        f = src.fn(); req_same(src.shape[0], a_.shape[0]); a_.set_view(lambda i: f(i))

def triu(a, k=0):
    f = a.fn(); k = num(k)
    z = cast(0, a.dtype)
    return new(a.shape, a.dtype, lambda *i: ite(num(i[-1]) - num(i[-2]) >= k, f(*i), z))

def tril(a, k=0):
    f = a.fn(); k = num(k)
    z = cast(0, a.dtype)
    return new(a.shape, a.dtype, lambda *i: ite(num(i[-1]) - num(i[-2]) <= k, f(*i), z))
