"""The part of torch used by the code under verification: tensors as arrays of real numbers, modules with their registered parameters,
optimizers and data loaders as protocols.  Documented behaviour of torch, assumed (listed as trusted in the evidence)."""
import z3
from core import *
import core, arr, interp as I_, npmodel
from arr import Arr, SList, SIter, ssum
from interp import *
from npmodel import argn, shape_arg, to_scalar, PyType, DType

def ip(): return npmodel.IP[0]
def assumed(s): cx().assumed.add(s)

class DT_:
    def __init__(s, k): s.k = k
    def getattr(s, n): return Opaque("dtype." + n)
FLOAT, INT, BOOL = DT_("f"), DT_("i"), DT_("b")
def dt_of_arg(d):
    if d is None: return None
    if isinstance(d, DT_): return d.k
    return npmodel.dtype_arg(d)
class Device:
    def getattr(s, n): return "cpu" if n == "type" else Opaque("device." + n)
    def compare(s, o, y, sw): return NotImplemented

_id = [0]
class Tensor:
    """A torch tensor; a: its contents (possibly a view).  param: an nn.Parameter."""
    def __init__(s, a, param=False, requires_grad=False):
        s.a = arr.lift(a); s.param, s.rg = param, requires_grad; _id[0] += 1; s.id = _id[0]
    @property
    def shape(s): return s.a.shape
    def scalar(s): return s.a.scalar()
    def binop(s, op, y, sw):
        if isinstance(y, Arr): raise Unsupported("tensor with a numpy array")
        if not isinstance(y, Tensor) and not isinstance(y, (bool, int, float)) and not is_z3(y): raise Unsupported(f"tensor {op} {type(y).__name__}")
        b = un(y); p, q = (b, s.a) if sw else (s.a, b)
        if op == "@": return Tensor(arr.matmul(arr.lift(p), arr.lift(q)))
        r = arr.binop(op, p, q)
        return Tensor(r)
    def compare(s, op, y, sw):
        if y is None or isinstance(y, (str, Str)): return NotImplemented
        b = un(y); p, q = (b, s.a) if sw else (s.a, b)
        return Tensor(arr.cmp(op, p, q))
    def neg(s): return Tensor(arr.neg(s.a))
    def inplace(s, op, y):
        r = s.binop(op, y, False); s.write(r); return s
    def write(s, t):
        """In-place replacement of the contents."""
        t = un(t); t = arr.lift(t)
        f = arr.baccess(t, s.a.ndim); sh = arr.bshape(s.a.shape, t.shape)
        arr.check_same_shape(sh, s.a.shape)
        s.a.set_view(lambda *i: f(*i))
    def truth(s):
        if s.a.ndim == 0: return ip().truth(s.a.scalar())
        raise Unsupported("truth value of a tensor")
    def getitem(s, k): return Tensor(arr.getitem(s.a, untree(k)))
    def setitem(s, k, v): arr.setitem(s.a, untree(k), un(v))
    def elements(s):
        if s.a.ndim == 0: raise PyRaise("TypeError", "iteration over a 0-d tensor")
        if isinstance(s.a.shape[0], int) and s.a.shape[0] <= 64: return [Tensor(arr.getitem(s.a, j)) for j in range(s.a.shape[0])]
        return None
    def siter(s): return s.a.shape[0], lambda k: Tensor(arr.lift(arr.getitem(s.a, dim(k))))
    def len(s): return s.a.shape[0]
    def merge(s, c, o):
        if not isinstance(o, Tensor): raise Unsupported("merge of a tensor")
        return Tensor(merge(c, s.a, o.a))
    def subst(s, f): return Tensor(f(s.a))
    def getattr(s, n): return tensor_attr(s, n)
    def setattr(s, n, v):
        if n == "data": s.write(v); return
        if n == "requires_grad": s.rg = v; return
        if n == "grad":
            if v is not None: raise Unsupported("sets a gradient")
            cx().events.append(("grad_none", s)); return
        raise Unsupported(f"sets tensor attribute {n}")
    def __repr__(s): return f"Tensor{s.a.shape}"

def un(x):
    return x.a if isinstance(x, Tensor) else x
def untree(k):
    if isinstance(k, tuple): return tuple(untree(x) for x in k)
    return un(k)
def T(x):
    if isinstance(x, Tensor): return x
    if isinstance(x, (bool, int, float)) or is_z3(x): return Tensor(arr.lift(x))
    raise Unsupported(f"tensor from {type(x).__name__}")

def ew(f): return lambda x: Tensor(arr.ewise(f, "f", T(x).a))
def relu1(x): x = real(x); return ite(x >= 0, x, z3.RealVal(0))
def sigmoid1(x):
    assumed("torch.sigmoid: a function of the entry"); return uf("sigmoid", R, R)(acsort(z3.simplify(real(x), som=True)))
def tanh1(x):
    assumed("torch.tanh: a function of the entry"); return uf("tanh", R, R)(acsort(z3.simplify(real(x), som=True)))
ELEM = {"exp": exp_, "log": log_, "sqrt": sqrt_, "relu": relu1, "sigmoid": sigmoid1, "tanh": tanh1, "neg": lambda x: -real(x), "square": lambda x: real(x) * real(x), "abs": lambda x: rabs(real(x)), "reciprocal": lambda x: 1 / real(x), "rsqrt": lambda x: 1 / sqrt_(x)}
BIN = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "divide": "/", "true_divide": "/", "pow": "**", "matmul": "@", "mm": "@"}

def axis_of(k, a, pos):
    for n in ("dim", "axis"):
        if n in k: return k[n]
    return a[pos] if len(a) > pos else None
def keep_of(k): return bool(k.get("keepdim", k.get("keepdims", False)))

def tdiag(x):
    a = x.a
    if a.ndim == 1:
        f = a.fn(); return Tensor(arr.new((a.shape[0], a.shape[0]), "f", lambda i, j: ite(num(i) == num(j), real(f(i)), z3.RealVal(0))))
    if a.ndim == 2: return Tensor(arr.diag_view(a))
    raise Unsupported("diag of a higher tensor")

def diagonal_of(x):
    """The diagonal function of a matrix provably diagonal with positive diagonal entries, or None."""
    a = x.a; f = a.fn(); n = a.shape[0]; c = cx()
    if a.ndim != 2: raise Unsupported("batched determinant")
    arr.req_same(a.shape[0], a.shape[1])
    with bound(n, n) as (i, j):
        off = c.quick(z3.Implies(i != j, real(f(i, j)) == 0))
    if off is not True: return None
    bd = bound(n)
    with bd as (i,): e = real(f(i, i)) > 0; ok = c.quick(e)
    if ok is not True:
        if len(c.local): raise Unsupported("determinant of a matrix not known to be positive")
        pw = c.int("k"); c.local.append([inr(pw, n)])
        try: c.oblige("the diagonal of the covariance is positive", real(f(pw, pw)) > 0, "safety")
        finally: c.local.pop()
    return lambda i: real(f(i, i))

def logdet(x):
    d = diagonal_of(x)
    if d is None: raise Unsupported("logdet of a general matrix")
    assumed("torch.logdet of a diagonal matrix with positive diagonal: the sum of the logarithms of its diagonal")
    return Tensor(ssum([x.a.shape[0]], lambda i: log_(d(i))))
def inverse(x):
    d = diagonal_of(x)
    if d is None: raise Unsupported("inverse of a general matrix")
    assumed("torch.inverse of a diagonal matrix: the diagonal matrix of the reciprocals")
    return Tensor(arr.new(x.a.shape, "f", lambda i, j: ite(num(i) == num(j), 1 / d(i), z3.RealVal(0))))
def norm(x, p=None, dim=None):
    a = x.a; f = a.fn()
    if dim is not None: raise Unsupported("norm along a dimension")
    if p == "nuc": assumed("nuclear norm: a function of the entries"); return Tensor(lib_term("nuc", list(a.shape), [lambda *i: real(f(*i))], [(R, 0)])[0]())
    if p in (None, "fro"): p = 2
    if concrete(p) == 1: return Tensor(real(ssum(list(a.shape), lambda *i: rabs(real(f(*i))))))
    if concrete(p) == 2: return Tensor(core.root_of_squares(real(ssum(list(a.shape), lambda *i: real(f(*i)) * real(f(*i))))))
    raise Unsupported("norm order")
def linalg_norm(x, o=None, dim=None):
    if x.a.ndim == 2 and o is not None and not isinstance(o, str):
        f = x.a.fn(); 
        if concrete(o) == 2: assumed("spectral norm: a function of the entries"); return Tensor(lib_term("spectral", list(x.a.shape), [lambda *i: real(f(*i))], [(R, 0)])[0]())
        raise Unsupported("matrix norm order")
    return norm(x, o, dim)

def sum_t(a, k): return Tensor(arr.sum_(T(a[0]).a, axis_of(k, a, 1), keep_of(k)))
def mean_t(a, k): return Tensor(arr.mean(T(a[0]).a, axis_of(k, a, 1), keep_of(k)))
def stack(a, k):
    l = a[0]; d = axis_of(k, a, 1)
    d = 0 if d is None else concrete(d)
    if isinstance(l, (list, tuple)): xs = [T(x).a for x in l]
    elif isinstance(l, SList): xs = SList(l.n, lambda q: T(l.at(q)).a)
    else: raise Unsupported("stack of this")
    r = arr.from_py(xs)
    if d != 0:
        n = r.ndim; d = d + n if d < 0 else d
        p = list(range(1, n)); p.insert(d, 0); r = arr.transpose(r, p)
    return Tensor(arr.astype(r, r.dtype))
def unbind(a, k):
    d = axis_of(k, a, 1); d = 0 if d is None else concrete(d)
    x = T(a[0]).a
    if d: x = arr.transpose(x, [d] + [q for q in range(x.ndim) if q != d])
    e = Tensor(x).elements()
    return tuple(e) if e is not None else SList(x.shape[0], lambda q: Tensor(arr.lift(arr.getitem(x, dim(q)))))
def block_diag(a, k):
    if len(a) == 1 and isinstance(a[0], StarArg):
        l = a[0].v
        if not isinstance(l, SList): raise Unsupported("block_diag of this")
        with bound(l.n) as (q,): b = T(l.at(q)).a; sh = b.shape
        if b.ndim != 2: raise Unsupported("block_diag of vectors")
        if any(occurs(num(d), {q.get_id()}) for d in sh): raise Unsupported("blocks of varying shape")
        p, r = sh
        def at(i, j):
            i, j = num(i), num(j); bi, bj = arr.floordiv(i, p) if concrete(p) != 1 else i, arr.floordiv(j, r) if concrete(r) != 1 else j
            e = real(T(l.at(bi)).a.at(arr.mod(i, p) if concrete(p) != 1 else z3.IntVal(0), arr.mod(j, r) if concrete(r) != 1 else z3.IntVal(0)))
            return ite(bi == bj, e, z3.RealVal(0))
        return Tensor(arr.new((dim(num(l.n) * num(p)), dim(num(l.n) * num(r))), "f", at))
    if any(isinstance(x, StarArg) for x in a): raise Unsupported("block_diag of this")
    if not a: return Tensor(arr.const_arr((1, 0), "f", 0))
    bs = [T(x).a for x in a]
    if any(b.ndim != 2 for b in bs): raise Unsupported("block_diag of vectors")
    fs = [b.fn() for b in bs]
    def at(i, j):
        i, j = num(i), num(j); ro, co = z3.IntVal(0), z3.IntVal(0); parts = []
        for b, f in zip(bs, fs):
            parts.append((z3.And(i >= ro, i < ro + num(b.shape[0]), j >= co, j < co + num(b.shape[1])), real(f(i - ro, j - co)))); ro, co = ro + num(b.shape[0]), co + num(b.shape[1])
        r = z3.RealVal(0)
        for g, v in reversed(parts): r = ite(g, v, r)
        return r
    tot = lambda q: dim(z3.simplify(z3.Sum([num(b.shape[q]) for b in bs])))
    return Tensor(arr.new((tot(0), tot(1)), "f", at))
def kron(a, k):
    x, y = T(a[0]).a, T(a[1]).a
    if x.ndim != 2 or y.ndim != 2: raise Unsupported("kron")
    f, g = x.fn(), y.fn(); p, r = y.shape
    dv, md = (lambda i, d: arr.floordiv(num(i), d) if concrete(d) != 1 else num(i)), (lambda i, d: arr.mod(num(i), d) if concrete(d) != 1 else z3.IntVal(0))
    return Tensor(arr.new((dim(num(x.shape[0]) * num(p)), dim(num(x.shape[1]) * num(r))), "f", lambda i, j: real(f(dv(i, p), dv(j, r))) * real(g(md(i, p), md(j, r)))))

def storage(sh, name="w"):
    """Fresh contents, of the weights' storage."""
    c = cx(); a = arr.sym_arr(name, sh, "f")
    c.ghost.setdefault("storage", {})[a.meta["sym"].name()] = name
    return a
def shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): return shape_arg(a[0])
    return tuple(dim(to_scalar(un(x))) for x in a)
def filled(v):
    def f(a, k):
        sh = shape_args([x for x in a] if not k.get("size") else [k["size"]]); npmodel.nonneg_shape(sh)
        dt = dt_of_arg(k.get("dtype")) or "f"
        return Tensor(storage(sh) if v is None else arr.const_arr(sh, dt, v), requires_grad=bool(k.get("requires_grad", False)))
    return f
def like(v):
    def f(a, k):
        x = T(a[0]).a
        return Tensor(storage(x.shape) if v is None else arr.const_arr(x.shape, x.dtype, v))
    return f
def normal_draw(sh):
    c = cx(); assumed("torch normal draws: independent standard normal entries, fresh in every call")
    a = arr.sym_arr("eps", sh, "f"); f = a.fn()
    c.events.append(("rng", "torch", ("normal",))); c.events.append(("normal", a)); c.ghost.setdefault("normals", []).append(a)
    return a
def randn(a, k): return Tensor(normal_draw(shape_args(a)))
def eye(a, k):
    n = dim(to_scalar(a[0])); m = dim(to_scalar(a[1])) if len(a) > 1 else n
    return Tensor(arr.new((n, m), "f", lambda i, j: ite(num(i) == num(j), z3.RealVal(1), z3.RealVal(0))))
def tensor_(a, k):
    x = a[0]
    if isinstance(x, Tensor): return Tensor(arr.copy(x.a))
    return Tensor(arr.copy(arr.lift(x)), requires_grad=bool(k.get("requires_grad", False)))
def from_numpy(a, k):
    x = a[0]
    return x if isinstance(x, Tensor) else Tensor(x if isinstance(x, Arr) else arr.lift(x))
def detach(x):
    if cx().ghost.get("mark_detached"): return Tensor(arr.ewise(lambda e: uf("detached", R, R)(real(e)), "f", x.a))
    return Tensor(x.a)
def linear(a, k):
    d = argn(["input", "weight", "bias"], a, k, bias=None)
    x, w = T(d["input"]).a, T(d["weight"]).a
    r = arr.matmul(x, arr.transpose(w))
    if d["bias"] is not None: r = arr.binop("+", r, T(d["bias"]).a)
    return Tensor(r)
def transpose_t(x, p, q):
    n = x.a.ndim; p, q = concrete(p) % n, concrete(q) % n; perm = list(range(n)); perm[p], perm[q] = perm[q], perm[p]
    return Tensor(arr.transpose(x.a, perm))
def unsqueeze(x, d):
    f = x.a.fn(); n = x.a.ndim; d = concrete(d); d = d + n + 1 if d < 0 else d
    sh = list(x.a.shape); sh.insert(d, 1)
    return Tensor(arr.new(sh, x.a.dtype, lambda *i: f(*[v for q, v in enumerate(i) if q != d])))
def normal_fn(a, k):
    raise Unsupported("torch.normal")
def cat(a, k):
    d = axis_of(k, a, 1); return Tensor(arr.concat([T(x).a for x in ip().concrete_iter(a[0])], 0 if d is None else concrete(d)))
def var_of(x, a, k): raise Unsupported("variance of a tensor")
def einsum_t(a, k): return Tensor(npmodel.einsum_([a[0]] + [T(x).a for x in a[1:]], {}))

FN = {"sum": sum_t, "mean": mean_t, "stack": stack, "unbind": unbind, "block_diag": block_diag, "kron": kron, "diag": lambda a, k: tdiag(T(a[0])), "diagonal": lambda a, k: Tensor(arr.diag_view(T(a[0]).a)) if T(a[0]).a.ndim == 2 else (_ for _ in ()).throw(Unsupported("diagonal")), "trace": lambda a, k: sum_t([Tensor(arr.diag_view(T(a[0]).a))], {}), "logdet": lambda a, k: logdet(T(a[0])), "inverse": lambda a, k: inverse(T(a[0])),
      "transpose": lambda a, k: transpose_t(T(a[0]), a[1] if len(a) > 1 else k["dim0"], a[2] if len(a) > 2 else k["dim1"]), "t": lambda a, k: Tensor(arr.transpose(T(a[0]).a)), "norm": lambda a, k: norm(T(a[0]), a[1] if len(a) > 1 else k.get("p"), k.get("dim")), "clone": lambda a, k: Tensor(arr.copy(a[0].a)), "detach": lambda a, k: detach(a[0]), "unsqueeze": lambda a, k: unsqueeze(T(a[0]), a[1] if len(a) > 1 else k["dim"]), "numel": lambda a, k: arr.size(a[0].a), "cat": cat, "concat": cat, "concatenate": cat, "einsum": einsum_t,
      "outer": lambda a, k: Tensor(arr.ewise(lambda p, q: real(p) * real(q), "f", unsqueeze(T(a[0]), 1).a, unsqueeze(T(a[1]), 0).a)), "dot": lambda a, k: Tensor(arr.matmul(T(a[0]).a, T(a[1]).a)),
      "zeros_like": like(0), "ones_like": like(1), "empty_like": like(None), "randn_like": lambda a, k: Tensor(normal_draw(T(a[0]).a.shape)), "diag_embed": lambda a, k: diag_embed(T(a[0])), "addmm": lambda a, k: T(a[0]).binop("+", T(a[1]).binop("@", T(a[2]), False), False)}
def diag_embed(x):
    f = x.a.fn(); n = x.a.shape[-1]
    return Tensor(arr.new(list(x.a.shape) + [n], "f", lambda *i: ite(num(i[-2]) == num(i[-1]), real(f(*i[:-1])), z3.RealVal(0))))
def tri(low):
    def f(a, k):
        x = T(a[0]).a; f_ = x.fn(); d = a[1] if len(a) > 1 else k.get("diagonal", 0)
        return Tensor(arr.new(x.shape, x.dtype, lambda *i: ite(num(i[-1]) - num(i[-2]) <= num(d) if low else num(i[-1]) - num(i[-2]) >= num(d), f_(*i), arr.cast(0, x.dtype))))
    return f
FN["tril"], FN["triu"] = tri(True), tri(False)
for n_, f_ in ELEM.items(): FN[n_] = (lambda f: lambda a, k: Tensor(arr.ewise(f, "f", T(a[0]).a)))(f_)
for n_, o_ in BIN.items():
    def bf(a, k, o=o_):
        if k: raise Unsupported("keyword of a binary tensor function")
        return T(a[0]).binop(o, a[1], False)
    FN[n_] = bf
def clamp(a, k):
    d = argn(["x", "min", "max"], a, k, min=None, max=None); r = T(d["x"])
    if d["min"] is not None: m = to_scalar(d["min"]); r = Tensor(arr.ewise(lambda e: ite(real(e) >= real(m), real(e), real(m)), "f", r.a))
    if d["max"] is not None: m = to_scalar(d["max"]); r = Tensor(arr.ewise(lambda e: ite(real(e) <= real(m), real(e), real(m)), "f", r.a))
    return r
FN["clamp"] = clamp

INPLACE = {"normal_", "zero_", "fill_", "uniform_", "copy_"}
def method(t, n):
    """Tensor method n as a function of (args, kwargs)."""
    if n == "normal_":
        def f(a, k):
            d = argn(["mean", "std"], a, k, mean=0.0, std=1.0); e = Tensor(normal_draw(t.a.shape))
            r = T(d["mean"]).binop("+", T(d["std"]).binop("*", e, False), False) if a or k else e
            t.write(r); return t
        return f
    if n == "zero_": return lambda a, k: (t.write(Tensor(arr.const_arr((), "f", 0))), t)[1]
    if n in ("fill_", "copy_"): return lambda a, k: (t.write(T(a[0])), t)[1]
    if n == "uniform_": return lambda a, k: (t.write(Tensor(storage(t.a.shape))), t)[1]
    if n == "item": return lambda a, k: (t.a.scalar() if t.a.ndim == 0 else t.a.at(*[z3.IntVal(0)] * t.a.ndim))
    if n == "numpy": return lambda a, k: t.a
    if n in ("to", "cpu", "cuda", "float", "double", "contiguous", "type_as"): return lambda a, k: t
    if n == "size": return lambda a, k: t.a.shape if not a else t.a.shape[concrete(a[0])]
    if n in ("dim", "ndimension"): return lambda a, k: t.a.ndim
    if n in ("view", "reshape"):
        return lambda a, k: Tensor(arr.reshape(t.a, list(shape_args(a))))
    if n in ("flatten", "ravel") : return lambda a, k: Tensor(arr.ravel(t.a))
    if n == "squeeze": return lambda a, k: Tensor(npmodel.squeeze_([t.a] + list(a), {}))
    if n == "permute": return lambda a, k: Tensor(arr.transpose(t.a, [concrete(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]))
    if n == "backward": return lambda a, k: backward(t)
    if n == "requires_grad_":
        def f(a, k): t.rg = a[0] if a else k.get("requires_grad", True); return t
        return f
    if n == "tolist": return lambda a, k: Str("list")
    if n in FN: return lambda a, k: FN[n]([t] + list(a), k)
    if n.endswith("_") and n[:-1] in FN:
        def f(a, k): t.write(FN[n[:-1]]([t] + list(a), k)); return t
        return f
    return None
def tensor_attr(t, n):
    if n == "shape": return (t.a.shape,)
    if n in ("T", "mT"): return Tensor(arr.transpose(t.a))
    if n == "data": return detach(t) if cx().ghost.get("mark_detached") else Tensor(t.a)
    if n == "dtype": return FLOAT
    if n == "device": return Device()
    if n == "ndim": return t.a.ndim
    if n == "requires_grad": return (t.param or t.rg,) if not isinstance(t.rg, bool) else bool(t.rg)
    if n == "grad": return Opaque("gradient")
    m = method(t, n)
    if m is None: raise Unsupported(f"tensor attribute {n}")
    return Native("Tensor." + n, m)

def backward(t):
    c = cx(); g = c.ghost.setdefault("cells", {})
    c.oblige("gradients are clear when the loss is differentiated", num(g.get("grad", z3.IntVal(0))) == 0)
    c.oblige("the loss is differentiated with gradients enabled", z3.BoolVal(not c.ghost.get("no_grad")))
    g["grad"] = z3.IntVal(1); c.events.append(("backward", t))

# ------------------------------------------------------------------ modules
def parameter(a, k):
    d = argn(["data", "requires_grad"], a, k, requires_grad=True)
    x = d["data"]; r = Tensor(x.a, True, bool(d["requires_grad"])); return r
class ModuleBase:
    """torch.nn.Module."""
    name = "Module"
    def lookup(s, n):
        f = MODULE.get(n)
        return Native("Module." + n, f) if f else None
    def setattr_(s, ipx, o, n, v):
        reg(o)
        o.attrs["_parameters"].pop(n, None); o.attrs["_modules"].pop(n, None)
        if isinstance(v, Tensor) and v.param: o.attrs["_parameters"][n] = v
        elif is_module(v): o.attrs["_modules"][n] = v
MOD = ModuleBase()
def reg(o):
    for q in ("_parameters", "_modules", "_buffers"): o.attrs.setdefault(q, {})
def is_module(v): return isinstance(v, ModuleSeq) or isinstance(v, Obj) and MOD in v.cls.mro()
def children(o): 
    if isinstance(o, ModuleSeq): return o.members()
    reg(o); return list(o.attrs["_modules"].values())
def params(o, seen=None):
    """Registered parameters (of a generic member, for module lists of unknown length)."""
    seen = set() if seen is None else seen; out = []
    if isinstance(o, Obj):
        if id(o) in seen: return []
        seen.add(id(o)); reg(o)
        for p in o.attrs["_parameters"].values():
            if p is not None and all(p is not q for q in out): out.append(p)
    for ch in children(o):
        for p in params(ch, seen):
            if all(p is not q for q in out): out.append(p)
    return out
def set_mode(o, mode):
    if isinstance(o, Obj): ip().effect((o, "training")); o.attrs["training"] = mode
    for ch in children(o): set_mode(ch, mode)
def m_init(a, k): reg(a[0]); a[0].attrs["training"] = True
def m_train(a, k):
    set_mode(a[0], a[1] if len(a) > 1 else k.get("mode", True)); return a[0]
def m_eval(a, k): set_mode(a[0], False); return a[0]
def m_reg_param(a, k):
    o, n, p = a[0], a[1], a[2] if len(a) > 2 else k["param"]
    if p is None: reg(o); o.attrs[n] = None
    else: ip().setattr(o, n, p)
def m_reg_buffer(a, k):
    o, n, p = a[0], a[1], a[2] if len(a) > 2 else k["tensor"]
    reg(o); o.attrs["_buffers"][n] = p; o.attrs[n] = p
def m_apply(a, k): raise Unsupported("Module.apply")
class ParamSet:
    """model.parameters(): all registered parameters."""
    def __init__(s, o): s.o = o
    def elements(s): return [ParamProxy(p) for p in params(s.o)]
class ParamProxy:
    """One of them; how many there are like it is not known."""
    def __init__(s, p): s.p = p
    def getattr(s, n):
        if n == "numel":
            x = cx().int("numel"); return Native("numel", lambda a, k: x)
        return s.p.getattr(n)
MODULE = {"__init__": m_init, "train": m_train, "eval": m_eval, "register_parameter": m_reg_param, "register_buffer": m_reg_buffer, "parameters": lambda a, k: ParamSet(a[0]), "to": lambda a, k: a[0], "cpu": lambda a, k: a[0], "float": lambda a, k: a[0], "__call__": lambda a, k: ip().call(ip().getattr(a[0], "forward"), list(a[1:]), k), "add_module": lambda a, k: ip().setattr(a[0], a[1], a[2]), "zero_grad": lambda a, k: zero_grad(), "apply": m_apply,
          "state_dict": lambda a, k: Opaque("state"), "named_parameters": lambda a, k: (_ for _ in ()).throw(Unsupported("named_parameters")), "extra_repr": lambda a, k: ""}

class ModuleSeq:
    """nn.ModuleList / nn.Sequential: concretely many members, or an arbitrary one of unknown many."""
    def __init__(s, items=None, n=None, member=None, registered=True): s.items, s.n, s.member, s.registered = items, n, member, registered
    def members(s): return s.items if s.items is not None else [s.member]
    def elements(s): return list(s.items) if s.items is not None else None
    def len(s): return len(s.items) if s.items is not None else s.n
    def siter(s): return s.n, lambda k: s.member
    def getattr(s, n):
        if n == "append" and s.items is not None: return Native("append", lambda a, k: s.items.append(a[0]))
        if n in ("train", "eval"): return Native(n, lambda a, k: set_mode(s, n == "train" if not a else a[0]))
        if n == "parameters": return Native(n, lambda a, k: ParamSet(s))
    def getitem(s, k):
        if s.items is not None: return ip().getitem(s.items, k)
        raise Unsupported("subscript of a module list of unknown length")
    def call(s, ipx, a, k):
        raise Unsupported("call of a module list")
    def run_for(s, ipx, st, env, module):
        if s.items is not None: return NotImplemented
        h = cx().ghost.get("layer_loop")
        if h is None: raise Unsupported("loop over layers")
        return h(ipx, st, env, module, s)
def seq_of(x, registered=True):
    if x is None: return ModuleSeq([])
    items = ip().try_concrete(x)
    if items is not None: return ModuleSeq(list(items), registered=registered)
    if isinstance(x, SList):
        with bound(x.n) as (k,): m = x.at(k)
        return ModuleSeq(None, x.n, m, registered)
    raise Unsupported("module list of this")
def unregistered_seq(x):
    """A plain sequence of modules: its members are not registered with the module it is assigned to."""
    if not isinstance(x, SList): return None
    if not hasattr(x, "mod_elem"):
        try:
            with bound(x.n) as (k,): m = x.at(k)
        except (Unsupported, PyRaise): m = None
        x.mod_elem = ModuleSeq(None, x.n, m, False) if is_module(m) else None
    return x.mod_elem
I_.MODULE_SEQ = unregistered_seq

def module_class(name, init, forward):
    return Class(name, [MOD], {"__init__": Native(name + ".__init__", init), "forward": Native(name + ".forward", forward)}, "torch.nn")
def linear_init(a, k):
    d = argn(["self", "in_features", "out_features", "bias"], a, k, bias=True); o = d["self"]; m_init([o], {})
    i, q = dim(to_scalar(d["in_features"])), dim(to_scalar(d["out_features"]))
    o.attrs["in_features"], o.attrs["out_features"] = i, q
    ip().setattr(o, "weight", Tensor(storage((q, i), "linear_weight"), True, True))
    if d["bias"]: ip().setattr(o, "bias", Tensor(storage((q,), "linear_bias"), True, True))
    else: o.attrs["bias"] = None
def linear_forward(a, k): return linear([a[1], a[0].attrs["weight"], a[0].attrs["bias"]], {})
act = lambda n, f: module_class(n, lambda a, k: m_init(a, k), lambda a, k: Tensor(arr.ewise(f, "f", T(a[1]).a)))
def sequential(a, k):
    items = list(a)
    if any(isinstance(x, StarArg) for x in items): raise Unsupported("Sequential of unknown length")
    s = ModuleSeq(items)
    def call(ipx, b, kk):
        x = b[0]
        for m in s.items: x = ipx.call(m, [x], {})
        return x
    s.call = call; return s
def init_fill(a, k):
    t = a[0]; x = storage(t.a.shape, "init"); f = x.fn(); t.a.set_view(lambda *i: f(*i)); return t
def fan(a, k):
    return (a[0].a.shape[1], a[0].a.shape[0])
NN = NS("torch.nn", {"Module": MOD, "Linear": module_class("Linear", linear_init, linear_forward), "Sigmoid": act("Sigmoid", sigmoid1), "ReLU": act("ReLU", relu1), "Tanh": act("Tanh", tanh1), "Identity": act("Identity", lambda e: e), "ModuleList": Native("ModuleList", lambda a, k: seq_of(a[0] if a else k.get("modules"))), "Sequential": Native("Sequential", sequential),
    "Parameter": Native("Parameter", parameter), "parameter": NS("torch.nn.parameter", {"Parameter": Native("Parameter", parameter)}),
    "init": NS("torch.nn.init", {n: Native(n, init_fill) for n in ("kaiming_uniform_", "kaiming_normal_", "uniform_", "normal_", "xavier_uniform_", "xavier_normal_", "zeros_", "ones_", "constant_")} | {"_calculate_fan_in_and_fan_out": Native("fan", fan)}),
    "functional": NS("torch.nn.functional", {"linear": Native("linear", linear), **{n: Native(n, (lambda f: lambda a, k: Tensor(arr.ewise(f, "f", T(a[0]).a)))(ELEM[n])) for n in ("relu", "sigmoid", "tanh")}})})

# ------------------------------------------------------------------ optimizers, loaders
def zero_grad():
    c = cx(); c.ghost.setdefault("cells", {})["grad"] = z3.IntVal(0); c.events.append(("zero_grad",))
class Optimizer:
    def __init__(s, ps, kw): s.params, s.kw = ps, kw; s.attrs = {}
    def getattr(s, n):
        if n == "zero_grad": return Native(n, lambda a, k: zero_grad())
        if n == "step": return Native(n, lambda a, k: s.step(a))
        if n in ("param_groups", "state"): return Opaque(n)
    def step(s, a):
        if a: raise Unsupported("optimizer step with a closure")
        cx().events.append(("step", s))
def optimizer(a, k):
    d = dict(k); ps = a[0] if a else d.pop("params")
    o = Optimizer(ps, d); cx().events.append(("optimizer", o)); return o
class Scheduler:
    def getattr(s, n):
        if n == "step": return Native(n, lambda a, k: cx().events.append(("scheduler",)))
        if n in ("get_last_lr",): return Native(n, lambda a, k: [Opaque("lr")])
class NoGrad:
    def __init__(s, v=True): s.v = v
    def enter(s):
        c = cx()
        if s.v and c.ghost.get("mark_detached"): c.events.append(("no_grad",))
        s.old = c.ghost.get("no_grad", False); c.ghost["no_grad"] = s.v
    def exit(s): cx().ghost["no_grad"] = s.old
class Dataset:
    def __init__(s, ts): s.ts = ts
    def len(s): return s.ts[0].a.shape[0]
    def getattr(s, n):
        if n == "tensors": return (tuple(s.ts),)
class Loader:
    """DataLoader without shuffling: batch b holds rows b*size .. of every tensor, in order."""
    def __init__(s, ds, bs, kw):
        s.ds, s.bs, s.kw = ds, bs, kw; c = cx(); n = num(ds.len()); assumed("DataLoader(shuffle=False): the rows in order, in consecutive batches of the batch size, the last one possibly shorter")
        c.require("batch size positive", num(bs) >= 1)
        s.nb = c.const("batches", I); c.assume(s.nb >= 0, z3.Implies(n > 0, s.nb >= 1), z3.Implies(n <= 0, s.nb == 0))
        flag = lambda v: ip().truth(v) if v is not None else False
        s.shuffled = True if any(kw.get(q) is not None for q in ("sampler", "batch_sampler", "collate_fn")) else flag(kw.get("shuffle")); s.drop = flag(kw.get("drop_last"))
        s.perm = None if s.shuffled is False else c.fn("shuffled", I, I)
        c.events.append(("loader", s))
        s.rows = c.fn("rows", I, I); b = c.int("b")
        c.axiom(z3.ForAll([b], z3.Implies(inr(b, s.nb), z3.And(s.rows(b) >= 1, s.rows(b) <= num(bs))), patterns=[s.rows(b)]))
        s.start = c.fn("start", I, I)
    def row(s, b, i): r = s.start(num(b)) + num(i); return r if s.perm is None else s.perm(r)
    def batch(s, b):
        out = []
        for t in s.ds.ts:
            f = t.a.fn(); out.append(Tensor(arr.new((s.rows(num(b)),) + tuple(t.a.shape[1:]), "f", lambda i, *r, f=f: real(f(s.row(b, i), *r)))))
            out[-1].batch_of = (s, b)
        return out
    def elements(s): return None
    def siter(s): return s.nb, lambda k: s.batch(k)
    def len(s): return s.nb
    def getattr(s, n):
        if n == "dataset": return s.ds
        if n == "batch_size": return (s.bs,)
def loader(a, k):
    d = dict(k); ds = a[0] if a else d.pop("dataset"); bs = a[1] if len(a) > 1 else d.pop("batch_size", 1)
    if len(a) > 2: d["shuffle"] = a[2]
    if not isinstance(ds, Dataset): raise Unsupported("data loader of this")
    return Loader(ds, bs, d)

class Path_(Str):
    """A file name: a base and the components joined to it."""
    def __init__(s, base, parts): s.base, s.parts, s.name = base, tuple(parts), "path"
    def binop(s, op, y, sw):
        if op == "/" and not sw: return Path_(s.base, s.parts + (y,))
        return NotImplemented
    def getattr(s, n):
        if n == "mkdir": return Native(n, lambda a, k: cx().events.append(("mkdir", s)))
        if n == "joinpath": return Native(n, lambda a, k: Path_(s.base, s.parts + tuple(a)))
        if n == "open": return Native(n, lambda a, k: npmodel.open_([s] + list(a), k))
def join_(a, k):
    b = a[0]
    return Path_(b.base, b.parts + tuple(a[1:])) if isinstance(b, Path_) else Path_(b, a[1:])
LIBS["os.path"].table["join"] = Native("join", join_)
LIBS["pathlib"].table["Path"] = Native("Path", lambda a, k: a[0] if isinstance(a[0], Path_) and len(a) == 1 else join_(a, k))

def save(a, k): cx().events.append(("save", a[0], a[1] if len(a) > 1 else k["f"]))
def dump(a, k): cx().events.append(("dump", a[0], a[1] if len(a) > 1 else k["file"]))
LIBS["pickle"].table["dump"] = Native("dump", dump)

TORCH = {n: Native("torch." + n, f) for n, f in FN.items()}
TORCH.update({"nn": NN, "ones": Native("ones", filled(1)), "zeros": Native("zeros", filled(0)), "empty": Native("empty", filled(None)), "eye": Native("eye", eye), "randn": Native("randn", randn), "tensor": Native("tensor", tensor_), "as_tensor": Native("as_tensor", from_numpy), "from_numpy": Native("from_numpy", from_numpy), "no_grad": Native("no_grad", lambda a, k: NoGrad()), "inference_mode": Native("inference_mode", lambda a, k: NoGrad()), "enable_grad": Native("enable_grad", lambda a, k: NoGrad(False)), "set_grad_enabled": Native("set_grad_enabled", lambda a, k: NoGrad(not a[0])),
    "device": Native("device", lambda a, k: Device()), "cuda": NS("torch.cuda", {"is_available": Native("is_available", lambda a, k: False)}), "float32": FLOAT, "float64": FLOAT, "float": FLOAT, "double": FLOAT, "long": INT, "int64": INT, "bool": BOOL, "Tensor": Opaque("torch.Tensor"), "manual_seed": Native("manual_seed", lambda a, k: cx().events.append(("seed", "torch", a[0]))), "save": Native("save", save),
    "linalg": NS("torch.linalg", {"norm": Native("norm", lambda a, k: linalg_norm(T(a[0]), a[1] if len(a) > 1 else k.get("ord"), k.get("dim"))), "inv": TORCH["inverse"], "matrix_norm": Native("matrix_norm", lambda a, k: linalg_norm(T(a[0]), a[1] if len(a) > 1 else k.get("ord", "fro"))), "vector_norm": Native("vector_norm", lambda a, k: norm(T(a[0]), a[1] if len(a) > 1 else k.get("ord", 2), k.get("dim")))}),
    "optim": NS("torch.optim", {n: Native(n, optimizer) for n in ("AdamW", "Adam", "SGD", "RMSprop", "Adagrad")} | {"lr_scheduler": NS("lr_scheduler", {n: Native(n, lambda a, k: Scheduler()) for n in ("StepLR", "ExponentialLR", "MultiStepLR")})}),
    "utils": NS("torch.utils", {"data": NS("torch.utils.data", {"DataLoader": Native("DataLoader", loader), "TensorDataset": Native("TensorDataset", lambda a, k: Dataset([T(x) for x in a]))})})})
LIBS["torch"] = NS("torch", TORCH)
LIBS["torch.nn"] = NN; LIBS["torch.nn.parameter"] = NN.table["parameter"]; LIBS["torch.nn.functional"] = NN.table["functional"]; LIBS["torch.nn.init"] = NN.table["init"]
LIBS["torch.utils.data"] = TORCH["utils"].table["data"]; LIBS["torch.utils"] = TORCH["utils"]; LIBS["torch.linalg"] = TORCH["linalg"]; LIBS["torch.optim"] = TORCH["optim"]; LIBS["torch.optim.lr_scheduler"] = TORCH["optim"].table["lr_scheduler"]

# ------------------------------------------------------------------ sklearn
class Scaler:
    """StandardScaler: columns minus their mean, divided by their population standard deviation (by 1 when that is 0)."""
    def getattr(s, n):
        if n == "fit_transform": return Native(n, lambda a, k: s.fit(a).transform(a))
        if n == "fit": return Native(n, lambda a, k: s.fit(a))
        if n == "transform": return Native(n, lambda a, k: s.transform(a))
    def fit(s, a): s.x = a[0].fn(); s.sh = a[0].shape; return s
    def transform(s, a):
        y = arr.lift(a[0]); f = y.fn(); return arr.new(y.shape, "f", lambda i, j: standardized(s.x, s.sh, j, real(f(i, j))))
def standardized(x, sh, j, v):
    assumed("StandardScaler: each column minus its mean over its standard deviation (1 when that is zero)")
    n = sh[0]; j = num(j)
    mu = real(ssum([n], lambda o: real(x(o, j)))) / real(num(n))
    m, sc = lib_term("scaler", [n], [lambda o: real(x(o, j))], [(R, 0), (R, 0)])
    return (v - m()) / sc()
LIBS["sklearn.preprocessing"].table["StandardScaler"] = Native("StandardScaler", lambda a, k: Scaler())
def split_(a, k):
    if len(a) != 1: raise Unsupported("split of several arrays")
    x = a[0]; f = x.fn(); c = cx(); assumed("train_test_split: the rows divided in two nonempty parts, each row in one of them")
    n = num(x.shape[0]); n1 = c.const("ntrain", I); p = c.fn("splitrow", I, I); c.assume(n1 >= 1, n1 < n)
    c.events.append(("split", x, dict(k), p, n1)); i = c.int("i")
    c.axiom(z3.ForAll([i], z3.Implies(inr(i, n), inr(p(i), n)), patterns=[p(i)]))
    return [arr.new((n1,) + tuple(x.shape[1:]), x.dtype, lambda i, *r: f(p(num(i)), *r)), arr.new((z3.simplify(n - n1),) + tuple(x.shape[1:]), x.dtype, lambda i, *r: f(p(n1 + num(i)), *r))]
LIBS["sklearn.model_selection"].table["train_test_split"] = Native("train_test_split", split_)
