"""Contracts of Python builtins, NumPy, SciPy, itertools etc. as used by medil.  Anything missing is Unsupported."""
import ast, z3, itertools
from core import *
import core, arr, interp as I_
from arr import Arr, SList, SIter, Slice, Buf
from interp import *

def native(name):
    def d(f):
        return Native(name, f)
    return d

def argn(names, args, kw, **defaults):
    """Bind positional/keyword arguments of a native function."""
    d = dict(defaults)
    if len(args) > len(names): raise Unsupported("too many arguments for a library function")
    for n, v in zip(names, args): d[n] = v
    for k, v in kw.items():
        if k not in names: raise Unsupported(f"keyword {k} of a library function")
        d[k] = v
    return d

IP = [None]     # the running interpreter
def ip(): return IP[0]

def to_scalar(x):
    if isinstance(x, Arr): return x.scalar() if x.ndim == 0 else (x.at(*[z3.IntVal(0)] * x.ndim) if all(same(d, 1) is True for d in x.shape) else (_ for _ in ()).throw(PyRaise("TypeError", "only length-1 arrays")))
    return x

def dtype_arg(d):
    if d is None: return None
    if d in ("b", "i", "f"): return d
    if isinstance(d, PyType):
        return {"bool": "b", "int": "i", "float": "f"}.get(d.name)
    if isinstance(d, DType):
        if not d.exact: raise Unsupported(f"narrow type {d.name}")
        return d.k
    raise Unsupported(f"dtype {d}")

class PyType:
    def __init__(s, name, call=None): s.name, s.call_ = name, call
    def call(s, ipx, args, kw): return s.call_(args, kw)
    def __repr__(s): return f"<type {s.name}>"
class DType:
    """A NumPy scalar type; bits None for the platform default."""
    def __init__(s, k, name, exact=True): s.k, s.name, s.exact = k, name, exact
    def call(s, ipx, args, kw):
        if not s.exact: raise Unsupported(f"narrow type {s.name}")
        return arr.from_py(args[0], s.k) if isinstance(args[0], (list, tuple, Arr)) else arr.cast(args[0], s.k)
    def __repr__(s): return s.name

# ------------------------------------------------------------------ builtins
def _len(a, k):
    x = a[0]
    if isinstance(x, Arr):
        if x.ndim == 0: raise PyRaise("TypeError", "len of unsized")
        return x.shape[0]
    if isinstance(x, (list, tuple, dict, str, set, range)): return len(x)
    if isinstance(x, SList): return x.n
    if isinstance(x, SDict): return x.n
    if isinstance(x, SSet):
        r = card(x)
        if not cx().local: cx().assume((num(r) > 0) == tobool(set_nonempty(x)))
        return r
    if isinstance(x, NTVal): return len(x.vals)
    if hasattr(x, "len"): return x.len()
    raise Unsupported(f"len of {type(x).__name__}")

def card(s):
    """Cardinality of a symbolic set: canonical for the predicate."""
    if s.universe is None: raise Unsupported("size of a set without a universe")
    f = lib_term("card", [s.universe], [lambda x: tobool(s.member(x))], [(I, 0)], lambda fs, ds, body: [([], [fs[0]()], fs[0]() >= 0)])
    cx().assumed.add("len of a set: a nonnegative function of its elements")
    return f[0]()

def rng_(a, k):
    a = [to_scalar(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi, st):
        if isinstance(x, float) or is_z3(x) and z3.is_real(x): raise PyRaise("TypeError", "range of a float")
    c = [concrete(x) for x in (lo, hi, st)]
    if all(x is not None for x in c) and (c[2] != 0) and len(range(*c)) <= 100000: return range(*c)
    if c[2] == 1:
        n = dim(num(hi) - num(lo))
        if not isinstance(n, int) and cx().quick(num(n) >= 0) is not True: n = dim(z3.If(num(n) >= 0, num(n), z3.IntVal(0)))
        r = SIter(n, lambda i: z3.simplify(num(lo) + num(i)))
        r.rng = (lo, n); return r
    if c[2] == -1:
        n = dim(num(lo) - num(hi))
        if not isinstance(n, int) and cx().quick(num(n) >= 0) is not True: n = dim(z3.If(num(n) >= 0, num(n), z3.IntVal(0)))
        return SIter(n, lambda i: z3.simplify(num(lo) - num(i)))
    raise Unsupported("range step")

def as_iter(x):
    """Symbolic or concrete iterable: (items or None, (n, at) or None)."""
    it = ip().try_concrete(x)
    if it is not None: return it, None
    return None, ip().siter(x)

def enumerate_(a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    it, s = as_iter(a[0])
    if it is not None: return ListIter([(start + j, v) for j, v in enumerate(it)])
    n, at = s
    return SIter(n, lambda i: (z3.simplify(num(start) + num(i)), at(i)))

def zip_(a, k):
    parts = [as_iter(x) for x in a]
    if all(p[0] is not None for p in parts): return ListIter(list(zip(*[p[0] for p in parts])))
    ns, ats = [], []
    for p in parts:
        if p[0] is not None:
            l = p[0]; ns.append(len(l)); ats.append(lambda i, l=l: l[concrete(i)] if concrete(i) is not None else (_ for _ in ()).throw(Unsupported("zip of list and symbolic")))
        else: ns.append(p[1][0]); ats.append(p[1][1])
    n = ns[0]
    for m in ns[1:]:
        if same(n, m) is not True: n = dim(z3.If(num(n) <= num(m), num(n), num(m)))
    return SIter(n, lambda i: tuple(f(i) for f in ats))

def map_(a, k):
    f = a[0]
    h = getattr(a[1], "map", None)
    if h: return h(lambda *x: ip().call(f, list(x), {}))
    z = a[1] if len(a) == 2 else zip_(a[1:], {})
    it, s = as_iter(z)
    g = (lambda x: ip().call(f, [x], {})) if len(a) == 2 else (lambda x: ip().call(f, list(x), {}))
    if it is not None: return ListIter([g(x) for x in it])
    n, at = s
    return SIter(n, lambda i: g(at(i)))

def filter_(a, k):
    it, s = as_iter(a[1])
    if it is not None: return ListIter([x for x in it if cx().branch(ip().truth(ip().call(a[0], [x], {}) if a[0] is not None else x))])
    raise Unsupported("filter of a sequence of unknown length")

def minmax(which):
    def f(a, k):
        key = k.get("key")
        kf = (lambda v: v) if key is None else (lambda v: ip().call(key, [v], {}))
        if len(a) == 1:
            h = getattr(a[0], "minmax", None)
            if h: return h(which, kf, k)
            if isinstance(a[0], SSet):      # any element: which one the key selects is not used
                S = a[0]
                if S.universe is None: raise Unsupported("max of a set without a universe")
                if not cx().branch(simp2(set_nonempty(S))): raise PyRaise("ValueError", f"{which}() of empty")
                m = S.member; w = cx().int("pick"); cx().assume(inr(w, S.universe), tobool(m(w))); cx().ghost["picks"] = cx().ghost.get("picks", []) + [w]
                with bound(S.universe, extra=lambda x: tobool(m(x))) as (x,): kf(x)
                return w
            it, s = as_iter(a[0])
            if it is None:
                n, at = s
                c = cx()
                if c.quick(num(n) > 0) is not True: c.require("min/max of a nonempty sequence", num(n) > 0)
                w = c.int("am"); c.assume(inr(w, n))
                with bound(n) as (i,): v = num(kf(at(i)))
                vw = num(kf(at(w)))
                c.assume(forall([n], lambda i: (num(kf(at(i))) >= vw) if which == "min" else (num(kf(at(i))) <= vw)))
                return at(w)
            xs = it
        else: xs = list(a)
        if not xs:
            if "default" in k: return k["default"]
            raise PyRaise("ValueError", f"{which}() of empty")
        xs = [to_scalar(x) if isinstance(x, Arr) else x for x in xs]
        r, kr = xs[0], kf(xs[0])
        for x in xs[1:]:
            kx = kf(x)
            cnd = ip().truth(ip().compare("Lt", kx, kr) if which == "min" else ip().compare("Gt", kx, kr))
            if isinstance(cnd, bool):
                if cnd: r, kr = x, kx
            else:
                try: r, kr = merge(cnd, x, r), merge(cnd, kx, kr)
                except Unsupported:
                    if cx().branch(cnd): r, kr = x, kx
        return r
    return f

def sum__(a, k):
    it, s = as_iter(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if it is not None:
        r = start
        for x in it: r = ip().binop("+", r, x)
        return r
    n, at = s
    with bound(n) as (i,): e0 = at(i)
    if isinstance(e0, Arr):
        f = arr.new(e0.shape, e0.dtype if e0.dtype != "b" else "i", lambda *ix: ssum([n], lambda j: num(at(j).at(*ix))))
        return f if concrete(start) == 0 else ip().binop("+", start, f)
    r = ssum([n], lambda j: num(at(j)))
    return r if start == 0 else ip().binop("+", start, r)

def int_(a, k):
    if not a: return 0
    x = to_scalar(a[0])
    if isinstance(x, (bool, int, float)): return int(x)
    if isinstance(x, str): raise Unsupported("int of a string")
    return arr.cast(x, "i")
def float_(a, k):
    if not a: return 0.0
    x = to_scalar(a[0])
    if isinstance(x, (bool, int, float)): return float(x)
    if isinstance(x, str): return float(x)
    return real(x)
def bool_(a, k):
    return ip().truth(a[0]) if a else False
def list_(a, k):
    if not a: return []
    if hasattr(a[0], "copyl"): return a[0].copyl()
    it, s = as_iter(a[0])
    if it is not None: return list(it)
    n, at = s
    r = SList(n, at)
    return r
def tuple_(a, k):
    if not a: return ()
    it, s = as_iter(a[0])
    if it is not None: return tuple(it)
    n, at = s
    return SList(n, at, mutable=False)
def set_(a, k):
    if not a: return set()
    x = a[0]
    if isinstance(x, SSet): return x.copy()
    if isinstance(x, SIter) and hasattr(x, "rng"):
        lo, n = x.rng
        if same(lo, 0) is True: return SSet(lambda v: inr(v, n), n)
    if isinstance(x, SDict): return SSet(lambda v: inr(v, x.n), x.n)
    if isinstance(x, Arr) and x.ndim == 1:
        mk = x.meta.get("nz") or x.meta.get("mask")
        if mk and mk[0].ndim == 1 and x.meta.get("below") is not None:
            m = mk[0]; mf = m.fn(); return SSet(lambda v: z3.And(inr(v, m.shape[0]), tobool(mf(num(v)))), m.shape[0])
    it, s = as_iter(x)
    if it is not None:
        if all(isinstance(v, (int, str, tuple, float, bool)) for v in it): return set(it)
        return SSet(lambda v, it=[num(y) for y in it]: z3.Or([num(v) == y for y in it] or [False]))
    n, at = s
    r = SSet(lambda v: exists([n], lambda k: num(at(k)) == num(v))); r.img = (r.member, (n, lambda k: True, at))
    return r
def abs_(a, k):
    x = a[0]
    if isinstance(x, (int, float)): return abs(x)
    return arr.ewise(rabs, x.dtype if isinstance(x, Arr) and x.dtype != "b" else ("i" if isinstance(x, Arr) else None), x)
def isinstance_(a, k):
    x, t = a
    ts = t if isinstance(t, tuple) else (t,)
    r = False
    for q in ts:
        if isinstance(q, PyType):
            r = r or {"int": isinstance(x, int) or is_z3(x) and z3.is_int(x), "float": isinstance(x, float) or is_z3(x) and z3.is_real(x), "bool": isinstance(x, bool), "str": isinstance(x, (str, Str)), "list": isinstance(x, list), "tuple": isinstance(x, tuple), "dict": isinstance(x, dict), "set": isinstance(x, (set, SSet)), "ndarray": isinstance(x, Arr)}.get(q.name, False)
        elif isinstance(q, Class): r = r or (isinstance(x, Obj) and x.cls.subclass_of(q))
        else: raise Unsupported("isinstance with an unknown class")
    return bool(r)
def next_(a, k):
    x = a[0]
    if hasattr(x, "next"):
        try: return x.next()
        except PyRaise as e:
            if e.kind == "StopIteration" and len(a) > 1: return a[1]
            raise
    raise Unsupported("next of this iterator")
def iter_(a, k):
    x = a[0]
    if isinstance(x, list) or isinstance(x, tuple): return ListIter(x)
    return x
def sorted_(a, k):
    it, s = as_iter(a[0])
    if it is not None and all(isinstance(v, (int, float, str)) for v in it) and "key" not in k: return sorted(it, reverse=bool(k.get("reverse", False)))
    if it is not None and all(isinstance(v, tuple) and all(isinstance(w, int) for w in v) for v in it) and "key" not in k: return sorted(it, reverse=bool(k.get("reverse", False)))
    if it is None and "key" not in k and not k.get("reverse"):
        if isinstance(a[0], SSet): x = distinct(*a[0].image, "i") if a[0].image is not None else distinct(a[0].universe, a[0].member, lambda q: q, "i")
        else: x = sort_copy(arr.from_py(SList(*s)))
        if x.ndim == 1: return SList(x.shape[0], x.at)
    raise Unsupported("sorting symbolic values")
def reversed_(a, k):
    x = a[0]
    it = ip().try_concrete(x)
    if it is not None: return ListIter(it[::-1])
    n, at = ip().siter(x)
    return SIter(n, lambda i: at(z3.simplify(num(n) - 1 - num(i))))
def anyall(which):
    def f(a, k):
        it, s = as_iter(a[0])
        if it is not None:
            fs = [ip().truth(x) for x in it]
            if all(isinstance(x, bool) for x in fs): return any(fs) if which == "any" else all(fs)
            return simp2((OrL if which == "any" else AndL)([tobool(x) for x in fs]))
        n, at = s
        return simp2((exists if which == "any" else forall)([n], lambda i: tobool(ip().truth(at(i)))))
    return f
def hasattr_(a, k): return ip().hasattr(a[0], a[1])
def getattr_(a, k):
    try: return ip().getattr(a[0], a[1])
    except PyRaise as e:
        if e.kind == "AttributeError" and len(a) > 2: return a[2]
        raise
def setattr_(a, k): ip().setattr(a[0], a[1], a[2])
def round__(a, k):
    x = to_scalar(a[0])
    if isinstance(x, (int, float)) and len(a) == 1: return round(x)
    if len(a) > 1: raise Unsupported("round to digits")
    return round_(x)
def divmod_(a, k): return (arr.floordiv(a[0], a[1]), arr.mod(a[0], a[1]))
def dict_(a, k):
    d = {}
    if a:
        if isinstance(a[0], dict): d.update(a[0])
        else:
            for kv in ip().concrete_iter(a[0]): d[kv[0]] = kv[1]
    d.update(k); return d

B_ = BUILTINS
for n, f in dict(len=_len, range=rng_, enumerate=enumerate_, zip=zip_, map=map_, filter=filter_, min=minmax("min"), max=minmax("max"), sum=sum__, abs=abs_, isinstance=isinstance_, next=next_, iter=iter_, sorted=sorted_, reversed=reversed_, any=anyall("any"), all=anyall("all"), hasattr=hasattr_, getattr=getattr_, setattr=setattr_, round=round__, divmod=divmod_,
                 print=lambda a, k: None, id=lambda a, k: Opaque("id"), repr=lambda a, k: Str("repr"), callable=lambda a, k: isinstance(a[0], (Func, Native, Bound)), vars=lambda a, k: dict(a[0].attrs) if isinstance(a[0], Obj) else (_ for _ in ()).throw(Unsupported("vars")), pow=lambda a, k: ip().binop("**", a[0], a[1])).items():
    B_[n] = Native(n, f)
for n, f in dict(int=int_, float=float_, bool=bool_, list=list_, tuple=tuple_, set=set_, frozenset=set_, str=lambda a, k: str(a[0]) if a and isinstance(a[0], (int, str)) else Str("str"), dict=dict_).items():
    B_[n] = PyType(n, f)
def _otype(a, k): raise Unsupported("object()")
class _ObjectType:
    def lookup(s, n): return None
B_["object"] = _ObjectType()
B_["type"] = Native("type", lambda a, k: a[0].cls if isinstance(a[0], Obj) else (_ for _ in ()).throw(Unsupported("type()")))
def open_(a, k):
    cx().events.append(("open", a[0]))
    return FileModel()
class FileModel:
    def enter(s): return s
    def exit(s): pass
    def getattr(s, n):
        if n in ("write", "flush", "close", "writelines"): return Native(n, lambda a, k: None)
B_["open"] = Native("open", open_)
for kn in list(EXC_PARENTS) + ["BaseException"]: B_[kn] = ExcClass(kn)
B_["True"], B_["False"], B_["None"] = True, False, None

# ------------------------------------------------------------------ methods of builtin values
def methods(ipx, o, n):
    if isinstance(o, Arr): return arr_method(o, n)
    if isinstance(o, list): return list_method(ipx, o, n)
    if isinstance(o, SList): return slist_method(ipx, o, n)
    if isinstance(o, SSet): return sset_method(ipx, o, n)
    if isinstance(o, (set, frozenset)): return pyset_method(ipx, o, n)
    if isinstance(o, dict): return dict_method(ipx, o, n)
    if isinstance(o, SDict):
        if n == "items": return (Native(n, lambda a, k: SIter(o.n, lambda i: (i, o.at(num(i))))),)
        if n == "values": return (Native(n, lambda a, k: SIter(o.n, lambda i: o.at(num(i)))),)
        if n == "keys": return (Native(n, lambda a, k: rng_([o.n], {})),)
    if isinstance(o, tuple):
        if n == "index": return list_method(ipx, list(o), n)
        if n == "count": return list_method(ipx, list(o), n)
    if isinstance(o, (str, Str)):
        if n == "join": return (Native(n, lambda a, k: Str("joined")),)
        if isinstance(o, str) and n in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace"):
            def f(a, k):
                if all(isinstance(x, (str, tuple)) for x in a): return getattr(o, n)(*a)
                raise Unsupported("string method")
            return (Native(n, f),)
        return (Native(n, lambda a, k: Str(n)),)
    if isinstance(o, (int, float)) or is_z3(o): return scalar_method(o, n)
    return None
METHODS.append(methods)

def scalar_method(o, n):
    if n == "item": return (Native(n, lambda a, k: o),)
    if n == "T": return (o,)
    if n == "shape": return ((),)
    if n == "ndim": return (0,)
    if n == "size": return (1,)
    if n in ("astype", "sum", "mean", "any", "all", "clip", "copy", "max", "min", "round", "flatten", "ravel", "reshape") and not isinstance(o, Arr):
        a0 = arr.lift(o)
        r = arr_method(a0, n)
        if r is None: return None
        def f(a, k):
            v = r[0].fn(a, k)
            return v.scalar() if isinstance(v, Arr) and v.ndim == 0 else v
        return (Native(n, f),)
    if n in ("is_integer", "bit_length", "conjugate", "real"): return None
    return None

def list_method(ipx, l, n):
    def app(a, k): ipx.effect(l); l.append(a[0])
    def pop(a, k):
        i = -1 if not a else concrete(a[0])
        if not l: raise PyRaise("IndexError", "pop from empty list")
        ipx.effect(l); return l.pop(int(i))
    def popleft(a, k):
        if not l: raise PyRaise("IndexError", "pop from empty deque")
        ipx.effect(l); return l.pop(0)
    def extend(a, k): ipx.list_extend(l, a[0])
    def insert(a, k): ipx.effect(l); l.insert(concrete(a[0]), a[1])
    def index(a, k):
        for j, x in enumerate(l):
            r = ipx.truth(ipx.compare("Eq", x, a[0]))
            if cx().branch(r): return j
        raise PyRaise("ValueError", "not in list")
    def copy(a, k): return list(l)
    def clear(a, k): ipx.effect(l); l.clear()
    def reverse(a, k): ipx.effect(l); l.reverse()
    def count(a, k):
        return arr.cast(sum([num(tobool(ipx.truth(ipx.compare("Eq", x, a[0])))) for x in l], z3.IntVal(0)), "i")
    t = dict(append=app, pop=pop, popleft=popleft, extend=extend, insert=insert, index=index, copy=copy, clear=clear, reverse=reverse, count=count)
    return (Native("list." + n, t[n]),) if n in t else None

def slist_method(ipx, l, n):
    def app(a, k):
        ipx.effect(l)
        old_n, old_at, v = l.n, l.at_, freeze(a[0])
        def at(i):
            q = cx().quick(num(i) < num(old_n))
            if q is True: return old_at(i)
            if q is False: return v
            return merge(num(i) < num(old_n), old_at(i), v)
        l.n = dim(num(old_n) + 1); l.at_ = at
    if n == "append": return (Native("append", app),)
    if n == "copy": return (Native("copy", lambda a, k: SList(l.n, l.at_)),)
    return None

def sset_method(ipx, s, n):
    def pop(a, k):
        ne = simp2(set_nonempty(s))
        if not cx().branch(ne): raise PyRaise("KeyError", "pop from an empty set")
        x = cx().int("pop"); cx().assume(tobool(s.member(x))); cx().ghost["picks"] = cx().ghost.get("picks", []) + [x]
        m = s.member; ipx.effect(s); s.member = lambda v: z3.And(tobool(m(v)), num(v) != x)
        return x
    def remove(a, k):
        if not cx().branch(simp2(tobool(s.member(num(a[0]))))): raise PyRaise("KeyError", "remove")
        m, x = s.member, num(a[0]); ipx.effect(s); s.member = lambda v: z3.And(tobool(m(v)), num(v) != x)
    def discard(a, k):
        m, x = s.member, num(a[0]); ipx.effect(s); s.member = lambda v: z3.And(tobool(m(v)), num(v) != x)
    def add(a, k):
        m, x = s.member, num(a[0]); ipx.effect(s); s.member = lambda v: z3.Or(tobool(m(v)), num(v) == x)
    def setop(op, inplace=False):
        def f(a, k):
            r = s
            for o in a: r = set_op(op, r, o if isinstance(o, (SSet, set)) else set_([o], {}))
            if inplace: ipx.effect(s); s.member = r.member; return None
            return r if r is not s else s.copy()
        return f
    def issubset(a, k):
        o = a[0]; return simp2(forall([s.universe], lambda x: z3.Implies(tobool(s.member(x)), tobool(o.member(x)))))
    t = dict(pop=pop, remove=remove, discard=discard, add=add, copy=lambda a, k: s.copy(), intersection=setop("&"), union=setop("|"), difference=setop("-"), intersection_update=setop("&", True), difference_update=setop("-", True), update=setop("|", True), issubset=issubset)
    return (Native("set." + n, t[n]),) if n in t else None

def pyset_method(ipx, s, n):
    def add(a, k):
        ipx.effect(s)
        if is_z3(a[0]):
            c = concrete(a[0])
            if c is None: raise Unsupported("symbolic element of a concrete set")
            s.add(c)
        else: s.add(a[0])
    t = dict(add=add, copy=lambda a, k: set(s), discard=lambda a, k: s.discard(a[0]), remove=lambda a, k: s.remove(a[0]))
    return (Native("set." + n, t[n]),) if n in t else None

def dict_method(ipx, d, n):
    t = dict(items=lambda a, k: ListIter(list(d.items())), keys=lambda a, k: ListIter(list(d)), values=lambda a, k: ListIter(list(d.values())), get=lambda a, k: d.get(a[0], a[1] if len(a) > 1 else None), copy=lambda a, k: dict(d), update=lambda a, k: (ipx.effect(d), d.update(*(a if a else []), **k), None)[-1], pop=lambda a, k: (ipx.effect(d), d.pop(*a))[-1], setdefault=lambda a, k: (ipx.effect(d), d.setdefault(*a))[-1])
    return (Native("dict." + n, t[n]),) if n in t else None

# ------------------------------------------------------------------ array methods
def arr_method(o, n):
    if n == "T": return (arr.transpose(o),)
    if n == "shape": return (tuple(o.shape),)
    if n == "ndim": return (o.ndim,)
    if n == "size": return (arr.size(o),)
    if n == "dtype": return (DType(o.dtype, {"b": "bool", "i": "int64", "f": "float64"}[o.dtype]),)
    if n == "flat": return (arr.ravel(o),)
    f = NP_METHODS.get(n)
    if f is not None: return (Native("ndarray." + n, lambda a, k: f([o] + list(a), k)),)
    return None

def astype_m(a, k):
    d = argn(["a", "dtype", "order", "casting", "subok", "copy"], a, k)
    dt = d["dtype"]
    if isinstance(dt, DType) and not dt.exact:
        if dt.k == "f":
            x = arr.lift(d["a"])
            if x.dtype == "b": return arr.astype(x, "f")
            cx().assumed.add(f"{dt.name}: an arbitrary rounding function"); f = x.fn(); rn = uf(dt.name, R, R)
            return arr.new(x.shape, "f", lambda *i: rn(z3.simplify(real(f(*i)), som=True)))
        else: raise Unsupported(f"conversion to {dt.name} (may wrap)")
    return arr.astype(d["a"], dtype_arg(dt))
def reshape_m(a, k):
    x = arr.lift(a[0]); sh = a[1:] if not k else [k["shape"]]
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = sh[0]
    return arr.reshape(x, list(sh))
def red(fn):
    def f(a, k):
        d = argn(["a", "axis", "dtype", "out", "keepdims"], a, k, axis=None, keepdims=False)
        if d.get("out") is not None: raise Unsupported("out=")
        x = arr.lift(d["a"])
        r = fn(x, d["axis"], bool(d["keepdims"]))
        if d.get("dtype") is not None: r = arr.astype(r, dtype_arg(d["dtype"])) if isinstance(r, Arr) else arr.cast(r, dtype_arg(d["dtype"]))
        return r
    return f
def clip_m(a, k):
    d = argn(["a", "lo", "hi"], a, {({"min": "lo", "a_min": "lo", "max": "hi", "a_max": "hi"}.get(x, x)): v for x, v in k.items()}, lo=None, hi=None)
    r = d["a"]
    if d["lo"] is not None: r = maximum([r, d["lo"]], {})
    if d["hi"] is not None: r = minimum([r, d["hi"]], {})
    return r
def _mm(f):
    def g(a, k):
        A = a[:2]
        dts = [x.dtype if isinstance(x, Arr) else arr.dtype_of_scalar(x) for x in A]
        dt = max(dts, key=arr.RANK.get)
        def op(x, y):
            x, y = arr.cast(x, dt), arr.cast(y, dt)
            return f(x, y)
        return arr.ewise(op, dt, *A)
    return g
maximum = _mm(lambda x, y: ite(x >= y, x, y)); minimum = _mm(lambda x, y: ite(x <= y, x, y))
def extremum(which):
    def g(x, axis, keepdims):
        def fn(ds, b):
            # a value attained and not exceeded: canonical for the contents
            c = cx()
            if all(isinstance(d, int) and d <= EXPAND for d in ds):
                vs = [num(b(*map(z3.IntVal, ks))) for ks in itertools.product(*[range(d) for d in ds])]
                if not vs: raise PyRaise("ValueError", "zero-size reduction")
                r = vs[0]
                for v in vs[1:]: r = ite(v >= r if which == "max" else v <= r, v, r)
                return r
            def facts(fs, dd, body):
                v = fs[0](); ks = [c.int("k") for _ in dd]; ws = [w() for w in fs[1:]]
                bv = body(*ks); bw = body(*ws)
                rng = z3.And([inr(q, d) for q, d in zip(ks, dd)])
                pats = [q for q in core._patterns_for(bv, ks)]
                return [([], [v], z3.Implies(z3.And([d > 0 for d in dd]), z3.And(*[inr(w, d) for w, d in zip(ws, dd)], bw == v))),
                        (ks, [z3.MultiPattern(v, *pats)] if pats else None, z3.Implies(rng, bv <= v if which == "max" else bv >= v))]
            with bound(*ds) as ks0: s0 = num(b(*ks0)).sort()
            return lib_term(which, ds, [lambda *ks: num(b(*ks))], [(s0, 0)] + [(I, 0)] * len(ds), facts)[0]()
        return arr.reduce_(x, axis, fn, x.dtype, keepdims)
    return g
def argext(which):
    def f(a, k):
        d = argn(["a", "axis"], a, k, axis=None)
        x = arr.lift(d["a"])
        fx = x.fn()
        if x.ndim != 1 and d["axis"] is None: x = arr.ravel(x); fx = x.fn()
        ax = arr._axes(x, d["axis"])[0] if d["axis"] is not None else 0
        keep = [q for q in range(x.ndim) if q != ax]; n = x.shape[ax]
        c = cx()
        c.assumed.add("argmax/argmin: the first position of an extreme value")
        def at(*i):
            def body(kk):
                idx = [None] * x.ndim
                for q, v in zip(keep, i): idx[q] = v
                idx[ax] = kk
                return num(fx(*idx))
            def facts(fs, dd, bd):
                w = fs[0](); q = c.int("k"); bw = bd(w); bq = bd(q)
                pats = core._patterns_for(bq, [q])
                better = (bq <= bw) if which == "max" else (bq >= bw)
                strictly = (bq < bw) if which == "max" else (bq > bw)
                return [([], [w], z3.Implies(dd[0] > 0, inr(w, dd[0]))), ([q], [z3.MultiPattern(w, *pats)] if pats else None, z3.Implies(inr(q, dd[0]), z3.And(better, z3.Implies(q < w, strictly))))]
            return lib_term("arg" + which, [n], [body], [(I, 0)], facts)[0]()
        if not keep:
            cx().require("argmax/argmin of a nonempty array", num(n) > 0)
            return at()
        r = arr.new([x.shape[q] for q in keep], "i", at); r.meta["below"] = n
        return r
    return f
def diagonal_m(a, k):
    x = a[0]; off = concrete(a[1] if len(a) > 1 else k.get("offset", 0))
    if off != 0: raise Unsupported("diagonal offset")
    return arr.diag_view(x)
def dot_m(a, k):
    x, y = arr.lift(a[0]), arr.lift(a[1])
    if x.ndim == 0 or y.ndim == 0: return arr.binop("*", a[0], a[1])
    return arr.matmul(x, y)
def cumsum_m(a, k):
    d = argn(["a", "axis"], a, k, axis=None)
    x = arr.lift(d["a"])
    if x.ndim != 1: raise Unsupported("cumsum of a matrix")
    f = x.fn()
    return arr.new(x.shape, "i" if x.dtype in "bi" else "f", lambda i: ssum([dim(num(i) + 1)], lambda j: num(f(j))))
def trace_m(a, k):
    x = a[0]; f = x.fn(); n = arr.diag_view(x).shape[0]
    return arr.cast(ssum([n], lambda i: num(f(i, i))), "i" if x.dtype in "bi" else "f")
def round_m(a, k):
    if len(a) > 1 and concrete(a[1]) != 0: raise Unsupported("round to digits")
    x = a[0]
    if isinstance(x, (int, float)): return float(round_c(x))
    return arr.ewise(lambda v: z3.ToReal(round_(v)) if z3.is_real(num(v)) else num(v), None if not isinstance(x, Arr) else x.dtype, x)
def round_c(x):
    return round(x)
def copy_m(a, k): return arr.copy(arr.lift(a[0]))
def var_m(x, axis, keepdims, ddof=0):
    m = arr.mean(x, axis, True)
    d2 = arr.binop("**", arr.binop("-", x, m), 2)
    n = arr.prod([x.shape[q] for q in arr._axes(x, axis)])
    return arr.binop("/", arr.sum_(d2, axis, keepdims), arr.binop("-", n, ddof))
def var_(a, k):
    k = dict(k); ddof = k.pop("ddof", 0)
    return red(lambda x, ax, kd: var_m(x, ax, kd, ddof))(a, k)
def std_(a, k):
    v = var_(a, k)
    return arr.ewise(lambda x: sqrt_(x), "f", v)
def sort_copy(x):
    """Sorted values of a vector: canonical; nondecreasing; equals the input when that is nondecreasing."""
    f = x.fn(); c = cx(); n = x.shape[0]
    c.assumed.add("sort: a nondecreasing rearrangement")
    srt = {"i": I, "f": R}[x.dtype if x.dtype != "b" else "i"]
    def facts(fs, dd, body):
        i, j = c.int("i"), c.int("j")
        s, p, q = fs
        return [([i, j], [z3.MultiPattern(s(i), s(j))], z3.Implies(z3.And(i >= 0, i <= j, j < dd[0]), s(i) <= s(j))),
                ([i], [s(i)], z3.Implies(inr(i, dd[0]), z3.And(inr(p(i), dd[0]), body(p(i)) == s(i), q(p(i)) == i))),
                ([i], [q(i)], z3.Implies(inr(i, dd[0]), z3.And(inr(q(i), dd[0]), p(q(i)) == i)))]
    fs = lib_term("sort", [n], [lambda i: num(f(i))], [(srt, 1), (I, 1), (I, 1)], facts)
    r = arr.new((n,), x.dtype, lambda i: fs[0](i))
    r.meta["sorted"] = True
    return r
def argsort_(a, k):
    d = argn(["a", "axis", "kind", "stable"], a, {q: v for q, v in k.items()}, axis=-1, kind=None)
    x = arr.lift(d["a"])
    if x.ndim != 1: raise Unsupported("argsort of a matrix")
    f = x.fn(); c = cx(); n = x.shape[0]; kind = str(d["kind"] or "quicksort")
    c.assumed.add("argsort: a permutation ordering the values (ties in an order that depends only on the ranks for kind=quicksort, an assumption)")
    key = "argsort"
    def facts(fs, dd, body):
        i, j = c.int("i"), c.int("j"); p, q = fs
        out = [([i], [p(i)], z3.Implies(inr(i, dd[0]), z3.And(inr(p(i), dd[0]), q(p(i)) == i))), ([i], [q(i)], z3.Implies(inr(i, dd[0]), z3.And(inr(q(i), dd[0]), p(q(i)) == i))),
               ([i, j], [z3.MultiPattern(p(i), p(j))], z3.Implies(z3.And(i >= 0, i <= j, j < dd[0]), body(p(i)) <= body(p(j))))]
        return out
    fs = lib_term("argsort", [n], [lambda i: num(f(i))], [(I, 1), (I, 1)], facts)
    r = arr.new((n,), "i", lambda i: fs[0](i)); r.meta["below"] = n; r.meta["inv"] = lambda i: (inr(i, n), fs[1](i))
    return r
def sort_inplace(a, k):
    x = a[0]
    axis = concrete(k.get("axis", a[1] if len(a) > 1 else -1))
    if x.ndim == 1: r = sort_copy(x); f = r.fn(); x.set_view(lambda i: f(i)); return None
    if x.ndim == 2 and axis in (-1, 1) and same(x.shape[1], 2) is True:
        f = x.fn(); z, o = z3.IntVal(0), z3.IntVal(1)
        x.set_view(lambda i, j: ite(num(j) == 0, ite(num(f(i, z)) <= num(f(i, o)), f(i, z), f(i, o)), ite(num(f(i, z)) <= num(f(i, o)), f(i, o), f(i, z))))
        return None
    raise Unsupported("in-place sort of a matrix")
def sort_fn(a, k):
    x = arr.copy(arr.lift(a[0])); sort_inplace([x] + list(a[1:]), k); return x
def take_along(a, k): raise Unsupported("take_along_axis")
def repeat_(a, k):
    d = argn(["a", "n", "axis"], a, k, axis=None)
    x, n = arr.lift(d["a"]), d["n"]
    if isinstance(n, (Arr, list)): raise Unsupported("repeat with counts")
    if d["axis"] is None: x = arr.ravel(x) if x.ndim else arr.reshape(x, [1]); ax = 0
    else: ax = arr._axes(x, d["axis"])[0]
    f = x.fn(); sh = list(x.shape); sh[ax] = dim(num(sh[ax]) * num(n))
    if same(x.shape[ax], 1) is True: return arr.new(sh, x.dtype, lambda *i: f(*[z3.IntVal(0) if q == ax else v for q, v in enumerate(i)]))
    return arr.new(sh, x.dtype, lambda *i: f(*[num(v) / num(n) if q == ax else v for q, v in enumerate(i)]))

NP_METHODS = dict(astype=astype_m, copy=copy_m, reshape=reshape_m, ravel=lambda a, k: arr.ravel(a[0]), flatten=lambda a, k: arr.copy(arr.ravel(a[0])),
    sum=red(arr.sum_), mean=red(arr.mean), any=red(arr.any_), all=red(arr.all_), max=red(extremum("max")), min=red(extremum("min")), argmax=argext("max"), argmin=argext("min"), dot=dot_m, clip=clip_m,
    nonzero=lambda a, k: arr.nonzero(a[0]), diagonal=diagonal_m, trace=trace_m, cumsum=cumsum_m, transpose=lambda a, k: arr.transpose(arr.lift(a[0]), (a[1] if len(a) == 2 and isinstance(a[1], (tuple, list)) else a[1:]) if len(a) > 1 else None),
    round=round_m, tolist=lambda a, k: tolist(a[0]), item=lambda a, k: to_scalar(a[0]), sort=sort_inplace, argsort=argsort_, std=std_, var=var_, fill=lambda a, k: fill_(a[0], a[1]), squeeze=lambda a, k: squeeze_(a, k), repeat=repeat_, view=lambda a, k: (_ for _ in ()).throw(Unsupported("view of another type")), swapaxes=lambda a, k: swapaxes_(a), prod=lambda a, k: prod_(a, k), conj=lambda a, k: a[0])

def prod_(a, k):
    x = arr.lift(a[0])
    if x.ndim == 1 and isinstance(x.shape[0], int):
        r = 1
        for j in range(x.shape[0]): r = arr._mul(r, x.at(z3.IntVal(j)))
        return r
    raise Unsupported("product of unknown length")
def swapaxes_(a):
    p = list(range(a[0].ndim)); i, j = [int(concrete(v)) % a[0].ndim for v in a[1:3]]; p[i], p[j] = p[j], p[i]
    return arr.transpose(a[0], p)
def squeeze_(a, k):
    x = arr.lift(a[0])
    ax = a[1] if len(a) > 1 else k.get("axis")
    drop = [q for q, d in enumerate(x.shape) if same(d, 1) is True] if ax is None else list(arr._axes(x, ax))
    return arr.basic(x, [0 if q in drop else Slice(None, None, None) for q in range(x.ndim)])
def fill_(x, v): e = to_scalar(v); x.set_view(lambda *i: e)
def tolist(x):
    if x.ndim == 1 and isinstance(x.shape[0], int): return [x.at(z3.IntVal(j)) for j in range(x.shape[0])]
    if x.ndim == 1: f = x.fn(); return SList(x.shape[0], lambda i: f(i))
    raise Unsupported("tolist")

# ------------------------------------------------------------------ numpy namespace
NPT = {}
def np_(*names):
    def d(f):
        for n in names: NPT[n] = Native("numpy." + n, f)
        return f
    return d

def shape_arg(s):
    if isinstance(s, Arr): s = [s.at(z3.IntVal(j)) for j in range(s.shape[0])] if s.ndim == 1 else [s.scalar()]
    if isinstance(s, (list, tuple)): return tuple(dim(to_scalar(x)) for x in s)
    return (dim(s),)
def nonneg_shape(sh):
    for d in sh:
        if isinstance(d, int):
            if d < 0: raise PyRaise("ValueError", "negative dimensions")
        elif cx().quick(num(d) >= 0) is not True: cx().require("dimension nonnegative", num(d) >= 0)
def filled(v, name="zeros"):
    def f(a, k):
        d = argn(["shape", "dtype", "order"], a, k, dtype="f")
        sh = shape_arg(d["shape"]); nonneg_shape(sh)
        if isinstance(d["dtype"], DType) and not d["dtype"].exact and d["dtype"].k != "f": raise Unsupported(f"narrow type {d['dtype'].name}")
        dt = dtype_arg(d["dtype"]) or "f"
        if v is None:
            r = arr.sym_arr("empty", sh, dt); return r
        return arr.const_arr(sh, dt, v)
    return f
np_("zeros")(filled(0)); np_("ones")(filled(1)); np_("empty")(filled(None))
def full_(a, k):
    d = argn(["shape", "v", "dtype"], a, {("v" if q == "fill_value" else q): v for q, v in k.items()}, dtype=None)
    v = to_scalar(d["v"]); sh = shape_arg(d["shape"]); nonneg_shape(sh)
    return arr.const_arr(sh, dtype_arg(d["dtype"]) or arr.dtype_of_scalar(v), v)
np_("full")(full_)
def like(v):
    def f(a, k):
        d = argn(["a", "dtype", "order", "subok", "shape"], a, k, dtype=None)
        x = arr.lift(d["a"]); dt = dtype_arg(d["dtype"]) or x.dtype
        return arr.const_arr(x.shape, dt, v) if v is not None else arr.sym_arr("empty", x.shape, dt)
    return f
np_("zeros_like")(like(0)); np_("ones_like")(like(1)); np_("empty_like")(like(None))
np_("full_like")(lambda a, k: arr.const_arr(arr.lift(a[0]).shape, dtype_arg(k.get("dtype")) or arr.lift(a[0]).dtype, to_scalar(a[1])))
def array_(a, k):
    d = argn(["x", "dtype", "copy", "order", "ndmin"], a, {("x" if q == "object" else q): v for q, v in k.items()}, dtype=None)
    x = d["x"]
    if isinstance(d["dtype"], DType) and not d["dtype"].exact: raise Unsupported("narrow type")
    h = getattr(x, "as_array", None)
    if h: return h()
    if isinstance(x, ListIter): raise Unsupported("array of an iterator")
    return arr.from_py(x, dtype_arg(d["dtype"]))
np_("array")(array_)
def asarray_(a, k):
    d = argn(["x", "dtype"], a, {q: v for q, v in k.items() if q not in ("order",)}, dtype=None)
    if isinstance(d["x"], Arr) and (d["dtype"] is None or dtype_arg(d["dtype"]) == d["x"].dtype): return d["x"]
    return array_([d["x"]], {"dtype": d["dtype"]})
np_("asarray", "ascontiguousarray", "asanyarray")(asarray_)
np_("copy")(copy_m)
def eye_(a, k):
    d = argn(["n", "m", "k", "dtype"], a, {({"N": "n", "M": "m"}.get(q, q)): v for q, v in k.items()}, m=None, k=0, dtype="f")
    n = dim(to_scalar(d["n"])); m = dim(to_scalar(d["m"])) if d["m"] is not None else n; dt = dtype_arg(d["dtype"]); off = num(d["k"])
    nonneg_shape((n, m))
    return arr.new((n, m), dt, lambda i, j: arr.cast(num(j) - num(i) == off, dt))
np_("eye", "identity")(eye_)
def arange_(a, k):
    a = [to_scalar(x) for x in a]; dt = dtype_arg(k.get("dtype"))
    if any(isinstance(x, float) or is_z3(x) and z3.is_real(x) for x in a): raise Unsupported("arange of floats")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    s = concrete(st)
    if s not in (1, -1): raise Unsupported("arange step")
    n = dim(num(hi) - num(lo)) if s == 1 else dim(num(lo) - num(hi))
    if isinstance(n, int): n = max(0, n)
    elif cx().quick(num(n) >= 0) is not True: n = dim(z3.If(num(n) >= 0, num(n), z3.IntVal(0)))
    r = arr.new((n,), dt or "i", lambda i: num(lo) + num(i) if s == 1 else num(lo) - num(i))
    if s == 1: r.meta["arange"] = (lo,)
    if s == 1 and same(lo, 0) is True: r.meta["below"] = n
    return r
np_("arange")(arange_)
def triu_indices_(a, k, lower=False):
    d = argn(["n", "k", "m"], a, k, k=0, m=None)
    n = dim(to_scalar(d["n"])); m = n if d["m"] is None else dim(d["m"]); off = num(to_scalar(d["k"]))
    nonneg_shape((n, m))
    mask = arr.new((n, m), "b", (lambda i, j: num(j) - num(i) >= off) if not lower else (lambda i, j: num(j) - num(i) <= off))
    r = arr.nonzero(mask)
    if not lower and same(n, m) is True and concrete(off) == 1:
        cx().assumed.add("a strict upper triangle of order n has n(n-1)/2 entries")
        cnt = r[0].shape[0]
        cx().assume(z3.Implies(num(n) >= 0, 2 * num(cnt) == num(n) * (num(n) - 1)))
    return r
np_("triu_indices")(triu_indices_)
np_("tril_indices")(lambda a, k: triu_indices_(a, k, True))
np_("triu_indices_from")(lambda a, k: triu_indices_([a[0].shape[0]] + list(a[1:]), k))
np_("tril_indices_from")(lambda a, k: triu_indices_([a[0].shape[0]] + list(a[1:]), k, True))
np_("triu")(lambda a, k: arr.triu(arr.lift(a[0]), *(a[1:] or [k.get("k", 0)])))
np_("tril")(lambda a, k: arr.tril(arr.lift(a[0]), *(a[1:] or [k.get("k", 0)])))
def fill_diag_(a, k): arr.fill_diagonal(a[0], a[1] if len(a) > 1 else k["val"])
np_("fill_diagonal")(fill_diag_)
def diag_(a, k):
    x = arr.lift(a[0]); off = a[1] if len(a) > 1 else k.get("k", 0)
    if concrete(off) != 0: raise Unsupported("diag offset")
    if x.ndim == 2: return arr.diag_view(x)
    f = x.fn(); z = arr.cast(0, x.dtype)
    return arr.new((x.shape[0], x.shape[0]), x.dtype, lambda i, j: ite(num(i) == num(j), f(i), z))
np_("diag")(diag_)
np_("diagonal")(diagonal_m)
def diagflat_(a, k):
    x = arr.lift(a[0])
    return diag_([arr.ravel(x) if x.ndim else arr.reshape(x, [1])], {})
np_("diagflat")(diagflat_)
np_("trace")(trace_m)
for n_, f_ in dict(sum=red(arr.sum_), mean=red(arr.mean), any=red(arr.any_), all=red(arr.all_), max=red(extremum("max")), min=red(extremum("min")), amax=red(extremum("max")), amin=red(extremum("min")), argmax=argext("max"), argmin=argext("min"), dot=dot_m, clip=clip_m, reshape=reshape_m, ravel=NP_METHODS["ravel"], cumsum=cumsum_m, transpose=NP_METHODS["transpose"], argsort=argsort_, sort=sort_fn, std=std_, var=var_, round=round_m, around=round_m, squeeze=squeeze_, repeat=repeat_, swapaxes=NP_METHODS["swapaxes"], prod=prod_).items(): np_(n_)(f_)
np_("rint")(round_m)
np_("maximum")(maximum); np_("minimum")(minimum)
np_("matmul")(lambda a, k: arr.matmul(arr.lift(a[0]), arr.lift(a[1])))
def logical(f):
    def g(a, k):
        if k: raise Unsupported("keyword of a ufunc")
        return arr.ewise(lambda *v: f(*[tobool(x) for x in v]), "b", *a)
    return g
np_("logical_and")(logical(z3.And)); np_("logical_or")(logical(z3.Or)); np_("logical_xor")(logical(z3.Xor)); np_("logical_not")(logical(z3.Not))
for n_, o_ in dict(add="+", subtract="-", multiply="*", divide="/", true_divide="/", power="**", floor_divide="//", bitwise_and="&", bitwise_or="|", bitwise_xor="^", mod="%", remainder="%").items():
    np_(n_)(lambda a, k, o=o_: arr.binop(o, a[0], a[1]) if not k else (_ for _ in ()).throw(Unsupported("ufunc keyword")))
for n_, o_ in dict(less="<", less_equal="<=", greater=">", greater_equal=">=", equal="==", not_equal="!=").items():
    np_(n_)(lambda a, k, o=o_: arr.cmp(o, a[0], a[1]))
np_("negative")(lambda a, k: arr.neg(a[0])); np_("invert", "bitwise_not")(lambda a, k: arr.invert(a[0]))
np_("abs", "absolute", "fabs")(lambda a, k: abs_(a, k) if not k else (_ for _ in ()).throw(Unsupported("ufunc out")))
np_("square")(lambda a, k: arr.binop("**", a[0], 2))
def ufn(f): return lambda a, k: arr.ewise(f, "f", a[0]) if not k else (_ for _ in ()).throw(Unsupported("ufunc keyword"))
np_("log")(ufn(log_)); np_("exp")(ufn(exp_)); np_("sqrt")(ufn(sqrt_))
np_("log1p")(ufn(lambda x: log_(1 + real(x)))); np_("expm1")(ufn(lambda x: exp_(x) - 1))
np_("log2")(ufn(lambda x: log_(x) / log_(z3.RealVal(2)))); np_("reciprocal")(ufn(lambda x: 1 / real(x)))
np_("sign")(lambda a, k: arr.ewise(lambda x: ite(num(x) > 0, 1, ite(num(x) < 0, -1, 0)), None, a[0]))
np_("floor")(ufn(lambda x: z3.ToReal(z3.ToInt(real(x))))); np_("ceil")(ufn(lambda x: -z3.ToReal(z3.ToInt(-real(x)))))
np_("isnan", "isinf")(lambda a, k: (cx().assumed.add("floats are real numbers (no nan or inf)"), arr.ewise(lambda x: False, "b", a[0]))[1])
np_("isfinite")(lambda a, k: (cx().assumed.add("floats are real numbers (no nan or inf)"), arr.ewise(lambda x: True, "b", a[0]))[1])
def where_(a, k):
    if len(a) == 1: return arr.nonzero(arr.lift(a[0]))
    c_, x, y = a
    dts = [v.dtype if isinstance(v, Arr) else arr.dtype_of_scalar(v) for v in (x, y)]
    dt = max(dts, key=arr.RANK.get)
    return arr.ewise(lambda c, p, q: ite(tobool(c), arr.cast(p, dt), arr.cast(q, dt)), dt, arr.lift(c_), x, y)
np_("where")(where_)
np_("nonzero")(lambda a, k: arr.nonzero(arr.lift(a[0])))
np_("flatnonzero")(lambda a, k: arr.flatnonzero(arr.lift(a[0]) if arr.lift(a[0]).ndim == 1 else arr.ravel(arr.lift(a[0]))))
def argwhere_(a, k):
    x = arr.lift(a[0]); es = arr.nonzero(x)
    fs = [e.fn() for e in es]
    def at(i, j):
        v = fs[-1](i)
        for t in range(len(fs) - 2, -1, -1): v = ite(num(j) == t, fs[t](i), v)
        return v
    r = arr.new((es[0].shape[0], len(fs)), "i", at); r.meta["argwhere"] = arr.astype(x, "b")
    return r
np_("argwhere")(argwhere_)
np_("count_nonzero")(lambda a, k: red(lambda x, ax, kd: arr.sum_(arr.astype(x, "b"), ax, kd))(a, k))
np_("concatenate")(lambda a, k: arr.concat(ip().concrete_iter(a[0]), concrete(k.get("axis", a[1] if len(a) > 1 else 0))))
np_("vstack")(lambda a, k: arr.vstack(ip().concrete_iter(a[0]))); np_("hstack")(lambda a, k: arr.hstack(ip().concrete_iter(a[0])))
np_("append")(lambda a, k: arr.concat([arr.lift(a[0]), arr.lift(a[1]) if arr.lift(a[1]).ndim else arr.reshape(arr.lift(a[1]), [1])], concrete(k["axis"])) if k.get("axis") is not None else arr.concat([arr.ravel(arr.lift(a[0])), arr.ravel(arr.lift(a[1])) if arr.lift(a[1]).ndim else arr.reshape(arr.lift(a[1]), [1])]))
def stack_(a, k):
    ax = concrete(k.get("axis", a[1] if len(a) > 1 else 0))
    x = a[0]
    it = ip().try_concrete(x)
    s = arr.from_py([arr.lift(v) for v in it]) if it is not None else arr.from_py(x)
    if ax < 0: ax += s.ndim
    if ax == 0: return s
    p = list(range(1, s.ndim)); p.insert(ax, 0)
    return arr.copy(arr.transpose(s, p))
np_("stack")(stack_)
np_("column_stack")(lambda a, k: arr.concat([arr.basic(x, [Slice(None, None, None), None]) if x.ndim == 1 else x for x in map(arr.lift, ip().concrete_iter(a[0]))], 1))
def tile_(a, k):
    d = argn(["a", "reps"], a, k); x = arr.lift(d["a"]); reps = shape_arg(d["reps"])
    n = max(x.ndim, len(reps)); sh = [1] * (n - x.ndim) + list(x.shape); rp = [1] * (n - len(reps)) + list(reps)
    f = x.fn(); off = n - x.ndim
    out = [dim(num(s) * num(r)) for s, r in zip(sh, rp)]
    def at(*i):
        idx = []
        for q in range(off, n):
            if same(rp[q], 1) is True: idx.append(i[q])
            elif same(sh[q], 1) is True: idx.append(z3.IntVal(0))
            else: idx.append(num(i[q]) % num(sh[q]))
        return f(*idx)
    return arr.new(out, x.dtype, at)
np_("tile")(tile_)
np_("expand_dims")(lambda a, k: arr.basic(arr.lift(a[0]), [None if concrete(a[1] if len(a) > 1 else k["axis"]) % (arr.lift(a[0]).ndim + 1) == q else Slice(None, None, None) for q in range(arr.lift(a[0]).ndim + 1)]))
np_("atleast_2d")(lambda a, k: arr.lift(a[0]) if arr.lift(a[0]).ndim >= 2 else arr.basic(arr.lift(a[0]), [None, Slice(None, None, None)]))
np_("broadcast_to")(lambda a, k: (lambda x, sh: arr.new(sh, x.dtype, arr.baccess(x, len(sh))))(arr.lift(a[0]), shape_arg(a[1])))
def outer_(a, k):
    x, y = arr.lift(a[0]), arr.lift(a[1]); fx, fy = arr.ravel(x).fn(), arr.ravel(y).fn(); dt = max(x.dtype, y.dtype, key=arr.RANK.get)
    return arr.new((arr.size(x), arr.size(y)), dt, lambda i, j: arr.cast(z3.And(fx(i), fy(j)) if dt == "b" else arr._mul(fx(i), fy(j)), dt))
np_("outer")(outer_)
def diff_(a, k):
    if k or len(a) > 1: raise Unsupported("diff options")
    x = arr.lift(a[0])
    if x.ndim != 1: raise Unsupported("diff of a matrix")
    f = x.fn(); n = dim(num(x.shape[0]) - 1)
    if not isinstance(n, int) and cx().quick(num(n) >= 0) is not True: n = dim(z3.If(num(n) >= 0, num(n), z3.IntVal(0)))
    if x.dtype == "b": return arr.new((n,), "b", lambda i: z3.Xor(f(num(i) + 1), f(i)))
    return arr.new((n,), x.dtype, lambda i: arr._sub(f(z3.simplify(num(i) + 1)), f(i)))
np_("diff")(diff_)
def delete_(a, k):
    """np.delete of positions: the remaining entries in order."""
    d = argn(["a", "obj", "axis"], a, k, axis=None)
    x = arr.lift(d["a"]); o = arr.lift(d["obj"])
    if x.ndim != 1: raise Unsupported("delete from a matrix")
    if o.ndim == 0: o = arr.reshape(o, [1])
    fo, fx = o.fn(), x.fn()
    keep = arr.new(x.shape, "b", lambda i: z3.Not(exists([o.shape[0]], lambda q: num(fo(q)) == num(i))))
    r = arr.mask_get(x, keep)
    return r
np_("delete")(delete_)
def fromiter_(a, k):
    d = argn(["it", "dtype", "count"], a, k, count=-1)
    x = d["it"]; dt = dtype_arg(d["dtype"])
    if isinstance(x, SSet): return set_to_array(x, dt)
    it, s = as_iter(x)
    if it is not None: return arr.from_py(list(it), dt) if it else arr.const_arr((0,), dt, 0)
    n, at = s
    return arr.from_py(SList(n, at), dt)
np_("fromiter")(fromiter_)
def set_to_array(x, dt):
    """The elements of a set, each once, in some order."""
    c = cx(); c.assumed.add("iterating a set visits each element once, in an unspecified order")
    def facts(fs, dd, body):
        e, pos, n = fs; k, v = c.int("k"), c.int("v")
        return [([], [n()], n() >= 0), ([k], [e(k)], z3.Implies(inr(k, n()), z3.And(inr(e(k), dd[0]), tobool(body(e(k))), pos(e(k)) == k))), ([v], [pos(v)], z3.Implies(z3.And(inr(v, dd[0]), tobool(body(v))), z3.And(inr(pos(v), n()), e(pos(v)) == v)))]
    if x.universe is None:
        if x.image is None: raise Unsupported("iteration over a set without a universe")
        return image_to_array(x.image, dt)
    fs = lib_term("setenum", [x.universe], [lambda v: tobool(x.member(v))], [(I, 1), (I, 1), (I, 0)], facts)
    n = fs[2](); c.assume(n >= 0)
    r = arr.new((n,), dt, lambda i: fs[0](i)); u, mem = x.universe, x.member
    r.meta["below"] = u; r.meta["mask"] = (arr.new((u,), "b", lambda v: tobool(mem(v))), fs[1]); r.meta["at"] = fs[1]
    return r
def distinct(n, test, f, dt):
    """The distinct values of f(k), k < n with test(k), ascending."""
    r = image_to_array((n, test, f), dt, "sorted"); return r
def image_to_array(im, dt, name="image"):
    """The distinct values of f(k), k < n with test(k), each once, in some order."""
    n, test, f = im
    def facts(fs, dd, body):
        e, src, pos, cnt = fs; c = cx(); t, t2, k = c.int("t"), c.int("t"), c.int("k"); B = lambda q: body(q, j=0); V = lambda q: body(q, j=1)
        s_ = src(t); v = V(k)
        asc = [([t, t2], [z3.MultiPattern(e(t), e(t2))], z3.Implies(z3.And(t >= 0, t < t2, t2 < cnt()), e(t) < e(t2)))] if name == "sorted" else []
        return asc + [([], [cnt()], z3.And(cnt() >= 0, cnt() <= z3.If(dd[0] >= 0, dd[0], 0))), ([t], [e(t)], z3.Implies(inr(t, cnt()), z3.And(inr(s_, dd[0]), tobool(B(s_)), V(s_) == e(t), pos(e(t)) == t))),
                ([k], [pos(v)], z3.Implies(z3.And(inr(k, dd[0]), tobool(B(k))), z3.And(inr(pos(v), cnt()), e(pos(v)) == v)))]
    fs = lib_term(name, [n], [lambda q: tobool(test(q)), lambda q: num(f(q))], [(I, 1), (I, 1), (I, 1), (I, 0)], facts)
    N = fs[3](); cx().assume(N >= 0); r = arr.new((N,), dt, lambda i: fs[0](i)); r.meta["at"] = fs[2]
    return r
def unique_(a, k): raise Unsupported("unique")
def ints(x):
    x = arr.lift(x) if not isinstance(x, SSet) else None
    if x is None or x.dtype == "f": raise Unsupported("set operation on an array of floats or a set")
    return arr.ravel(x) if x.ndim != 1 else x
def unique_ints(a, k):
    if k or len(a) != 1: raise Unsupported("options of unique")
    x = ints(a[0]); f = x.fn(); return distinct(x.shape[0], lambda q: True, lambda q: f(q), x.dtype)
def within(x):
    """Membership in an array, list or set of integers."""
    if isinstance(x, SSet): raise Unsupported("isin of a set")      # (numpy treats a set as a single object)
    x = ints(x); f = x.fn(); return lambda v: exists([x.shape[0]], lambda q: num(f(q)) == num(v))
def isin_(a, k):
    d = argn(["element", "test_elements", "assume_unique", "invert"], a, k, assume_unique=False, invert=False); w = within(d["test_elements"]); inv = d["invert"]
    if not isinstance(inv, bool): raise Unsupported("isin")
    x = arr.lift(d["element"])
    if x.dtype == "f": raise Unsupported("isin of floats")
    return arr.ewise((lambda v: z3.Not(w(v))) if inv else w, "b", x)
np_("isin", "in1d")(isin_)
def setdiff_(a, k):
    if k: raise Unsupported("options of setdiff1d")
    x, w = ints(a[0]), within(a[1]); f = x.fn(); return distinct(x.shape[0], lambda q: z3.Not(w(f(q))), lambda q: f(q), x.dtype)
def intersect_(a, k):
    if k: raise Unsupported("options of intersect1d")
    x, w = ints(a[0]), within(a[1]); f = x.fn(); return distinct(x.shape[0], lambda q: w(f(q)), lambda q: f(q), x.dtype)
np_("setdiff1d")(setdiff_); np_("intersect1d")(intersect_)
np_("argpartition")(unique_); np_("unique")(unique_ints)
np_("array_equal")(lambda a, k: simp2(arr.all_(arr.cmp("==", arr.lift(a[0]), arr.lift(a[1])))) if len(arr.lift(a[0]).shape) == len(arr.lift(a[1]).shape) else False)
np_("shape")(lambda a, k: tuple(arr.lift(a[0]).shape)); np_("ndim")(lambda a, k: arr.lift(a[0]).ndim); np_("size")(lambda a, k: arr.size(arr.lift(a[0])))
def cov_(a, k):
    d = argn(["m", "y", "rowvar", "bias", "ddof"], a, k, y=None, rowvar=True, bias=False, ddof=None)
    x = arr.lift(d["m"]); c = cx()
    if d["y"] is not None: raise Unsupported("cov of two arrays")
    if x.ndim == 1: x = arr.basic(x, [None, Slice(None, None, None)]) ; rowvar = True
    else: rowvar = bool(d["rowvar"])
    f = x.fn(); p, n = (x.shape if rowvar else (x.shape[1], x.shape[0]))
    g = (lambda v, o: real(f(v, o))) if rowvar else (lambda v, o: real(f(o, v)))
    dd = d["ddof"] if d["ddof"] is not None else (0 if d["bias"] else 1)
    c.assumed.add("numpy.cov: the sample covariance with divisor n - 1, as an uninterpreted function of the data that is symmetric")
    fs = cov_term(g, p, n, dd)
    if same(p, 1) is True: return fs(z3.IntVal(0), z3.IntVal(0))
    return arr.new((p, p), "f", fs)
def cov_term(g, p, n, dd):
    """cov(i, j) = sum over observations of the product of deviations / (n - ddof)."""
    def mean(v): return ssum([n], lambda o: g(v, o)) / real(n)
    def at(i, j):
        a, b = num(i), num(j)
        return ssum([n], lambda o: (g(a, o) - mean(a)) * (g(b, o) - mean(b))) / (real(n) - real(dd))
    return at
np_("cov")(cov_)
def corrcoef_(a, k):
    d = argn(["x", "y", "rowvar"], a, k, y=None, rowvar=True)
    if d["y"] is not None: raise Unsupported("corrcoef of two arrays")
    x = arr.lift(d["x"]); rowvar = bool(d["rowvar"]); f = x.fn()
    p, n = (x.shape if rowvar else (x.shape[1], x.shape[0]))
    g = (lambda v, o: real(f(v, o))) if rowvar else (lambda v, o: real(f(o, v)))
    return arr.new((p, p), "f", corr_term(g, p, n))
def corr_term(g, p, n):
    c = cx(); c.assumed.add("numpy.corrcoef: Pearson correlation, a function of the two variables' observations: symmetric, 1 on the diagonal, in [-1, 1]")
    def facts(fs, dd, body):
        r = fs[0]()
        return [([], [r], z3.And(r <= 1, r >= -1))]
    def pair(i, j):
        t = lib_term("pearson", [n], [lambda o: g(i, o), lambda o: g(j, o)], [(R, 0)], facts)
        return t[0]()
    def at(i, j):
        a, b = num(i), num(j)
        if a.eq(b): return z3.RealVal(1)
        # symmetric: use the ordered pair
        lo, hi = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        q = cx().quick(a <= b)
        if q is True: lo, hi = a, b
        elif q is False or cx().quick(b <= a) is True: lo, hi = b, a
        return ite(a == b, z3.RealVal(1), pair(z3.simplify(lo), z3.simplify(hi)))
    return at
np_("corrcoef")(corrcoef_)
NPT["pi"] = 3.141592653589793; NPT["inf"] = float("inf"); NPT["nan"] = float("nan"); NPT["newaxis"] = None; NPT["e"] = 2.718281828459045
NPT["ndarray"] = PyType("ndarray")
for n_, k_, ex in (("int64", "i", True), ("int_", "i", True), ("intp", "i", True), ("bool_", "b", True), ("float64", "f", True), ("float32", "f", False), ("double", "f", True), ("int8", "i", False), ("int16", "i", False), ("int32", "i", False), ("uint8", "i", False), ("float16", "f", False)):
    NPT[n_] = DType(k_, n_, ex)
def errstate(a, k): return Ctxm()
class Ctxm:
    def enter(s): return s
    def exit(s): pass
np_("errstate")(errstate)
np_("apply_along_axis")(lambda a, k: (_ for _ in ()).throw(Unsupported("apply_along_axis")))
np_("vectorize")(lambda a, k: (_ for _ in ()).throw(Unsupported("vectorize")))
np_("atleast_1d")(lambda a, k: arr.lift(a[0]) if arr.lift(a[0]).ndim else arr.reshape(arr.lift(a[0]), [1]))
def einsum_(a, k):
    spec = a[0].replace(" ", ""); ops = [arr.lift(x) for x in a[1:]]
    if "->" not in spec or "." in spec: raise Unsupported("einsum form")
    ins, out = spec.split("->"); ins = ins.split(",")
    dims = {}
    for s, x in zip(ins, ops):
        if len(s) != x.ndim: raise PyRaise("ValueError", "einsum")
        for ch, d in zip(s, x.shape):
            if ch in dims: arr.req_same(dims[ch], d)
            else: dims[ch] = d
    sumv = [ch for ch in dims if ch not in out]; fs = [x.fn() for x in ops]; dt = max((x.dtype for x in ops), key=arr.RANK.get)
    if dt == "b": dt = "i"
    def at(*i):
        m = dict(zip(out, i))
        def body(*ks):
            mm = dict(m); mm.update(zip(sumv, ks)); r = None
            for s, f in zip(ins, fs):
                v = num(f(*[mm[ch] for ch in s])); r = v if r is None else arr._mul(r, v)
            return r
        return ssum([dims[ch] for ch in sumv], body) if sumv else body()
    return arr.new([dims[ch] for ch in out], dt, at) if out else arr.cast(at(), dt)
np_("einsum")(einsum_)

# linalg
LA = {}
def inv_(a, k):
    x = arr.lift(a[0]); n = x.shape[0]; f = x.fn(); c = cx()
    c.assumed.add("numpy.linalg.inv: a function of its argument's entries")
    fs = lib_term("inv", [n, n], [lambda i, j: real(f(i, j))], [(R, 2)])
    return arr.new(x.shape, "f", lambda i, j: fs[0](i, j))
LA["inv"] = Native("inv", inv_)
def slogdet_(a, k):
    x = arr.lift(a[0]); n = x.shape[0]; f = x.fn(); c = cx()
    c.assumed.add("numpy.linalg.slogdet: sign (-1, 0 or 1) and log absolute determinant, functions of the entries")
    fs = lib_term("slogdet", [n, n], [lambda i, j: real(f(i, j))], [(R, 0), (R, 0)], lambda fs, dd, body: [([], [fs[0]()], z3.Or(fs[0]() == 1, fs[0]() == 0, fs[0]() == -1))])
    s = fs[0](); c.assume(z3.Or(s == 1, s == 0, s == -1))
    return (s, fs[1]())
LA["slogdet"] = Native("slogdet", slogdet_)
def npnorm_(a, k):
    d = argn(["x", "ord", "axis"], a, k, ord=None, axis=None)
    x = arr.lift(d["x"]); f = x.fn()
    if d["axis"] is not None: raise Unsupported("norm axis")
    if d["ord"] == "nuc":
        cx().assumed.add("nuclear norm: a function of the entries")
        return lib_term("nuc", list(x.shape), [lambda *i: real(f(*i))], [(R, 0)])[0]()
    if d["ord"] in (None, "fro") or (concrete(d["ord"]) == 2 and x.ndim == 1): return root_of_squares(real(ssum(list(x.shape), lambda *i: real(f(*i)) * real(f(*i)))))
    if concrete(d["ord"]) == 1 and x.ndim == 1: return real(ssum(list(x.shape), lambda *i: rabs(real(f(*i)))))
    if concrete(d["ord"]) == 2: return lib_term("spectral", list(x.shape), [lambda *i: real(f(*i))], [(R, 0)])[0]()
    raise Unsupported("norm order")
LA["norm"] = Native("norm", npnorm_)
NPT["linalg"] = NS("numpy.linalg", LA)
NPT["typing"] = NS("numpy.typing", {})
NP = NS("numpy", NPT)
LIBS["numpy"] = NP
LIBS["numpy.linalg"] = NPT["linalg"]
class Sub:
    """typing constructs: subscripting gives itself."""
    def getitem(s, k): return s
    def getattr(s, n): return s
LIBS["typing"] = NS("typing", {"NamedTuple": NT(), "Optional": Sub(), "List": Sub(), "Tuple": Sub(), "Union": Sub(), "Callable": Sub(), "Any": Sub(), "Iterable": Sub(), "Dict": Sub()})
LIBS["numpy.typing"] = NS("numpy.typing", {"NDArray": Sub(), "ArrayLike": Sub()})
NPT["typing"] = LIBS["numpy.typing"]
LIBS["math"] = NS("math", {"sqrt": Native("sqrt", lambda a, k: sqrt_(a[0]) if concrete(a[0]) is None else float(concrete(a[0])) ** .5), "log": Native("log", lambda a, k: log_(a[0])), "exp": Native("exp", lambda a, k: exp_(a[0])), "floor": Native("floor", lambda a, k: z3.ToInt(real(a[0]))), "ceil": Native("ceil", lambda a, k: -z3.ToInt(-real(a[0]))), "pi": 3.141592653589793, "inf": float("inf"), "comb": Native("comb", lambda a, k: arr.floordiv(arr._mul(a[0], arr._sub(a[0], 1)), 2) if concrete(a[1]) == 2 else (_ for _ in ()).throw(Unsupported("comb")))})
def deque_(a, k):
    if a and isinstance(a[0], PySet):
        w = cx().ghost.get("worklist")
        if w is None: raise Unsupported("deque of a set of unknown size")
        return w(a[0])
    return list_(a, k)
LIBS["collections"] = NS("collections", {"deque": Native("deque", lambda a, k: deque_(a, k))})
LIBS["warnings"] = NS("warnings", {"warn": Native("warn", lambda a, k: None), "catch_warnings": Native("catch_warnings", lambda a, k: Ctxm()), "simplefilter": Native("simplefilter", lambda a, k: None), "filterwarnings": Native("filterwarnings", lambda a, k: None)})
LIBS["copy"] = NS("copy", {"copy": Native("copy", lambda a, k: arr.copy(a[0]) if isinstance(a[0], Arr) else list(a[0]) if isinstance(a[0], list) else (_ for _ in ()).throw(Unsupported("copy"))), "deepcopy": Native("deepcopy", lambda a, k: arr.copy(a[0]) if isinstance(a[0], Arr) else (_ for _ in ()).throw(Unsupported("deepcopy")))})
LIBS["functools"] = NS("functools", {"partial": Native("partial", lambda a, k: Native("partial", lambda b, kk: ip().call(a[0], list(a[1:]) + list(b), {**k, **kk})))})
class _Anything:
    pass
LIBS["os"] = NS("os", {"path": NS("os.path", {"join": Native("join", lambda a, k: Str("path"))})})
LIBS["os.path"] = LIBS["os"].table["path"]
class PathModel:
    def getattr(s, n):
        if n in ("mkdir",): return Native(n, lambda a, k: cx().events.append(("mkdir",)))
LIBS["pathlib"] = NS("pathlib", {"Path": Native("Path", lambda a, k: PathModel())})
LIBS["datetime"] = NS("datetime", {"datetime": NS("datetime", {"now": Native("now", lambda a, k: Str("now"))})})
LIBS["pickle"] = NS("pickle", {"dump": Native("dump", lambda a, k: None), "HIGHEST_PROTOCOL": 5})

# ------------------------------------------------------------------ itertools
class PermIter:
    """All permutations of range(n), as a set of bijections p with inverse."""
    def __init__(s, n, f=None, part=False): s.n, s.f, s.part = n, f or (lambda p: p), part
    def map(s, g): return PermIter(s.n, lambda p, f=s.f: g(f(p)), s.part)
    def minmax(s, which, key, k):
        """Attained at some permutation; no permutation in the ghost list does better."""
        c = cx(); c.assumed.add("itertools.permutations(range(n)) yields every permutation of range(n)")
        p = new_perm(s.n); r = s.f(p); kr = num(to_scalar(key(r)))
        for q in c.ghost.setdefault("perms", []):
            if same(q.n, s.n) is True:
                kq = num(to_scalar(key(s.f(q))))
                better = kr <= kq if which == "min" else kr >= kq
                c.assume(z3.Implies(c.const("is_among_them", B), better) if s.part else better)
        return r
class Perm:
    """A permutation of range(n) as a tuple."""
    def __init__(s, n, f, g): s.n, s.fw, s.bw = n, f, g
    def as_array(s):
        r = arr.new((s.n,), "i", lambda i: s.fw(num(i))); r.meta["below"] = s.n; r.meta["inv"] = lambda i: (inr(i, s.n), s.bw(num(i))); r.meta["perm"] = s
        return r
    def at(s, k): return s.fw(num(k))
    def siter(s): return s.n, (lambda k: s.fw(num(k)))
    def len(s): return s.n
def new_perm(n, name="perm"):
    c = cx(); f, g = c.fn(name, I, I), c.fn(name + "inv", I, I); x = c.int("x")
    c.axiom(z3.ForAll([x], z3.Implies(inr(x, n), z3.And(inr(f(x), n), g(f(x)) == x)), patterns=[f(x)]))
    c.axiom(z3.ForAll([x], z3.Implies(inr(x, n), z3.And(inr(g(x), n), f(g(x)) == x)), patterns=[g(x)]))
    c.bij.append((f, dim(n))); c.bij.append((g, dim(n)))
    return Perm(dim(n), f, g)
def permutations_(a, k):
    if len(a) > 1: raise Unsupported("partial permutations")
    x = a[0]
    if isinstance(x, range) and x == range(len(x)): return PermIter(len(x))
    if isinstance(x, SIter) and hasattr(x, "rng") and same(x.rng[0], 0) is True: return PermIter(x.n)
    if isinstance(x, Arr) and x.meta.get("arange") and same(x.meta["arange"][0], 0) is True: return PermIter(x.shape[0])
    if isinstance(x, int) or is_z3(x): raise PyRaise("TypeError", "int is not iterable")
    raise Unsupported("permutations of this iterable")
def islice_(a, k):
    x = a[0]
    if not isinstance(x, PermIter): raise Unsupported("islice of this")
    if (len(a) == 2 and a[1] is None) or (len(a) == 3 and a[1] in (None, 0) and a[2] is None): return x
    cx().assumed.add("itertools.islice yields some of the elements"); return PermIter(x.n, x.f, True)
LIBS["itertools"] = NS("itertools", {"islice": Native("islice", islice_), "permutations": Native("permutations", permutations_), "combinations": Native("combinations", lambda a, k: ListIter(list(itertools.combinations(ip().concrete_iter(a[0]), concrete(a[1])))))})

# ------------------------------------------------------------------ scipy
def pdist_(a, k):
    d = argn(["x", "metric"], a, k, metric="euclidean")
    x = arr.lift(d["x"]); f = x.fn(); n = x.shape[0]; w = x.shape[1]
    if d["metric"] in ("cityblock",): g = lambda i, j: ssum([w], lambda t: rabs(real(f(i, t)) - real(f(j, t))))
    elif d["metric"] == "sqeuclidean": g = lambda i, j: ssum([w], lambda t: (real(f(i, t)) - real(f(j, t))) * (real(f(i, t)) - real(f(j, t))))
    elif d["metric"] in ("euclidean", "chebyshev") and same(w, 1) is True: g = lambda i, j: rabs(real(f(i, 0)) - real(f(j, 0)))
    else: raise Unsupported("metric")
    cx().assumed.add("scipy pdist/squareform: the matrix of pairwise distances")
    return Condensed(n, g)
class Condensed:
    def __init__(s, n, g): s.n, s.g = n, g
def squareform_(a, k):
    if not isinstance(a[0], Condensed): raise Unsupported("squareform of this")
    c = a[0]; return arr.new((c.n, c.n), "f", lambda i, j: c.g(num(i), num(j)))
LIBS["scipy.spatial.distance"] = NS("scipy.spatial.distance", {"pdist": Native("pdist", pdist_), "squareform": Native("squareform", squareform_), "cdist": Native("cdist", lambda a, k: (_ for _ in ()).throw(Unsupported("cdist")))})
LIBS["scipy.linalg"] = NS("scipy.linalg", {"norm": LA["norm"], "inv": LA["inv"]})
class Chi2:
    def __init__(s, df): s.df = df
    def getattr(s, n):
        c = cx()
        if n == "ppf": return Native("ppf", lambda a, k: uf("chi2ppf", R, R, R)(real(s.df), real(a[0])))
        if n == "isf": return Native("isf", lambda a, k: uf("chi2ppf", R, R, R)(real(s.df), z3.simplify(1 - real(a[0]))))
class Chi2F:
    def call(s, ipx, a, k): return Chi2(a[0] if a else k["df"])
    def getattr(s, n):
        if n == "ppf": return Native("ppf", lambda a, k: uf("chi2ppf", R, R, R)(real(a[1] if len(a) > 1 else k["df"]), real(a[0])))
class NormF:
    def getattr(s, n):
        cx().assumed.add("scipy.stats norm.cdf/chi2.ppf: functions of their arguments")
        if n == "cdf": return Native("cdf", lambda a, k: arr.ewise(lambda x: uf("Phi", R, R)(acsort(z3.simplify(real(x), som=True))), "f", a[0]))
        if n == "sf": return Native("sf", lambda a, k: arr.ewise(lambda x: 1 - uf("Phi", R, R)(acsort(z3.simplify(real(x), som=True))), "f", a[0]))
def rankdata_(a, k):
    """Average (or min/max) ranks: rank of y_i = #{j: y_j < y_i} + (#{j: y_j = y_i} + 1)/2; values are functions of the order comparisons."""
    d = argn(["a", "method"], a, k, method="average")
    x = arr.lift(d["a"]); f = x.fn(); n = x.shape[0]; c = cx()
    if x.ndim != 1: raise Unsupported("rankdata of a matrix")
    c.assumed.add("scipy.stats.rankdata: ranks by counting smaller and equal entries")
    less = lambda i: ssum([n], lambda j: z3.If(lt(f(j), f(i)), z3.IntVal(1), z3.IntVal(0)))
    eq = lambda i: ssum([n], lambda j: z3.If(z3.And(z3.Not(lt(f(j), f(i))), z3.Not(lt(f(i), f(j)))), z3.IntVal(1), z3.IntVal(0)))
    def lt(p, q): return z3.simplify(num(p) < num(q), arith_lhs=False)
    m = d["method"]
    if m == "average": return arr.new((n,), "f", lambda i: real(less(num(i))) + (real(eq(num(i))) + 1) / 2)
    if m == "min": return arr.new((n,), "i", lambda i: less(num(i)) + 1)
    if m == "max": return arr.new((n,), "i", lambda i: less(num(i)) + eq(num(i)))
    raise Unsupported("rank method")
LIBS["scipy.stats"] = NS("scipy.stats", {"chi2": Chi2F(), "norm": NormF(), "rankdata": Native("rankdata", rankdata_)})
class OptResult:
    def __init__(s, x, success, fun): s.a = {"x": x, "success": success, "fun": fun, "message": Str("message"), "nit": Opaque("nit"), "status": Opaque("status")}
    def getattr(s, n): return (s.a[n],) if n in s.a else None
def minimize_(a, k):
    """scipy.optimize.minimize: returns some point of the dimension of the start (the minimizer is trusted); objective and start are recorded."""
    c = cx(); c.assumed.add("scipy.optimize.minimize returns its numerical minimizer of the objective it is given")
    fun, x0 = a[0], arr.lift(a[1] if len(a) > 1 else k["x0"])
    rec = {"fun": fun, "x0": x0, "kw": {q: v for q, v in k.items() if q not in ("fun", "x0")}, "extra": a[2:]}
    x = arr.sym_arr("opt", (arr.size(x0),), "f"); rec["x"] = x
    s = c.const("success", B)
    r = OptResult(x, s, None); rec["res"] = r
    c.events.append(("minimize", rec))
    return r
LIBS["scipy.optimize"] = NS("scipy.optimize", {"minimize": Native("minimize", minimize_)})
LIBS["scipy"] = NS("scipy", {"stats": LIBS["scipy.stats"], "optimize": LIBS["scipy.optimize"], "linalg": LIBS["scipy.linalg"]})
def dcor_t(a, k):
    x, y = [arr.lift(v) for v in a[:2]]; fx, fy = x.fn(), y.fn()
    cx().assumed.add("dcor distance_correlation_t_test: a function of the two samples")
    t = lib_term("dcor_t", [x.shape[0]], [lambda i: real(fx(i)), lambda i: real(fy(i))], [(R, 0), (R, 0)])
    class Rz:
        def getattr(s, n): return {"pvalue": (t[0](),), "statistic": (t[1](),)}.get(n)
    return Rz()
LIBS["dcor.independence"] = NS("dcor.independence", {"distance_correlation_t_test": Native("dcor_t", dcor_t)})
LIBS["dcor"] = NS("dcor", {"independence": LIBS["dcor.independence"]})
class PoolModel:
    def enter(s): return s
    def exit(s): pass
    def getattr(s, n):
        cx().assumed.add("multiprocessing Pool.map/imap: the results of the function in the order of the inputs; imap_unordered and the like: in some unknown order")
        if n in ("map", "imap"): return Native(n, lambda a, k: map_([a[0], a[1]], {}) if n == "imap" else list_([map_([a[0], a[1]], {})], {}))
        if n == "starmap": return Native(n, lambda a, k: list_([map_([Native("star", lambda b, kk: ip().call(a[0], ip().unpack(b[0], len(b[0]), [False] * len(b[0])), {})), a[1]], {})], {}))
        if n == "imap_unordered":
            def f(a, k):
                nn, at = ip().siter(map_([a[0], a[1]], {}))
                p = new_perm(nn, "order"); return SIter(nn, lambda i: at(p.fw(num(i))))
            return Native(n, f)
        if n in ("close", "join", "terminate"): return Native(n, lambda a, k: None)
LIBS["multiprocessing"] = NS("multiprocessing", {"Pool": Native("Pool", lambda a, k: PoolModel()), "cpu_count": Native("cpu_count", lambda a, k: _cpu())})
def _cpu():
    c = cx(); n = c.int("cpus"); c.assume(n >= 1); return n
LIBS["sklearn.preprocessing"] = NS("sklearn.preprocessing", {})
LIBS["sklearn.model_selection"] = NS("sklearn.model_selection", {})
LIBS["sklearn"] = NS("sklearn", {})
LIBS["networkx"] = NS("networkx", {}); LIBS["matplotlib"] = NS("matplotlib", {}); LIBS["matplotlib.pyplot"] = NS("matplotlib.pyplot", {}); LIBS["seaborn"] = NS("seaborn", {})

# ------------------------------------------------------------------ numpy.random
class Rng:
    """numpy Generator: ghost log of draws; values are arbitrary within the documented ranges."""
    def __init__(s, name): s.name = name; s.draws = []
    def use(s, what):
        c = cx(); c.events.append(("rng", s.name, what)); s.draws.append(what)
    def getattr(s, n):
        m = getattr(s, "m_" + n, None)
        if m is not None: return Native("Generator." + n, m)
        raise Unsupported(f"Generator.{n}")
    def draw(s, tag, shape, dtype, constrain=None):
        c = cx(); s.use(tag)
        h = c.ghost.get("draw_hook")
        a = None
        if h: a = h(s, tag, shape, dtype)
        if a is None: a = arr.sym_arr(f"{s.name}_{tag[0]}", shape, dtype)
        return a
    def m_spawn(s, a, k):
        """Children are seeded by the seed sequence and the number spawned before, not by the generator's state."""
        c = cx(); s.children = getattr(s, "children", 0); n = concrete(a[0] if a else k["n_children"]); out = [Rng(f"{s.name}_child{s.children + q}") for q in range(n)]; s.children += n
        c.effect(s) if hasattr(c, "effect") else None
        return out
    def m_random(s, a, k):
        d = argn(["size"], a, k, size=None)
        c = cx(); c.assumed.add("Generator.random: values in [0, 1)")
        sh = () if d["size"] is None else shape_arg(d["size"])
        x = s.draw(("random",), sh, "f"); f = x.fn()
        vs = [c.int("k") for _ in sh]; e = f(*vs)
        if sh: c.axiom(z3.ForAll(vs, z3.And(e >= 0, e < 1), patterns=[e]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.BoolVal(True))
        else: c.assume(e >= 0, e < 1)
        return x if sh else e
    def m_uniform(s, a, k):
        d = argn(["low", "high", "size"], a, k, low=0.0, high=1.0, size=None)
        u = s.m_random([d["size"]], {}); return arr.binop("+", d["low"], arr.binop("*", arr.binop("-", d["high"], d["low"]), u))
    def m_integers(s, a, k):
        d = argn(["low", "high", "size", "endpoint", "dtype"], a, k, high=None, size=None, endpoint=False)
        lo, hi = (0, d["low"]) if d["high"] is None else (d["low"], d["high"])
        if d["endpoint"]: hi = arr.binop("+", hi, 1)
        c = cx(); c.assumed.add("Generator.integers: values from low to below high; ValueError when there are none")
        if not c.branch(num(lo) < num(hi)): raise PyRaise("ValueError", "low >= high")
        sh = () if d["size"] is None else shape_arg(d["size"])
        x = s.draw(("integers",), sh, "i"); f = x.fn(); vs = [c.int("k") for _ in sh]; e = f(*vs)
        ran = z3.And(e >= num(lo), e < num(hi))
        if sh: c.axiom(z3.ForAll(vs, ran, patterns=[e]))
        else: c.assume(ran)
        return x if sh else e
    def m_choice(s, a, k):
        d = argn(["a", "size", "replace", "p", "axis", "shuffle"], a, k, size=None, replace=True, p=None)
        c = cx(); c.assumed.add("Generator.choice (with replacement): every entry is one of the options")
        opts = d["a"]
        sh = () if d["size"] is None else shape_arg(d["size"])
        if d["replace"] is not True: raise Unsupported("choice without replacement")
        if isinstance(opts, (list, tuple)):
            if all(isinstance(o, bool) for o in opts) and set(opts) == {True, False}:
                x = s.draw(("choice",), sh, "b"); return x if sh else x.at()
            vals = list(opts); x = s.draw(("choice",), sh, "i"); f = x.fn()
            vs = [c.int("k") for _ in sh]; e = f(*vs)
            if sh: c.axiom(z3.ForAll(vs, inr(e, len(vals)), patterns=[e]))
            else: c.assume(inr(e, len(vals)))
            r = arr.ewise(lambda q: (lambda r: r)(_pick(vals, q)), None, x)
            return r
        raise Unsupported("choice of this")
    def m_permutation(s, a, k):
        d = argn(["x", "axis"], a, k, axis=0)
        x = d["x"]; c = cx(); c.assumed.add("Generator.permutation(x, axis): x with the slices along the axis rearranged by one permutation")
        s.use(("permutation",))
        if not isinstance(x, Arr):
            n = dim(x); p = new_perm(n, "shuffle"); return p.as_array()
        ax = arr._axes(x, d["axis"])[0]; n = x.shape[ax]; p = new_perm(n, "shuffle"); f = x.fn()
        c.events.append(("permutation", p, n))
        return arr.new(x.shape, x.dtype, lambda *i: f(*[p.fw(num(v)) if q == ax else v for q, v in enumerate(i)]))
    def m_permuted(s, a, k):
        d = argn(["x", "axis", "out"], a, k, axis=None, out=None)
        if d["out"] is not None: raise Unsupported("permuted out=")
        x = d["x"]; c = cx(); c.assumed.add("Generator.permuted(x, axis): every slice along the axis rearranged by a permutation of its own")
        s.use(("permuted",))
        if d["axis"] is None or x.ndim != 2: raise Unsupported("permuted without an axis")
        ax = arr._axes(x, d["axis"])[0]; n, o = x.shape[ax], x.shape[1 - ax]
        f, g = c.fn("perm", I, I, I), c.fn("perminv", I, I, I); u, v = c.int("u"), c.int("v")
        c.axiom(z3.ForAll([u, v], z3.Implies(inr(v, n), z3.And(inr(f(u, v), n), g(u, f(u, v)) == v)), patterns=[f(u, v)]))
        c.axiom(z3.ForAll([u, v], z3.Implies(inr(v, n), z3.And(inr(g(u, v), n), f(u, g(u, v)) == v)), patterns=[g(u, v)]))
        c.bij.append((f, dim(n))); c.bij.append((g, dim(n)))
        ff = x.fn()
        return arr.new(x.shape, x.dtype, lambda i, j: ff(f(num(j), num(i)), j) if ax == 0 else ff(i, f(num(i), num(j))))
    def m_shuffle(s, a, k):
        x = a[0]; r = s.m_permutation(a, k); f = r.fn(); x.set_view(lambda *i: f(*i))
    def m_standard_normal(s, a, k):
        d = argn(["size", "dtype"], a, k, size=None)
        sh = () if d["size"] is None else shape_arg(d["size"])
        cx().assumed.add("Generator.standard_normal: independent standard normal entries")
        x = s.draw(("normal", sh, None, None), sh, "f")
        return x if sh else x.at()
    def m_normal(s, a, k):
        d = argn(["loc", "scale", "size"], a, k, loc=0.0, scale=1.0, size=None)
        z = s.m_standard_normal([d["size"]], {})
        return arr.binop("+", d["loc"], arr.binop("*", d["scale"], z))
    def m_multivariate_normal(s, a, k):
        d = argn(["mean", "cov", "size", "check_valid", "tol", "method"], a, k, size=None)
        mean, cov = arr.lift(d["mean"]), arr.lift(d["cov"])
        p = mean.shape[0]; arr.req_same(cov.shape[0], p); arr.req_same(cov.shape[1], p)
        cx().assumed.add("Generator.multivariate_normal(mean, cov, size): independent rows, each normal with that mean and covariance")
        sh = (() if d["size"] is None else shape_arg(d["size"])) + (p,)
        return s.draw(("mvn", sh, mean.fn(), cov.fn()), sh, "f")
def _pick(vals, q):
    r = vals[-1]
    for t in range(len(vals) - 2, -1, -1): r = ite(num(q) == t, vals[t], r)
    return r
class GlobalRandom:
    pass
def default_rng_(a, k):
    r = Rng(f"new_generator{len(cx().events)}" if _cur else "module_default")
    r.created = True
    return r
def global_random(n):
    def f(a, k):
        cx().events.append(("rng", "global numpy.random", (n,)))
        if n == "seed": return None
        raise Unsupported(f"numpy.random.{n}")
    return f
RND = {"default_rng": Native("default_rng", default_rng_), "Generator": PyType("Generator")}
for n_ in ("seed", "random", "rand", "randn", "normal", "choice", "permutation", "shuffle", "multivariate_normal", "standard_normal", "uniform", "randint"): RND[n_] = Native("numpy.random." + n_, global_random(n_))
NPT["random"] = NS("numpy.random", RND); LIBS["numpy.random"] = NPT["random"]
from core import _cur
