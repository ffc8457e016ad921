"""Symbolic execution of the real source: parses /repo/medil/*.py on every run and executes the function under verification
statement by statement over symbolic values.  Nothing is translated by hand; docstrings, annotations and prints are dropped."""
import ast, os, operator, z3
from core import *
import core, arr
from arr import Arr, SList, SIter, Slice

class Return(Exception):
    def __init__(s, v): s.v = v
class Break(Exception): pass
class Continue(Exception): pass

class Poison:
    def __init__(s, why): s.why = why

class Opaque:
    """A value the verifier does not look into."""
    def __init__(s, name): s.name = name
    def __repr__(s): return f"<{s.name}>"

class Str(Opaque): pass

class Env:
    __slots__ = ("d", "parent", "globals", "fn", "nonlocals")
    def __init__(s, parent=None, globals_=None, fn=None):
        s.d, s.parent, s.globals, s.fn, s.nonlocals = {}, parent, globals_ if globals_ is not None else (parent.globals if parent else None), fn, set()
    def get(s, n):
        e = s
        while e is not None:
            if n in e.d:
                v = e.d[n]
                if isinstance(v, Poison): raise Unsupported(f"reads {n}, {v.why}")
                return v
            e = e.parent
        g = s.globals
        if g is not None and n in g: return g[n]
        if n in BUILTINS: return BUILTINS[n]
        raise PyRaise("NameError", n)
    def set(s, n, v):
        if n in s.nonlocals:
            e = s.parent
            while e is not None:
                if n in e.d: e.d[n] = v; return
                e = e.parent
            s.globals[n] = v; return
        s.d[n] = v

class Func:
    def __init__(s, node, env, module, name, cls=None):
        s.node, s.env, s.module, s.name, s.cls = node, env, module, name, cls
        s.defaults = None; s.attrs = {}
        s.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)) if not isinstance(node, ast.Lambda) else False
    @property
    def qual(s): return f"{s.module}.{(s.cls + '.') if s.cls else ''}{s.name}"

def walk_own(node):
    """AST nodes of a function body without nested functions."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
        stack.extend(ast.iter_child_nodes(n))

class Class:
    def __init__(s, name, bases, ns, module): s.name, s.bases, s.ns, s.module = name, bases, ns, module
    def mro(s):
        out = [s]
        for b in s.bases:
            if isinstance(b, Class): out += [x for x in b.mro() if x not in out]
            elif b not in out: out.append(b)
        return out
    def lookup(s, n):
        for c in s.mro():
            if isinstance(c, Class):
                if n in c.ns: return c.ns[n], c
            elif hasattr(c, "lookup"):
                r = c.lookup(n)
                if r is not None: return r, c
        return None, None
    def subclass_of(s, other): return other in s.mro()

class Obj:
    _n = 0
    def __init__(s, cls): s.cls, s.attrs = cls, {}; Obj._n += 1; s.id = Obj._n
    def __repr__(s): return f"<{s.cls.name} object>"

class Bound:
    def __init__(s, f, self_): s.f, s.self = f, self_

class Native:
    """A native (contract) function: fn(args, kwargs)."""
    def __init__(s, name, fn): s.name, s.fn = name, fn
    def __repr__(s): return f"<native {s.name}>"

class NS:
    """Namespace of a modelled library."""
    def __init__(s, name, table): s.name, s.table = name, table
    def get(s, n):
        if n in s.table: return s.table[n]
        return Opaque(f"{s.name}.{n}")

class ExcClass:
    def __init__(s, kind): s.kind = kind
class ExcVal:
    def __init__(s, kind, args=()): s.kind, s.args = kind, args

EXC_PARENTS = {"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AxisError": "ValueError", "NameError": "Exception", "UnboundLocalError": "NameError", "AssertionError": "Exception", "OverflowError": "ArithmeticError", "Exception": "BaseException", "FileNotFoundError": "OSError", "OSError": "Exception", "LinAlgError": "ValueError"}
def exc_isa(k, base):
    while k is not None:
        if k == base: return True
        k = EXC_PARENTS.get(k)
    return False

BUILTINS = {}
LIBS = {}          # module name -> NS or dict of values
MODULE_SEQ = None  # recognizes sequences of torch modules
METHODS = []       # handlers (obj, name) -> value or None

class Sides:
    """Ghost state and events of the two sides of an undecided condition."""
    def __init__(s, c): s.c, s.cells0, s.out = c, dict(c.ghost.get("cells", {})), []
    def start(s):
        g = s.c.ghost.setdefault("cells", {}); g.clear(); g.update(s.cells0); s.n = len(s.c.events)
    def end(s, cond):
        s.out.append(dict(s.c.ghost["cells"])); new = s.c.events[s.n:]; plain = [e for e in new if isinstance(e, tuple) and e[0] in ("rng", "normal")]; rest = [e for e in new if not any(e is q for q in plain)]
        s.c.events[s.n:] = plain + ([("if", tobool(cond), rest)] if rest else [])
    def merge(s, cond):
        g = s.c.ghost["cells"]; a, b = s.out; g.clear()
        for k in set(a) | set(b):
            p, q = a.get(k, z3.IntVal(0)), b.get(k, z3.IntVal(0)); g[k] = p if p is q else merge(cond, p, q)

class SDict:
    """dict whose keys are 0..n-1, values by function."""
    def __init__(s, n, at): s.n, s.at = dim(n), at

class SSet:
    """A Python set of integers given by its membership predicate.  Mutable (member is replaced)."""
    def __init__(s, member, universe=None): s.member, s.universe = member, universe
    def copy(s): r = SSet(s.member, s.universe); r.img = s.img; return r
    img = None
    @property
    def image(s): return s.img[1] if s.img is not None and s.img[0] is s.member else None

class Generator:
    """Result of calling a generator function with concrete bodies (eager list)."""

class Interp:
    def __init__(self, repo="/repo"):
        self.repo = repo; self.modules = {}; self.contracts = {}; self.loops = {}; self.yield_hook = None
        self.depth = 0; self.fn_stack = []; self.executed = set(); self.srcs = {}; self.native_hooks = {}; self.loading = set()
        self.yields = None

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules: return self.modules[name]
        p = f"{self.repo}/medil/{name}.py"
        if not os.path.exists(p): raise Unsupported(f"module medil.{name}")
        src = open(p).read()
        self.srcs[name] = src
        g = {"__name__": f"medil.{name}"}
        self.modules[name] = g
        tree = ast.parse(src)
        env = Env(globals_=g); env.d = g
        self.fn_stack.append(f"{name}.<module>")
        try:
            for st in tree.body:
                try: self.stmt(st, env, name)
                except Unsupported as e:
                    # a module-level value outside the subset: unusable, but harmless unless used
                    for t in ast.walk(st):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store): g[t.id] = Opaque(f"{name}.{t.id}: {e}")
        finally: self.fn_stack.pop()
        return g

    def import_(self, st, env, module):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split(".")[0]
                m = LIBS.get(a.name) or LIBS.get(top) or NS(a.name, {})
                if a.asname: m = LIBS.get(a.name) or m
                env.set(a.asname or top, m if a.asname else (LIBS.get(top) or m))
            return
        mod = st.module or ""
        for a in st.names:
            if st.level > 0 or mod.startswith("medil"):
                sub = mod.split(".")[-1] if mod not in ("", "medil") else None
                if sub is None: env.set(a.asname or a.name, NS("medil." + a.name, self.module(a.name))); continue
                if a.name == "*":
                    for k, v in self.module(sub).items():
                        if not k.startswith("_"): env.set(k, v)
                    continue
                g = self.module(sub)
                env.set(a.asname or a.name, LazyGlobal(g, a.name, sub) if a.name not in g else g[a.name])
            else:
                lib = LIBS.get(mod)
                if lib is not None: v = lib.get(a.name)
                else:
                    parts = mod.split("."); v = LIBS.get(parts[0])
                    for p in parts[1:] + [a.name]:
                        v = v.get(p) if isinstance(v, NS) else None
                    sub = LIBS.get(mod + "." + a.name)
                    if sub is not None: v = sub
                    if v is None: v = Opaque(f"{mod}.{a.name}")
                env.set(a.asname or a.name, v)

    # ------------------------------------------------------------ statements
    def block(self, body, env, module):
        for st in body: self.stmt(st, env, module)

    def stmt(self, st, env, module):
        cx().where.append(f"{module}.py:{getattr(st, 'lineno', 0)}")
        try: return self.stmt_(st, env, module)
        finally: cx().where.pop()

    def stmt_(self, st, env, module):
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant): return
            self.expr(st.value, env, module)
        elif t is ast.Assign:
            v = self.expr(st.value, env, module)
            for tg in st.targets: self.assign(tg, v, env, module)
        elif t is ast.AnnAssign:
            if st.value is not None: self.assign(st.target, self.expr(st.value, env, module), env, module)
        elif t is ast.AugAssign: self.aug(st, env, module)
        elif t is ast.Return:
            raise Return(self.expr(st.value, env, module) if st.value is not None else None)
        elif t is ast.If:
            cond = self.truth(self.expr(st.test, env, module))
            if not isinstance(cond, bool) and (cx().local or getattr(cx(), "generic", 0)):
                q = cx().quick(cond)
                if q is None: return self.if_merge(cond, st, env, module)
                cond = q
            if cx().branch(cond): self.block(st.body, env, module)
            else: self.block(st.orelse, env, module)
        elif t is ast.For: self.for_(st, env, module)
        elif t is ast.While: self.while_(st, env, module)
        elif t is ast.Pass: pass
        elif t is ast.Break: raise Break()
        elif t is ast.Continue: raise Continue()
        elif t is ast.FunctionDef:
            f = self.make_func(st, env, module, st.name)
            for d in reversed(st.decorator_list):
                dn = ast.unparse(d)
                if dn == "staticmethod": f = ("static", f)
                elif dn == "classmethod": f = ("class", f)
                elif dn == "property": f = ("property", f)
                elif dn.startswith("torch.no_grad"): f.attrs["no_grad"] = True
                elif dn.startswith(("functools.wraps",)): pass
                else: raise Unsupported(f"decorator {dn}")
            env.set(st.name, f)
        elif t is ast.ClassDef:
            bases = [self.expr(b, env, module) for b in st.bases]
            e = Env(env, env.globals)
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    self.stmt(s, e, module)
                    f = e.d[s.name]
                    (f[1] if isinstance(f, tuple) else f).cls = st.name
                    (f[1] if isinstance(f, tuple) else f).env = env
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): pass
                else: self.stmt(s, e, module)
            c = Class(st.name, bases, e.d, module)
            for v in e.d.values():
                f = v[1] if isinstance(v, tuple) and len(v) == 2 else v
                if isinstance(f, Func): f.attrs["class"] = c
            if any(isinstance(b, NT) for b in bases):
                fields = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign)]
                env.set(st.name, NamedTupleClass(st.name, fields)); return
            env.set(st.name, c)
        elif t in (ast.Import, ast.ImportFrom): self.import_(st, env, module)
        elif t is ast.Raise:
            if st.exc is None: raise Unsupported("bare raise")
            v = self.expr(st.exc, env, module)
            if isinstance(v, ExcClass): raise PyRaise(v.kind)
            if isinstance(v, ExcVal): raise PyRaise(v.kind, str(v.args)[:100])
            raise PyRaise("Exception")
        elif t is ast.Try: self.try_(st, env, module)
        elif t is ast.With:
            for it in st.items:
                v = self.expr(it.context_expr, env, module)
                en = getattr(v, "enter", None)
                r = en() if en else v
                if it.optional_vars is not None: self.assign(it.optional_vars, r, env, module)
            try: self.block(st.body, env, module)
            finally:
                for it in st.items: pass
                ex = getattr(v, "exit", None)
                if ex: ex()
        elif t is ast.Assert:
            c = self.truth(self.expr(st.test, env, module))
            if not cx().branch(c): raise PyRaise("AssertionError")
        elif t is ast.Nonlocal: env.nonlocals |= set(st.names)
        elif t is ast.Global: env.nonlocals |= set(st.names)
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name): env.d.pop(tg.id, None)
                else: raise Unsupported("del of an element")
        else: raise Unsupported(f"statement {t.__name__}")

    def try_(self, st, env, module):
        try:
            self.block(st.body, env, module)
        except PyRaise as e:
            for h in st.handlers:
                kinds = []
                if h.type is None: kinds = ["BaseException"]
                else:
                    for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        v = self.expr(n, env, module)
                        kinds.append(v.kind if isinstance(v, ExcClass) else "?")
                if any(exc_isa(e.kind, k) for k in kinds):
                    if h.name: env.set(h.name, ExcVal(e.kind, (e.msg,)))
                    self.block(h.body, env, module)
                    if st.finalbody: self.block(st.finalbody, env, module)
                    return
            if st.finalbody: self.block(st.finalbody, env, module)
            raise
        except (Return, Break, Continue):
            if st.finalbody: self.block(st.finalbody, env, module)
            raise
        if st.orelse: self.block(st.orelse, env, module)
        if st.finalbody: self.block(st.finalbody, env, module)

    def if_merge(self, cond, st, env, module):
        """Both branches under a condition that cannot be decided here; results are merged."""
        c = cx()
        before = dict(env.d)
        log = []
        old_hook = getattr(c, "store_log", None)
        res = []
        side = Sides(c)
        for cnd, body in ((cond, st.body), (z3.Not(cond), st.orelse)):
            env.d = dict(before); c.store_log = log2 = []
            c.local.append([tobool(cnd)]); side.start(); c.guards = getattr(c, "guards", ()) + (tobool(cnd),)
            try:
                self.block(body, env, module)
            except (Return, Break, Continue, PyRaise) as e:
                raise Unsupported("jump under a condition on a bound variable")
            finally: c.local.pop(); c.store_log = old_hook; c.guards = c.guards[:-1]
            side.end(cnd)
            if old_hook is not None: old_hook.extend(log2)
            if any(not isinstance(o, arr.Buf) for o in log2): raise Unsupported("effect under a condition on a bound variable")
            res.append(env.d)
        side.merge(cond)
        a, b = res
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = a[k] if a[k] is b[k] else merge(cond, a[k], b[k])
            else: out[k] = Poison("assigned on one side only")
        env.d = out

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, env, module):
        if isinstance(tg, ast.Name): env.set(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(tg.elts), [isinstance(e, ast.Starred) for e in tg.elts])
            for t, x in zip(tg.elts, vs): self.assign(t.value if isinstance(t, ast.Starred) else t, x, env, module)
        elif isinstance(tg, ast.Attribute):
            o = self.expr(tg.value, env, module); self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.expr(tg.value, env, module); self.setitem(o, self.sub(tg.slice, env, module), v)
        else: raise Unsupported(f"assignment to {type(tg).__name__}")

    def unpack(self, v, n, starred):
        if any(starred):
            if isinstance(v, (list, tuple)):
                p = starred.index(True); k = len(v) - (n - 1)
                return list(v[:p]) + [list(v[p:p + k])] + list(v[p + k:])
            raise Unsupported("starred unpacking")
        if isinstance(v, (list, tuple)):
            if len(v) != n: raise PyRaise("ValueError", "unpack")
            return list(v)
        if isinstance(v, Arr):
            d = v.shape[0]
            if same(d, n) is not True:
                if same(d, n) is False: raise PyRaise("ValueError", "unpack")
                cx().require("as many values as targets", num(d) == n)
            return [arr.getitem(v, k) for k in range(n)]
        if isinstance(v, NTVal): return list(v.vals)
        if isinstance(v, SList):
            if same(v.n, n) is True: return [v.at(z3.IntVal(k)) for k in range(n)]
        raise Unsupported(f"unpack {type(v).__name__}")

    def aug(self, st, env, module):
        op = BINOPS.get(type(st.op))
        if isinstance(st.target, ast.Name):
            old = env.get(st.target.id); v = self.expr(st.value, env, module)
            r = self.inplace(op, old, v)
            if r is not old or not isinstance(old, Arr): env.set(st.target.id, r)
        elif isinstance(st.target, ast.Attribute):
            o = self.expr(st.target.value, env, module); old = self.getattr(o, st.target.attr); v = self.expr(st.value, env, module)
            self.setattr(o, st.target.attr, self.inplace(op, old, v))
        elif isinstance(st.target, ast.Subscript):
            o = self.expr(st.target.value, env, module); k = self.sub(st.target.slice, env, module)
            old = self.getitem(o, k); v = self.expr(st.value, env, module)
            r = self.inplace(op, old, v)
            self.setitem(o, k, r)
        else: raise Unsupported("augmented assignment")

    def inplace(self, op, old, v):
        if isinstance(old, Arr):
            r = self.binop(op, old, v)
            if not isinstance(r, Arr): r = arr.lift(r)
            arr.check_same_shape(r.shape, old.shape)
            if arr.RANK[r.dtype] > arr.RANK[old.dtype]: raise PyRaise("TypeError", "in-place result dtype")
            f = r.fn(); old.set_view(lambda *i: f(*i))
            return old
        h = getattr(old, "inplace", None)
        if h: return h(op, v)
        if isinstance(old, list) and op == "+":
            self.list_extend(old, v); return old
        if isinstance(old, SSet):
            r = self.binop(op, old, v); self.effect(old); old.member = r.member; return old
        if isinstance(old, set) and op in "|&-":
            r = self.binop(op, old, v)
            if isinstance(r, set): old.clear(); old |= r; return old
            return r
        return self.binop(op, old, v)

    def list_extend(self, l, v):
        self.effect(l)
        if isinstance(v, (list, tuple)): l.extend(v)
        else: l.extend(self.concrete_iter(v))

    def effect(self, o):
        """Called before a mutation of a Python-level object."""
        c = cx()
        if getattr(o, "frozen", False): raise Unsupported("mutation of a set held in a dictionary")
        log = getattr(c, "store_log", None)
        if log is not None: log.append(o)
        h = getattr(c, "effect_hook", None)
        if h: h(o)

    # ------------------------------------------------------------ loops
    def loop_spec(self, st):
        fn = self.fn_stack[-1]
        return self.loops.get((fn, self.loop_index(st)))

    def loop_index(self, st): return getattr(st, "_loop_idx", None)

    def for_(self, st, env, module):
        spec = self.loop_spec(st)
        it = self.expr(st.iter, env, module)
        if spec is not None and getattr(spec, "kind", "for") == "for": return spec.run(self, st, env, module, it)
        items = self.try_concrete(it)
        if items is None:
            ms = MODULE_SEQ(it) if isinstance(it, SList) and MODULE_SEQ else it
            h = getattr(ms, "run_for", None)
            if h and h(self, st, env, module) is not NotImplemented: return
            from loops import auto_for
            return auto_for(self, st, env, module, it)
        broke = False
        for x in items:
            self.assign(st.target, x, env, module)
            try: self.block(st.body, env, module)
            except Break: broke = True; break
            except Continue: continue
        if not broke and st.orelse: self.block(st.orelse, env, module)

    def while_(self, st, env, module):
        spec = self.loop_spec(st)
        if spec is not None: return spec.run(self, st, env, module, None)
        for v in list(env.d.values()):
            if hasattr(v, "run_while"): v.inv.env = env; return v.run_while(self, st, env, module)
        n = 0
        while True:
            cond = self.truth(self.expr(st.test, env, module))
            if not isinstance(cond, bool):
                q = cx().quick(cond)
                if q is None: raise Unsupported(f"loop without an invariant at line {st.lineno} of {module}")
                cond = q
            if not cond:
                if st.orelse: self.block(st.orelse, env, module)
                return
            n += 1
            if n > 64: raise Unsupported(f"loop without an invariant at line {st.lineno} of {module}")
            try: self.block(st.body, env, module)
            except Break: return
            except Continue: continue

    def try_concrete(self, v):
        """List of the elements if there are concretely many, else None."""
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, (str, range)): return list(v)
        if isinstance(v, dict): return list(v.keys())
        if isinstance(v, (set, frozenset)): return sorted(v)
        if isinstance(v, NTVal): return list(v.vals)
        if isinstance(v, SList):
            n = v.n
            if not isinstance(n, int): n = concrete(n)
            if isinstance(n, int) and n <= 64: return [v.at(z3.IntVal(k)) for k in range(max(0, n))]
            return None
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyRaise("TypeError", "iteration over a 0-d array")
            if isinstance(v.shape[0], int) and v.shape[0] <= 64: return [arr.getitem(v, k) for k in range(v.shape[0])]
            return None
        if hasattr(v, "elements"): return v.elements()
        return None

    def concrete_iter(self, v):
        r = self.try_concrete(v)
        if r is None: raise Unsupported(f"iteration over {type(v).__name__} of unknown length")
        return r

    def siter(self, v):
        """(n, at) of a symbolic iterable."""
        if isinstance(v, SList): return v.n, v.at
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyRaise("TypeError", "iteration over a 0-d array")
            return v.shape[0], (lambda k, v=v: arr.getitem(v, dim(k)) if v.ndim > 1 else v.at(k))
        if isinstance(v, (list, tuple)):
            l = list(v)
            def at(k):
                c = concrete(k)
                if c is None: raise Unsupported("symbolic subscript of a list")
                return l[c]
            return len(l), at
        if isinstance(v, SSet):
            a = npm().set_to_array(v, "i"); return a.shape[0], a.at
        if hasattr(v, "siter"): return v.siter()
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, float, str)): return bool(v)
        if is_z3(v): return simp2(tobool(v))
        if isinstance(v, (list, tuple, dict, set, frozenset)): return len(v) > 0
        if isinstance(v, SSet): return simp2(set_nonempty(v))
        if isinstance(v, SList): return simp2(num(v.n) > 0)
        if isinstance(v, Arr):
            if v.ndim == 0: return self.truth(v.at())
            if all(same(d, 1) is True for d in v.shape): return self.truth(v.at(*[z3.IntVal(0)] * v.ndim))
            if any(same(d, 1) is False for d in v.shape): raise PyRaise("ValueError", "truth value of an array is ambiguous")
            raise Unsupported("truth value of an array")
        if hasattr(v, "truth"): return v.truth()
        if isinstance(v, (Func, Class, Obj, Native, Bound, NS)): return True
        raise Unsupported(f"truth value of {type(v).__name__}")

    def expr(self, e, env, module):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env, module)

    def e_Constant(self, e, env, m):
        if e.value is Ellipsis: return Ellipsis
        return e.value
    def e_Name(self, e, env, m):
        v = env.get(e.id)
        if isinstance(v, LazyGlobal): v = v.resolve()
        return v
    def e_JoinedStr(self, e, env, m):
        for v in e.values:
            if isinstance(v, ast.FormattedValue): self.expr(v.value, env, m)
        return Str("formatted string")
    def e_Tuple(self, e, env, m): return tuple(self.elts(e.elts, env, m))
    def e_List(self, e, env, m): return list(self.elts(e.elts, env, m))
    def e_Set(self, e, env, m):
        vs = self.elts(e.elts, env, m)
        if all(isinstance(v, (int, str, bool, float, tuple)) for v in vs): return set(vs)
        vs = [num(v) for v in vs]
        return SSet(lambda x: z3.Or([num(x) == v for v in vs]))
    def elts(self, es, env, m):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out += self.concrete_iter(self.expr(x.value, env, m))
            else: out.append(self.expr(x, env, m))
        return out
    def e_Dict(self, e, env, m):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.expr(v, env, m)); continue
            kk = self.expr(k, env, m)
            if is_z3(kk): kk = concrete(kk)
            if kk is None: raise Unsupported("symbolic dictionary key")
            d[kk] = self.expr(v, env, m)
        return d
    def e_Lambda(self, e, env, m): return self.make_func(e, env, m, "<lambda>")
    def e_IfExp(self, e, env, m):
        c = self.truth(self.expr(e.test, env, m))
        if not isinstance(c, bool):
            q = cx().quick(c)
            if q is None and (cx().local or getattr(cx(), "generic", 0)):
                x = cx(); side = Sides(x); old = getattr(x, "store_log", None); out = []
                for cnd, br in ((tobool(c), e.body), (z3.Not(tobool(c)), e.orelse)):
                    x.local.append([cnd]); side.start(); x.store_log = log = []
                    try: out.append(self.expr(br, env, m))
                    finally: x.local.pop(); x.store_log = old
                    side.end(cnd)
                    if log: raise Unsupported("effect under a condition on a bound variable")
                side.merge(c)
                return merge(c, *out)
            if q is not None: c = q
        return self.expr(e.body if cx().branch(c) else e.orelse, env, m)
    def e_BoolOp(self, e, env, m):
        isand = isinstance(e.op, ast.And)
        v = self.expr(e.values[0], env, m)
        for x in e.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool):
                if t != isand: return v
                v = self.expr(x, env, m); continue
            # evaluate the rest under the condition when it is a pure boolean; fall back to branching
            q = cx().quick(t)
            if q is not None:
                if q != isand: return isand is False if q else False if isand else v
                v = self.expr(x, env, m); continue
            if cx().local or getattr(cx(), "generic", 0):
                k = cx(); side = Sides(k); old = getattr(k, "store_log", None); k.store_log = log = []
                k.local.append([t if isand else z3.Not(t)]); side.start()
                try: w = self.expr(x, env, m)
                finally: k.local.pop(); k.store_log = old
                if log: raise Unsupported("effect under a condition on a bound variable")
                g = t if isand else z3.Not(t); side.end(g); side.start(); side.end(z3.Not(g)); side.merge(g)
                wt = self.truth(w)
                v = simp2(z3.And(t, tobool(wt)) if isand else z3.Or(t, tobool(wt)))
            else:
                if cx().branch(t) != isand: return not isand if not is_z3(v) or z3.is_bool(v) else v
                v = self.expr(x, env, m)
        return v
    def e_UnaryOp(self, e, env, m):
        v = self.expr(e.operand, env, m)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else simp2(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            r = getattr(v, "neg", None)
            if r: return r()
            return arr.neg(v)
        if isinstance(e.op, ast.Invert):
            if isinstance(v, bool): return ~v
            if isinstance(v, int): return ~v
            return arr.invert(v)
        return v
    def e_BinOp(self, e, env, m):
        return self.binop(BINOPS[type(e.op)], self.expr(e.left, env, m), self.expr(e.right, env, m))
    def e_Compare(self, e, env, m):
        l = self.expr(e.left, env, m); res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.expr(r, env, m)
            x = self.compare(type(op).__name__, l, rv)
            if res is None: res = x
            else:
                t = self.truth(res)
                if isinstance(t, bool): res = x if t else res
                else:
                    xt = self.truth(x)
                    res = simp2(z3.And(t, tobool(xt)))
            l = rv
        return res
    def e_Call(self, e, env, m):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.d:
            cls = None; x = env
            while x is not None and x.fn is None: x = x.parent
            f = x.fn; self_ = x.d[f.node.args.args[0].arg]
            return Super(f.attrs["class"], self_)
        f = self.expr(e.func, env, m)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env, m)
                r = self.try_concrete(v)
                if r is None:
                    args.append(StarArg(v)); continue
                args += r
            else: args.append(self.expr(a, env, m))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value, env, m)
                if not isinstance(d, dict): raise Unsupported("** of a non-dict")
                kw.update(d)
            else: kw[k.arg] = self.expr(k.value, env, m)
        return self.call(f, args, kw)
    def e_Attribute(self, e, env, m): return self.getattr(self.expr(e.value, env, m), e.attr)
    def e_Subscript(self, e, env, m):
        return self.getitem(self.expr(e.value, env, m), self.sub(e.slice, env, m))
    def e_NamedExpr(self, e, env, m):
        v = self.expr(e.value, env, m); self.assign(e.target, v, env, m); return v
    def e_Yield(self, e, env, m):
        v = self.expr(e.value, env, m) if e.value is not None else None
        if self.yields is None: raise Unsupported("yield outside a generator call")
        self.yields(v, env); return None
    def e_Starred(self, e, env, m): raise Unsupported("starred expression")
    def sub(self, s, env, m):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.expr(x, env, m)
            f = lambda x: x.scalar() if isinstance(x, Arr) else x
            return Slice(f(g(s.lower)), f(g(s.upper)), f(g(s.step)))
        if isinstance(s, ast.Tuple): return tuple(self.sub(x, env, m) for x in s.elts)
        return self.expr(s, env, m)

    # comprehensions
    def comp(self, gens, env, m, build):
        """Elements of a comprehension as a list, an SList, or raises."""
        g = gens[0]
        it = self.expr(g.iter, env, m)
        items = self.try_concrete(it)
        if items is not None:
            out = []
            for x in items:
                e = Env(env, env.globals); self.assign(g.target, x, e, m)
                ok = True
                for c in g.ifs:
                    if not cx().branch(self.truth(self.expr(c, e, m))): ok = False; break
                if not ok: continue
                if len(gens) > 1:
                    r = self.comp(gens[1:], e, m, build)
                    if not isinstance(r, list): raise Unsupported("nested comprehension of unknown length")
                    out += r
                else: out.append(build(e))
            return out
        if len(gens) > 1: raise Unsupported("nested comprehension of unknown length")
        n, at = self.siter(it)
        frozen = freeze_env(env)
        def f(k):
            e = Env(frozen, env.globals); self.assign(g.target, at(k), e, m)
            return build(e)
        if not g.ifs: return SList(n, f)
        # filtered: enumerate the positions passing the test
        def test(k):
            e = Env(frozen, env.globals); self.assign(g.target, at(k), e, m)
            return AndL([tobool(self.truth(self.expr(c, e, m))) for c in g.ifs])
        mask = arr.new((n,), "b", lambda k: test(k))
        cnt, rank, en = arr.rank_of_mask(mask)
        r = SList(cnt, lambda k: f(en[0](k)))
        r.filtered = (n, test, f, rank, en[0], at)
        return r
    def e_ListComp(self, e, env, m):
        return self.comp(e.generators, env, m, lambda s: self.expr(e.elt, s, m))
    def e_GeneratorExp(self, e, env, m):
        r = self.comp(e.generators, env, m, lambda s: self.expr(e.elt, s, m))
        return SIter(r.n, r.at_) if isinstance(r, SList) and not hasattr(r, "filtered") else r
    def e_SetComp(self, e, env, m):
        r = self.comp(e.generators, env, m, lambda s: self.expr(e.elt, s, m))
        if isinstance(r, list):
            if all(isinstance(v, (int, str, tuple)) for v in r): return set(r)
            vs = [num(v) for v in r]
            return SSet(lambda x: z3.Or([num(x) == v for v in vs] or [False]))
        return setcomp_hook(self, e, env, m, r)
    def e_DictComp(self, e, env, m):
        r = self.comp(e.generators, env, m, lambda s: (self.expr(e.key, s, m), self.expr(e.value, s, m)))
        if isinstance(r, list):
            d = {}
            for k, v in r:
                k = concrete(k) if is_z3(k) else k
                if k is None: raise Unsupported("symbolic dictionary key")
                d[k] = v
            return d
        with bound(r.n) as (k,):
            kk = r.at(k)[0]
            if not (is_z3(kk) and simp(num(kk) - k).eq(z3.IntVal(0))): raise Unsupported("dictionary keys other than 0..n-1")
        return SDict(r.n, lambda u: r.at(num(u))[1])

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            h = getattr(x, "binop", None)
            if h:
                r = h(op, y, sw)
                if r is not NotImplemented: return r
        if op == "@": return arr.matmul(arr.lift(a), arr.lift(b))
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            try: return PYOPS[op](a, b)
            except ZeroDivisionError: raise PyRaise("ZeroDivisionError")
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Str) or isinstance(b, Str):
            if op == "+" and isinstance(a, str) and isinstance(b, str): return a + b
            return Str("string")
        if isinstance(a, SSet) or isinstance(b, SSet) or isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return set_op(op, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "+": return type(a)(list(a) + list(b))
        if op == "+" and isinstance(a, (list, SList)) and isinstance(b, (list, SList)): return seq_concat(self, a, b)
        if op == "*" and isinstance(a, (list, tuple)) and isinstance(b, int): return type(a)(list(a) * b)
        if op == "*" and isinstance(a, list) and is_z3(b) and len(a) == 1: return SList(z3.If(num(b) >= 0, num(b), 0), lambda k: a[0])
        if a is None or b is None or isinstance(a, (Obj, Func, Opaque)) or isinstance(b, (Obj, Func, Opaque)): 
            if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported(f"operator {op} on {a} and {b}")
            raise PyRaise("TypeError", f"operator {op}")
        return arr.binop(op, a, b)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
                if hasattr(a, "is_none") and b is None: r = a.is_none()
            else: r = a is b
            return r if op == "Is" else ((not r) if isinstance(r, bool) else z3.Not(r))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else ((not r) if isinstance(r, bool) else simp2(z3.Not(r)))
        o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        for x, y, sw in ((a, b, False), (b, a, True)):
            h = getattr(x, "compare", None)
            if h and not isinstance(x, Interp):
                r = h(o, y, sw)
                if r is not NotImplemented: return r
        simple = lambda v: isinstance(v, (bool, int, float, str)) or v is None
        if simple(a) and simple(b):
            try: return PYCMP[o](a, b)
            except TypeError: raise PyRaise("TypeError")
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)) or a is None or b is None:
            if o == "==" and not isinstance(a, Str) and not isinstance(b, Str): return False
            if o == "!=" and not isinstance(a, Str) and not isinstance(b, Str): return True
            raise Unsupported("comparison of strings")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if o in ("==", "!="):
                if len(a) != len(b): return o == "!="
                r = AndL([tobool(self.truth(self.compare("Eq", x, y))) for x, y in zip(a, b)] or [True])
                return simp2(r if o == "==" else z3.Not(r))
            raise Unsupported("ordering of sequences")
        r = arr.cmp(o, a, b)
        return simp2(r) if is_z3(r) else r

    def contains(self, s, x):
        if isinstance(s, SSet): return simp2(tobool(s.member(num(x))))
        if isinstance(s, (list, tuple, set, frozenset, range)):
            if isinstance(x, (str, int, float)) and all(isinstance(y, (str, int, float)) for y in s): return x in s
            if not s: return False
            fs = [self.truth(self.compare("Eq", x, y)) for y in s]
            return simp2(OrL([tobool(f) for f in fs]))
        if isinstance(s, dict):
            if is_z3(x): x = concrete(x)
            if x is None: raise Unsupported("symbolic key")
            return x in s
        if isinstance(s, Arr):
            f = s.fn()
            nz = s.meta.get("mask")
            if nz and s.ndim == 1 and s.meta.get("below") is not None:
                m, _ = nz; mf = m.fn()
                return simp2(z3.And(inr(num(x), m.shape[0]), tobool(mf(num(x)))))
            return simp2(exists(s.shape, lambda *i: num(f(*i)) == num(x)))
        if isinstance(s, SList): return simp2(exists([s.n], lambda k: tobool(self.truth(self.compare("Eq", s.at(k), x)))))
        if isinstance(s, (str, Str)) : raise Unsupported("substring test") if not (isinstance(s, str) and isinstance(x, str)) else None
        if hasattr(s, "contains"): return s.contains(x)
        raise Unsupported(f"membership in {type(s).__name__}")

    def getitem(self, o, k):
        if isinstance(o, Arr): return arr.getitem(o, k)
        if isinstance(o, NTVal): o = o.vals
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Slice):
                a, b, c = [concrete(x) if x is not None else None for x in (k.a, k.b, k.c)]
                if any(x is not None and y is None for x, y in zip((k.a, k.b, k.c), (a, b, c))): raise Unsupported("symbolic list slice")
                return o[slice(a, b, c)]
            i = k if isinstance(k, int) else concrete(k)
            if i is None:
                if o and all(isinstance(x, (int, float, bool)) or is_z3(x) for x in o):
                    cx().require("list subscript in range", inr(k, len(o)))
                    r = o[-1]
                    for t in range(len(o) - 2, -1, -1): r = ite(num(k) == t, o[t], r)
                    return r
                raise Unsupported("symbolic subscript of a list")
            if not -len(o) <= i < len(o): raise PyRaise("IndexError", "list index out of range")
            return o[int(i)]
        if isinstance(o, dict):
            if is_z3(k): k = concrete(k)
            if k is None: raise Unsupported("symbolic key")
            if k not in o: raise PyRaise("KeyError", str(k))
            return o[k]
        if isinstance(o, SDict):
            cx().require("key present", inr(k, o.n)); r = o.at(num(k))
            if isinstance(r, SSet): r.frozen = True
            return r
        if isinstance(o, SList):
            if isinstance(k, Slice):
                st, ln, step = arr.norm_slice(k, o.n)
                at = o.at
                return SList(ln, lambda j: at(num(st) + num(j) * step))
            i = arr.norm_index(k, o.n); return o.at(num(i))
        h = getattr(o, "getitem", None)
        if h: return h(k)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, Arr): arr.setitem(o, k, v); return
        if isinstance(o, list):
            i = k if isinstance(k, int) else concrete(k) if not isinstance(k, Slice) else None
            if i is None: raise Unsupported("symbolic list store")
            if not -len(o) <= i < len(o): raise PyRaise("IndexError", "list assignment index out of range")
            self.effect(o); o[int(i)] = v; return
        if isinstance(o, dict):
            k = concrete(k) if is_z3(k) else k
            if k is None: raise Unsupported("symbolic key")
            self.effect(o); o[k] = v; return
        h = getattr(o, "setitem", None)
        if h: return h(k, v)
        raise Unsupported(f"store into {type(o).__name__}")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, Obj):
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison): raise Unsupported(f"reads .{n}, {v.why}")
                return v
            v, c = o.cls.lookup(n)
            if v is None:
                ga = getattr(o, "getattr_", None)
                if ga:
                    r = ga(n)
                    if r is not None: return r
                raise PyRaise("AttributeError", f"{o.cls.name} has no {n}")
            return self.bind(v, o)
        if isinstance(o, Super):
            mro = o.self.cls.mro(); rest = mro[mro.index(o.cls) + 1:]
            for c in rest:
                if isinstance(c, Class):
                    if n in c.ns: return self.bind(c.ns[n], o.self)
                elif hasattr(c, "lookup"):
                    v = c.lookup(n)
                    if v is not None: return self.bind(v, o.self)
            if n == "__init__": return Native("object.__init__", lambda a, k: None)
            raise PyRaise("AttributeError", n)
        if isinstance(o, NS):
            v = o.get(n)
            return v.resolve() if isinstance(v, LazyGlobal) else v
        if isinstance(o, Class):
            v, _ = o.lookup(n)
            if v is None:
                if n == "__name__": return o.name
                raise PyRaise("AttributeError", n)
            return v[1] if isinstance(v, tuple) and v[0] == "static" else v
        if isinstance(o, NTVal):
            if n in o.cls.fields: return o.vals[o.cls.fields.index(n)]
            raise PyRaise("AttributeError", n)
        if isinstance(o, Func) and n == "__name__": return o.name
        h = getattr(o, "getattr", None)
        if h and not isinstance(o, (Interp,)):
            r = h(n)
            if r is not None: return r[0] if isinstance(r, tuple) and len(r) == 1 else r
        for f in METHODS:
            r = f(self, o, n)
            if r is not None: return r[0]
        if isinstance(o, Opaque): return Opaque(f"{o.name}.{n}")
        raise PyRaise("AttributeError", f"{type(o).__name__}.{n}") if isinstance(o, (int, float, str, list, tuple)) or o is None else Unsupported(f"attribute {n} of {type(o).__name__}")

    def bind(self, v, o):
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("static", "class", "property"):
            if v[0] == "static": return v[1]
            if v[0] == "property": return self.call(Bound(v[1], o), [], {})
            return Bound(v[1], o.cls)
        if isinstance(v, (Func, Native)): return Bound(v, o)
        return v

    def hasattr(self, o, n):
        try: self.getattr(o, n); return True
        except PyRaise as e:
            if e.kind == "AttributeError": return False
            raise

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            self.effect((o, n))
            h = getattr(o.cls, "setattr_", None)
            for c in o.cls.mro():
                h = getattr(c, "setattr_", None)
                if h and not isinstance(c, Class): h(self, o, n, v)
            o.attrs[n] = v; return
        if isinstance(o, Func): o.attrs[n] = v; return
        h = getattr(o, "setattr", None)
        if h: return h(n, v)
        raise Unsupported(f"sets attribute {n} of {type(o).__name__}")

    # ------------------------------------------------------------ calls
    def make_func(self, node, env, module, name):
        f = Func(node, env, module, name)
        a = node.args
        f.defaults = [self.expr(d, env, module) for d in a.defaults]
        f.kwdefaults = {k.arg: self.expr(d, env, module) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(node, ast.Lambda): number_loops(node)
        enc = self.fn_stack[-1] if self.fn_stack else ""
        f.qualname = None
        return f

    def call(self, f, args, kw):
        if isinstance(f, LazyGlobal): f = f.resolve()
        if isinstance(f, Bound):
            return self.call_func(f.f, [f.self] + list(args), kw) if isinstance(f.f, (Func,)) else f.f.fn([f.self] + list(args), kw)
        if isinstance(f, Func): return self.call_func(f, args, kw)
        if isinstance(f, Native): return f.fn(list(args), kw)
        if isinstance(f, Class): return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass): return ExcVal(f.kind, tuple(args))
        if isinstance(f, NamedTupleClass):
            vals = list(args) + [kw[n] for n in f.fields[len(args):]]
            return NTVal(f, vals)
        if isinstance(f, Obj):
            v, _ = f.cls.lookup("__call__")
            if v is not None: return self.call(self.bind(v, f), args, kw)
        h = getattr(f, "call", None)
        if h and not isinstance(f, Interp): return h(self, list(args), kw)
        raise Unsupported(f"call of {f if isinstance(f, Opaque) else type(f).__name__}")

    def instantiate(self, cls, args, kw):
        o = Obj(cls)
        init, _ = cls.lookup("__init__")
        if init is not None: self.call(self.bind(init, o), args, kw)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = Env(f.env, f.env.globals if f.env else None, f)
        d = {}
        if any(isinstance(x, StarArg) for x in args): raise Unsupported("call with an argument list of unknown length")
        for n, v in zip(names, args): d[n] = v
        extra = list(args[len(names):])
        if extra:
            if a.vararg is None: raise PyRaise("TypeError", f"too many arguments for {f.name}")
        if a.vararg is not None: d[a.vararg.arg] = tuple(extra)
        rest = {}
        kwn = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in kwn:
                if k in d and k in names[:len(args)]: raise PyRaise("TypeError", f"multiple values for {k}")
                d[k] = v
            else: rest[k] = v
        if rest and a.kwarg is None: raise PyRaise("TypeError", f"unexpected keyword {sorted(rest)}")
        if a.kwarg is not None: d[a.kwarg.arg] = rest
        for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in d: d[n] = v
        for k, v in f.kwdefaults.items():
            if k not in d: d[k] = v
        for n in kwn:
            if n not in d: raise PyRaise("TypeError", f"missing argument {n} of {f.name}")
        env.d = d
        return env

    def call_func(self, f, args, kw):
        q = f.qual
        c = self.contracts.get(q)
        if c is not None and q not in getattr(self, "no_contract", ()):
            r = c(self, f, args, kw)
            if r is not NotImplemented: return r
        return self.run_body(f, args, kw)

    def run_body(self, f, args, kw):
        self.depth += 1
        if self.depth > 40: raise Unsupported("call depth (recursion without a contract)")
        env = self.bind_args(f, args, kw)
        key = f.qual if f.cls or not self.fn_stack or f.env is None or f.env.parent is None else f.qual
        self.fn_stack.append(f.qual); self.executed.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda): return self.expr(f.node.body, env, f.module)
            if f.is_gen: return self.run_gen(f, env)
            try: self.block(f.node.body, env, f.module)
            except Return as r: return r.v
            return None
        finally:
            self.fn_stack.pop(); self.depth -= 1

    def run_gen(self, f, env):
        """A generator without a contract: run to the end, collecting (only when its loops are concrete)."""
        out = []
        old = self.yields
        self.yields = self.yield_hook or (lambda v, e: out.append(v))
        try:
            try: self.block(f.node.body, env, f.module)
            except Return: pass
        finally: self.yields = old
        return ListIter(out)

class ListIter:
    """A one-shot iterator over concretely many values."""
    def __init__(s, l): s.l, s.p = list(l), 0
    def elements(s): r = s.l[s.p:]; s.p = len(s.l); return r
    def next(s):
        if s.p >= len(s.l): raise PyRaise("StopIteration")
        s.p += 1; return s.l[s.p - 1]

class StarArg:
    def __init__(s, v): s.v = v
class Super:
    def __init__(s, cls, self_): s.cls, s.self = cls, self_
class LazyGlobal:
    def __init__(s, g, n, mod): s.g, s.n, s.mod = g, n, mod
    def resolve(s):
        if s.n not in s.g: raise PyRaise("ImportError", s.n)
        return s.g[s.n]
class NT: pass
class NamedTupleClass:
    def __init__(s, name, fields): s.name, s.fields = name, fields
class NTVal:
    def __init__(s, cls, vals): s.cls, s.vals = cls, vals

def number_loops(node):
    k = 0
    def go(n):
        nonlocal k
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(ch, (ast.For, ast.While)):
                ch._loop_idx = k; k += 1
            go(ch)
    go(node)

def freeze(v):
    if isinstance(v, Arr):
        b = arr.Buf(v.buf.shape, v.buf.dtype, v.buf.content, v.buf.name); b.version = v.buf.version; b.memo = {}
        b.orig = v.buf
        r = Arr(b, v.shape, v.map); r.meta = v.meta; return r
    if isinstance(v, list): return [freeze(x) for x in v]
    if isinstance(v, SSet): return v.copy()
    return v

class FrozenEnv(Env): pass

def freeze_env(env):
    """The environment as it is now (arrays by value), for elements evaluated on demand."""
    out, e = None, env
    chain = []
    while e is not None: chain.append(e); e = e.parent
    for e in reversed(chain):
        n = Env(out, e.globals, e.fn)
        n.d = e.d if e.d is e.globals else {k: freeze(v) for k, v in e.d.items()}
        out = n
    return out

def merge(c, a, b):
    """Value that is a if c else b."""
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    sc = lambda v: isinstance(v, (bool, int, float)) or is_z3(v)
    if sc(a) and sc(b): return ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.dtype == b.dtype and all(same(x, y) is True for x, y in zip(a.shape, b.shape)):
        fa, fb = a.fn(), b.fn()
        return arr.new(a.shape, a.dtype, lambda *i: ite(c, fa(*i), fb(*i)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b): return type(a)(merge(c, x, y) for x, y in zip(a, b))
    h = getattr(a, "merge", None)
    if h: return h(c, b)
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")

def simp2(e):
    if isinstance(e, bool): return e
    s = simp(e)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s

def set_nonempty(s): 
    return exists([s.universe], lambda x: tobool(s.member(x))) if s.universe is not None else z3.Exists([_x], tobool(s.member(_x)))
_x = z3.Int("sx")

def set_op(op, a, b):
    f = lambda s: s.member if isinstance(s, SSet) else (lambda x, s=s: z3.Or([num(x) == num(v) for v in s] or [False]))
    if not isinstance(a, SSet) and not isinstance(b, SSet): return {"&": a & b, "|": a | b, "-": a - b, "^": a ^ b}[op]
    u = getattr(a, "universe", None) if isinstance(a, SSet) else None
    u2 = getattr(b, "universe", None) if isinstance(b, SSet) else None
    p, q = f(a), f(b)
    if op == "&": return SSet(lambda x: z3.And(tobool(p(x)), tobool(q(x))), u if u is not None else u2)
    if op == "|": return SSet(lambda x: z3.Or(tobool(p(x)), tobool(q(x))), u if u is not None and u2 is not None else None)
    if op == "-": return SSet(lambda x: z3.And(tobool(p(x)), z3.Not(tobool(q(x)))), u)
    raise Unsupported(f"set operator {op}")

def seq_concat(ip, a, b):
    n1, f1 = ip.siter(a); n2, f2 = ip.siter(b)
    def at(k):
        c = cx().quick(num(k) < num(n1))
        if c is True: return f1(k)
        if c is False: return f2(z3.simplify(num(k) - num(n1)))
        if isinstance(a, list) and not a: return f2(k)
        return merge(num(k) < num(n1), f1(k), f2(z3.simplify(num(k) - num(n1))))
    return SList(num(n1) + num(n2), at)

def setcomp_hook(ip, e, env, m, r):
    """{x for x in it if cond}: membership predicate."""
    if not isinstance(r, SList): raise Unsupported("set comprehension")
    filt = getattr(r, "filtered", None)
    n, test, f, _, _, at = filt if filt else (r.n, lambda k: True, r.at, None, None, None)
    # elements equal to the loop variable over an enumeration of a mask
    src = ip.expr(e.generators[0].iter, env, m)
    if isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id and isinstance(src, Arr) and src.ndim == 1:
        nz = src.meta.get("nz") or src.meta.get("mask")
        if nz and src.meta.get("below") is not None and nz[0].ndim == 1:
            mask, rank = nz[0], nz[1]; mf = mask.fn(); u = mask.shape[0]
            frozen = freeze_env(env)
            def member(x):
                e2 = Env(frozen, env.globals); e2.d[e.elt.id] = num(x)
                cs = []
                for cnd in e.generators[0].ifs:
                    cs.append(tobool(ip.truth(ip.expr(cnd, e2, m))))
                return z3.And(inr(x, u), tobool(mf(num(x))), *cs)
            return SSet(member, u)
    with bound(n) as (k,): v0 = f(k)
    if is_z3(v0) and z3.is_int(v0):
        r = SSet(lambda x: exists([n], lambda k: z3.And(tobool(test(k)), num(f(k)) == num(x)))); r.img = (r.member, (n, test, f))
        return r
    return PySet(n, test, f)

class PySet:
    """Set of structured elements {f(k) : k < n, test(k)}, iterated in unknown order."""
    def __init__(s, n, test, f): s.n, s.test, s.f = n, test, f

PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift}
PYCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
