"""Loops over ranges of unknown length without a contract-supplied invariant.

The body is executed once for an arbitrary iteration k from an arbitrary (havocked) loop state; the state after it is then
summarized by induction on k where the shape of the transition allows it:
  x' = x                  unchanged
  x' = x + e(k)           x_k = x_0 + sum_{j<k} e(j)       (also entrywise for arrays, and for list.append: x_k has k more entries)
  x' = e(k)               x_k = e(k-1) for k > 0
  a' = a except slot t(k) slots written by distinct iterations are distinct
Anything else is Unsupported."""
import ast, sys, z3
from core import *
import core, arr
from arr import Arr, SList, Buf
from interp import *
import interp as I_

class Snap:
    def __init__(s):
        c = cx()
        s.c = c; s.n = (len(c.pc), len(c.obligs), len(c.events), len(c.apps), c.pos, len(c.dec), len(c.alts), len(c.bij))
        s.loc = [len(l) for l in c.local]
        s.lib, s.ghost, s.assumed = dict(c.lib), dict(c.ghost), set(c.assumed)
        s.cells = dict(c.ghost.get("cells", {}))
        c.solver.push()
        s.epoch = c.epoch; c.epochs += 1; c.epoch = c.epochs
    def restore(s):
        c = s.c; a = s.n
        del c.pc[a[0]:]; del c.obligs[a[1]:]; del c.events[a[2]:]; del c.apps[a[3]:]; c.pos = a[4]; del c.dec[a[5]:]; del c.alts[a[6]:]; del c.bij[a[7]:]
        for l, n in zip(c.local, s.loc): del l[n:]
        c.lib = s.lib; c.ghost = s.ghost; c.assumed = s.assumed; c.epoch = s.epoch; c.qf.reset(); c.qf_n = 0
        if "cells" in c.ghost: c.ghost["cells"].clear(); c.ghost["cells"].update(s.cells)
        c.solver.pop()

class Effects:
    """Records mutations; undo restores them."""
    def __init__(s): s.bufs, s.attrs, s.lists, s.others = {}, {}, {}, []
    def __enter__(s):
        c = cx(); s.old = (getattr(c, "effect_hook", None), getattr(c, "store_hook", None)); eff = s
        def eh(o):
            if isinstance(o, tuple):
                k = (id(o[0]), o[1])
                if k not in eff.attrs: eff.attrs[k] = (o[0], o[1], o[0].attrs.get(o[1], None), o[1] in o[0].attrs)
            elif isinstance(o, list):
                if id(o) not in eff.lists: eff.lists[id(o)] = (o, list(o))
            elif isinstance(o, SList):
                if id(o) not in eff.lists: eff.lists[id(o)] = (o, (o.n, o.at_))
            elif isinstance(o, dict):
                if id(o) not in eff.lists: eff.lists[id(o)] = (o, dict(o))
            elif isinstance(o, SSet):
                if id(o) not in eff.lists: eff.lists[id(o)] = (o, o.member)
            else: eff.others.append(o)
            if eff.old[0]: eff.old[0](o)
        c.effect_hook = eh; c.buf_log = s.bufs
        return s
    def __exit__(s, *a):
        c = cx(); c.effect_hook = s.old[0]
        return False
    def undo(s):
        for o, n, v, had in s.attrs.values():
            if had: o.attrs[n] = v
            else: o.attrs.pop(n, None)
        for o, v in s.lists.values():
            if isinstance(o, list): o[:] = v
            elif isinstance(o, dict): o.clear(); o.update(v)
            elif isinstance(o, SSet): o.member = v
            else: o.n, o.at_ = v
        for b, (old, ver) in s.bufs.values(): b.content = old; b.memo = {}

_store = Buf.store
def store(self, cond_val):
    stack = getattr(cx(), "buf_logs", None)
    if stack:
        for l in stack:
            if self.id not in l: l[self.id] = (self, (self.content, self.version))
    log = getattr(cx(), "store_log", None)
    if log is not None: log.append(self)
    _store(self, cond_val)
Buf.store = store

def subst_val(v, pairs, apps=()):
    """Substitution in a structured value."""
    if is_z3(v):
        r = z3.substitute(v, *pairs) if pairs else v
        for d, fn in apps: r = replace_app(r, d, fn)
        return z3.simplify(r) if pairs else r
    if isinstance(v, Arr):
        f = v.fn(); cache = {}
        r = arr.new([subst_val(num(d), pairs, apps) for d in v.shape], v.dtype, lambda *i: subst_val(with_marks(f, i, pairs), pairs, apps)); r.meta = {}
        return r
    if isinstance(v, (list, tuple)): return type(v)(subst_val(x, pairs, apps) for x in v)
    if isinstance(v, dict): return {k: subst_val(x, pairs, apps) for k, x in v.items()}
    if isinstance(v, SList): return type(v)(subst_val(num(v.n), pairs, apps), lambda k: subst_val(v.at(k), pairs, apps))
    if isinstance(v, (bool, int, float, str)) or v is None: return v
    h = getattr(v, "subst", None)
    if h: return h(lambda x: subst_val(x, pairs, apps))
    return v

def with_marks(f, idx, pairs):
    """Contents at idx, protecting indices that themselves contain the substituted variables."""
    ids = {p[0].get_id() for p in pairs}
    if not any(occurs(num(i), ids) for i in idx): return f(*idx)
    marks = [z3.Int(f"mk!{t}") for t in range(len(idx))]
    # evaluated at fresh marks: the marks are replaced after the substitution (they are not substituted)
    e = f(*marks)
    raise Unsupported("index depends on the loop variable under substitution") if False else None
    return e

def replace_app(e, decl, fn, _memo=None):
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(x):
            if any_decl(x.body(), decl): raise Unsupported("loop state under a quantifier")
            r = x
        elif not x.children(): r = x
        else:
            ch = [go(y) for y in x.children()]
            if x.decl().eq(decl): r = fn(*ch)
            else: r = x.decl()(*ch) if any(not p.eq(q) for p, q in zip(ch, x.children())) else x
        memo[i] = (x, r); return r
    return go(e)

def any_decl(e, decl):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x) and x.decl().eq(decl): return True
        stack.extend(x.children())
    return False

def apps_of(e, decl):
    out, stack, seen = [], [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x) and x.decl().eq(decl): out.append(x)
        stack.extend(x.children())
    return out

def assigned_names(body):
    out = set()
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        for ch in ast.iter_child_nodes(n): go(ch)
    for b in body: go(b)
    return out

class LoopEvent:
    """Events of an arbitrary iteration k < n."""
    def __init__(s, n, k, events): s.n, s.k, s.events = n, k, events
    def subst(s, f): return LoopEvent(f(num(s.n)), s.k, [subst_event(e, f) for e in s.events])
def subst_event(e, f):
    if isinstance(e, LoopEvent): return e.subst(f)
    if e[0] == "if": return ("if", f(e[1]), [subst_event(q, f) for q in e[2]])
    return tuple(f(x) for x in e)

class _logs:
    def __init__(s, d): s.d = d
    def __enter__(s):
        c = cx()
        if not hasattr(c, "buf_logs"): c.buf_logs = []
        c.buf_logs.append(s.d)
    def __exit__(s, *a): cx().buf_logs.pop(); return False

def jumps(body):
    """Does the loop body leave its loop by break, or the function by return?"""
    def go(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): return False
        if isinstance(n, ast.Return) or isinstance(n, ast.Break) and not inner: return True
        if isinstance(n, (ast.For, ast.While)): return any(go(x, True) for x in n.body) or any(go(x, inner) for x in n.orelse)
        return any(go(x, inner) for x in ast.iter_child_nodes(n))
    return any(go(b, False) for b in body)

def search_for(ip, st, env, module, n, at):
    """A loop of unknown length that is left from inside: either no iteration leaves it, or one iteration (arbitrary) does.  Iterations
    that do not leave it must change nothing but variables assigned in the body."""
    c = cx(); names = assigned_names(st.body) | assigned_names([st.target])
    for q in names:
        if q in env.d: env.d[q] = Poison("assigned in an earlier iteration")
    if c.choose(2) == 0:
        for q in names: env.d[q] = Poison("assigned in a loop of unknown length")
        if st.orelse: ip.block(st.orelse, env, module)
        return
    k = c.int("it"); c.assume(inr(k, n)); known, known_obj = Buf._n, I_.Obj._n; ev0 = len(c.events)
    with Effects() as eff, _logs(eff.bufs):
        ip.assign(st.target, at(k), env, module)
        try: ip.block(st.body, env, module)
        except Break: return
        except Continue: pass
    if any(v[0].id <= known for v in eff.bufs.values()) or any(v[0].id <= known_obj for v in eff.attrs.values()) or eff.others or len(c.events) > ev0 \
            or any(reachable(v[0], dict(env.d), env, {}) for v in eff.lists.values()):
        raise Unsupported("an iteration that does not leave its loop has effects")
    raise PathEnd()

def auto_for(ip, st, env, module, it):
    n, at = ip.siter(it)
    c = cx()
    if jumps(st.body) and not c.local: return search_for(ip, st, env, module, n, at)
    if st.orelse: raise Unsupported("for-else over a sequence of unknown length")
    names = assigned_names(st.body) | assigned_names([st.target])
    env0 = dict(env.d)
    k = c.int("it"); c.bound_names.add(k.decl().name())
    cells = c.ghost.setdefault("cells", {})
    known = Buf._n; known_obj = I_.Obj._n

    def body(hav):
        c.generic = getattr(c, "generic", 0) + 1
        if not hasattr(c, "loop_vars"): c.loop_vars = []
        c.loop_vars.append(k)
        c.local.append([inr(k, n)])
        try:
            ip.assign(st.target, at(k), env, module)
            try: ip.block(st.body, env, module)
            except (Break, Return): raise Unsupported("jump out of a loop of unknown length")
            except Continue: raise Unsupported("continue in a loop of unknown length")
            except PyRaise as e: raise Unsupported(f"exception in a loop of unknown length: {e}")
        finally:
            c.generic -= 1; c.loop_vars.pop()
            loc = c.local.pop()
        return loc

    # ---- discovery
    snap = Snap()
    with Effects() as eff, _logs(eff.bufs):
        try: body(False)
        finally:
            found = (dict(eff.bufs), dict(eff.attrs), dict(eff.lists))
            changed_cells = [q for q in cells if q not in snap.cells or not same_val(cells[q], snap.cells[q])]
            if eff.others: bad = True
            else: bad = False
            eff.undo(); env.d.clear(); env.d.update(env0); snap.restore()
    if bad: raise Unsupported("effect in a loop of unknown length")
    bufs = {q: v for q, v in found[0].items() if v[0].id <= known}
    attrs = {q: v for q, v in found[1].items() if v[0].id <= known_obj}
    lists = found[2]
    pre_lists = {q: v for q, v in lists.items() if reachable(v[0], env0, env, attrs)}
    # ---- generic iteration from a havocked state
    H = {}          # key -> (placeholder, original value)
    def havoc(key, v):
        v = v.scalar() if isinstance(v, Arr) and v.ndim == 0 else v
        h = c.const("H", {"b": B, "i": I, "f": R}[arr.dtype_of_scalar(v)])
        # ints may become reals
        H[key] = (h, v); return h
    scal = lambda v: isinstance(v, (bool, int, float)) or is_z3(v) or isinstance(v, Arr) and v.ndim == 0
    upgrade = set()
    for attempt in range(3):
        H.clear()
        ev0 = len(c.events); ob0 = len(c.obligs)
        sn = Snap()
        for q in names:
            if q in env0:
                v = env0[q]
                if scal(v):
                    if ("n", q) in upgrade: v = real(v.scalar() if isinstance(v, Arr) else v)
                    env.d[q] = havoc(("n", q), v)
                else: env.d[q] = Poison("assigned in an earlier iteration")
        for (q, (o, nme, v, had)) in attrs.items():
            if had and scal(v): o.attrs[nme] = havoc(("a", q), real(v) if ("a", q) in upgrade else v)
            else: o.attrs[nme] = Poison("assigned in an earlier iteration")
        for q in changed_cells: cells[q] = havoc(("c", q), snap.cells.get(q, z3.IntVal(0)))
        HB = {}
        for q, (b, (old, ver)) in bufs.items():
            f = c.fn("HB", *[I] * len(b.shape), {"b": B, "i": I, "f": R}[b.dtype])
            HB[q] = (f, old, b); b.content = (lambda f: lambda *i: f(*[num(x) for x in i]))(f); b.memo = {}
        for q, (l, v) in pre_lists.items():
            if isinstance(l, (list,)): l[:] = []
            elif isinstance(l, SList): l.n, l.at_ = 0, None
            else: raise Unsupported("container changed in a loop of unknown length")
        with Effects() as eff2, _logs(eff2.bufs):
            loc = body(True)
        redo = False
        for q in names:
            if ("n", q) in H and scal(env.d.get(q)):
                h = H[("n", q)][0]; v = env.d[q]; v = v.scalar() if isinstance(v, Arr) else v
                if arr.dtype_of_scalar(v) == "f" and z3.is_int(h): upgrade.add(("n", q)); redo = True
        for q, (o, nme, v, had) in attrs.items():
            if ("a", q) in H and scal(o.attrs.get(nme)) and arr.dtype_of_scalar(o.attrs[nme]) == "f" and z3.is_int(H[("a", q)][0]): upgrade.add(("a", q)); redo = True
        if not redo: break
        eff2.undo(); env.d.clear(); env.d.update(env0); sn.restore()
        for b, (old, ver) in bufs.values(): b.content = old; b.memo = {}
        for l, v in pre_lists.values():
            if isinstance(l, list): l[:] = v
            else: l.n, l.at_ = v
        for o, nme, v, had in attrs.values():
            if had: o.attrs[nme] = v
        cells.clear(); cells.update(snap.cells)
    # the solver frame pushed by sn stays (its facts remain valid)
    facts = loc[1:]
    new_bufs = {q for q, v in eff2.bufs.items() if v[0].id <= known} - set(bufs)
    if new_bufs: raise Unsupported("writes of a loop body depend on its state")
    if any((q not in attrs) and v[0].id <= known_obj for q, v in eff2.attrs.items()): raise Unsupported("attribute writes of a loop body depend on its state")
    # ---- closed forms of the scalars
    newv = {}
    for key in H:
        if key[0] == "n": v = env.d[key[1]]
        elif key[0] == "a": o, nme = attrs[key[1]][:2]; v = o.attrs[nme]
        else: v = cells[key[1]]
        v = v.scalar() if isinstance(v, Arr) and v.ndim == 0 else v
        if not scal(v): raise Unsupported("a scalar becomes structured in a loop of unknown length")
        newv[key] = arr.cast(v, {"b": "b", "i": "i", "f": "f"}["b" if z3.is_bool(H[key][0]) else "i" if z3.is_int(H[key][0]) else "f"])
    closed = {}
    hid = {key: H[key][0].get_id() for key in H}
    # loop-carried array state read by scalars is not summarized
    hb_decls = [x[0] for x in HB.values()]
    for _ in range(len(H) + 1):
        prog = False
        for key, (h, v0) in H.items():
            if key in closed: continue
            e = newv[key]
            if z3.simplify(e).eq(h) or e.eq(h): closed[key] = lambda kk, v0=v0, h=h: arr.cast(v0, dt_of(h)); prog = True; continue
            e = z3.substitute(e, *[(H[q][0], arr.cast(closed[q](k), dt_of(H[q][0]))) for q in closed]) if closed else e
            open_ids = {hid[q] for q in H if q not in closed}
            if any(any_decl(e, d) for d in hb_decls): continue
            if not z3.is_bool(h):
                d = z3.simplify(e - h, som=True)
                if not occurs(d, open_ids):
                    inc = d
                    if not occurs(inc, {k.get_id()}): f = lambda kk, v0=v0, inc=inc, h=h: z3.simplify(arr.cast(v0, dt_of(h)) + (real(num(kk)) if z3.is_real(h) else num(kk)) * inc)
                    else: f = lambda kk, v0=v0, inc=inc, h=h: arr.cast(v0, dt_of(h)) + arr.cast(ssum([kk], lambda j: z3.substitute(inc, (k, num(j)))), dt_of(h))
                    closed[key] = f; prog = True; continue
            if occurs(e, open_ids) and not occurs(e, (open_ids - {hid[key]}) | {k.get_id()}) and c.quick(z3.substitute(e, (h, e)) == e) is True:
                # an idempotent step
                closed[key] = lambda kk, e=e, v0=v0, h=h: ite(num(kk) > 0, z3.substitute(e, (h, arr.cast(v0, dt_of(h)))), arr.cast(v0, dt_of(h))); prog = True; continue
            if not occurs(e, open_ids):
                closed[key] = lambda kk, e=e, v0=v0, h=h: ite(num(kk) > 0, z3.substitute(e, (k, z3.simplify(num(kk) - 1))), arr.cast(v0, dt_of(h))); prog = True
        if len(closed) == len(H): break
        if not prog:
            import os
            if os.environ.get("PYVC_TB"): print([(q, newv[q]) for q in H if q not in closed])
            raise Unsupported("loop-carried value without a closed form")
    pairs = [(H[q][0], arr.cast(closed[q](k), dt_of(H[q][0]))) for q in H]
    sub = lambda e: z3.substitute(e, *pairs) if pairs else e
    # ---- arrays
    final_bufs = []
    for q, (f, old, b) in HB.items():
        idx = [c.int("ix") for _ in b.shape]
        for x in idx: c.bound_names.add(x.decl().name())
        c.local.append([inr(k, n)] + [inr(x, d) for x, d in zip(idx, b.shape)])
        try:
            E = sub(arr.cast(b.content(*idx), b.dtype))
            h0 = f(*idx)
            done = None
            tcands = [k]
            a0 = at(k)
            inv = None
            if is_z3(a0) and z3.is_int(a0):     # the elements of a mask, in order
                for (rank, cnt, mf, shape), en in zip(c.masks, c.mask_enums):
                    if len(en) == 1 and z3.simplify(en[0](k)).eq(z3.simplify(a0)) and num(n).eq(num(cnt)):
                        for d in range(len(idx)):
                            if c.quick(z3.Implies(idx[d] != a0, E == h0)) is True: inv = (d, rank, mf, shape[0], a0); break
                        break
            if inv is not None:
                d = inv[0]; kk = inv[1](idx[d]); Ed = z3.substitute(z3.substitute(E, (a0, idx[d])), (k, kk))
                if any(not app.arg(d).eq(idx[d]) for app in apps_of(z3.simplify(Ed), f)) or any(any_decl(Ed, g) for qq, (g, _, _) in HB.items() if qq != q): inv = None
                else:
                    final_bufs.append((b, old, ("masked", d, inv, Ed, f, idx))); continue
            if is_z3(a0) and z3.is_int(a0): tcands.append(sub(a0))
            elif isinstance(a0, tuple): tcands += [sub(x) for x in a0 if is_z3(x) and z3.is_int(x)]
            for t in tcands:
                off = z3.simplify(t - k, som=True)
                if occurs(off, {k.get_id()}): continue
                for d in range(len(idx)):
                    if c.quick(z3.Implies(idx[d] != t, E == h0)) is True: done = (d, off); break
                if done: break
            if done:
                d, off = done
                Ed = z3.simplify(z3.substitute(E, (k, z3.simplify(idx[d] - off)), *[]))
                ok = True
                for app in apps_of(Ed, f):
                    if c.quick(z3.substitute(app.arg(d), (k, z3.simplify(idx[d] - off))) == idx[d]) is not True: ok = False
                if not ok: raise Unsupported("an array entry depends on another iteration's entry")
                others = [g for qq, (g, _, _) in HB.items() if qq != q]
                for g in others:
                    for app in apps_of(Ed, g): raise Unsupported("arrays carried between iterations")
                final_bufs.append((b, old, ("slot", d, off, E, f, idx)))
            elif not z3.is_bool(E) and not any_decl(z3.simplify(E - h0, som=True), f) and not any(any_decl(E, g) for qq, (g, _, _) in HB.items() if qq != q):
                final_bufs.append((b, old, ("acc", None, None, z3.simplify(E - h0, som=True), f, idx)))
            else:
                inc = None
                if not z3.is_bool(E):       # an update that adds an amount of its own to an entry under a condition
                    inc = z3.simplify(z3.substitute(E, (h0, z3.RealVal(0) if z3.is_real(h0) else z3.IntVal(0))))
                    if any_decl(inc, f) or any(any_decl(inc, g) for qq, (g, _, _) in HB.items() if qq != q) or c.quick(E == h0 + inc) is not True: inc = None
                if inc is None:
                    import os
                    if os.environ.get("PYVC_TB"): print("carried array:", E)
                    raise Unsupported("array carried between iterations")
                final_bufs.append((b, old, ("acc", None, None, inc, f, idx)))
        finally: c.local.pop()
    for key_, app in ():
        pass
    # ---- lists
    final_lists = []
    for q, (l, v) in pre_lists.items():
        if isinstance(l, list): items = list(l)
        else: items = [l.at_(z3.IntVal(j)) for j in range(l.n)] if isinstance(l.n, int) else None
        if items is None: raise Unsupported("list changed in a loop of unknown length")
        final_lists.append((l, v, [subst_val(x, pairs) for x in items]))
    # ---- obligations and facts of the body hold for every iteration
    for o in c.obligs[ob0:]:
        o.goal = sub(o.goal); o.hyps = [sub(x) for x in o.hyps]
    if facts:
        fs = [sub(f) for f in facts]
        if not any(any_decl(f, g) for f in fs for g in hb_decls):
            cx_axiom([k], [inr(k, n)], fs)
    evs = c.events[ev0:]; del c.events[ev0:]
    # ---- state after the loop
    nn = num(n)
    nonneg = c.quick(nn >= 0) is True
    if not nonneg: nn = z3.If(nn >= 0, nn, z3.IntVal(0))
    for key in H:
        v = closed[key](nn)
        if key[0] == "n": env.d[key[1]] = v
        elif key[0] == "a": o, nme = attrs[key[1]][:2]; o.attrs[nme] = v
        else: cells[key[1]] = v
    for q in names:
        if ("n", q) not in H:
            v = env.d.get(q)
            env.d[q] = Poison("set in a loop of unknown length") if not scal(v) or q in env0 else ite_last(v, pairs, k, nn)
    for q, (o, nme, v, had) in attrs.items():
        if ("a", q) not in H:
            o.attrs[nme] = last_attr(o.attrs.get(nme), pairs, k, nn, v if had else None, c)
    for b, old, (kind, d, off, E, f, idx) in final_bufs:
        oldc = (lambda old, dt: lambda *i: arr.cast(old(*i), dt))(old, b.dtype)
        if kind == "slot":
            def content(*i, E=E, d=d, off=off, f=f, idx=idx, oldc=oldc, b=b):
                i = [num(x) for x in i]
                kk = z3.simplify(i[d] - off)
                e = z3.substitute(E, (k, kk), *[(x, y) for x, y in zip(idx, i)])
                e = replace_app(e, f, lambda *a: oldc(*a))
                e = z3.simplify(e)
                g = inr(kk, nn)
                if same(off, 0) is True and same(nn, b.shape[d]) is True:
                    return e
                return ite(g, e, oldc(*i))
        elif kind == "masked":
            def content(*i, E=E, d=d, inv=off, f=f, idx=idx, oldc=oldc, b=b):
                i = [num(x) for x in i]
                g = z3.And(inr(i[d], inv[3]), tobool(inv[2](i[d])))
                def new(): return z3.simplify(replace_app(z3.substitute(E, *[(x, y) for x, y in zip(idx, i)]), f, lambda *a: oldc(*a)))
                return ite(g, arr.under(g, new), oldc(*i))
        else:
            def content(*i, E=E, f=f, idx=idx, oldc=oldc, b=b):
                i = [num(x) for x in i]
                return arr._add(oldc(*i), arr.cast(ssum([nn], lambda j: z3.substitute(E, (k, num(j)), *[(x, y) for x, y in zip(idx, i)])), b.dtype))
        gs = getattr(c, "guards", ())
        if gs: content = lambda *i, content=content, oldc=oldc, gs=gs: ite(z3.And(*gs), content(*i), oldc(*i))
        b.content = content; b.memo = {}; b.version += 1
    for l, v, items in final_lists:
        m = len(items)
        if m == 0:
            if isinstance(l, list): l[:] = v
            else: l.n, l.at_ = v
            continue
        def app_at(j, items=items, m=m):
            j = num(j)
            if m == 1: return subst_val(items[0], [(k, j)])
            r = subst_val(items[-1], [(k, z3.simplify(j / m))])
            for t in range(m - 2, -1, -1): r = merge(j % m == t, subst_val(items[t], [(k, z3.simplify(j / m))]), r)
            return r
        new_part = SList(nn * m if m > 1 else nn, app_at)
        if isinstance(l, SList):
            l.n, l.at_ = v
            if same(l.n, 0) is True: l.n, l.at_ = new_part.n, new_part.at_
            else:
                r = seq_concat(ip, SList(*v), new_part); l.n, l.at_ = r.n, r.at_
        else:
            r = SList(new_part.n, new_part.at_) if not v else seq_concat(ip, list(v), new_part)
            rebind(l, r, env, attrs, env0)
    if evs: c.events.append(LoopEvent(nn, k, [subst_event(e, lambda x: subst_val(x, pairs)) for e in evs]))

def dt_of(h): return "b" if z3.is_bool(h) else "i" if z3.is_int(h) else "f"
def same_val(a, b):
    if is_z3(a) and is_z3(b): return a.eq(b)
    return a is b or (type(a) == type(b) and not is_z3(a) and a == b)
def ite_last(v, pairs, k, nn):
    v = v.scalar() if isinstance(v, Arr) else v
    if not is_z3(v): return Poison("set in a loop of unknown length")
    return Poison("set in a loop of unknown length")
def last_attr(v, pairs, k, nn, old, c):
    return Poison("set in a loop of unknown length")

def env_chain(env):
    while env is not None:
        yield env; env = env.parent

def reachable(l, env0, env, attrs):
    """Is this container older than the loop body (known before it)?"""
    for v in env0.values():
        if v is l: return True
        if isinstance(v, (tuple, list)) and any(x is l for x in v): raise Unsupported("nested container changed in a loop of unknown length")
    for e in env_chain(env):
        for v in e.d.values():
            if v is l: return True
            if isinstance(v, Obj) and any(x is l for x in v.attrs.values()): return True
            if isinstance(v, dict) and any(x is l for x in v.values()): return True
    return False

def rebind(l, r, env, attrs, env0):
    hits = 0
    for e in env_chain(env):
        for q, v in list(e.d.items()):
            if v is l: e.d[q] = r; hits += 1
            elif isinstance(v, Obj):
                for a, x in list(v.attrs.items()):
                    if x is l: v.attrs[a] = r; hits += 1
            elif isinstance(v, dict):
                for a, x in list(v.items()):
                    if x is l: v[a] = r; hits += 1
            elif isinstance(v, (list, tuple)) and any(x is l for x in v): raise Unsupported("list with another reference grows in a loop")
    if hits != 1: raise Unsupported("list with several references grows in a loop")
