from contracts.common import *
import torchmodel as tm, loops

def build(ip):
    l, m, h, w = size("latents", 1), size("m", 1), size("layers", 0), size("w", 1)
    o = returns(ip, lambda: call(ip, "vae", "VariationalAutoencoder", l, m, h, w), "construction")
    return o, l, m, h, w

class Layers:
    """Rule for a loop over the members of a module list: the body is checked for an arbitrary member, from arbitrary tensors in the
    variables it carries.  rel(x): the entries of a carried matrix on which the two runs have to agree."""
    def __init__(s, rel): s.rel, s.runs, s.cur = rel, [], None
    def start(s): s.runs.append([]); s.at = 0
    def __call__(s, ip, st, env, module, seq):
        c = cx(); first = len(s.runs) == 1; old = None if first else (s.runs[0][s.at] if s.at < len(s.runs[0]) else None)
        if not first and (old is None or old["seq"] is not seq): raise Unsupported("the loops over layers differ between two runs")
        if st.orelse: raise Unsupported("for-else over layers")
        target = loops.assigned_names([st.target]); names = sorted(q for q in loops.assigned_names(st.body) - target if q in env.d)
        for q in names:
            if not isinstance(env.d[q], tm.Tensor): raise Unsupported("a value other than a tensor carried over layers")
        rec = {"seq": seq, "entry": {}, "gen": {}, "out": {}, "post": {}}; s.runs[-1].append(rec); s.at += 1
        fresh = {}
        for q in names:
            e = env.d[q].a; rec["entry"][q] = e; rec["gen"][q] = s.generic(q, e.shape, old and old["gen"][q]); env.d[q] = tm.Tensor(rec["gen"][q])
        pre = dict(env.d)
        ip.assign(st.target, seq.member, env, module)
        try: ip.block(st.body, env, module)
        except (interp.Break, interp.Return, interp.Continue): raise Unsupported("jump in a loop over layers")
        for q in names:
            r = env.d[q]
            if not isinstance(r, tm.Tensor): raise Unsupported("a value other than a tensor carried over layers")
            rec["out"][q] = r.a
            if not shape_is("a layer keeps the shape of its input", r.a, rec["entry"][q].shape): raise PathEnd()
            if old:
                s.agree("the values given to the hidden layers", old["entry"][q], rec["entry"][q]); s.agree("a hidden layer's values, from those of the layer before,", old["out"][q], r.a)
            rec["post"][q] = s.generic(q, r.a.shape, old and old["post"][q]); env.d[q] = tm.Tensor(rec["post"][q])
        for q in loops.assigned_names(st.body) | target:
            if q not in names: env.d[q] = interp.Poison("set in a loop over layers")
    def generic(s, q, shape, first):
        a = sym_arr("layer_" + q, shape, "f")
        if first is None: return a
        f, g = first.fn(), a.fn()
        return arr.new(shape, "f", lambda *i: ite(s.rel(*i), real(f(*i)), real(g(*i))))
    def agree(s, what, a, b):
        f, g = a.fn(), b.fn(); pointwise(what + " in a block do not depend on the first layer's units of another block", a.shape, lambda *i: z3.Implies(s.rel(*i), real(f(*i)) == real(g(*i))))

def separate(ip, training):
    c = cx(); o, l, m, h, w = build(ip); tm.set_mode(o, training); dec = ip.getattr(o, "decoder"); n = size("n", 1); z = sym_arr("z", (n, l), "f"); j = c.int("j"); c.assume(inr(j, m))
    firsts = [dec.attrs.get(q + "_linear_fulcon") for q in ("mean", "cov")]
    if not all(isinstance(q, Obj) for q in firsts): raise Unsupported("the decoder has no such first layers")
    for p in tm.params(o):      # all weight values
        f = tm.storage(p.a.shape, "trained").fn(); p.a.set_view((lambda f: lambda *i: f(*i))(f))
    for q in firsts:
        if not shape_is("first layer: one block per measurement", q.attrs["weight"].a, (dim(num(m) * num(w)), l)): return
    own = lambda i: num(i) / num(w) == j
    L = Layers(lambda r, k: own(k)); c.ghost["layer_loop"] = L; L.start()
    r1 = returns(ip, lambda: ip.call(dec, [tm.Tensor(z)], {}))
    # the other run: every first-layer unit outside block j computes something else
    for q in firsts:
        for nm in ("weight", "bias"):
            p = q.attrs.get(nm)
            if p is None: continue
            f = p.a.fn(); g = tm.storage(p.a.shape, "changed").fn()
            p.a.set_view((lambda f, g: lambda i, *r: ite(own(i), real(f(i, *r)), real(g(i, *r))))(f, g))
    L.start()
    r2 = returns(ip, lambda: ip.call(dec, [tm.Tensor(z)], {}))
    if not all(isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, tm.Tensor) for q in r) for r in (r1, r2)): c.oblige("two tensors", False); return
    for nm, a, b in zip(("mean", "log-variance"), r1, r2):
        if not shape_is(f"one {nm} per observation and measurement", a.a, (n, m)): return
        t = c.int("o"); c.assume(inr(t, n)); f, g = a.a.fn(), b.a.fn()
        equal(f"the reconstructed {nm} of a measurement depends on the first-layer units of its own block only", f(t, j), g(t, j))

def decls(*es):
    """Names of the functions occurring in these terms, sums' and library terms' bodies included."""
    out, st, seen = set(), list(es), set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name(); out.add(nm)
                if nm in core.SUMS: st += bodies(core.SUMS[nm])
            st += x.children()
    return out
def bodies(rec): return [b for b in (rec.bodies if hasattr(rec, "bodies") else [rec.body]) if b is not None and is_z3(b)]

def registered(ip, training):
    c = cx(); o, l, m, h, w = build(ip); tm.set_mode(o, training); n = size("n", 1); x = sym_arr("x", (n, m), "f"); c.ghost["mark_detached"] = True
    L = Layers(lambda *i: z3.BoolVal(True)); c.ghost["layer_loop"] = L; L.start(); terms = []
    def run():
        r = returns(ip, lambda: ip.call(o, [tm.Tensor(x)], {})); out = [q for q in interp_seq(r)]
        for q in out:
            with bound(*q.a.shape) as i: terms.append(real(q.a.at(*i)))
    run()
    for rec in L.runs[0]:
        for q in list(rec["out"].values()) + list(rec["entry"].values()):
            with bound(*q.shape) as i: terms.append(real(q.at(*i)))
    used = decls(*terms); st = c.ghost.get("storage", {}); used_st = used & set(st)
    c.oblige("weights are used with their gradients", "detached" not in used)
    c.oblige("the network is computed with gradients", not any(e[0] == "no_grad" for e in flat(c.events)))
    c.oblige("there are weights", bool(used_st))
    have = set()
    for p in tm.params(o):
        f = p.a.fn()
        with bound(*p.a.shape) as i: d = decls(real(f(*i))) & set(st)
        have |= d
        c.oblige("a registered parameter receives gradients", not (d & used_st) or p.rg is True)
    for s in sorted(used_st - have): c.oblige(f"the weights used are registered parameters ({st[s]})", False)
    c.oblige("the weights used are registered parameters", not (used_st - have))

def interp_seq(r):
    for q in r:
        if not isinstance(q, tm.Tensor): raise Unsupported("an output that is not a tensor")
    return r

def goals():
    g = []
    for t, nm in ((True, "training"), (False, "evaluation")):
        g += [Goal(f"Decoder.forward[measurements separate, {nm}]", lambda ip, t=t: separate(ip, t)), Goal(f"VariationalAutoencoder[weights registered, {nm}]", lambda ip, t=t: registered(ip, t))]
    return g
