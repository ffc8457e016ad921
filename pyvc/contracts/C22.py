from contracts.common import *
import torchmodel as tm, loops
from loops import LoopEvent

class Net:
    """Contracts of the callees: the model's forward (four tensors of the batch's length), the loss and the reconstruction error (scalars).
    Each is checked to be given what it should be given; what it returns is arbitrary, per epoch and batch."""
    def __init__(s, ip, m, l):
        s.m, s.l, s.last, s.count = m, l, None, 0
        vae = func(ip, "vae", "VariationalAutoencoder"); nc = func(ip, "models", "NeuroCausalFactorAnalysis"); s.models = []
        vae.ns["forward"] = Native("forward", s.forward); nc.ns["_elbo_gaussian"] = Native("_elbo_gaussian", s.elbo); nc.ns["_recon_error"] = Native("_recon_error", s.error)
    def fresh(s, nm):
        c = cx(); v = list(getattr(c, "loop_vars", [])); f = c.fn(nm, *[I] * len(v), R); return f(*v) if v else c.const(nm, R)
    def forward(s, a, k):
        if k or len(a) != 2: raise Unsupported("call of the model")
        c = cx(); o, x = a[0], tm.T(a[1]); b = getattr(x, "batch_of", None)
        if b is None: raise Unsupported("the model is applied to something other than a batch")
        n = x.a.shape[0]; outs = tuple(tm.Tensor(sym_arr(q, (n, d), "f")) for q, d in (("recon", s.m), ("logcov", s.m), ("mu", s.l), ("logvar", s.l)))
        s.count += 1; s.last = (x, outs, s.count)
        c.events.append(("forward", b[0], num(b[1]), tobool(o.attrs["training"]), not c.ghost.get("no_grad"), s.count, Ref(o)))
        return outs
    def given(s, what, t, u):
        if t is u: cx().oblige(what, True); return
        if not isinstance(t, tm.Tensor) or not isinstance(u, tm.Tensor): cx().oblige(what, False); return
        if shape_is(what, t.a, u.a.shape): entries(what, t.a, u.a.fn())
    def elbo(s, a, k):
        d = npmodel.argn(["self", "x", "x_recon", "logcov", "mu", "logvar", "weight", "beta"], a, k); c = cx()
        if s.last is None: raise Unsupported("a loss without a forward pass")
        x, o, i = s.last
        for nm, t, u in (("x", d["x"], x), ("x_recon", d["x_recon"], o[0]), ("logcov", d["logcov"], o[1]), ("mu", d["mu"], o[2]), ("logvar", d["logvar"], o[3])): s.given(f"the batch loss is computed from the batch's own pass ({nm})", t, u)
        equal("the loss has the model's beta", arr.lift(tm.un(d["beta"])).scalar(), d["self"].attrs["hyperparams"]["beta"])
        L = s.fresh("loss"); c.events.append(("loss", L, i)); return tm.Tensor(arr.lift(L))
    def error(s, a, k):
        d = npmodel.argn(["self", "x", "x_recon", "logcov", "weighted"], a, k); c = cx()
        if s.last is None: raise Unsupported("an error without a forward pass")
        x, o, i = s.last
        s.given("the reconstruction error is computed from the batch's own pass (x)", d["x"], x); s.given("the reconstruction error is computed from the batch's own pass (x_recon)", d["x_recon"], o[0])
        c.oblige("the reconstruction error is the unweighted one", z3.Not(tobool(d["weighted"])) if is_z3(d["weighted"]) else not d["weighted"])
        L = s.fresh("error"); c.events.append(("error", L, i)); return tm.Tensor(arr.lift(L))

class Ref:
    def __init__(s, o): s.o = o

TRAIN = ("zero_grad", "backward", "step", "optimizer")
def definite(evs):
    """Events under a condition: the condition has to hold."""
    for e in evs:
        if isinstance(e, LoopEvent): yield e
        elif e[0] == "if":
            if any(has(q, *TRAIN, "forward", "loss", "error") for q in e[2]): cx().oblige("a step of the protocol is not taken under a condition", tobool(e[1]))
            yield from definite(e[2])
        else: yield e
def kinds(evs): return [e[0] for e in evs if not isinstance(e, LoopEvent)]
def has(e, *ks): return any(q[0] in ks for q in flat([e]))

def fit(split, verbose=False):
    def go(ip):
        c = cx(); n, m = size("n", 2), size("m", 1); net = Net(ip, m, m)
        x = sym_arr("dataset", (n, m), "f"); path = interp.Str("directory")
        d = returns(ip, lambda: call(ip, "models", "NeuroCausalFactorAnalysis", path=path, seed=c.int("seed"), verbose=verbose), "construction")
        made = [e for e in c.events if e[0] == "mkdir"]; c.events.clear()
        E, bs = size("epochs", 0), size("batch_size", 1); hp = d.attrs["hyperparams"]
        hp.update(num_epochs=E, batch_size=bs, beta=c.const("beta", R), lr=c.const("lr", R), num_hidden_layers=size("h"), width_per_meas=size("w", 1)); hp["lambda"], hp["mu"] = c.const("lambda", R), c.const("penalty", R)
        F = Frame(dataset=x); idx = None
        if split:
            idx = []
            for q in ("train", "valid"):
                k = size("n" + q, 1); s = sym_arr(q, (k,), "i"); i = c.int("i"); c.axiom(z3.ForAll([i], z3.Implies(inr(i, k), inr(s.at(i), n)), patterns=[s.at(i)])); idx.append(s)
            F2 = Frame(train_split=idx[0], valid_split=idx[1])
        r = returns(ip, lambda: ip.call(ip.getattr(d, "fit"), [x], {"split_idcs": tuple(idx)} if split else {}))
        c.oblige("the model is returned", r is d); F.check()
        if split: F2.check()
        # ---- the files
        c.oblige("the directory is made", bool(made) and all(isinstance(e[1], tm.Path_) and e[1].base is path and not e[1].parts or e[1] is path for e in made if len(e) > 1))
        files = [e for e in flat(c.events) if e[0] in ("open", "save", "mkdir")]
        for e in files:
            p = e[2] if e[0] == "save" else e[1]
            if isinstance(p, FileOf): continue
            if not isinstance(p, tm.Path_) and isinstance(p, interp.Str) and not isinstance(p, interp.Str.__class__) and p is not path and p.name == "formatted string": raise Unsupported("a file name built as text")
            ok = isinstance(p, tm.Path_) and p.base is path and p.parts and all(isinstance(q, str) and q not in ("", "..", ".") and "/" not in q for q in p.parts)
            c.oblige("files are written inside the model's directory", bool(ok))
        c.oblige("log and results are written", sum(e[0] == "save" for e in files) >= 1 and any(e[0] == "open" for e in files) and sum(e[0] == "dump" for e in flat(c.events)) >= 1)
        # ---- the epochs
        ep = [e for e in c.events if isinstance(e, LoopEvent) and has(e, "forward", "step", "backward")]
        if not ep: raise Unsupported("no loop over epochs")
        c.oblige("training happens in the epochs only", not [e for e in flat([e for e in c.events if not isinstance(e, LoopEvent)]) if e[0] in ("forward", "loss", "error", "backward", "step")] and len(ep) == 1)
        if len(ep) != 1: return
        ep = ep[0]; equal("the number of epochs", ep.n, E); e = ep.k; c.local.append([inr(e, num(E))])
        L = [q for q in ep.events if isinstance(q, LoopEvent) and has(q, "forward", "step", "backward", "loss")]; rest = list(flat([q for q in ep.events if not isinstance(q, LoopEvent)]))
        c.oblige("updates happen in the batches only", not any(q[0] in ("forward", "loss", "error", "backward", "step") for q in rest))
        c.oblige("an epoch consists of a pass through the training batches and a pass through the validation batches", len(L) == 2)
        if len(L) != 2: return
        T, V = L
        loaders = [q[1] for q in flat(c.events) if q[0] == "loader"]; vals = {}
        for nm, loop, train in (("train", T, True), ("valid", V, False)):
            b = loop.k; evs = [q for q in definite(loop.events) if not isinstance(q, LoopEvent)]; fw = [q for q in evs if q[0] == "forward"]; ks = [q for q in evs if q[0] in TRAIN]
            c.oblige(f"{nm}: each batch is passed once through the model", len(fw) == 1 and not any(isinstance(q, LoopEvent) and has(q, *TRAIN, "forward") for q in loop.events))
            if len(fw) != 1: return
            fw = fw[0]; D = fw[1]; vals[nm] = [D, None, None, loop]
            c.local.append([inr(b, num(loop.n))])
            try:
                equal(f"{nm}: all batches are visited", loop.n, D.nb); equal(f"{nm}: batches are visited in order", fw[2], b)
                c.oblige(f"{nm}: no data are dropped" + (" or shuffled" if train else ""), z3.And(z3.Not(tobool(D.drop)), z3.Not(tobool(D.shuffled)) if train else z3.BoolVal(True))); equal(f"{nm}: batches have the batch size", D.bs, bs)
                c.oblige(f"{nm}: the model is in {'training' if train else 'evaluation'} mode", fw[3] if train else z3.Not(fw[3]))
                c.oblige(f"{nm}: " + ("with" if train else "without") + " gradients", (fw[4] is True) == train)
                for what, slot in (("loss", 1), ("error", 2)):
                    v = [q for q in evs if q[0] == what]; c.oblige(f"{nm}: one batch {what}", len(v) == 1)
                    if len(v) != 1: return
                    vals[nm][slot] = v[0][1]
                if train:
                    c.oblige("train: the gradients are cleared, computed and used once per batch", [q[0] for q in ks] in (["zero_grad", "backward", "step"], ["backward", "step", "zero_grad"]))
                    if [q[0] for q in ks].count("backward") != 1 or "step" not in [q[0] for q in ks]: return
                    bw = [q for q in ks if q[0] == "backward"][0]; equal("train: the batch loss is what is differentiated", bw[1].a.scalar(), vals[nm][1])
                    o = [q for q in ks if q[0] == "step"][0][1]; mo = fw[6].o
                    have = optimized(o); c.oblige("train: the optimizer has all weights of the model", have is mo or have is not None and isinstance(have, list) and all(any(p is q for q in have) for p in tm.params(mo)))
                else: c.oblige("valid: no gradients and no updates", not ks)
            finally: c.local.pop()
        c.oblige("training and validation data are different loaders", vals["train"][0] is not vals["valid"][0])
        # ---- histories
        loss = d.attrs["loss"]
        c.oblige("four histories", isinstance(loss, dict) and {"elbo_train", "elbo_valid", "recon_train", "recon_valid"} <= set(loss))
        if not isinstance(loss, dict): return
        c.local.pop()
        for nm in ("train", "valid"):
            D, lo, er, loop = vals[nm]
            for key, v in (("elbo_" + nm, lo), ("recon_" + nm, er)):
                h = loss[key]
                if not shape_is(f"{key}: one entry per epoch", h, (E,)): return
                want = lambda q, v=v, D=D, loop=loop: ssum([D.nb], lambda j: z3.substitute(v, (loop.k, num(j)), (e, num(q))) / real(D.rows(num(j)))) / real(D.nb)
                entries(f"{key}: the mean over batches of the batch value divided by the batch size", h, want)
        # ---- the data
        st = lambda i, j: tm.standardized(x.fn(), x.shape, j, real(x.at(i, j)))
        for q, nm in enumerate(("train", "valid")):
            ts = vals[nm][0].ds.ts; a = exact(ts[0].a)
            if split:
                s = idx[q]
                if not shape_is(f"{nm} data", a, (s.shape[0], m)): return
                entries(f"{nm}: the standardized data at the given indices", a, lambda i, j, s=s: st(s.at(i), j))
            else:
                sp = [g for g in flat(c.events) if g[0] == "split"]; c.oblige("one random split", len(sp) == 1)
                if len(sp) != 1: return
                _, sx, kw, p, n1 = sp[0]
                k = n1 if q == 0 else n - n1
                if not shape_is(f"{nm} data", a, (dim(z3.simplify(k)), m)): return
                entries(f"{nm}: the standardized data of the split", a, (lambda i, j: st(p(num(i)), j)) if q == 0 else (lambda i, j: st(p(n1 + num(i)), j)))
    return go

class FileOf: pass
def exact(a):
    """Rounding to single precision taken as exact."""
    cx().assumed.add("rounding to float32 treated as exact"); d = core.uf("float32", R, R); f = a.fn()
    return arr.new(a.shape, "f", lambda *i: loops.replace_app(real(f(*i)), d, lambda e: e))
def optimized(o):
    """The module, or the parameters, an optimizer was given."""
    p = o.params
    if isinstance(p, tm.ParamSet): return p.o
    if isinstance(p, (list, tuple)): 
        q = [x.p if isinstance(x, tm.ParamProxy) else x for x in p]
        return q if all(isinstance(x, tm.Tensor) for x in q) else None
    return None

def error(ip):
    """The unweighted reconstruction error."""
    n, m = size("n", 1), size("m", 1); x, xr, lc = sym_arr("x", (n, m), "f"), sym_arr("x_recon", (n, m), "f"), sym_arr("logcov", (n, m), "f"); F = Frame(x=x, x_recon=xr, logcov=lc)
    d = Obj(func(ip, "models", "NeuroCausalFactorAnalysis")); r = returns(ip, lambda: ip.call(ip.getattr(d, "_recon_error"), [tm.Tensor(x), tm.Tensor(xr), tm.Tensor(lc)], {"weighted": False}))
    if not isinstance(r, tm.Tensor) or r.a.ndim: cx().oblige("a scalar tensor", False); return
    f, g = x.fn(), xr.fn(); want = lib_term("spectral", [n, m], [lambda i, j: real(f(i, j)) - real(g(i, j))], [(R, 0)])[0]()
    equal("the unweighted error is the spectral norm of the difference", r.a.scalar(), want); F.check()

def goals():
    return [Goal("fit[split given]", fit(True)), Goal("fit[random split]", fit(False)), Goal("fit[split given, verbose]", fit(True, True)), Goal("_recon_error[unweighted]", error)]
