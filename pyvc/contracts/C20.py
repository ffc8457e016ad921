from contracts.common import *
import torchmodel as tm

class Stub:
    """A submodule under contract: a function of its input, recorded."""
    def __init__(s, name, outs): s.name, s.outs, s.calls = name, outs, []
    def call(s, ip, a, k):
        if k or len(a) != 1: raise Unsupported("call of a submodule")
        x = tm.T(a[0]); f = x.a.fn(); s.calls.append((x.a.shape, f, x))
        c = cx(); r = tuple(tm.Tensor(arr.copy(o)) for o in s.outs); s.last = r; return r
    def getattr(s, n): return None

def forward(training, twice=False):
    def go(ip):
        n, m, l = size("n", 1), size("m", 1), size("l", 1); c = cx(); x = sym_arr("x", (n, m), "f")
        o = Obj(func(ip, "vae", "VariationalAutoencoder")); tm.m_init([o], {}); o.attrs["training"] = training
        mu, lv, xr, lc = sym_arr("mu", (n, l), "f"), sym_arr("logvar", (n, l), "f"), sym_arr("recon", (n, m), "f"), sym_arr("logcov", (n, m), "f")
        e, d = Stub("encoder", [mu, lv]), Stub("decoder", [xr, lc]); o.attrs["encoder"], o.attrs["decoder"] = e, d
        F = Frame(x=x)
        latents = []; seen = 0
        for rep in range(2 if twice else 1):
            e.calls.clear(); d.calls.clear(); n0 = len(c.ghost.get("normals", []))
            r = returns(ip, lambda: ip.call(o, [tm.Tensor(x)], {}))
            if not (isinstance(r, tuple) and len(r) == 4 and all(isinstance(q, tm.Tensor) for q in r)): c.oblige("four tensors", False); return
            c.oblige("the encoder is applied once, the decoder once", len(e.calls) == 1 and len(d.calls) == 1)
            if len(e.calls) != 1 or len(d.calls) != 1: return
            xf = x.fn(); sh, ef, _ = e.calls[0]
            if len(sh) == 2: pointwise("the encoder is given the data", (n, m), lambda i, j: real(ef(i, j)) == real(xf(i, j)))
            else: c.oblige("the encoder is given the data", False)
            for nm, t, want in (("reconstruction", r[0], xr), ("log-variance of the data", r[1], lc), ("mean of the latents", r[2], mu), ("log-variance of the latents", r[3], lv)):
                if shape_is(nm, t.a, want.shape): entries(nm + " returned as given by its network", t.a, want.fn())
            zs, z, _ = d.calls[0]
            if len(zs) != 2: c.oblige("the decoder's input is a matrix", False); return
            c.oblige("one latent per observation and dimension", z3.And(num(zs[0]) == num(n), num(zs[1]) == num(l)))
            eps = c.ghost.get("normals", [])[n0:]; mf, vf = mu.fn(), lv.fn()
            if training:
                c.oblige("standard normal noise is drawn", len(eps) == 1)
                if len(eps) != 1 or not shape_is("noise", eps[0], (n, l)): return
                ef2 = eps[0].fn()
                pointwise("the latent is the mean plus the deviation times the noise", (n, l), lambda i, t: real(z(i, t)) == real(mf(i, t)) + core.exp_(real(vf(i, t)) / 2) * real(ef2(i, t)))
            else:
                c.oblige("no noise is drawn in evaluation mode", not eps and not any(q[0] == "rng" for q in flat(c.events)))
                pointwise("the latent is the encoded mean", (n, l), lambda i, t: real(z(i, t)) == real(mf(i, t)))
            latents.append((z, eps))
        if twice and training: c.oblige("fresh noise in every pass", latents[0][1][0] is not latents[1][1][0])
        F.check()
    return go

def goals():
    return [Goal("VariationalAutoencoder.forward[training]", forward(True, True)), Goal("VariationalAutoencoder.forward[evaluation]", forward(False, True))]
