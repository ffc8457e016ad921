import itertools, os, tempfile, pickle, shutil, contextlib
import numpy as np
import torch
from lib import *

import importlib as _il
STEP_HOOK = _il.import_module("torch.optim.optimizer").register_optimizer_step_pre_hook
torch.set_num_threads(1)


def same(a, b): return a.shape == b.shape and torch.allclose(a, b, rtol=1e-4, atol=1e-5)

V = mod("vae"); M = mod("models")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vrt"); old = os.getcwd(); os.chdir(d)
    try: yield d
    finally: os.chdir(old); shutil.rmtree(d, ignore_errors=True)


def model(c, g):
    m = V.VariationalAutoencoder(c["lat"], c["m"], c["hid"], c["w"])
    with torch.no_grad():
        for p in m.parameters(): p.copy_(torch.randn(p.shape, generator=g) * c.get("scale", 1.0))
    return m


def nets(seed, count, tag):
    r = rng(seed, tag)
    for lat, m, h, w in itertools.product((1, 2), (1, 2, 3), (0, 1, 2), (1, 2, 3)): yield {"lat": lat, "m": m, "hid": h, "w": w, "seed": 1, "n": 3}
    for t in range(count): yield {"lat": int(r.integers(1, 7)), "m": int(r.integers(1, 8)), "hid": int(r.integers(0, 5)), "w": int(r.integers(1, 6)), "seed": int(r.integers(0, 2 ** 31)), "n": int(r.integers(1, 7)), "scale": float(r.choice([.3, 1, 2]))}


@prop("C19")
class C19:
    rule = "sizes and weights of the network; non-trivial if two or more measurements"
    workers = 4
    @staticmethod
    def nontrivial(c): return c["m"] >= 2
    @staticmethod
    def cases(tier, seed):
        for t, c in enumerate(nets(seed, 120 if tier == "quick" else 1200, 19)):
            c["train"] = t % 3
            if c["train"]: c["scale"] = .3  # keeps exp of the log-variances finite
            yield c
    @staticmethod
    def check(c):
        torch.manual_seed(c["seed"]); g = torch.Generator().manual_seed(c["seed"]); mo = model(c, g); m, w = c["m"], c["w"]
        x = torch.randn(c["n"], m, generator=g)
        names = {id(p): n for n, p in mo.named_parameters()}
        if c["train"]:
            o = torch.optim.AdamW(mo.parameters(), lr=.05, weight_decay=.01); mo.train()
            before = {n: p.detach().clone() for n, p in mo.named_parameters()}
            for _ in range(c["train"]):
                o.zero_grad(); a, b, mu, lv = mo(x); ((a - x) ** 2).sum().add(b.pow(2).sum()).add(mu.pow(2).sum() + lv.pow(2).sum()).backward(); o.step()
        mo.train(); out = mo(x)
        # every leaf that needs a gradient is a registered parameter
        seen, st = set(), [t.grad_fn for t in out if t.grad_fn is not None]
        while st:
            f = st.pop()
            if f is None or f in seen: continue
            seen.add(f)
            if hasattr(f, "variable"): need(id(f.variable) in names, "a weight in use is not a registered parameter of the model")
            st += [k for k, _ in f.next_functions]
        # saving and loading the state keeps the function
        mo.eval(); torch.manual_seed(c["seed"] + 1); m2 = V.VariationalAutoencoder(c["lat"], m, c["hid"], w); m2.load_state_dict(mo.state_dict()); m2.eval()
        for a, b in zip(mo(x), m2(x)): need(same(a, b), "loading the saved state does not restore the model")
        # all parameters, drawn anew, matter or are masked; blocks are separate
        dec = mo.decoder
        z = torch.randn(4, c["lat"], generator=g)
        for first, which in ((dec.mean_linear_fulcon, 0), (dec.cov_linear_fulcon, 1)):
            base = dec(z); need(base[0].shape == (4, m) and base[1].shape == (4, m), "the decoder's outputs have wrong shapes")
            u0 = first(z); need(u0.shape[1] == m * w, "the first layer does not have one block per measurement")
            for j in range(m):
                def hook(mod_, inp, o, j=j):
                    o = o.clone(); o[:, j * w:(j + 1) * w] = torch.randn(o.shape[0], w, generator=g) * 2; return o
                h = first.register_forward_hook(hook)
                try: new = dec(z)
                finally: h.remove()
                for q in (0, 1):
                    ch = ((new[q] - base[q]).abs() > 1e-4 * (1 + base[q].abs())).any(0); idx = ch.nonzero().flatten().tolist()
                    need(set(idx) <= ({j} if q == which else set()), f"output {idx} depends on units of block {j}")


@prop("C20")
class C20:
    rule = "sizes, weights and inputs, both modes; the noise is recovered from the decoder's input; non-trivial always"
    workers = 4
    @staticmethod
    def cases(tier, seed):
        yield from nets(seed, 100 if tier == "quick" else 1000, 20)
    @staticmethod
    def check(c):
        torch.manual_seed(c["seed"]); g = torch.Generator().manual_seed(c["seed"]); c = dict(c); c["scale"] = .5
        mo = model(c, g); x = torch.randn(c["n"], c["m"], generator=g); lat = []
        h = mo.decoder.register_forward_pre_hook(lambda m_, i: lat.append(i[0].detach().clone()))
        try:
            mo.eval(); a = mo(x); b = mo(x); e = mo.encoder(x); need(len(a) == 4, "forward does not return four results")
            need(all(same(p, q) for p, q in zip(a, b)), "evaluation is not deterministic"); need(same(a[2], e[0]) and same(a[3], e[1]), "mean and log-variance of the latents are not the encoder's")
            need(same(lat[0], e[0]), "in evaluation mode the latent is not the encoded mean"); d = mo.decoder(e[0]); need(same(a[0], d[0]) and same(a[1], d[1]), "reconstruction and log-variance are not the decoder's")
            mo.train(); N = 4000; X = x[:1].expand(N, -1); lat.clear(); a = mo(X); b = mo(X); e = mo.encoder(X)
            need(same(a[2], e[0]) and same(a[3], e[1]), "in training, mean and log-variance of the latents are not the encoder's")
            d = mo.decoder(lat[0]); need(same(a[0], d[0]) and same(a[1], d[1]), "in training, the outputs are not the decoder's of the latent")
            sd = (e[1] / 2).exp(); Z = ((lat[0] - e[0]) / sd).double().detach(); Z2 = ((lat[1] - e[0]) / sd).double().detach(); ok = (sd > 1e-3 * (1 + e[0].abs())).all(0)
            Z, Z2 = Z[:, ok], Z2[:, ok]
            if Z.shape[1]:
                need((Z.mean(0).abs() < 6.5 / N ** .5).all() and ((Z ** 2).mean(0) - 1).abs().max() < 6.5 * (2 / N) ** .5, "the noise is not standard"); need(((Z ** 4).mean(0) - 3).abs().max() < 6.5 * (96 / N) ** .5, "the noise is not normal")
                need((Z * Z2).mean(0).abs().max() < 6.5 / N ** .5, "the noise is not fresh"); need((Z[1:] * Z[:-1]).mean(0).abs().max() < 6.5 / N ** .5, "the noise is shared by observations")
                if Z.shape[1] > 1: need((Z[:, 1:] * Z[:, :-1]).mean(0).abs().max() < 6.5 / N ** .5, "the noise is shared by latents")
        finally: h.remove()


def loss_def(x, xr, lc, mu, lv, weight, beta, lam, reg):
    x, xr, lc, mu, lv = (t.double() for t in (x, xr, lc, mu, lv))
    kl = .5 * (lv.exp() + mu ** 2 - 1 - lv).sum(); v = lc.exp().mean(0); d = x - xr
    r = beta * kl + .5 * (v.log().sum() * len(x) + (d ** 2 / v).sum())
    if weight is not None: r = r + lam * torch.linalg.svdvals(weight.double()).sum() + reg * weight.double().abs().sum()
    return r


@prop("C21")
class C21:
    rule = "a batch, outputs of the network, weights and hyperparameters; non-trivial if two or more observations and measurements"
    workers = 4
    @staticmethod
    def nontrivial(c): return c["n"] >= 2 and c["m"] >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 21)
        for t in range(1200 if tier == "quick" else 10000): yield {"n": int(r.integers(1, 8)), "m": int(r.integers(1, 7)), "l": int(r.integers(1, 6)), "beta": float(r.choice([0, 1, .5, 4, r.random()])), "lam": float(r.choice([0, .01, 1, r.random()])), "mu": float(r.choice([0, .01, 1, r.random()])), "weight": bool(t % 3), "seed": t + 10 ** 6 * seed, "std": t % 10 == 0, "scale": float(r.choice([.1, 1, 3]))}
    @staticmethod
    def check(c):
        with scratch() as d:
            f = M.NeuroCausalFactorAnalysis(path=os.path.join(d, "t")); f.hyperparams["lambda"], f.hyperparams["mu"] = c["lam"], c["mu"]; g = torch.Generator().manual_seed(c["seed"]); s = c["scale"]
            R = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64) * s
            n, m, l = c["n"], c["m"], c["l"]; x, xr, lc, mu, lv, W = R(n, m), R(n, m), R(n, m), R(n, l), R(n, l), R(l + 1, l)
            if c["std"]: mu, lv = mu * 0, lv * 0
            w = W if c["weight"] else None
            want = float(loss_def(x, xr, lc, mu, lv, w, c["beta"], c["lam"], c["mu"])); got = float(f._elbo_gaussian(x, xr, lc, mu, lv, w, c["beta"]))
            need(abs(got - want) <= 1e-8 * (1 + abs(want)), f"the loss is {got}, stated {want}")
            if c["std"]:
                a = float(f._elbo_gaussian(x, xr, lc, mu, lv, None, 0.0)); b = float(f._elbo_gaussian(x, xr, lc, mu, lv, None, 7.0)); need(abs(a - b) < 1e-9 * (1 + abs(a)), "the divergence of standard normals is not zero")


@prop("C22")
class C22:
    rule = "a dataset, optional split, numbers of epochs and batch size and a path; every forward pass and optimizer step of the real training is observed; non-trivial if two or more epochs"
    workers = 6
    limit = 120
    @staticmethod
    def nontrivial(c): return c["epochs"] >= 2
    @staticmethod
    def cases(tier, seed):
        r = rng(seed, 22)
        for t in range(60 if tier == "quick" else 500):
            n, m = int(r.integers(8, 40)), int(r.integers(2, 5)); X = r.normal(size=(n, m)) * r.choice([1, 5], m) + r.normal(size=m) * 3
            c = {"X": X, "epochs": int(r.choice([1, 2, 3, 4])), "batch": int(r.choice([1, 3, 7, 16, 128], p=[.05, .3, .3, .2, .15])), "path": ["out", "out/", "a/b", "ABS", "out.d", "./q/"][t % 6], "seed": int(r.integers(0, 1000)), "beta": float(r.choice([1, .5])), "lam": float(r.choice([.01, .5])), "mu": float(r.choice([.01, .3])), "w": int(r.integers(1, 3)), "hid": int(r.integers(0, 3))}
            if t % 2:
                p = [int(i) for i in r.permutation(n)]; k = int(r.integers(3, n - 2)); c["split"] = [p[:k], p[k:]]
            yield c
    @staticmethod
    def check(c):
        X = np.asarray(c["X"], float); n, m = X.shape
        with scratch() as d:
            path = c["path"]
            if path == "ABS": path = os.path.join(d, "abs")
            if os.path.dirname(path.rstrip("/")): os.makedirs(os.path.dirname(path.rstrip("/")), exist_ok=True)
            torch.manual_seed(c["seed"]); f = M.NeuroCausalFactorAnalysis(path=path, seed=c["seed"]); hp = f.hyperparams
            hp.update(num_epochs=c["epochs"], batch_size=c["batch"], beta=c["beta"], mu=c["mu"], width_per_meas=c["w"], num_hidden_layers=c["hid"]); hp["lambda"] = c["lam"]
            ev = []
            def vec(mo): return torch.cat([p.detach().flatten() for p in mo.parameters()])
            def pre(mo, inp):
                if isinstance(mo, V.VariationalAutoencoder) and not C22.off: ev.append({"k": "fwd", "train": mo.training, "sub": all(q.training == mo.training for q in mo.modules()), "grad": torch.is_grad_enabled(), "x": inp[0].detach().clone(), "rng": torch.get_rng_state(), "p": vec(mo).clone(), "W": mo.decoder.cov_linear_fulcon.weight.detach().clone(), "mo": mo})
            def post(mo, inp, out):
                if isinstance(mo, V.VariationalAutoencoder) and not C22.off: ev[-1]["out"] = [o.detach().clone() for o in out]
            def step(opt, a, k):
                last = [e for e in ev if e["k"] == "fwd"][-1]; mo = last["mo"]; C22.off = True; st = torch.get_rng_state()
                try:
                    torch.set_rng_state(last["rng"]); tr = mo.training; mo.train(last["train"])
                    with torch.enable_grad():
                        o = mo(last["x"]); W = mo.decoder.cov_linear_fulcon.weight; ps = [p for p in mo.parameters() if p.requires_grad]; L = loss_def(last["x"], *o, W, c["beta"], c["lam"], c["mu"]); gs = torch.autograd.grad(L, ps, allow_unused=True)
                    mo.train(tr)
                    opt_ps = {id(p) for gr in opt.param_groups for p in gr["params"]}
                    e = {"k": "step", "all": all(id(p) in opt_ps for p in ps), "dg": 0.0}
                    for p, q in zip(ps, gs):
                        a_, b_ = (torch.zeros_like(p) if p.grad is None else p.grad), (torch.zeros_like(p) if q is None else q)
                        # the nuclear norm is not differentiable at rank deficiency: compare where the weight has full rank
                        if p is W and torch.linalg.svdvals(W.detach().double()).min() < 1e-4: continue
                        e["dg"] = max(e["dg"], float((a_ - b_).abs().max() / (1 + b_.abs().max())) if p.numel() else 0.0)
                    ev.append(e)
                finally: C22.off = False; torch.set_rng_state(st)
            h = [torch.nn.modules.module.register_module_forward_pre_hook(pre), torch.nn.modules.module.register_module_forward_hook(post), STEP_HOOK(step)]
            C22.off = False
            try: f.fit(X.copy(), split_idcs=[np.array(s) for s in c["split"]] if "split" in c else None)
            finally:
                for q in h: q.remove()
            Z = ((X - X.mean(0)) / X.std(0)).astype(np.float32)
            i = 0; per = []; B = c["batch"]
            for ep in range(c["epochs"]):
                tr, va = [], []
                while i < len(ev) and ev[i]["k"] == "fwd" and ev[i]["train"]:
                    e = ev[i]; need(e["sub"] and e["grad"], "a training batch was passed partly in evaluation mode or without gradients"); i += 1
                    need(i < len(ev) and ev[i]["k"] == "step", "a training batch was not followed by an update"); need(ev[i]["all"], "a weight is not among the optimizer's"); need(ev[i]["dg"] < 1e-3, f"an update does not use the batch's own gradients (relative difference {ev[i]['dg']:.2g})"); i += 1; tr.append(e)
                    nxt = [q for q in ev[i:] if q["k"] == "fwd"][:1]; need(nxt and not torch.equal(nxt[0]["p"], e["p"]), "an update did not change the weights")
                    if "split" in c and sum(len(q["x"]) for q in tr) >= len(c["split"][0]): break
                    if "split" not in c and sum(len(q["x"]) for q in tr) >= int(.7 * n): break
                while i < len(ev) and ev[i]["k"] == "fwd" and not ev[i]["train"]:
                    e = ev[i]; need(not e["grad"], "validation ran with gradients"); need(e["sub"], "validation ran partly in training mode"); i += 1; va.append(e)
                    if va: need(torch.equal(va[0]["p"], e["p"]), "weights changed during validation")
                need(tr and va, f"epoch {ep} did not train, then validate, in the respective modes")
                per.append((tr, va))
            need(i == len(ev), "passes or updates beyond the epochs")
            def cat(es): return torch.cat([e["x"] for e in es]).numpy()
            for tr, va in per:
                a, b = cat(tr), cat(va)
                if "split" in c: need(a.shape[0] == len(c["split"][0]) and np.allclose(a, Z[c["split"][0]], atol=1e-4), "the training batches are not the standardized training data in order"); need(b.shape[0] == len(c["split"][1]) and np.allclose(b, Z[c["split"][1]], atol=1e-4), "the validation batches are not the standardized validation data in order")
                else:
                    need(len(a) == int(.7 * n) and len(a) + len(b) == n, "the split is not 70/30"); u = np.concatenate([a, b]); need(np.allclose(u[np.lexsort(u.T.round(3))], Z[np.lexsort(Z.T.round(3))], atol=1e-3), "the batches are not all the standardized data")
                    need(np.array_equal(a, cat(per[0][0])) and np.array_equal(b, cat(per[0][1])), "the data are visited in different orders")
                for es in (tr, va): need(all(len(e["x"]) == B for e in es[:-1]) and 1 <= len(es[-1]["x"]) <= B, "batches do not have the batch size")
            want = {k: [] for k in ("elbo_train", "elbo_valid", "recon_train", "recon_valid")}
            for tr, va in per:
                for es, s in ((tr, "train"), (va, "valid")):
                    want["elbo_" + s].append(np.mean([float(loss_def(e["x"], *e["out"], e["W"] if s == "train" else None, c["beta"], c["lam"], c["mu"])) / len(e["x"]) for e in es])); want["recon_" + s].append(np.mean([float(torch.linalg.svdvals((e["x"] - e["out"][0]).double()).max()) / len(e["x"]) for e in es]))
            for k, v in want.items(): g = np.asarray(f.loss[k], float); need(g.shape == (c["epochs"],), f"{k} has {g.shape} entries for {c['epochs']} epochs"); need(close(g, v, 1e-3), f"{k} is {g.tolist()}, expected {v}")
            P = path if os.path.isabs(path) else os.path.join(d, path); P = os.path.normpath(P)
            inside = sorted(os.listdir(P)); files = [os.path.join(a, q) for a, _, qs in os.walk(d) for q in qs]
            need(all(os.path.dirname(q) == P for q in files), f"a file was written outside of the model's directory: {[q for q in files if os.path.dirname(q) != P]}"); need("training.log" in inside and {"model_recon.pt", "loss_recon.pkl", "error_recon.pkl"} <= set(inside), f"the directory holds {inside}")
            lr, er = (pickle.load(open(os.path.join(P, q), "rb")) for q in ("loss_recon.pkl", "error_recon.pkl")); need(close(lr[0], f.loss["elbo_train"]) and close(lr[1], f.loss["elbo_valid"]) and close(er[0], f.loss["recon_train"]) and close(er[1], f.loss["recon_valid"]), "saved histories are not the model's")
            mo = torch.load(os.path.join(P, "model_recon.pt"), weights_only=False); need(torch.equal(vec(mo), vec(f.parameters.vae)), "the saved model is not the trained one"); need(len(open(os.path.join(P, "training.log")).read().splitlines()) >= c["epochs"], "the log is incomplete")
            need(np.array_equal(f.parameters.weights, f.parameters.vae.decoder.cov_linear_fulcon.weight.detach().numpy().T), "the weights are not the trained model's")
