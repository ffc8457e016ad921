"""Run-time side of the contracts: case generation, concrete oracles and replay against the real code in /repo.

Run under /opt/venv/bin/python.  Used (a) to replay counterexamples and search for failing inputs when an obligation fails,
(b) to cross-check the verifier's own semantics against CPython on every run, (c) as the labelled bounded stand-in."""
import sys, os, json, io, contextlib, types, importlib, signal, time, warnings
import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
REG = {}


class Bad(Exception):
    """The property is violated."""


def need(c, msg):
    if not bool(c): raise Bad(msg)


def prop(pid, limit=60):
    def deco(cls):
        REG[pid] = cls; cls.pid = pid
        if not hasattr(cls, "limit"): cls.limit = limit
        return cls
    return deco


def stub_package():
    """Import submodules of medil without the package's __init__ (which imports torch)."""
    if "medil" not in sys.modules:
        pkg = types.ModuleType("medil"); pkg.__path__ = [os.path.join(REPO, "medil")]; sys.modules["medil"] = pkg


def mod(name):
    stub_package()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return importlib.import_module("medil." + name)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


# ---- serialisation of cases
def enc(x):
    if isinstance(x, np.ndarray):
        lay = "F" if x.flags.f_contiguous and not x.flags.c_contiguous else ("C" if x.flags.c_contiguous else "S")
        return {"__nd__": x.tolist(), "dtype": str(x.dtype), "shape": list(x.shape), "layout": lay}
    if isinstance(x, dict): return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [enc(v) for v in x]
    if isinstance(x, np.generic): return x.item()
    return x


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            a = np.array(x["__nd__"], dtype=x["dtype"]).reshape(x["shape"])
            return layout(a, x.get("layout", "C"))
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list): return [dec(v) for v in x]
    return x


def layout(a, how):
    """The same contents in another memory layout: C, F(ortran), S(trided view)."""
    if how == "F": return np.asfortranarray(a)
    if how == "S" and a.ndim >= 1:
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), a.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        v[...] = a
        return v
    return a


def rng(seed, *more): return np.random.default_rng([int(seed)] + [int(m) for m in more])


def graph_from_bits(n, bits, diag=1, dtype=int):
    a = np.zeros((n, n), int); a[np.triu_indices(n, 1)] = list(bits); a = a | a.T
    a[np.arange(n), np.arange(n)] = diag
    return a.astype(dtype)


def rand_graph(r, n, p, diag=1, dtype=int):
    return graph_from_bits(n, (r.random(n * (n - 1) // 2) < p).astype(int), diag, dtype)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | ((a == b)) | (np.isnan(a) & np.isnan(b))))


def chunks_of(gen, i, n):
    for k, x in enumerate(gen):
        if k % n == i: yield x
