"""rt/run.py <ID> [--tier quick|thorough] [--seed N] [--workers W] [--out FILE] | --replay FILE"""
import sys, os, json, time, signal, argparse, hashlib, traceback, tempfile, pickle
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg"); os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1"); sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import REG, Bad, enc, dec, quiet

MODS = {"ecc": "C01 C02 C03 C04 C05 C24", "gen": "C06 C07 C08 C09 C10", "gauss": "C11 C12 C23", "indep": "C13 C14 C15", "evalu": "C16 C17 C25", "frame": "C18", "net": "C19 C20 C21 C22"}


class Timeout(Exception): pass


def on_alarm(*a): raise Timeout()


def one(P, case):
    """None if the property held on the case, else the message."""
    signal.signal(signal.SIGALRM, on_alarm); signal.setitimer(signal.ITIMER_REAL, P.limit)
    try:
        with quiet():
            P.check(dec(case))
        return None
    except Bad as e: return str(e)
    except Timeout: return f"no result within {P.limit} s"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(lib.REPO)]
        where = f" at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].lineno} in {inrepo[-1].name}" if inrepo else ""
        return f"raised {type(e).__name__}: {str(e)[:200]}{where}"
    finally: signal.setitimer(signal.ITIMER_REAL, 0)


def size_of(case): return len(json.dumps(case))


def worker(pid, tier, seed, i, W, budget, path):
    P = REG[pid]
    out = {"evaluations": 0, "distinct": set(), "samples": [], "violations": [], "finished": True, "trivial": 0}
    t0 = time.time()
    for k, case in enumerate(P.cases(tier, seed)):
        if k % W != i: continue
        if time.time() - t0 > budget: out["finished"] = False; break
        case = enc(case)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
        msg = one(P, case)
        out["evaluations"] += 1
        if P.nontrivial(case) if hasattr(P, "nontrivial") else True: out["distinct"].add(h)
        if len(out["samples"]) < 2 and size_of(case) < 600: out["samples"].append(case)
        if msg is not None:
            out["violations"].append((case, msg))
            if len(out["violations"]) >= (5 if not hasattr(P, "keep_going") else 1000): break
    pickle.dump(out, open(path, "wb"))


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid", nargs="?"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=6); ap.add_argument("--budget", type=float, default=0); ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--extra")
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay)); pid = rec["property"]
    else: pid = a.pid
    m = [k for k, v in MODS.items() if pid in v.split()][0]
    with quiet(): __import__(m)
    P = REG[pid]
    if a.replay:
        if "case" not in rec: print("this replay file names a failed obligation without a failing input:"); print(json.dumps(rec, indent=1)[:4000]); return 1
        msg = one(P, rec["case"]); print("holds" if msg is None else "VIOLATED: " + msg)
        return 0 if msg is None else 1
    budget = a.budget or (150 if a.tier == "quick" else 600)
    t0 = time.time()
    extra_v = []
    if a.extra:
        for case in json.load(open(a.extra)):
            msg = one(P, case)
            if msg is not None: extra_v.append((case, msg))
    W = getattr(P, "workers", a.workers); paths = []; pids = []
    if hasattr(P, "setup"): 
        with quiet(): P.setup()
    for i in range(W):
        f = tempfile.NamedTemporaryFile(delete=False); paths.append(f.name); f.close()
        p = os.fork()
        if p == 0:
            try: worker(pid, a.tier, a.seed, i, W, budget, paths[-1])
            except BaseException:
                traceback.print_exc(); os._exit(3)
            os._exit(0)
        pids.append(p)
    bad = 0
    for p in pids: bad |= os.waitpid(p, 0)[1]
    if bad: print("a worker failed"); return 3
    outs = []
    for q in paths:
        outs.append(pickle.load(open(q, "rb"))); os.unlink(q)
    viol = extra_v + [v for o in outs for v in o["violations"]]
    known = []
    if hasattr(P, "post"): viol, known = P.post(viol, sum(o["evaluations"] for o in outs))
    notes = [f"not listed, but of the listed kind: {c} {m}" for c, m in known]
    if hasattr(P, "still_known"): notes = P.still_known() + notes
    viol.sort(key=lambda v: size_of(v[0]))
    res = {"evaluations": sum(o["evaluations"] for o in outs), "distinct_nontrivial": len(set().union(*[o["distinct"] for o in outs])),
           "rule": P.rule, "samples": [s for o in outs for s in o["samples"]][:3], "finished": all(o["finished"] for o in outs), "wall_s": round(time.time() - t0, 2),
           "known": notes, "violations": [{"case": c, "message": m} for c, m in viol[:5]]}
    s = json.dumps(res)
    if a.out: open(a.out, "w").write(s)
    else: print(a.pid, res["evaluations"], res["distinct_nontrivial"], res["finished"], res["wall_s"], res["known"][:1], [v["message"] for v in res["violations"]], json.dumps(res["violations"][:1])[:600])
    return 1 if viol else 0


if __name__ == "__main__": sys.exit(main())
