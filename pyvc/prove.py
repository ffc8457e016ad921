"""prove.py <ID> --tier T --out FILE: generates the obligations of a property's contracts from the current source and discharges them."""
import sys, os, json, signal, time, argparse, traceback, importlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
import z3
from core import *
import core, arr, interp, npmodel, loops, solve
import torchmodel

class Goal:
    """One function under contract: run(ip) executes it on arbitrary arguments satisfying the precondition and states the postcondition."""
    def __init__(s, name, run, opts=None): s.name, s.run, s.opts = name, run, opts or {}

def explore(goal, repo, limit=200):
    """All paths of a goal: list of (ctx, outcome)."""
    todo = [[]]; out = []; executed = set(); srcs = None
    while todo:
        if len(out) >= limit: raise Unsupported("too many paths")
        dec = todo.pop()
        c = Ctx(dec, goal.opts); core._cur.append(c)
        ip = interp.Interp(repo); npmodel.IP[0] = ip
        try:
            goal.run(ip); res = "end"
        except PathEnd: res = "pathend"
        finally: core._cur.pop()
        executed |= ip.executed
        out.append((c, res)); todo += c.alts
    return out, executed

def prove_goal(goal, repo, ms, most=3):
    t0 = time.time(); rec = {"goal": goal.name, "obligations": [], "status": "proved", "trusted": [], "functions": [], "paths": 0}
    try:
        paths, executed = explore(goal, repo)
    except Unsupported as e:
        if os.environ.get("PYVC_TB"): traceback.print_exc()
        rec.update(status="undecided", reason=f"{goal.name}: outside the subset: {e}"); return rec, []
    except PyRaise as e:
        rec.update(status="undecided", reason=f"{goal.name}: exception {e}"); return rec, []
    rec["paths"] = len(paths); rec["functions"] = sorted(executed)
    obs = []
    for c, _ in paths:
        obs += c.obligs; rec["trusted"] = sorted(set(rec["trusted"]) | c.assumed)
    nbad = 0; seen = {}
    for o in obs:
        if nbad >= most and not o.status:
            rec["obligations"].append({"name": f"{goal.name}: {o.name}" + (f" [{o.where}]" if o.where else ""), "status": "unattempted", "backend": None, "kind": o.kind, "secs": 0, "detail": "enough obligations of this function failed already"}); continue
        key = (o.goal.get_id(), tuple(sorted(h.get_id() for h in o.hyps)))
        if key in seen and not o.status:      # the same obligation on a common prefix of two paths
            st = o.status = seen[key][0].status; o.backend, o.reason = seen[key][0].backend, seen[key][0].reason
        else:
            core._cur.append(o.ctx)
            try: st = solve.discharge(o, ms)
            finally: core._cur.pop()
            seen[key] = (o, o.goal, o.hyps)
        nbad += st != "proved"
        rec["obligations"].append({"name": f"{goal.name}: {o.name}" + (f" [{o.where}]" if o.where else ""), "status": st, "backend": o.backend, "kind": o.kind, "secs": round(o.secs, 3), **({"detail": o.reason} if st != "proved" else {})})
    # the path conditions must be satisfiable for at least one path (vacuity)
    bad = [o for o in rec["obligations"] if o["status"] != "proved"]
    if bad:
        rec["status"] = "refuted" if any(o["status"] == "refuted" for o in bad) else "unknown"
        rec["reason"] = bad[0]["name"]
    if not obs: rec["status"] = "undecided"; rec["reason"] = f"{goal.name}: no obligation was generated"
    if paths and all(vacuous(c) for c, r in paths): rec["status"] = "undecided"; rec["reason"] = f"{goal.name}: contradictory assumptions"
    rec["secs"] = round(time.time() - t0, 2)
    return rec, obs

def vacuous(c):
    """Contradictory assumptions (contracts and preconditions together) on this path?"""
    return solve.z3_check(c.pc, z3.BoolVal(False), 1500, mbqi=False)[0] == z3.unsat or solve.z3_check(c.pc, z3.BoolVal(False), 500)[0] == z3.unsat

def one(g, a, ms, t0):
    """The record of a goal, computed in this process."""
    if time.time() - t0 > (240 if a.tier == "quick" else 2400):
        return {"goal": g.name, "obligations": [], "status": "undecided", "reason": "time budget", "trusted": [], "functions": [], "secs": 0, "paths": 0}
    def late(*_): raise TimeoutError("time budget")
    try:
        signal.signal(signal.SIGALRM, late); signal.alarm(150 if a.tier == "quick" else 900)
        try: return prove_goal(g, a.repo, ms, int(os.environ.get("PYVC_MOST", 1 if a.tier == "quick" else 3)))[0]
        finally: signal.alarm(0)
    except Exception as e:
        if a.v: traceback.print_exc()
        return {"goal": g.name, "obligations": [], "status": "undecided", "reason": f"{g.name}: verifier error {type(e).__name__}: {e}", "trusted": [], "functions": [], "paths": 0}

def run_all(goals, a, ms, t0):
    """Goals are independent: each is done in a child process of its own, a few at a time."""
    jobs = int(os.environ.get("PYVC_JOBS", max(1, min(4, (os.cpu_count() or 1) // 2)))); recs = [None] * len(goals); running = {}; todo = list(range(len(goals)))
    while todo or running:
        while todo and len(running) < jobs:
            k = todo.pop(0); f = tempfile.TemporaryFile(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
            if pid == 0:
                try: f.write(json.dumps(one(goals[k], a, ms, t0)).encode()); f.flush(); sys.stdout.flush(); sys.stderr.flush()
                finally: os._exit(0)
            running[pid] = (k, f)
        pid, _ = os.wait()
        if pid not in running: continue
        k, f = running.pop(pid); f.seek(0); t = f.read(); f.close()
        recs[k] = json.loads(t) if t else {"goal": goals[k].name, "obligations": [], "status": "undecided", "reason": f"{goals[k].name}: verifier process ended", "trusted": [], "functions": [], "paths": 0}
    return recs

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--repo", default=os.environ.get("VP_REPO", "/repo")); ap.add_argument("-v", action="store_true"); ap.add_argument("--only")
    a = ap.parse_args(); t0 = time.time()
    res = {"status": "undecided", "reason": "", "obligations": [], "functions": [], "trusted": [], "solver_s": 0.0, "paths": 0, "goals": [], "bounded": []}
    try:
        mod = importlib.import_module(f"contracts.{a.pid}")
    except ModuleNotFoundError:
        res["reason"] = "no contracts within the verifier's reach for this property"
        if a.out: json.dump(res, open(a.out, "w"))
        print("no contracts"); return
    ms = 15000 if a.tier == "quick" else 120000
    stats = []
    todo = [g for g in mod.goals() if not a.only or a.only in g.name]
    for g, rec in zip(todo, run_all(todo, a, ms, t0)):
        res["obligations"] += rec["obligations"]; res["functions"] = sorted(set(res["functions"]) | set(rec["functions"])); res["trusted"] = sorted(set(res["trusted"]) | set(rec["trusted"])); res["paths"] += rec["paths"]
        res["solver_s"] += sum(o.get("secs", 0) for o in rec["obligations"])
        res["goals"].append({k: rec.get(k) for k in ("goal", "status", "reason", "secs", "paths")})
        stats.append(rec["status"])
        if a.v:
            print(g.name, rec["status"], rec.get("reason", ""), f"{len(rec['obligations'])} obligations, {rec['paths']} paths, {rec.get('secs')} s")
            for o in rec["obligations"]:
                if o["status"] != "proved": print("   ", o["status"], o["name"], o.get("detail", "")[:300])
    res["trusted"] += getattr(mod, "TRUSTED", []); res["bounded"] = getattr(mod, "BOUNDED", [])
    res["trusted"] += ["Python and NumPy integers as mathematical integers, floats as real numbers", "float division by zero, nan and infinities are not modelled"]
    for st in ("refuted", "unknown", "undecided"):
        if st in stats: res["status"] = st; break
    else: res["status"] = "proved" if stats else "undecided"
    for g in res["goals"]:
        if g["status"] != "proved" and not res["reason"]: res["reason"] = g["reason"] or ""
    if a.out: json.dump(res, open(a.out, "w"), indent=1)
    print(f"{a.pid} proof: {res['status']} {sum(o['status'] == 'proved' for o in res['obligations'])}/{len(res['obligations'])} obligations, {len(res['functions'])} functions, {res['solver_s']:.1f} s solver, {time.time() - t0:.1f} s {res['reason'][:200]}")

if __name__ == "__main__": main()
