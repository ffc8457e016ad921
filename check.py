#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides property <ID> on /repo's current tree; writes evidence/<ID>.json.

1. pyvc generates the obligations of the property's contracts from /repo's current source and discharges them with z3/cvc5.
2. The same contracts are evaluated on the real code under CPython (rt/): cross-check of the verifier on every run, replay of its
   counterexamples, search for a failing input when an obligation fails, and bounded stand-in for what pyvc cannot reach.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line."""
import sys, os, json, time, subprocess, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools import baseline
REPO = os.environ.get("VP_REPO", "/repo")
VT, VENV = "python3-vt", "/opt/venv/bin/python"


def run(cmd, timeout, env=None):
    e = dict(os.environ); e.update({"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "CUDA_VISIBLE_DEVICES": ""}); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=HERE, env=e, timeout=timeout, capture_output=True, text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        return None, "", f"timeout after {timeout} s"


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-rt", action="store_true")
    a = ap.parse_args(); t0 = time.time()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    os.makedirs(f"{HERE}/evidence", exist_ok=True); os.makedirs(f"{HERE}/out", exist_ok=True)
    proof = None
    pf = f"{HERE}/out/{pid}.proof.json"
    if os.path.exists(f"{HERE}/pyvc/prove.py") and not a.no_proof:
        if os.path.exists(pf): os.remove(pf)
        rc, so, se = run([VT, "pyvc/prove.py", pid, "--tier", tier, "--out", pf], 420 if tier == "quick" else 3000, {"PYTHONHASHSEED": "0"})
        if os.path.exists(pf): proof = json.load(open(pf))
        else: proof = {"status": "undecided", "reason": f"the prover ended without an answer: {se[-400:]}", "obligations": [], "functions": [], "trusted": [], "solver_s": 0}
        for l in so.splitlines()[-60:]: print(l)
    # --- concrete side
    rf = f"{HERE}/out/{pid}.rt.json"
    if os.path.exists(rf): os.remove(rf)
    cmd = [VENV, "rt/run.py", pid, "--tier", tier, "--seed", str(a.seed), "--workers", "7", "--out", rf]
    if proof and proof.get("cases"):
        xf = f"{HERE}/out/{pid}.cex.json"; json.dump(proof["cases"], open(xf, "w")); cmd += ["--extra", xf]
    rt = None
    if not a.no_rt:
        rc, so, se = run(cmd, 400 if tier == "quick" else 2400, {"PYTHONHASHSEED": "0"})
        if os.path.exists(rf): rt = json.load(open(rf))
        else:
            # the code under check cannot even be loaded or the harness was ended
            rt = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "finished": False, "known": [], "violations": [], "wall_s": 0, "error": (so + se)[-600:]}
            if "medil" in rt["error"] and "Error" in rt["error"]: rt["violations"] = [{"case": None, "message": "the code cannot be loaded: " + rt["error"][-300:]}]
            print("concrete side ended without an answer:", rt["error"][-300:])
        for k in rt["known"]: print(f"KNOWN-FINDING: property={pid} {k}")
    viol = None
    # obligations of goals that are proved on the original source and fail on a different one
    base = baseline.load(); changed = baseline.tree_hash(REPO) != base["tree"]; lost = []
    if proof and changed:
        was = set(base["proved"].get(pid, []))
        for g in proof.get("goals", []):
            if g["goal"] in was and g["status"] in ("refuted", "unknown"): lost += [o for o in proof["obligations"] if o["status"] in ("refuted", "unknown") and o["name"].startswith(g["goal"] + ": ")]
    if rt and rt["violations"]:
        v = rt["violations"][0]; viol = {"property": pid, "kind": "replayed input", "case": v["case"], "message": v["message"], "replay_cmd": f"{VENV} rt/run.py --replay <this file>"}
        if proof: viol["failed_obligations"] = [o["name"] for o in proof["obligations"] if o["status"] != "proved"][:10]
        suffix = ""
    elif proof and lost:
        viol = {"property": pid, "kind": "failed obligation", "obligations": lost[:5], "note": "this obligation, discharged on the original source, is generated from the current source and is not provable there; no failing input was found by replay and search"}
        suffix = " no-failing-input-found"
    n_ob = len(proof["obligations"]) if proof else 0; n_ok = sum(o["status"] == "proved" for o in proof["obligations"]) if proof else 0
    proved = bool(proof) and proof["status"] == "proved" and n_ob > 0 and n_ok == n_ob
    cov = {"evaluations": rt["evaluations"] if rt else 0, "distinct_nontrivial": rt["distinct_nontrivial"] if rt else 0, "rule": (rt or {}).get("rule", ""), "samples": (rt or {}).get("samples", []), "concrete_search_finished": bool(rt and rt["finished"]), "concrete_wall_s": (rt or {}).get("wall_s", 0)}
    ass = []
    if proof:
        by = {}
        for o in proof["obligations"]: by[o.get("backend") or o["status"]] = by.get(o.get("backend") or o["status"], 0) + 1
        cov.update({"obligations": n_ob, "discharged": n_ok, "checker_cmd": f"{VT} pyvc/prove.py {pid}", "trusted_base": ["pyvc (this verifier: parser, symbolic execution, contract library)", "z3", "cvc5"] , "functions_under_contract": proof["functions"], "by_backend": by, "solver_s": round(proof["solver_s"], 2), "bounded": proof.get("bounded", []), "proof_status": proof["status"], "proof_reason": proof.get("reason", ""), "paths": proof.get("paths", 0),
                    "undischarged": [o["name"] for o in proof["obligations"] if o["status"] != "proved"][:20]})
        ass = proof["trusted"]
    level = "proof" if proved and not proof.get("bounded_only") else "exploration"
    if level == "exploration" and not cov["samples"]: cov["samples"] = [None]
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {'proved' if proved else (proof or {}).get('status', 'no proof attempted')}: {n_ok}/{n_ob} obligations; {cov['evaluations']} concrete evaluations; {ev['wall_s']} s")
    if viol:
        rp = f"{HERE}/out/{pid}.replay.json"; json.dump(viol, open(rp, "w"), indent=1)
        print((viol.get("message") or "failed: " + "; ".join(o["name"] for o in viol["obligations"]))[:500])
        print(f"VIOLATION property={pid} replay={rp}{suffix}"); return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
