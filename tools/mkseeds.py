"""Builds /verif/seeded/* from the table: each entry is (id, property, file, [(old, new, nth)], needs, breaks, demo).  Confirms every entry in a scratch copy:
the patch touches lines of the original repository, the stable tests pass with it, and the demonstration fails with it and passes without."""
import sys, os, subprocess, json, shutil, tempfile, re
sys.path.insert(0, "/verif/tools")
from seeds import SEEDS
BASE = "ae90423"
PRE = """import sys, os, io, contextlib, warnings, types, tempfile
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
_t = tempfile.TemporaryDirectory(); _repo = os.getcwd()
import numpy as np
{imports}
os.chdir(_t.name)
"""
LIGHT = "import medil_light" 

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)

def demo_text(imports, body):
    return PRE.format(imports=imports) + "with contextlib.redirect_stdout(io.StringIO()):\n" + "".join("    " + l + "\n" for l in body.strip().splitlines())

def main(only):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
    for s in SEEDS:
        sid, prop, fn, reps, needs, breaks, imports, body = s
        if only and sid not in only: continue
        out = f"/verif/seeded/{sid}"
        if not only and os.path.exists(out + "/ok"): continue
        d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = d + "/repo"
        sh("cp", "-a", "/repo", r)
        try:
            p = f"{r}/{fn}"; t = open(p).read(); blame = sh("git", "blame", "-s", fn, cwd=r).stdout.splitlines()
            bad = None
            for old, new, *nth in reps:
                k = nth[0] if nth else 0
                idx = [m.start() for m in re.finditer(re.escape(old), t)]
                if len(idx) <= k or (not nth and len(idx) != 1): bad = f"{old!r} occurs {len(idx)} times"; break
                t = t[:idx[k]] + new + t[idx[k] + len(old):]
            if bad: print(sid, "BAD:", bad); continue
            open(p, "w").write(t)
            diff = sh("git", "diff", cwd=r).stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig = {l.split(") ", 1)[1] if ") " in l else "" for l in blame if l.startswith("^" + BASE[:6])}
            if not removed or not all(l in orig for l in removed): print(sid, "NOTE: not only original lines", [l for l in removed if l not in orig][:2])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(demo_text(imports, body))
            open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
            # confirm
            good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True, timeout=300)
            badr = subprocess.run(["bash", out + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True, timeout=300)
            tst = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=r, env=dict(env, PYTHONPATH=r), capture_output=True, text=True)
            tl = tst.stdout.strip().splitlines()[-1] if tst.stdout.strip() else "?"
            ok = good.returncode == 0 and badr.returncode != 0 and tst.returncode == 0
            print(sid, prop, "OK" if ok else "FAIL", good.returncode, badr.returncode, tl, "" if ok else (good.stderr[-300:] + " | " + badr.stderr[-200:]), flush=True)
            if ok: open(f"{out}/ok", "w").close()
            else: shutil.rmtree(out)
        finally: shutil.rmtree(d)
    for s in os.listdir("/verif/seeded"):
        pass
if __name__ == "__main__": main(sys.argv[1:])
