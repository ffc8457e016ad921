"""The hash of the sources' syntax trees (comments and docstrings do not count), and the goals proved on them: pyvc/baseline.json.
python3-vt tools/baseline.py [IDs]: proves and records."""
import ast, hashlib, glob, json, os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")

def strip(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return t

def tree_hash(repo=REPO):
    h = hashlib.sha1()
    for f in sorted(glob.glob(f"{repo}/medil/*.py")):
        try: d = ast.dump(strip(ast.parse(open(f).read())))
        except SyntaxError: d = "syntax error"
        h.update(os.path.basename(f).encode() + b"\0" + d.encode() + b"\0")
    return h.hexdigest()

def load():
    try: return json.load(open(f"{HERE}/pyvc/baseline.json"))
    except FileNotFoundError: return {"tree": "", "proved": {}}

if __name__ == "__main__":
    b = load(); ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(f"{HERE}/pyvc/contracts/C*.py"))
    from concurrent.futures import ThreadPoolExecutor
    def go(i):
        o = f"/tmp/bl.{os.getpid()}.{i}.json"; subprocess.run(["python3-vt", "pyvc/prove.py", i, "--out", o], cwd=HERE, capture_output=True, env={**os.environ, "PYTHONHASHSEED": "0"})
        r = json.load(open(o)); os.unlink(o); return i, r
    for i, r in ThreadPoolExecutor(4).map(go, ids):
        b["proved"][i] = [g["goal"] for g in r["goals"] if g["status"] == "proved"]; print(i, r["status"], len(b["proved"][i]), "of", len(r["goals"]), r["reason"][:150])
    b["tree"] = tree_hash(); json.dump(b, open(f"{HERE}/pyvc/baseline.json", "w"), indent=1, sort_keys=True)
