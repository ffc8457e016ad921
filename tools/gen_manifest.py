"""Writes MANIFEST.json from the table below."""
import json, sys
sys.path.insert(0, "/verif")
PROPS = [json.loads(l) for l in open("/verif/properties.jsonl")]
try:
    from tools.levels import LEVELS
except ImportError:
    LEVELS = {}
checks = []
for p in PROPS:
    i = p["id"]; lev, tech, note = LEVELS.get(i, ("exploration", "contracts evaluated on the real code (bounded)", "bounded: the contract is evaluated on enumerated and random inputs"))
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": tech, "level": lev, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import numpy'", "checks": checks, "not_applicable": [], "notes": "Evidence is written by check.py on every run."}, open("/verif/MANIFEST.json", "w"), indent=1)
