#!/usr/bin/env python3
"""Records the instance attributes of the classes under contract (contracts/fields.json) from the present tree."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_RECORD_FIELDS"] = "1"
sys.path.insert(0, HERE)
from engine import api
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
    n = os.path.basename(f)[:-3]
    if n != "__init__":
        importlib.import_module("contracts." + n)
api.FIELDS.clear()
for c in api.CONTRACTS:
    if len(sys.argv) > 1 and sys.argv[1] not in c.props or not __import__("re").search(os.environ.get("VERIF_ONLY", ""), c.name):
        continue
    E = api.SymEngine(c.name, 20.0, 1e12)
    try:
        E.run(c.fn)
    except api.Unsupported as e:
        print(c.name, "unsupported", e)
old = json.load(open(api.FIELDS_FILE)) if len(sys.argv) > 1 and os.path.exists(api.FIELDS_FILE) else {}
for k, v in api.FIELDS.items():
    old[k] = sorted(set(v) | set(old.get(k, []))) if len(sys.argv) > 1 else v
json.dump(old, open(api.FIELDS_FILE, "w"), indent=1, sort_keys=True)
print(len(old), "classes")
