import argparse
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import nion
nion.__path__.insert(0, os.path.join(REPO, "nion")) if hasattr(nion, "__path__") and isinstance(nion.__path__, list) else None
p = argparse.ArgumentParser()
p.add_argument("prop")
p.add_argument("--seed", type=int, default=1)
p.add_argument("--budget", type=float, default=10)
p.add_argument("--replay")
p.add_argument("--only")
a = p.parse_args()
from rt import base
for f in sorted(glob.glob(os.path.join(HERE, "*.py"))):
    n = os.path.basename(f)[:-3]
    if n not in ("base", "run", "__init__"):
        importlib.import_module("rt." + n)
if a.only:
    base.CHECKS[:] = [c for c in base.CHECKS if a.only in c.name]
sys.exit(base.main(a.prop, a.seed, a.budget, a.replay))
