"""setup: nothing to build; check that the tools the checks need are there."""
import os, subprocess, sys
import z3
assert z3.get_version() >= (4, 8, 0, 0)
assert os.path.isdir(os.environ.get("VERIF_REPO", "/repo"))
os.makedirs("evidence", exist_ok=True)
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
