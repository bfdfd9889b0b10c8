#!/usr/bin/env python3
"""Quietness test: refactor.py [-k REGEX] [FILES...]: each behaviour-preserving rewrite of tools/refactorings.py is applied alone to a scratch copy of /repo; the
checks named with it must exit 0.  NORT=1 leaves out the concrete runs.  JOBS=n copies at a time."""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from refactorings import REFACTORINGS


def one(r):
    name, props, edits = r
    out = []
    d = tempfile.mkdtemp(prefix="ref")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
        for fn, old, new in edits:
            p = d + "/r/nion/utils/" + fn
            s = open(p).read()
            if s.count(old) < 1:
                return [f"{name}: NOT FOUND {old[:80]!r}"]
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=d + "/r")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "nion"], cwd=d + "/r", env=env, capture_output=True, text=True)
        if t.returncode:
            return [f"{name}: TESTS FAIL {t.stdout[-300:]}"]
        for pr in props.split():
            env = dict(os.environ, VERIF_REPO=d + "/r")
            if os.environ.get("NORT"):
                env["VERIF_NORT"] = "1"
            t0 = time.time()
            r = subprocess.run(["python3-vt", "check.py", pr, "-v"], cwd=HERE, env=env, capture_output=True, text=True)
            o = r.stdout.strip().splitlines()
            uns = [l for l in o if "unsupported" in l]
            out.append(f"{'ok  ' if r.returncode == 0 and not uns else 'WEAK' if r.returncode == 0 else 'ALARM'} {name} {pr} {time.time() - t0:.0f}s")
            if r.returncode:
                out += ["      " + x[:260] for x in o if x.startswith(("failed", "failing", "VIOL"))][:5]
                if r.returncode != 1:
                    out.append(r.stderr[-800:])
            else:
                out += ["      " + x[:260] for x in uns][:4]
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    rx = re.compile(a[1] if a[:1] == ["-k"] else ".")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for o in ex.map(one, [r for r in REFACTORINGS if rx.search(r[0] + " " + r[1])]):
            print("\n".join(o), flush=True)
