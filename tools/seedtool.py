#!/usr/bin/env python3
"""make(seeds): write /verif/seeded/<id>/ for each (id, prop, [(file, old, new)], needs, breaks, demo) after confirming in a scratch
copy that the change builds, passes the stable tests, and that the demo passes without and fails with it.
verify [ids]: confirm again.  catch [ids]: run the property's check against /repo with the change applied, then undo it."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests_ok(copy):
    env = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=copy)
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=10", "nion"], copy, env=env)
    return r.returncode == 0, r.stdout[-1500:]


def make(seeds):
    for (sid, prop, edits, needs, breaks, demo) in seeds:
        with tempfile.TemporaryDirectory(prefix="seed_") as tmp:
            copy = os.path.join(tmp, "repo")
            shutil.copytree("/repo", copy, symlinks=True)
            sh(["git", "checkout", "-q", "--", "."], copy)
            d = os.path.join(tmp, "d")
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
            r0 = sh(["bash", os.path.join(d, "demo.sh")], copy)
            bad = False
            for f, old, new in edits:
                p = os.path.join(copy, "nion/utils", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(sid, "EDIT", s.count(old), repr(old)); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            patch = sh(["git", "diff"], copy).stdout
            r1 = sh(["bash", os.path.join(d, "demo.sh")], copy)
            ok, out = tests_ok(copy)
            if r0.returncode != 0 or r1.returncode == 0 or not ok:
                print(sid, "REJECTED demo0", r0.returncode, r0.stderr[-600:], "demo1", r1.returncode, "tests", ok, out if not ok else "")
                continue
            t = os.path.join(SEED, sid)
            os.makedirs(t, exist_ok=True)
            open(os.path.join(t, "patch.diff"), "w").write(patch)
            open(os.path.join(t, "demo.sh"), "w").write(DEMO)
            open(os.path.join(t, "demo.py"), "w").write(demo.lstrip("\n"))
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(t, "meta.json"), "w"), indent=1)
            print(sid, "kept:", r1.stderr.strip().splitlines()[-1:] )


def ids(a):
    return a or sorted(os.listdir(SEED))


if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    for i in ids(rest):
        d = os.path.join(SEED, i)
        if not os.path.exists(os.path.join(d, "meta.json")):
            continue
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        if cmd == "catch":
            # on a scratch copy of the repository (VERIF_REPO): several can run at once
            with tempfile.TemporaryDirectory(prefix="seed_") as tmp:
                copy = os.path.join(tmp, "repo")
                shutil.copytree("/repo", copy, symlinks=True)
                sh(["git", "checkout", "-q", "--", "."], copy)
                a = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
                if a.returncode:
                    print(i, prop, "PATCH DOES NOT APPLY", a.stderr); continue
                t0 = time.time()
                r = sh(["python3-vt", "check.py", prop], HERE, env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "failed obligation", "failing input"))]
                print(i, prop, "exit", r.returncode, f"{time.time()-t0:.0f}s", "OBL" if any(l.startswith("failed") for l in lines) else "-",
                      "INPUT" if any(l.startswith("failing") for l in lines) else "-", r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
                if "-v" in os.environ.get("SEEDV", ""):
                    print("\n".join(lines))
        elif cmd == "verify":
            with tempfile.TemporaryDirectory(prefix="seed_") as tmp:
                copy = os.path.join(tmp, "repo")
                shutil.copytree("/repo", copy, symlinks=True)
                sh(["git", "checkout", "-q", "--", "."], copy)
                r0 = sh(["bash", os.path.join(d, "demo.sh")], copy)
                a = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
                r1 = sh(["bash", os.path.join(d, "demo.sh")], copy)
                ok, out = tests_ok(copy)
                print(i, "ok" if (a.returncode == 0 and r0.returncode == 0 and r1.returncode and ok) else f"BAD apply={a.returncode} demo0={r0.returncode} demo1={r1.returncode} tests={ok}")
