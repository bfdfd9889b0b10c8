#!/usr/bin/env python3
"""Ad hoc mutation: mutate.py PROP[,PROP] FILE < pairs.  stdin: Python list of (old, new[, count]) tuples; each applied alone to a scratch copy;
prints what check.py says (contracts only unless RT=1).  Also runs the repository's tests when TESTS=1."""
import ast, concurrent.futures, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, fn = sys.argv[1].split(","), sys.argv[2]
def one(m):
    out = []
    print = lambda *a: out.append(" ".join(map(str, a)))
    old, new = m[0], m[1]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
        p = d + "/r/nion/utils/" + fn
        s = open(p).read()
        if old not in s:
            print("NOT FOUND", repr(old)[:80])
            return out
        n = m[2] if len(m) > 2 else 0
        i = -1
        for _ in range(n + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
        for pr in props:
            env = dict(os.environ, VERIF_REPO=d + "/r")
            if not os.environ.get("RT"):
                env["VERIF_NORT"] = "1"
            r = subprocess.run(["python3-vt", "check.py", pr] + os.environ.get("V", "").split(), cwd=HERE, env=env, capture_output=True, text=True)
            o = r.stdout.strip().splitlines()
            print(f"[{pr}] rc={r.returncode} {old.strip()[:50]!r} -> {new.strip()[:60]!r}")
            for l in o[-1 if not os.environ.get("V") else 0:] if r.returncode == 0 else [x for x in o if x.startswith(("failed", "failing"))][:4]:
                print("      ", l[:300])
            if r.returncode not in (0, 1):
                print(r.stderr[-1500:])
    finally:
        shutil.rmtree(d)
    return out


with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for o in ex.map(one, ast.literal_eval(sys.stdin.read())):
        print("\n".join(o), flush=True)
