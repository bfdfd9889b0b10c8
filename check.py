#!/usr/bin/env python3-vt
"""check.py <property id>: verify the contracts of one property against /repo's working tree.

quick/thorough by VERIF_TIER (or --tier).  Exit 0: held; exit 1 with a VIOLATION line: broken."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
RTPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def worker(conn, cname, prop, timeout, budget):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from engine import api
        c = next(c for c in api.CONTRACTS if c.name == cname and prop in c.props)
        r = api.verify(c, prop, timeout, budget)
    except MemoryError:
        r = {"contract": cname, "status": "unsupported", "detail": "out of memory", "obligations": [], "targets": [], "trusts": [],
             "paths": 0, "seconds": 0.0}
    except BaseException as e:
        r = {"contract": cname, "status": "error", "detail": "".join(traceback.format_exception(e))[-3000:], "obligations": [],
             "targets": [], "trusts": [], "paths": 0, "seconds": 0.0}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({"contract": cname, "status": "error", "detail": repr(e), "obligations": [], "targets": [], "trusts": [],
                   "paths": 0, "seconds": 0.0})
    conn.close()


def run_contracts(cs, prop, timeout, budget, procs, deadline, stop=lambda: False):
    pending, running, results = list(cs), [], []
    ctx = mp.get_context("fork")
    while pending or running:
        while pending and len(running) < procs:
            c = pending.pop(0)
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, c.name, prop, min(timeout, c.timeout), budget), daemon=True)
            p.start()
            b.close()
            running.append((p, a, c, time.time()))
        time.sleep(0.02)
        for e in list(running):
            p, a, c, t0 = e
            r = None
            ended = not p.is_alive()
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                if r is None:
                    r = {"contract": c.name, "status": "unsupported", "detail": "verifier process ended", "obligations": []}
                p.join(5)
            elif ended:
                r = {"contract": c.name, "status": "unsupported", "detail": f"verifier process ended (exit {p.exitcode})", "obligations": []}
            elif time.time() - t0 > budget + 60 or time.time() > deadline:
                p.kill()
                p.join()
                r = {"contract": c.name, "status": "unsupported", "detail": "time budget exhausted", "obligations": []}
            elif time.time() - t0 > 20 and stop():
                p.kill()
                p.join()
                r = {"contract": c.name, "status": "unsupported", "detail": "stopped: an input on which the code fails was found", "obligations": []}
            if r is not None:
                r.setdefault("targets", c.target)
                r["targets"] = c.target
                r["trusts"] = c.trusts
                r.setdefault("seconds", time.time() - t0)
                r.setdefault("paths", 0)
                results.append(r)
                running.remove(e)
    return sorted(results, key=lambda r: r["contract"])


def load_contracts(prop):
    from engine import api
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            importlib.import_module("contracts." + n)
    names = set()
    out = []
    for c in api.CONTRACTS:
        if prop in c.props:
            assert c.name not in names, c.name
            names.add(c.name)
            out.append(c)
    return out


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier == "quick"
    procs = min(8, os.cpu_count() or 4)
    deadline = t0 + (620 if quick else 6000)
    cs = load_contracts(prop)
    only = os.environ.get("VERIF_ONLY")
    if only:
        cs = [c for c in cs if re.search(only, c.name)]
    rt_budget = 12 if quick else 180
    rt = None

    def start_rt(sd, budget):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(sd % 1000))
        return subprocess.Popen([RTPY, os.path.join(HERE, "rt", "run.py"), prop, "--seed", str(sd), "--budget", str(budget)],
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE)
    if not os.environ.get("VERIF_NORT"):
        rt = start_rt(seed, rt_budget)
    rtout = []

    def failing_input():
        """the concrete run has ended with a failure that is not a known finding"""
        if rt is not None and not rtout and rt.poll() is not None:
            rtout.append(rt.communicate())
        try:
            return quick and bool(rtout) and any(f.get("key") not in [k for k, _ in known(prop)] for f in json.loads(rtout[0][0].strip().splitlines()[-1])["failures"])
        except (ValueError, IndexError, KeyError):
            return False
    results = run_contracts(cs, prop, 20 if quick else 60, 600 if quick else 1500, procs, deadline, failing_input)
    rtres = {"evaluations": 0, "distinct": 0, "failures": [], "checks": []}
    if rt is not None:
        try:
            out, err = rtout[0] if rtout else rt.communicate(timeout=rt_budget * 4 + 30)
            rtres = json.loads(out.strip().splitlines()[-1])
        except subprocess.TimeoutExpired:
            rt.kill()
            rtres["error"] = "concrete run did not end"
            rtres["failures"] = [{"check": "termination", "message": "the concrete runs did not end", "data": None}]
        except (ValueError, IndexError):
            rtres["error"] = (err or "")[-2000:]
    obligations = [dict(o, contract=r["contract"]) for r in results for o in r["obligations"]]
    failed = [o for o in obligations if o["status"] not in ("proved", "skipped")]
    if failed and rt is not None and not rtres["failures"] and not any(o.get("replay") for o in failed) and not rtres.get("error"):
        # an obligation failed: look longer, with other data, for an input on which the real code fails
        more = [start_rt(seed * 1000 + k, 60) for k in range(1, 7)]
        until = time.time() + 180
        for q in more:
            try:
                out, err = q.communicate(timeout=max(1.0, until - time.time()))
                r2 = json.loads(out.strip().splitlines()[-1])
                rtres["evaluations"] += r2.get("evaluations", 0)
                rtres["distinct"] += r2.get("distinct", 0)
                rtres["failures"] = rtres["failures"] or r2["failures"]
            except (subprocess.TimeoutExpired, ValueError, IndexError):
                q.kill()
    skipped = [o for o in obligations if o["status"] == "skipped"]
    if not quick:
        pass
    bounded = [r for r in results if r["status"] in ("unsupported",)]
    errors = [r for r in results if r["status"] in ("error", "vacuous")]
    kf = known(prop)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    rpath = os.path.join("evidence", "replay", f"{prop}.json")
    violations = []
    known_hit = set()
    rfail = []
    for f in rtres.get("failures", []):
        hit = [k for k, _ in kf if k == f.get("key")]
        if hit:
            known_hit.update(hit)
        else:
            rfail.append(f)
    replayed = [o for o in failed if o.get("replay")]
    concrete = bool(rfail or replayed)
    if rfail or failed:
        violations.append(1)
    for k, what in kf:
        print(f"KNOWN-FINDING: property={prop} {what}")
    trusted = sorted({t for r in results for t in r["trusts"]})
    base = ["engine/ (rewriting of loops, displays and attribute stores; symbolic int/float/list/set/dict models; loop invariant checking)",
            "z3 4.x (python3-vt)", "CPython 3.12 executing the rewritten real source",
            "floats treated as mathematical reals, ints unbounded", "one thread: locks never contended"]
    funcs = sorted({t for r in results if r["status"] == "ok" for t in r["targets"]})
    bf = sorted({t for r in bounded for t in r["targets"]})
    level = "proof"
    backends = {}
    for o in obligations:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    cov = {"obligations": len(obligations) + len(bounded), "discharged": len(obligations) - len(failed) - len(skipped),
           "checker_cmd": f"python3-vt check.py {prop}", "trusted_base": base + [f"assumed contract: {t}" for t in trusted],
           "functions_under_contract": funcs, "functions_bounded_only": bf,
           "bounded_reasons": {r["contract"]: r["detail"][:400] for r in bounded},
           "contracts": [{"contract": r["contract"], "targets": r["targets"], "status": r["status"], "paths": r["paths"],
                          "obligations": len(r["obligations"]), "seconds": round(r["seconds"], 2), "loops": r.get("loops", [])} for r in results],
           "backends": backends, "solver_seconds": round(sum(o["seconds"] for o in obligations), 2),
           "obligation_names": sorted({o["contract"] + ": " + o["name"] for o in obligations}),
           "evaluations": rtres.get("evaluations", 0), "distinct_nontrivial": rtres.get("distinct", 0),
           "rule": "concrete cross-check of the same property on the imported real code (bounded, not counted as proved): "
                   "generated histories; distinct = different generated data",
           "samples": rtres.get("samples", [])[:3], "rt_checks": rtres.get("checks", []), "rt_error": rtres.get("error")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": base + [f"assumed contract: {t}" for t in trusted], "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if "-v" in sys.argv or only:
        for r in results:
            print(f"{r['status']:12} {r['contract']:32} paths={r['paths']} obl={len(r['obligations'])} "
                  f"failed={sum(o['status'] != 'proved' for o in r['obligations'])} {r['seconds']:.1f}s {r.get('detail', '')[-1500:]}")
            for o in r["obligations"]:
                if o["status"] not in ("proved", "skipped"):
                    print("     FAILED", o["status"], o["name"], o.get("info", ""), o.get("model"), "replay:", o.get("replay"))
                    if "-vv" in sys.argv:
                        print("        goal", o["goal"])
                        print("        path", "\n             ".join(o["path"]))
        print("rt:", {k: v for k, v in rtres.items() if k != "samples"})
    if errors:
        for r in errors:
            print(f"ERROR in contract {r['contract']}: {r['detail']}", file=sys.stderr)
    if violations:
        with open(os.path.join(HERE, rpath), "w") as f:
            json.dump({"property": prop, "failing_inputs": rfail[:5],
                       "failed_obligations": failed[:20],
                       "how_to_replay": f"{RTPY} rt/run.py {prop} --replay {rpath}" if rfail else "see failed_obligations",
                       }, f, indent=1, default=str)
        for o in failed[:10]:
            print(f"failed obligation: {o['contract']}: {o['name']} [{o['status']}] {o.get('info', '')}")
        for x in rfail[:3]:
            print(f"failing input: {x['check']}: {x['message'][:300]} data={json.dumps(x['data'], default=str)[:400]}")
        tail = "" if concrete else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={rpath}{tail}")
        return 1
    if errors or rtres.get("error"):
        print("check error:", rtres.get("error") or "", file=sys.stderr)
        return 2
    print(f"property {prop} held: {len(obligations)} obligations discharged in {len(results)} contracts "
          f"({len(bounded)} outside reach, bounded only); {rtres.get('evaluations', 0)} concrete cases; {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
