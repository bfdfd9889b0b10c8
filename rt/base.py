"""Concrete side of the checks: the property evaluated on the real, imported code over generated histories.  It supplies failing
inputs for failed obligations, cross-checks the verifier's models against CPython, and is the (bounded) stand-in for functions
outside the verifier's reach.  Nothing found here is ever counted as proved."""
import copy
import json
import re
import random
import signal
import sys
import time
import traceback
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
CHECKS = []


class Check:
    def __init__(self, fn, props, gen, fixed, weight):
        self.fn, self.props, self.gen, self.fixed, self.weight = fn, props, gen, fixed, weight
        self.name = fn.__name__


def check(props, gen=None, fixed=None, weight=1.0):
    def deco(fn):
        CHECKS.append(Check(fn, props.split(), gen, fixed, weight))
        return fn
    return deco


class Timeout(BaseException):
    pass


class T:
    """collects failures of one case; ok(tag, condition, message)"""

    def __init__(self):
        self.fails = []
        self.count = 0

    def ok(self, tag, cond, msg="", key=None):
        self.count += 1
        if not cond:
            self.fails.append((tag, msg() if callable(msg) else msg, key))
        return bool(cond)

    def eq(self, tag, got, want, msg="", key=None):
        return self.ok(tag, got is want or got == want, lambda: f"{msg}: got {got!r}, expected {want!r}", key)

    def raises(self, tag, exc, fn, *a, msg=""):
        try:
            fn(*a)
        except exc:
            return self.ok(tag, True)
        return self.ok(tag, False, f"{msg}: did not raise {exc}")


def _alarm(sig, frame):
    raise Timeout()


def run_case(c, prop, data, seconds=10):
    """-> list of (message, key) failures relevant to prop"""
    t = T()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    out = []
    try:
        try:
            c.fn(t, copy.deepcopy(data))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Timeout:
        out.append(("did not end", "hang"))
    except RecursionError:
        out.append(("recursion without end", "recursion"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/nion/utils/" in f.filename for f in tb)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        out.append((f"raised {type(e).__name__}: {e} [{where}]" + ("" if inrepo else " (in the harness)"), "exc:" + type(e).__name__))
    out += [(f"{tag}: {m}", k) for tag, m, k in t.fails if tag == prop]
    return out, t.count


def shrink(c, prop, data, budget=4.0):
    end = time.time() + budget
    best = data

    def fails(d):
        try:
            r, _ = run_case(c, prop, d, 3)
        except BaseException:
            return False
        return bool(r) and not any("(in the harness)" in m for m, _ in r)

    def lists(d, path=()):
        if isinstance(d, list):
            yield path
            for i, x in enumerate(d):
                yield from lists(x, path + (i,))
        elif isinstance(d, dict):
            for k, x in d.items():
                yield from lists(x, path + (k,))

    def without(d, path, i):
        d = copy.deepcopy(d)
        t = d
        for p in path:
            t = t[p]
        del t[i]
        return d

    def get(d, path):
        for p in path:
            d = d[p]
        return d
    changed = True
    while changed and time.time() < end:
        changed = False
        for path in list(lists(best)):
            try:
                n = len(get(best, path))
            except (IndexError, KeyError, TypeError):
                continue
            i = n - 1
            while i >= 0 and time.time() < end:
                d = without(best, path, i)
                if fails(d):
                    best = d
                    changed = True
                i -= 1
    return best


def main(prop, seed, budget, replay=None, modules=()):
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    cs = [c for c in CHECKS if prop in c.props]
    res = {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "checks": []}
    if replay is not None:
        r = json.load(open(replay))
        bad = 0
        for f in r["failing_inputs"]:
            c = next((c for c in cs if c.name == f["check"]), None)
            if c is None:
                continue
            out, _ = run_case(c, prop, f["data"])
            for m, k in out:
                print(f"{c.name}: {m}\n   data: {json.dumps(f['data'])}")
                bad += 1
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    total = sum(c.weight for c in cs) or 1
    start = time.time()
    seen = set()
    allkeys = set()
    for c in cs:
        rng = random.Random(f"{seed}/{c.name}")
        end = time.time() + budget * c.weight / total
        n = asserts = 0
        ran = 0

        def one(data):
            nonlocal n, asserts
            out, k = run_case(c, prop, data)
            n += 1
            asserts += k
            if len(seen) < 300000:
                seen.add(hash((c.name, json.dumps(data, sort_keys=True, default=str))))
            for m, key in out:
                k3 = (c.name, key or re.sub(r"[0-9]+", "", m)[:24])
                if k3 in allkeys:
                    continue
                allkeys.add(k3)
                small = shrink(c, prop, data)
                so, _ = run_case(c, prop, small)
                sm = next((x for x, k2 in so if k2 == key), m)
                res["failures"].append({"check": c.name, "message": sm, "data": small, "key": key})
            return bool(out)
        fixed = list(c.fixed()) if c.fixed else []
        for d in fixed:
            one(d)
            if len(res["failures"]) >= 6:
                break
        while c.gen and len(res["failures"]) < 6 and (time.time() < end or n < len(fixed) + 30) and time.time() < start + budget * 3 + 20:
            one(c.gen(rng))
        res["evaluations"] += n
        res["checks"].append({"check": c.name, "cases": n, "assertions": asserts})
        if c.gen:
            r2 = random.Random(f"{seed}/{c.name}")
            res["samples"].append(json.loads(json.dumps(c.gen(r2), default=str)))
    res["distinct"] = len(seen)
    print(json.dumps(res, default=str))
    return 0
