#!/usr/bin/env python3-vt
"""Tests of the verifier itself (not of /repo's properties).

1. conformance: small programs over lists, sets, dicts and loops are run by CPython on random concrete inputs and by the engine on
   symbolic inputs that are only *assumed* to have these values.  The engine is unsound if on every path it can prove the result (or the
   exception) to differ from CPython's: then the real execution is missing.  How often it proves the result equal is the completeness.
2. the repository's own tests, executed on the mechanically rewritten modules (concrete values): rewriting must not change them.
3. statements that are false must not be discharged (a list of small wrong programs).
   selftest.py [conformance|suite|wrong] [n]"""
import glob, io, os, random, sys, types, unittest
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
from engine import api, core, driver, loader
from engine.containers import VList, VSet, VDict
from engine.core import SBool, SInt, Quant, PathEnd, Unsupported, ContractError
from engine.transform import transform

PROGRAMS = r'''
def insert(L, S, D, i, x): L.insert(i, x); return L
def append(L, S, D, i, x): L.append(x); return L
def pop_(L, S, D, i, x): v = L.pop(i); return (L, v)
def poplast(L, S, D, i, x): v = L.pop(); return (L, v)
def del_(L, S, D, i, x): del L[i]; return L
def get(L, S, D, i, x): return L[i]
def set_(L, S, D, i, x): L[i] = x; return L
def index(L, S, D, i, x): return L.index(x)
def remove(L, S, D, i, x): L.remove(x); return L
def has(L, S, D, i, x): return x in L
def rev(L, S, D, i, x): L.reverse(); return L
def rev2(L, S, D, i, x): return list(reversed(L))
def rev3(L, S, D, i, x): return L[::-1]
def sl1(L, S, D, i, x): return L[i:]
def sl2(L, S, D, i, x): return L[:i]
def sl3(L, S, D, i, x): return L[i:x]
def dels(L, S, D, i, x): del L[i:]; return L
def sets(L, S, D, i, x): L[i:i] = [x, x]; return L
def plus(L, S, D, i, x): return L + [x] + L
def ext(L, S, D, i, x): L.extend(L[i:]); return L
def cp(L, S, D, i, x): M = list(L); M.append(x); return (L, M)
def sorted_(L, S, D, i, x): return sorted(L)
def sortr(L, S, D, i, x): L.sort(reverse=True); return L
def ln(L, S, D, i, x): return len(L) + len(S)
def mx(L, S, D, i, x): return max(L)
def mn(L, S, D, i, x): return min(L)
def mxs(L, S, D, i, x): return (max(S), min(S))
def sm(L, S, D, i, x): return sum(L)
def add(L, S, D, i, x): S.add(x); return S
def disc(L, S, D, i, x): S.discard(x); return S
def srem(L, S, D, i, x): S.remove(x); return S
def shas(L, S, D, i, x): return x in S
def union(L, S, D, i, x): return S | set(L)
def inter(L, S, D, i, x): return S & set(L)
def diff(L, S, D, i, x): return S - set(L)
def symd(L, S, D, i, x): return S ^ set(L)
def upd(L, S, D, i, x): S.update(L); return S
def dupd(L, S, D, i, x): S.difference_update(L); return S
def sub(L, S, D, i, x): return S <= set(L)
def seq(L, S, D, i, x): return S == set(L)
def slist(L, S, D, i, x): return sorted(S)
def shift(L, S, D, i, x): return {k + 1 if k >= i else k for k in S}
def shiftd(L, S, D, i, x): return {k - 1 if k > i else k for k in S if k != i}
def comp(L, S, D, i, x): return [k + i for k in L]
def compf(L, S, D, i, x): return [k for k in L if k > i]
def cnt(L, S, D, i, x):
    n = 0
    for k in L:
        n += 1
    return n
def cntif(L, S, D, i, x):
    n = 0
    for k in L:
        if k == x:
            n += 1
    return n
def cpy(L, S, D, i, x):
    M = []
    for k in L:
        M.append(k)
    return M
def find(L, S, D, i, x):
    for j, k in enumerate(L):
        if k == x:
            return j
    return -1
def brk(L, S, D, i, x):
    M = []
    for k in L:
        if k == x:
            break
        M.append(k)
    else:
        M.append(i)
    return M
def cont(L, S, D, i, x):
    r = 0
    for k in L:
        if k < i:
            continue
        r = k
    return r
def any_(L, S, D, i, x): return any(k == x for k in L)
def all_(L, S, D, i, x): return all(k > x for k in L)
def nested(L, S, D, i, x):
    for k in S:
        if k in L:
            L.remove(k)
    return sorted(L)
def empties(L, S, D, i, x):
    while L:
        L.pop()
    return L
def wh(L, S, D, i, x):
    j = 0
    while j < len(L) and L[j] != x:
        j += 1
    return j
def delwhile(L, S, D, i, x):
    n = len(L)
    for j in range(n):
        del L[0]
    return (L, n)
def rng(L, S, D, i, x): return [j for j in range(i, x)]
def zips(L, S, D, i, x): return [a - b for a, b in zip(L, L[1:])]
def dget(L, S, D, i, x): return D[x]
def dget2(L, S, D, i, x): return D.get(x, i)
def dset(L, S, D, i, x): D[x] = i; return D
def ddel(L, S, D, i, x): del D[x]; return D
def dpop(L, S, D, i, x): v = D.pop(x); return (D, v)
def dpop2(L, S, D, i, x): v = D.pop(x, 7); return (D, v)
def dhas(L, S, D, i, x): return x in D
def dset2(L, S, D, i, x): v = D.setdefault(x, i); return (D, v)
def dkeys(L, S, D, i, x): return sorted(D.keys())
def dlen(L, S, D, i, x): return len(D)
def dcp(L, S, D, i, x): E = dict(D); E[x] = 1; return (D, E)
def dcomp(L, S, D, i, x): return {k: v + 1 for k, v in D.items()}
def dall(L, S, D, i, x):
    for k in list(D.keys()):
        D[k] = x
    return D
def setadd(L, S, D, i, x):
    T = set()
    for k in S:
        T.add(k + 1)
    return T
def ops(L, S, D, i, x): return (i // 3, i % 3, i // -3, i % -3, -i, abs(i), min(i, x), max(i, x), i * x, i == x, i < x, not i, i or x, i and x)
def fl(L, S, D, i, x): return (int(i / 2), round(x / 2), i / 4)
def tern(L, S, D, i, x): return i if i > x else x
def chain(L, S, D, i, x): return 0 <= i < x
def exc(L, S, D, i, x):
    try:
        v = L[i]
    except IndexError:
        v = -99
    finally:
        L.append(x)
    return (L, v)
def gen(L, S, D, i, x):
    def g():
        for k in L:
            yield k + 1
    return list(g())
def clos(L, S, D, i, x):
    n = 0
    def f(k):
        nonlocal n
        n = k
    for k in L:
        f(k)
    return n
def starred(L, S, D, i, x):
    def f(a, *r, k=3): return (a, k, len(r))
    return f(i, x, x, k=i)
def alias(L, S, D, i, x):
    M = L
    M.append(x)
    return (L, len(M), M is L)
def iadd(L, S, D, i, x):
    M = L
    M += [x]
    return (L, M)
def sor(L, S, D, i, x):
    T = S
    T |= {x}
    return (S, T)
def sub2(L, S, D, i, x):
    T = S
    T = T - {x}
    return (S, T)
def lasts(L, S, D, i, x): return (L[-1], L[0])
def eqs(L, S, D, i, x): return (L == L[:], L == [x], L != [])
def cat(L, S, D, i, x): return L[0:i] + [x] + L[i:]
def rem2(L, S, D, i, x):
    L.remove(x)
    L.insert(0, x)
    return L
def srt2(L, S, D, i, x): return sorted(L, key=lambda k: -k)
def swap(L, S, D, i, x): L[0], L[-1] = L[-1], L[0]; return L
def fromset(L, S, D, i, x):
    r = 0
    for k in sorted(S):
        if k < i:
            r = k
    return r
def late(L, S, D, i, x):
    fs = [lambda: k for k in (i, x, 3)]
    return [f() for f in fs]
def lastk(L, S, D, i, x):
    k = x
    for k in L:
        pass
    return k
def nested2(L, S, D, i, x):
    n = 0
    for k in L:
        for m in (1, 2):
            n += m
    return n
def nested3(L, S, D, i, x):
    r = []
    for k in L:
        if any(m == k for m in S):
            r.append(k)
    return r
def tryloop(L, S, D, i, x):
    r = []
    for k in L:
        try:
            if k == x:
                raise ValueError()
            r.append(k)
        except ValueError:
            r.append(-9)
    return r
def attr(L, S, D, i, x):
    class A: pass
    a = A()
    a.n = 0
    a.last = x
    for k in L:
        a.n += 1
        a.last = k
    return (a.n, a.last)
def retin(L, S, D, i, x):
    for k in L:
        for m in (k, k + 1):
            if m == x:
                return k
    return None
def walrus(L, S, D, i, x):
    n = 0
    while (m := n) < len(L):
        n = m + 1
    return n
def globs(L, S, D, i, x):
    r = []
    def put(k): r.append(k)
    for k in L:
        put(k)
    return r
def inset(L, S, D, i, x):
    for k in L:
        S.discard(k)
    return S
def dup(L, S, D, i, x):
    r = []
    for k in L:
        if k not in r:
            r.append(k)
    return r
def multi(L, S, D, i, x):
    a, b = [], []
    for k in L:
        (a if k > i else b).append(k)
    return (a, b)
def boolloop(L, S, D, i, x):
    found = False
    for k in L:
        found = found or k == x
    return bool(found)
def popall(L, S, D, i, x):
    r = []
    while L:
        r.append(L.pop(0))
    return r
def mapf(L, S, D, i, x): return list(map(lambda k: k * 2, filter(lambda k: k != x, L)))
'''


def register(name, src):
    loader._cache[name] = compile(transform(src, name + ".py"), name, "exec")


def same(E, got, want):
    """statement: the symbolic value equals the concrete one"""
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            return SBool(z3.BoolVal(False))
        return E.and_(*[same(E, g, w) for g, w in zip(got, want)]) if want else SBool(z3.BoolVal(True))
    if isinstance(want, bool) or want is None:
        if isinstance(got, bool) or got is None:
            return SBool(z3.BoolVal(got is want))
        return E.iff(got, want) if isinstance(got, SBool) else E.eq(got, want)
    if isinstance(want, list):
        if isinstance(got, (VList, list)):
            n = got.length() if isinstance(got, VList) else len(got)
            return E.and_(E.eq(n, len(want)), *[E.eq(E.elem(got, k), w) for k, w in enumerate(want)]) if not isinstance(n, int) or n == len(want) else SBool(z3.BoolVal(False))
        return SBool(z3.BoolVal(False))
    if isinstance(want, set):
        if not isinstance(got, (VSet, set)):
            return SBool(z3.BoolVal(False))
        return E.and_(*[E.iff(E.member(got, k), k in want) for k in range(-8, 12)])
    if isinstance(want, dict):
        if not isinstance(got, VDict):
            return SBool(z3.BoolVal(False))
        return E.and_(*[E.iff(k in got, k in want) for k in range(-8, 12)], *[E.eq(got[k], v) for k, v in want.items() if k in got])
    return E.eq(got, want)


def conform(name, rnd, stats):
    ns = {}
    exec(PROGRAMS, ns)
    L = [rnd.randint(-2, 4) for _ in range(rnd.randint(0, 3))]
    if rnd.random() < .3:
        L = [rnd.randint(0, 1)] * len(L)
    S = {rnd.randint(-2, 4) for _ in range(rnd.randint(0, 3))}
    D = {rnd.randint(-2, 4): rnd.randint(-2, 4) for _ in range(rnd.randint(0, 2))}
    i, x = rnd.randint(-4, 4), rnd.randint(-2, 4)
    try:
        want, exc = ns[name](list(L), set(S), dict(D), i, x), None
    except Exception as e:
        want, exc = None, type(e)

    def fn(E):
        M = E.load("selftest_programs")
        l = E.intlist("L")
        E.assume(E.eq(l.length(), len(L)), *[E.eq(l.elem(k), v) for k, v in enumerate(L)])
        s = E.intset("S")
        E.assume(Quant(["int"], lambda k: E.iff(E.member(s, k), E.or_(*[E.eq(k, v) for v in S]) if S else False)))
        d = VDict()
        for k, v in D.items():
            d[k] = v
        ii, xx = E.int("i"), E.int("x")
        E.assume(E.eq(ii, i), E.eq(xx, x))
        try:
            got = getattr(M, name)(l, s, d, ii, xx)
        except (IndexError, ValueError, KeyError, TypeError, AssertionError, AttributeError) as e:
            E.check("differs", SBool(z3.BoolVal(type(e) is not exc)))
            E.check("equals", SBool(z3.BoolVal(type(e) is exc)))
            return
        st = same(E, got, want) if exc is None else SBool(z3.BoolVal(False))
        E.check("differs", E.not_(st))
        E.check("equals", st)
    E = api.SymEngine(name, 5.0, None)
    case = f"{name}(L={L}, S={S}, D={D}, i={i}, x={x}) = {want if exc is None else exc.__name__}"
    try:
        E.run(fn)
        E.discharge_all(5.0, 10 ** 6)
    except (Unsupported, ContractError) as e:
        stats["unsupported"].setdefault(name, str(e)[:100])
        return
    stats["cases"] += 1
    diff = [o for o in E.obligations if o.name == "differs"]
    if all(o.status == "proved" for o in diff):
        stats["unsound"].append(case)
    if all(o.status == "proved" for o in E.obligations if o.name == "equals"):
        stats["proved"] += 1
    else:
        stats["incomplete"].setdefault(name, case)


def conformance(n):
    register("selftest_programs", PROGRAMS)
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    stats = {"cases": 0, "proved": 0, "unsound": [], "unsupported": {}, "incomplete": {}}
    names = [l.split("(")[0][4:] for l in PROGRAMS.splitlines() if l.startswith("def ")]
    for name in names:
        for _ in range(n):
            conform(name, rnd, stats)
    print(f"conformance: {len(names)} programs, {stats['cases']} cases, result proved equal in {stats['proved']}, unsound {len(stats['unsound'])}")
    for u in stats["unsound"]:
        print("  UNSOUND", u)
    for k, v in stats["unsupported"].items():
        print("  outside reach:", k, v)
    for k, v in stats["incomplete"].items():
        print("  not proved:", v)
    return not stats["unsound"]


WRONG = [
    ("counts all", "def f(L, x):\n n = 0\n for k in L:\n  if k != x: n += 1\n return n\n", lambda E, M, L, x: E.eq(M.f(L, x), L.length())),
    ("removes every", "def f(L, x):\n if x in L: L.remove(x)\n return x in L\n", lambda E, M, L, x: E.not_(M.f(L, x))),
    ("insert at end", "def f(L, x):\n L.insert(-1, x)\n return L\n", lambda E, M, L, x: E.eq(M.f(L, x).elem(L.length() - 1), x)),
    ("first is last", "def f(L, x):\n r = x\n for k in L:\n  r = k\n  break\n return r\n", lambda E, M, L, x: E.eq(M.f(VList(L), x), L.elem(L.length() - 1))),
    ("sorted is same", "def f(L, x):\n return sorted(L)\n", lambda E, M, L, x: E.same_list(M.f(VList(L), x), L)),
    ("set keeps length", "def f(L, x):\n return set(L)\n", lambda E, M, L, x: E.eq(M.f(L, x).length(), L.length())),
    ("sum of squares even", "def f(L, x):\n return x * x + 1\n", lambda E, M, L, x: E.eq(M.f(L, x) % 2, 0)),
    ("alias kept", "def f(L, x):\n M = list(L)\n M.append(x)\n return M\n", lambda E, M, L, x: E.same_list(M.f(L, x), L)),
    ("while steps", "def f(L, x):\n j = 0\n while j < len(L):\n  j += 2\n return j\n", lambda E, M, L, x: E.eq(M.f(L, x), L.length())),
    ("last write wins", "def f(L, x):\n D = {}\n for k in L:\n  D[k] = x\n return x in D\n", lambda E, M, L, x: M.f(L, x)),
]


def wrong(n):
    ok = True
    for what, src, st in WRONG:
        register("selftest_wrong", src)

        def fn(E):
            M = E.load("selftest_wrong")
            E.check("wrong", st(E, M, E.intlist("L"), E.int("x")))
        E = api.SymEngine(what, 5.0, None)
        try:
            E.run(fn)
            E.discharge_all(5.0, 10)
            bad = all(o.status == "proved" for o in E.obligations)
        except (Unsupported, ContractError) as e:
            print("  outside reach:", what, e)
            bad = False
        if bad:
            print("  UNSOUND: proved", what)
            ok = False
    print(f"wrong programs: {len(WRONG)}, none discharged: {ok}")
    return ok


def suite(n):
    """the repository's tests on the rewritten modules"""
    out = {"run": 0, "bad": []}
    tests = sorted(glob.glob(os.path.join(loader.REPO, "nion", "utils", "test", "*_test.py")))
    cases = []
    for p in tests:
        src = open(p).read()
        tree = __import__("ast").parse(src)
        for c in tree.body:
            if isinstance(c, __import__("ast").ClassDef):
                cases += [(p, c.name, f.name) for f in c.body if getattr(f, "name", "").startswith("test")]
    for p, cname, tname in cases:
        name = os.path.basename(p)[:-3]

        def fn(E):
            E.check("ran", SBool(z3.BoolVal(True)))
            ld = E.loader(real_event=True)
            g = {"__builtins__": dict(vars(__builtins__) if isinstance(__builtins__, types.ModuleType) else __builtins__, __import__=ld.imp), "__name__": name}
            exec(compile(open(p).read(), p, "exec"), g)
            r = unittest.TestResult()
            g[cname](tname)(r)
            out["run"] += 1
            for _, tb in r.errors + r.failures:
                out["bad"].append((f"{name}.{cname}.{tname}", tb.strip().splitlines()[-1][:150]))
        E = api.SymEngine(name, 5.0, None)
        try:
            E.run(fn)
        except (Unsupported, ContractError) as e:
            out["bad"].append((f"{name}.{cname}.{tname}", "outside reach: " + str(e)[:120]))
    print(f"suite: {len(cases)} tests, {out['run']} executed on the rewritten modules, {len(out['bad'])} not passing")
    for b in out["bad"]:
        print("  ", *b)
    return True


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    ok = True
    for f in (conformance, wrong, suite):
        if what in ("all", f.__name__):
            ok = f(n) and ok
    sys.exit(0 if ok else 1)
