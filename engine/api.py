"""What contracts are written with.  A contract is a function of an engine: it sets up an arbitrary state satisfying the
precondition (symbolic), runs the real code, and states the postcondition with check().  The same contract text can be run
on concrete values against the imported real module (ConcreteEngine): that is how counterexamples are replayed."""
import ast
import fractions
import functools
import importlib
import json
import os
import random
import sys
import time
import types
import z3
from . import core, driver, loader
from .core import (Sym, SInt, SReal, SBool, SObj, Quant, Conj, Obj, NONE, IntS, RealS, BoolS, SORT, TRUTHY, PathEnd,
                   Unsupported, ContractError, bterm, obj_term, term_of, wrap, kind_of)
from .containers import VList, VSet, VDict, VRel, VFam, I, concretize
from .loops import GhostBox, list_eq, set_eq, SymSeq
from .loader import Loader, EVENT_STUB, EventStub, ListenerStub, Namespace, FakeWeakRef, FakeLock

CONTRACTS = []
# the state of the classes under contract (instance attributes), as of the tree the contracts were written for
FIELDS_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "fields.json")
FIELDS = json.load(open(FIELDS_FILE)) if os.path.exists(FIELDS_FILE) else {}
RECORD = bool(os.environ.get("VERIF_RECORD_FIELDS"))


# properties whose code never needs to compare users' values: there == between them is left open (a value need not equal itself)
LOOSE_EQ = {"C05", "C18", "C23", "C24", "C26"}


class Contract:
    def __init__(self, fn, props, target, trusts, timeout, name, concrete, allow_unproved):
        self.fn, self.props, self.target, self.trusts = fn, props, target, trusts
        self.timeout, self.name, self.concrete = timeout, name, concrete
        self.allow_unproved = allow_unproved


def contract(props, target, trusts=(), timeout=20.0, name=None, concrete=False, allow_unproved=()):
    if isinstance(props, str):
        props = props.split()
    if isinstance(target, str):
        target = [target]

    def deco(fn):
        CONTRACTS.append(Contract(fn, props, list(target), list(trusts), timeout, name or fn.__name__, concrete, allow_unproved))
        return fn
    return deco


@functools.lru_cache(None)
def attribute_stores(module, attr):
    """[(function, value)] for every store to the (mangled) attribute in the module, None if it is handled by name"""
    out = []

    def visit(n, cls, fn):
        if isinstance(n, ast.ClassDef):
            cls, fn = n.name, None
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            fn = getattr(n, "name", "lambda") if fn is None else fn + ".inner"
        mangled = lambda a: "_" + cls.lstrip("_") + a if cls and a.startswith("__") and not a.endswith("__") else a
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and mangled(n.attr) == attr:
            out.append((fn, None))
        if isinstance(n, ast.Constant) and n.value == attr:
            out.append(("by name", None))
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if len(ts) == 1 and isinstance(ts[0], ast.Attribute) and mangled(ts[0].attr) == attr:
                out.append((fn, n.value))
                for c in ast.iter_child_nodes(n.value) if n.value is not None else ():
                    visit(c, cls, fn)
                return
        for c in ast.iter_child_nodes(n):
            visit(c, cls, fn)
    with open(loader.source_path(module)) as f:
        visit(ast.parse(f.read()), None, None)
    return out


def fixed_attribute(o, name):
    """an attribute only ever set while constructing, to a function, a constant or a lock: no state an operation could change"""
    v = vars(o)[name]
    module = type(o).__module__.rsplit(".", 1)[-1]
    if not os.path.exists(loader.source_path(module)):
        return False
    st = attribute_stores(module, name)
    if not st or any(fn != "__init__" for fn, _ in st):
        return False
    if isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, functools.partial, SObj, FakeLock)):
        return True
    return all(isinstance(x, ast.Constant) for _, x in st)


class SymEngine(driver.Engine):
    concrete = False

    def reset_path(self):
        super().reset_path()
        self.choices = []
        self.rep_objs = []
        self.havoc_dicts = False

    def rep(self, *objs):
        """the proof is by induction over the states of these objects: they must have no other state than the known fields"""
        for o in objs:
            if not any(o is x for x in self.rep_objs):
                self.rep_objs.append(o)
            self.rep_check(o)
        return objs[0]

    def rep_check(self, o):
        name = f"{type(o).__module__.rsplit('.', 1)[-1]}.{type(o).__name__}"
        have = set(vars(o))
        if RECORD:
            FIELDS.setdefault(name, [])
            FIELDS[name] = sorted(set(FIELDS[name]) | have)
            return
        extra = {n for n in have - set(FIELDS.get(name, have)) if not fixed_attribute(o, n)}
        if extra:
            self.rep_changed = f"{name} has unknown state: {', '.join(sorted(extra))}"

    def same_state(self, a, b):
        """the state reached (a) has the form of a state the steps were proved from (b): then they hold over every history"""
        bad = None
        da, db = dict(vars(a)), dict(vars(b))
        for k in sorted(set(da) | set(db)):
            if k not in da or k not in db:
                bad = k
            else:
                bad = bad or self.state_gap(da[k], db[k], k)
        if bad:
            self.rep_changed = f"{type(a).__name__}: not shown to return to a known state: {bad}"

    def state_gap(self, x, y, k):
        if isinstance(x, Sym) or isinstance(y, Sym) or x is None or y is None or isinstance(x, (int, float, str, bytes)):
            if x is y:
                return None
            r = self.eq(x, y)
            if r is True or (not isinstance(r, bool) and self.entails_stmt(r)):
                return None
            return k
        if type(x).__qualname__ != type(y).__qualname__:
            return k
        if isinstance(x, (list, tuple)):
            return k if len(x) != len(y) else next((g for i, (p, q) in enumerate(zip(x, y)) if (g := self.state_gap(p, q, f"{k}[{i}]"))), None)
        if isinstance(x, dict):
            return k if set(x) != set(y) else next((g for i in x if (g := self.state_gap(x[i], y[i], f"{k}[{i}]"))), None)
        if isinstance(x, (types.FunctionType, types.MethodType, functools.partial)) and getattr(x, "__code__", None) is not getattr(y, "__code__", None):
            return k
        return None

    def path_done(self):
        for o in self.rep_objs:
            self.rep_check(o)

    def choose(self, n, label=""):
        v = super().choose(n, label)
        if label != "sh":
            self.choices.append(v)
        return v

    def _oblige(self, name, goal):
        o = super()._oblige(name, goal)
        o.notes = list(self.choices)
        return o

    def load(self, name, real_event=False, stubs=None, lib=None):
        """the module under verification (fresh per path), events replaced by their contract unless real_event"""
        st = {} if real_event else {"Event": EVENT_STUB}
        if stubs:
            st.update(stubs)
        return Loader(st, lib).load(name)

    def loader(self, real_event=False, stubs=None, lib=None):
        st = {} if real_event else {"Event": EVENT_STUB}
        if stubs:
            st.update(stubs)
        return Loader(st, lib)

    # -- building symbolic collections
    def intset(self, name="S"):
        f = self.fresh_fn(name, IntS, BoolS)
        s = VSet.symbolic("int", f)
        self.inputs[name] = ("intset", f)
        return s

    def objset(self, name="S"):
        f = self.fresh_fn(name, Obj, BoolS)
        return VSet.symbolic("obj", f)

    def objlist(self, name="L", distinct=False, nonone=True):
        n = self.fresh(IntS, name + "_len")
        at = self.fresh_fn(name, IntS, Obj)
        pos = None
        self.add(n >= 0)
        if distinct:
            pos = self.fresh_fn(name + "_pos", Obj, IntS)
            self.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n), pos(at(k.t)) == k.t))))
        if nonone:
            self.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n), at(k.t) != NONE))))
        return VList.symbolic(n, "obj", at, pos)

    def intlist(self, name="L", kind="int"):
        n = self.fresh(IntS, name + "_len")
        at = self.fresh_fn(name, IntS, SORT[kind])
        self.add(n >= 0)
        return VList.symbolic(n, kind, at)

    # -- logic
    def forall(self, kind, fn, hint=None):
        kinds = [kind] if isinstance(kind, str) else kind
        return Quant(kinds, fn)

    def forall_in(self, n, fn):
        """for all positions 0 <= k < n"""
        return Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < I(n)), bterm(fn(k)))))

    def implies(self, a, b):
        return SBool(z3.Implies(bterm(a), bterm(b)))

    def iff(self, a, b):
        return SBool(bterm(a) == bterm(b))

    def and_(self, *a):
        return SBool(z3.And([bterm(x) for x in a]))

    def or_(self, *a):
        return SBool(z3.Or([bterm(x) for x in a]))

    def not_(self, a):
        return SBool(z3.Not(bterm(a)))

    def eq(self, a, b):
        """equality as a statement (no branching)"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return SBool(z3.BoolVal(False))
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)]) if a else SBool(z3.BoolVal(True))
        from .containers import eq_term
        return SBool(eq_term(a, b))

    def ite(self, c, a, b):
        k = kind_of(a) if kind_of(a) == kind_of(b) else ("real" if {kind_of(a), kind_of(b)} == {"int", "real"} else "obj")
        return wrap(k, z3.If(bterm(c), term_of(a, k), term_of(b, k)))

    def member(self, s, x):
        return s.member(x) if not isinstance(s, (set, frozenset)) else SBool(z3.Or([bterm(self.eq(x, y)) for y in s] or [z3.BoolVal(False)]))

    def len(self, x):
        return x.length() if isinstance(x, (VList, VSet, VDict)) else len(x)

    def elem(self, l, k):
        return l.elem(k) if isinstance(l, VList) else l[k]

    def same_list(self, a, b):
        return list_eq(a, b)

    def same_set(self, a, b):
        return set_eq(a, b)

    def raises(self, exc, fn, *args):
        """run fn; (True, exception) when it raises exc"""
        try:
            r = fn(*args)
        except exc as e:
            return True, e
        return False, r

    def ghost(self, **kw):
        return GhostBox(**kw)

    def copyset(self, s):
        return VSet(s)

    def copylist(self, l):
        return VList(l)

    def private(self, o, cls, name, value=None, set_=False):
        """read or set a private field; the contract does not apply when the representation changed"""
        n = f"_{cls}__{name}" if name.startswith("~") is False else name[1:]
        if not hasattr(o, n):
            raise Unsupported(f"representation changed: {cls} has no field __{name}")
        if set_:
            self.rep(o)
            object.__setattr__(o, n, value)
            return value
        return getattr(o, n)

    def setp(self, o, cls, name, value):
        return self.private(o, cls, name, value, True)

    def getp(self, o, cls, name):
        return self.private(o, cls, name)


class Skip(BaseException):
    pass


class ConcreteEngine:
    """replays a contract on concrete values against the real, unmodified module"""
    concrete = True

    def __init__(self, values, choices, rnd=None):
        self.values, self.choices, self.rnd = values, list(choices), rnd or random.Random(0)
        self.failed = []
        self.checked = 0
        self.nofork = False
        self.window = set(range(-6, 12))
        self.used = {}

    def load(self, name, real_event=False, stubs=None, lib=None):
        if loader.REPO not in sys.path:
            sys.path.insert(0, loader.REPO)
        return importlib.import_module("nion.utils." + name)

    def _val(self, name, d):
        n, i = name, 2
        while n in self.used:
            n = f"{name}{i}"
            i += 1
        v = self.values.get(n, d)
        self.used[n] = v
        if isinstance(v, int) and not isinstance(v, bool):
            self.window.update((v - 1, v, v + 1))
        return v

    def int(self, name="i"): return int(self._val(name, 0))
    def real(self, name="r"):
        v = self._val(name, 0)
        return float(v)
    def bool(self, name="b"): return bool(self._val(name, False))
    def obj(self, name="o"): return self._val(name, None)

    def intset(self, name="S"):
        s = set(self._val(name, set()))
        self.window.update(s)
        self.window.update(x + 1 for x in s)
        self.window.update(x - 1 for x in s)
        return s

    def choose(self, n, label=""):
        return self.choices.pop(0) if self.choices else 0

    def pick(self, options, label=""):
        options = list(options)
        return options[self.choose(len(options))]

    def assume(self, *stmts):
        for s in stmts:
            if callable(s):
                s = s()
            if not s:
                raise Skip()

    def check(self, name, *stmts):
        for s in stmts:
            self.checked += 1
            if callable(s):
                s = s()
            if not s:
                self.failed.append(name)

    def forall(self, kind, fn, hint=None):
        if kind != "int":
            raise Skip()
        w = sorted(self.window)
        return all(bool(fn(k)) for k in w)

    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def ite(self, c, a, b): return a if c else b

    def eq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, float) or isinstance(b, float):
            try:
                return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
            except TypeError:
                return False
        return a == b

    def member(self, s, x): return x in s
    def len(self, x): return len(x)
    def elem(self, l, k): return l[k]
    def copyset(self, s): return set(s)
    def copylist(self, l): return list(l)
    def same_set(self, a, b): return a == b
    def same_list(self, a, b): return list(a) == list(b)

    def raises(self, exc, fn, *args):
        try:
            r = fn(*args)
        except exc as e:
            return True, e
        return False, r

    def ghost(self, **kw):
        import types
        return types.SimpleNamespace(**kw)

    def setp(self, o, cls, name, value):
        n = f"_{cls}__{name}"
        if not hasattr(o, n):
            raise Skip()
        setattr(o, n, value)
        return value

    def getp(self, o, cls, name):
        return getattr(o, f"_{cls}__{name}")

    def rep(self, *objs):
        return objs[0]

    def same_state(self, a, b):
        pass


def model_values(o):
    """concrete inputs of a contract from a solver model"""
    m = o.model
    if m is None:
        return None
    inputs = o.tables[3]
    out = {}
    nums = set(range(-6, 12))

    def ev(t):
        return m.eval(t, model_completion=True)
    for n, v in inputs.items():
        try:
            if isinstance(v, SInt):
                out[n] = ev(v.t).as_long()
                nums.update((out[n] - 1, out[n], out[n] + 1))
            elif isinstance(v, SReal):
                r = ev(v.t)
                out[n] = float(r.as_fraction()) if z3.is_rational_value(r) else float(r.approx(12).as_fraction())
            elif isinstance(v, SBool):
                out[n] = z3.is_true(ev(v.t))
        except Exception:
            pass
    for d in m.decls():
        if d.arity() == 0 and d.range() == IntS:
            try:
                x = m[d].as_long()
                if abs(x) < 10 ** 7:
                    nums.update((x - 1, x, x + 1))
            except Exception:
                pass
    for n, v in inputs.items():
        if isinstance(v, tuple) and v[0] == "intset":
            out[n] = {k for k in nums if z3.is_true(ev(v[1](z3.IntVal(k))))}
    return out


def replay_concrete(c, values, choices):
    """-> list of failed check names, or None when the values do not meet the precondition"""
    eng = ConcreteEngine(values, choices)
    try:
        c.fn(eng)
    except Skip:
        return None
    except AssertionError as e:
        return ["raised AssertionError"]
    except Exception as e:
        return [f"raised {type(e).__name__}: {e}"]
    return eng.failed


class Result:
    pass


def verify(c, prop, timeout, budget, stop=3):
    """run one contract; -> dict (picklable)"""
    t0 = time.time()
    E = SymEngine(c.name, timeout, t0 + budget)
    E.loose_eq = prop in LOOSE_EQ
    res = {"contract": c.name, "targets": c.target, "trusts": c.trusts, "status": "ok", "obligations": [], "paths": 0,
           "detail": "", "seconds": 0.0}
    tag = lambda n: n[:3] if len(n) > 3 and n[0] == "C" and n[1:3].isdigit() else None
    try:
        E.run(c.fn)
        # vacuity: the precondition and some complete path must be satisfiable
        E.obligations = [o for o in E.obligations if tag(o.name) in (None, prop)]
        E.discharge_all(timeout, stop)
    except Unsupported as e:
        res["status"], res["detail"] = "unsupported", str(e)
    except ContractError as e:
        res["status"], res["detail"] = "unsupported", "contract: " + str(e)
    except (RecursionError, z3.Z3Exception) as e:
        res["status"], res["detail"] = "unsupported", f"{type(e).__name__}: {str(e)[:300]}"
    res["paths"], res["loops"] = E.paths, sorted(E.loops_seen)
    res["seconds"] = time.time() - t0
    if res["status"] != "ok":
        return res
    nonvac = False
    for o in E.obligations:
        d = {"name": o.name, "status": o.status, "seconds": round(o.seconds, 3), "backend": o.backend}
        if o.status != "proved":
            if isinstance(o.info, str):
                d["info"] = o.info
            d["goal"] = str(o.goal)[:1500]
            d["path"] = [str(h)[:200] for h in o.hyps[-25:]]
            try:
                vals = model_values(o)
            except Exception:
                vals = None
            if vals is not None:
                d["model"] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in vals.items()}
                if c.concrete:
                    try:
                        d["replay"] = replay_concrete(c, vals, o.notes)
                        d["choices"] = o.notes
                    except BaseException as ex:
                        d["replay"] = None
        res["obligations"].append(d)
    # canary: on at least one path with obligations the assumptions must be satisfiable
    for o in E.obligations:
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*driver.base_axioms())
        s.add(*o.hyps)
        E.lifted, E.lift_terms, E.keep, E.inputs, _ = o.tables
        if o.facts:
            s.add(*driver.instantiate(E, o.hyps, o.facts, z3.BoolVal(True), 1, 20, 6, 3))
        if s.check() != z3.unsat:
            nonvac = True
            break
    if not E.obligations:
        res["status"], res["detail"] = "vacuous", "no obligation was generated"
    elif E.rep_changed and all(o.status == "proved" for o in E.obligations):
        res["status"], res["detail"] = "unsupported", E.rep_changed
    elif not nonvac:
        res["status"], res["detail"] = "vacuous", "the assumptions are contradictory on every path"
    res["seconds"] = time.time() - t0
    return res
