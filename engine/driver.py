"""Path exploration (depth first, by re-execution), loops by invariants, discharge of obligations."""
import itertools
import sys
import os
import time
import traceback
import z3
from . import core
from .core import (Sym, SInt, SReal, SBool, SObj, Obj, NONE, TRUTHY, Quant, Conj, Obligation, PathEnd, Unsupported,
                   ContractError, bterm, obj_term, wrap, flatten, IntS, RealS, BoolS, TAG, SORT,
                   INT2OBJ, OBJ2INT, REAL2OBJ, OBJ2REAL, BOOL2OBJ, OBJ2BOOL)


class Decision:
    __slots__ = ("value", "alts", "kind")

    def __init__(self, value, alts, kind):
        self.value, self.alts, self.kind = value, alts, kind


class Engine:
    loose_eq = False     # == between users' values is not known

    def __init__(self, name, timeout=20.0, deadline=None):
        self.name = name
        self.nofork = False
        self.trail = []           # decisions of the current path
        self.obligations = []
        self.loopinfos = {}
        self.symwhiles = set()
        self.paths = 0
        self.timeout = timeout
        self.deadline = deadline
        self.max_paths = 20000
        self.stats = {"feas": 0, "feas_s": 0.0}
        self.assumed = []         # names of assumptions used
        self.loops_seen = set()
        self.reset_path()

    # ------------------------------------------------------------ path state
    def reset_path(self):
        self.pos = 0
        self.obl_n = 0
        self.hyps = []
        self.facts = []
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", 400)
        self.fresh_n = 0
        self.lifted = {}
        self.lift_terms = {}
        self.keep = []
        self.oid = {}
        self.oid_n = 0
        self.objs = []
        self.loopstack = []
        self.loop_serial = 0
        self.objid = {}
        self.modules = {}
        self.ghosts = {}
        self.attr_handlers = []
        self.call_handlers = []
        self.iter_handlers = []
        self.lift_handlers = []
        self.setattr_handlers = []
        self.hasattr_handlers = []
        self.isinstance_handlers = []
        self.convert_handlers = []
        self.str_handlers = []
        self.math_handlers = []
        self.deepcopy_hook = None
        self.allowed_listener_exceptions = ()
        self.math_seen = {}
        self.item_handlers = []
        self.order_handler = None
        self.hints = []
        self.int_hints = []
        self.local_hints = []
        self.pair_hints = []
        self.list_hints = []
        self.skip_templates = ()       # candidate invariants a contract has no use for (names end with)
        self.lits = {}
        self.writelogs = []
        self.dead = False
        self.pow_hook = None
        self.round_hook = None
        self.site_occ = {}
        self.path_notes = []
        self.inputs = {}
        self.imprecise = False
        self.nonlinear = False

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, sort, base="v"):
        if self.nofork:
            raise ContractError("fresh symbol inside a specification")
        self.fresh_n += 1
        name = f"{base}!{self.fresh_n}"
        args = [L.i_term for L in self.loopstack if L.skolem]
        if args:
            f = z3.Function(name, *([IntS] * len(args)), sort)
            return f(*args)
        return z3.Const(name, sort)

    def fresh_fn(self, base, *sorts):
        """a fresh uninterpreted function (as a python callable on terms), Skolemised in enclosing loop indices"""
        if self.nofork:
            raise ContractError("fresh symbol inside a specification")
        self.fresh_n += 1
        name = f"{base}!{self.fresh_n}"
        args = [L.i_term for L in self.loopstack if L.skolem]
        f = z3.Function(name, *([IntS] * len(args)), *sorts)
        return lambda *ts: f(*args, *ts)

    def int(self, base="i"):
        return self._input(base, SInt(self.fresh(IntS, base)))

    def real(self, base="r"):
        return self._input(base, SReal(self.fresh(RealS, base)))

    def bool(self, base="b"):
        return self._input(base, SBool(self.fresh(BoolS, base)))

    def obj(self, base="o"):
        return self._input(base, SObj(self.fresh(Obj, base)))

    def _input(self, base, v):
        n = base
        i = 2
        while n in self.inputs:
            n = f"{base}{i}"
            i += 1
        self.inputs[n] = v
        return v

    # ------------------------------------------------------------ objects <-> terms
    def lift(self, x):
        for h in self.lift_handlers:
            t = h(x)
            if t is not None:
                return t
        k = id(x)
        if isinstance(x, (str, bytes, tuple)) or type(x).__hash__ is not object.__hash__:
            try:
                k = ("v", type(x).__name__, x)
                hash(k)
            except BaseException:
                k = id(x)
        if k in self.lifted:
            return self.lifted[k]
        c = z3.Const(f"py!{len(self.lifted)}", Obj)
        self.keep.append(x)
        if isinstance(x, (str, bytes, tuple, frozenset)):
            self.add(TRUTHY(c) == bool(x))
        elif not hasattr(type(x), "__bool__") and not hasattr(type(x), "__len__"):
            self.add(TRUTHY(c))
        self.add(TAG(c) == 4)
        self.add(c != NONE)
        for other in self.lifted.values():
            self.add(c != other)
        self.lifted[k] = c
        self.lift_terms[c.get_id()] = (c, x)
        return c

    def box(self, x):
        k = core.kind_of(x)
        if k == "int":
            v = core.num_term(x)[1]
            t = INT2OBJ(v)
            self.add(OBJ2INT(t) == v)
            self.add(TAG(t) == 1)
            self.add(TRUTHY(t) == (v != 0))
        elif k == "real":
            v = core.num_term(x)[1]
            t = REAL2OBJ(v)
            self.add(OBJ2REAL(t) == v)
            self.add(TAG(t) == 2)
            self.add(TRUTHY(t) == (v != 0))
        else:
            v = bterm(x)
            t = BOOL2OBJ(v)
            self.add(OBJ2BOOL(t) == v)
            self.add(TAG(t) == 3)
            self.add(TRUTHY(t) == v)
        return t

    def lower(self, t):
        if t.eq(NONE):
            return None
        e = self.lift_terms.get(t.get_id())
        if e is not None:
            return e[1]
        if z3.is_app(t):
            d = t.decl()
            if d.eq(INT2OBJ):
                return SInt(t.arg(0))
            if d.eq(REAL2OBJ):
                return SReal(t.arg(0))
            if d.eq(BOOL2OBJ):
                return SBool(t.arg(0))
        return SObj(t)

    def obj_attr(self, o, name):
        for h in reversed(self.attr_handlers):
            r = h(o, name)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"attribute {name} of a value of unknown type")

    def obj_call(self, o, a, k):
        for h in reversed(self.call_handlers):
            r = h(o, a, k)
            if r is not NotImplemented:
                return r
        raise Unsupported("call of a value of unknown type")

    def obj_getitem(self, o, i):
        for h in reversed(self.item_handlers):
            r = h(o, i)
            if r is not NotImplemented:
                return r
        raise Unsupported("subscript of a value of unknown type")

    def obj_iter(self, o):
        for h in reversed(self.iter_handlers):
            r = h(o)
            if r is not NotImplemented:
                return iter(r)
        raise Unsupported("iteration of a value of unknown type")

    def obj_order(self, a, b, op):
        if self.order_handler:
            return self.order_handler(a, b, op)
        raise Unsupported("ordering of values of unknown type")

    def obj_add(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            r = self._uf("concat", [a, b])
            self.add(r.t != NONE)
            self.add(z3.Implies(z3.Or(TRUTHY(obj_term(a)), TRUTHY(obj_term(b))), TRUTHY(r.t)))
            return r
        raise Unsupported("adding values of unknown type")

    def hook_pow(self, a, b):
        if self.pow_hook:
            return self.pow_hook(a, b)
        raise Unsupported("symbolic power")

    def hook_round(self, a):
        # round half to even over reals
        t = core.num_term(a)[1]
        if isinstance(a, SInt):
            return a
        f = z3.ToInt(t)
        d = t - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return SInt(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    # ------------------------------------------------------------ what contracts attach to values of unknown type
    def obj_getattr(self, o, name, *d):
        if isinstance(name, Sym):
            raise Unsupported("symbolic attribute name")
        if d:
            for h in reversed(self.hasattr_handlers):
                r = h(o, name)
                if r is not NotImplemented:
                    if self.nofork and isinstance(r, SBool):
                        a = self.obj_attr(o, name)
                        k = core.kind_of(a)
                        if k == "int" and core.kind_of(d[0]) == "real":
                            k = "real"
                        return wrap(k, z3.If(r.t, core.term_of(a, k), core.term_of(d[0], k)))
                    return self.obj_attr(o, name) if r else d[0]
        return self.obj_attr(o, name)

    def obj_hasattr(self, o, name):
        for h in reversed(self.hasattr_handlers):
            r = h(o, name)
            if r is not NotImplemented:
                return bool(r)
        raise Unsupported(f"hasattr {name} of a value of unknown type")

    def obj_isinstance(self, o, t):
        for h in reversed(self.isinstance_handlers):
            r = h(o, t)
            if r is not NotImplemented:
                return bool(r)
        raise Unsupported("type test on a value of unknown type")

    def obj_type(self, o):
        raise Unsupported("type of a value of unknown type")

    def obj_len(self, o):
        raise Unsupported("length of a value of unknown type")

    def _uf(self, name, args, result="obj"):
        """uninterpreted function application on values"""
        ks = ["int" if isinstance(a, (SInt,)) or type(a) is int else "real" if isinstance(a, (SReal, float)) else
              "bool" if isinstance(a, (SBool, bool)) else "obj" for a in args]
        f = z3.Function(name + "/" + "".join(k[0] for k in ks), *[SORT[k] for k in ks], SORT[result])
        return wrap(result, f(*[core.term_of(a, k) for a, k in zip(args, ks)]))

    def uf(self, name, *args, result="obj"):
        return self._uf(name, args, result)

    def symbolic_format(self, parts):
        lits, args = [], []
        for p in parts:
            if isinstance(p, str):
                lits.append(p)
            else:
                lits.append("{%s:%s}" % ("" if p[1] == -1 else chr(p[1]), p[2]))
                args.append(p[0])
        r = self._uf("fmt<" + "".join(lits) + ">", args)
        self.add(r.t != NONE)
        return r

    def symbolic_str(self, x):
        for h in reversed(self.str_handlers):
            r = h(x)
            if r is not NotImplemented:
                return r
        r = self._uf("str", [x])
        self.add(r.t != NONE)
        return r

    def symbolic_hash(self, x):
        return self._uf("hash", [x], "int")

    def symbolic_sum(self, s, start):
        raise Unsupported("sum over a symbolic sequence")

    def convert(self, kind, x):
        for h in reversed(self.convert_handlers):
            r = h(kind, x)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"{kind}() of a value of unknown type")

    def deepcopy_obj(self, x):
        if self.deepcopy_hook:
            return self.deepcopy_hook(x)
        raise Unsupported("deepcopy of a value of unknown type")

    def deepcopy_list(self, x):
        if self.deepcopy_hook:
            from .containers import VList
            hook, at = self.deepcopy_hook, x.at
            return VList.symbolic(x.n, "obj", lambda k: obj_term(hook(SObj(at(k)))))
        raise Unsupported("deepcopy of a symbolic list of objects")

    rep_changed = None
    cand_quick = False      # candidate invariants are tried by E-matching only (set by contracts with many candidates)

    def path_done(self):
        pass

    def listener_exception(self, e):
        """an exception inside an event listener (swallowed by Event): never intended by a contract"""
        if isinstance(e, self.allowed_listener_exceptions):
            return
        self.fail("a listener raised", f"{type(e).__name__}: {e}")

    def math(self, name, *a):
        for h in reversed(self.math_handlers):
            r = h(name, a)
            if r is not NotImplemented:
                return r
        return builtin_math(self, name, a)

    # ------------------------------------------------------------ heap
    def register(self, o):
        """give an object its number (allocation order, the same in every re-execution)"""
        if id(o) in self.objid:
            return self.objid[id(o)]
        self.oid_n += 1
        self.objid[id(o)] = self.oid_n
        self.objs.append(o)
        self.oid[self.oid_n] = o
        return self.oid_n

    def obj_by_id(self, n):
        o = self.oid.get(n)
        if o is None:
            for c in self.objs:
                if getattr(c, "__dict__", {}).get("cid") == n:
                    self.oid[n] = c
                    return c
            raise ContractError(f"object {n} is gone")
        return o

    def setattr(self, o, name, v):
        if self.nofork:
            raise ContractError("assignment inside a specification")
        if self.loopstack:
            n = self.register(o)
            for L in self.loopstack:
                L.note_write(("attr", n, name), o, "set", (v,))
        if type(o).__name__ == "GhostBox":
            object.__setattr__(o, name, v)
        else:
            setattr(o, name, v)

    # ------------------------------------------------------------ assumptions and decisions
    def add(self, t):
        self.hyps.append(t)
        self.solver.add(t)
        for w in self.loopstack:
            w.pathfacts.append(("assume", t))

    def assume(self, *stmts):
        for s in stmts:
            for p in flatten(s):
                if isinstance(p, Quant):
                    template(self, p)       # fixed now: the statement is about the present state
                    self.facts.append(p)
                else:
                    if z3.is_false(z3.simplify(p)):
                        raise PathEnd()
                    self.add(p)

    def feasible(self, t):
        self.stats["feas"] += 1
        t0 = time.time()
        self.solver.push()
        try:
            self.solver.add(t)
            r = self.solver.check()
        finally:
            self.solver.pop()
        self.stats["feas_s"] += time.time() - t0
        return r != z3.unsat

    def _take(self, kind, options):
        """next decision among options (list of (value)), replayed when within the prefix"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract exhausted")
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != kind:
                raise ContractError(f"non-deterministic replay: {d.kind} vs {kind}")
            self.pos += 1
            return d.value
        d = Decision(options[0], list(options[1:]), kind)
        self.trail.append(d)
        self.pos += 1
        return d.value

    def decide(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.nofork:
            raise ContractError(f"branch on symbolic value inside a specification: {t}")
        if self.dead:
            raise PathEnd()
        if self.pos < len(self.trail):
            v = self._take("b", None)
        else:
            opts = []
            if self.feasible(t):
                opts.append(True)
            if not opts or self.feasible(z3.Not(t)):
                opts.append(False)
            v = self._take("b", opts)
        lit = t if v else z3.Not(t)
        self.hyps.append(lit)
        self.solver.add(lit)
        for w in self.loopstack:
            w.pathfacts.append(("branch", lit))
        return v

    def choose(self, n, label=""):
        return self._take(f"c{n}{label}", list(range(n)))

    def pick(self, options, label=""):
        options = list(options)
        return options[self.choose(len(options), label)]

    def prefix(self):
        return tuple(d.value for d in self.trail[:self.pos])

    # ------------------------------------------------------------ obligations
    def _oblige(self, name, goal):
        # the same prefix of decisions gives the same state: every obligation is recorded once
        self.obl_n += 1
        key = (self.prefix(), self.obl_n)
        if key in self.obl_seen:
            return self.obl_seen[key]
        o = self.obl_seen[key] = Obligation(name, list(self.hyps), list(self.facts), goal, self.prefix())
        o.tables = (self.lifted, self.lift_terms, self.keep, self.inputs, self.imprecise)
        self.obligations.append(o)
        return o

    def check(self, name, *stmts):
        if self.dead or any(L.discovering for L in self.loopstack):
            return
        for s in stmts:
            for p in flatten(s):
                if isinstance(p, Quant):
                    consts = [self.fresh(SORT[k], "sk") for k in p.kinds]
                    self._oblige(name, p.inst(consts))
                else:
                    self._oblige(name, z3.simplify(p))

    def fail(self, name, why=""):
        """reaching this point must be impossible"""
        if self.dead or any(L.discovering for L in self.loopstack):
            return
        self._oblige(name, z3.BoolVal(False)).info = why

    def entails(self, goal, timeout=None, quick=False):
        """is goal a consequence of what is known on this path?"""
        key = (goal.get_id(), tuple(h.get_id() for h in self.hyps), tuple(template(self, f)[1].get_id() for f in self.facts), quick)
        hit = self.ent_cache.get(key)
        if hit is None:
            r = discharge(list(self.hyps), list(self.facts), goal, timeout or 3.0, self, () if quick and self.facts else STAGES[:ENT], False, quick if quick else 1)[0] == "unsat"
            # the terms are kept, so that their numbers are not reused
            hit = self.ent_cache[key] = (r, goal, list(self.hyps), [f.templ for f in self.facts])
        return hit[0]

    def entails_stmt(self, stmt, timeout=None, quick=False):
        for p in flatten(stmt):
            if isinstance(p, Quant):
                nh = len(self.hyps)
                consts = [self.fresh(SORT[k], "sk") for k in p.kinds]
                goal = p.inst(consts)
                if not self.entails(goal, timeout, quick):
                    return False
            elif not self.entails(p, timeout, quick):
                return False
        return True

    # ------------------------------------------------------------ running a contract
    def run(self, fn):
        """explore all paths of fn(self)"""
        core.E = self
        self.trail = []
        self.obl_seen = {}
        self.ent_cache = {}
        while True:
            if self.paths > self.max_paths:
                raise Unsupported("too many paths")
            self.reset_path()
            self.paths += 1
            try:
                fn(self)
                self.path_done()
                for L in self.loopstack:
                    if L.mode == "body":
                        L.escaped(self)
            except PathEnd:
                pass
            except Exception as ex:
                self.code_exception(ex)
            except core.Restart as r:
                del self.trail[r.pos:]
                continue
            # backtrack
            del self.trail[self.pos:]
            while self.trail:
                d = self.trail[-1]
                if d.kind == "loop" and d.value == "body":
                    key = tuple(x.value for x in self.trail[:-1])
                    info = self.loopinfos.get(key)
                    if info is not None and info.next_pass():
                        self.drop_under(key)
                        break
                if d.alts:
                    d.value = d.alts.pop(0)
                    break
                self.trail.pop()
            else:
                return

    def code_exception(self, ex):
        tb = traceback.extract_tb(ex.__traceback__)
        msg = f"{type(ex).__name__}: {ex}"
        where = ""
        inner = tb[-1].filename if tb else ""
        for f in reversed(tb):
            if "/nion/utils/" in f.filename:
                where = f"{f.filename.rsplit('/', 1)[1]}:{f.lineno}"
                break
        engine_words = ("VList", "VSet", "VDict", "SInt", "SReal", "SBool", "SObj", "SymSeq", "PyType", "GenExp", "Namespace",
                        "EventStub", "ListenerStub", "FakeLock", "FakeWeakRef", "SymRange", "VTuple")
        if not where or any(w in msg for w in engine_words):
            full = "".join(traceback.format_exception(ex)[-6:])
            raise Unsupported(f"{msg} at {where or inner}\n{full}")
        if isinstance(ex, (TypeError, AttributeError, NameError)) and "/contracts/" in inner:
            raise Unsupported(f"contract stand-in: {msg} at {inner}:{tb[-1].lineno}, from {where}")
        if isinstance(ex, (AttributeError, NameError)) and "object has no attribute" in msg and "/nion/utils/" not in inner:
            raise Unsupported(f"{msg} at {where}")
        self.fail(f"no exception: {type(ex).__name__}", f"{msg} at {where}")

    def discharge_all(self, timeout, stop=False):
        """decide every recorded obligation; with stop, no more after that many failures"""
        bad = 0
        for o in self.obligations:
            if o.status is not None:
                continue
            if stop and bad >= stop:
                o.status, o.seconds, o.backend, o.model = "skipped", 0.0, "none", None
                continue
            if self.deadline and time.time() > self.deadline and bad:
                o.status, o.seconds, o.backend, o.model = "skipped", 0.0, "none", None
                continue
            self.lifted, self.lift_terms, self.keep, self.inputs, _ = o.tables
            self.loopstack = []
            st, model, secs, how = discharge(o.hyps, o.facts, o.goal, timeout, self)
            o.status = "proved" if st == "unsat" else st
            o.seconds, o.backend, o.model = secs, how, model
            if o.status != "proved":
                bad += 1

    def drop_under(self, key):
        """forget what was derived inside the loop body being redone"""
        n = len(key)
        k2 = key + ("body",)
        self.obligations = [o for o in self.obligations if o.prefix[:n + 1] != k2]
        self.obl_seen = {k: o for k, o in self.obl_seen.items() if k[0][:n + 1] != k2}
        for k in [k for k in self.loopinfos if len(k) > n and k[:n + 1] == k2]:
            del self.loopinfos[k]


def builtin_math(E, name, a):
    """functions of math over the reals, by their defining properties"""
    def R(x):
        k, t = core.num_term(x)
        return z3.ToReal(t) if k == "int" else t
    if name in ("isfinite",):
        return True
    if name in ("isnan", "isinf"):
        return False
    if name == "fabs":
        return SReal(core.num_term(abs(a[0]))[1])
    if name == "sqrt":
        t = R(a[0])
        if E.decide(t < 0):
            raise ValueError("math domain error")
        f = z3.Function("sqrt", RealS, RealS)
        r = f(t)
        E.add(z3.And(r >= 0, r * r == t))
        return SReal(r)
    if name in ("sin", "cos"):
        t = z3.simplify(R(a[0]))
        s, c = z3.Function("sin", RealS, RealS)(t), z3.Function("cos", RealS, RealS)(t)
        E.add(s * s + c * c == 1)
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            E.add(z3.And(s == 0, c == 1))
        return SReal(s if name == "sin" else c)
    if name == "pow":
        return a[0] ** a[1]
    if name == "hypot":
        x, y = R(a[0]), R(a[1])
        r = z3.Function("hypot", RealS, RealS, RealS)(x, y)
        E.add(z3.And(r >= 0, r * r == x * x + y * y))
        return SReal(r)
    if name == "radians":
        pi = z3.Const("pi", RealS)
        return SReal(R(a[0]) * pi / 180)
    raise Unsupported(f"math.{name} of a symbolic value")


# ---------------------------------------------------------------- discharge

def subterms(ts):
    seen, stack = set(), list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield t
        if z3.is_app(t):
            stack.extend(t.children())


_GT = {}


def _gt1(t0):
    """instantiation terms of one formula (memoised)"""
    k = t0.get_id()
    e = _GT.get(k)
    if e is not None and e[0].eq(t0):
        return e[1]
    out = []
    for t in subterms([t0]):
        if not z3.is_app(t):
            continue
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            s = t.sort()
            if s == IntS:
                out.append(("int", t))
            elif s == Obj:
                out.append(("obj", t))
            elif s == RealS and t.num_args() == 0:
                out.append(("real", t))
            for a in t.children():
                sa = a.sort()
                if sa == IntS:
                    out.append(("int", a))
                elif sa == Obj:
                    out.append(("obj", a))
    if len(_GT) > 200000:
        _GT.clear()
    _GT[k] = (t0, out)
    return out


def ground_terms(ts, into=None):
    """candidate instantiation terms per kind"""
    out = into if into is not None else {"int": {}, "obj": {}, "real": {}}
    for t in ts:
        for k, x in _gt1(t):
            out[k][x.get_id()] = x
    return out


SIZES = {}
_CONSTS = {}


def consts_of(t):
    k = t.get_id()
    e = _CONSTS.get(k)
    if e is not None and e[0].eq(t):
        return e[1]
    out = frozenset(s.decl().name() for s in subterms([t]) if z3.is_app(s) and s.num_args() == 0
                    and s.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    if len(_CONSTS) > 200000:
        _CONSTS.clear()
    _CONSTS[k] = (t, out)
    return out



def order(terms, limit):
    def size(t):
        k = t.get_id()
        if k in SIZES and SIZES[k][0].eq(t):
            return SIZES[k][1]
        n = size_(t)
        SIZES[k] = (t, n)
        return n

    def size_(t):
        n = 0
        for _ in subterms([t]):
            n += 1
            if n > 60:
                break
        return n
    ts = [(size(t), str(t.decl()) if z3.is_app(t) else "", t.get_id(), t) for t in terms]
    ts.sort(key=lambda x: x[:1])
    return [x[3] for x in ts[:max(limit, 0)]]


class _Side:
    """collects what instantiating closures adds to the path (box axioms, ...)"""


class _Quiet:
    def add(self, *a): pass


def template(eng, f):
    """(variables, body) of a quantified fact, built once"""
    if getattr(f, "templ", None) is None:
        vs = [z3.Const(f"q!{i}!{k}", SORT[k]) for i, k in enumerate(f.kinds)]
        saved = (eng.hyps, eng.solver, eng.loopstack)
        eng.hyps, eng.solver, eng.loopstack = [], _Quiet(), []
        try:
            t = f.inst(vs)
            side = eng.hyps
        finally:
            eng.hyps, eng.solver, eng.loopstack = saved
        f.templ = (vs, z3.simplify(z3.And(t, *side) if side else t))
    return f.templ


def instantiate(eng, hyps, facts, goal, rounds=2, limit=36, m2=14, m3=7):
    insts, done = [], set()
    gg = ground_terms([goal])
    goalc = {c for c in consts_of(goal) if c.startswith("sk!")} or consts_of(goal)
    g = ground_terms(list(hyps) + [goal])
    n0 = 0
    for r in range(rounds):
        ground_terms(insts[n0:], g)
        n0 = len(insts)
        pool = {"real": order(g["real"].values(), 10), "bool": []}
        for k in ("int", "obj"):
            first = order(gg[k].values(), limit)
            ids = {t.get_id() for t in first}
            rest = [t for t in g[k].values() if t.get_id() not in ids]
            a = order([t for t in rest if consts_of(t) & goalc], limit)
            b = order([t for t in rest if not (consts_of(t) & goalc)], limit)
            mixed = [t for p in itertools.zip_longest(a, b) for t in p if t is not None]
            pool[k] = first + mixed[:max(0, limit - len(first))]
        for fi, f in enumerate(facts):
            ks = f.kinds
            vs, body = template(eng, f)
            if len(ks) == 1:
                combos = [(t,) for t in pool[ks[0]]]
            elif len(ks) == 2:
                combos = [(a, b) for a in pool[ks[0]][:m2] for b in pool[ks[1]][:m2]]
            else:
                combos = [(a, b, c) for a in pool[ks[0]][:m3] for b in pool[ks[1]][:m3] for c in pool[ks[2]][:m3]]
            for c in combos:
                key = (fi,) + tuple(t.get_id() for t in c)
                if key in done:
                    continue
                done.add(key)
                insts.append(z3.substitute(body, *zip(vs, c)))
        if len(insts) == n0:
            break
    return insts


def patterns(fn, v, body, both):
    """patterns for the step axiom of a counting function, which must not trigger itself"""
    found, seen, todo = {}, set(), [body]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.decl().eq(fn(v).decl()) and any(a.eq(v) for a in t.children()):
                found[t.get_id()] = t
            todo.extend(t.children())
    return [z3.MultiPattern(t, fn(v)) if both else t for t in found.values()]


def native(eng, facts, variant=0):
    out = []
    for f in facts:
        vs, body = template(eng, f)
        nat = f.__dict__.setdefault("nat", {})
        v = variant if f.step is not None else 0
        if v not in nat:
            nat[v] = z3.ForAll(vs, body, patterns=patterns(f.step, vs[0], body, v)) if f.step is not None else z3.ForAll(vs, body)
        out.append(nat[v])
    return out


ENT = int(os.environ.get("VERIF_ENT", "1"))
NATIVE_FIRST = int(os.environ.get("VERIF_NATIVE", "300"))


def base_axioms():
    return [z3.Not(TRUTHY(NONE)), TAG(NONE) == 4]


def relevant(hyps, goal):
    return hyps


STAGES = ((2, 30, 10, 5), (3, 70, 14, 7), (4, 110, 20, 8))


def discharge(hyps, facts, goal, timeout, eng, stages=STAGES, quant=True, attempts=1):
    """-> (status, model or None, seconds, how); status unsat = proved"""
    t0 = time.time()
    if z3.is_true(goal):
        return "unsat", None, 0.0, "simplifier"
    model, r, insts = None, None, []
    if facts and NATIVE_FIRST:
        for n in range(attempts):
            s = z3.Solver()
            # a budget in solver steps, so that the outcome does not depend on the load of the machine
            s.set("rlimit", NATIVE_FIRST * (3500 if attempts == 1 else 2000))
            s.set("timeout", 5000)
            s.set("smt.mbqi", False)
            s.set("smt.random_seed", 17 * n)
            s.add(*base_axioms())
            s.add(*hyps)
            s.add(*native(eng, facts, n % 2))
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return "unsat", None, time.time() - t0, "z3 (quantifiers)"
    for stage in (stages if facts else stages[:1]):
        insts = instantiate(eng, hyps, facts, goal, *stage) if facts else []
        s = z3.Solver()
        s.set("timeout", int(min(timeout, 8.0) * 1000))
        s.add(*base_axioms())
        s.add(*hyps)
        s.add(*insts)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, time.time() - t0, "z3 (explicit instances)" if facts else "z3"
        model = s.model() if r == z3.sat else None
        if time.time() - t0 > timeout:
            break
    if not quant:
        return ("sat" if r == z3.sat else "unknown"), model, time.time() - t0, "z3"
    if facts:
        s2 = z3.Solver()
        s2.set("timeout", int(timeout * 1000))
        s2.add(*base_axioms())
        s2.add(*hyps)
        s2.add(*native(eng, facts))
        s2.add(z3.Not(goal))
        r2 = s2.check()
        if r2 == z3.unsat:
            return "unsat", None, time.time() - t0, "z3 (quantifiers)"
        if r2 == z3.sat:
            return "sat", s2.model(), time.time() - t0, "z3 (quantifiers)"
        return "unknown", model, time.time() - t0, "z3 (quantifiers)"
    if r == z3.unknown:
        for mk in (lambda: z3.SolverFor("QF_NRA"), lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.SimpleSolver()):
            try:
                s2 = mk()
                s2.set("timeout", int(timeout * 1000))
                s2.add(*hyps)
                s2.add(z3.Not(goal))
                r2 = s2.check()
            except z3.Z3Exception:
                continue
            if r2 == z3.unsat:
                return "unsat", None, time.time() - t0, "z3 (nra)"
            if r2 == z3.sat:
                return "sat", s2.model(), time.time() - t0, "z3 (nra)"
        return "unknown", None, time.time() - t0, "z3"
    return "sat", model, time.time() - t0, "z3"


def loop_report(eng):
    """for development: which candidate invariants each loop kept"""
    for key, info in eng.loopinfos.items():
        print("LOOP", [k for k in key if k in ("body", "exit")], "kept", sorted(l for l in info.entry_ok if l not in info.dropped), "dropped", sorted(l for l in info.dropped if "hint" in l))
