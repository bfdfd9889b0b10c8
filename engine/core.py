"""Core of the deductive verifier: symbolic values, path exploration, obligations, proving.

The code under verification is the real source of /repo, loaded through engine.loader (a
mechanical AST rewriting) and executed by CPython itself on the symbolic values defined here.
A path is a list of decisions; every path is (re-)executed from the start of the contract with a
prefix of decisions (engine.driver).  Nothing in here knows the code being verified."""
import sys
import time
import fractions
import z3

Obj = z3.DeclareSort("Obj")
NONE = z3.Const("NONE", Obj)
TRUTHY = z3.Function("truthy", Obj, z3.BoolSort())
PYEQ = z3.Function("py_eq", Obj, Obj, z3.BoolSort())
PYNE = z3.Function("py_ne", Obj, Obj, z3.BoolSort())
CALLABLE = z3.Function("is_callable", Obj, z3.BoolSort())
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class PathEnd(BaseException):
    """This path is finished (infeasible, or end of an arbitrary loop iteration)."""


class Unsupported(BaseException):
    """The code uses something outside the verifier's subset."""


class ContractError(BaseException):
    """The contract cannot be stated on this code (for example a private field is gone)."""


class Restart(BaseException):
    pass


E = None   # the engine of the contract being verified (one per process)


def cur():
    return E


# ---------------------------------------------------------------- symbolic values

def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported(f"hash of symbolic value {self.t}")

    def __index__(self):
        raise Unsupported("symbolic value used as native index")

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of symbolic {type(self).__name__}")

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic value")

    def __str__(self):
        return f"<{self.t}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def rv(x):
    """exact rational of a Python number"""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = fractions.Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def num_term(x):
    """(kind, term) of a number, or None"""
    if isinstance(x, SInt):
        return "int", x.t
    if isinstance(x, SReal):
        return "real", x.t
    if isinstance(x, SBool):
        return "int", z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return "int", z3.IntVal(int(x))
    if isinstance(x, int):
        return "int", z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in symbolic arithmetic")
        return "real", rv(x)
    if isinstance(x, fractions.Fraction):
        return "real", z3.RealVal(f"{x.numerator}/{x.denominator}")
    return None


def coerce(a, b):
    ka, ta = a
    kb, tb = b
    if ka == kb:
        return ka, ta, tb
    if ka == "int":
        ta = z3.ToReal(ta)
    if kb == "int":
        tb = z3.ToReal(tb)
    return "real", ta, tb


def mknum(kind, t):
    t = z3.simplify(t)
    return SInt(t) if kind == "int" else SReal(t)


def floordiv_int(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def floor_real(t):
    return z3.ToInt(t)


class SNum(Sym):
    __slots__ = ()

    def _bin(self, o, f, swap=False, real=False):
        n = num_term(o)
        if n is None:
            return NotImplemented
        k, a, b = coerce(num_term(self), n)
        if real and k == "int":
            k, a, b = "real", z3.ToReal(a), z3.ToReal(b)
        if swap:
            a, b = b, a
        return mknum(k, f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def _div(self, o, swap):
        n = num_term(o)
        if n is None:
            return NotImplemented
        d = num_term(self) if swap else n
        if E.decide(d[1] == 0):
            raise ZeroDivisionError("division by zero")
        return self._bin(o, lambda a, b: a / b, swap, real=True)

    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    def _fdiv(self, o, swap, mod):
        n = num_term(o)
        if n is None:
            return NotImplemented
        k, a, b = coerce(num_term(self), n)
        if swap:
            a, b = b, a
        if E.decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = floordiv_int(a, b) if k == "int" else z3.ToReal(floor_real(a / b))
        return mknum(k, a - q * b if mod else q)

    def __floordiv__(self, o): return self._fdiv(o, False, False)
    def __rfloordiv__(self, o): return self._fdiv(o, True, False)
    def __mod__(self, o): return self._fdiv(o, False, True)
    def __rmod__(self, o): return self._fdiv(o, True, True)
    def __neg__(self): return mknum(*(lambda k, t: (k, -t))(*num_term(self)))
    def __pos__(self): return self
    def __abs__(self): return mknum(*(lambda k, t: (k, z3.If(t < 0, -t, t)))(*num_term(self)))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return E.hook_pow(self, o)

    def __rpow__(self, o):
        return E.hook_pow(o, self)

    def _cmp(self, o, f):
        n = num_term(o)
        if n is None:
            if isinstance(o, float):
                raise Unsupported("comparison with non-finite")
            return NotImplemented
        k, a, b = coerce(num_term(self), n)
        return SBool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if num_term(o) is None:
            return NotImplemented if isinstance(o, Sym) else False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if num_term(o) is None:
            return NotImplemented if isinstance(o, Sym) else True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.decide(self.t != 0)

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round with digits")
        return E.hook_round(self)

    def __trunc__(self):
        k, t = num_term(self)
        if k == "int":
            return self
        return SInt(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

    def __floor__(self):
        k, t = num_term(self)
        return self if k == "int" else SInt(z3.ToInt(t))

    def __ceil__(self):
        k, t = num_term(self)
        return self if k == "int" else SInt(-z3.ToInt(-t))


class SInt(SNum):
    __slots__ = ()

    def __and__(self, o): raise Unsupported("bitwise on symbolic int")
    __or__ = __xor__ = __lshift__ = __rshift__ = __rand__ = __ror__ = __and__


class SReal(SNum):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return E.decide(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == bterm(o))
        n = num_term(o)
        if n is not None:
            return SInt(num_term(self)[1]) == o
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else SBool(z3.Not(r.t)))
    __hash__ = Sym.__hash__

    def _asint(self):
        return SInt(num_term(self)[1])

    def __add__(self, o): return self._asint() + o
    def __radd__(self, o): return o + self._asint()
    def __int__(self): raise Unsupported("int of symbolic bool")


class SObj(Sym):
    """A value of unknown type (a user's object, value or string): only identity, equality (taken to be
    identity of the abstract value), truth and what the contract attaches to it are known."""
    __slots__ = ()

    def __eq__(self, o):
        if E.loose_eq and isinstance(o, SObj):
            return SBool(PYEQ(self.t, o.t))      # nothing is known: not even that a value equals itself
        return SBool(self.t == obj_term(o))

    def __ne__(self, o):
        if E.loose_eq and isinstance(o, SObj):
            return SBool(PYNE(self.t, o.t))
        return SBool(self.t != obj_term(o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.decide(TRUTHY(self.t))

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return E.obj_attr(self, name)

    def __call__(self, *a, **k):
        return E.obj_call(self, a, k)

    def _unsup(self, *a, **k):
        raise Unsupported("operation on a value of unknown type")

    def __add__(self, o):
        return E.obj_add(self, o)

    def __radd__(self, o):
        return E.obj_add(o, self)
    def __iter__(self):
        return E.obj_iter(self)

    def __contains__(self, x):
        for h in E.attr_handlers:
            f = h(self, "__contains__")
            if f is not NotImplemented:
                return bool(f(x))
        self._unsup()
    __len__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _unsup
    __truediv__ = __rtruediv__ = __setitem__ = __float__ = __int__ = _unsup

    def __getitem__(self, i):
        return E.obj_getitem(self, i)

    def _ord(self, o, op):
        return E.obj_order(self, o, op)

    def __lt__(self, o): return self._ord(o, "<")
    def __le__(self, o): return self._ord(o, "<=")
    def __gt__(self, o): return self._ord(o, ">")
    def __ge__(self, o): return self._ord(o, ">=")

    def __enter__(self): raise Unsupported("with on value of unknown type")
    def __exit__(self, *a): pass


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SObj):
        return TRUTHY(x.t)
    if isinstance(x, SNum):
        return x.t != 0
    if x is None:
        return z3.BoolVal(False)
    raise ContractError(f"not a boolean: {x!r}")


INT2OBJ = z3.Function("box_int", IntS, Obj)
OBJ2INT = z3.Function("unbox_int", Obj, IntS)
REAL2OBJ = z3.Function("box_real", RealS, Obj)
OBJ2REAL = z3.Function("unbox_real", Obj, RealS)
BOOL2OBJ = z3.Function("box_bool", BoolS, Obj)
OBJ2BOOL = z3.Function("unbox_bool", Obj, BoolS)
# tag: 0 unknown objects, 1 ints, 2 reals, 3 bools, 4 None/lifted python objects
TAG = z3.Function("tag", Obj, IntS)


def obj_term(x):
    """the Obj term denoting any value"""
    if isinstance(x, SObj):
        return x.t
    if x is None:
        return NONE
    if isinstance(x, (SInt, SReal, SBool)) or isinstance(x, (int, float, bool)):
        return E.box(x)
    return E.lift(x)


def wrap(kind, t):
    if kind == "int":
        return SInt(t)
    if kind == "real":
        return SReal(t)
    if kind == "bool":
        return SBool(t)
    return E.lower(t)


def kind_of(x):
    if isinstance(x, (SBool, bool)):
        return "bool"
    if isinstance(x, (SInt, int)):
        return "int"
    if isinstance(x, (SReal, float)):
        return "real"
    return "obj"


def term_of(x, kind):
    if kind == "obj":
        return obj_term(x)
    if kind == "bool":
        return bterm(x)
    n = num_term(x)
    if n is None:
        raise Unsupported(f"value {x!r} where {kind} is needed")
    if kind == "int":
        if n[0] != "int":
            raise Unsupported("real where int is needed")
        return n[1]
    return n[1] if n[0] == "real" else z3.ToReal(n[1])


SORT = {"int": IntS, "real": RealS, "bool": BoolS, "obj": Obj}


# ---------------------------------------------------------------- quantified statements

class Quant:
    """for all x1..xn of the kinds: body(x1..xn)   (body: values -> bool / SBool)"""

    def __init__(self, kinds, body, label="", step=None):
        self.kinds = tuple(kinds)
        self.body = body
        self.label = label
        self.step = step
        self.templ = None

    def inst(self, terms):
        old = E.nofork
        E.nofork = True
        try:
            return bterm(self.body(*[wrap(k, t) for k, t in zip(self.kinds, terms)]))
        finally:
            E.nofork = old


class Conj:
    """conjunction of statements (terms, Quants)"""

    def __init__(self, parts):
        self.parts = list(parts)


def flatten(stmt):
    if isinstance(stmt, Conj):
        for p in stmt.parts:
            yield from flatten(p)
    elif isinstance(stmt, (list, tuple)):
        for p in stmt:
            yield from flatten(p)
    elif isinstance(stmt, Quant):
        yield stmt
    else:
        yield bterm(stmt)


class Obligation:
    __slots__ = ("name", "hyps", "facts", "goal", "prefix", "status", "info", "seconds", "backend", "notes", "tables", "model")

    def __init__(self, name, hyps, facts, goal, prefix):
        self.name, self.hyps, self.facts, self.goal, self.prefix = name, hyps, facts, goal, prefix
        self.status, self.info, self.seconds, self.backend = None, None, 0.0, None
