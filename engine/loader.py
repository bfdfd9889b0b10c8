"""Loads the real modules of /repo (rewritten by engine.transform) for symbolic execution, with the
builtins and the library modules that have to understand symbolic values."""
import builtins
import copy as _copy
import functools
import importlib
import math as _math
import numbers
import operator
import os
import types
import weakref
import ast
import z3
from . import core
from .core import (Sym, SInt, SReal, SBool, SObj, SNum, Quant, Unsupported, ContractError, PathEnd, Obj, IntS, RealS, BoolS,
                   bterm, obj_term, kind_of, term_of, wrap, num_term)
from .containers import VList, VSet, VDict, Container, sorted_list, I
from . import loops
from .loops import SymSeq, SymRange, GenExp, to_seq, loop
from .transform import transform

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "nion.utils"


# ---------------------------------------------------------------- the _E_ object

AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
       "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "BitOr": operator.ior, "BitAnd": operator.iand,
       "BitXor": operator.ixor, "Pow": operator.ipow}


def _cls_new(cls, *a, **k):
    o = object.__new__(cls)
    if core.E is not None:
        core.E.register(o)
    return o


class EngObj:
    @staticmethod
    def cls(c):
        try:
            if c.__new__ is object.__new__ and isinstance(c, type) and not issubclass(c, BaseException):
                c.__new__ = staticmethod(_cls_new)
        except TypeError:
            pass
        return c

    @staticmethod
    def setattr(o, name, v):
        if isinstance(o, Sym):
            for h in reversed(core.E.setattr_handlers):
                if h(o, name, v) is not NotImplemented:
                    return
            raise Unsupported(f"setting attribute {name} of a value of unknown type")
        core.E.setattr(o, name, v)

    @staticmethod
    def delattr(o, name):
        if core.E.loopstack:
            raise Unsupported(f"a loop deletes the attribute {name}")
        delattr(o, name)

    @staticmethod
    def cell_write(names):
        if core.E.loopstack:
            raise Unsupported(f"a loop changes a variable of an enclosing function: {names}")

    @staticmethod
    def yielded(v):
        if core.E.loopstack:
            raise Unsupported("a generator suspended within a loop")
        return v

    @staticmethod
    def augattr(o, name, op, v):
        EngObj.setattr(o, name, AUG[op](getattr(o, name), v))

    @staticmethod
    def is_(a, b):
        if a is b:
            return True
        if isinstance(a, SObj) or isinstance(b, SObj):
            return core.E.decide(obj_term(a) == obj_term(b))
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            return core.E.decide(bterm(a) == bterm(b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            raise Unsupported("identity of symbolic numbers")
        if isinstance(a, VMethodFree) or isinstance(b, VMethodFree):
            return False
        return False

    @staticmethod
    def mklist(x):
        return VList(x)

    @staticmethod
    def mkset(x):
        return VSet(VList(x))

    @staticmethod
    def mkdict(pairs):
        r = VDict()
        for k, v in pairs:
            if k is Ellipsis:
                for k2, v2 in VDict(v).d:
                    r._set(k2, v2)
            else:
                r._set(k, v)
        return r

    @staticmethod
    def mkdictn(d):
        return VDict(d)

    listcomp = staticmethod(loops.listcomp)
    setcomp = staticmethod(loops.setcomp)
    dictcomp = staticmethod(loops.dictcomp)

    @staticmethod
    def gencomp(it, cond, elt):
        return GenExp(it, cond, elt)

    loop = staticmethod(loops.loop)

    @staticmethod
    def whileloop(site, names):
        return loops.WhileLoop(site, names)

    @staticmethod
    def fstr(*parts):
        if any(not isinstance(p, str) and (isinstance(p[0], Sym) or isinstance(p[2], Sym)) for p in parts):
            return core.E.symbolic_format(parts)
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
        return "".join(out)


    @staticmethod
    def strformat(s, *a):
        if any(isinstance(x, Sym) for x in a) and isinstance(s, str):
            r = core.E._uf("fmt<" + s + ">", a)
            core.E.add(r.t != core.NONE)
            return r
        if isinstance(s, SObj) and s.t.decl().name().split("/")[0].split("<")[0] in ("concat", "fmt"):
            r = core.E._uf("format", [s, *a])   # a built string used as template
            core.E.add(r.t != core.NONE)
            return r
        return s.format(*a)

    @staticmethod
    def strjoin(s, it):
        if isinstance(s, str) and isinstance(it, (VList, GenExp)):
            v = VList(it)
            if v.c is not None and not any(isinstance(x, Sym) for x in v.c):
                return s.join(v.c)
            raise Unsupported("joining symbolic strings")
        return s.join(it)


class VMethodFree:
    pass


# ---------------------------------------------------------------- builtins

class PyType:
    """stands for a builtin type: callable, and understood by isinstance"""

    def __init__(self, native, call, matches):
        self.native, self._call, self.matches = native, call, matches
        self.__name__ = native.__name__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        return getattr(self.native, n)

    def __repr__(self):
        return f"<{self.native.__name__}>"

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)

    def __getitem__(self, x):
        return self

    def __eq__(self, o):
        return o is self or o is self.native

    def __hash__(self):
        return hash(self.native)

    def __mro_entries__(self, bases):
        return (self.native,)


def py_int(x=0, *a):
    if isinstance(x, SNum):
        return x.__trunc__()
    if isinstance(x, SBool):
        return x._asint()
    if isinstance(x, SObj):
        return core.E.convert("int", x)
    return int(x, *a)


def py_float(x=0.0):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SReal):
        return x
    if isinstance(x, SBool):
        return SReal(z3.ToReal(x._asint().t))
    if isinstance(x, SObj):
        return core.E.convert("float", x)
    return float(x)


def py_bool(x=False):
    if isinstance(x, SBool):
        return x
    return bool(x)


def py_str(x="", *a):
    if isinstance(x, Sym):
        return core.E.symbolic_str(x)
    return str(x, *a)


def py_tuple(it=()):
    if isinstance(it, VList):
        if it.sym:
            return VTuple.of(it)
        return tuple(it.c)
    if isinstance(it, VTuple):
        return it
    if to_seq(it) is not None:
        return VTuple.of(VList(it))
    return tuple(it)


class VTuple(VList):
    """a tuple of symbolic length"""

    @staticmethod
    def of(v):
        r = VTuple()
        r._become(v)
        return r

    def _write(self, *a):
        raise TypeError("tuple does not support item assignment")


def m(*ts):
    return lambda x: isinstance(x, ts)


T_int = PyType(int, py_int, m(int, SInt))
T_float = PyType(float, py_float, m(float, SReal))
T_bool = PyType(bool, py_bool, m(bool, SBool))
T_str = PyType(str, py_str, lambda x: isinstance(x, str))


def py_list(it=()):
    if isinstance(it, SymSeq) and isinstance(it.elem(z3.IntVal(0)), tuple):
        return SymSeq(it.n, it.elem)        # (a copy) a list of tuples: only iterated, reversed or measured
    return VList(it)


T_list = PyType(list, py_list, lambda x: isinstance(x, (list, VList)) and not isinstance(x, VTuple))
T_set = PyType(set, VSet, m(set, VSet))
T_frozenset = PyType(frozenset, VSet, m(frozenset))
T_dict = PyType(dict, VDict, m(dict, VDict))
T_tuple = PyType(tuple, py_tuple, m(tuple, VTuple))


def one_isinstance(x, t):
    if isinstance(t, PyType):
        if isinstance(x, SObj):
            return core.E.obj_isinstance(x, t)
        return t.matches(x)
    if isinstance(t, tuple):
        return any(one_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(one_isinstance(x, y) for y in t.__args__)
    if t in NATIVE:
        return one_isinstance(x, NATIVE[t])
    if isinstance(x, (SInt, SBool)):
        return t in (numbers.Integral, numbers.Number, numbers.Real, numbers.Rational, numbers.Complex, object)
    if isinstance(x, SReal):
        return t in (numbers.Number, numbers.Real, numbers.Complex, object)
    if isinstance(x, SObj):
        return core.E.obj_isinstance(x, t)
    if isinstance(x, (VList, VDict, VSet)):
        import collections.abc as c
        nat = tuple if isinstance(x, VTuple) else list if isinstance(x, VList) else dict if isinstance(x, VDict) else set
        return issubclass(nat, t)
    return isinstance(x, t)


NATIVE = {int: T_int, float: T_float, bool: T_bool, str: T_str, list: T_list, set: T_set, dict: T_dict, tuple: T_tuple,
          frozenset: T_frozenset}


def py_len(x):
    if isinstance(x, (VList, VSet, VDict, SymRange)):
        return x.length()
    if isinstance(x, SObj):
        return core.E.obj_len(x)
    if isinstance(x, SymSeq):
        raise TypeError("object has no len()")
    if hasattr(type(x), "__len__") and isinstance(getattr(type(x), "__len__"), types.FunctionType):
        return type(x).__len__(x)
    return len(x)


def py_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if any(isinstance(x, (SReal, float)) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def py_enumerate(it, start=0):
    s = to_seq(it)
    if s is None:
        return enumerate(it, start)
    e = s.elem
    r = SymSeq(s.n, lambda k: (VList._num(k + I(start)), e(k)), s.source).iterating(s)
    return r


def py_reversed(it):
    if isinstance(it, VList) and not it.sym:
        return iter(list(reversed(it.c)))
    s = to_seq(it)
    if s is None:
        return reversed(it)
    e, n = s.elem, s.n
    r = SymSeq(n, lambda k: e(z3.simplify(n - 1 - k)))
    if isinstance(s.source, VList) and isinstance(it, VList):
        v = VList(it)
        v.reverse()
        r.source = v
    return r.iterating(s)


def py_zip(*its, strict=False):
    ss = [to_seq(i) for i in its]
    if all(s is None for s in ss):
        return zip(*its)
    raise Unsupported("zip of symbolic sequences")


def py_map(f, it, *more):
    if more:
        return VList([f(*xs) for xs in zip(it, *more)])
    if to_seq(it) is None:
        return map(f, it)
    return GenExp(it, None, f)


def py_filter(f, it):
    if to_seq(it) is None:
        return filter(f, it) if f is None or True else None
    return GenExp(it, f if f is not None else (lambda x: x), lambda x: x)


def py_sorted(it, *, key=None, reverse=False):
    return sorted_list(it, key, reverse)


def _minmax(args, key, default, lt):
    E = core.E
    if len(args) == 1:
        it = args[0]
        v = VList(it)
        if v.c is None:
            if not v:
                if default is not _ND:
                    return default
                raise ValueError("min() arg is an empty sequence")
            # the first extreme element
            w = E.fresh(IntS, "ext")
            n, at, kind = v.n, v.at, v.kind
            E.add(z3.And(w >= 0, w < n))
            kf = key or (lambda x: x)
            kw = kf(wrap(kind, at(w)))
            E.assume(Quant(["int"], lambda k: SBool(z3.Implies(
                z3.And(k.t >= 0, k.t < n),
                z3.And(z3.Not(bterm(lt(kf(wrap(kind, at(k.t))), kw))),
                       z3.Implies(k.t < w, bterm(lt(kw, kf(wrap(kind, at(k.t)))))))))))
            return wrap(kind, at(w))
        args = v.c
        if not args:
            if default is not _ND:
                return default
            raise ValueError("min() arg is an empty sequence")
    best = args[0]
    kb = key(best) if key else best
    for x in args[1:]:
        kx = key(x) if key else x
        c = lt(kx, kb)
        if isinstance(c, SBool) and isinstance(x, SNum) and isinstance(best, (SNum, int, float)) and key is None or \
                isinstance(c, SBool) and isinstance(best, SNum) and isinstance(x, (int, float)) and key is None:
            k, a, b = core.coerce(num_term(x), num_term(best))
            best = kb = core.mknum(k, z3.If(c.t, a, b))
        elif c:
            best, kb = x, kx
    return best


_ND = object()


def py_min(*args, key=None, default=_ND):
    return _minmax(args, key, default, lambda a, b: a < b)


def py_max(*args, key=None, default=_ND):
    return _minmax(args, key, default, lambda a, b: a > b)


def py_sum(it, start=0):
    src, cond, elt = (it.it, it.cond, it.elt) if isinstance(it, GenExp) else (it, None, None)
    if isinstance(src, GenExp) or to_seq(src) is None:
        r = start
        for x in it:
            r = r + x
        return r
    acc = start
    L = loop(src, "sum", {"acc": acc}, ("acc",))
    for x in L:
        if "acc" in L.loc:
            acc = L.loc["acc"]
        if cond is None or cond(x):
            acc = acc + (elt(x) if elt is not None else x)
    else:
        if "acc" in L.loc:
            acc = L.loc["acc"]
    L.done()
    return acc


def py_abs(x):
    return abs(x)


def py_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def py_callable(x):
    if isinstance(x, SObj):
        return core.E.decide(core.CALLABLE(x.t))
    return callable(x)


def py_id(x):
    if isinstance(x, SObj):
        return x
    return id(x)


def py_type(*a):
    if len(a) == 1 and isinstance(a[0], (Sym, Container)):
        x = a[0]
        if isinstance(x, VTuple): return T_tuple
        for c, t in ((VList, T_list), (VSet, T_set), (VDict, T_dict), (SInt, T_int), (SReal, T_float), (SBool, T_bool)):
            if isinstance(x, c):
                return t
        return core.E.obj_type(x)
    if len(a) == 1:
        t = type(a[0])
        return NATIVE.get(t, t)
    return type(*a)


def py_iter(x, *a):
    s = to_seq(x)
    if s is not None:
        raise Unsupported("iter of a symbolic sequence")
    return iter(x, *a)


def py_getattr(o, name, *d):
    if isinstance(o, SObj):
        return core.E.obj_getattr(o, name, *d)
    if isinstance(name, Sym):
        raise Unsupported("symbolic attribute name")
    return getattr(o, name, *d)


def py_hasattr(o, name):
    if isinstance(o, SObj):
        return core.E.obj_hasattr(o, name)
    try:
        getattr(o, name)
        return True
    except AttributeError:
        return False


def py_setattr(o, name, v):
    EngObj.setattr(o, name, v)


def py_issubclass(a, b):
    f = lambda t: t.native if isinstance(t, PyType) else t
    if isinstance(b, tuple):
        return issubclass(f(a), tuple(f(x) for x in b))
    return issubclass(f(a), f(b))


def py_print(*a, **k):
    pass


def py_hash(x):
    if isinstance(x, Sym):
        return core.E.symbolic_hash(x)
    return hash(x)


def py_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b, a % b
    return divmod(a, b)


T_type = PyType(type, py_type, m(type))
BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "int": T_int, "float": T_float, "bool": T_bool, "str": T_str, "list": T_list, "set": T_set, "dict": T_dict,
    "tuple": T_tuple, "frozenset": T_frozenset, "isinstance": one_isinstance, "len": py_len, "range": py_range,
    "enumerate": py_enumerate, "reversed": py_reversed, "sorted": py_sorted, "min": py_min, "max": py_max, "sum": py_sum,
    "abs": py_abs, "round": py_round, "any": loops.any_, "all": loops.all_, "next": loops.next_, "zip": py_zip, "map": py_map,
    "filter": py_filter, "callable": py_callable, "id": py_id, "type": T_type, "iter": py_iter, "getattr": py_getattr,
    "hasattr": py_hasattr, "setattr": py_setattr, "issubclass": py_issubclass, "print": py_print, "hash": py_hash,
    "divmod": py_divmod})


# ---------------------------------------------------------------- library modules

class Namespace(types.SimpleNamespace):
    pass


class FakeLock:
    """threading.RLock/Lock in a sequential execution: entered and left, never contended"""

    def __init__(self, *a):
        self.depth = 0

    def __enter__(self):
        self.depth += 1
        return True

    def __exit__(self, *a):
        self.depth -= 1

    def acquire(self, *a, **k):
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1

    def locked(self):
        return self.depth > 0


def deepcopy(x, memo=None):
    if memo is None:
        memo = VDict()
    if isinstance(x, Sym) or isinstance(x, PyType):
        if isinstance(x, SObj):
            return core.E.deepcopy_obj(x)
        return x
    if isinstance(x, VList):
        if x.sym:
            if x.kind == "obj":
                return core.E.deepcopy_list(x)
            return VList(x)
        return VList([deepcopy(y, memo) for y in x.c])
    if isinstance(x, VSet):
        return VSet(x)
    if isinstance(x, VDict):
        if x.sym:
            return VDict(x)
        r = VDict()
        for k, v in x.d:
            r._set(k, deepcopy(v, memo))
        return r
    if isinstance(x, tuple):
        return tuple(deepcopy(y, memo) for y in x)
    if hasattr(x, "__deepcopy__"):
        return x.__deepcopy__(memo)
    if isinstance(x, (int, float, str, bytes, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return x
    if type(x).__module__.startswith(PKG):
        y = object.__new__(type(x))
        core.E.register(y)
        memo_key = id(x)
        for k, v in vars(x).items():
            object.__setattr__(y, k, deepcopy(v, memo))
        return y
    return _copy.deepcopy(x)


def shallow(x):
    if isinstance(x, Container):
        return x.copy()
    if isinstance(x, Sym):
        return x
    if hasattr(x, "__copy__"):
        return x.__copy__()
    if type(x).__module__.startswith(PKG):
        y = object.__new__(type(x))
        core.E.register(y)
        for k, v in vars(x).items():
            object.__setattr__(y, k, v)
        return y
    return _copy.copy(x)


def make_math():
    mod = Namespace(**{k: v for k, v in vars(_math).items() if not k.startswith("__")})

    def wrapf(name):
        nat = getattr(_math, name)

        def f(*a):
            if any(isinstance(x, Sym) for x in a):
                return core.E.math(name, *a)
            return nat(*a)
        return f
    for n in ("sqrt", "sin", "cos", "tan", "atan2", "log10", "log", "pow", "exp", "hypot", "fabs", "isfinite", "isnan",
              "isinf", "degrees", "radians", "copysign", "fmod", "log2", "isclose", "prod", "dist"):
        setattr(mod, n, wrapf(n))

    def floor(x): return x.__floor__() if isinstance(x, SNum) else _math.floor(x)
    def ceil(x): return x.__ceil__() if isinstance(x, SNum) else _math.ceil(x)
    def trunc(x): return x.__trunc__() if isinstance(x, SNum) else _math.trunc(x)
    mod.floor, mod.ceil, mod.trunc = floor, ceil, trunc
    return mod


class FakeWeakRef:
    def __init__(self, o, cb=None):
        self.o, self.cb = o, cb

    def __call__(self):
        return self.o

    def kill(self):
        """the referent is released: the callback runs, then the reference is dead"""
        self.o = None
        if self.cb:
            self.cb(self)


def make_lib():
    import threading, typing, enum, copy, weakref, time, logging, uuid, datetime, collections, contextlib
    lib = {}
    lib["threading"] = Namespace(RLock=FakeLock, Lock=FakeLock, Event=threading.Event, Thread=threading.Thread,
                                 Condition=threading.Condition, current_thread=threading.current_thread,
                                 main_thread=threading.main_thread, get_ident=threading.get_ident, local=threading.local)
    lib["copy"] = Namespace(copy=shallow, deepcopy=deepcopy)
    lib["math"] = make_math()
    lib["weakref"] = Namespace(ref=FakeWeakRef, WeakSet=VSet, WeakValueDictionary=VDict, WeakKeyDictionary=VDict,
                               finalize=lambda *a, **k: None)
    lib["operator"] = operator
    return lib


# ---------------------------------------------------------------- loading

_cache = {}


def source_path(name):
    return os.path.join(REPO, "nion", "utils", name + ".py")


def compiled(name):
    if name not in _cache:
        p = source_path(name)
        with open(p) as f:
            src = f.read()
        try:
            tree = transform(src, name + ".py")
        except NotImplementedError as e:
            raise Unsupported(f"{name}.py: {e}")
        _cache[name] = compile(tree, p, "exec")
    return _cache[name]


class Loader:
    """one set of loaded modules (fresh for every path)"""

    def __init__(self, stubs=None, lib=None):
        self.mods = {}
        self.stubs = stubs or {}
        self.lib = make_lib()
        if lib:
            self.lib.update(lib)
        self.builtins = dict(BUILTINS)
        self.builtins["__import__"] = self.imp

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.mods:
            return self.mods[name]
        mod = types.ModuleType(f"{PKG}.{name}")
        mod.__file__ = source_path(name)
        mod.__package__ = PKG
        g = mod.__dict__
        g["__builtins__"] = self.builtins
        g["_E_"] = EngObj
        self.mods[name] = mod
        try:
            exec(compiled(name), g)
        except Exception as e:
            raise Unsupported(f"{name}.py cannot be loaded in the engine: {type(e).__name__}: {e}")
        return mod

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 1 or name == PKG or name.startswith(PKG + "."):
            if name.startswith(PKG + "."):
                name = name[len(PKG) + 1:]
                mod = self.load(name)
                if fromlist:
                    return mod
                raise Unsupported("import of a submodule by path")
            if level == 1 and name and name != PKG:
                return self.load(name)
            ns = Namespace()
            for f in fromlist or ():
                setattr(ns, f, self.load(f))
            return ns
        if name in self.lib:
            return self.lib[name]
        top = name.split(".")[0]
        if top in self.lib:
            return self.lib[top]
        return importlib.__import__(name, globals, locals, fromlist, level)


class ListenerStub:
    def __init__(self, ev, fn):
        self.ev, self.fn = ev, fn
        # as in the real event: a listener nobody keeps is gone
        ev.refs.append(weakref.ref(self))

    def close(self):
        self.fn = None

    @property
    def is_open(self):
        return self.fn is not None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class EventStub:
    """Event.Event by its contract (property C05): firing calls every attached open listener once, in the order of
    attachment, with the fired arguments, and swallows exceptions."""

    def __init__(self, trace=False):
        self.refs = []
        if core.E is not None:
            core.E.register(self)

    @property
    def attached(self):
        return [l for l in (r() for r in self.refs) if l is not None]

    @property
    def listener_count(self):
        return len([l for l in self.attached if l.fn is not None])

    @property
    def listeners(self):
        return VList([l for l in self.attached if l.fn is not None])

    def listen(self, fn, *, owner=None, trace=False):
        l = ListenerStub(self, fn)
        if owner is not None:
            self.owned = getattr(self, "owned", []) + [(owner, l)]
        return l

    def _fire(self, args, kw, stop):
        for l in self.attached:
            if l.fn is not None:
                try:
                    r = l.fn(*args, **kw)
                except Exception as e:
                    core.E.listener_exception(e)
                    return None
                if stop is not None and bool(r) == stop:
                    return stop
        return None if stop is None else not stop

    def fire(self, *args, **kw):
        self._fire(args, kw, None)

    def fire_any(self, *args, **kw):
        return self._fire(args, kw, True)

    def fire_all(self, *args, **kw):
        return self._fire(args, kw, False)


EVENT_STUB = Namespace(Event=EventStub, EventListener=ListenerStub)
