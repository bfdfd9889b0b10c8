"""Symbolic list, set and dict: what list, set and dict of the code under verification become.

With concrete contents they behave as Python's; with symbolic contents they are closures over
ground terms (list: length and element at a position; set: membership; dict: presence and value)."""
import z3
from . import core
from .core import (Sym, SInt, SReal, SBool, SObj, Quant, Unsupported, ContractError, PathEnd, obj_term, wrap, kind_of,
                   term_of, SORT, Obj, IntS, BoolS, bterm)


def I(x):
    """int term"""
    n = core.num_term(x)
    if n is None or n[0] != "int":
        raise TypeError(f"integer needed, got {type(x).__name__}")
    return n[1]


def concretize(idx, lo, hi):
    """fork a symbolic int over lo..hi-1 (returns None when outside)"""
    if not isinstance(idx, Sym):
        return idx if lo <= idx < hi else None
    for k in range(lo, hi):
        if core.E.decide(idx.t == k):
            return k
    return None


class Container:
    def __init__(self):
        E = core.E
        if E is None:
            self.cid = -1
        else:
            E.oid_n += 1
            self.cid = E.oid_n
            E.objs.append(self)

    def _write(self, op=None, *args):
        E = core.E
        if E is None:
            return
        if E.nofork:
            raise ContractError("container changed inside a specification")
        if getattr(self, "_moved", False):
            raise Unsupported("a set is changed under a second name")
        for L in E.loopstack:
            L.note_write(("cont", self.cid), self, op, args)

    def __repr__(self):
        return f"<{type(self).__name__} {self.cid}>"


class VList(Container):
    origin = None            # see Loop.origin

    def __init__(self, it=()):
        super().__init__()
        self.c = []
        self.n = None        # term, in symbolic mode
        self.kind = None
        self.at = None       # term -> term
        self.pos = None      # element term -> position term, for lists of distinct elements
        if isinstance(it, VList):
            self._become(it)
        elif isinstance(it, VSet):
            self._become(it.enumeration())
        elif isinstance(it, VDict):
            if it.sym:
                self._become(it.key_list())
            else:
                self.c = list(it.keys_native())
        elif hasattr(it, "as_vlist"):
            self._become(it.as_vlist())
        else:
            self.c = list(it)

    def _become(self, o):
        self.c = None if o.c is None else list(o.c)
        self.n, self.kind, self.at, self.pos = o.n, o.kind, o.at, o.pos
        self.origin = o.origin

    @staticmethod
    def symbolic(n, kind, at, pos=None):
        r = VList()
        r.c, r.n, r.kind, r.at, r.pos = None, n, kind, at, pos
        return r

    @property
    def sym(self):
        return self.c is None

    def _to_sym(self, kind=None):
        """turn concrete contents into closures"""
        if self.c is None:
            return
        kinds = {kind_of(x) for x in self.c}
        if kind:
            kinds.add(kind)
        k = kinds.pop() if len(kinds) == 1 else "obj"
        terms = [term_of(x, k) for x in self.c]
        self.kind = k
        self.n = z3.IntVal(len(terms))
        dflt = z3.Const("undef!" + k, SORT[k])

        def at(i, terms=tuple(terms)):
            r = dflt
            for j in range(len(terms) - 1, -1, -1):
                r = z3.If(i == j, terms[j], r)
            return z3.simplify(r) if z3.is_int_value(i) else r
        self.at = at
        self.c = None
        self.pos = None if terms else (lambda x: z3.IntVal(-1))

    # -- length, access
    def length(self):
        return len(self.c) if self.c is not None else self._num(self.n)

    @staticmethod
    def _num(t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def nterm(self):
        return z3.IntVal(len(self.c)) if self.c is not None else self.n

    def __len__(self):
        n = self.length()
        if isinstance(n, Sym):
            raise Unsupported("native length of a symbolic list")
        return n

    def __bool__(self):
        if self.c is not None:
            return bool(self.c)
        return core.E.decide(self.n > 0)

    def elem(self, k):
        """element at a position, for specifications (no bounds check)"""
        if self.c is not None:
            if isinstance(k, Sym):
                v = VList(self)
                v._to_sym()
                return wrap(v.kind, v.at(k.t))
            return self.c[k]
        return wrap(self.kind, self.at(I(k)))

    def term_at(self, kt):
        if self.c is not None:
            v = VList(self)
            v._to_sym("obj")
            return v.at(kt)
        return self.at(kt)

    def _norm(self, idx):
        """position for a get/set/delete index, raising IndexError"""
        E = core.E
        it, n = I(idx), self.n
        if E.decide(z3.And(it >= 0, it < n)):
            return it
        if E.decide(z3.And(it < 0, it >= -n)):
            return z3.simplify(it + n)
        raise IndexError("list index out of range")

    def _slice(self, s):
        E = core.E
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            if isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
                v = VList(self)
                v.reverse()
                return v
            raise Unsupported("slice with step on a symbolic list")
        n = self.n

        def clamp(x, d):
            if x is None:
                return d
            t = I(x)
            if E.decide(z3.And(t >= 0, t <= n)):
                return t
            return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        a, b = clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)
        ln = b - a if (s.stop is None or s.start is None) else z3.If(b > a, b - a, z3.IntVal(0))
        at, pos = self.at, self.pos
        a = z3.simplify(a)
        return VList.symbolic(z3.simplify(ln), self.kind, lambda k: at(k + a), (lambda x: pos(x) - a) if pos else None)

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            if self.c is not None and not any(isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step)):
                return VList(self.c[idx])
            self._to_sym()
            return self._slice(idx)
        if self.c is not None:
            if isinstance(idx, Sym):
                k = concretize(idx, -len(self.c), len(self.c))
                if k is None:
                    raise IndexError("list index out of range")
                return self.c[k]
            return self.c[idx]
        return wrap(self.kind, self.at(self._norm(idx)))

    def _kindcheck(self, x):
        """make sure x can be stored"""
        if kind_of(x) != self.kind and self.kind != "obj":
            if self.kind == "real" and kind_of(x) == "int":
                return
            old, k = self.at, self.kind
            self.at = lambda i: obj_term(wrap(k, old(i)))
            self.kind = "obj"
            self.pos = None

    def __setitem__(self, idx, x):
        if isinstance(idx, slice):
            if self.c is not None and not isinstance(x, Sym):
                xs = VList(x)
                if xs.c is not None:
                    self._write("assign")
                    self.c[idx] = xs.c
                    return
            if idx.step is not None:
                raise Unsupported("slice assignment with a step on a symbolic list")
            xs = VList(x)
            if xs.c is not None and len(xs.c) == 1 and idx.start is not None and idx.stop is not None and bool(idx.start == idx.stop):
                self.insert(idx.start, xs.c[0])
                return
            self._replace_slice(idx, xs)
            return
        if self.c is not None:
            k = concretize(idx, -len(self.c), len(self.c)) if isinstance(idx, Sym) else idx
            if k is None:
                raise IndexError("list assignment index out of range")
            self._write("set")
            self.c[k] = x
            return
        p = self._norm(idx)
        self._kindcheck(x)
        t, at = term_of(x, self.kind), self.at
        self._write("set")
        self.at = lambda k: z3.If(k == p, t, at(k))
        self.pos = None

    def _replace_slice(self, s, xs):
        self._to_sym()
        a = self._slice(slice(None, s.start)) if s.start is not None else VList()
        rest = self._slice(slice(s.start, s.stop))
        b = self._slice(slice(VList._num(z3.simplify((a.n if a.c is None else z3.IntVal(0)) + rest.n)), None))
        a.extend(xs)
        a.extend(b)
        self._write("assign")
        self._become(a)

    def insert(self, idx, x):
        E = core.E
        if self.c is not None:
            if isinstance(idx, Sym):
                m = len(self.c)
                k = concretize(idx, -m, m + 1)
                if k is None:
                    k = m if E.decide(idx.t > 0) else 0
                idx = k
            i = idx
            if i < 0:
                i = max(0, i + len(self.c))
            self._write("append" if i >= len(self.c) else "insert", x)
            self.c.insert(i, x)
            return
        it, n = I(idx), self.n
        if E.decide(z3.And(it >= 0, it <= n)):
            p = it
        else:
            p = z3.simplify(z3.If(it < 0, z3.If(it + n < 0, z3.IntVal(0), it + n), n))
        self._kindcheck(x)
        t, at, pos = term_of(x, self.kind), self.at, self.pos
        if pos is not None:
            if E.entails(z3.Not(self._member(t)), quick=True):
                self.pos = lambda y: z3.If(y == t, p, z3.If(pos(y) >= p, pos(y) + 1, pos(y)))
            else:
                self.pos = None
        op = "insert"
        if E.loopstack and not E.feasible(p != n):
            op = "append"
        self._write(op, x)
        self.at = lambda k: z3.If(k < p, at(k), z3.If(k == p, t, at(k - 1)))
        self.n = z3.simplify(n + 1)

    def append(self, x):
        E = core.E
        if self.c is not None:
            self._write("append", x)
            self.c.append(x)
            return
        self._kindcheck(x)
        t, at, pos, n = term_of(x, self.kind), self.at, self.pos, self.n
        if pos is not None:
            if E.entails(z3.Not(self._member(t)), quick=True):
                self.pos = lambda y: z3.If(y == t, n, pos(y))
            else:
                self.pos = None
        self._write("append", x)
        self.at = lambda k: z3.If(k == n, t, at(k))
        self.n = z3.simplify(n + 1)

    def extend(self, other):
        o = VList(other)
        if o.c is not None:
            for x in o.c:
                self.append(x)
            return
        self._write("extend")
        if self.c is not None:
            if not self.c:
                self._become(o)
                return
            self._to_sym(o.kind)
        if self.kind != o.kind:
            raise Unsupported("extending a list by elements of another kind")
        at, n, oat = self.at, self.n, o.at
        self.at = lambda k: z3.If(k < n, at(k), oat(k - n))
        self.n = z3.simplify(n + o.n)
        self.pos = None

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __add__(self, other):
        if not isinstance(other, (VList, list)):
            return NotImplemented
        r = VList(self)
        r.extend(other)
        return r

    def __mul__(self, k):
        if self.c is not None and isinstance(k, int):
            return VList(self.c * k)
        if self.c is not None and len(self.c) == 1 and isinstance(k, SInt):
            x = self.c[0]
            kd = kind_of(x)
            t = term_of(x, kd)
            n = z3.If(k.t > 0, k.t, z3.IntVal(0))
            return VList.symbolic(n, kd, lambda i: t)
        raise Unsupported("list repetition")
    __rmul__ = __mul__

    def pop(self, idx=-1):
        if self.c is not None:
            if isinstance(idx, Sym):
                k = concretize(idx, -len(self.c), len(self.c))
                if k is None:
                    raise IndexError("pop index out of range")
                idx = k
            self._write("pop")
            return self.c.pop(idx)
        p = self._norm(idx)
        x = wrap(self.kind, self.at(p))
        self._remove_at(p)
        return x

    def _remove_at(self, p):
        at, pos, n = self.at, self.pos, self.n
        self._write("pop")
        self.at = lambda k: z3.If(k < p, at(k), at(k + 1))
        self.n = z3.simplify(n - 1)
        if pos is not None:
            self.pos = lambda y: z3.If(pos(y) > p, pos(y) - 1, pos(y))

    def __delitem__(self, idx):
        if self.c is not None:
            if isinstance(idx, slice):
                self._write("del")
                del self.c[idx]
                return
            if isinstance(idx, Sym):
                k = concretize(idx, -len(self.c), len(self.c))
                if k is None:
                    raise IndexError("list assignment index out of range")
                idx = k
            self._write("del")
            del self.c[idx]
            return
        if isinstance(idx, slice):
            if idx.start is None and idx.stop is None and idx.step is None:
                self.clear()
                return
            if idx.step is not None:
                raise Unsupported("slice deletion with a step on a symbolic list")
            if idx.start is not None and idx.stop is not None and core.E.entails(z3.And(I(idx.start) >= 0, I(idx.start) < self.n, I(idx.stop) == I(idx.start) + 1)):
                self._remove_at(I(idx.start))
                return
            self._replace_slice(idx, VList())
            return
        self._remove_at(self._norm(idx))

    def clear(self):
        self._write("clear")
        self.c, self.n, self.at, self.pos, self.kind = [], None, None, None, None

    def _member(self, t):
        p = self.pos(t)
        return z3.And(p >= 0, p < self.n, self.at(p) == t)

    def member(self, x):
        """membership for specifications (lists of distinct elements, or concrete ones)"""
        if self.c is not None:
            r = z3.BoolVal(False)
            for y in self.c:
                r = z3.Or(r, eq_term(x, y))
            return SBool(z3.simplify(r))
        if self.pos is None:
            raise ContractError("membership of a symbolic list in a specification")
        return SBool(self._member(term_of(x, self.kind)))

    def _find(self, x):
        """position term of the first occurrence, or None (forks)"""
        E = core.E
        if self.kind != "obj" and kind_of(x) != self.kind:
            if not (self.kind == "real" and kind_of(x) == "int"):
                raise Unsupported("search for a value of another kind")
        t = term_of(x, self.kind)
        loose = E.loose_eq and self.kind == "obj"
        if self.pos is not None and not loose:
            if E.decide(self._member(t)):
                return self.pos(t)
            return None
        w = E.fresh(IntS, "at")
        b = E.fresh(BoolS, "in")
        at, n = self.at, self.n
        same = (lambda y: z3.Or(y == t, core.PYEQ(y, t))) if loose else (lambda y: y == t)
        E.add(z3.Implies(b, z3.And(w >= 0, w < n, same(at(w)))))
        E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n, same(at(k.t))), b))))
        E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(b, k.t >= 0, k.t < w), z3.Not(same(at(k.t)))))))
        if E.decide(b):
            return w
        return None

    def __contains__(self, x):
        if self.c is not None:
            return any(y is x or bool(y == x) for y in self.c)
        return self._find(x) is not None

    def index(self, x, *a):
        if a:
            raise Unsupported("index with bounds")
        if self.c is not None:
            for i, y in enumerate(self.c):
                if y is x or bool(y == x):
                    return i
            raise ValueError("not in list")
        p = self._find(x)
        if p is None:
            raise ValueError("not in list")
        return self._num(p)

    def remove(self, x):
        i = self.index(x)
        if self.c is not None:
            self._write("remove")
            del self.c[i]
        else:
            self._remove_at(I(i))

    def count(self, x):
        if self.c is not None:
            n = 0
            for y in self.c:
                if y is x or bool(y == x):
                    n += 1
            return n
        raise Unsupported("count on symbolic list")

    def reverse(self):
        self._write("reverse")
        if self.c is not None:
            self.c.reverse()
            return
        at, pos, n = self.at, self.pos, self.n
        self.at = lambda k: at(n - 1 - k)
        if pos is not None:
            self.pos = lambda x: n - 1 - pos(x)

    def copy(self):
        return VList(self)
    __copy__ = copy

    def sort(self, *, key=None, reverse=False):
        self._write("sort")
        self._become(sorted_list(self, key, reverse))

    def __iter__(self):
        if self.c is not None:
            # as Python's list iterator: sees changes made while iterating
            def gen(lst):
                i = 0
                while lst.c is not None and i < len(lst.c):
                    yield lst.c[i]
                    i += 1
                if lst.c is None:
                    raise Unsupported("list became symbolic while iterated")
            return gen(self)
        raise Unsupported("native iteration of a symbolic list")

    def __reversed__(self):
        v = VList(self)
        v.reverse()
        return v

    def __eq__(self, o):
        if isinstance(o, list):
            o = VList(o)
        if not isinstance(o, VList):
            return False
        if self.c is not None and o.c is not None:
            if len(self.c) != len(o.c):
                return False
            return all(x is y or bool(x == y) for x, y in zip(self.c, o.c))
        return seq_equal(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def _snapshot(self):
        return (None if self.c is None else list(self.c), self.n, self.kind, self.at, self.pos)

    def _restore(self, s):
        self.c, self.n, self.kind, self.at, self.pos = (None if s[0] is None else list(s[0])), *s[1:]


def eq_term(x, y):
    if isinstance(x, (SInt, SReal)) or isinstance(y, (SInt, SReal)):
        if core.num_term(x) is not None and core.num_term(y) is not None:
            return bterm(x == y)
        if not isinstance(x, SObj) and not isinstance(y, SObj):
            return z3.BoolVal(False)
    if isinstance(x, Sym) or isinstance(y, Sym):
        return obj_term(x) == obj_term(y)
    return z3.BoolVal(x is y or bool(x == y))


def seq_equal(a, b):
    E = core.E
    a, b = VList(a), VList(b)
    k = b.kind if a.c is not None and not a.c else a.kind
    a._to_sym(k)
    b._to_sym(a.kind)
    if a.kind != b.kind:
        raise Unsupported("comparing lists of different kinds")
    eq = E.fresh(BoolS, "seqeq")
    w = E.fresh(IntS, "diff")
    an, bn, aat, bat = a.n, b.n, a.at, b.at
    same = (lambda x, y: z3.Or(x == y, core.PYEQ(x, y))) if E.loose_eq and a.kind == "obj" else (lambda x, y: x == y)
    E.add(z3.Implies(eq, an == bn))
    E.add(z3.Implies(z3.Not(eq), z3.Or(an != bn, z3.And(w >= 0, w < an, z3.Not(same(aat(w), bat(w)))))))
    E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(eq, k.t >= 0, k.t < an), same(aat(k.t), bat(k.t))))))
    return E.decide(eq)


def sorted_list(it, key=None, reverse=False):
    """stable sort"""
    E = core.E
    v = VList(it)
    if isinstance(reverse, SBool) or isinstance(reverse, SObj):
        reverse = bool(reverse)
    if v.c is not None:
        keys = [x if key is None else key(x) for x in v.c]
        if not any(isinstance(k, Sym) or (isinstance(k, tuple) and any(isinstance(y, Sym) for y in k)) for k in keys):
            order = sorted(range(len(keys)), key=lambda i: keys[i], reverse=bool(reverse))
            return VList([v.c[i] for i in order])
        # insertion sort by forking
        out = []
        for x, k in zip(v.c, keys):
            j = len(out)
            while j > 0 and (bool(out[j - 1][1] < k) if reverse else bool(k < out[j - 1][1])):
                j -= 1
            out.insert(j, (x, k))
        return VList([x for x, _ in out])
    n, kind, at, pos = v.n, v.kind, v.at, v.pos
    perm = E.fresh_fn("perm", IntS, IntS)
    inv = E.fresh_fn("iperm", IntS, IntS)
    rng = lambda k: z3.And(k >= 0, k < n)
    E.assume(Quant(["int"], lambda k: SBool(z3.Implies(rng(k.t), z3.And(rng(perm(k.t)), inv(perm(k.t)) == k.t)))))
    E.assume(Quant(["int"], lambda k: SBool(z3.Implies(rng(k.t), z3.And(rng(inv(k.t)), perm(inv(k.t)) == k.t)))))

    def keyof(t):
        x = wrap(kind, t)
        return x if key is None else key(x)
    nat = lambda k: at(perm(k))

    def ordered(i, j):
        ki, kj = keyof(nat(i.t)), keyof(nat(j.t))
        lt = bterm(kj < ki) if not reverse else bterm(ki < kj)
        return SBool(z3.Implies(z3.And(i.t >= 0, i.t < j.t, j.t < n),
                                z3.And(z3.Not(lt),
                                       z3.Implies(bterm(ki == kj), perm(i.t) < perm(j.t)))))
    E.assume(Quant(["int", "int"], ordered))
    return VList.symbolic(n, kind, nat, (lambda x: inv(pos(x))) if pos is not None else None)


class VSet(Container):
    def __init__(self, it=()):
        super().__init__()
        self.c = set()
        self.mem = None     # term -> Bool term
        self.kind = None
        self._memo = {}
        if isinstance(it, VSet):
            self._become(it)
        else:
            self._fill(it)

    def _become(self, o):
        self.c = None if o.c is None else set(o.c)
        self.mem, self.kind = o.mem, o.kind
        self._memo = o._memo if self.c is None else {}

    def _fill(self, it):
        v = it if isinstance(it, VList) else VList(it)
        if v.c is not None:
            for x in v.c:
                self._add(x)
            return
        E = core.E
        n, kind, at, pos = v.n, v.kind, v.at, v.pos
        self.c = None
        self.kind = kind
        if pos is not None:
            self.mem = lambda t: z3.And(pos(t) >= 0, pos(t) < n, at(pos(t)) == t)
            self._memo = {"list": v}
            return
        M = E.fresh_fn("mem", SORT[kind], BoolS)
        W = E.fresh_fn("wit", SORT[kind], IntS)
        self.mem = M
        E.assume(Quant([kind], lambda x: SBool(z3.Implies(M(x.t), z3.And(W(x.t) >= 0, W(x.t) < n, at(W(x.t)) == x.t)))
                       if isinstance(x, Sym) else True))
        E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n), M(at(k.t))))))

    @staticmethod
    def symbolic(kind, mem):
        r = VSet()
        r.c, r.kind, r.mem = None, kind, mem
        return r

    @property
    def sym(self):
        return self.c is None

    def _to_sym(self, kind):
        if self.c is not None:
            kinds = {kind_of(x) for x in self.c} | {kind}
            k = kinds.pop() if len(kinds) == 1 else "obj"
            terms = [term_of(x, k) for x in self.c]
            self.kind, self.c = k, None
            self.mem = lambda t: z3.Or([t == e for e in terms]) if terms else z3.BoolVal(False)
            self._memo = {}
        elif self.kind != kind and self.kind != "obj":
            raise Unsupported("set of mixed kinds")

    def member(self, x):
        """membership for specifications"""
        if self.c is not None:
            if not isinstance(x, Sym):
                return x in self.c
            return SBool(z3.simplify(z3.Or([eq_term(x, y) for y in self.c]) if self.c else z3.BoolVal(False)))
        return SBool(self.mem(term_of(x, self.kind)))

    def __contains__(self, x):
        if self.c is not None and not isinstance(x, Sym):
            return x in self.c
        if x is None and self.c is None and self.kind in ("int", "real"):
            return False
        return core.E.decide(bterm(self.member(x)))

    def _add(self, x):
        if self.c is not None and not isinstance(x, Sym):
            self.c.add(x)
            return
        self._to_sym(kind_of(x))
        t, mem = term_of(x, self.kind), self.mem
        self.mem = lambda y: z3.Or(y == t, mem(y))
        self._memo = {}

    def add(self, x):
        self._write("add", x)
        self._add(x)

    def _discard(self, x):
        if self.c is not None and not isinstance(x, Sym):
            self.c.discard(x)
            return
        self._to_sym(kind_of(x))
        t, mem = term_of(x, self.kind), self.mem
        self.mem = lambda y: z3.And(y != t, mem(y))
        self._memo = {}

    def discard(self, x):
        self._write("discard", x)
        self._discard(x)

    def remove(self, x):
        if x not in self:
            raise KeyError(x if not isinstance(x, Sym) else "symbolic")
        self.discard(x)

    def pop(self):
        if self.c is not None:
            self._write("pop")
            return self.c.pop()
        l = self.enumeration()
        if not l:
            raise KeyError("pop from an empty set")
        x = l.elem(0)
        self.discard(x)
        return x

    def clear(self):
        self._write("clear")
        self.c, self.mem, self.kind, self._memo = set(), None, None, {}

    def update(self, *others):
        for o in others:
            o = o if isinstance(o, VSet) else VSet(o)
            self._write("update")
            if o.c is not None:
                for x in o.c:
                    self._add(x)
            else:
                self._to_sym(o.kind)
                m1, m2 = self.mem, o.mem
                if self.kind != o.kind:
                    raise Unsupported("set of mixed kinds")
                self.mem = lambda y: z3.Or(m1(y), m2(y))
                self._memo = {}

    def __ior__(self, o):
        self.update(o)
        return self

    def _comb(self, o, f, native):
        o = o if isinstance(o, VSet) else VSet(o)
        if self.c is not None and o.c is not None:
            return VSet(native(self.c, o.c))
        a, b = VSet(self), VSet(o)
        k = a.kind or b.kind
        a._to_sym(k)
        b._to_sym(k)
        m1, m2 = a.mem, b.mem
        return VSet.symbolic(k, lambda y: f(m1(y), m2(y)))

    def __or__(self, o): return self._comb(o, lambda p, q: z3.Or(p, q), lambda p, q: p | q)
    def __and__(self, o): return self._comb(o, lambda p, q: z3.And(p, q), lambda p, q: p & q)
    def __sub__(self, o): return self._comb(o, lambda p, q: z3.And(p, z3.Not(q)), lambda p, q: p - q)
    def __xor__(self, o): return self._comb(o, lambda p, q: z3.Xor(p, q), lambda p, q: p ^ q)
    def _mut(self, r):
        self._write("assign")
        self._become(r)
        return self
    def __isub__(self, o): return self._mut(self - o)
    def __iand__(self, o): return self._mut(self & o)
    def __ixor__(self, o): return self._mut(self ^ o)
    def union(self, *os):
        r = VSet(self)
        for o in os:
            r = r | VSet(o)
        return r
    def difference(self, *os):
        r = VSet(self)
        for o in os:
            r = r - VSet(o)
        return r
    def intersection(self, *os):
        r = VSet(self)
        for o in os:
            r = r & VSet(o)
        return r
    def symmetric_difference(self, o): return self ^ VSet(o)
    def difference_update(self, *os): self._mut(self.difference(*os))
    def intersection_update(self, *os): self._mut(self.intersection(*os))
    def issubset(self, o): return not bool(self - VSet(o))
    def issuperset(self, o): return not bool(VSet(o) - self)
    def isdisjoint(self, o): return not bool(self & VSet(o))
    def _settype(self, o):
        return isinstance(o, (VSet, set, frozenset))
    def __le__(self, o): return self.issubset(o) if self._settype(o) else NotImplemented
    def __ge__(self, o): return self.issuperset(o) if self._settype(o) else NotImplemented
    def __lt__(self, o): return (self.issubset(o) and not self.issuperset(o)) if self._settype(o) else NotImplemented
    def __gt__(self, o): return (self.issuperset(o) and not self.issubset(o)) if self._settype(o) else NotImplemented

    def copy(self):
        return VSet(self)
    __copy__ = copy

    def length(self):
        if self.c is not None:
            return len(self.c)
        if "card" not in self._memo:
            if "list" in self._memo:
                self._memo["card"] = self._memo["list"].n
                return VList._num(self._memo["card"])
            E = core.E
            c = E.fresh(IntS, "card")
            e1, e2 = E.fresh(SORT[self.kind], "m"), E.fresh(SORT[self.kind], "m")
            mem = self.mem
            E.add(c >= 0)
            E.add(z3.Implies(c >= 1, mem(e1)))
            E.add(z3.Implies(c >= 2, z3.And(mem(e2), e1 != e2)))
            K = self.kind
            E.assume(Quant([K], lambda x: SBool(z3.Implies(c == 0, z3.Not(mem(term_of(x, K)))))))
            E.assume(Quant([K], lambda x: SBool(z3.Implies(z3.And(c == 1, mem(term_of(x, K))), term_of(x, K) == e1))))
            self._memo["card"] = c
        return SInt(self._memo["card"])

    def __len__(self):
        n = self.length()
        if isinstance(n, Sym):
            raise Unsupported("native length of a symbolic set")
        return n

    def __bool__(self):
        if self.c is not None:
            return bool(self.c)
        return core.E.decide(I(self.length()) > 0)

    def enumeration(self):
        """the elements as a list, in an arbitrary order (the same order while the set is unchanged)"""
        if self.c is not None:
            return VList(list(self.c))
        if "list" not in self._memo:
            E = core.E
            n = I(self.length())
            K, mem = self.kind, self.mem
            at = E.fresh_fn("en", IntS, SORT[K])
            pos = E.fresh_fn("enpos", SORT[K], IntS)
            E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n),
                                                                z3.And(mem(at(k.t)), pos(at(k.t)) == k.t)))))
            E.assume(Quant([K], lambda x: SBool(z3.Implies(mem(term_of(x, K)),
                                                           z3.And(pos(term_of(x, K)) >= 0, pos(term_of(x, K)) < n,
                                                                  at(pos(term_of(x, K))) == term_of(x, K))))))
            self._memo["list"] = VList.symbolic(n, K, at, pos)
        return VList(self._memo["list"])

    def __iter__(self):
        if self.c is not None:
            return sized_iter(self.c, lambda: self.c, "Set")
        raise Unsupported("native iteration of a symbolic set")

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = VSet(list(o))
        if not isinstance(o, VSet):
            return False
        if self.c is not None and o.c is not None:
            return self.c == o.c
        E = core.E
        a, b = VSet(self), VSet(o)
        k = a.kind or b.kind
        a._to_sym(k)
        b._to_sym(k)
        if a.kind != b.kind:
            raise Unsupported("comparing sets of different kinds")
        eq = E.fresh(BoolS, "seteq")
        w = E.fresh(SORT[a.kind], "diff")
        m1, m2, K = a.mem, b.mem, a.kind
        E.add(z3.Implies(z3.Not(eq), m1(w) != m2(w)))
        E.assume(Quant([K], lambda x: SBool(z3.Implies(eq, m1(term_of(x, K)) == m2(term_of(x, K))))))
        return E.decide(eq)

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def _snapshot(self):
        return (None if self.c is None else set(self.c), self.mem, self.kind, dict(self._memo))

    def _restore(self, s):
        self.c, self.mem, self.kind, self._memo = (None if s[0] is None else set(s[0])), s[1], s[2], dict(s[3])


def sized_iter(c, now, what):
    """as Python's iterators of sets and dicts: fails when elements are added or removed meanwhile"""
    xs = list(c)
    for x in xs:
        yield x
        if now() is None:
            raise Unsupported("concrete collection became symbolic while iterated")
        if len(now()) != len(xs):
            raise RuntimeError(what + " changed size during iteration")


class VDict(Container):
    """association list (keys concrete or symbolic, looked up by deciding equality), or symbolic closures"""

    def __init__(self, it=(), **kw):
        super().__init__()
        self.d = []          # [key, value] pairs in insertion order
        self.has = None      # symbolic: key term -> Bool term
        self.get_ = None     # symbolic: key term -> value
        self.keykind = None
        self.order = None
        if isinstance(it, VDict):
            self._become(it)
        elif isinstance(it, dict):
            self.d = [[k, v] for k, v in it.items()]
        elif hasattr(it, "keys") and not isinstance(it, VList):
            for k in it.keys():
                self._set(k, it[k])
        else:
            for kv in it:
                k, v = kv
                self._set(k, v)
        for k, v in kw.items():
            self._set(k, v)

    def _become(self, o):
        self.d = [list(p) for p in o.d] if o.d is not None else None
        self.has, self.get_, self.keykind, self.order = o.has, o.get_, o.keykind, o.order

    @staticmethod
    def symbolic(has, get, keykind="obj"):
        r = VDict()
        r.d, r.has, r.get_, r.keykind = None, has, get, keykind
        return r

    @property
    def sym(self):
        return self.d is None

    def _find(self, k):
        ks = isinstance(k, Sym)
        if not ks:
            if isinstance(k, (VList, VSet, VDict)):
                raise TypeError("unhashable type")
            for p in self.d:
                if not isinstance(p[0], Sym) and (p[0] is k or p[0] == k):
                    return p
        for p in self.d:
            if (ks or isinstance(p[0], Sym)) and core.E.decide(eq_term(p[0], k)):
                return p
        return None

    def _set(self, k, v):
        p = self._find(k)
        if p is not None:
            p[1] = v
        else:
            self.d.append([k, v])

    def __setitem__(self, k, v):
        if self.sym:
            self._write("set", k, v)
            kt, has, get = term_of(k, self.keykind), self.has, self.get_
            if not isinstance(v, Sym) and not (v is None or isinstance(v, (int, float, str))):
                raise Unsupported("storing an object in a symbolic dict")
            ot = obj_term(v)
            self.has = lambda x: z3.Or(x == kt, has(x))
            self.get_ = lambda x: core.E.lower(z3.simplify(z3.If(x == kt, ot, obj_term(get(x)))))
            self.order = None
            return
        self._write("set", k, v)
        self._set(k, v)

    def __getitem__(self, k):
        if self.sym:
            kt = term_of(k, self.keykind)
            if core.E.decide(self.has(kt)):
                return self.get_(kt)
            raise KeyError(k if not isinstance(k, Sym) else "symbolic")
        p = self._find(k)
        if p is None:
            raise KeyError(k if not isinstance(k, Sym) else "symbolic")
        return p[1]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        if self.sym:
            return core.E.decide(self.has(term_of(k, self.keykind)))
        return self._find(k) is not None

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    _none = object()

    def pop(self, k, d=_none):
        if self.sym:
            if k in self:
                v = self[k]
                del self[k]
                return v
            if d is VDict._none:
                raise KeyError("symbolic")
            return d
        p = self._find(k)
        if p is None:
            if d is VDict._none:
                raise KeyError(k if not isinstance(k, Sym) else "symbolic")
            return d
        self._write("pop")
        self.d = [q for q in self.d if q is not p]
        return p[1]

    def __delitem__(self, k):
        if self.sym:
            kt, has = term_of(k, self.keykind), self.has
            if not core.E.decide(has(kt)):
                raise KeyError("symbolic")
            self._write("del")
            self.has = lambda x: z3.And(x != kt, has(x))
            self.order = None
            return
        self.pop(k)

    def clear(self):
        self._write("clear")
        self.d, self.has, self.get_ = [], None, None

    def update(self, o=(), **kw):
        for k, v in VDict(o, **kw).d:
            self[k] = v

    def length(self):
        if self.sym:
            return self.key_list().length()
        return len(self.d)

    def __len__(self):
        return self.length()

    def __bool__(self):
        if self.sym:
            return bool(self.length() > 0)
        return bool(self.d)

    def keys_native(self):
        return [p[0] for p in self.d]

    havoc_ok = False     # a contract that describes this dict may allow loops that change it

    def _havoc(self, E):
        if not self.havoc_ok and not getattr(E, "havoc_dicts", False):
            raise Unsupported("loop changes a dict")
        K = self.keykind or "obj"
        has, get = E.fresh_fn("hhas", SORT[K], BoolS), E.fresh_fn("hget", SORT[K], Obj)
        self.d, self.has, self.keykind, self.order = None, has, K, None
        self.get_ = lambda x: E.lower(get(x))

    def key_list(self):
        """the keys in an arbitrary order (the same one while the dict is unchanged)"""
        if self.order is None:
            self.order = VSet.symbolic(self.keykind, self.has).enumeration()
        return VList(self.order)

    def keys(self):
        return DictView(self, self.key_list() if self.sym else [p[0] for p in self.d])

    def values(self):
        if self.sym:
            l, get = self.key_list(), self.get_
            return DictView(self, VList.symbolic(l.n, "obj", lambda k: obj_term(get(l.at(k)))))
        return DictView(self, [p[1] for p in self.d])

    def items(self):
        if self.sym:
            from .loops import SymSeq
            l, get, kind = self.key_list(), self.get_, self.keykind
            r = SymSeq(l.n, lambda k: (wrap(kind, l.at(k)), get(l.at(k))))
            r.watch = (self,)
            return r
        return DictView(self, [(p[0], p[1]) for p in self.d])

    def __iter__(self):
        if self.sym:
            raise Unsupported("iteration of symbolic dict")
        return sized_iter([p[0] for p in self.d], lambda: self.d, "dictionary")

    def copy(self):
        return VDict(self)
    __copy__ = copy

    def __or__(self, o):
        r = VDict(self)
        r.update(o)
        return r

    def __eq__(self, o):
        if isinstance(o, dict):
            o = VDict(o)
        if not isinstance(o, VDict):
            return False
        if self.sym or o.sym:
            raise Unsupported("comparing symbolic dicts")
        if len(self.d) != len(o.d):
            return False
        for k, v in self.d:
            p = o._find(k)
            if p is None or not (p[1] is v or bool(p[1] == v)):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def _snapshot(self):
        return (None if self.d is None else [list(p) for p in self.d], self.has, self.get_, self.keykind, self.order)

    def _restore(self, s):
        self.d = None if s[0] is None else [list(p) for p in s[0]]
        self.has, self.get_, self.keykind, self.order = s[1:]


class DictView(VList):
    def __init__(self, of, it):
        super().__init__(it)
        self.of = of

    def __iter__(self):
        if self.c is None:
            return super().__iter__()
        return sized_iter(self.c, lambda: self.of.d, "dictionary")


class VRel(VDict):
    """a symbolic dict whose values are sets: keys (has) and a relation between keys and elements"""

    def __init__(self, has, rel):
        Container.__init__(self)
        self.d, self.has, self.rel, self.keykind, self.order, self.ver = None, has, rel, "obj", None, 0
        self.get_ = self.view

    def view(self, kt):
        return RelView(self, kt)

    def holds(self, k, x):
        """specification: k is a key and x is in its set"""
        kt, xt = obj_term(k), obj_term(x)
        return SBool(z3.And(self.has(kt), self.rel(kt, xt)))

    def __setitem__(self, k, v):
        self._write("set", k)
        v = v if isinstance(v, VSet) else VSet(v)
        kt, has, rel = obj_term(k), self.has, self.rel
        w = VSet(v)
        w._to_sym("obj")
        mem = w.mem
        v._moved = True
        self.has = lambda x: z3.Or(x == kt, has(x))
        self.rel = lambda y, x: z3.If(y == kt, mem(x), rel(y, x))
        self.ver += 1

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        self._write("clear")
        self.has = lambda x: z3.BoolVal(False)
        self.ver += 1

    def _havoc(self, E):
        self.has = E.fresh_fn("hhas", Obj, BoolS)
        self.rel = E.fresh_fn("hrel", Obj, Obj, BoolS)
        self.ver += 1

    def _snapshot(self):
        return (self.has, self.rel)

    def _restore(self, s):
        self.has, self.rel = s


class RelView(VSet):
    """the set stored under one key of a VRel"""

    def __init__(self, parent, kt):
        object.__setattr__(self, "parent", parent)
        object.__setattr__(self, "kt", kt)
        Container.__init__(self)
        self.__dict__["c"], self.__dict__["kind"] = None, "obj"
        self.__dict__["memo"] = (None, None)

    def _write(self, op=None, *args):
        self.parent._write("elem", self.kt)

    @property
    def mem(self):
        rel, kt = self.parent.rel, self.kt
        return lambda x: rel(kt, x)

    @mem.setter
    def mem(self, f):
        p, kt, rel = self.parent, self.kt, self.parent.rel
        p.rel = lambda y, x: z3.If(y == kt, f(x), rel(y, x))
        p.ver += 1

    @property
    def _memo(self):
        ver, m = self.__dict__["memo"]
        if ver != self.parent.ver:
            m = {}
            self.__dict__["memo"] = (self.parent.ver, m)
        return m

    @_memo.setter
    def _memo(self, m):
        self.__dict__["memo"] = (self.parent.ver, m)

    def clear(self):
        self._write("clear")
        self.mem = lambda x: z3.BoolVal(False)


class VFam(VDict):
    """a symbolic dict whose values are lists of objects: presence, length and element at a position per key"""

    def __init__(self, has, ln, cat):
        Container.__init__(self)
        self.d, self.has, self.ln, self.cat, self.keykind, self.order = None, has, ln, cat, "obj", None
        self.get_ = self.view

    def view(self, kt):
        return FamView(self, kt)

    def get(self, k, d=None):
        if isinstance(d, (VList, list)) and not d:
            # an absent list reads as an empty one
            kt, has, ln, cat = obj_term(k), self.has, self.ln, self.cat
            return VList.symbolic(z3.If(has(kt), ln(kt), z3.IntVal(0)), "obj", lambda j: cat(kt, j))
        return VDict.get(self, k, d)

    def __setitem__(self, k, v):
        self._write("set", k)
        v = v if isinstance(v, VList) else VList(v)
        kt, has, ln, cat = obj_term(k), self.has, self.ln, self.cat
        w = VList(v)
        w._to_sym("obj")
        wn, wat = w.n, w.at
        v._moved = True
        self.has = lambda x: z3.Or(x == kt, has(x))
        self.ln = lambda x: z3.If(x == kt, wn, ln(x))
        self.cat = lambda x, j: z3.If(x == kt, wat(j), cat(x, j))

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        self._write("clear")
        self.has = lambda x: z3.BoolVal(False)

    def _havoc(self, E):
        self.has = E.fresh_fn("hhas", Obj, BoolS)
        self.ln = E.fresh_fn("hlen", Obj, IntS)
        self.cat = E.fresh_fn("hcat", Obj, IntS, Obj)

    def _snapshot(self):
        return (self.has, self.ln, self.cat)

    def _restore(self, s):
        self.has, self.ln, self.cat = s


class FamView(VList):
    """the list stored under one key of a VFam"""

    def __init__(self, parent, kt):
        self.__dict__["parent"], self.__dict__["kt"] = parent, kt
        Container.__init__(self)
        self.__dict__["c"], self.__dict__["kind"], self.__dict__["pos"] = None, "obj", None

    def _write(self, op=None, *args):
        self.parent._write("elem", self.kt)

    @property
    def n(self):
        return self.parent.ln(self.kt)

    @n.setter
    def n(self, t):
        p, kt, ln = self.parent, self.kt, self.parent.ln
        p.ln = lambda x: z3.If(x == kt, t, ln(x))

    @property
    def at(self):
        cat, kt = self.parent.cat, self.kt
        return lambda j: cat(kt, j)

    @at.setter
    def at(self, f):
        p, kt, cat = self.parent, self.kt, self.parent.cat
        p.cat = lambda x, j: z3.If(x == kt, f(j), cat(x, j))

    def clear(self):
        self._write("clear")
        self.n = z3.IntVal(0)
