"""Loops over symbolic collections and symbolic while loops: proved by invariants.

An arbitrary iteration is verified from a state in which everything the body writes is unknown except
for the invariant; after the loop only the invariant at the last iteration is known.  Invariants come
from (1) exact summaries of accumulating bodies, (2) a small set of templates, (3) the hints of the
contract; (2) and (3) are candidates: those not provable at entry or not preserved are dropped until
the rest is inductive (Houdini)."""
import sys
import os
import z3
from . import core
from .core import (Sym, SInt, SReal, SBool, SObj, Quant, Conj, PathEnd, Unsupported, ContractError, Restart, Obj, IntS,
                   BoolS, RealS, SORT, bterm, obj_term, kind_of, term_of, wrap)
from .containers import VList, VSet, VDict, VRel, DictView, Container, I


LOOPDBG = os.environ.get("VERIF_LOOPDBG")


def attr_now(o, name):
    """an attribute, without the class's __getattr__"""
    try:
        return object.__getattribute__(o, name)
    except AttributeError:
        return None


class SymSeq:
    """a sequence of symbolic length: elem(position term) -> value"""

    watch = ()          # containers that must not change while this is iterated
    lazy = False        # elements were computed before the loop but Python computes them during it

    def __init__(self, n, elem, source=None, off=None):
        self.n, self.elem, self.source = n, elem, source
        if source is not None:
            self.watch = (source,)

    def iterating(self, s):
        self.watch, self.lazy = s.watch, s.lazy
        return self

    def as_vlist(self):
        probe = self.elem(z3.IntVal(0))
        if isinstance(probe, tuple):
            raise Unsupported("list of tuples of symbolic length")     # see py_list: kept as a sequence
        kind = kind_of(probe)
        e = self.elem
        return VList.symbolic(self.n, kind, lambda k: term_of(e(k), kind))

    def __iter__(self):
        raise Unsupported("native iteration of a symbolic sequence")


class SymRange(SymSeq):
    def __init__(self, start, stop, step):
        s, e = I(start), I(stop)
        if not isinstance(step, int) or step == 0:
            raise Unsupported("range with symbolic step")
        d = (e - s) if step > 0 else (s - e)
        a = abs(step)
        n = z3.If(d > 0, d if a == 1 else (d + (a - 1)) / a, z3.IntVal(0))
        self.start, self.stop, self.step = start, stop, step
        super().__init__(z3.simplify(n), lambda k: SInt(z3.simplify(s + k * step)))

    def __contains__(self, x):
        if not isinstance(x, (int, SInt)):
            return False
        if abs(self.step) != 1:
            raise Unsupported("membership in stepped symbolic range")
        t = I(x)
        s, e = I(self.start), I(self.stop)
        return core.E.decide(z3.And(s <= t, t < e) if self.step > 0 else z3.And(s >= t, t > e))

    def length(self):
        return VList._num(self.n)

    def __len__(self):
        raise Unsupported("native len of a symbolic range")

    def __getitem__(self, i):
        return self.as_vlist()[i]


def to_seq(x):
    """SymSeq for symbolic iterables, None for concrete ones"""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, VList) and x.sym:
        at, kind = x.at, x.kind
        r = SymSeq(x.n, lambda k: wrap(kind, at(k)), x)
        if isinstance(x, DictView):
            r.watch += (x.of,)
        return r
    if isinstance(x, VSet) and x.sym:
        l = x.enumeration()
        if l.c is not None:
            return None
        at, kind = l.at, l.kind
        return SymSeq(l.n, lambda k: wrap(kind, at(k)), x)
    if isinstance(x, VDict) and x.sym:
        return to_seq(x.keys())
    if isinstance(x, GenExp):
        base = to_seq(x.it)
        r = to_seq(x.as_vlist())
        if r is not None and base is not None:
            r.watch, r.lazy = base.watch, True
        return r
    return None


class GenExp:
    def __init__(self, it, cond, elt):
        self.it, self.cond, self.elt = it, cond, elt

    def as_vlist(self):
        return listcomp(self.it, self.cond, self.elt)

    def __iter__(self):
        if to_seq(self.it) is not None:
            raise Unsupported("native iteration of a symbolic generator")
        for x in (self.it if not isinstance(self.it, Sym) else ()):
            if self.cond is None or self.cond(x):
                yield self.elt(x)

    def __next__(self):
        if not hasattr(self, "_g"):
            self._g = iter(self)
        return next(self._g)


# ---------------------------------------------------------------- state locations

def shape_of(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return ("bool",)
    if isinstance(v, (int, SInt)):
        return ("int",)
    if isinstance(v, (float, SReal)):
        return ("real",)
    if isinstance(v, SObj):
        return ("obj",)
    if isinstance(v, VList):
        if not v.sym and v.c and all(isinstance(x, (float, SReal)) for x in v.c) and any(isinstance(x, SReal) for x in v.c):
            return ("vlist", "real")
        return ("vlist", v.kind if v.sym else None)
    if isinstance(v, VSet):
        return ("vset", v.kind if v.sym else None)
    return ("const", v)


def same_shape(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "const":
        return a[1] is b[1] or (type(a[1]) is type(b[1]) and isinstance(a[1], str) and a[1] == b[1])
    return True


class LoopInfo:
    """what is known about one loop at one path prefix; survives re-execution"""

    def __init__(self):
        self.phase = 1
        self.writes = {}       # location -> list of shapes; fixed during one pass over the body
        self.found = {}        # what this pass found
        self.dropped = set()
        self.entry_ok = set()
        self.grew = False
        self.lost = False
        self.paths = []        # completed body paths of the current pass: (literals, assumes, ops per container)
        self.summary = None
        self.passes = 0
        self.havoc_syms = set()
        self.escapes = 0

    def next_pass(self):
        self.passes += 1
        if self.passes > 60:
            raise Unsupported("loop analysis does not settle")
        p = self.paths
        if self.grew:
            self.grew = False
            self.writes = {k: list(v) for k, v in self.found.items()}
            self.phase = 1
            self.summary = None
            self.dropped = set()
            self.entry_ok = set()
            self.paths = []
            return True
        if self.phase == 1:
            self.summary = p
            self.paths = []
            self.phase = 2
            return True
        if self.phase == 2:
            self.paths = []
            if self.lost:
                self.lost = False
                return True
            self.phase = 3
            return True
        self.paths = []
        if self.lost:
            self.lost = False
            self.phase = 2
            return True
        return False


class Loop:
    """one arrival at a symbolic loop"""
    symbolic = True

    def __init__(self, seq, site, loc, names):
        E = core.E
        self.E, self.seq, self.site = E, seq, site
        self.gen = ()
        self.names = [n for n in names if n in loc]
        self.init_loc = {n: loc[n] for n in self.names}
        self.loc = {}
        self.mode = None
        self.skolem = False
        self.pathfacts = []
        self.pathwrites = []
        self.discovering = False
        self.state = 0
        self.i_term = z3.IntVal(0)
        self.n = SInt(seq.n) if seq is not None else None
        self.done_called = False
        E.loops_seen.add(site)

    @property
    def i(self):
        t = z3.simplify(self.i_term)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def origin(self):
        """(src, rank) for hints: the position an element had in the list this one was filtered from, and how many of the first k of
        those are in this one"""
        o = getattr(getattr(self.seq, "source", None), "origin", None)
        return o

    # -- set-up on arrival
    def arrive(self):
        E = self.E
        self.key = E.prefix()
        info = E.loopinfos.get(self.key)
        if info is None:
            info = E.loopinfos[self.key] = LoopInfo()
        self.info = info
        self.mark = E.oid_n
        self.fresh_mark = E.fresh_n
        for n in self.names:
            self.note_shape(("local", n), self.init_loc[n], init=True)
        self.init = {}
        for loc in list(info.writes):
            if loc[0] == "attr":
                self.note_shape(loc, self.read(loc), init=True)
            elif loc[0] == "cont":
                self.note_shape(loc, E.obj_by_id(loc[1]), init=True)
            self.init[loc] = self.read(loc)
        self.init_cont = {o.cid: o._snapshot() for o in E.objs if isinstance(o, Container)
                          and ("cont", o.cid) in info.writes}
        self.now_loc = dict(self.init_loc)
        if info.phase >= 2:
            for label, fn in self.candidates():
                if label in info.dropped or label in info.entry_ok:
                    continue
                ok = self.holds(fn, label)
                (info.entry_ok.add if ok else info.dropped.add)(label)
        self.mode = E._take("loop", ["body", "exit"])
        E.loop_serial += 1
        serial = E.loop_serial
        self.i_term = z3.Int(f"iter!s{serial}") if self.mode == "body" else (
            self.seq.n if self.seq is not None else z3.Int(f"iters!s{serial}"))
        E.loopstack.append(self)
        self.skolem = False
        E.add(self.i_term >= 0)
        if self.seq is not None:
            if self.mode == "body":
                E.add(self.i_term < self.seq.n)
        f0 = E.fresh_n
        self.havoc()
        if self.mode == "body":
            self.hv = (f0, E.fresh_n)
        if info.phase >= 2:
            self.assume_summary()
            for label, fn in self.candidates():
                if label in info.entry_ok and label not in info.dropped:
                    try:
                        E.assume(self.statement(fn))
                    except (ContractError, Unsupported):
                        info.dropped.add(label)
                        info.lost = True
        self.pathfacts = []
        if self.mode == "body":
            # symbols of the body get the same names in every pass over it
            E.fresh_n = serial * 1000000
            self.skolem = True
            self.discovering = info.phase < 3
        else:
            E.loopstack.remove(self)
            if LOOPDBG:
                import sys
                print("LOOP", self.site, "writes", sorted(map(str, info.writes)), "summarised", getattr(self, "summarised", None), "paths", len(info.summary or ()), "\n    live", [l for l, _ in self.candidates() if l in info.entry_ok and l not in info.dropped],
                      "\n    entry ok, lost", [l for l, _ in self.candidates() if l in info.entry_ok and l in info.dropped], file=sys.stderr)

    def statement(self, fn):
        E = self.E
        old, E.nofork = E.nofork, True
        try:
            return fn(self)
        finally:
            E.nofork = old

    def holds(self, fn, label=""):
        try:
            return self.E.entails_stmt(self.statement(fn), quick=self.E.cand_quick and (max(3, int(self.E.cand_quick)) if "hint" in label else 1))
        except (ContractError, Unsupported):
            return False

    # -- locations
    def note_write(self, loc, obj, op, args):
        if self.mode != "body":
            return
        if loc[1] > self.mark:
            return
        self.pathwrites.append((loc, op, args))

    def note_shape(self, loc, v, init=False):
        sh = shape_of(v)
        for d in ((self.info.writes, self.info.found) if init else (self.info.found,)):
            lst = d.get(loc)
            if lst is None:
                d[loc] = [sh]
                if not init:
                    self.info.grew = True
            elif not any(same_shape(sh, s) for s in lst):
                if sh[0] == "const" and not (sh[1] is None or isinstance(sh[1], (str, type))) and \
                        any(s[0] == "const" and s[1] is not None for s in lst):
                    # different python objects per iteration: not a finite set of shapes
                    if ("obj",) not in lst:
                        lst.append(("obj",))
                        if not init:
                            self.info.grew = True
                else:
                    lst.append(sh)
                    if not init:
                        self.info.grew = True
            else:
                for k, s in enumerate(lst):
                    if same_shape(sh, s) and s[0] in ("vlist", "vset") and s[1] is None and sh[1] is not None:
                        lst[k] = sh
                        if not init:
                            self.info.grew = True

    def read(self, loc):
        if loc[0] == "local":
            return self.now_loc.get(loc[1]) if hasattr(self, "now_loc") else self.init_loc.get(loc[1])
        if loc[0] == "attr":
            return attr_now(self.E.obj_by_id(loc[1]), loc[2])
        if loc[0] == "cont":
            o = self.E.obj_by_id(loc[1])
            return VList_view(o)
        raise ContractError(str(loc))

    def fresh_value(self, shapes, name):
        E = self.E
        if any(s[0] == "obj" for s in shapes) and all(s[0] in ("obj", "const") for s in shapes):
            return SObj(E.fresh(Obj, name))
        s = shapes[0] if len(shapes) == 1 else E.pick(shapes, "sh")
        if s[0] == "const":
            return s[1]
        if s[0] == "vlist":
            v = VList()
            self.havoc_list(v, s[1])
            return v
        if s[0] == "vset":
            v = VSet()
            self.havoc_set(v, s[1])
            return v
        return wrap(s[0], E.fresh(SORT[s[0]], name))

    def havoc_list(self, v, kind):
        E = self.E
        kind = kind or "obj"
        n = E.fresh(IntS, "hn")
        E.add(n >= 0)
        v.c, v.n, v.kind, v.pos = None, n, kind, None
        v.at = E.fresh_fn("hat", IntS, SORT[kind])

    def havoc_set(self, v, kind):
        v.c, v.kind, v._memo = None, kind or "obj", {}
        v.mem = self.E.fresh_fn("hmem", SORT[kind or "obj"], BoolS)

    def havoc(self):
        E = self.E
        self.loc = {}
        for loc, shapes in self.info.writes.items():
            if loc[0] == "local":
                v = self.fresh_value(shapes, loc[1])
                self.loc[loc[1]] = v
                self.now_loc[loc[1]] = v
            elif loc[0] == "attr":
                object.__setattr__(E.obj_by_id(loc[1]), loc[2], self.fresh_value(shapes, loc[2]))
            elif loc[0] == "cont":
                o = E.obj_by_id(loc[1])
                sh = shapes[0]
                if isinstance(o, VList):
                    self.havoc_list(o, sh[1])
                    lab = f"cont:{loc[1]} distinct"
                    if self.info.phase >= 2 and lab in self.info.entry_ok and lab not in self.info.dropped:
                        o.pos = E.fresh_fn("hpos", SORT[o.kind], IntS)
                elif isinstance(o, VSet):
                    self.havoc_set(o, sh[1])
                elif hasattr(o, "_havoc"):
                    o._havoc(E)
                else:
                    raise Unsupported("loop changes a dict")

    # -- candidates
    def candidates(self):
        E, info = self.E, self.info
        out = []
        lists = []
        for loc in sorted(info.writes, key=str):
            shapes = info.writes[loc]
            nm = ":".join(str(x) for x in loc)
            if loc[0] in ("local", "attr"):
                v0 = self.init.get(loc, self.init_loc.get(loc[1]) if loc[0] == "local" else None)
                k0 = shape_of(v0)[0]
                if k0 == "int":
                    out.append((f"{nm} unchanged", lambda L, loc=loc, v0=v0: scal_eq(L.read(loc), v0)))
                    out.append((f"{nm} = initial + iterations",
                                lambda L, loc=loc, v0=v0: scal_eq(L.read(loc), v0 + L.i)))
                    out.append((f"{nm} = initial - iterations",
                                lambda L, loc=loc, v0=v0: scal_eq(L.read(loc), v0 - L.i)))
                elif k0 in ("real", "bool", "obj", "const"):
                    out.append((f"{nm} unchanged", lambda L, loc=loc, v0=v0: scal_eq(L.read(loc), v0)))
            elif loc[0] == "cont":
                o = E.obj_by_id(loc[1])
                if isinstance(o, VList):
                    lists.append(loc)
                    s0 = self.init_list(loc)
                    out.append((f"{nm} distinct", lambda L, o=o: distinct_list(o)))
                    out.append((f"{nm} length + iterations", lambda L, o=o, s0=s0: SBool(o.nterm() == s0.nterm() + I(L.i))))
                    out.append((f"{nm} length - iterations", lambda L, o=o, s0=s0: SBool(o.nterm() == s0.nterm() - I(L.i))))
                    out.append((f"{nm} unchanged", lambda L, o=o, s0=s0: list_eq(o, s0)))
                elif isinstance(o, VSet):
                    s0 = self.init_set(loc)
                    if s0 is not None:
                        out.append((f"{nm} unchanged", lambda L, o=o, s0=s0: set_eq(o, s0)))
                elif isinstance(o, VRel) and loc[1] in self.init_cont:
                    has0 = self.init_cont[loc[1]][0]
                    out.append((f"{nm} keeps its keys", lambda L, o=o, h=has0: Quant(["obj"], lambda x: SBool(z3.Implies(h(x.t), o.has(x.t))))))
                    out.append((f"{nm} gets no keys", lambda L, o=o, h=has0: Quant(["obj"], lambda x: SBool(z3.Implies(o.has(x.t), h(x.t))))))
        for a in range(len(lists)):
            for b in range(a + 1, len(lists)):
                oa, ob = E.obj_by_id(lists[a][1]), E.obj_by_id(lists[b][1])
                out.append((f"list {lists[a][1]} = list {lists[b][1]}", lambda L, oa=oa, ob=ob: list_eq(oa, ob)))
        if E.skip_templates:
            out = [c for c in out if not c[0].endswith(E.skip_templates)]
        for n, h in enumerate(E.hints):
            out.append((f"hint {n}", h))
        for n, h in enumerate(E.list_hints):
            for loc in lists:
                o = E.obj_by_id(loc[1])
                out.append((f"list hint {n} on {loc[1]}", lambda L, o=o, s0=self.init_list(loc), h=h: h(L, o, s0)))
        names = [loc for loc in sorted(info.writes, key=str) if loc[0] == "local"]
        for n, h in enumerate(E.local_hints):
            for loc in names:
                out.append((f"local hint {n} on {loc[1]}", lambda L, loc=loc, h=h: h(L, L.read(loc))))
        for n, h in enumerate(E.pair_hints):
            for la in names:
                for lb in names:
                    if la != lb:
                        out.append((f"pair hint {n} on {la[1]}, {lb[1]}", lambda L, la=la, lb=lb, h=h: h(L, L.read(la), L.read(lb))))
        for n, h in enumerate(E.int_hints):
            for loc in sorted(info.writes, key=str):
                if loc[0] == "local" and info.writes[loc] == [("int",)]:
                    out.append((f"hint {n} on {loc[1]}", lambda L, loc=loc, h=h: h(L, L.read(loc))))
                    v0 = self.init_loc.get(loc[1])
                    if isinstance(v0, (int, SInt)) and not (isinstance(v0, int) and v0 == 0):
                        out.append((f"hint {n} on {loc[1]} since start", lambda L, loc=loc, h=h, v0=v0: h(L, L.read(loc) - v0)))
        return out

    def init_list(self, loc):
        v = VList()
        v._restore(self.init_cont[loc[1]]) if loc[1] in self.init_cont else None
        if v.c is not None and self.info.writes[loc][0][1]:
            v._to_sym(self.info.writes[loc][0][1])
        return v

    def init_set(self, loc):
        v = VSet()
        if loc[1] in self.init_cont:
            v._restore(self.init_cont[loc[1]])
        return v

    # -- exact summaries of accumulating bodies
    def assume_summary(self):
        E, info = self.E, self.info
        paths = info.summary
        self.summarised = set()
        if paths is None or self.seq is None:
            return
        n, i = self.seq.n, self.i_term
        def at(term, k, pi):
            return z3.substitute(term, (pi, k))
        # every earlier iteration completed normally along one of the recorded paths
        def completed(j):
            jt = I(j)
            alts = []
            for p in paths:
                lits = [at(l, jt, p.i) for l in p.lits if not p.tainted(l)]
                lits += [at(l, jt, p.i) for l in p.assumes if not p.tainted(l)]
                alts.append(z3.And(lits) if lits else z3.BoolVal(True))
            return SBool(z3.Implies(z3.And(jt >= 0, jt < i), z3.Or(alts) if alts else z3.BoolVal(False)))
        E.assume(Quant(["int"], completed))
        # facts attached to a taken path
        for loc in info.writes:
            if loc[0] != "cont":
                continue
            o = E.obj_by_id(loc[1])
            ops = [[w for w in p.ops if w[0] == loc] for p in paths]
            clean = all(not p.tainted(l) for p in paths for l in p.lits)
            if not clean:
                continue
            if isinstance(o, VSet) and all(w[1] == "add" for pl in ops for w in pl):
                self.summarise_set(o, loc, paths, ops)
            elif isinstance(o, VList) and all(w[1] == "append" for pl in ops for w in pl) and all(len(pl) <= 1 for pl in ops):
                self.summarise_list(o, loc, paths, ops)

    def summarise_set(self, o, loc, paths, ops):
        E, n, i = self.E, self.seq.n, self.i_term
        kind = self.info.writes[loc][0][1] or "obj"
        prods = []      # (path, element term)
        for p, pl in zip(paths, ops):
            for w in pl:
                t = term_of(w[2][0], kind) if kind_of(w[2][0]) == kind or kind == "obj" else None
                if t is None or p.tainted(t):
                    return
                prods.append((p, t))
        s0 = self.init_set(loc)
        s0._to_sym(kind)
        mem0 = s0.mem
        J = E.fresh_fn("first", SORT[kind], IntS)
        taken = lambda p, k: z3.And([z3.substitute(l, (p.i, k)) for l in p.lits]) if p.lits else z3.BoolVal(True)

        def ax1(x):
            xt = term_of(x, kind)
            j = J(xt)
            return SBool(z3.And(j >= 0, z3.Implies(j < n, z3.Or([z3.And(taken(p, j), z3.substitute(t, (p.i, j)) == xt)
                                                                 for p, t in prods] or [z3.BoolVal(False)]))))

        def ax2(k):
            kt = I(k)
            cs = [z3.Implies(taken(p, kt), J(z3.substitute(t, (p.i, kt))) <= kt) for p, t in prods]
            return SBool(z3.Implies(z3.And(kt >= 0, kt < n), z3.And(cs) if cs else z3.BoolVal(True)))
        E.assume(Quant([kind], ax1))
        E.assume(Quant(["int"], ax2))
        o.c, o.kind, o._memo = None, kind, {}
        o.mem = lambda t: z3.Or(mem0(t), J(t) < i)
        self.summarised.add(loc)

    def summarise_list(self, o, loc, paths, ops):
        E, n, i = self.E, self.seq.n, self.i_term
        kind = self.info.writes[loc][0][1] or "obj"
        prods = []
        for p, pl in zip(paths, ops):
            t = None
            if pl:
                x = pl[0][2][0]
                if kind != "obj" and kind_of(x) != kind:
                    return
                t = term_of(x, kind)
                if p.tainted(t):
                    return
            prods.append((p, t))
        taken = lambda p, k: z3.And([z3.substitute(l, (p.i, k)) for l in p.lits]) if p.lits else z3.BoolVal(True)
        l0 = self.init_list(loc)
        l0._to_sym(kind)
        n0, at0 = l0.n, l0.at

        def elem(j):
            r = None
            for p, t in prods:
                if t is None:
                    continue
                tj = z3.substitute(t, (p.i, j))
                r = tj if r is None else z3.If(taken(p, j), tj, r)
            return r
        if not any(t is not None for _, t in prods):
            return
        simple = all(t is not None for _, t in prods)
        empty0 = z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0
        if not empty0 and E.entails(n0 == 0):
            empty0, n0 = True, z3.IntVal(0)
        src_list = self.seq.source if isinstance(self.seq.source, VList) else (
            self.seq.source.enumeration() if isinstance(self.seq.source, VSet) else None)
        ident = src_list is not None and src_list.pos is not None and src_list.kind == kind and all(
            t is None or t.eq(src_list.at(p.i)) for p, t in prods)
        if simple:
            cnt = src = lambda k: k
        else:
            cnt = E.fresh_fn("cnt", IntS, IntS)
            src = E.fresh_fn("src", IntS, IntS)
            app = lambda j: z3.Or([taken(p, j) for p, t in prods if t is not None])
            E.add(cnt(z3.IntVal(0)) == 0)
            E.assume(Quant(["int"], lambda j: SBool(z3.Implies(
                z3.And(j.t >= 0, j.t < n), z3.And(cnt(j.t + 1) == cnt(j.t) + z3.If(app(j.t), 1, 0),
                                                  cnt(j.t) >= 0,
                                                  z3.Implies(app(j.t), z3.And(src(cnt(j.t)) == j.t, cnt(j.t) < cnt(n)))))), step=cnt))
            E.assume(Quant(["int"], lambda k: SBool(z3.Implies(
                z3.And(k.t >= 0, k.t < cnt(n)), z3.And(src(k.t) >= 0, src(k.t) < n, app(src(k.t)), cnt(src(k.t)) == k.t)))))
            E.assume(Quant(["int", "int"], lambda a, b: SBool(z3.Implies(
                z3.And(a.t >= 0, a.t <= b.t, b.t <= n), z3.And(cnt(a.t) <= cnt(b.t), cnt(b.t) - cnt(a.t) <= b.t - a.t)))))
            E.assume(Quant(["int", "int"], lambda a, b: SBool(z3.Implies(
                z3.And(a.t >= 0, a.t < b.t, b.t < cnt(n)), src(a.t) < src(b.t)))))
            E.add(z3.And(cnt(i) >= 0, cnt(i) <= i))
        o.c, o.kind = None, kind
        o.n = z3.simplify(n0 + cnt(i))
        o.at = (lambda k: elem(src(k))) if empty0 else (lambda k: z3.If(k < n0, at0(k), elem(src(k - n0))))
        o.pos = None
        if empty0:
            up = getattr(src_list, "origin", None)
            o.origin = (src, cnt) if up is None else (lambda k: up[0](src(k)), lambda k: cnt(up[1](k)))
        if ident and empty0:
            spos, sat = src_list.pos, src_list.at
            if simple:
                o.pos = lambda x: z3.If(z3.And(spos(x) >= 0, spos(x) < i, sat(spos(x)) == x), spos(x), z3.IntVal(-1))
            else:
                o.pos = lambda x: z3.If(z3.And(spos(x) >= 0, spos(x) < i, sat(spos(x)) == x, app(spos(x))),
                                        cnt(spos(x)), z3.IntVal(-1))
        self.summarised.add(loc)

    # -- iteration protocol
    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 0:
            self.state = 1
            self.arrive()
            if self.mode == "exit":
                raise StopIteration
            x = self.seq.elem(self.i_term)
            for cond, elt in self.gen:
                if cond is not None and not cond(x):
                    fl = sys._getframe(1).f_locals
                    self.end_body({n: self.loc[n] if n in self.loc else fl[n] for n in self.names if n in self.loc or n in fl})
                    raise Unsupported("skipped element of a generator")
                x = elt(x)
            return x
        fl = sys._getframe(1).f_locals
        self.end_body({n: fl[n] for n in self.names if n in fl})

    def end_body(self, loc):
        """the body of the arbitrary iteration finished normally"""
        E, info = self.E, self.info
        it = self.i_term
        if self.seq is not None:
            watched = {("cont", c.cid) for c in self.seq.watch if isinstance(c, Container)}
            if any(w[0] in watched for w in self.pathwrites):
                raise Unsupported("collection changed while iterated")
            if self.seq.lazy and any(w[0][0] != "local" for w in self.pathwrites):
                raise Unsupported("state changed while a generator is evaluated")
        self.now_loc = dict(loc)
        for n in self.names:
            if n in loc:
                self.note_shape(("local", n), loc[n])
        for w in self.pathwrites:
            l = w[0]
            if l[0] == "attr":
                self.note_shape(l, attr_now(E.obj_by_id(l[1]), l[2]))
            elif l[0] == "cont":
                o = E.obj_by_id(l[1])
                self.note_shape(l, o)
        for l in list(info.writes):
            if l[0] == "attr":
                self.note_shape(l, attr_now(E.obj_by_id(l[1]), l[2]))
        bp = BodyPath(it, [t for k, t in self.pathfacts if k == "branch"],
                      [t for k, t in self.pathfacts if k == "assume"], list(self.pathwrites), self)
        info.paths.append(bp)
        if info.phase >= 2 and not info.grew:
            self.i_term = it + 1
            self.skolem = False
            for label, fn in self.candidates():
                if label in info.dropped or label not in info.entry_ok:
                    continue
                if not self.holds(fn, label):
                    info.dropped.add(label)
                    info.lost = True
        raise PathEnd()

    def done(self):
        """after the loop (exhausted or left by break)"""
        if self.mode == "body":
            if self.discovering:
                raise PathEnd()
            self.leave()
        self.loc = {}

    def last(self):
        """the value the loop variable keeps after the loop ran to its end: (value,), None when there was no iteration"""
        if self.gen:
            raise Unsupported("loop variable used after a loop over a generator")
        if self.E.decide(self.seq.n > 0):
            return (self.seq.elem(self.seq.n - 1),)
        return None

    def leave(self):
        if self in self.E.loopstack:
            self.E.loopstack.remove(self)

    def ret(self, v):
        """return out of the loop body"""
        if self.mode == "body" and self.discovering:
            raise PathEnd()
        if self.mode == "body":
            self.leave()
        return v

    def escaped(self, E):
        pass


class BodyPath:
    def __init__(self, i, lits, assumes, ops, loop):
        self.i, self.lits, self.assumes, self.ops = i, lits, assumes, ops
        lo, hi = loop.hv
        self.lo, self.hi = lo, hi
        self._taint = {}

    def tainted(self, t):
        """does the term mention symbols that stand for the unknown state at the start of the iteration?"""
        r = self._taint.get(t.get_id())
        if r is None:
            r = False
            from .driver import subterms
            for s in subterms([t]):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = s.decl().name()
                    if "!" in nm:
                        try:
                            num = int(nm.rsplit("!", 1)[1])
                        except ValueError:
                            continue
                        if not nm.startswith("py!") and self.lo < num <= self.hi:
                            r = True
                            break
            self._taint[t.get_id()] = r
        return r


class GhostBox:
    """ghost variables of a contract (attribute style), seen by loops as ordinary state"""

    def __init__(self, **kw):
        core.E.register(self)
        self.__dict__.update(kw)

    def __setattr__(self, k, v):
        core.E.setattr(self, k, v)


class VList_view:
    def __init__(self, o):
        self.o = o


def scal_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Container) or isinstance(b, Container):
        return False
    if isinstance(a, Sym) or isinstance(b, Sym):
        na, nb = core.num_term(a), core.num_term(b)
        if na is not None and nb is not None and not isinstance(a, SBool):
            k, x, y = core.coerce(na, nb)
            return SBool(x == y)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return SBool(bterm(a) == bterm(b))
        return SBool(obj_term(a) == obj_term(b))
    try:
        return bool(a == b)
    except Exception:
        return False


def distinct_list(o):
    """statement: the elements are distinct, their positions given by the list's position function"""
    if o.c is not None or o.pos is None:
        if o.c is not None and not o.c:
            return True
        raise ContractError("no positions")
    n, at, pos = o.n, o.at, o.pos
    return Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n), pos(at(k.t)) == k.t)))


def list_eq(a, b):
    """statement: two lists have the same contents"""
    a2, b2 = VList(a), VList(b)
    if a2.c is not None and b2.c is not None:
        if len(a2.c) != len(b2.c):
            return False
    k = a2.kind if a2.sym else (b2.kind if b2.sym else None)
    a2._to_sym(k)
    b2._to_sym(k)
    if a2.kind != b2.kind:
        if z3.is_int_value(z3.simplify(a2.n)) or z3.is_int_value(z3.simplify(b2.n)):
            raise ContractError("kinds differ")
        raise ContractError("kinds differ")
    an, bn, aat, bat = a2.n, b2.n, a2.at, b2.at
    return Conj([an == bn, Quant(["int"], lambda x: SBool(z3.Implies(z3.And(x.t >= 0, x.t < an), aat(x.t) == bat(x.t))))])


def set_eq(a, b):
    a2, b2 = VSet(a), VSet(b)
    k = a2.kind or b2.kind or "obj"
    a2._to_sym(k)
    b2._to_sym(k)
    m1, m2, K = a2.mem, b2.mem, k
    return Quant([K], lambda x: SBool(m1(term_of(x, K)) == m2(term_of(x, K))))


class ConcreteLoop:
    symbolic = False
    loc = {}

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def last(self):
        return None

    def done(self):
        pass

    def ret(self, v):
        return v


class WhileLoop(Loop):
    def __init__(self, site, names):
        E = core.E
        self.E, self.site, self.allnames = E, site, names
        self.count = 0
        self.concrete = True
        self.loc = {}
        self.mode = None
        self.started = False

    def head(self, loc):
        E = self.E
        key = (E.prefix() if not self.started else self.pkey)
        if not self.started:
            self.started = True
            self.pkey = key
            self.pos0 = E.pos
            if key in E.symwhiles:
                self.concrete = False
                super().__init__(None, self.site, loc, self.allnames)
                self.arrive()
                return
        if self.concrete:
            self.count += 1
            if self.count > 3000:
                raise Unsupported("while loop does not end within 3000 unrolled iterations")
            self.p0 = E.pos
            return
        if self.state == 0:
            self.state = 1
        self.end_body({n: loc[n] for n in self.names if n in loc})

    def arrive(self):
        super().arrive()
        self.state = 1

    def test(self, v):
        E = self.E
        if self.concrete:
            p = E.pos
            b = bool(v)
            if self.p0 != E.pos and self.unroll_limit_hit():
                E.symwhiles.add(self.pkey)
                r = Restart()
                r.pos = self.pos0
                raise r
            return b
        b = bool(v)
        if self.mode == "body" and not b:
            raise PathEnd()
        if self.mode == "exit" and b:
            raise PathEnd()
        return b

    def unroll_limit_hit(self):
        return True

    def done(self):
        if self.concrete:
            return
        super().done()

    def ret(self, v):
        if self.concrete:
            return v
        return super().ret(v)


# ---------------------------------------------------------------- entry points used by the transformed code

def loop(it, site, loc, names):
    whole, gen = it, []
    while isinstance(it, GenExp):
        gen.insert(0, (it.cond, it.elt))
        it = it.it
    seq = to_seq(it)
    if gen and seq is not None:
        return gen_loop(seq, gen, site, loc, names)
    it = whole
    if seq is None:
        if isinstance(it, Sym):
            raise Unsupported("iterating a value of unknown type")
        return ConcreteLoop(it)
    n = z3.simplify(seq.n)
    if z3.is_int_value(n):
        return ConcreteLoop([seq.elem(z3.IntVal(k)) for k in range(max(0, n.as_long()))])
    return Loop(seq, site, loc, names)


def gen_loop(seq, gen, site, loc, names):
    """a loop over a generator: each element is tested and computed when its iteration comes"""
    n = z3.simplify(seq.n)
    if z3.is_int_value(n):
        def elements():
            for k in range(max(0, n.as_long())):
                x = seq.elem(z3.IntVal(k))
                for cond, elt in gen:
                    if cond is not None and not cond(x):
                        break
                    x = elt(x)
                else:
                    yield x
        return ConcreteLoop(elements())
    for fs in gen:
        for f in fs:
            if set(getattr(getattr(f, "__code__", None), "co_freevars", ())) & set(names):
                raise Unsupported("generator depends on a variable of the loop")
    L = Loop(seq, site, loc, names)
    L.gen = gen
    return L


def listcomp(it, cond, elt):
    r = VList()
    L = loop(it, "comprehension", {}, ())
    for x in L:
        if cond is None or cond(x):
            r.append(elt(x))
    L.done()
    return r


def setcomp(it, cond, elt):
    r = VSet()
    L = loop(it, "comprehension", {}, ())
    for x in L:
        if cond is None or cond(x):
            r.add(elt(x))
    L.done()
    return r


def dictcomp(it, cond, kv):
    seq = to_seq(it)
    if seq is None or z3.is_int_value(z3.simplify(seq.n)):
        r = VDict()
        for x in loop(it, "comprehension", {}, ()):
            if cond is None or cond(x):
                k, v = kv(x)
                r[k] = v
        return r
    # keys must be the distinct elements of a list: value of key x is the value at x's position
    E = core.E
    src = seq.source
    if not isinstance(src, VList) or src.pos is None or cond is not None:
        raise Unsupported("dict comprehension over a symbolic sequence")
    j = z3.Int("probe")
    old = E.nofork
    E.nofork = True
    try:
        k, v = kv(seq.elem(j))
    finally:
        E.nofork = old
    if not term_of(k, src.kind).eq(src.at(j)):
        raise Unsupported("dict comprehension with computed keys")
    pos, n, at, el, kind = src.pos, src.n, src.at, seq.elem, src.kind
    return VDict.symbolic(lambda x: z3.And(pos(x) >= 0, pos(x) < n, at(pos(x)) == x), lambda x: kv(el(pos(x)))[1], kind)


def any_(it):
    if isinstance(it, GenExp):
        L = loop(it.it, "any", {}, ())
        for x in L:
            if it.cond is None or it.cond(x):
                if it.elt(x):
                    L.done()
                    return True
        L.done()
        return False
    L = loop(it, "any", {}, ())
    for x in L:
        if x:
            L.done()
            return True
    L.done()
    return False


def all_(it):
    if isinstance(it, GenExp):
        L = loop(it.it, "all", {}, ())
        for x in L:
            if it.cond is None or it.cond(x):
                if not it.elt(x):
                    L.done()
                    return False
        L.done()
        return True
    L = loop(it, "all", {}, ())
    for x in L:
        if not x:
            L.done()
            return False
    L.done()
    return True


def next_(it, *d):
    if isinstance(it, GenExp) and to_seq(it.it) is not None:
        L = loop(it.it, "next", {}, ())
        for x in L:
            if it.cond is None or it.cond(x):
                r = it.elt(x)
                L.done()
                return r
        L.done()
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)
