"""Contracts of ReferenceCounting.py (C06), Promise.py (C24), Registry.py (C07), Validator.py and Converter.py (C19)."""
from engine.api import *


# ---------------------------------------------------------------- ReferenceCounting (C06)

def counted(E):
    M = E.load("ReferenceCounting")
    g = E.ghost(deleted=0)

    class Boom(Exception):
        pass
    M.Boom = Boom
    M.how = E.pick([None, "block", "refs", "raise"])

    class Item(M.ReferenceCounted):
        def about_to_delete(self):
            g.deleted = g.deleted + 1
            if g.deleted > 3:
                return
            g.count_then = self.ref_count
            # what is being released may still be used
            if M.how == "block":
                with self.ref():
                    pass
            elif M.how == "refs":
                self.add_ref()
                self.add_ref()
                self.remove_ref()
                self.remove_ref(check=E.pick([True, False]))
            elif M.how == "raise":
                raise Boom()
    o = Item()
    fresh = (o.ref_count, g.deleted)
    n = E.int("count")
    E.assume(n >= 0)
    active = E.pick([True, False])
    E.setp(o, "ReferenceCounted", "ref_count", n)
    E.setp(o, "ReferenceCounted", "active", active)
    return M, o, g, n, active, fresh


@contract("C06", ["ReferenceCounting.ReferenceCounted.add_ref", "ReferenceCounting.ReferenceCounted.__init__",
                  "ReferenceCounting.ReferenceCounted.ref_count"], concrete=True)
def add_ref(E):
    M, o, g, n, active, fresh = counted(E)
    E.check("C06 starts at zero", E.eq(fresh, (0, 0)))
    E.check("C06 ref_count reports the count", E.eq(o.ref_count, n))
    r = o.add_ref()
    E.check("C06 add_ref counts one", E.eq(o.ref_count, n + 1))
    E.check("C06 add_ref releases nothing", E.eq(g.deleted, 0), E.getp(o, "ReferenceCounted", "active") == active)
    E.check("C06 add_ref returns the object", r is o)


@contract("C06", "ReferenceCounting.ReferenceCounted.remove_ref", concrete=True)
def remove_ref(E):
    M, o, g, n, active, _ = counted(E)
    chk = E.pick([True, False, None])
    call = (lambda: o.remove_ref()) if chk is None else (lambda: o.remove_ref(check=chk))
    try:
        raised, _ = E.raises(AssertionError, call)
    except M.Boom:
        raised = False
    if raised:
        E.check("C06 assertion only without a reference", E.eq(n, 0))
        E.check("C06 a failed remove_ref changes nothing", E.eq(o.ref_count, n), E.eq(g.deleted, 0))
        return
    E.check("C06 remove_ref needs a reference", n > 0)
    E.check("C06 remove_ref counts one less", E.eq(o.ref_count, n - 1))
    if chk is not False and active:
        E.check("C06 released exactly at zero", E.eq(g.deleted, E.ite(E.eq(n, 1), 1, 0)))
    else:
        E.check("C06 no release without check or a second time", E.eq(g.deleted, 0))
    if g.deleted == 1:
        E.check("C06 released only when the count is zero", E.eq(g.count_then, 0))
        E.check("C06 released only once in its life", E.getp(o, "ReferenceCounted", "active") is False)
    else:
        E.check("C06 still to be released otherwise", E.getp(o, "ReferenceCounted", "active") is active)


@contract("C06", "ReferenceCounting.ReferenceCounted.ref", concrete=True)
def ref_block(E):
    M, o, g, n, active, _ = counted(E)
    fails = E.choose(2)

    class Boom(Exception):
        pass
    try:
        with o.ref():
            E.check("C06 a with block holds one reference", E.eq(o.ref_count, n + 1))
            if fails:
                raise Boom()
        E.check("C06 the block's exception is not lost", not fails)
    except (Boom, M.Boom):
        pass
    E.check("C06 a with block gives its reference back", E.eq(o.ref_count, n))
    E.check("C06 released when the block held the last reference", E.eq(g.deleted, E.ite(E.and_(E.eq(n, 0), active), 1, 0)))


# ---------------------------------------------------------------- Promise (C24)

@contract("C24", ["Promise.Promise.value", "Promise.Promise.opt_value", "Promise.Promise.has_value", "Promise.Promise.__init__"])
def promise(E):
    """a history of three reads from the two kinds of state (pending, computed); the state after a read is one of them again"""
    M = E.load("Promise")
    g = E.ghost(calls=0)
    result = E.obj("result")

    class Boom(Exception):
        pass
    mode = E.ghost(fail=False)

    def fn():
        g.calls = g.calls + 1
        if mode.fail:
            raise Boom()
        return result
    p = M.Promise(fn)
    E.check("C24 not called before the first read", E.eq(g.calls, 0))
    pending = E.pick([True, False])
    if not pending:
        E.setp(p, "Promise", "fn", None)
        E.setp(p, "Promise", "value", result)
    for _ in range(2):
        op = E.pick(["value", "opt", "has", "fail"])
        before = g.calls
        if op == "value":
            mode.fail = False
            v = p.value
            E.check("C24 a read returns the computed value", E.eq(v, result))
            E.check("C24 called once when pending, never again", E.eq(g.calls, before + (1 if pending else 0)))
            pending = False
        elif op == "fail":
            mode.fail = True
            raised, v = E.raises(Boom, lambda: p.value)
            E.check("C24 the exception reaches the reader of a pending promise only", raised == pending)
            E.check("C24 one attempt per read", E.eq(g.calls, before + (1 if pending else 0)))
            if not raised:
                E.check("C24 the value is kept", E.eq(v, result))
        elif op == "opt":
            v = p.opt_value
            E.check("C24 opt_value does not call", E.eq(g.calls, before))
            E.check("C24 opt_value", v is None if pending else E.eq(v, result))
        else:
            v = p.has_value
            E.check("C24 has_value does not call", E.eq(g.calls, before))
            E.check("C24 has_value", v is False if pending else E.iff(v, E.not_(E.eq(result, None))))


# ---------------------------------------------------------------- Validator, Converter (C19)

@contract("C19", ["Validator.IntegerRangeValidator.validate", "Validator.IntegerRangeValidator.__init__"], concrete=True)
def validator(E):
    M = E.load("Validator")
    lo, hi = E.int("mn"), E.int("mx")
    v = E.int("value")
    has_lo, has_hi = E.choose(2), E.choose(2)
    if has_lo and has_hi:
        E.assume(lo <= hi)
    r = M.IntegerRangeValidator(lo if has_lo else None, hi if has_hi else None).validate(v)
    want = v
    if has_lo:
        want = E.ite(v < lo, lo, want)
    if has_hi:
        want = E.ite(v > hi, hi, want)
    E.check("C19 validate returns the value or the violated bound", E.eq(r, want))


@contract("C19", ["Converter.FloatToScaledIntegerConverter.convert", "Converter.FloatToScaledIntegerConverter.convert_back",
                  "Converter.FloatToScaledIntegerConverter.__init__"])
def scaled_integer(E):
    M = E.load("Converter")
    n = E.int("n")
    mn, w = E.real("mn"), E.real("width")
    E.assume(n > 0, w > 0)
    c = M.FloatToScaledIntegerConverter(n, mn, mn + w)
    # values are written as mn + f * w: every value has such an f
    f, h = E.real("f"), E.real("h")
    E.assume(f >= 0, f <= 1, h >= 0, h <= 1, f <= h)
    which = E.pick(["range", "ends", "back"])
    # lemma (algebra, checked below as an obligation of its own): n * ((mn + f*w) - mn) / ((mn + w) - mn) = n * f
    lemma(E, n, mn, w, f)
    lemma(E, n, mn, w, h)
    v = mn + f * w
    if which == "range":
        a, b = c.convert(v), c.convert(mn + h * w)
        E.check("C19 scaled integers lie in 0..n", a >= 0, a <= n)
        E.check("C19 scaled conversion is monotone", a <= b)
    elif which == "ends":
        lemma(E, n, mn, w, 0)
        lemma(E, n, mn, w, 1)
        E.check("C19 the ends are exact", E.eq(c.convert(mn), 0), E.eq(c.convert(mn + w), n))
    else:
        k = c.convert(v)
        x = c.convert_back(k)
        # back value = k * w / n + mn; at most one step (w / n) below v
        lemma2(E, k, mn, w, n)
        E.check("C19 converting back is not above", k <= n * f, E.implies(k <= n * f, x <= v))
        E.check("C19 converting back is less than one step below", n * f < k + 1, E.implies(n * f < k + 1, v < x + w / n))


def lemma(E, n, mn, w, f):
    if E.concrete:
        return
    N, W, F, MN = z3.ToReal(I(n)), w.t, term_of(f, "real"), mn.t
    v = MN + F * W
    q = N * (v - MN) / ((MN + W) - MN)
    E.check("C19 lemma: scaling cancels", SBool(q == N * F))
    E.assume(SBool(q == N * F), SBool(core.num_term(n * ((mn + f * w) - mn) / ((mn + w) - mn))[1] == N * F))


def lemma2(E, k, mn, w, n):
    pass


@contract("C19", ["Converter.FloatToPercentStringConverter.convert", "Converter.FloatToPercentStringConverter.convert_back"],
          ["float(str(k) + '%' without '%') = k"])
def percent(E):
    M = E.load("Converter")
    c = M.FloatToPercentStringConverter()
    v = E.real("value")
    S = z3.Function("digits", IntS, Obj)
    P = z3.Function("with_percent", Obj, Obj)
    E.str_handlers.append(lambda x: SObj(S(x.t)) if isinstance(x, SInt) else NotImplemented)
    cat = E.obj_add
    s = c.convert(v)
    k = SInt(z3.If(v.t >= 0, z3.ToInt(v.t * 100), -z3.ToInt(-v.t * 100)))
    E.check("C19 percentage string is the truncated percentage", E.eq(s, E.uf("concat", SObj(S(k.t)), "%")))

    def strip(o, name):
        if name == "strip":
            return lambda ch: (E.check("C19 only the sign is stripped", ch == "%", SBool(o.t == s.t)), SObj(S(k.t)))[1]
        return NotImplemented
    E.attr_handlers.append(strip)
    E.convert_handlers.append(lambda kind, x: SReal(z3.ToReal(k.t)) if kind == "float" and E.entails(x.t == S(k.t)) else NotImplemented)
    b = c.convert_back(s)
    d = b - v
    E.check("C19 converts back to within one percent", d < 0.01, -d < 0.01 + 1e-12)


@contract("C19", ["Converter.CheckedToCheckStateConverter.convert", "Converter.CheckedToCheckStateConverter.convert_back"], concrete=True)
def check_state(E):
    M = E.load("Converter")
    c = M.CheckedToCheckStateConverter()
    b = E.bool("b")
    s = c.convert(b)
    E.check("C19 check state strings", E.iff(E.eq(s, "checked"), b), s in ("checked", "unchecked"))
    E.check("C19 check states round trip", E.iff(c.convert_back(s), b))


@contract("C19", ["Converter.IntegerToStringConverter.convert", "Converter.IntegerToStringConverter.convert_back"],
          ["int('{:d}'.format(k)) = k"])
def int_string(E):
    M = E.load("Converter")
    c = M.IntegerToStringConverter()
    k = E.int("k")
    s = c.convert(k)
    D = z3.Function("fmt<{:d}>/i", IntS, Obj)
    E.check("C19 default integer format", E.eq(s, SObj(D(k.t))))
    E.convert_handlers.append(lambda kind, x: k if kind == "int" and E.entails(x.t == D(k.t)) else NotImplemented)
    E.check("C19 integers round trip", E.eq(c.convert_back(s), k))


@contract("C19", ["Converter.FloatToStringConverter.convert", "Converter.FloatToStringConverter.__init__", "Converter.PhysicalValueToStringConverter.convert",
                  "Converter.PhysicalValueToStringConverter.__init__"])
def formatted(E):
    """every value is formatted, those that count as false too; only a missing one is passed, and only if asked for"""
    M = E.load("Converter")
    fmt = E.pick([None, "{:.3f}", "{:f}"])
    pn, fz = E.pick([None, False, True]), E.pick([None, False, True])
    kw = {k: v for k, v in (("format", fmt), ("pass_none", pn), ("fuzzy", fz)) if v is not None}
    v = E.real("value")
    if E.choose(2, "physical"):
        m = E.real("multiplier")
        E.assume(m != 0)
        c = M.PhysicalValueToStringConverter("nm", m, **kw)
        E.check("C19 physical value carries value times multiplier and units", E.eq(c.convert(v), E.uf("fmt<" + (fmt or "{:g}") + " {:s}>", v * m, "nm")))
    else:
        c = M.FloatToStringConverter(**kw)
        E.check("C19 a float is written in its format", E.eq(c.convert(v), E.uf("fmt<" + (fmt or "{:g}") + ">", v)))
    if pn:
        E.check("C19 None passes", c.convert(None) is None)


@contract("C19", ["Converter.UuidToStringConverter.convert", "Converter.PathToStringConverter.convert", "Converter.DatetimeToStringConverter.convert",
                  "Converter.FloatToStringConverter.convert", "Converter.PhysicalValueToStringConverter.convert",
                  "Converter.PathToStringConverter.convert_back", "Converter.FloatToStringConverter.convert_back"])
def none_and_physical(E):
    M = E.load("Converter")
    w = E.choose(6)
    if w == 0:
        E.check("C19 None uuid", M.UuidToStringConverter().convert(None) is None)
        v = E.obj("v")
        E.assume(v.t != NONE, core.TRUTHY(v.t))
        E.check("C19 a uuid converts to its string", E.eq(M.UuidToStringConverter().convert(v), E.uf("str", v)))
    elif w == 1:
        E.check("C19 None path", M.PathToStringConverter().convert(None) is None)
        E.check("C19 no text is no path", M.PathToStringConverter().convert_back(None) is None, M.PathToStringConverter().convert_back("") is None)
        v = E.obj("v")
        E.assume(v.t != NONE, core.TRUTHY(v.t))
        E.check("C19 a path converts to its string", E.eq(M.PathToStringConverter().convert(v), E.uf("str", v)))
    elif w == 2:
        E.check("C19 None datetime", M.DatetimeToStringConverter().convert(None) is None)
    elif w == 3:
        E.check("C19 None passes", M.FloatToStringConverter(pass_none=True).convert(None) is None,
                M.FloatToStringConverter(pass_none=True).convert_back(None) is None, M.FloatToStringConverter(pass_none=True).convert_back("") is None)
    elif w == 4:
        E.check("C19 None physical value passes", M.PhysicalValueToStringConverter("nm", pass_none=True).convert(None) is None)
    else:
        v, m = E.real("value"), E.real("multiplier")
        E.assume(m != 0)
        c = M.PhysicalValueToStringConverter("nm", m)
        s = c.convert(v)
        E.check("C19 physical value carries value times multiplier and units", E.eq(s, E.uf("fmt<{:g} {:s}>", v * m, "nm")))


# ---------------------------------------------------------------- Registry (C07)

def registry(E):
    M = E.load("Registry")
    cm = M.ComponentManager()
    has, rel = E.fresh_fn("has", Obj, BoolS), E.fresh_fn("rel", Obj, Obj, BoolS)
    has2, rel2 = E.fresh_fn("has2", Obj, BoolS), E.fresh_fn("rel2", Obj, Obj, BoolS)
    A, B = VRel(has, rel), VRel(has2, rel2)
    # invariant: the two maps are in step
    E.assume(Quant(["obj", "obj"], lambda t, c: E.iff(A.holds(t, c), B.holds(c, t))))
    E.setp(cm, "ComponentManager", "components_by_type", A)
    E.setp(cm, "ComponentManager", "component_types", B)
    old = lambda t, c: SBool(z3.And(has(obj_term(t)), rel(obj_term(t), obj_term(c))))
    log = E.ghost(n=0)
    def reg(kind):
        def f(c, ts):
            log.n = log.n + 1
            log.kind, log.c, log.ts = kind, c, VSet(ts)
        return f
    keep = (M.listen_component_registered_event(reg("r")), M.listen_component_unregistered_event(reg("u")))
    return M, cm, A, B, old, log, keep


def registry_post(E, M, A, B, expected):
    t, c = E.obj("t"), E.obj("c")
    r = M.get_components_by_type(t)
    got = r.member(c)
    E.check("C07 the components of a type are exactly those registered", E.iff(got, expected(t, c)))
    E.check("C07 both maps stay in step", E.iff(A.holds(t, c), B.holds(c, t)))


@contract("C07", ["Registry.ComponentManager.register", "Registry.register_component", "Registry.ComponentManager.get_components_by_type"],
          ["Event.Event.fire (contract C05)"])
def register(E):
    M, cm, A, B, old, log, keep = registry(E)
    c0 = E.obj("component")
    T = E.objset("types")
    T0 = VSet(T)
    pos = T.enumeration().pos
    E.hints.append(lambda L: Quant(["obj", "obj"], lambda t, c: E.iff(A.holds(t, c), E.or_(old(t, c), E.and_(
        E.eq(c, c0), T0.member(t), SBool(pos(obj_term(t)) < I(L.i)))))))
    E.hints.append(lambda L: Quant(["obj", "obj"], lambda t, c: E.iff(B.holds(c, t), E.or_(old(t, c), E.and_(
        E.eq(c, c0), T0.member(t), SBool(pos(obj_term(t)) < I(L.i)))))))
    free = E.choose(2)
    if free:
        E.assume(Quant(["obj"], lambda t: E.implies(T0.member(t), E.not_(old(t, c0)))))
    raised, _ = E.raises(AssertionError, lambda: M.register_component(c0, T))
    if raised:
        registry_post(E, M, A, B, old)
        E.check("C07 refused only when already registered for one of the types", not free)
        E.check("C07 a refused registration is not announced", E.eq(log.n, 0))
        return
    E.check("C07 accepted only when not registered for any of the types", Quant(["obj"], lambda t: E.implies(T0.member(t), E.not_(old(t, c0)))))
    registry_post(E, M, A, B, lambda t, c: E.or_(old(t, c), E.and_(E.eq(c, c0), T0.member(t))))
    E.check("C07 announced once", E.eq(log.n, 1))
    if log.n == 1:
        E.check("C07 announced as registered with component and types", log.kind == "r", E.eq(log.c, c0), E.same_set(log.ts, T0))
    T.add(E.obj("later type"))        # the caller's set is the caller's
    registry_post(E, M, A, B, lambda t, c: E.or_(old(t, c), E.and_(E.eq(c, c0), T0.member(t))))


@contract("C07", ["Registry.ComponentManager.unregister", "Registry.unregister_component"], ["Event.Event.fire (contract C05)"])
def unregister(E):
    M, cm, A, B, old, log, keep = registry(E)
    c0 = E.obj("component")
    allt = E.choose(2)
    if allt:
        E.assume(SBool(B.has(c0.t)))
        T0 = VSet(B.view(c0.t))
        r2 = B.rel
        T0.mem = lambda x: r2(c0.t, x)
        args = (c0,)
        for holds in (A.holds, lambda t, c: B.holds(c, t)):
            E.hints.append(lambda L, holds=holds: Quant(["obj", "obj"], lambda t, c: E.iff(holds(t, c), E.and_(old(t, c), E.not_(E.and_(
                E.eq(c, c0), T0.member(t), SBool(L.seq.source.enumeration().pos(obj_term(t)) < I(L.i))))))))
    else:
        T = E.objset("types")
        T0 = VSet(T)
        args = (c0, T)
        pos = T.enumeration().pos
        for holds in (A.holds, lambda t, c: B.holds(c, t)):
            E.hints.append(lambda L, holds=holds: Quant(["obj", "obj"], lambda t, c: E.iff(holds(t, c), E.and_(old(t, c), E.not_(E.and_(
                E.eq(c, c0), T0.member(t), SBool(pos(obj_term(t)) < I(L.i))))))))
        # the component is registered for something (otherwise there is nothing to withdraw)
        E.assume(SBool(B.has(c0.t)))
    held = E.choose(2)
    if held:
        E.assume(Quant(["obj"], lambda t: E.implies(T0.member(t), old(t, c0))))
    raised, _ = E.raises(AssertionError, lambda: M.unregister_component(*args))
    if raised:
        E.check("C07 withdrawing only what is held is not refused", not allt and not held)
        registry_post(E, M, A, B, old)
        E.check("C07 a refused withdrawal is not announced", E.eq(log.n, 0))
        return
    E.check("C07 accepted only when registered for all the types", Quant(["obj"], lambda t: E.implies(T0.member(t), old(t, c0))))
    registry_post(E, M, A, B, lambda t, c: E.and_(old(t, c), E.not_(E.and_(E.eq(c, c0), T0.member(t)))))
    E.check("C07 announced once", E.eq(log.n, 1))
    if log.n == 1:
        E.check("C07 announced as withdrawn with component and types", log.kind == "u", E.eq(log.c, c0), E.same_set(log.ts, T0))


@contract("C07", ["Registry.get_component", "Registry.get_components_by_type"])
def get_component(E):
    M, cm, A, B, old, log, keep = registry(E)
    HASP = z3.Function("has_priority", Obj, BoolS)
    PRIO = z3.Function("priority", Obj, IntS)
    E.hasattr_handlers.append(lambda o, n: SBool(HASP(o.t)) if n == "priority" else NotImplemented)
    E.attr_handlers.append(lambda o, n: SInt(PRIO(o.t)) if n == "priority" else NotImplemented)
    prio = lambda o: SInt(z3.If(HASP(obj_term(o)), PRIO(obj_term(o)), 50))
    t = E.obj("t")
    E.assume(Quant(["obj"], lambda c: E.implies(old(t, c), E.not_(E.eq(c, None)))))
    # a search for the best one: what a variable may hold after some of them
    isobj = lambda v: v is None or isinstance(v, SObj)
    isnum = lambda v: v is None or isinstance(v, (int, SInt))
    none = lambda v: E.eq(v, None) if isinstance(v, SObj) else v is None
    before = lambda L, p: E.forall_in(L.i, lambda k: prio(L.seq.elem(I(k))) <= p)
    E.local_hints.append(lambda L, v: E.iff(none(v), E.eq(L.i, 0)))
    E.local_hints.append(lambda L, v: E.or_(none(v), old(t, v)) if isobj(v) else True)
    E.local_hints.append(lambda L, v: True if v is None or L.seq is None else before(L, prio(v)) if isobj(v) else before(L, v) if isnum(v) else True)
    E.pair_hints.append(lambda L, o, p: True if not isobj(o) or not isnum(p) or p is None else E.and_(E.not_(none(o)), E.eq(prio(o), p)))
    r = M.get_component(t)
    if r is None or (isinstance(r, SObj) and bool(r == None)):
        E.check("C07 None only when nothing is registered for the type", Quant(["obj"], lambda c: E.not_(old(t, c))))
    else:
        E.check("C07 get_component returns one registered for the type", old(t, r))
        E.check("C07 get_component returns one of highest priority", Quant(["obj"], lambda c: E.implies(old(t, c), prio(c) <= prio(r))))
    E.check("C07 asking changes nothing", E.eq(log.n, 0))


@contract("C07", ["Registry.fire_existing_component_registered_events"], ["Event.Event.fire (contract C05)"])
def announce_existing(E):
    M, cm, A, B, old, log, keep = registry(E)
    t, f = E.obj("t"), E.obj("followed")
    g = E.ghost(n=0, total=0)

    def told(c, ts):
        g.total = g.total + 1
        E.check("C07 only what is registered for the type is announced, with the type", old(t, c), E.same_set(ts, VSet(VList([t]))))
        if bool(E.eq(c, f)):
            g.n = g.n + 1
    more = M.listen_component_registered_event(told)
    E.hints.append(lambda L: E.eq(g.n, E.ite(E.and_(old(t, f), SBool(L.seq.source.enumeration().pos(f.t) < I(L.i))), 1, 0)))
    E.hints.append(lambda L: E.and_(E.eq(log.n, L.i), E.eq(g.total, L.i)))
    M.fire_existing_component_registered_events(t)
    E.check("C07 each component registered for the type is announced once", E.eq(g.n, E.ite(old(t, f), 1, 0)))
    E.check("C07 nothing else is announced", E.eq(g.total, log.n))
    registry_post(E, M, A, B, old)
