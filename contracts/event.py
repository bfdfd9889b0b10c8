"""Contracts of Event.py (C05)."""
from engine.api import *

ALIVE = z3.Function("alive", Obj, BoolS)
LISTENER = z3.Function("listener_of", Obj, Obj)
WEAK = z3.Function("weak_of", Obj, Obj)
CALLFN = z3.Function("call_of", Obj, Obj)
OWNER = z3.Function("listener_of_call", Obj, Obj)


def symbolic_event(E, lib=None):
    """an event with any number of attached listeners, each alive or released, open or closed"""
    M = E.load("Event", real_event=True, lib=lib)
    ev = M.Event()
    W = E.objlist("weak", distinct=True)
    E.setp(ev, "Event", "weak_listeners", W)
    # distinct weak references have distinct listeners; the listener's call is its own
    E.assume(Quant(["obj"], lambda w: E.and_(SBool(WEAK(LISTENER(w.t)) == w.t), SBool(OWNER(CALLFN(LISTENER(w.t))) == LISTENER(w.t)),
                                             SBool(LISTENER(w.t) != NONE), SBool(TRUTHY(LISTENER(w.t))))))
    return M, ev, W


def args_of(E):
    return (E.obj("arg1"), E.int("arg2")), {"key": E.obj("arg3")}


def setup(E, mode):
    """mode: None (fire), True (fire_any), False (fire_all)"""
    M, ev, W = symbolic_event(E)
    args, kw = args_of(E)
    n = E.len(W)
    # positions of the open listeners (changes when a callback closes listeners), next position to be called
    g = E.ghost(next=0, open=E.intset("open"), stopped=False, raised=False)
    W0 = E.copylist(W)
    at = lambda k: W0.elem(k)
    callable_at = lambda k: E.and_(SBool(ALIVE(obj_term(at(k)))), g.open.member(k))
    none_between = lambda a, b: Quant(["int"], lambda k: E.implies(E.and_(k >= a, k < b, k >= 0, k < n), E.not_(callable_at(k))))

    def called(o, a, k):
        w = WEAK(OWNER(o.t))
        p = SInt(W0.pos(w)) if W0.pos is not None else None
        inlist = E.and_(p >= 0, p < n, SBool(obj_term(W0.elem(p)) == w))
        E.check("C05 only attached listeners are called", inlist)
        E.assume(inlist)
        if E.entails(E.not_(g.open.member(p)).t):
            return E.obj("closed_result")      # a closed listener's call does nothing
        isopen = bool(g.open.member(p))
        if not isopen:
            r = E.obj("closed_result")
            E.assume(SBool(z3.Not(TRUTHY(r.t))))   # void returns None
            return None
        E.check("C05 released listeners are not called", SBool(ALIVE(w)))
        E.check("C05 each open listener once, in the order attached", E.and_(p >= g.next), none_between(g.next, p))
        E.check("C05 called with the fired arguments", len(a) == 2 and set(k) == {"key"} and E.and_(E.eq(a[0], args[0]), E.eq(a[1], args[1]), E.eq(k["key"], kw["key"])))
        E.check("C05 nothing is called after the deciding listener or a failure", E.not_(g.stopped), E.not_(g.raised))
        g.next = p + 1
        # the callback may close any listeners, also itself
        new = E.intset("open_after")
        old = g.open
        E.assume(Quant(["int"], lambda j: E.implies(new.member(j), old.member(j))))
        g.open = new
        # it may also attach and release listeners
        now = E.getp(ev, "Event", "weak_listeners")
        now[:] = E.objlist("weak_after", distinct=True)
        if E.choose(2, "callback"):
            g.raised = True
            raise ValueError("callback failed")
        r = E.obj("result")
        if mode is not None:
            if bool(SBool(TRUTHY(r.t))) == mode:
                g.stopped = True
        return r

    def attr(o, name):
        if name == "call":
            return SObj(CALLFN(o.t))
        if name == "is_open":
            return g.open.member(SInt(W0.pos(WEAK(o.t))))
        if name == "tb":
            return None
        return NotImplemented

    def call(o, a, k):
        if not a and not k and E.entails(z3.And(WEAK(LISTENER(o.t)) == o.t, o.t == WEAK(LISTENER(o.t)))) and not str(o.t.decl().name()).startswith("call_of"):
            return E.ite(SBool(ALIVE(o.t)), SObj(LISTENER(o.t)), None)
        return called(o, a, k)
    E.attr_handlers.append(attr)
    E.call_handlers.append(call)
    E.hints.append(lambda L: E.and_(g.next <= L.i, g.next >= 0))
    E.hints.append(lambda L: none_between(g.next, L.i))
    # the same when the loop runs over a list filtered from the attached ones
    def next_bound(L):
        o = L.origin()
        return True if o is None else E.and_(g.next >= 0, E.ite(L.i < SInt(L.seq.n), g.next <= SInt(o[0](I(L.i))), g.next <= n))

    def rest_comes(L):
        o = L.origin()
        return True if o is None else Quant(["int"], lambda k: E.implies(E.and_(k >= g.next, k >= 0, k < n, callable_at(k)), SInt(o[1](k.t)) >= L.i))
    E.hints.append(next_bound)
    E.hints.append(rest_comes)
    E.hints.append(lambda L: E.and_(E.not_(g.stopped), E.not_(g.raised)))
    return M, ev, W0, args, kw, g, n, none_between


@contract("C05", "Event.Event.fire", ["weakref.ref returns the referent or None"])
def fire(E):
    M, ev, W0, args, kw, g, n, none_between = setup(E, None)
    ev.fire(*args, **kw)
    if not g.raised:
        E.check("C05 every open listener is called", none_between(g.next, n))


@contract("C05", "Event.Event.fire_any", ["weakref.ref returns the referent or None"])
def fire_any(E):
    M, ev, W0, args, kw, g, n, none_between = setup(E, True)
    r = ev.fire_any(*args, **kw)
    if g.raised:
        E.check("C05 fire_any has no result after a failure", r is None)
    elif g.stopped:
        E.check("C05 fire_any reports True for a true value", r is True)
    else:
        E.check("C05 fire_any reports False when no listener returns a true value", r is False)
        E.check("C05 fire_any calls every open listener until one returns a true value", none_between(g.next, n))


@contract("C05", "Event.Event.fire_all", ["weakref.ref returns the referent or None"])
def fire_all(E):
    M, ev, W0, args, kw, g, n, none_between = setup(E, False)
    r = ev.fire_all(*args, **kw)
    if g.raised:
        E.check("C05 fire_all has no result after a failure", r is None)
    elif g.stopped:
        E.check("C05 fire_all reports False for a false value", r is False)
    else:
        E.check("C05 fire_all reports True when no listener returns a false value", r is True)
        E.check("C05 fire_all calls every open listener until one returns a false value", none_between(g.next, n))


@contract("C05", ["Event.EventListener.__init__", "Event.EventListener.close", "Event.EventListener.is_open", "Event.EventListener.__exit__"])
def listener(E):
    M = E.load("Event", real_event=True)
    log = []

    def fn(*a, **k):
        log.append((a, k))
        return 7
    x = E.obj("x")
    l = M.EventListener(fn, False)
    E.check("C05 a new listener is open", l.is_open is True)
    r = l.call(x, key=3)
    E.check("C05 an open listener calls its function once", len(log) == 1 and log[0][0][0] is x and log[0][1] == {"key": 3} and r == 7)
    if E.choose(2):
        l.close()
    else:
        with l as l2:
            E.check("C05 the block gets the listener", l2 is l)
            l.call()
            E.check("C05 open inside the block", len(log) == 2)
    k = len(log)
    E.check("C05 a closed listener is not open", l.is_open is False)
    r = l.call(x)
    E.check("C05 a closed listener does not call its function", len(log) == k and not r)
    l.close()
    E.check("C05 closing twice is harmless", l.is_open is False)


@contract("C05", ["Event.Event.listen"], ["weakref.ref calls its callback when the referent is released"])
def listen(E):
    refs = []

    class Ref(FakeWeakRef):
        def __init__(self, o, cb=None):
            super().__init__(o, cb)
            refs.append(self)
    M, ev, W = symbolic_event(E, {"weakref": Namespace(ref=Ref)})
    E.loose_eq = False      # weak references to different listeners are different
    n = E.len(W)
    old = E.copylist(W)
    calls = []
    fn = lambda *a: calls.append(a)
    def attached(*tail):
        now = E.getp(ev, "Event", "weak_listeners")
        return E.and_(E.eq(E.len(now), n + len(tail)), *[E.eq(now.elem(n + i), x) for i, x in enumerate(tail)])
    kept = lambda: E.forall_in(n, lambda k: E.eq(E.getp(ev, "Event", "weak_listeners").elem(k), old.elem(k)))
    l = ev.listen(fn)
    if len(refs) != 1:
        raise Unsupported("listen makes other references")
    E.assume(Quant(["int"], lambda k: E.implies(E.and_(k >= 0, k < n), E.not_(E.eq(old.elem(k), refs[0])))))   # a new object
    E.check("C05 listening attaches one listener at the end", attached(refs[0]), kept())
    E.check("C05 the attached listener is the token", refs[0]() is l, l.is_open is True)
    l.call(1)
    E.check("C05 the token is open and calls the function", len(calls) == 1 and calls[0] == (1,))
    l2 = ev.listen(fn)
    E.assume(Quant(["int"], lambda k: E.implies(E.and_(k >= 0, k < n), E.not_(E.eq(old.elem(k), refs[1])))))
    E.check("C05 the next listener comes after it", attached(refs[0], refs[1]), kept())
    which = E.choose(2)
    refs[which].kill()
    E.check("C05 a released listener is detached and the others stay", attached(refs[1 - which]), kept())


@contract("C05", ["Event.Event.listen"], ["weakref.ref calls its callback when the referent is released"])
def owned(E):
    refs = []

    class Ref(FakeWeakRef):
        def __init__(self, o, cb=None):
            super().__init__(o, cb)
            refs.append(self)
    M = E.load("Event", real_event=True, lib={"weakref": Namespace(ref=Ref)})
    ev = M.Event()

    class Owner:
        pass
    owner = Owner()
    calls = []
    l = ev.listen(lambda *a: calls.append(a), owner=owner)
    mine = [r for r in refs if r.o is owner]
    if len(mine) != 1:
        raise Unsupported("owner is not held by one weak reference")
    ev.fire(3)
    E.check("C05 an owned listener is called", len(calls) == 1)
    mine[0].kill()
    ev.fire(4)
    E.check("C05 a listener whose owner is gone is not called", len(calls) == 1)


# ---------------------------------------------------------------- Observable (C33)

NOTIFY = {"notify_property_changed": ("property_changed_event", 1), "notify_set_item": ("item_set_event", 2), "notify_clear_item": ("item_cleared_event", 1),
          "notify_insert_item": ("item_inserted_event", 3), "notify_remove_item": ("item_removed_event", 3), "notify_add_item": ("item_added_event", 2),
          "notify_discard_item": ("item_discarded_event", 2), "notify_item_content_changed": ("item_content_changed_event", 3)}


@contract("C33", ["Observable.Observable.notify_property_changed",
                  "Observable.Observable.notify_set_item",
                  "Observable.Observable.notify_clear_item",
                  "Observable.Observable.notify_insert_item",
                  "Observable.Observable.notify_remove_item",
                  "Observable.Observable.notify_add_item",
                  "Observable.Observable.notify_discard_item",
                  "Observable.Observable.notify_item_content_changed",
                  "Observable.Observable.__init__"], ["Event.Event.fire (contract C05)"])
def observable_notifications(E):
    M = E.load("Observable")
    if E.choose(2, "derived class"):
        class Derived(M.Observable):
            def __init__(self):
                super().__init__()
        make = Derived
    else:
        make = M.Observable
    a, b = make(), make()
    E.rep(a)
    log = E.ghost(mine=0, other=0)
    keep = []
    method = E.pick(sorted(NOTIFY))
    event, n = NOTIFY[method]
    args = (E.obj("key"), E.obj("item"), E.int("index"))[:n]
    for e in sorted({x for x, _ in NOTIFY.values()}):
        def told(*got, e=e, **kw):
            if e == event:
                log.mine = log.mine + 1
                E.check("C33 the event carries exactly the arguments given", E.eq(tuple(got), args), not kw)
            else:
                log.other = log.other + 1

        def not_told(*got):
            log.other = log.other + 1
        E.check("C33 each object has the event, of its own", hasattr(a, e) and hasattr(b, e) and getattr(a, e) is not getattr(b, e))
        if hasattr(a, e) and hasattr(b, e):
            keep += [getattr(a, e).listen(told), getattr(b, e).listen(not_told)]
    getattr(a, method)(*args)
    E.check("C33 the event of the notification is fired once", E.eq(log.mine, 1))
    E.check("C33 no other event is fired", E.eq(log.other, 0))
