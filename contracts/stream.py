"""Contracts of Model.py and Stream.py: values (C20), derived streams (C21), their references (C22), timed streams (C23)."""
import types
from engine.api import *

EV = ["Event.Event.fire, listen (contract C05)"]
CMP = z3.Function("cmp", Obj, Obj, BoolS)
FN = z3.Function("value_fn", Obj, Obj)


def differ(E, a, b):
    """the statement's notion of change: None differs from everything but None, otherwise as the comparison says"""
    an, bn = E.eq(a, None), E.eq(b, None)
    return E.ite(an, E.not_(bn), E.ite(bn, True, E.not_(SBool(CMP(obj_term(a), obj_term(b))))))


def cmp_fn(E, tag):
    E.assume(Quant(["obj", "obj"], lambda a, b: SBool(CMP(a.t, b.t) == CMP(b.t, a.t))))

    def cmp(a, b):
        E.check(f"{tag} None is never passed to the comparison", E.not_(E.eq(a, None)), E.not_(E.eq(b, None)))
        return SBool(CMP(obj_term(a), obj_term(b)))
    return cmp


def eq_cmp(E):
    """no comparison given: equality"""
    E.assume(Quant(["obj", "obj"], lambda a, b: SBool(CMP(a.t, b.t) == (a.t == b.t))))


# ---------------------------------------------------------------- C20

def snap(s):
    """the state of an object, before it is closed"""
    return types.SimpleNamespace(**vars(s))


class Watch:
    """counts notifications and checks that the new value can be read by then"""

    def __init__(self, E, tag, event, read, key=None):
        self.E, self.tag = E, tag
        self.g = E.ghost(n=0, last=None)

        def fn(x):
            self.g.n = self.g.n + 1
            self.g.last = x
            if key is not None:
                E.check(f"{tag} the property is named", E.eq(x, key))
            else:
                E.check(f"{tag} a value is sent after it can be read", E.eq(x, read()))
        self.l = event.listen(fn)

    def take(self):
        n = self.g.n
        self.g.n = 0
        return n


@contract("C20", ["Model.PropertyModel.value", "Model.PropertyModel.__init__", "Model.PropertyModel.close"], EV)
def property_model(E):
    M = E.load("Model")
    v0 = E.obj("v0")
    own = E.choose(2)
    if own:
        m_cmp = cmp_fn(E, "C20")
        m = M.PropertyModel(v0, m_cmp) if E.choose(2) else M.PropertyModel(value=v0, cmp=m_cmp)
    else:
        m = M.PropertyModel(v0)
        eq_cmp(E)
    E.rep(m)
    E.check("C20 starts with the given value", E.eq(m.value, v0), E.eq(M.PropertyModel().value, None))
    w = Watch(E, "C20", m.property_changed_event, lambda: m.value, "value")
    g = E.ghost(calls=0, arg=None)

    def cb(x):
        g.calls = g.calls + 1
        g.arg = x
        E.check("C20 the value can be read by the callback", E.eq(m.value, x))
    has_cb = E.choose(2)
    if has_cb:
        m.on_value_changed = cb
    cur = v0
    for k in range(2):
        v = E.obj("v%d" % (k + 1))
        m.value = v
        d = differ(E, v, cur)
        cur = E.ite(d, v, cur)
        E.check("C20 reading returns the value last accepted", E.eq(m.value, cur))
        E.check("C20 notified once exactly when the value changed", E.eq(w.take(), E.ite(d, 1, 0)))
        E.check("C20 the callback is called once exactly when the value changed", E.eq(g.calls, E.ite(d, 1, 0) if has_cb else 0),
                E.implies(d, E.eq(g.arg, v)) if has_cb else True)
        g.calls = 0
    fresh = M.PropertyModel(cur, m_cmp) if own else M.PropertyModel(cur)
    fresh.on_value_changed = cb if has_cb else None
    E.same_state(m, fresh)
    m.close()
    E.check("C20 no callback after close", m.on_value_changed is None)


@contract("C20", ["Stream.ValueStream.value", "Stream.ValueStream.__init__"], EV)
def value_stream(E):
    S = E.load("Stream")
    v0 = E.obj("v0")
    s = S.ValueStream(v0)
    E.rep(s)
    E.check("C20 starts with the given value", E.eq(s.value, v0), E.eq(S.ValueStream().value, None))
    w = Watch(E, "C20", s.value_stream, lambda: s.value)
    cur = v0
    for k in range(2):
        v = E.obj("v%d" % (k + 1))
        s.value = v
        E.check("C20 the stream holds the value set", E.eq(s.value, v))
        E.check("C20 the stream is fired once with the new value exactly when it changed", E.eq(w.take(), E.ite(E.eq(v, cur), 0, 1)), E.implies(E.not_(E.eq(v, cur)), E.eq(w.g.last, v)))
        cur = v
    E.same_state(s, S.ValueStream(cur))


def in_stream(E, S, name="in"):
    """an input stream as the others see it: a value, an event, a count of references"""
    class In(S.AbstractStream):
        def __init__(self, v):
            super().__init__()
            self.value_stream = EventStub()
            self.g = E.ghost(refs=0, v=v, released=0)

        @property
        def value(self):
            return self.g.v

        def add_ref(self):
            self.g.refs = self.g.refs + 1
            return self

        def remove_ref(self, check=True):
            E.check("C22 no reference is given back twice", self.g.refs > 0)
            self.g.refs = self.g.refs - 1

        def send(self, v):
            self.g.v = v
            self.value_stream.fire(v)
    return In(E.obj(name))


def fresh_in(E, S, v):
    i = in_stream(E, S)
    i.g.v = v
    return i


def no_leak(E, s, ins, how=None):
    """release a derived stream and check the references"""
    how = E.choose(2) if how is None else how
    if how:
        s.close()
    else:
        s.add_ref()
        s.add_ref()
        s.remove_ref()
        for i in ins:
            E.check("C22 the inputs are kept while the stream is referenced", E.eq(i.g.refs, 1))
        s.remove_ref()
    for i in ins:
        E.check("C22 closing gives back the reference", E.eq(i.g.refs, 0))


@contract("C20 C22", ["Model.StreamValueModel.__init__", "Model.StreamValueModel.close"], EV)
def stream_value_model(E):
    L = E.loader()
    S, M = L.load("Stream"), L.load("Model")
    i = in_stream(E, S)
    own = E.choose(2)
    own_eq = lambda a, b: a == b        # noqa
    # the model holds the latest value: values equal under its comparison are the same value
    eq_cmp(E)
    m = M.StreamValueModel(i) if not own else M.StreamValueModel(i, value=E.obj("initial"), cmp=own_eq)
    E.rep(m)
    E.check("C22 one reference on the stream", E.eq(i.g.refs, 1))
    E.check("C20 a stream value model holds the latest value of its stream", E.eq(m.value, i.g.v))
    w = Watch(E, "C20", m.property_changed_event, lambda: m.value, "value")
    cur = i.g.v
    for k in range(2):
        v = E.obj("v")
        i.send(v)
        E.check("C20 a stream value model holds the latest value of its stream", E.eq(m.value, v))
        E.check("C20 notified once exactly when the value changed", E.eq(w.take(), E.ite(E.eq(v, cur), 0, 1)))
        cur = v
    E.check("C22 one reference on the stream", E.eq(i.g.refs, 1))
    E.same_state(m, M.StreamValueModel(fresh_in(E, S, cur)) if not own else M.StreamValueModel(fresh_in(E, S, cur), value=E.obj("initial"), cmp=own_eq))
    m.close()
    E.check("C22 closing gives back the reference", E.eq(i.g.refs, 0))
    i.send(E.obj("late"))
    E.check("C20 a closed model does not follow its stream", E.eq(m.value, cur), E.eq(w.take(), 0))


# ---------------------------------------------------------------- C21, C22

@contract("C21 C22", ["Stream.MapStream.__init__", "Stream.MapStream.value", "Stream.MapStream.close", "Stream.AbstractStream.about_to_delete"], EV)
def map_stream(E):
    S = E.load("Stream")
    i = in_stream(E, S)
    g = E.ghost(calls=0)

    def fn(x):
        g.calls = g.calls + 1
        return SObj(FN(obj_term(x)))
    s = S.MapStream(i, fn)
    E.rep(s)
    E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    F = lambda x: SObj(FN(obj_term(x)))
    cur = F(i.g.v)
    E.check("C21 a mapped stream holds the function of the input value", E.eq(s.value, cur))
    w = Watch(E, "C21", s.value_stream, lambda: s.value)
    for k in range(2):
        v = E.obj("v")
        i.send(v)
        E.check("C21 a mapped stream holds the function of the input value", E.eq(s.value, F(v)))
        E.check("C21 a mapped stream sends its value once when it differs", E.eq(w.take(), E.ite(E.eq(F(v), cur), 0, 1)))
        cur = F(v)
    E.same_state(s, S.MapStream(fresh_in(E, S, v), fn))
    E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    no_leak(E, s, [i])
    w.take()
    n = g.calls
    i.send(E.obj("late"))
    E.check("C21 nothing is derived after closing", E.eq(g.calls, n), E.eq(w.take(), 0))


@contract("C21 C22", ["Stream.CombineLatestStream.__init__", "Stream.CombineLatestStream.__handle_stream_value", "Stream.CombineLatestStream.__values_changed",
                      "Stream.CombineLatestStream.value", "Stream.CombineLatestStream.close"], EV + ["number of input streams enumerated from 0 to 4"])
def combine_stream(E):
    S = E.load("Stream")
    n = E.choose(5)
    ins = [in_stream(E, S, "in%d" % k) for k in range(n)]
    COMB = z3.Function("combine", *([Obj] * n), Obj) if n else z3.Const("combine0", Obj)
    own = E.choose(2)
    g = E.ghost(calls=0)

    def fn(*x):
        g.calls = g.calls + 1
        E.check("C21 the function gets one value per input", len(x) == n)
        return SObj(COMB(*[obj_term(y) for y in x])) if n else SObj(COMB)

    def want():
        vs = [i.g.v for i in ins]
        return (SObj(COMB(*[obj_term(y) for y in vs])) if n else SObj(COMB)) if own else tuple(vs)
    s = S.CombineLatestStream(ins, fn) if own else S.CombineLatestStream(ins)
    E.rep(s)
    for i in ins:
        E.check("C22 one reference on each input", E.eq(i.g.refs, 1))
    E.check("C21 a combined stream holds the function of the latest values of all inputs in order", E.eq(s.value, want()))
    w = Watch(E, "C21", s.value_stream, lambda: s.value)
    for k in range(2 if n else 0):
        j = E.choose(n)
        ins[j].send(E.obj("v"))
        E.check("C21 a combined stream holds the function of the latest values of all inputs in order", E.eq(s.value, want()))
        E.check("C21 a combined stream sends each update once", E.eq(w.take(), 1))
    again = [fresh_in(E, S, i.g.v) for i in ins]
    E.same_state(s, S.CombineLatestStream(again, fn) if own else S.CombineLatestStream(again))
    for i in ins:
        E.check("C22 one reference on each input", E.eq(i.g.refs, 1))
    no_leak(E, s, ins)
    w.take()
    c = g.calls
    for i in ins:
        i.send(E.obj("late"))
    E.check("C21 nothing is derived after closing", E.eq(g.calls, c), E.eq(w.take(), 0))


@contract("C22", ["Stream.CombineLatestStream.__init__", "Stream.CombineLatestStream.close"], EV)
def combine_same(E):
    S = E.load("Stream")
    i, j = in_stream(E, S, "a"), in_stream(E, S, "b")
    s = S.CombineLatestStream([i, j, i])
    E.check("C22 one reference for each use as an input", E.eq(i.g.refs, 2), E.eq(j.g.refs, 1))
    s.close()
    E.check("C22 closing gives back the references", E.eq(i.g.refs, 0), E.eq(j.g.refs, 0))


@contract("C21", ["Stream.ConstantStream.__init__", "Stream.ConstantStream.value"], EV)
def constant_stream(E):
    S = E.load("Stream")
    v = E.obj("v")
    s = S.ConstantStream(v)
    E.rep(s)
    E.check("C21 a constant stream holds its constant", E.eq(s.value, v))
    s.add_ref()
    E.check("C21 a constant stream holds its constant", E.eq(s.value, v))


class Source:
    """an observable object with a property"""

    def __init__(self, E, name):
        self.property_changed_event = EventStub()
        self.g = E.ghost(x=E.obj(name))

    @property
    def prop(self):
        return self.g.x

    def set(self, v, key="prop"):
        if key == "prop":
            self.g.x = v
        self.property_changed_event.fire(key)


@contract("C21 C22", ["Stream.PropertyChangedEventStream.__init__", "Stream.PropertyChangedEventStream.__property_changed", "Stream.PropertyChangedEventStream.value",
                      "Stream.PropertyChangedEventStream.close"], EV)
def property_stream(E):
    S = E.load("Stream")
    a, b = Source(E, "a"), Source(E, "b")
    streamed = E.choose(2)
    own = E.choose(2)
    if own:
        kw = {"cmp": lambda x, y: x == y}
    else:
        kw = {}
    i = None
    if streamed:
        i = in_stream(E, S, "unused")
        i.g.v = a if E.choose(2) else None
        s = S.PropertyChangedEventStream(i, "prop", **kw)
        E.check("C22 one reference on the source stream", E.eq(i.g.refs, 1))
        src = i.g.v
    else:
        s = S.PropertyChangedEventStream(a, "prop", **kw)
        src = a
    E.rep(s)
    if src is not None:
        E.check("C21 a property stream holds the current property of the source", E.eq(s.value, src.g.x))
    else:
        E.check("C21 a property stream without a source has no value", E.eq(s.value, None))
    cur = s.value
    w = Watch(E, "C21", s.value_stream, lambda: s.value)
    for k in range(2):
        op = E.pick(["set", "other", "replaced", "source", "again", "nosource"] if streamed else ["set", "other"])
        if op == "set":
            if src is None:
                continue
            src.set(E.obj("v"))
        elif op == "other":
            (src or a).set(None, "another")
        elif op == "replaced":
            # a change of a source that is not the latest one
            (b if src is a else a).set(E.obj("v"))
        elif op == "source":
            src = b if src is a else a
            i.send(src)
        elif op == "again":
            # the same source is sent once more, its property having changed meanwhile
            if src is None:
                continue
            src.g.x = E.obj("v")
            i.send(src)
        else:
            src = None
            i.send(None)
        want = src.g.x if op in ("set", "source", "again") else cur
        E.check("C21 a property stream holds the current property of the latest source", E.eq(s.value, want))
        E.check("C21 a property stream sends its value once when it differs", E.eq(w.take(), E.ite(E.eq(want, cur), 0, 1)))
        cur = want
    if streamed:
        old = Source(E, "c")
        old.g.x = cur
        j = fresh_in(E, S, old)
        again = S.PropertyChangedEventStream(j, "prop", **kw)
        j.send(src)
        E.same_state(s, again)
        again.close()
    else:
        E.same_state(s, S.PropertyChangedEventStream(src, "prop", **kw))
    no_leak(E, s, [i] if streamed else [])
    w.take()
    for x in (a, b):
        x.set(E.obj("late"))
    if streamed:
        i.send(b)
    E.check("C21 nothing is derived after closing", E.eq(w.take(), 0))


@contract("C21 C22", ["Stream.ConcatStream.__init__", "Stream.ConcatStream.__stream_changed", "Stream.ConcatStream.value", "Stream.ConcatStream.close"], EV)
def concat_stream(E):
    S = E.load("Stream")
    i = in_stream(E, S)
    made = []

    def item(name):
        """an input value: none, or an object that makes a stream"""
        v = E.obj(name)
        E.assume(E.iff(E.eq(v, None), SBool(z3.Not(TRUTHY(v.t)))))
        return v
    i.g.v = item("first")

    def fn(x):
        E.check("C21 a stream is made from the input value", E.eq(x, i.g.v))
        o = in_stream(E, S, "out%d" % len(made))
        made.append(o)
        return o
    s = S.ConcatStream(i, fn)
    E.rep(s)
    cur_item = i.g.v
    some = not (cur_item is None or bool(cur_item == None))     # noqa

    def state(msg):
        live = made[-1] if some else None
        for o in made:
            E.check("C22 the made stream is referenced exactly while it is the current one", E.eq(o.g.refs, 1 if o is live else 0))
        E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
        E.check("C21 a concatenated stream holds the latest value of the latest made stream", E.eq(s.value, live.g.v if live is not None else None))
    E.check("C21 one stream is made for each input value", len(made) == (1 if some else 0))
    state("constructed")
    w = Watch(E, "C21", s.value_stream, lambda: s.value)
    for k in range(2):
        op = E.pick(["item", "send", "old"])
        m = len(made)
        if op == "item":
            v = item("item")
            i.send(v)
            some = not bool(v == None)      # noqa
            E.check("C21 one stream is made for each input value", len(made) == m + (1 if some else 0))
            E.check("C21 a concatenated stream sends each update once", E.eq(w.take(), 1))
        elif op == "send":
            if not some:
                continue
            made[-1].send(E.obj("v"))
            E.check("C21 a concatenated stream sends each update once", E.eq(w.take(), 1))
        else:
            for o in (made[:-1] if some else made):
                o.send(E.obj("old"))
            E.check("C21 nothing comes from a replaced stream", E.eq(w.take(), 0))
        state(op)
    before = snap(s)
    how = E.choose(2)
    if how:
        s.close()
    else:
        s.add_ref()
        s.remove_ref()
    for o in made + [i]:
        E.check("C22 closing gives back the references", E.eq(o.g.refs, 0))
    w.take()
    m = len(made)
    last = made[-1].g.v if made and some else None
    now = i.g.v
    i.send(E.obj("late"))
    for o in made:
        o.send(E.obj("late"))
    E.check("C21 nothing is derived after closing", E.eq(w.take(), 0), len(made) == m)
    i.g.v = now
    again = S.ConcatStream(i, fn)
    if some:
        made[-1].send(last)
    E.same_state(before, again)


# ---------------------------------------------------------------- changes made by listeners

def once(event, act):
    """a listener that acts once, at the first notification"""
    st = [True]

    def fn(*a):
        if st[0]:
            st[0] = False
            act()
    return event.listen(fn)


@contract("C20", "Model.PropertyModel.value", EV)
def property_model_nested(E):
    M = E.load("Model")
    v0, v, v2 = E.obj("v0"), E.obj("v"), E.obj("v2")
    m_cmp = cmp_fn(E, "C20")
    m = M.PropertyModel(v0, m_cmp)
    notes, calls = [], []
    l = m.property_changed_event.listen(lambda k: notes.append(m.value))

    def act():
        m.value = v2
    where = E.choose(2)
    if where:
        l2 = once(m.property_changed_event, act)
        m.on_value_changed = calls.append
    else:
        def cb(x):
            calls.append(x)
            if len(calls) == 1:
                act()
        m.on_value_changed = cb
    m.value = v
    d1, d2 = bool(differ(E, v, v0)), bool(differ(E, v2, v))
    want = [v0, v, v2][d1 + (d1 and d2)]
    E.check("C20 reading returns the value last accepted", E.eq(m.value, want))
    E.check("C20 a change made by an observer is a change of its own", len(notes) == d1 + (d1 and d2), len(calls) == d1 + (d1 and d2))
    if d1 and d2 and len(calls) == 2:
        E.check("C20 the callback is called once with each new value", E.or_(E.and_(E.eq(calls[0], v), E.eq(calls[1], v2)), E.and_(E.eq(calls[0], v2), E.eq(calls[1], v))))
    elif d1 and len(calls) == 1:
        E.check("C20 the callback is called once with each new value", E.eq(calls[0], v))


@contract("C20", "Stream.ValueStream.value", EV)
def value_stream_nested(E):
    S = E.load("Stream")
    v0, v, v2 = E.obj("v0"), E.obj("v"), E.obj("v2")
    s = S.ValueStream(v0)
    got = []

    def act():
        s.value = v2
    l1 = s.value_stream.listen(got.append)
    l2 = once(s.value_stream, act)
    s.value = v
    d1, d2 = not bool(E.eq(v, v0)), not bool(E.eq(v2, v))
    E.check("C20 the stream holds the value set", E.eq(s.value, [v0, v, v2][d1 + (d1 and d2)]))
    E.check("C20 the stream is fired once with each new value", len(got) == d1 + (d1 and d2), E.eq(got[0], v) if got else True, E.eq(got[1], v2) if len(got) > 1 else True)


@contract("C21", ["Stream.MapStream.__init__", "Stream.CombineLatestStream.__values_changed", "Stream.CombineLatestStream.__handle_stream_value",
                  "Stream.PropertyChangedEventStream.__property_changed", "Stream.ConcatStream.__stream_changed"], EV)
def derived_nested(E):
    """a listener of the derived stream makes an input send again: afterwards the derived value belongs to the latest inputs"""
    S = E.load("Stream")
    kind = E.pick(["map", "combine", "property", "concat"])
    F = lambda x: SObj(FN(obj_term(x)))
    if kind == "map":
        i = in_stream(E, S)
        s = S.MapStream(i, F)
        first, second = (lambda: i.send(E.obj("v"))), (lambda: i.send(E.obj("v2")))
        want = lambda: F(i.g.v)
    elif kind == "combine":
        ins = [in_stream(E, S, "a"), in_stream(E, S, "b")]
        s = S.CombineLatestStream(ins)
        j, k = E.choose(2), E.choose(2)
        first, second = (lambda: ins[j].send(E.obj("v"))), (lambda: ins[k].send(E.obj("v2")))
        want = lambda: tuple(x.g.v for x in ins)
    elif kind == "property":
        i = in_stream(E, S, "unused")
        a, b = Source(E, "a"), Source(E, "b")
        i.g.v = a
        s = S.PropertyChangedEventStream(i, "prop")
        acts = [lambda: i.g.v.set(E.obj("v")), lambda: i.send(b), lambda: i.send(a)]
        first, second = acts[E.choose(3)], acts[E.choose(3)]
        want = lambda: i.g.v.g.x
    else:
        i = in_stream(E, S)
        made = []

        def item(name):
            v = E.obj(name)
            E.assume(E.iff(E.eq(v, None), SBool(z3.Not(TRUTHY(v.t)))))
            return v

        def fn(x):
            o = in_stream(E, S, "out%d" % len(made))
            made.append(o)
            return o
        i.g.v = item("first")
        s = S.ConcatStream(i, fn)
        # the stream made last, if any, may send
        acts = [lambda: i.send(item("item")), lambda: made[-1].send(E.obj("v")) if made and not bool(E.eq(i.g.v, None)) else i.send(item("item"))]
        first, second = acts[E.choose(2)], acts[E.choose(2)]
        want = lambda: made[-1].g.v if not bool(E.eq(i.g.v, None)) else None
    l = once(s.value_stream, second)
    first()
    E.check(f"C21 a change made while a value is sent is derived ({kind})", E.eq(s.value, want()))


# ---------------------------------------------------------------- C22, C23

class Cancelled(BaseException):
    pass


class Task:
    """a task of an event loop: its coroutine runs from one elapsed sleep to the next"""

    def __init__(self, coro):
        self.coro, self.callbacks, self.done, self.started = coro, [], False, False

    def add_done_callback(self, fn):
        self.callbacks.append(fn)

    def cancel(self):
        if self.done:
            return
        self.done = True
        if self.started:
            try:
                self.coro.throw(Cancelled())
            except (Cancelled, StopIteration):
                pass
        else:
            self.coro.close()
        for c in self.callbacks:
            c(self)

    def start(self):
        if not self.started and not self.done:
            self.started = True
            self.coro.send(None)

    def elapse(self):
        """the sleep is over"""
        self.start()
        try:
            self.coro.send(None)
        except StopIteration:
            pass
        self.done = True
        for c in self.callbacks:
            c(self)


class Loop:
    def __init__(self):
        self.tasks = []

    def create_task(self, coro):
        t = Task(coro)
        self.tasks.append(t)
        return t

    def pending(self):
        return [t for t in self.tasks if not t.done]


def timed_lib(E, period):
    @types.coroutine
    def sleep(d, *a):
        E.check("C23 the period is waited for", E.eq(d, period))
        yield

    return {"asyncio": Namespace(sleep=sleep, AbstractEventLoop=object, CancelledError=Cancelled)}


@contract("C22 C23", ["Stream.DebounceStream.__init__", "Stream.DebounceStream.__value_changed", "Stream.DebounceStream.debounce_delay", "Stream.DebounceStream.value",
                      "Stream.DebounceStream.close"], EV + ["asyncio tasks and sleep by a stand-in: a created task runs its coroutine to the end of its sleep, once"])
def debounce_stream(E):
    period = E.real("period")
    S = E.load("Stream", lib=timed_lib(E, period))
    i = in_stream(E, S)
    L = Loop()
    s = S.DebounceStream(i, period, L)
    E.rep(s)
    E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    E.check("C23 construction starts a period", len(L.tasks) == 1)
    pending = 1
    w = Watch(E, "C23", s.value_stream, lambda: s.value)
    latest = i.g.v
    for k in range(4):
        n = len(L.tasks)
        op = E.pick(["arrive", "elapse", "start"])
        if op == "arrive":
            latest = E.obj("v")
            i.send(latest)
            E.check("C23 a period starts exactly when none is pending", len(L.tasks) == n + (0 if pending else 1))
            E.check("C23 nothing is sent before the period is over", E.eq(w.take(), 0))
            pending = 1
        elif op == "start":
            for t in L.pending():
                t.start()
            E.check("C23 nothing is sent before the period is over", E.eq(w.take(), 0))
        else:
            if not pending:
                continue
            t = L.pending()
            E.check("C23 one period at a time", len(t) == 1)
            # a value may arrive in response to the one sent
            again = E.choose(2)
            extra = E.obj("response")
            answer = s.value_stream.listen(lambda x: i.send(extra)) if again else None
            for x in t:
                x.elapse()
            E.check("C23 the latest value is sent once when the period is over", E.eq(w.take(), 1), E.eq(w.g.last, latest))
            pending = 0
            if again:
                answer.close()
                latest, pending = extra, 1
            E.check("C23 a period starts exactly when a value arrives", len(L.tasks) == n + pending)
        E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    again = S.DebounceStream(fresh_in(E, S, latest), period, L2 := Loop())
    if not pending:
        L2.tasks[0].elapse()
    E.same_state(s, again)
    no_leak(E, s, [i])
    i.send(E.obj("late"))
    for t in L.pending():
        t.elapse()
    E.check("C23 nothing is sent after closing", E.eq(w.take(), 0))


@contract("C22 C23", ["Stream.SampleStream.__init__", "Stream.SampleStream.__value_changed", "Stream.SampleStream.sample_loop", "Stream.SampleStream.value",
                      "Stream.SampleStream.close"], EV + ["asyncio tasks and sleep by a stand-in: a created task runs its coroutine to the end of its sleep, once"])
def sample_stream(E):
    period = E.real("period")
    S = E.load("Stream", lib=timed_lib(E, period))
    i = in_stream(E, S)
    L = Loop()
    s = S.SampleStream(i, period, L)
    E.rep(s)
    E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    E.check("C23 construction starts a period", len(L.pending()) == 1)
    w = Watch(E, "C23", s.value_stream, lambda: s.value)
    latest, arrived = i.g.v, True
    held = s.value
    for k in range(4):
        op = E.pick(["arrive", "elapse", "start"])
        if op == "arrive":
            latest, arrived = E.obj("v"), True
            i.send(latest)
            E.check("C23 nothing is sent before the period is over", E.eq(w.take(), 0), E.eq(s.value, held))
        elif op == "start":
            for t in L.pending():
                t.start()
            E.check("C23 nothing is sent before the period is over", E.eq(w.take(), 0), E.eq(s.value, held))
        else:
            t = L.pending()
            # a value may arrive in response to the sample sent
            again = arrived and E.choose(2)
            extra = E.obj("response")
            answer = s.value_stream.listen(lambda x: i.send(extra)) if again else None
            for x in t:
                x.elapse()
            E.check("C23 a sample is sent once if a value arrived since the last", E.eq(w.take(), 1 if arrived else 0), E.eq(w.g.last, latest) if arrived else True)
            if arrived:
                held = latest
            E.check("C23 the sample is held", E.eq(s.value, held))
            arrived = False
            if again:
                answer.close()
                latest, arrived = extra, True
        E.check("C23 one period at a time, always", len(L.pending()) == 1)
        E.check("C22 one reference on the input", E.eq(i.g.refs, 1))
    again = S.SampleStream(j := fresh_in(E, S, held), period, L2 := Loop())
    if not arrived:
        L2.pending()[0].elapse()
    else:
        j.send(latest)
    E.same_state(s, again)
    no_leak(E, s, [i])
    i.send(E.obj("late"))
    for t in L.pending():
        t.elapse()
    E.check("C23 nothing is sent after closing", E.eq(w.take(), 0), len(L.pending()) == 0)
