"""Contracts of Binding.py (C18): conversion chain, tracking of the source, closing."""
from engine.api import *

EV = ["Event.Event.fire, listen (contract C05)"]
CONV = z3.Function("convert", Obj, Obj)
BACK = z3.Function("convert_back", Obj, Obj)
VALID = z3.Function("validate", Obj, Obj)
ap = lambda f, x: SObj(f(obj_term(x)))


class Owner:
    """an observable object with a property (the value is ghost state) and counts of how it is set"""

    def __init__(self, E, value):
        self.property_changed_event = EventStub()
        self.g = E.ghost(x=value, y=None, sets=0, others=0)

    @property
    def prop(self):
        return self.g.x

    @prop.setter
    def prop(self, v):
        self.g.x = v
        self.g.sets = self.g.sets + 1

    @property
    def other(self):
        return self.g.y

    @other.setter
    def other(self, v):
        self.g.others = self.g.others + 1


class Converter:
    def __init__(self, E):
        self.g = E.ghost(calls=0)
        self.E = E

    def convert(self, x):
        return ap(CONV, x)

    def convert_back(self, x):
        return ap(BACK, x)


class Validator:
    def validate(self, x):
        return ap(VALID, x)


class Target:
    def __init__(self, E):
        self.g = E.ghost(n=0, v=None)

    def set(self, v):
        self.g.n = self.g.n + 1
        self.g.v = v

    def take(self):
        n = self.g.n
        self.g.n = 0
        return n


def parts(E, validators=True):
    conv = Converter(E) if E.choose(2) else None
    valid = Validator() if validators and E.choose(2) else None
    fall = E.obj("fallback") if E.choose(2) else None
    to = (lambda x: ap(CONV, x)) if conv else (lambda x: x)

    def back(x):
        x = ap(BACK, x) if conv else x
        return ap(VALID, x) if valid else x
    return conv, valid, fall, to, back


def setter_tests(E, b, src, want, announce, also=None):
    """the binding tells its target what want() says, exactly once for each announcement of its property"""
    t = Target(E)
    E.check("C18 the initial target value is the converted source value or the fallback", E.eq(b.get_target_value(), want()))
    announce()      # no target setter yet: nothing to tell
    b.target_setter = t.set
    E.check("C18 setting up does not touch the source", E.eq(src.g.sets, 0), E.eq(src.g.others, 0))
    announce()
    E.check("C18 the target is set exactly once to the converted value or the fallback", E.eq(t.take(), 1),
            E.or_(E.eq(t.g.v, want()), E.eq(t.g.v, also[0]) if also else False))
    src.property_changed_event.fire("other")
    E.check("C18 other properties are not relayed", E.eq(t.take(), 0))
    E.check("C18 relaying does not touch the source", E.eq(src.g.sets, 0), E.eq(src.g.others, 0))
    return t


def closed(E, b, src, t):
    t.take()
    n = src.g.sets
    b.close()
    src.property_changed_event.fire("prop")
    b.update_source(E.obj("late"))
    E.check("C18 nothing is relayed after closing", E.eq(t.take(), 0), E.eq(src.g.sets, n), E.eq(src.g.others, 0))


@contract("C18", ["Binding.Binding.update_source", "Binding.Binding.update_target", "Binding.Binding.update_target_direct", "Binding.Binding.get_target_value",
                  "Binding.PropertyBinding.__init__", "Binding.PropertyBinding.close", "Binding.Binding.close"], EV)
def property_binding(E):
    B = E.load("Binding")
    src = Owner(E, E.obj("value"))
    conv, valid, fall, to, back = parts(E)
    b = B.PropertyBinding(src, "prop", converter=conv, validator=valid, fallback=fall)
    E.rep(b)
    E.check("C18 the source is kept", b.source is src, b.converter is conv, b.validator is valid)
    want = lambda: fall if bool(E.eq(src.g.x, None)) else to(src.g.x)
    t = setter_tests(E, b, src, want, lambda: src.property_changed_event.fire("prop"))
    src.g.x = E.obj("value2")
    src.property_changed_event.fire("prop")
    E.check("C18 the target is set exactly once to the converted value or the fallback", E.eq(t.take(), 1), E.eq(t.g.v, want()))
    v = E.obj("from_target")
    b.update_source(v)
    E.check("C18 the property is set once to the validated, back-converted value", E.eq(src.g.x, back(v)), E.eq(src.g.sets, 1), E.eq(src.g.others, 0))
    E.check("C18 the initial target value is the converted source value or the fallback", E.eq(b.get_target_value(), want()))
    d = E.obj("direct")
    t.take()
    b.update_target_direct(d)
    E.check("C18 a direct update is not converted", E.eq(t.take(), 1), E.eq(t.g.v, d))
    b.update_target(d)
    E.check("C18 an update is converted", E.eq(t.take(), 1), E.eq(t.g.v, to(d)))
    closed(E, b, src, t)


@contract("C18", ["Binding.PropertyAttributeBinding.__init__", "Binding.PropertyAttributeBinding.close"], EV)
def attribute_binding(E):
    B = E.load("Binding")
    kind = E.pick(["none", "without", "with"])

    class Value:
        pass
    o = None if kind == "none" else Value()
    if kind == "with":
        o.attr = E.obj("attr")
        o.attr2 = E.obj("attr2")
        second = o.attr2
    src = Owner(E, o)
    conv, valid, fall, to, back = parts(E, False)
    fn_calls = E.ghost(n=0)
    new_value = Value()

    def update(value, name, x):
        fn_calls.n = fn_calls.n + 1
        E.check("C18 the attribute is named to the updating function", value is o, name == "attr")
        fn_calls.x = x
        return new_value
    own = E.choose(2)
    b = B.PropertyAttributeBinding(src, "prop", "attr", conv, fall, update) if own else B.PropertyAttributeBinding(src, "prop", "attr", converter=conv, fallback=fall)
    E.rep(b)

    def want():
        x = getattr(src.g.x, "attr", None)
        if x is None or bool(E.eq(x, None)):
            return fall
        return to(x)
    # an attribute that is there but None: the statement leaves open whether that is a value
    also = (to(None),) if kind == "with" and bool(E.eq(o.attr, None)) else None
    t = setter_tests(E, b, src, want, lambda: src.property_changed_event.fire("prop"), also)
    if kind != "none" or own:
        v = E.obj("from_target")
        b.update_source(v)
        if own:
            E.check("C18 the property is set once to what the updating function returns", src.g.x is new_value, E.eq(src.g.sets, 1), E.eq(fn_calls.n, 1), E.eq(fn_calls.x, back(v)))
        else:
            E.check("C18 the attribute is set once to the back-converted value", src.g.x is o, E.eq(o.attr, back(v)), E.eq(src.g.sets, 1))
            if kind == "with":
                E.check("C18 other attributes are left alone", E.eq(o.attr2, second))
        E.check("C18 other properties are left alone", E.eq(src.g.others, 0))
    closed(E, b, src, t)


@contract("C18", ["Binding.TuplePropertyBinding.__init__", "Binding.TuplePropertyBinding.close"], EV)
def tuple_binding(E):
    B = E.load("Binding")
    none = E.choose(2)
    tup = None if none else E.objlist("tuple", nonone=False)
    n = 0 if none else E.len(tup)
    k = E.int("index")
    E.assume(k >= 0)
    old = None if none else E.copylist(tup)
    src = Owner(E, tup)
    conv, valid, fall, to, back = parts(E, False)
    b = B.TuplePropertyBinding(src, "prop", k, converter=conv, fallback=fall)
    E.rep(b)
    E.list_hints.append(lambda L, l, l0: E.and_(E.len(l) >= E.len(l0), E.or_(E.eq(E.len(l), E.len(l0)), E.len(l) <= k + 1)))
    E.list_hints.append(lambda L, l, l0: E.forall_in(E.len(l0), lambda j: E.eq(l.elem(j), l0.elem(j))))
    E.list_hints.append(lambda L, l, l0: E.forall("int", lambda j: E.implies(E.and_(j >= E.len(l0), j < E.len(l)), E.eq(l.elem(j), None))))

    def want():
        if none or bool(k >= n):
            return fall
        x = old.elem(k)
        return fall if bool(E.eq(x, None)) else to(x)
    # an element that is None: the statement leaves open whether that is a value
    also = (to(None),) if not none and bool(k < n) and bool(E.eq(old.elem(k), None)) else None
    t = setter_tests(E, b, src, want, lambda: src.property_changed_event.fire("prop"), also)
    v = E.obj("from_target")
    b.update_source(v)
    new = src.g.x
    m = E.len(new)
    E.check("C18 the property is set once", E.eq(src.g.sets, 1), E.eq(src.g.others, 0))
    E.check("C18 the tuple is padded as needed", E.eq(m, E.ite(k < n, n, k + 1)))
    E.check("C18 the tuple element is the back-converted value", E.eq(new[k], back(v)))
    if not none:
        E.check("C18 the other elements are left alone", E.forall("int", lambda j: E.implies(E.and_(j >= 0, j < n, E.not_(E.eq(j, k))), E.eq(new.elem(j), old.elem(j)))))
        E.check("C18 the old tuple is left alone", E.same_list(tup, old))
    E.check("C18 padding is None", E.forall("int", lambda j: E.implies(E.and_(j >= n, j < k), E.eq(new.elem(j), None))))
    closed(E, b, src, t)


@contract("C18", ["Binding.ListBinding.__init__", "Binding.ListBinding.close", "Binding.ListBinding.items"], EV)
def list_binding(E):
    B = E.load("Binding")

    class Src:
        item_inserted_event = EventStub()
        item_removed_event = EventStub()
        things = ["the items"]
    src = Src()
    b = B.ListBinding(src, "things")
    E.rep(b)
    E.check("C18 the items are those of the source", b.items is src.things)
    g = E.ghost(ins=0, rem=0, item=None, index=None)

    def ins(item, i):
        g.ins = g.ins + 1
        g.item, g.index = item, i

    def rem(i):
        g.rem = g.rem + 1
        g.index = i
    x, i = E.obj("x"), E.int("i")
    src.item_inserted_event.fire("things", x, i)
    src.item_removed_event.fire("things", x, i)
    if E.choose(2):
        b.inserter = ins
        src.item_removed_event.fire("things", x, i)
        E.check("C18 nothing is told to a remover that is not there", E.eq(g.ins, 0), E.eq(g.rem, 0))
        b.remover = rem
    else:
        b.remover = rem
        src.item_inserted_event.fire("things", x, i)
        E.check("C18 nothing is told to an inserter that is not there", E.eq(g.ins, 0), E.eq(g.rem, 0))
        b.inserter = ins
    for _ in range(2):
        x, i = E.obj("x"), E.int("i")
        op = E.pick(["in", "out", "other in", "other out"])
        g.ins = g.rem = 0
        if op == "in":
            src.item_inserted_event.fire("things", x, i)
            E.check("C18 an insertion is relayed once with item and index", E.eq(g.ins, 1), E.eq(g.rem, 0), E.eq(g.item, x), E.eq(g.index, i))
        elif op == "out":
            src.item_removed_event.fire("things", x, i)
            E.check("C18 a removal is relayed once with its index", E.eq(g.rem, 1), E.eq(g.ins, 0), E.eq(g.index, i))
        else:
            (src.item_inserted_event if op == "other in" else src.item_removed_event).fire("others", x, i)
            E.check("C18 other keys are not relayed", E.eq(g.ins, 0), E.eq(g.rem, 0))
    b.close()
    g.ins = g.rem = 0
    src.item_inserted_event.fire("things", x, i)
    src.item_removed_event.fire("things", x, i)
    E.check("C18 nothing is relayed after closing", E.eq(g.ins, 0), E.eq(g.rem, 0))
