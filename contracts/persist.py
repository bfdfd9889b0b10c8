"""Contracts of Persistence.py (C26, C27, C28)."""
from engine.api import *
from engine.loader import FakeWeakRef, deepcopy

COPYING = "copy.deepcopy of a value: a new object with the same content"
CONVERT = "converters: convert_back undoes convert on the values used; validators accept what they returned"
CTX = "PersistentObjectContext by its contract (C28): passes the requests on to the storage"


class World:
    """values are objects with a content; copies are new objects with the same content"""

    def __init__(self, E):
        self.E = E
        self.content = E.fresh_fn("content", Obj, Obj)
        self.age = E.fresh_fn("age", Obj, IntS)
        self.born = 0
        E.deepcopy_hook = self.copied
        self.validc = E.fresh_fn("valid_content", Obj, Obj)
        self.convc = E.fresh_fn("json_content", Obj, Obj)
        self.backc = E.fresh_fn("back_content", Obj, Obj)
        self.json_always = self.json_faithful = False

    def new(self, content, name="value"):
        """an object nobody had before, with that content"""
        x = self.E.obj(name)
        self.born += 1
        self.none(x)
        self.E.assume(SBool(z3.And(self.content(x.t) == content, z3.Or(x.t == NONE, self.age(x.t) == self.born))))
        return x

    def given(self, name):
        x = self.E.obj(name)
        self.none(x)
        self.E.assume(SBool(self.age(x.t) <= 0))
        return x

    def none(self, x):
        """None is the only object with its content (facts about the values at hand, not about all: the solver stays complete)"""
        self.E.assume(SBool((self.content(x.t) == self.content(NONE)) == (x.t == NONE)))

    def copied(self, x):
        return self.new(self.content(obj_term(x)), "copy")

    def C(self, x):
        return self.content(obj_term(x))

    def same(self, a, b):
        return SBool(self.C(a) == self.C(b))

    def fresh_after(self, x, born):
        """x is None or was made after the given moment"""
        t = obj_term(x)
        return SBool(z3.Or(t == NONE, self.age(t) > born))

    def validate(self, x):
        c = self.validc(self.C(x))
        self.E.assume(SBool(self.validc(c) == c))
        return self.new(c, "valid")

    def convert(self, x):
        c = self.convc(self.C(x))
        self.E.assume(SBool(self.backc(c) == self.C(x)))
        if self.json_faithful:
            self.E.assume(SBool(z3.Implies(c == self.content(NONE), obj_term(x) == NONE)))
        if self.json_always:
            self.E.assume(SBool(c != self.content(NONE)))
        return self.new(c, "json")

    def convert_back(self, x):
        return self.new(self.backc(self.C(x)), "back")


class Conv:
    def __init__(self, w):
        self.convert, self.convert_back = w.convert, w.convert_back


class Made:
    """a value of a property with a maker: an object that writes itself to a dict and reads it back"""

    def __init__(self, E, w, state):
        self.E, self.w, self.state = E, w, state

    def write_dict(self):
        return self.w.convert(self.state)

    def read_dict(self, d):
        self.state = self.w.convert_back(d)

    def __deepcopy__(self, memo):
        return Made(self.E, self.w, self.w.copied(self.state))


class Ctx:
    """a persistent object context that records what it is asked"""

    def __init__(self, E):
        self.log = []
        for n in ("property_changed", "clear_property", "item_inserted", "item_removed", "item_set", "register", "unregister"):
            setattr(self, n, lambda *a, n=n: self.log.append((n,) + a))


def objects(E, lib=None):
    P = E.load("Persistence", lib=lib)
    return P, World(E)


def define(E, P, w, opts, log):
    """a class of persistent objects with the property under study and another one"""
    class Thing(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("thing")
            self.define_property("other", None, key="other_key")
            self.define_property("p", opts.get("value"), hidden=opts.get("hidden", False), read_only=opts.get("read_only", False),
                                 copy_on_read=opts.get("copy", False),
                                 validate=w.validate if opts.get("validate") else None,
                                 converter=Conv(w) if opts.get("converter") else None,
                                 changed=(lambda name, value: log.append((name, value))) if opts.get("changed") else None,
                                 key="p_key" if opts.get("key") else None,
                                 make=opts.get("make"), reader=opts.get("reader"), writer=opts.get("writer"))
            self.define_property("last", None)
    return Thing


def pick(E, *names):
    return {n: bool(E.choose(2, n)) for n in names}


@contract("C26", ["Persistence.PersistentObject.__setattr__", "Persistence.PersistentProperty.set_value", "Persistence.PersistentProperty.write_to_dict",
                  "Persistence.PersistentObject._update_persistent_object_context_property", "Persistence.PersistentPropertySpecial",
                  "Persistence.PersistentObject._set_persistent_property_value", "Persistence.PersistentObject.__getattr__", "Persistence.PersistentObject.define_property"],
          [COPYING, CONVERT, CTX])
def set_property(E):
    P, w = objects(E)
    o = pick(E, "validate", "changed", "converter", "key", "copy")
    o["value"] = w.given("initial")
    log = []
    Thing = define(E, P, w, o, log)
    x = Thing()
    other, last = w.given("other"), w.given("last")
    x.other = other
    x.last = last
    ctx = Ctx(E)
    if E.choose(2, "context"):
        x.persistent_object_context = ctx
    in_ctx = x.persistent_object_context is not None
    ctx.log.clear()
    E.rep(x, x._get_persistent_property("p"))
    count, state = x.modified_count, x.modified_state
    v = w.given("v")
    born = w.born
    if E.choose(2, "route"):
        x.p = v
    else:
        x._set_persistent_property_value("p", v)
    want = w.validc(w.C(v)) if o["validate"] else w.C(v)
    got = x.p
    E.check("C26 the property has the validated value, or a copy of the value", SBool(w.C(got) == want), w.fresh_after(got, born))
    again = x.p
    if o["copy"]:
        E.check("C26 a copy-on-read property hands out a new copy each time", SBool(z3.Or(obj_term(got) == NONE, obj_term(got) != obj_term(again))))
        if log:
            E.check("C26 a copy-on-read property does not hand out the stored object", SBool(z3.Or(obj_term(got) == NONE, obj_term(got) != obj_term(log[0][1]))))
    else:
        E.check("C26 reading gives the stored value", E.eq(got, again))
    E.check("C26 the changed callback is called once if there is one", len(log) == (1 if o["changed"] else 0))
    for name, value in log:
        E.check("C26 with the name and the stored value", name == "p", SBool(w.C(value) == want))
    E.check("C26 one modification", E.eq(x.modified_count, count + 1), E.eq(x.modified_state, state + 1))
    E.check("C26 other properties keep their values", w.same(x.other, other), w.same(x.last, last))
    json = w.convc(want) if o["converter"] else want
    key = "p_key" if o["key"] else "p"
    E.check("C26 one request to the context, none without", len(ctx.log) == (1 if in_ctx else 0))
    for r in ctx.log:
        if r[0] == "property_changed":
            E.check("C26 the storage key is written with the converted value", r[1] is x, r[2] == key, SBool(w.C(r[3]) == json), SBool(json != w.content(NONE)))
        else:
            E.check("C26 the storage key is cleared when there is no value", r[0] == "clear_property", r[1] is x, r[2] == key, SBool(json == w.content(NONE)))


@contract("C26", ["Persistence.PersistentObject.__setattr__", "Persistence.PersistentObject.__getattr__"], [COPYING, CTX])
def refuse_read_only(E):
    P, w = objects(E)
    log = []
    v0 = w.given("v0")
    Thing = define(E, P, w, {"read_only": True, "changed": True, "value": v0, "copy": bool(E.choose(2))}, log)
    x = Thing()
    ctx = Ctx(E)
    x.persistent_object_context = ctx
    ctx.log.clear()
    n = x.modified_count
    raised, _ = E.raises(AttributeError, lambda: setattr(x, "p", w.given("v")))
    E.check("C26 a read-only property refuses assignment", raised)
    E.check("C26 and nothing changes", w.same(x.p, v0), not log, not ctx.log, E.eq(x.modified_count, n))


def chain(E, P, depth):
    class Node(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_property("p", None)
            self.define_item("child", None)
            self.define_relationship("children", None)
    top = node = Node()
    nodes = [top]
    for i in range(depth):
        n = Node()
        if E.choose(2, "how"):
            node.set_item("child", n)
        else:
            node.append_item("children", n)
        node = n
        nodes.append(n)
    return nodes


@contract("C26", ["Persistence.PersistentObject.__update_modified"], ["objects nested up to four deep (bounded); any depth by ancestors_inductive"])
def ancestors(E):
    P, w = objects(E)
    nodes = chain(E, P, E.choose(4, "depth"))
    before = [(n.modified_count, n.modified_state) for n in nodes]
    k = E.choose(len(nodes), "which")
    nodes[k].p = w.given("v")
    for i, n in enumerate(nodes):
        d = 1 if i <= k else 0
        E.check("C26 a change counts once in the object and in each ancestor", E.eq(n.modified_count, before[i][0] + d), E.eq(n.modified_state, before[i][1] + d))
    E.check("C26 the ancestors have the same modification time", all(n.modified == nodes[k].modified for n in nodes[:k]))


@contract("C26", ["Persistence.PersistentObject.__update_modified"], ["counting in the ancestors of the parent: the property itself (induction on the depth)"])
def ancestors_inductive(E):
    P, w = objects(E)
    nodes = chain(E, P, 1)
    top, x = nodes
    called = []
    name = "_PersistentObject__update_modified"
    if not hasattr(P.PersistentObject, name):
        raise Unsupported("modifications are not counted one level at a time")
    object.__setattr__(top, name, lambda *a: called.append(a))
    c, s = E.int("count"), E.int("state")
    E.setp(x, "PersistentObject", "modified_count", c)
    x.modified_state = s
    above = top.modified_count
    x.p = w.given("v")
    E.check("C26 the object counts one modification", E.eq(x.modified_count, c + 1), E.eq(x.modified_state, s + 1))
    if not called and top.modified_count == above + 1:
        raise Unsupported("modifications are not counted one level at a time")      # bounded depth only (contract ancestors)
    E.check("C26 and has its parent count one", len(called) == 1)


@contract("C26", ["Persistence.PersistentProperty.write_to_dict", "Persistence.PersistentProperty.read_from_dict", "Persistence.PersistentProperty.json_value"], [COPYING, CONVERT])
def property_roundtrip(E):
    P, w = objects(E)
    o = pick(E, "validate", "converter", "key", "copy")
    log = []
    o["changed"] = True
    Thing = define(E, P, w, o, log)
    x = Thing()
    v = w.given("v")
    x.p = v
    stored = x.p
    key = "p_key" if o["key"] else "p"
    bystander, stale = w.given("bystander"), w.given("stale")
    d = VDict({"bystander": bystander})
    if E.choose(2, "stale"):
        d[key] = stale
    x._get_persistent_property("p").write_to_dict(d)
    E.check("C26 writing touches only the storage key", E.eq(d["bystander"], bystander), set(d.keys_native()) <= {"bystander", key})
    json = w.convc(w.C(stored)) if o["converter"] else w.C(stored)
    if key in d:
        E.check("C26 the converted value is written under the storage key", SBool(w.C(d[key]) == json), SBool(json != w.content(NONE)))
        if not o["converter"]:
            E.check("C26 the dict does not share the value", E.not_(E.eq(d[key], stored)))
    else:
        E.check("C26 nothing is written only when there is no value", SBool(json == w.content(NONE)))
    y = Thing()
    prev = w.given("prev")
    y.p = prev
    prev = y.p
    log.clear()
    had = key in d
    snap = {k: d[k] for k in d.keys_native()}
    y._get_persistent_property("p").read_from_dict(d)
    E.check("C26 reading does not change the dict", set(snap) == set(d.keys_native()), *[E.eq(d[k], snap[k]) for k in snap])
    if had:
        E.check("C26 reading restores the value", w.same(y.p, stored), len(log) == 1)
    else:
        E.check("C26 reading without the key leaves the value alone", w.same(y.p, prev), len(log) == 0)


@contract("C26", ["Persistence.PersistentProperty.write_to_dict", "Persistence.PersistentProperty.read_from_dict"],
          [COPYING, CONVERT, "values made by the property write themselves to a dict and read it back"])
def made_roundtrip(E):
    P, w = objects(E)
    w.json_always = True
    o = {"make": lambda: Made(E, w, None), "key": bool(E.choose(2)), "changed": True}
    log = []
    Thing = define(E, P, w, o, log)
    x = Thing()
    key = "p_key" if o["key"] else "p"
    none = E.choose(2, "none")
    s = w.given("state")
    E.assume(E.not_(E.eq(s, None)))
    ctx = Ctx(E)
    x.persistent_object_context = ctx
    ctx.log.clear()
    x.p = None if none else Made(E, w, s)
    if none:
        E.check("C26 no value: the storage key is cleared", ctx.log == [("clear_property", x, key)])
    else:
        E.check("C26 the dict of the value is written under the storage key", len(ctx.log) == 1 and ctx.log[0][:3] == ("property_changed", x, key) and w.same(ctx.log[0][3], w.convert(s)))
    d = VDict({key: w.given("stale")}) if E.choose(2) else VDict()
    x._get_persistent_property("p").write_to_dict(d)
    E.check("C26 the storage key is written only with a value", (key in d) == (not none), len(d.d) == (0 if none else 1))
    y = Thing()
    log.clear()
    y._get_persistent_property("p").read_from_dict(d)
    if none:
        E.check("C26 reading without the key leaves the value alone", y.p is None, not log)
    else:
        E.check("C26 reading restores the value", isinstance(y.p, Made) and w.same(y.p.state, s), len(log) == 1, y.p is not x.p)


@contract("C26", ["Persistence.PersistentProperty.write_to_dict", "Persistence.PersistentProperty.read_from_dict"], [COPYING])
def custom_roundtrip(E):
    P, w = objects(E)
    calls = []

    def reader(prop, properties):
        calls.append("r")
        return properties.get("mine")

    def writer(prop, properties, value):
        calls.append("w")
        if not bool(E.eq(value, None)):
            properties["mine"] = value
    o = {"reader": reader, "writer": writer, "changed": True, "copy": bool(E.choose(2))}
    log = []
    Thing = define(E, P, w, o, log)
    x = Thing()
    v = w.given("v")
    x.p = v
    d = VDict()
    calls.clear()
    x._get_persistent_property("p").write_to_dict(d)
    E.check("C26 the writer writes", calls == ["w"], E.eq(E.not_(E.eq(v, None)), "mine" in d), "p" not in d)
    y = Thing()
    prev = w.given("prev")
    y.p = prev
    log.clear()
    y._get_persistent_property("p").read_from_dict(d)
    if "mine" in d:
        E.check("C26 what the reader reads is restored", w.same(y.p, v), len(log) == 1)
    else:
        E.check("C26 the value is left alone when the reader finds none", w.same(y.p, prev), not log)


# ---- items and relationships (C27)

CHILD = "the objects below: the property itself (induction on the depth of the tree)"


class Tree:
    """a persistent object with properties, items and relationships; its children are arbitrary objects known by what they do"""

    def __init__(self, E, P, w):
        self.E, self.P, self.w = E, P, w
        w.json_faithful = True       # a value converted to nothing would not come back
        self.writes = E.fresh_fn("written_dict", Obj, Obj)
        self.read = E.fresh_fn("read_from", Obj, Obj)
        self.field = E.fresh_fn("field", Obj, Obj, Obj)
        self.begun, self.done, self.parents, self.contexts = [], [], [], []
        self.log, self.made = [], []
        self.g = E.ghost(told=0, finished=0, followed=0)
        self.on_told = self.on_finish = self.on_context = self.on_parent = None
        E.attr_handlers.append(self.attr)
        E.setattr_handlers.append(self.setattr)
        tree = self

        class Thing(P.PersistentObject):
            def __init__(self):
                super().__init__()
                self.define_type("thing")
                self.define_property("a", None)
                self.define_property("b", None, key="b_key", converter=Conv(w))
                self.define_item("it", tree.factory, lambda *a: tree.told("item_changed", *a), hidden=False)
                self.define_item("hid", tree.factory, None, hidden=True)
                self.define_relationship("r", tree.factory, insert=lambda *a: tree.told("insert", *a), remove=lambda *a: tree.told("remove", *a))
                self.define_relationship("s", tree.factory, key="s_key")
        self.Thing = Thing

    def told(self, *a):
        """a callback of the object"""
        self.g.told = self.g.told + 1
        self.log.append(a)
        if self.on_told:
            self.on_told(*a)

    def attr(self, o, name):
        E = self.E
        if name == "write_to_dict":
            return lambda: SObj(self.writes(o.t))
        if name == "begin_reading":
            return lambda: self.begun.append(o)
        if name == "get":
            return lambda k, d=None: SObj(self.field(o.t, obj_term(k)))
        if name == "read_from_dict":
            def read(d):
                E.check("C27 a child is read after its reading began", any(o is x for x in self.begun))
                for c, k, seen in self.made:
                    if c is o:
                        E.check("C27 the factory of a child looks into the dict the child is read from", E.eq(seen, SObj(self.field(obj_term(d), k.t))))
                E.assume(SBool(self.read(o.t) == obj_term(d)))
            return read
        if name == "finish_reading":
            return lambda: self.on_finish(o)
        if name == "persistent_object_context":
            return None
        return NotImplemented

    def setattr(self, o, name, v):
        if name == "persistent_object_parent":
            if self.on_parent:
                self.on_parent(o, v)
            self.parents.append((o, v))
            return
        if name == "persistent_object_context":
            if self.on_context:
                self.on_context(o, v)
            self.contexts.append((o, v))
            return
        return NotImplemented

    def factory(self, lookup):
        E = self.E
        k = E.obj("key")
        seen = lookup(k)
        x = child(E, "child")
        self.made.append((x, k, seen))
        return x


def children(E, name, distinct=True):
    l = E.objlist(name, distinct=distinct, nonone=True)
    E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < E.len(l)), SBool(TRUTHY(l.at(k.t))))))
    return l


def child(E, name):
    x = E.obj(name)
    E.assume(SBool(z3.And(x.t != NONE, TRUTHY(x.t))))
    return x


def values_of(E, x, name):
    return E.getp(x, "PersistentObject", "relationships")[name].values


def fill(E, x, T, dist=True):
    """any contents"""
    rel = E.getp(x, "PersistentObject", "relationships")
    its = E.getp(x, "PersistentObject", "items")
    R, S = children(E, "R", dist), children(E, "S", dist)
    rel["r"].values, rel["s"].values = R, S
    some = E.choose(2, "items")
    it = child(E, "item") if some else None
    hid = child(E, "hidden item") if some else None
    its["it"].value, its["hid"].value = it, hid
    va, vb = T.w.given("a"), T.w.given("b")
    x.a = va
    x.b = vb
    E.rep(x)
    return R, S, it, hid, va, vb


@contract("C27", ["Persistence.PersistentObject.write_to_dict", "Persistence.PersistentObject.read_from_dict", "Persistence.PersistentObject.__insert_item",
                  "Persistence.PersistentObject.__set_item"], [COPYING, CONVERT, CHILD])
def write_and_read(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x = T.Thing()
    R, S, it, hid, va, vb = fill(E, x, T)
    E.list_hints.append(lambda L, l, l0: E.and_(E.eq(E.len(l), E.len(l0) + L.i), E.forall_in(E.len(l0), lambda k: E.eq(l.elem(k), l0.elem(k)))))
    for src in (R, S):
        E.list_hints.append(lambda L, l, l0, src=src: E.forall_in(L.i, lambda k: E.eq(l.elem(k + E.len(l0)), SObj(T.writes(obj_term(src.elem(k)))))))
    E.assume(Quant(["obj"], lambda c: SBool(z3.And(T.writes(c.t) != NONE, TRUTHY(T.writes(c.t))))))
    before = x.modified_count
    d = x.write_to_dict()
    E.check("C27 every relationship is written under its storage key", "r" in d, "s_key" in d)
    if "r" not in d or "s_key" not in d:
        return
    dr, ds = d["r"], d["s_key"]
    E.check("C27 every relationship is written under its storage key, in order", E.eq(E.len(dr), E.len(R)), E.eq(E.len(ds), E.len(S)),
            E.forall_in(E.len(R), lambda k: E.eq(dr.elem(k), SObj(T.writes(obj_term(R.elem(k)))))),
            E.forall_in(E.len(S), lambda k: E.eq(ds.elem(k), SObj(T.writes(obj_term(S.elem(k)))))))
    E.check("C27 items are written under their names", ("it" in d) == (it is not None), ("hid" in d) == (hid is not None))
    if it is not None and "it" in d:
        E.check("C27 the item's dict", E.eq(d["it"], SObj(T.writes(it.t))))
    E.check("C27 uuid and type are written", d.get("uuid") == str(x.uuid), d.get("type") == "thing")
    E.check("C27 writing changes nothing", E.same_list(values_of(E, x, "r"), R), E.same_list(values_of(E, x, "s"), S))
    # into a fresh object
    y = T.Thing()
    E.check("C27 a fresh object has its own uuid", y.uuid != x.uuid)
    vr, vs = values_of(E, y, "r"), values_of(E, y, "s")

    def told(what, name, *a):
        if what == "insert":
            E.check("C27 an item read is announced with name, position and item", name == "r", E.eq(a[0], E.len(vr) - 1), E.eq(vr.elem(E.len(vr) - 1), a[1]))
        else:
            E.check("C27 an item set by reading is announced", what == "item_changed", name == "it", a[0] is None, a[1] is y.it)
    T.on_told = told
    def parent(o, v):
        E.check("C27 the object read becomes a child of the object", v.parent is y)
        T.g.finished = T.g.finished + 1
    T.on_parent = parent
    T.on_context = lambda o, v: E.check("C27 the child has the context of the object", v is None)
    for src in (R, S):
        E.list_hints.append(lambda L, l, l0, src=src: E.forall_in(L.i, lambda k: E.eq(SObj(T.read(obj_term(l.elem(k + E.len(l0))))), SObj(T.writes(obj_term(src.elem(k)))))))
    E.hints.append(lambda L: E.eq(T.g.told, (1 if it is not None else 0) + E.len(vr)))
    E.hints.append(lambda L: E.eq(T.g.finished, (2 if it is not None else 0) + E.len(vr) + E.len(vs)))
    T.g.told = 0
    y.begin_reading()
    y.read_from_dict(d)
    E.check("C27 the same uuid and type", y.uuid == x.uuid, y.type == x.type)
    E.check("C27 equal properties", w.same(y.a, va), w.same(y.b, vb))
    yr, ys = values_of(E, y, "r"), values_of(E, y, "s")
    E.check("C27 as many children in each relationship", E.eq(E.len(yr), E.len(R)), E.eq(E.len(ys), E.len(S)))
    E.check("C27 each child is read from what its counterpart wrote, in order",
            E.forall_in(E.len(R), lambda k: E.eq(SObj(T.read(obj_term(yr.elem(k)))), SObj(T.writes(obj_term(R.elem(k)))))),
            E.forall_in(E.len(S), lambda k: E.eq(SObj(T.read(obj_term(ys.elem(k)))), SObj(T.writes(obj_term(S.elem(k)))))))
    for n, c in (("it", it), ("hid", hid)):
        i = y.get_item(n)
        if c is None:
            E.check("C27 no item where there was none", i is None)
        else:
            E.check("C27 the item is read from what its counterpart wrote", i is not None and E.eq(SObj(T.read(obj_term(i))), SObj(T.writes(c.t))))
    E.check("C27 every child read gets its parent", E.eq(T.g.finished, (2 if it is not None else 0) + E.len(R) + E.len(S)))
    E.check("C27 every item read is announced once", E.eq(T.g.told, (1 if it is not None else 0) + E.len(R)))
    E.check("C27 the written object is unchanged", E.same_list(values_of(E, x, "r"), R), E.same_list(values_of(E, x, "s"), S), E.eq(x.modified_count, before))


@contract("C27", ["Persistence.PersistentObject.finish_reading", "Persistence.PersistentObject.begin_reading"], [CHILD])
def finish(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x = T.Thing()
    x.begin_reading()
    R, S, it, hid, va, vb = fill(E, x, T)
    E.check("C27 reading", x._is_reading)
    which, p0 = E.choose(2), E.int("p")
    L0 = (R, S)[which]
    E.assume(p0 >= 0, p0 < E.len(L0))
    c0 = L0.elem(p0)
    # one child of one relationship is followed; no object is in two places
    E.assume(E.forall_in(E.len(R), lambda k: E.implies(E.eq(R.elem(k), c0), E.eq(k, p0) if which == 0 else False)))
    E.assume(E.forall_in(E.len(S), lambda k: E.implies(E.eq(S.elem(k), c0), E.eq(k, p0) if which == 1 else False)))
    if it is not None:
        E.assume(E.not_(E.eq(it, c0)), E.not_(E.eq(hid, c0)))
    g = T.g

    def fin(o):
        g.finished = g.finished + 1
        if bool(E.eq(o, c0)):
            g.followed = g.followed + 1
    T.on_finish = fin
    items = 2 if it is not None else 0
    E.hints.append(lambda L: E.eq(g.finished, items + L.i))
    E.hints.append(lambda L: E.eq(g.finished, items + E.len(R) + L.i))
    E.hints.append(lambda L: E.eq(g.followed, E.ite(p0 < L.i, 1, 0)))
    E.hints.append(lambda L: E.eq(g.followed, 0))
    E.hints.append(lambda L: E.eq(g.followed, 1))
    # all of them in one go
    E.hints.append(lambda L: E.eq(g.finished, L.i))
    E.hints.append(lambda L: E.eq(g.followed, E.ite(items + (E.len(R) if which else 0) + p0 < L.i, 1, 0)))
    E.hints.append(lambda L: E.eq(g.followed, E.ite((E.len(R) if which else 0) + p0 < L.i, 1, 0)))
    x.finish_reading()
    E.check("C27 reading is finished in every child exactly once", E.eq(g.followed, 1), E.eq(g.finished, items + E.len(R) + E.len(S)))
    E.check("C27 and in the object", not x._is_reading)


@contract("C27", ["Persistence.PersistentObject.__deepcopy__", "Persistence.PersistentObject.deepcopy_from"], [COPYING, CHILD])
def deep_copy(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x = T.Thing()
    R, S, it, hid, va, vb = fill(E, x, T)
    ctx = Ctx(E)
    copies = E.fresh_fn("copy_of", Obj, Obj)

    def copied(o):
        c = w.copied(o)
        E.assume(SBool(z3.And(copies(c.t) == o.t, z3.Implies(o.t != NONE, z3.And(c.t != NONE, TRUTHY(c.t))))))
        return c
    E.deepcopy_hook = copied
    for src in (R, S):
        E.list_hints.append(lambda L, l, l0, src=src: E.forall_in(L.i, lambda k: E.eq(SObj(copies(obj_term(l.elem(k + E.len(l0))))), src.elem(k))))
        E.list_hints.append(lambda L, l, l0, src=src: E.forall_in(L.i, lambda k: SBool(w.age(obj_term(l.elem(k + E.len(l0)))) > 0)))
    E.list_hints.append(lambda L, l, l0: E.eq(E.len(l), E.len(l0) + L.i))
    for l in (R, S):
        E.assume(E.forall_in(E.len(l), lambda k: SBool(w.age(obj_term(l.elem(k))) <= 0)))
    if it is not None:
        E.assume(SBool(z3.And(w.age(it.t) <= 0, w.age(hid.t) <= 0)))
    box = []
    T.on_parent = lambda o, v: (E.check("C27 copies are children of one copy", not box or v.parent is box[0]), box.append(v.parent) if not box else None)
    y = deepcopy(x)
    E.check("C27 a copy is another object of the same class and type under its own uuid", y is not x, type(y) is type(x), y.type == x.type, y.uuid != x.uuid)
    E.check("C27 equal properties", w.same(y.a, va), w.same(y.b, vb))
    E.check("C27 not shared properties", E.or_(E.eq(y.a, None), E.not_(E.eq(y.a, x.a))), E.or_(E.eq(y.b, None), E.not_(E.eq(y.b, x.b))))
    yr, ys = values_of(E, y, "r"), values_of(E, y, "s")
    E.check("C27 as many children in each relationship", E.eq(E.len(yr), E.len(R)), E.eq(E.len(ys), E.len(S)))
    E.check("C27 each child is a copy of its counterpart, in order",
            E.forall_in(E.len(R), lambda k: E.eq(SObj(copies(obj_term(yr.elem(k)))), R.elem(k))),
            E.forall_in(E.len(S), lambda k: E.eq(SObj(copies(obj_term(ys.elem(k)))), S.elem(k))))
    E.check("C27 no child is shared", E.forall_in(E.len(R), lambda k: SBool(w.age(obj_term(yr.elem(k))) > 0)), E.forall_in(E.len(S), lambda k: SBool(w.age(obj_term(ys.elem(k))) > 0)))
    for n, c in (("it", it), ("hid", hid)):
        i = y.get_item(n)
        E.check("C27 the item is a copy", (i is None) if c is None else (i is not None and E.eq(SObj(copies(obj_term(i))), c)))
        if c is not None:
            E.check("C27 the item is not shared", E.not_(E.eq(i, c)))
    E.check("C27 copies are children of the copy", not box or box[0] is y)
    E.check("C27 the copied object is unchanged", E.same_list(values_of(E, x, "r"), R), E.same_list(values_of(E, x, "s"), S), x.get_item("it") is it, x.get_item("hid") is hid)


def edited(E, T, dist=True):
    """an object with any contents, possibly in a context and below another object"""
    P = T.P
    x = T.Thing()
    R, S, it, hid, va, vb = fill(E, x, T, dist)
    top = None
    if E.choose(2, "parent"):
        top = T.Thing()
        x.persistent_object_parent = P.PersistentObjectParent(top, relationship_name="r")
    ctx = Ctx(E)
    if E.choose(2, "context"):
        E.setp(x, "PersistentObject", "persistent_object_context", ctx)
    T.log.clear()
    T.parents.clear()
    T.contexts.clear()
    return x, R, S, it, hid, va, vb, top, ctx


def unchanged(E, T, x, va, vb, **k):
    E.check("C27 the properties are unchanged", T.w.same(x.a, va), T.w.same(x.b, vb))
    for n, l in k.items():
        if n in ("r", "s"):
            E.check("C27 the other relationships are unchanged", E.same_list(values_of(E, x, n), l))
        else:
            E.check("C27 the other items are unchanged", x.get_item(n) is l)


@contract("C27", ["Persistence.PersistentObject.insert_item", "Persistence.PersistentObject.append_item", "Persistence.PersistentObject.extend_items",
                  "Persistence.PersistentObject.item_count", "Persistence.PersistentObject.item_index"], [CTX, CHILD])
def insert(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x, R, S, it, hid, va, vb, top, ctx = edited(E, T)
    name = ("r", "s")[E.choose(2, "name")]
    old, rest = (R, S) if name == "r" else (S, R)
    old, rest = E.copylist(old), E.copylist(rest)
    n = E.len(old)
    new = child(E, "new")
    E.assume(E.forall_in(n, lambda k: E.not_(E.eq(old.elem(k), new))))
    count, tc = x.modified_count, top.modified_count if top else 0
    T.on_told = lambda *a: E.check("C27 the item is in place, with its parent, when it is announced", E.eq(values_of(E, x, name).elem(i), new), len(T.parents) > 0)
    how = E.choose(3, "how")
    if how == 0:
        i = E.int("index")
        E.assume(i >= 0, i <= n)
        x.insert_item(name, i, new)
    else:
        i = n
        if how == 1:
            x.append_item(name, new)
        else:
            x.extend_items(name, VList([new]))
    now = values_of(E, x, name)
    E.check("C27 the item is at the given position, the others keep their order", E.eq(E.len(now), n + 1), E.eq(now.elem(i), new),
            E.forall_in(i, lambda k: E.eq(now.elem(k), old.elem(k))),
            E.forall("int", lambda k: E.implies(E.and_(k > i, k <= n), E.eq(now.elem(k), old.elem(k - 1)))))
    E.check("C27 count and index agree", E.eq(x.item_count(name), n + 1), E.eq(x.item_index(name, new), i))
    got = getattr(x, name)
    E.check("C27 the relationship is handed out as a copy", got is not now, E.same_list(got, now))
    unchanged(E, T, x, va, vb, it=it, hid=hid, **{"s" if name == "r" else "r": rest})
    E.check("C27 announced once with name, index and item", len(T.log) == (1 if name == "r" else 0),
            *[E.and_(l[0] == "insert", l[1] == name, E.eq(l[2], i), E.eq(l[3], new)) for l in T.log])
    E.check("C27 the object becomes the parent of the item", len(T.parents) == 1 and T.parents[0][1].parent is x and T.parents[0][1].relationship_name == name, E.eq(T.parents[0][0], new) if T.parents else False)
    E.check("C27 one modification", E.eq(x.modified_count, count + 1), E.eq(top.modified_count, tc + 1) if top else True)
    E.check("C27 the storage is told once when there is one", len(ctx.log) == (1 if x.persistent_object_context else 0),
            *[E.and_(l[0] == "item_inserted", l[1] is x, l[2] == name, E.eq(l[3], i), E.eq(l[4], new)) for l in ctx.log])


@contract("C27", ["Persistence.PersistentObject.remove_item"], [CTX, CHILD])
def remove(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x, R, S, it, hid, va, vb, top, ctx = edited(E, T)
    name = ("r", "s")[E.choose(2, "name")]
    old, rest = (R, S) if name == "r" else (S, R)
    old, rest = E.copylist(old), E.copylist(rest)
    n, i = E.len(old), E.int("index")
    E.assume(i >= 0, i < n)
    gone = old.elem(i)
    count, tc = x.modified_count, top.modified_count if top else 0
    x.remove_item(name, gone)
    now = values_of(E, x, name)
    E.check("C27 the item is gone, the others keep their order", E.eq(E.len(now), n - 1),
            E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < n - 1), E.eq(now.elem(k), old.elem(E.ite(k < i, k, k + 1))))))
    unchanged(E, T, x, va, vb, it=it, hid=hid, **{"s" if name == "r" else "r": rest})
    E.check("C27 announced once with name, index and item", len(T.log) == (1 if name == "r" else 0),
            *[E.and_(l[0] == "remove", l[1] == name, E.eq(l[2], i), E.eq(l[3], gone)) for l in T.log])
    E.check("C27 the item has no parent", len(T.parents) >= 1 and T.parents[-1][1] is None, *[E.eq(p[0], gone) for p in T.parents])
    E.check("C27 the item has no context", len(T.contexts) >= 1 and T.contexts[-1][1] is None, *[E.eq(p[0], gone) for p in T.contexts])
    E.check("C27 one modification", E.eq(x.modified_count, count + 1), E.eq(top.modified_count, tc + 1) if top else True)
    E.check("C27 the storage is told once when there is one", len(ctx.log) == (1 if x.persistent_object_context else 0),
            *[E.and_(l[0] == "item_removed", l[1] is x, l[2] == name, E.eq(l[3], i), E.eq(l[4], gone)) for l in ctx.log])


@contract("C27", ["Persistence.PersistentObject.remove_item"], [CTX, CHILD])
def remove_one_of_several(E):
    """an item (or an equal one) that is there more than once: the one announced is the one removed"""
    P, w = objects(E)
    T = Tree(E, P, w)
    x, R, S, it, hid, va, vb, top, ctx = edited(E, T, dist=False)
    name = ("r", "s")[E.choose(2, "name")]
    old = E.copylist(R if name == "r" else S)
    n, i = E.len(old), E.int("index")
    E.assume(i >= 0, i < n)
    gone = old.elem(i)
    x.remove_item(name, gone)
    now = values_of(E, x, name)
    E.check("C27 one item is removed", E.eq(E.len(now), n - 1))
    said = [l[2:] for l in T.log] + [l[3:] for l in ctx.log]
    E.check("C27 announced once with name, index and item", len(T.log) == (1 if name == "r" else 0), len(ctx.log) == (1 if x.persistent_object_context else 0))
    for j, o in said:
        E.check("C27 the item announced is the one that was at that place", E.and_(j >= 0, j < n), E.eq(old.elem(j), gone), E.eq(o, gone))
        E.check("C27 the item at the announced place is gone, the others keep their order",
                E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < n - 1), E.eq(now.elem(k), old.elem(E.ite(k < j, k, k + 1))))))


@contract("C27", ["Persistence.PersistentObject.set_item", "Persistence.PersistentObject.get_item", "Persistence.PersistentObject.__getattr__"], [CTX, CHILD])
def set_item(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x, R, S, it, hid, va, vb, top, ctx = edited(E, T)
    name = ("it", "hid")[E.choose(2, "name")]
    old, rest = (it, hid) if name == "it" else (hid, it)
    new = None if E.choose(2, "none") else child(E, "new")
    count, tc = x.modified_count, top.modified_count if top else 0
    T.on_told = lambda *a: E.check("C27 the item is in place when it is announced", x.get_item(name) is new)
    x.set_item(name, new)
    E.check("C27 the item is the one given", x.get_item(name) is new)
    if name == "it":
        E.check("C27 an item is read by its name", x.it is new)
    else:
        E.check("C27 a hidden item is not", E.raises(AttributeError, lambda: x.hid)[0])
    unchanged(E, T, x, va, vb, r=R, s=S, **{"hid" if name == "it" else "it": rest})
    E.check("C27 announced once with name, old and new item", len(T.log) == (1 if name == "it" else 0), *[l[0] == "item_changed" and l[1] == name and l[2] is old and l[3] is new for l in T.log])
    if new is not None:
        mine = [v for o, v in T.parents if o is new]
        E.check("C27 the object becomes the parent of the item", len(mine) == 1 and mine[0].parent is x and mine[0].item_name == name)
    E.check("C27 one modification", E.eq(x.modified_count, count + 1), E.eq(top.modified_count, tc + 1) if top else True)
    E.check("C27 the storage is told once when there is one", len(ctx.log) == (1 if x.persistent_object_context else 0),
            *[l[0] == "item_set" and l[1] is x and l[2] == name and l[3] is new for l in ctx.log])


# ---- the context (C28)

WEAK = "weakref.ref: a reference to the object, giving None once it is gone; references to one object are equal"


class Registry_:
    """a context in any state; objects, uuids and callbacks are arbitrary"""

    def __init__(self, E):
        self.E = E
        self.wref, self.deref, self.alive = E.fresh_fn("weak", Obj, Obj), E.fresh_fn("referent", Obj, Obj), E.fresh_fn("alive", Obj, BoolS)
        self.uuid = E.fresh_fn("uuid", Obj, Obj)
        self.fst, self.snd, self.pair = E.fresh_fn("registered", Obj, Obj), E.fresh_fn("unregistered", Obj, Obj), E.fresh_fn("pair", Obj, Obj, Obj)
        self.up, self.owner = E.fresh_fn("parent_link", Obj, Obj), E.fresh_fn("parent", Obj, Obj)

        def ref(o, cb=None):
            if isinstance(o, SObj):
                w = self.wref(o.t)
                E.assume(SBool(z3.And(self.deref(w) == o.t, w != NONE, TRUTHY(w), self.alive(w))))
                return SObj(w)
            return FakeWeakRef(o, cb)
        P = E.load("Persistence", lib={"weakref": Namespace(ref=ref)})
        self.P = P
        E.iter_handlers.append(lambda o: [E.lower(self.fst(o.t)), E.lower(self.snd(o.t))])
        E.item_handlers.append(lambda o, i: E.lower((self.fst, self.snd)[i](o.t)) if i in (0, 1) else NotImplemented)

        def lift(x):
            if isinstance(x, tuple) and len(x) == 2:
                a, b = obj_term(x[0]), obj_term(x[1])
                t = self.pair(a, b)
                E.assume(SBool(z3.And(self.fst(t) == a, self.snd(t) == b, t != NONE, TRUTHY(t))))
                return t
        E.lift_handlers.append(lift)
        self.ctx = P.PersistentObjectContext()
        self.has, self.get = E.fresh_fn("known", Obj, BoolS), E.fresh_fn("weak_of", Obj, Obj)
        E.assume(Quant(["obj"], lambda u: SBool(z3.And(self.get(u.t) != NONE, TRUTHY(self.get(u.t)), z3.Implies(self.alive(self.get(u.t)), z3.And(self.deref(self.get(u.t)) != NONE, TRUTHY(self.deref(self.get(u.t)))))))))
        E.setp(self.ctx, "PersistentObjectContext", "objects", VDict.symbolic(self.has, lambda u: E.lower(self.get(u))))
        self.shas, self.sn, self.sat = E.fresh_fn("subscribed", Obj, BoolS), E.fresh_fn("nsubs", Obj, IntS), E.fresh_fn("sub", Obj, IntS, Obj)
        E.assume(Quant(["obj"], lambda u: SBool(self.sn(u.t) >= 0)))
        E.assume(Quant(["obj", "int"], lambda u, k: SBool(z3.And(self.sat(u.t, k.t) != NONE, TRUTHY(self.sat(u.t, k.t))))))
        self.subs = VFam(self.shas, self.sn, self.sat)
        E.setp(self.ctx, "PersistentObjectContext", "subscriptions", self.subs)
        E.rep(self.ctx)
        self.fired = []
        self.keep = self.ctx.registration_event.listen(lambda *a: self.fired.append(a))
        E.attr_handlers.append(self.attr)
        E.call_handlers.append(self.call)
        self.called = self.nested = None
        self.g = E.ghost(followed=0, calls=0)

    def attr(self, o, name):
        if name == "uuid":
            return self.E.lower(self.uuid(o.t))
        return NotImplemented

    def call(self, o, a, k):
        E = self.E
        if not a and not k:
            return E.ite(SBool(self.alive(o.t)), SObj(self.deref(o.t)), None)
        return self.called(o, a)

    def object(self, name):
        x = self.E.obj(name)
        w = self.wref(x.t)
        self.E.assume(SBool(z3.And(x.t != NONE, TRUTHY(x.t), self.uuid(x.t) != NONE, self.deref(w) == x.t, self.alive(w), w != NONE, TRUTHY(w))))
        return x

    def was(self, u):
        """what the context knew under a uuid"""
        return SObj(z3.If(z3.And(self.has(u.t), self.alive(self.get(u.t))), self.deref(self.get(u.t)), NONE))

    def finds(self, u):
        return obj_term(self.ctx.get_registered_object(u))

    def count(self, which, u):
        """how many subscriptions there are for a uuid now, and which"""
        f = self.E.getp(self.ctx, "PersistentObjectContext", "subscriptions")
        if not isinstance(f, VFam):
            raise Unsupported("subscriptions are kept in another way")
        return f


def some_uuid(E):
    u = E.obj("a uuid")
    E.assume(E.not_(E.eq(u, None)))
    return u


def subs_are(E, r, want_n, want_at, what):
    """the subscriptions of every uuid"""
    f = r.count(None, None)
    u, k = some_uuid(E), E.int("k")
    n = z3.If(f.has(u.t), f.ln(u.t), z3.IntVal(0))
    E.check("C28 " + what, SBool(n == want_n(u.t)), E.implies(E.and_(k >= 0, SBool(k.t < n)), SBool(f.cat(u.t, k.t) == want_at(u.t, k.t))))


def follow(E, r, u, part, arg, first, subscribing=False):
    """one subscription for the uuid is followed: its callback is called once if it has one; nobody else's is called"""
    n0 = z3.If(r.shas(u.t), r.sn(u.t), z3.IntVal(0))
    place = E.fresh_fn("place", Obj, IntS)
    E.assume(E.forall("int", lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < n0), place(part(r.sat(u.t, k.t))) == k.t))))
    p0 = E.int("followed")
    E.assume(p0 >= 0, SBool(p0.t < n0))
    f0 = part(r.sat(u.t, p0.t))
    g = r.g

    def called(o, a):
        if r.nested is not None and o is r.nested:
            r.g.calls = r.g.calls + 1
            return None
        k = place(o.t)
        E.check("C28 only callbacks subscribed for the uuid are called, with the object", SBool(z3.And(k >= 0, k < n0, part(r.sat(u.t, k)) == o.t)), len(a) == 1 and E.eq(a[0], arg))
        first(o)
        if bool(SBool(o.t == f0)):
            g.followed = g.followed + 1
        if subscribing and E.choose(2, "subscribes"):
            # a callback may subscribe for the same uuid: told at once, and not again
            r.nested = E.obj("nested")
            E.assume(E.not_(E.eq(r.nested, None)), SBool(TRUTHY(r.nested.t)))
            before = g.calls
            r.ctx.subscribe(u, r.nested, None)
            E.check("C28 a subscription made by a callback is told at once", E.eq(g.calls, before + 1))
            r.nested = None
        return None
    r.called = called
    E.hints.append(lambda L: E.eq(g.followed, E.ite(E.and_(p0 < L.i, SBool(TRUTHY(f0))), 1, 0)))
    E.hints.append(lambda L: SBool(z3.Implies(I(g.followed) > 0, TRUTHY(f0))))
    return lambda: E.eq(g.followed, E.ite(SBool(TRUTHY(f0)), 1, 0))


@contract("C28", ["Persistence.PersistentObjectContext.register", "Persistence.PersistentObjectContext.get_registered_object"], [WEAK, "Event.Event.fire (contract C05)"])
def register(E):
    r = Registry_(E)
    o = r.object("object")
    u = E.lower(r.uuid(o.t))

    def first(fn):
        E.check("C28 the object is known when its subscribers are told", SBool(r.finds(u) == o.t))
    nested = E.choose(2, "nested")
    done = follow(E, r, u, r.fst, o, first, nested) if E.choose(2, "some") else None
    if done is None:
        E.assume(SBool(z3.Or(z3.Not(r.shas(u.t)), r.sn(u.t) == 0)))
        r.called = lambda fn, a: E.check("C28 nobody is told without a subscription", False)
    r.ctx.register(o)
    E.check("C28 the object is found under its uuid", SBool(r.finds(u) == o.t))
    u2 = some_uuid(E)
    E.assume(E.not_(E.eq(u2, u)))
    E.check("C28 other uuids are as before", SBool(r.finds(u2) == r.was(u2).t))
    if done:
        E.check("C28 every subscriber with a callback is told once", done())
    E.check("C28 the registration event is fired once", len(r.fired) == 1 and len(r.fired[0]) == 2 and r.fired[0][0] is o and r.fired[0][1] is None)
    if not nested:
        subs_are(E, r, lambda x: z3.If(r.shas(x), r.sn(x), z3.IntVal(0)), r.sat, "the subscriptions stay")


@contract("C28", ["Persistence.PersistentObjectContext.unregister"], [WEAK, "Event.Event.fire (contract C05)"])
def unregister(E):
    r = Registry_(E)
    o = r.object("object")
    u = E.lower(r.uuid(o.t))
    E.assume(SBool(z3.And(r.has(u.t), r.get(u.t) == r.wref(o.t))))
    done = follow(E, r, u, r.snd, o, lambda fn: None) if E.choose(2, "some") else None
    if done is None:
        E.assume(SBool(z3.Or(z3.Not(r.shas(u.t)), r.sn(u.t) == 0)))
        r.called = lambda fn, a: E.check("C28 nobody is told without a subscription", False)
    r.ctx.unregister(o)
    E.check("C28 the object is not found any more", SBool(r.finds(u) == NONE))
    u2 = some_uuid(E)
    E.assume(E.not_(E.eq(u2, u)))
    E.check("C28 other uuids are as before", SBool(r.finds(u2) == r.was(u2).t))
    if done:
        E.check("C28 every subscriber with a callback is told once", done())
    E.check("C28 the registration event is fired once", len(r.fired) == 1 and len(r.fired[0]) == 2 and r.fired[0][0] is None and E.eq(r.fired[0][1], o))
    subs_are(E, r, lambda x: z3.If(z3.And(x != u.t, r.shas(x)), r.sn(x), z3.IntVal(0)), r.sat, "the subscriptions for the uuid end, the others stay")


@contract("C28", ["Persistence.PersistentObjectContext.subscribe"], [WEAK])
def subscribe(E):
    r = Registry_(E)
    u = some_uuid(E)
    cb1, cb2 = E.obj("registered"), E.obj("unregistered")
    if E.choose(2):
        E.assume(E.eq(cb1, None))
    else:
        E.assume(E.not_(E.eq(cb1, None)), SBool(TRUTHY(cb1.t)))
    known = r.was(u)

    def called(o, a):
        E.check("C28 only the new subscriber is told, with the object", E.eq(o, cb1), len(a) == 1 and E.eq(a[0], known), E.not_(E.eq(known, None)))
        r.g.calls = r.g.calls + 1
    r.called = called
    r.ctx.subscribe(u, cb1, cb2)
    E.check("C28 told at once exactly when the object is already registered", E.eq(r.g.calls, E.ite(E.and_(E.not_(E.eq(known, None)), E.not_(E.eq(cb1, None))), 1, 0)))
    old = lambda x: z3.If(r.shas(x), r.sn(x), z3.IntVal(0))
    f = r.count(None, None)
    E.check("C28 the subscription is kept", SBool(z3.And(f.has(u.t), f.ln(u.t) == old(u.t) + 1, r.fst(f.cat(u.t, old(u.t))) == cb1.t, r.snd(f.cat(u.t, old(u.t))) == cb2.t)))
    u2, k = some_uuid(E), E.int("k")
    E.check("C28 the other subscriptions stay", E.implies(E.not_(E.eq(u2, u)), SBool(z3.If(f.has(u2.t), f.ln(u2.t), z3.IntVal(0)) == old(u2.t))),
            E.implies(E.and_(k >= 0, SBool(k.t < old(u2.t))), SBool(f.cat(u2.t, k.t) == r.sat(u2.t, k.t))))
    u3 = some_uuid(E)
    E.check("C28 nothing is registered or unregistered", SBool(r.finds(u3) == r.was(u3).t), not r.fired)


@contract("C28", ["Persistence.PersistentObjectContext._get_persistent_storage_for_object", "Persistence.PersistentObjectContext._set_persistent_storage_for_object"],
          [WEAK, "the storage of the parent: the property itself (induction on the depth)"])
def storage_lookup(E):
    r = Registry_(E)
    ctx = r.ctx
    has, get = E.fresh_fn("has_storage", Obj, BoolS), E.fresh_fn("storage", Obj, Obj)
    E.setp(ctx, "PersistentObjectContext", "persistent_storages", VDict.symbolic(has, lambda k: E.lower(get(k))))
    E.assume(Quant(["obj"], lambda k: E.implies(SBool(has(k.t)), SBool(z3.And(get(k.t) != NONE, TRUTHY(get(k.t)))))))
    nearest = E.fresh_fn("nearest", Obj, Obj)
    x, p, other = r.object("object"), r.object("parent"), r.object("other")
    root = E.choose(2, "root")
    E.attr_handlers.append(lambda o, n: (None if root else Namespace(parent=p)) if n == "persistent_object_parent" else NotImplemented)
    cls = type(ctx)
    looked = []

    def upward(o):
        looked.append(o)
        return SObj(nearest(obj_term(o)))
    what = E.choose(3, "what")
    s = E.obj("storage")
    if what:
        # after giving an object a storage, or taking it away
        if what == 1:
            E.assume(SBool(z3.And(TRUTHY(s.t), s.t != NONE)))
            ctx._set_persistent_storage_for_object(other, s)
        else:
            E.assume(SBool(has(r.wref(other.t))))
            ctx._set_persistent_storage_for_object(other, None)
    here = lambda o: SBool(has(r.wref(o.t))) if not what else E.or_(E.and_(E.eq(o, other), what == 1), E.and_(E.not_(E.eq(o, other)), SBool(has(r.wref(o.t)))))
    own = lambda o: SObj(get(r.wref(o.t))) if what != 1 else E.ite(E.eq(o, other), s, SObj(get(r.wref(o.t))))
    object.__setattr__(ctx, "_get_persistent_storage_for_object", upward)
    got = cls._get_persistent_storage_for_object(ctx, x)
    if bool(here(x)):
        E.check("C28 an object with a storage uses its own", E.eq(got, own(x)), not looked)
    elif root:
        E.check("C28 an object without storage or parent has none", E.eq(got, None))
    else:
        E.check("C28 another object uses that of its parent", len(looked) == 1 and E.eq(looked[0], p), E.eq(got, SObj(nearest(p.t))))


@contract("C28", ["Persistence.PersistentObjectContext.property_changed", "Persistence.PersistentObjectContext.clear_property", "Persistence.PersistentObjectContext.item_inserted",
                  "Persistence.PersistentObjectContext.item_removed", "Persistence.PersistentObjectContext.item_set", "Persistence.PersistentObjectContext.get_properties",
                  "Persistence.PersistentObjectContext.read_external_data", "Persistence.PersistentObjectContext.write_external_data", "Persistence.PersistentObjectContext.enter_write_delay",
                  "Persistence.PersistentObjectContext.exit_write_delay", "Persistence.PersistentObjectContext.is_write_delayed", "Persistence.PersistentObjectContext.rewrite_item",
                  "Persistence.PersistentObjectContext.get_storage_property"], [WEAK, COPYING, "the storage of an object (contract storage_lookup)"])
def storage_requests(E):
    r = Registry_(E)
    ctx = r.ctx
    x = r.object("object")
    nearest = E.fresh_fn("nearest", Obj, Obj)
    asked, results = [], []
    w = World(E)

    class Storage:
        def __init__(self, props):
            self.log = []
            if props:
                self.properties = w.given("properties")

        def __getattr__(self, name):
            if name == "get_properties" and "properties" in vars(self):
                raise AttributeError(name)

            def f(*a):
                self.log.append((name,) + a)
                results.append(w.given("result"))
                return results[-1]
            return f
    st = Storage(E.choose(2, "old storage"))

    def find(o):
        asked.append(o)
        return st
    object.__setattr__(ctx, "_get_persistent_storage_for_object", find)
    a, b, c, i = E.obj("a"), E.obj("b"), E.obj("c"), E.int("index")
    table = [("property_changed", "set_property", (a, b), False), ("clear_property", "clear_property", (a,), False), ("item_inserted", "insert_item", (a, i, c), False),
             ("item_removed", "remove_item", (a, i, c), False), ("item_set", "set_item", (a, b), False), ("get_properties", "get_properties", (), True),
             ("read_external_data", "read_external_data", (a,), True), ("write_external_data", "write_external_data", (a, b), False),
             ("enter_write_delay", "enter_write_delay", (), False), ("exit_write_delay", "exit_write_delay", (), False), ("is_write_delayed", "is_write_delayed", (), True),
             ("rewrite_item", "rewrite_item", (), False), ("get_storage_property", "get_storage_property", (a,), True)]
    call, want, args, gives = table[E.choose(len(table), "request")]
    got = getattr(ctx, call)(x, *args)
    E.check("C28 a request goes to the storage of the object", len(asked) >= 1 and all(o is x for o in asked))
    if want == "get_properties":
        src = st.properties if "properties" in vars(st) else results[0] if results else None
        E.check("C28 the properties are handed out as a copy", src is not None and w.same(got, src), E.or_(E.eq(got, None), E.not_(E.eq(got, src))))
        return
    E.check("C28 exactly one request is made of the storage, the one asked for", len(st.log) == 1 and st.log[0][0] == want and len(st.log[0]) == 2 + len(args))
    if len(st.log) == 1 and len(st.log[0]) == 2 + len(args):
        E.check("C28 with the object and the arguments", st.log[0][1] is x, *[E.eq(p, q) for p, q in zip(st.log[0][2:], args)])
    if gives:
        E.check("C28 and its answer is handed on", got is results[0])


@contract("C28", ["Persistence.PersistentObject.persistent_object_context"], [CHILD])
def context_setting(E):
    P, w = objects(E)
    T = Tree(E, P, w)
    x = T.Thing()
    R, S, it, hid, va, vb = fill(E, x, T)
    old, new = Ctx(E), Ctx(E)
    top = T.Thing()
    if E.choose(2, "below"):
        x.persistent_object_parent = P.PersistentObjectParent(top, relationship_name="r")
    clearing = E.choose(2, "what")
    if clearing:
        E.setp(x, "PersistentObject", "persistent_object_context", old)
    want = None if clearing else new
    which, p0 = E.choose(2), E.int("p")
    L0 = (R, S)[which]
    E.assume(p0 >= 0, p0 < E.len(L0))
    c0 = L0.elem(p0)
    E.assume(E.forall_in(E.len(R), lambda k: E.implies(E.eq(R.elem(k), c0), E.eq(k, p0) if which == 0 else False)))
    E.assume(E.forall_in(E.len(S), lambda k: E.implies(E.eq(S.elem(k), c0), E.eq(k, p0) if which == 1 else False)))
    if it is not None:
        E.assume(E.not_(E.eq(it, c0)), E.not_(E.eq(hid, c0)))
    g = T.g

    def setting(o, v):
        E.check("C28 the objects below get the same context", v is want)
        g.finished = g.finished + 1
        if bool(E.eq(o, c0)):
            g.followed = g.followed + 1
    T.on_context = setting
    items = 2 if it is not None else 0
    E.hints.append(lambda L: E.eq(g.finished, items + L.i))
    E.hints.append(lambda L: E.eq(g.finished, items + E.len(R) + L.i))
    E.hints.append(lambda L: E.eq(g.followed, E.ite(p0 < L.i, 1, 0)))
    E.hints.append(lambda L: E.eq(g.followed, 0))
    E.hints.append(lambda L: E.eq(g.followed, 1))
    x.persistent_object_context = want
    E.check("C28 the object has the context", x.persistent_object_context is want)
    E.check("C28 each object below is given the context exactly once", E.eq(g.followed, 1), E.eq(g.finished, items + E.len(R) + E.len(S)))
    E.check("C28 the object is registered or unregistered once", new.log == ([] if clearing else [("register", x)]), old.log == ([("unregister", x)] if clearing else []))
