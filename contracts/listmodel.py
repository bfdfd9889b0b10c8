"""Contracts of ListModel.py: list model (C11), mapped list (C12, C16), filters (C17)."""
from engine.api import *

EV = ["Event.Event.fire (contract C05)"]


class Observer:
    """an observer that applies insert and remove notifications to a copy of the items (ghost), checking each of them"""

    def __init__(self, E, tag, model, key, items, now=None):
        self.E, self.tag, self.key = E, tag, key
        self.g = g = E.ghost(count=0, mirror=VList(items))
        self.now = now or (lambda: model.items)

        def inserted(k, value, index):
            g.count = g.count + 1
            self.chk("announced under the items key", E.eq(k, key))
            g.mirror.insert(index, value)
            self.chk("an observer replaying the announcements holds the items", E.same_list(g.mirror, self.now()))

        def removed(k, value, index):
            g.count = g.count + 1
            self.chk("announced under the items key", E.eq(k, key))
            self.chk("the announced item is the one removed", E.eq(g.mirror[index], value))
            del g.mirror[index]
            self.chk("an observer replaying the announcements holds the items", E.same_list(g.mirror, self.now()))
        self.listeners = [model.item_inserted_event.listen(inserted), model.item_removed_event.listen(removed)]

    def chk(self, name, *s):
        self.E.check(f"{self.tag} {name}", *s)

    def end(self, count=None):
        E, g = self.E, self.g
        self.chk("an observer replaying the announcements holds the items", E.same_list(g.mirror, self.now()))
        if count is not None:
            self.chk("each change is announced exactly once", E.eq(g.count, count))


# ---------------------------------------------------------------- ListModel (C11)

def list_model(E):
    M = E.load("ListModel")
    key = E.pick([None, "things"])
    m = M.ListModel(key)
    L = E.objlist("items", nonone=False)
    E.setp(m, "ListModel", "items", L)
    old = E.copylist(L)
    n = E.len(old)
    ob = Observer(E, "C11", m, key or "items", old)
    return M, m, key, old, n, ob


def inserted_list(E, tag, name, now, old, n, p, v):
    """now = old with v inserted at p"""
    E.check(f"{tag} {name}", E.eq(E.len(now), n + 1), E.eq(now.elem(p), v), E.forall_in(p, lambda k: E.eq(now.elem(k), old.elem(k))),
            E.forall("int", lambda k: E.implies(E.and_(k >= p, k < n), E.eq(now.elem(k + 1), old.elem(k)))))


def removed_list(E, tag, name, now, old, n, p):
    E.check(f"{tag} {name}", E.eq(E.len(now), n - 1), E.forall_in(p, lambda k: E.eq(now.elem(k), old.elem(k))),
            E.forall("int", lambda k: E.implies(E.and_(k >= p, k < n - 1), E.eq(now.elem(k), old.elem(k + 1)))))


def clampi(E, i, n):
    """where list.insert puts an item given index i"""
    return E.ite(i < 0, E.ite(i + n < 0, 0, i + n), E.ite(i > n, n, i))


@contract("C11", ["ListModel.ListModel.__init__", "ListModel.ListModel.items", "ListModel.ListModel.__getattr__"], EV)
def list_init(E):
    M = E.load("ListModel")
    key = E.pick([None, "things"])
    if E.choose(2):
        L = E.objlist("items", nonone=False)
        m = M.ListModel(key, L) if E.choose(2) else M.ListModel(key=key, items=L)
        E.check("C11 holds the given items", E.same_list(m.items, L))
        v = E.obj("v")
        n = E.len(L)
        L.append(v)
        E.check("C11 holds its own list", E.eq(E.len(m.items), n))
    else:
        m = M.ListModel(key)
        E.check("C11 starts empty", E.eq(E.len(m.items), 0))
    if key:
        E.check("C11 items reachable by key", E.same_list(getattr(m, key), m.items))
    for other in ("unknown", "thing", "item"):
        raised, _ = E.raises(AttributeError, lambda: getattr(m, other))
        E.check("C11 unknown attributes raise AttributeError", raised)


@contract("C11", ["ListModel.ListModel.insert_item"], EV)
def list_insert(E):
    M, m, key, old, n, ob = list_model(E)
    i, v = E.int("index"), E.obj("value")
    m.insert_item(i, v)
    inserted_list(E, "C11", "insert puts the item where a list does", m.items, old, n, clampi(E, i, n), v)
    ob.end(1)


@contract("C11", ["ListModel.ListModel.append_item"], EV)
def list_append(E):
    M, m, key, old, n, ob = list_model(E)
    v = E.obj("value")
    m.append_item(v)
    inserted_list(E, "C11", "append puts the item at the end", m.items, old, n, n, v)
    ob.end(1)


@contract("C11", ["ListModel.ListModel.remove_item"], EV)
def list_remove(E):
    M, m, key, old, n, ob = list_model(E)
    i = E.int("index")
    inside = E.and_(i >= -n, i < n)
    raised, _ = E.raises(IndexError, lambda: m.remove_item(i))
    if raised:
        E.check("C11 remove refuses only indexes outside the list", E.not_(inside))
        E.check("C11 a refused removal changes nothing", E.same_list(m.items, old))
        ob.end(0)
        return
    E.check("C11 remove accepts only indexes inside the list", inside)
    removed_list(E, "C11", "remove takes out the item at the index", m.items, old, n, E.ite(i < 0, i + n, i))
    ob.end(1)


@contract("C11", ["ListModel.ListModel.clear_items"], EV)
def list_clear(E):
    M, m, key, old, n, ob = list_model(E)
    g = ob.g
    cur = lambda: m.items
    E.hints.append(lambda L: E.same_list(g.mirror, cur()))
    E.hints.append(lambda L: E.eq(g.count + E.len(cur()), n))
    m.clear_items()
    E.check("C11 clear leaves nothing", E.eq(E.len(m.items), 0))
    ob.end(n)


# ---------------------------------------------------------------- MappedListModel (C12, C16)

class Container:
    """a container as the list models see it: two events and a list"""

    def __init__(self, E, items, key="masters", changes=False):
        from engine.loader import EventStub
        self.item_inserted_event = EventStub()
        self.item_removed_event = EventStub()
        self.key = key
        if changes:
            self.begin_changes_event = EventStub()
            self.end_changes_event = EventStub()
        object.__setattr__(self, key, items)


class Selections:
    """any number of attached selections: each has to be told exactly once"""

    def __init__(self, E, tag):
        self.E, self.tag = E, tag
        self.L = E.objlist("selections", distinct=True)
        self.L0 = VList(self.L)
        self.n = E.len(self.L)
        self.g = E.ghost(told=0)
        self.op, self.index = None, None

        def attr(o, name):
            if name in ("insert_index", "remove_index"):
                return lambda i: self.told(o, name, i)
            return NotImplemented
        E.attr_handlers.append(attr)
        E.hints.append(lambda L: E.eq(self.g.told, L.i))

    def told(self, o, name, i):
        E, g = self.E, self.g
        E.check(f"{self.tag} the attached selections are told, each once", g.told < self.n, E.eq(o, self.L0.elem(g.told)))
        E.check(f"{self.tag} selections are told what happened to the items", name == self.op, E.eq(i, self.index))
        g.told = g.told + 1

    def end(self, times=1):
        self.E.check(f"{self.tag} every attached selection is told", self.E.eq(self.g.told, self.n if times else 0))


MAP = z3.Function("map_fn", Obj, Obj)


def mapped(E, selections=True, with_items=True):
    """a mapped list whose items are what the map function returned for the container's items"""
    M = E.load("ListModel")
    masters = E.objlist("masters")
    c = Container(E, masters)
    calls = E.ghost(maps=0, unmaps=0, last=None, lastun=None)

    def map_fn(x):
        calls.maps = calls.maps + 1
        calls.last = x
        return SObj(MAP(obj_term(x)))

    def unmap_fn(x):
        calls.unmaps = calls.unmaps + 1
        calls.lastun = x
    empty = Container(E, VList())
    m = M.MappedListModel(container=empty, master_items_key="masters", items_key="things", map_fn=map_fn, unmap_fn=unmap_fn)
    n = E.len(masters)
    # reach the arbitrary state: the container holds any items and the model what they were mapped to
    items = E.objlist("items", nonone=False)
    E.assume(E.eq(E.len(items), n))
    E.setp(m, "MappedListModel", "items", items)
    empty.masters = masters
    old = VList(items)
    ob = Observer(E, "C12", m, "things", old)
    sel = None
    for _ in range(E.choose(3)):
        m.begin_change()       # change blocks, nested or not, do not hold anything back
    if selections:
        E.loose_eq = True      # items and selections: nothing is known of what compares equal
        sel = Selections(E, "C16")
        E.setp(m, "MappedListModel", "selections", sel.L)
    return M, m, empty, masters, old, n, ob, calls, sel


@contract("C12 C16", ["ListModel.MappedListModel.__master_item_inserted"], EV + ["Selection.IndexedSelection.insert_index (contract C03)"])
def mapped_insert(E):
    M, m, c, masters, old, n, ob, calls, sel = mapped(E)
    i, v = E.int("index"), E.obj("item")
    E.assume(i >= 0, i <= n)
    masters.insert(i, v)
    sel.op, sel.index = "insert_index", i
    other = E.choose(2)
    c.item_inserted_event.fire("others" if other else "masters", v, i)
    if other:
        E.check("C12 other keys have no effect", E.same_list(m.items, old), E.eq(calls.maps, 0))
        ob.end(0)
        sel.end(0)
        return
    inserted_list(E, "C12", "the mapped item is inserted at the same position", m.items, old, n, i, SObj(MAP(v.t)))
    E.check("C12 the item is mapped once", E.eq(calls.maps, 1), E.eq(calls.unmaps, 0), E.eq(calls.last, v))
    ob.end(1)
    sel.end()


@contract("C12 C16", ["ListModel.MappedListModel.__master_item_removed"], EV + ["Selection.IndexedSelection.remove_index (contract C03)"])
def mapped_remove(E):
    M, m, c, masters, old, n, ob, calls, sel = mapped(E)
    i = E.int("index")
    E.assume(i >= 0, i < n)
    v = masters.elem(i)
    del masters[i]
    sel.op, sel.index = "remove_index", i
    other = E.choose(2)
    c.item_removed_event.fire("others" if other else "masters", v, i)
    if other:
        E.check("C12 other keys have no effect", E.same_list(m.items, old), E.eq(calls.unmaps, 0))
        ob.end(0)
        sel.end(0)
        return
    removed_list(E, "C12", "the mapped item is removed", m.items, old, n, i)
    E.check("C12 the very mapped item is unmapped once", E.eq(calls.unmaps, 1), E.eq(calls.maps, 0), E.eq(calls.lastun, old.elem(i)))
    ob.end(1)
    sel.end()


@contract("C12", ["ListModel.MappedListModel.container"], EV)
def mapped_leave(E):
    """leaving a container: every item is unmapped and announced, the old container is not listened to any more"""
    M, m, c, masters, old, n, ob, calls, sel = mapped(E, False)
    g = ob.g
    E.hints.append(lambda L: E.same_list(g.mirror, m.items))
    E.hints.append(lambda L: E.and_(E.eq(E.len(m.items) + L.i, n), E.eq(g.count, L.i), E.eq(calls.unmaps, L.i), E.eq(calls.maps, 0)))
    E.hints.append(lambda L: E.forall_in(E.len(m.items), lambda k: E.eq(m.items.elem(k), old.elem(k))))
    if E.choose(2):
        m.container = None
    else:
        m.close()
    E.check("C12 no items without a container", E.eq(E.len(m.items), 0))
    E.check("C12 every item is unmapped once", E.eq(calls.unmaps, n), E.eq(calls.maps, 0))
    ob.end(n)
    c.item_inserted_event.fire("masters", E.obj("late"), 0)
    E.check("C12 a left container has no effect", E.eq(E.len(m.items), 0))


@contract("C12", ["ListModel.MappedListModel.container", "ListModel.MappedListModel.__init__"], EV)
def mapped_enter(E):
    """construction with a container, or entering one: every item is mapped once, in order"""
    M = E.load("ListModel")
    masters = E.objlist("masters")
    c = Container(E, masters, changes=bool(E.choose(2)))
    calls = E.ghost(maps=0, unmaps=0)

    def map_fn(x):
        calls.maps = calls.maps + 1
        return SObj(MAP(obj_term(x)))

    def unmap_fn(x):
        calls.unmaps = calls.unmaps + 1
    n = E.len(masters)
    E.hints.append(lambda L: E.eq(calls.maps, L.i))
    how = E.choose(2)
    E.hints.append(lambda L: E.eq(E.len(m.items), L.i))
    E.hints.append(lambda L: E.forall_in(L.i, lambda k: E.eq(m.items.elem(k), SObj(MAP(obj_term(masters.elem(k)))))))
    if how:
        m = M.MappedListModel.__new__(M.MappedListModel)
        m.__init__(container=c, master_items_key="masters", items_key="things", map_fn=map_fn, unmap_fn=unmap_fn)
    else:
        m = M.MappedListModel(master_items_key="masters", items_key="things", map_fn=map_fn, unmap_fn=unmap_fn)
        E.check("C12 no items without a container", E.eq(E.len(m.items), 0))
        ob = Observer(E, "C12", m, "things", VList())
        E.hints.append(lambda L: E.same_list(ob.g.mirror, m.items))
        E.hints.append(lambda L: E.eq(ob.g.count, L.i))
        m.container = c
        ob.end(n)
    E.check("C12 the items are the mapped items of the container", E.eq(E.len(m.items), n), E.forall_in(n, lambda k: E.eq(m.items.elem(k), SObj(MAP(obj_term(masters.elem(k)))))))
    E.check("C12 each item is mapped once", E.eq(calls.maps, n), E.eq(calls.unmaps, 0))
    E.check("C12 the items are reachable by the items key", E.same_list(m.things, m.items))
    # and from now on it follows the container
    i, v = E.int("index"), E.obj("item")
    E.assume(i >= 0, i <= n)
    old = VList(m.items)
    masters.insert(i, v)
    c.item_inserted_event.fire("masters", v, i)
    inserted_list(E, "C12", "follows its container", m.items, old, n, i, SObj(MAP(v.t)))


@contract("C16", ["ListModel.MappedListModel.make_selection", "ListModel.MappedListModel.release_selection", "ListModel.FlattenedListModel.make_selection",
                  "ListModel.FlattenedListModel.release_selection", "ListModel.FilteredListModel.make_selection", "ListModel.FilteredListModel.release_selection"], EV)
def selections_attached(E):
    M = E.load("ListModel")
    name = E.pick(["MappedListModel", "FlattenedListModel", "FilteredListModel"])
    cls = getattr(M, name)
    kw = {"child_items_key": "children"} if name == "FlattenedListModel" else {}

    class Sel:
        pass
    given = Sel()
    m = cls(master_items_key="masters", items_key="things", selection=given, **kw)
    S = E.getp(m, name, "selections")
    E.check("C16 the given selection is attached", E.eq(E.len(S), 1), S[0] is given)
    L = E.objlist("selections", distinct=True)
    E.setp(m, name, "selections", L)
    old, n = VList(L), E.len(L)
    s = m.make_selection()
    E.check("C16 a made selection is attached once and starts empty", E.eq(E.len(L), n + 1), E.forall_in(n, lambda k: E.eq(L.elem(k), old.elem(k))), E.eq(L.elem(n), s),
            not s.has_selection)
    E.assume(E.forall_in(n, lambda k: E.not_(E.eq(old.elem(k), s))))
    m.release_selection(s)
    E.check("C16 a released selection is detached, the others stay", E.same_list(E.getp(m, name, "selections"), old))
    # selections that select the same compare equal: the one released is the very one given
    m2 = cls(master_items_key="masters", items_key="things", **kw)
    three = [m2.make_selection() for _ in range(3)]
    k = E.choose(3)
    m2.release_selection(three[k])
    rest = list(E.getp(m2, name, "selections"))
    E.check("C16 the very selection is released", len(rest) == 2 and rest[0] is three[1 if k == 0 else 0] and rest[1] is three[1 if k == 2 else 2])


# ---------------------------------------------------------------- filters (C17)

MATCH = z3.Function("matches", Obj, Obj, BoolS)     # sub-filter, item
CLONE = z3.Function("deep_copy", Obj, Obj)


def filter_env(E):
    M = E.load("ListModel")
    d = E.obj("item")

    def attr(o, name):
        if name == "matches":
            def m(x):
                E.check("C17 sub-filters are asked about the item", E.eq(x, d))
                return SBool(MATCH(o.t, d.t))
            return m
        return NotImplemented
    E.attr_handlers.append(attr)
    # the deep copy of a sub-filter matches the same items (the property, for the smaller filter)
    E.deepcopy_hook = lambda o: SObj(CLONE(o.t))
    E.assume(Quant(["obj"], lambda f: SBool(MATCH(CLONE(f.t), d.t) == MATCH(f.t, d.t))))
    return M, d


def both(E, f, M, d, want, name):
    """the filter, and a deep copy of it, match as wanted"""
    import engine.loader as ld
    r = f.matches(d)
    E.check(f"C17 {name}", E.iff(r, want))
    c = ld.deepcopy(f)
    E.check("C17 a copy is another filter of the same kind", c is not f, type(c) is type(f))
    E.check(f"C17 a deep copy matches the same: {name}", E.iff(c.matches(d), want))


@contract("C17", ["ListModel.AndFilter.matches", "ListModel.AndFilter.__deepcopy__", "ListModel.AndFilter.__init__"], ["sub-filters: the property itself (induction on the filter's depth)"])
def and_filter(E):
    M, d = filter_env(E)
    L = E.objlist("filters")
    n = E.len(L)
    old = VList(L)
    f = M.AndFilter(L)
    how = E.choose(3)
    if how == 1:
        L.append(E.obj("later"))
    elif how == 2:
        L.clear()
    want = Quant(["int"], lambda k: E.implies(E.and_(k >= 0, k < n), SBool(MATCH(obj_term(old.elem(k)), d.t))))
    filter_quant(E, f, M, d, want, True, "an and-filter matches when all match", old, n)


def filter_quant(E, f, M, d, want, conj, name, old, n):
    import engine.loader as ld
    g = f
    for nm in (name, "a deep copy matches the same: " + name):
        r = g.matches(d)
        if bool(r):
            if conj:
                E.check("C17 " + nm, want)
            else:
                # some sub-filter matches: otherwise contradiction
                E.check("C17 " + nm, SBool(z3.Not(quant_term(E, lambda k: z3.Not(MATCH(obj_term(old.elem(k)), d.t)), n))))
        else:
            if conj:
                E.check("C17 " + nm, SBool(z3.Not(quant_term(E, lambda k: MATCH(obj_term(old.elem(k)), d.t), n))))
            else:
                E.check("C17 " + nm, want)
        g = ld.deepcopy(f)
        E.check("C17 a copy is another filter of the same kind", g is not f, type(g) is type(f))


def quant_term(E, f, n):
    k = z3.Int("qk")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < I(n)), f(SInt(k))))


@contract("C17", ["ListModel.OrFilter.matches", "ListModel.OrFilter.__deepcopy__", "ListModel.OrFilter.__init__"], ["sub-filters: the property itself (induction on the filter's depth)"])
def or_filter(E):
    M, d = filter_env(E)
    L = E.objlist("filters")
    n = E.len(L)
    old = VList(L)
    f = M.OrFilter(L)
    how = E.choose(3)
    if how == 1:
        L.append(E.obj("later"))
    elif how == 2:
        L.clear()
    want = Quant(["int"], lambda k: E.implies(E.and_(k >= 0, k < n), E.not_(SBool(MATCH(obj_term(old.elem(k)), d.t)))))
    filter_quant(E, f, M, d, want, False, "an or-filter matches when at least one matches", old, n)


@contract("C17", ["ListModel.AndFilter.matches", "ListModel.OrFilter.matches", "ListModel.NotFilter.matches", "ListModel.NotFilter.__deepcopy__", "ListModel.Filter.matches",
                  "ListModel.Filter.__deepcopy__", "ListModel.PredicateFilter.matches", "ListModel.PredicateFilter.__deepcopy__"], ["sub-filters: the property itself (induction on the filter's depth)"])
def simple_filters(E):
    M, d = filter_env(E)
    c = E.choose(5)
    if c == 0:
        for a in ((), (None,), (VList(),)):
            both(E, M.AndFilter(*a), M, d, True, "an empty and-filter matches everything")
            both(E, M.OrFilter(*a), M, d, False, "an empty or-filter matches nothing")
    elif c == 1:
        f = E.obj("filter")
        both(E, M.NotFilter(f), M, d, E.not_(SBool(MATCH(f.t, d.t))), "a not-filter negates")
    elif c == 2:
        b = E.bool("default")
        both(E, M.Filter(b), M, d, b, "a plain filter returns its default")
        both(E, M.Filter(), M, d, False, "a plain filter's default is False")
    else:
        P = z3.Function("predicate", Obj, BoolS)

        def pred(x):
            E.check("C17 the predicate is asked about the item", E.eq(x, d))
            return SBool(P(x.t))
        both(E, M.PredicateFilter(pred), M, d, SBool(P(d.t)), "a predicate filter asks its predicate")


@contract("C17", ["ListModel.EqFilter.matches", "ListModel.NotEqFilter.matches", "ListModel.EqFilter.__deepcopy__", "ListModel.NotEqFilter.__deepcopy__",
                  "ListModel.EqFilter.__init__", "ListModel.NotEqFilter.__init__"])
def eq_filters(E):
    M = E.load("ListModel")
    d, v = E.obj("item"), E.obj("value")
    VAL = z3.Function("attr_key", Obj, Obj)

    def attr(o, name):
        E.check("C17 the named attribute of the item is used", name == "key", SBool(o.t == d.t))
        return SObj(VAL(o.t))
    E.attr_handlers.append(attr)
    CMP = z3.Function("cmp", Obj, Obj, BoolS)
    neg = E.choose(2)
    F = M.NotEqFilter if neg else M.EqFilter
    if E.choose(2):
        f = F("key", v)
        same = SBool(VAL(d.t) == v.t)
    else:
        def cmp(a, b):
            E.check("C17 the comparison gets the item's value and the given value", SBool(obj_term(a) == VAL(d.t)), SBool(obj_term(b) == v.t))
            return SBool(CMP(obj_term(a), obj_term(b)))
        f = F("key", v, cmp)
        same = SBool(CMP(VAL(d.t), v.t))
    both(E, f, M, d, E.not_(same) if neg else same, "not-equal filters negate" if neg else "equality filters compare the attribute")


@contract("C17", ["ListModel.StartsWithFilter.matches", "ListModel.TextFilter.matches", "ListModel.StartsWithFilter.__deepcopy__", "ListModel.TextFilter.__deepcopy__",
                  "ListModel.TextFilter.__init__"], ["str.startswith, str.lower, str.find are those of CPython (kept abstract)"])
def text_filters(E):
    M = E.load("ListModel")
    d, v = E.obj("item"), E.obj("value")
    VAL = z3.Function("attr_key", Obj, Obj)
    LOW = z3.Function("lower", Obj, Obj)
    PRE = z3.Function("startswith", Obj, Obj, BoolS)
    FIND = z3.Function("find", Obj, Obj, IntS)
    STR = z3.Function("str_of", Obj, Obj)
    E.str_handlers.append(lambda x: SObj(STR(x.t)) if isinstance(x, SObj) else NotImplemented)

    def attr(o, name):
        if name == "key":
            E.check("C17 the named attribute of the item is used", SBool(o.t == d.t))
            return SObj(VAL(o.t))
        if name == "lower":
            return lambda: SObj(LOW(o.t))
        if name == "startswith":
            return lambda p: SBool(PRE(o.t, obj_term(p)))
        if name == "find":
            return lambda p: SInt(FIND(o.t, obj_term(p)))
        if name == "__contains__":
            return lambda p: SBool(FIND(o.t, obj_term(p)) >= 0)
        return NotImplemented
    E.attr_handlers.append(attr)
    if E.choose(2):
        both(E, M.StartsWithFilter("key", v), M, d, SBool(PRE(VAL(d.t), v.t)), "prefix filters test the prefix")
    else:
        both(E, M.TextFilter("key", v), M, d, SBool(FIND(LOW(STR(VAL(d.t))), LOW(v.t)) >= 0), "text filters test for a case-insensitive substring")


@contract("C17", ["ListModel.PartialDateFilter.matches", "ListModel.PartialDateFilter.__deepcopy__"])
def date_filter(E):
    M = E.load("ListModel")
    d = E.obj("item")
    VAL = z3.Function("attr_key", Obj, Obj)
    F = {n: z3.Function("date_" + n, Obj, IntS) for n in ("year", "month", "day")}

    def attr(o, name):
        if name == "key":
            E.check("C17 the named attribute of the item is used", SBool(o.t == d.t))
            return SObj(VAL(o.t))
        if name in F:
            return SInt(F[name](o.t))
        return NotImplemented
    E.attr_handlers.append(attr)
    kw, want = {}, []
    for n in ("year", "month", "day"):
        if E.choose(2):
            x = E.int(n)
            E.assume(x >= 1)
            kw[n] = x
            want.append(E.eq(SInt(F[n](VAL(d.t))), x))
    both(E, M.PartialDateFilter("key", **kw), M, d, E.and_(*want) if want else True, "partial dates test each given component")
