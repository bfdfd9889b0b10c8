"""Contracts of FilteredListModel (C13, C14)."""
from engine.api import *
from engine.loops import distinct_list
from .listmodel import Observer, Container, EV
from .flattened import ChildEvent, replace_method

NAME = "FilteredListModel"
SELS = EV + ["the filter and the sort key are functions of the item (they change only with an announced content change)"]


class Filt:
    """a filtered list model over any container of distinct items, with any filter and sort key, in any state satisfying the
    representation invariant (or, while a change block is open, any items)"""

    def __init__(self, E, mode=None, changes=True, key="things", hook=None):
        self.E = E
        self.Mod = E.load("ListModel")
        self.mode = mode if mode is not None else E.choose(3, "sort")      # 0 container order, 1 ascending, 2 descending
        self.X = E.obj("X")                 # the item under study
        E.assume(E.not_(E.eq(self.X, None)))
        self.P = E.fresh_fn("matches", Obj, BoolS)
        self.K = E.fresh_fn("sort_key", Obj, IntS)     # any total preorder on finitely many items is one by integers
        self.hook = E.choose(2, "item_changed_event") if hook is None else hook
        self.changed = ChildEvent()

        def attr(o, name):
            if name == "item_changed_event" and self.hook:
                return self.changed
            return NotImplemented
        E.attr_handlers.append(attr)
        E.hasattr_handlers.append(lambda o, name: bool(self.hook) if name == "item_changed_event" else NotImplemented)

        class F:
            def matches(s, item):
                return SBool(self.P(obj_term(item)))
        self.filter, self.sort_key = F(), (lambda x: SInt(self.K(obj_term(x))))
        self.key = key
        self.c = Container(E, VList(), changes=changes)
        self.m = self.Mod.FilteredListModel(container=self.c, master_items_key="masters", items_key=key)
        m = self.m
        m.filter = self.filter
        if self.mode:
            m.sort_key = self.sort_key
            m.sort_reverse = self.mode == 2
        self.rev = bool(E.choose(2, "reverse without a key")) if not self.mode else self.mode == 2
        if not self.mode and self.rev:
            m.sort_reverse = True

    def enter_X(self):
        """X enters the container through the public interface: attaches its listener"""
        self.c.masters.append(self.X)
        self.c.item_inserted_event.fire("masters", self.X, self.E.len(self.c.masters) - 1)

    def state(self, with_X, right=True, level=0):
        """replace the contents by an arbitrary state; right: the items are the right ones"""
        E, m, X = self.E, self.m, self.X
        masters = E.objlist("masters", distinct=True)
        self.c.masters = masters
        own = E.copylist(masters)
        items = E.objlist("items", distinct=True)
        if right:
            E.assume(*self.right(items, masters))
        if with_X:
            self.p = E.int("p")
            E.assume(self.p >= 0, self.p < E.len(masters), E.eq(masters.elem(self.p), X))
        else:
            E.assume(E.forall_in(E.len(masters), lambda k: E.not_(E.eq(masters.elem(k), X))))
            if right:
                E.assume(E.forall_in(E.len(items), lambda k: E.not_(E.eq(items.elem(k), X))))
        E.setp(m, NAME, "master_items", own)
        E.setp(m, NAME, "items", items)
        E.setp(m, NAME, "items_sorted", E.bool("items_sorted"))
        E.setp(m, NAME, "change_level", level)
        self.masters, self.items = masters, items
        self.old, self.n, self.nm = E.copylist(items), E.len(items), E.len(masters)
        self.watch()

    def watch(self):
        E, m = self.E, self.m
        self.ob = Observer(E, "C14", m, self.key, E.copylist(self.now()), self.now)
        self.g = g = E.ghost(depth=0, groups=0)

        def begin(k):
            g.depth = g.depth + 1
            E.check("C14 begin and end carry the items key", E.eq(k, self.key))

        def end(k):
            g.depth = g.depth - 1
            E.check("C14 begin and end carry the items key", E.eq(k, self.key))
            E.check("C14 begin and end balance", g.depth >= 0)

        def inside(*a):
            E.check("C14 notifications are sent between begin and end", g.depth >= 1)
        self.keep = [m.begin_changes_event.listen(begin), m.end_changes_event.listen(end), m.item_inserted_event.listen(inside), m.item_removed_event.listen(inside)]
        E.hints.append(lambda L: E.same_list(self.ob.g.mirror, self.now()))
        for d in (0, 1):
            E.hints.append(lambda L, d=d: E.eq(g.depth, d))

    def now(self):
        return self.E.getp(self.m, NAME, "items")

    def own(self):
        return self.E.getp(self.m, NAME, "master_items")

    # ---- the invariant
    def members(self, items, masters):
        E, P = self.E, self.P
        return [E.forall_in(E.len(items), lambda k: E.and_(SBool(P(obj_term(items.elem(k)))), masters.member(items.elem(k)))),
                E.forall_in(E.len(masters), lambda k: E.implies(SBool(P(obj_term(masters.elem(k)))), items.member(masters.elem(k))))]

    def rel(self, masters):
        if self.mode == 0:
            return lambda a, b: masters.pos(a) < masters.pos(b)
        return (lambda a, b: self.K(a) <= self.K(b)) if self.mode == 1 else (lambda a, b: self.K(a) >= self.K(b))

    def order(self, items, masters):
        E = self.E
        n = items.nterm()
        rel = self.rel(masters)
        at = items.at if items.c is None else None
        if at is None:
            v = VList(items)
            v._to_sym("obj")
            at = v.at
        return Quant(["int", "int"], lambda i, j: SBool(z3.Implies(z3.And(i.t >= 0, i.t < j.t, j.t < n), rel(at(i.t), at(j.t)))))

    def right(self, items, masters):
        return self.members(items, masters) + [self.order(items, masters)]

    def check_right(self, count=None):
        E = self.E
        items, masters = self.now(), self.c.masters
        E.check("C13 the master items are those of the container", E.same_list(self.own(), masters))
        ms = self.members(items, masters)
        E.check("C13 every item is a matching item of the container", ms[0])
        E.check("C13 every matching item of the container is an item", ms[1])
        E.check("C13 the items are in container order" if not self.mode else "C13 the items are ordered by the sort key", self.order(items, masters))
        E.check("C13 each item appears once", distinct_list(items))
        self.done(count)

    def done(self, count=None):
        self.ob.end(count)
        self.E.check("C14 begin and end balance", self.E.eq(self.g.depth, 0))

    # ---- loop invariants of the searches for the place of an item
    def search_hints(self, item, items, masters):
        """items, masters: functions giving the lists searched"""
        E = self.E
        at = lambda k: obj_term(items().elem(k))
        n = lambda: E.len(items())
        if self.mode == 0:
            pos = lambda x: SInt(masters().pos(x))
            E.int_hints.append(lambda L, v: E.and_(v >= 0, v <= n()))
            E.int_hints.append(lambda L, v: E.forall_in(v, lambda k: pos(at(k)) < L.i))
            E.int_hints.append(lambda L, v: E.forall("int", lambda k: E.implies(E.and_(k >= v, k < n()), pos(at(k)) >= L.i)))
        else:
            before = (lambda a, b: SBool(self.K(a) < self.K(b))) if self.mode == 1 else (lambda a, b: SBool(self.K(a) > self.K(b)))
            x = obj_term(item)
            E.int_hints.append(lambda L, v: E.and_(v >= 0, v <= n()))
            E.int_hints.append(lambda L, v: E.forall_in(v, lambda k: before(at(k), x)))
            E.int_hints.append(lambda L, v: E.forall("int", lambda k: E.implies(E.and_(k >= v, k < n()), E.not_(before(at(k), x)))))


@contract("C13 C14", ["ListModel.FilteredListModel.__item_inserted", "ListModel.FilteredListModel.__inserted_master_item", "ListModel.FilteredListModel.__insert_item",
                      "ListModel.FilteredListModel.__find_sorted_index_for_item", "ListModel.FilteredListModel.__find_unsorted_index_for_item"], SELS)
def filtered_insert(E):
    F = Filt(E)
    F.state(False)
    i = E.int("index")
    E.assume(i >= 0, i <= F.nm)
    F.masters.insert(i, F.X)
    F.search_hints(F.X, F.now, lambda: F.masters)
    other = E.choose(2, "key")
    F.c.item_inserted_event.fire("others" if other else "masters", F.X, i)
    if other:
        E.check("C13 other keys have no effect", E.same_list(F.now(), F.old))
        F.done(0)
        return
    F.check_right(E.ite(SBool(F.P(F.X.t)), 1, 0))


@contract("C13 C14", ["ListModel.FilteredListModel.__item_removed", "ListModel.FilteredListModel.__removed_master_item", "ListModel.FilteredListModel.__remove_item"], SELS)
def filtered_remove(E):
    F = Filt(E)
    F.enter_X()
    F.state(True)
    del F.masters[F.p]
    other = E.choose(2, "key")
    F.c.item_removed_event.fire("others" if other else "masters", F.X, F.p)
    if other:
        E.check("C13 other keys have no effect", E.same_list(F.now(), F.old))
        F.done(0)
        return
    F.check_right(E.ite(SBool(F.P(F.X.t)), 1, 0))
    if F.hook:
        before = E.copylist(F.now())
        F.changed.fire()
        E.check("C13 a removed item has no effect any more", E.same_list(F.now(), before))


@contract("C13 C14", ["ListModel.FilteredListModel.__updated_master_item"], SELS, timeout=60.0)
def filtered_changed(E):
    """an item announces that its content changed: its filter result and its sort key may be anything now"""
    F = Filt(E)
    E.assume(bool(F.hook))
    F.enter_X()
    F.state(True)
    P0, K0, x = F.P, F.K, F.X.t
    p1, k1 = E.bool("matches now").t, E.int("sort key now").t
    inside = F.old.member(F.X)
    F.P = lambda y: z3.If(y == x, p1, P0(y))
    F.K = lambda y: z3.If(y == x, k1, K0(y))
    # the other items, in the order they have
    others = [None]

    def rest():
        if others[0] is None:
            v = E.copylist(F.old)
            if bool(inside):
                v.remove(F.X)
            others[0] = v
        return others[0]
    rest()
    F.search_hints(F.X, rest, lambda: F.masters)
    F.changed.fire()
    F.check_right()


@contract("C13 C14", ["ListModel.FilteredListModel.begin_change", "ListModel.FilteredListModel.end_change", "ListModel.FilteredListModel.changes"], SELS)
def filtered_block(E):
    """within a change block nothing is announced and the items stay"""
    F = Filt(E)
    E.assume(bool(F.hook))
    with_X = E.choose(2, "with X")
    if with_X:
        F.enter_X()
    level = E.int("level")
    E.assume(level >= 0)
    F.state(with_X, right=False, level=level)
    how = E.choose(2, "how")
    cm = F.m.changes()
    F.m.begin_change() if how else cm.__enter__()
    what = E.choose(6, "what")
    if what == 0:
        F.m.filter = F.filter
    elif what == 1:
        F.m.sort_key = F.sort_key if E.choose(2) else None
    elif what == 2:
        F.m.sort_reverse = E.bool("r")
    elif what == 3:
        if with_X:
            F.changed.fire()
    elif what == 4:
        if with_X:
            del F.masters[F.p]
            F.c.item_removed_event.fire("masters", F.X, F.p)
        else:
            i = E.int("index")
            E.assume(i >= 0, i <= F.nm)
            F.masters.insert(i, F.X)
            F.c.item_inserted_event.fire("masters", F.X, i)
    else:
        F.m.begin_change() if how else F.m.changes().__enter__()
        F.m.end_change() if how else F.m.changes().__exit__(None, None, None)
    E.check("C14 while a change block is open the items stay", E.same_list(F.now(), F.old))
    E.check("C13 the master items are those of the container", E.same_list(F.own(), F.masters))
    F.done(0)
    E.check("C14 the block is still open", E.eq(E.getp(F.m, NAME, "change_level"), level + 1))
    if E.choose(2, "end"):
        # an inner block: nothing happens at its end either
        E.assume(level > 0)
        F.m.end_change() if how else cm.__exit__(None, None, None)
        E.check("C14 the end of an inner block changes nothing", E.same_list(F.now(), F.old), E.eq(E.getp(F.m, NAME, "change_level"), level))
        F.done(0)


class Sub:
    """definition: the subsequence of a list whose elements satisfy a predicate; cnt(i) counts among the first i, src(k) is where
    the k-th is (such functions exist for every list and predicate)"""

    def __init__(self, E, lst, pred):
        self.cnt, self.src = E.fresh_fn("spec_cnt", IntS, IntS), E.fresh_fn("spec_src", IntS, IntS)
        cnt, src, n, at = self.cnt, self.src, lst.nterm(), lst.at
        app = lambda j: pred(at(j))
        E.add(cnt(z3.IntVal(0)) == 0)
        E.assume(Quant(["int"], lambda j: SBool(z3.Implies(z3.And(j.t >= 0, j.t < n), z3.And(cnt(j.t + 1) == cnt(j.t) + z3.If(app(j.t), 1, 0), cnt(j.t) >= 0, z3.Implies(app(j.t), z3.And(src(cnt(j.t)) == j.t, cnt(j.t) < cnt(n)))))), step=cnt))
        E.assume(Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < cnt(n)), z3.And(src(k.t) >= 0, src(k.t) < n, app(src(k.t)), cnt(src(k.t)) == k.t)))))
        E.assume(Quant(["int"], lambda i: SBool(z3.Implies(z3.And(i.t >= 0, i.t <= n), z3.And(cnt(i.t) >= 0, cnt(i.t) <= i.t, cnt(i.t) <= cnt(n))))))
        E.assume(Quant(["int", "int"], lambda a, b: SBool(z3.Implies(z3.And(a.t >= 0, a.t < b.t, b.t < cnt(n)), src(a.t) < src(b.t)))))


def skip():
    raise ContractError("another loop")


def rebuild_hints(E, F):
    """loop invariants of the rebuilding of the items"""
    now, n0, old = F.now, F.n, F.old
    masters = F.masters
    P = F.P

    def over(L, kind):
        """is this a loop over a list (or set) that changes the items?"""
        if L.seq is None or not isinstance(L.seq.source, kind) or ("cont", now().cid) not in L.info.writes:
            skip()
        return L.seq.source
    lists, sets = (lambda L: over(L, VList)), (lambda L: over(L, VSet))
    # taking out all items, from the end
    E.hints.append(lambda L: [lists(L)] and E.eq(E.len(now()) + L.i, n0))
    E.hints.append(lambda L: [lists(L)] and E.forall_in(E.len(now()), lambda k: E.eq(now().elem(k), old.elem(k))))

    # putting the new items
    def prefix(L, l):
        v = lists(L)
        return E.forall_in(L.i, lambda k: E.eq(l.elem(k), v.elem(k)))

    def places(L, l):
        v = lists(L)
        if v.pos is None or l.pos is None:
            skip()
        pos, lpos, i, mem = v.pos, l.pos, I(L.i), v._member
        return E.forall("obj", lambda x: SBool(z3.Implies(z3.And(mem(x.t), pos(x.t) < i), lpos(x.t) == pos(x.t))))
    E.list_hints.append(lambda L, l, l0: [lists(L)] and E.eq(E.len(l), L.i))
    E.list_hints.append(lambda L, l, l0: prefix(L, l))
    E.list_hints.append(lambda L, l, l0: places(L, l))
    # taking out those that do not stay
    stays = lambda x: z3.And(P(x), masters._member(x))
    S = Sub(E, old, stays)
    cnt, src = S.cnt, S.src
    c = lambda L: SInt(cnt(I(L.i)))
    rel = F.rel(masters)
    E.hints.append(lambda L: [lists(L)] and Quant(["int", "int"], lambda i, j: SBool(z3.Implies(z3.And(i.t >= 0, i.t < j.t, j.t < n0.t, stays(old.at(i.t)), stays(old.at(j.t))), rel(old.at(i.t), old.at(j.t))))))
    E.int_hints.append(lambda L, v: [lists(L)] and E.eq(v + c(L), L.i))
    E.hints.append(lambda L: [lists(L)] and E.eq(E.len(now()), n0 - L.i + c(L)))
    E.hints.append(lambda L: [lists(L)] and E.forall_in(c(L), lambda k: E.eq(now().elem(k), SObj(old.at(src(k.t))))))
    E.hints.append(lambda L: [lists(L)] and E.forall("int", lambda k: E.implies(E.and_(k >= c(L), k < E.len(now())), E.eq(now().elem(k), old.elem(k + L.i - c(L))))))
    # putting in the new ones, each where it belongs
    sel = lambda L: (lambda k: obj_term(L.seq.elem(I(k))))
    E.hints.append(lambda L: [sets(L)] and F.order(now(), masters))
    E.hints.append(lambda L: [sets(L)] and E.forall_in(E.len(now()), lambda k: SBool(stays(obj_term(now().elem(k))))))
    E.hints.append(lambda L: [sets(L)] and E.forall_in(n0, lambda k: E.implies(SBool(stays(old.at(k.t))), now().member(old.elem(k)))))
    E.hints.append(lambda L: [sets(L)] and E.forall_in(L.i, lambda k: now().member(SObj(sel(L)(k)))))
    E.hints.append(lambda L: [sets(L)] and E.forall("int", lambda k: E.implies(E.and_(k >= L.i, k < SInt(L.seq.n)), E.not_(now().member(SObj(sel(L)(k)))))))

    # the search for its place
    def outer(L):
        if L.seq is not None:
            skip()
        o = [x for x in E.loopstack if x is not L and x.seq is not None and isinstance(x.seq.source, VSet)]
        return obj_term(o[-1].seq.elem(o[-1].i_term)) if o else skip()
    if F.mode == 0:
        before = lambda a, b: SBool(masters.pos(a) < masters.pos(b))
    else:
        before = (lambda a, b: SBool(F.K(a) < F.K(b))) if F.mode == 1 else (lambda a, b: SBool(F.K(a) > F.K(b)))
    at = lambda k: obj_term(now().elem(k))
    n = lambda: E.len(now())
    E.int_hints.append(lambda L, v: [outer(L)] and E.and_(v >= 0, v <= n()))
    E.int_hints.append(lambda L, v: E.forall_in(v, lambda k, x=outer(L): before(at(k), x)))
    E.int_hints.append(lambda L, v: E.forall("int", lambda k, x=outer(L): E.implies(E.and_(k >= v, k < n()), E.not_(before(at(k), x)))))


REBUILD = ["ListModel.FilteredListModel.__update_items", "ListModel.FilteredListModel.__build_items", "ListModel.FilteredListModel.__insert_item",
           "ListModel.FilteredListModel.__find_sorted_index_for_item"]


def rebuild(E, mode, how):
    """whatever the items were, they are the right ones afterwards"""
    F = Filt(E, mode=mode, hook=0)
    m = F.m
    F.state(False, right=False, level=1 if how == "end" else 0)
    if how == "filter":
        E.setp(m, NAME, "filter", None)
    elif how == "key":
        E.setp(m, NAME, "sort_key", None if mode else (lambda x: 0))
    elif how == "reverse":
        E.setp(m, NAME, "sort_reverse", not F.rev)
    E.cand_quick = True
    rebuild_hints(E, F)
    if how == "end":
        if E.choose(2):
            m.end_change()
        else:
            E.setp(m, NAME, "change_level", 0)
            m.mark_changed()
    elif how == "filter":
        m.filter = F.filter
    elif how == "key":
        m.sort_key = F.sort_key if mode else None
    else:
        m.sort_reverse = F.rev
    F.check_right()


def rebuilds():
    for mode, mname in enumerate(("container_order", "ascending", "descending")):
        for how, fns in (("end", ["end_change", "mark_changed"]), ("filter", ["filter"]), ("key", ["sort_key"]), ("reverse", ["sort_reverse"])):
            def fn(E, mode=mode, how=how):
                rebuild(E, mode, how)
            fn.__name__ = f"filtered_rebuild_{how}_{mname}"
            contract("C13 C14", REBUILD + ["ListModel.FilteredListModel." + f for f in fns], SELS, timeout=60.0)(fn)


rebuilds()


# ---------------------------------------------------------------- entering and leaving a container
def prefix_of(E, lst, k):
    """the first k elements of a list of distinct elements"""
    at, pos, k = lst.at, lst.pos, I(k)
    r = VList.symbolic(k, "obj", at)
    r.pos = lambda x: z3.If(z3.And(pos(x) >= 0, pos(x) < k, at(pos(x)) == x), pos(x), z3.IntVal(-1))
    return r


def fresh_right(E, F, masters):
    """what the contract of an insertion or removal says about the items: they are the right ones for the master items"""
    new = E.objlist("items", distinct=True)
    E.assume(*F.right(new, masters))
    return new


def level_choice(E, m):
    level = E.int("level") if E.choose(2, "block") else 0
    if not isinstance(level, int):
        E.assume(level >= 1)
    E.setp(m, NAME, "change_level", level)
    return not isinstance(level, int)


@contract("C13 C14", ["ListModel.FilteredListModel.container", "ListModel.FilteredListModel.close"],
          SELS + ["ListModel.FilteredListModel.__item_removed (contracts filtered_remove, filtered_block)"])
def filtered_leave(E):
    F = Filt(E, hook=0, changes=bool(E.choose(2)))
    F.state(False)
    m, c, cm, nm = F.m, F.c, F.masters, F.nm
    blocked = level_choice(E, m)
    own, items = F.own(), F.now()

    def removed(key, item, index):
        k = E.len(own)
        E.check("C13 leaving: takes out master items that are there", E.eq(key, "masters"), k > 0, E.eq(index, k - 1), E.eq(item, own.elem(k - 1)))
        own._remove_at(I(k) - 1)
        if not blocked:
            items._write("assign")
            items._become(fresh_right(E, F, prefix_of(E, cm, k - 1)))
            F.ob.g.mirror._write("assign")
            F.ob.g.mirror._become(VList(items))
    replace_method(E, m, "_FilteredListModel__item_removed", removed)
    E.hints.append(lambda L: E.eq(E.len(own), nm - L.i))
    E.hints.append(lambda L: E.forall_in(nm - L.i, lambda k: E.eq(own.elem(k), cm.elem(k))))
    for n in range(3):
        E.hints.append(lambda L, n=n: F.right(items, prefix_of(E, cm, nm - L.i))[n])
    if E.choose(2):
        m.container = None
    else:
        m.close()
    E.check("C13 a model without a container has no master items", E.eq(E.len(F.own()), 0), m.container is None)
    if blocked:
        E.check("C14 while a change block is open the items stay", E.same_list(F.now(), F.old))
    else:
        E.check("C13 a model without a container has no items", E.eq(E.len(F.now()), 0))
    before = E.copylist(F.now())
    which = E.choose(4, "late event")
    if which == 0:
        c.item_inserted_event.fire("masters", F.X, 0)
    elif which == 1:
        c.item_removed_event.fire("masters", F.X, 0)
    elif hasattr(c, "begin_changes_event"):
        (c.begin_changes_event if which == 2 else c.end_changes_event).fire("masters")
        if which == 2:
            E.check("C14 a left container has no effect", E.eq(F.g.depth, 0))
    E.check("C13 a left container has no effect", E.same_list(F.now(), before))
    F.done()


@contract("C13 C14", ["ListModel.FilteredListModel.container", "ListModel.FilteredListModel.__init__", "ListModel.FilteredListModel.items", "ListModel.FilteredListModel.__getattr__"],
          SELS + ["ListModel.FilteredListModel.__item_inserted (contracts filtered_insert, filtered_block)"])
def filtered_enter(E):
    F = Filt(E, hook=0)
    m = F.m
    old = F.c
    cm = E.objlist("masters", distinct=True)
    E.assume(E.forall_in(E.len(cm), lambda k: E.not_(E.eq(cm.elem(k), F.X))))
    nm = E.len(cm)
    c2 = Container(E, cm, changes=bool(E.choose(2)))
    how = E.choose(3, "how")
    if how == 1:
        m.container = None
    own, items = VList(), VList()
    blocked = False
    if how != 2:
        blocked = level_choice(E, m)
        if blocked:
            items = E.objlist("items", distinct=True)
        E.setp(m, NAME, "master_items", own)
        E.setp(m, NAME, "items", items)
        E.setp(m, NAME, "items_sorted", E.bool("items_sorted"))
    F.old = E.copylist(items)

    following, calls = [], E.ghost(n=0)

    def follow(key, item, index):
        E.check("C13 follows its container", E.eq(key, "masters"), E.eq(item, F.X), E.eq(index, 0))
        calls.n = calls.n + 1

    def inserted(key, item, index):
        if following:
            return follow(key, item, index)
        own_ = F.own()
        k = E.len(own_)
        E.check("C13 entering: inserts the items of the container in order", E.eq(key, "masters"), E.eq(index, k), k < nm, E.eq(item, cm.elem(k)))
        own_.append(item)
        if not blocked:
            its = F.now()
            its._write("assign")
            its._become(fresh_right(E, F, prefix_of(E, cm, k + 1)))
    replace_method(E, m, "_FilteredListModel__item_inserted", inserted)
    replace_method(E, m, "_FilteredListModel__item_removed", follow)
    E.hints.append(lambda L: E.eq(E.len(F.own()), L.i))
    E.hints.append(lambda L: E.forall_in(L.i, lambda k: E.eq(F.own().elem(k), cm.elem(k))))
    for n in range(3):
        E.hints.append(lambda L, n=n: F.right(F.now(), prefix_of(E, cm, L.i))[n])
    if how == 2:
        E.assume(F.mode == 0)
        F.P = lambda x: z3.BoolVal(True)       # no filter is set
        m.__init__(container=c2, master_items_key="masters", items_key="things")
    else:
        m.container = c2
    E.check("C13 the container is the one set", m.container is c2)
    F.c, F.masters = c2, cm
    E.check("C13 the master items are those of the container", E.same_list(F.own(), cm))
    if blocked:
        E.check("C14 while a change block is open the items stay", E.same_list(F.now(), F.old))
    else:
        ms = F.members(F.now(), cm)
        E.check("C13 every item is a matching item of the container", ms[0])
        E.check("C13 every matching item of the container is an item", ms[1])
        E.check("C13 the items are ordered", F.order(F.now(), cm))
    E.check("C13 items gives the items", E.same_list(m.items, F.now()), E.same_list(m.things, F.now()))
    E.check("C13 items gives a copy", m.items is not F.now())
    raised, _ = E.raises(AttributeError, lambda: m.others)
    E.check("C13 no other attributes", raised)
    # from now on the model follows the container
    following.append(1)
    c2.item_inserted_event.fire("masters", F.X, 0)
    c2.item_removed_event.fire("masters", F.X, 0)
    E.check("C13 follows its container", calls.n == 2)
    F.watch()
    if hasattr(c2, "begin_changes_event"):
        k = "masters" if E.choose(2) else "others"
        c2.begin_changes_event.fire(k)
        E.check("C14 begin and end of the container are passed on", E.eq(F.g.depth, 1 if k == "masters" else 0))
        c2.end_changes_event.fire(k)
    F.done(0)
    if how == 0:
        old.item_inserted_event.fire("masters", F.X, 0)
        old.item_removed_event.fire("masters", F.X, 0)
        E.check("C13 a left container has no effect", calls.n == 2)
