"""Contracts of FlattenedListModel (C15, C16)."""
from engine.api import *
from .listmodel import Observer, Container, Selections, inserted_list, removed_list, EV
import weakref

SUB = EV + ["Selection.IndexedSelection.insert_index/remove_index (contract C03)"]


class Off:
    """ghost: where each master item's children start in the flattened list"""

    def __init__(self, E, masters, fam, name="off"):
        self.E = E
        self.f = E.fresh_fn(name, IntS, IntS)
        self.n = masters.nterm()
        f, at, ln, n = self.f, masters.at, fam.ln, self.n
        E.add(f(z3.IntVal(0)) == 0)
        E.assume(Quant(["int"], lambda i: SBool(z3.Implies(z3.And(i.t >= 0, i.t < n), f(i.t + 1) == f(i.t) + ln(at(i.t))))))
        # lemma (contract offsets_lemma): offsets do not decrease
        E.assume(Quant(["int", "int"], lambda i, j: SBool(z3.Implies(z3.And(i.t >= 0, i.t <= j.t, j.t <= n), f(i.t) <= f(j.t)))))

    def __call__(self, i):
        return SInt(self.f(I(i)))


@contract("C15", [], name="offsets_lemma")
def offsets_lemma(E):
    """the defining equations of the offsets imply that they do not decrease (induction on the larger index)"""
    f, ln = E.fresh_fn("off", IntS, IntS), E.fresh_fn("len", IntS, IntS)
    n, i, j = E.int("n"), E.int("i"), E.int("j")
    E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < n), SBool(z3.And(ln(k.t) >= 0, f(k.t + 1) == f(k.t) + ln(k.t))))))
    E.assume(i >= 0)
    E.check("C15 offsets do not decrease: base", SBool(f(i.t) <= f(i.t)))
    E.assume(j >= i, j < n, SBool(f(i.t) <= f(j.t)))
    E.check("C15 offsets do not decrease: step", SBool(f(i.t) <= f(j.t + 1)))


def fam(E, name):
    has, ln, cat = E.fresh_fn(name + "_has", Obj, BoolS), E.fresh_fn(name + "_len", Obj, IntS), E.fresh_fn(name, Obj, IntS, Obj)
    E.assume(Quant(["obj"], lambda k: SBool(z3.And(ln(k.t) >= 0, z3.Implies(z3.Not(has(k.t)), ln(k.t) == 0)))))
    return VFam(has, ln, cat)


def holds_inv(E, items, masters, ch, off):
    """the flattened list is the children of the master items, one after the other"""
    n = masters.nterm()
    at, ln, cat, iat, f = masters.at, ch.ln, ch.cat, items.at, off.f
    return [SBool(items.nterm() == f(n)),
            Quant(["int", "int"], lambda i, j: SBool(z3.Implies(z3.And(i.t >= 0, i.t < n, j.t >= 0, j.t < ln(at(i.t))), iat(f(i.t) + j.t) == cat(at(i.t), j.t))))]


class ChildEvent:
    def __init__(self):
        self.fns = []

    def listen(self, fn):
        l = Listener(fn)
        self.fns.append(weakref.ref(l))
        return l

    def fire(self, *args):
        for r in self.fns:
            l = r()
            if l is not None and l.fn is not None:
                l.fn(*args)


class Listener:
    def __init__(self, fn):
        self.fn = fn

    def close(self):
        self.fn = None


NAME = "FlattenedListModel"


class Flat:
    """a flattened list in an arbitrary state, reached through its public interface as far as its listeners are concerned: the
    master item M was inserted into the container and is at an arbitrary position p of an arbitrary list of master items"""

    def __init__(self, E, key="things"):
        self.E = E
        self.Mod = E.load("ListModel")
        self.M = E.obj("M")
        self.ins, self.rem = ChildEvent(), ChildEvent()
        self.actual = None

        def attr(o, name):
            if name in ("item_inserted_event", "item_removed_event", "kids"):
                E.check("C15 only the changed master item is asked", E.eq(o, self.M))
                return self.ins if name == "item_inserted_event" else self.rem if name == "item_removed_event" else self.actual
            return NotImplemented
        E.attr_handlers.append(attr)
        self.c = Container(E, VList())
        self.key = key or "kids"
        self.m = self.Mod.FlattenedListModel(container=self.c, master_items_key="masters", child_items_key="kids", items_key=key)

    def state(self, with_M):
        """replace the contents by an arbitrary state satisfying the representation invariant"""
        E, m, M = self.E, self.m, self.M
        masters = E.objlist("masters", distinct=True)
        self.ch = fam(E, "kids_of")
        self.off = Off(E, masters, self.ch)
        items = E.objlist("items", nonone=False)
        E.assume(*holds_inv(E, items, masters, self.ch, self.off))
        if with_M:
            self.p = E.int("p")
            E.assume(self.p >= 0, self.p < E.len(masters), E.eq(masters.elem(self.p), M))
        else:
            E.assume(E.forall_in(E.len(masters), lambda k: E.not_(E.eq(masters.elem(k), M))))
            E.assume(E.not_(masters.member(M)))
            # children of items that are not master items any more: none are kept
            E.assume(SBool(self.ch.ln(M.t) == 0))
        E.setp(m, NAME, "master_items", masters)
        E.setp(m, NAME, "children", self.ch)
        E.setp(m, NAME, "items", items)
        self.masters, self.items = masters, items
        self.masters0 = VList(masters)
        self.old, self.n = VList(items), E.len(items)
        self.nm = E.len(masters)
        self.ob = Observer(E, "C15", m, self.key, self.old)


    def others_stay(self, ln0, cat0):
        E, M = self.E, self.M
        ch2 = E.getp(self.m, NAME, "children")
        E.check("C15 invariant: children recorded",
                E.forall("obj", lambda k: SBool(z3.And(ch2.ln(k.t) >= 0, z3.Implies(k.t != M.t, ch2.ln(k.t) == ln0(k.t)), z3.Implies(z3.Not(ch2.has(k.t)), ch2.ln(k.t) == 0)))),
                Quant(["obj", "int"], lambda k, j: SBool(z3.Implies(z3.And(k.t != M.t, j.t >= 0, j.t < ln0(k.t)), ch2.cat(k.t, j.t) == cat0(k.t, j.t)))))

    def invariant(self, off2, masters=None):
        """the representation invariant for the state now, off2 being its offsets"""
        E = self.E
        masters = masters if masters is not None else self.masters0
        ms, ch2, now = E.getp(self.m, NAME, "master_items"), E.getp(self.m, NAME, "children"), self.m.items
        E.check("C15 the master items are those of the container", E.same_list(ms, masters))
        n, at = masters.nterm(), masters.at
        E.check("C15 invariant: offsets", SBool(now.nterm() == off2(SInt(n)).t), E.eq(off2(0), 0),
                E.forall_in(SInt(n), lambda i: E.eq(off2(i + 1), off2(i) + SInt(ch2.ln(at(i.t))))))
        E.check("C15 invariant: the items are the children of the master items, one after the other",
                Quant(["int", "int"], lambda i, j: SBool(z3.Implies(z3.And(i.t >= 0, i.t < n, j.t >= 0, j.t < ch2.ln(at(i.t))),
                                                                   now.at(off2(i).t + j.t) == ch2.cat(at(i.t), j.t)))))


def enter_M(E, F):
    """M is inserted while the model is empty and M has no children: attaches the listeners"""
    F.actual = VList()
    F.c.masters.append(F.M)
    F.c.item_inserted_event.fire("masters", F.M, 0)


@contract("C15 C16", ["ListModel.FlattenedListModel.__child_item_inserted"], SUB)
def child_insert(E):
    F = Flat(E, E.pick([None, "things"]))
    enter_M(E, F)
    F.state(True)
    sel = Selections(E, "C16")
    E.setp(F.m, NAME, "selections", sel.L)
    M, ch, off, p = F.M, F.ch, F.off, F.p
    ln0, cat0 = ch.ln, ch.cat
    b, v = E.int("before"), E.obj("child")
    E.assume(b >= 0, b <= SInt(ln0(M.t)))
    E.int_hints.append(lambda L, x: E.implies(L.i <= p, E.eq(x, off(L.i))))
    at_ = off(p) + b
    sel.op, sel.index = "insert_index", at_
    other = E.choose(2)
    F.ins.fire("others" if other else "kids", v, b)
    now = F.m.items
    if other:
        E.check("C15 other keys have no effect", E.same_list(now, F.old))
        F.ob.end(0)
        sel.end(0)
        return
    inserted_list(E, "C15", "a new child appears at its place among the children of its master item", now, F.old, F.n, at_, v)
    ch2 = E.getp(F.m, NAME, "children")
    E.check("C15 invariant: children recorded", SBool(ch2.ln(M.t) == ln0(M.t) + 1), SBool(ch2.cat(M.t, b.t) == v.t),
            E.forall("int", lambda j: SBool(z3.And(z3.Implies(z3.And(j.t >= 0, j.t < b.t), ch2.cat(M.t, j.t) == cat0(M.t, j.t)),
                                                   z3.Implies(z3.And(j.t >= b.t, j.t < ln0(M.t)), ch2.cat(M.t, j.t + 1) == cat0(M.t, j.t))))))
    F.others_stay(ln0, cat0)
    F.invariant(lambda i: SInt(z3.If(I(i) > p.t, off.f(I(i)) + 1, off.f(I(i)))))
    F.ob.end(1)
    sel.end()


@contract("C15 C16", ["ListModel.FlattenedListModel.__child_item_removed"], SUB)
def child_remove(E):
    F = Flat(E)
    enter_M(E, F)
    F.state(True)
    sel = Selections(E, "C16")
    E.setp(F.m, NAME, "selections", sel.L)
    M, ch, off, p = F.M, F.ch, F.off, F.p
    ln0, cat0 = ch.ln, ch.cat
    b = E.int("index")
    E.assume(b >= 0, b < SInt(ln0(M.t)))
    v = SObj(cat0(M.t, b.t))
    E.int_hints.append(lambda L, x: E.implies(L.i <= p, E.eq(x, off(L.i))))
    at_ = off(p) + b
    sel.op, sel.index = "remove_index", at_
    other = E.choose(2)
    F.rem.fire("others" if other else "kids", v, b)
    now = F.m.items
    if other:
        E.check("C15 other keys have no effect", E.same_list(now, F.old))
        F.ob.end(0)
        sel.end(0)
        return
    removed_list(E, "C15", "a removed child disappears from its place among the children of its master item", now, F.old, F.n, at_)
    ch2 = E.getp(F.m, NAME, "children")
    E.check("C15 invariant: children recorded", SBool(ch2.ln(M.t) == ln0(M.t) - 1),
            E.forall("int", lambda j: SBool(z3.And(z3.Implies(z3.And(j.t >= 0, j.t < b.t), ch2.cat(M.t, j.t) == cat0(M.t, j.t)),
                                                   z3.Implies(z3.And(j.t >= b.t, j.t < ln0(M.t) - 1), ch2.cat(M.t, j.t) == cat0(M.t, j.t + 1))))))
    F.others_stay(ln0, cat0)
    F.invariant(lambda i: SInt(z3.If(I(i) > p.t, off.f(I(i)) - 1, off.f(I(i)))))
    F.ob.end(1)
    sel.end()


class Tracked:
    """a selection, seen at one arbitrary position: it has to go on designating the same item"""

    def __init__(self, E, n):
        self.t0 = E.int("selected")
        E.assume(self.t0 >= 0, self.t0 < n)
        self.g = E.ghost(t=self.t0, gone=False)
        self.E = E

    def insert_index(self, i):
        E, g = self.E, self.g
        g.t = E.ite(i <= g.t, g.t + 1, g.t)

    def remove_index(self, i):
        E, g = self.E, self.g
        g.gone = E.or_(g.gone, E.eq(i, g.t))
        g.t = E.ite(i < g.t, g.t - 1, g.t)


@contract("C15 C16", ["ListModel.FlattenedListModel.__master_item_inserted", "ListModel.FlattenedListModel.__child_item_inserted"], SUB)
def master_insert(E):
    F = Flat(E)
    F.state(False)
    M, ch, off = F.M, F.ch, F.off
    g, m = F.ob.g, F.m
    ln0, cat0 = ch.ln, ch.cat
    q = E.int("before")
    E.assume(q >= 0, q <= F.nm)
    F.actual = A = E.objlist("kids", nonone=False)
    na = E.len(A)
    tr = Tracked(E, F.n)
    E.setp(m, NAME, "selections", VList([tr]))
    start = off(q)
    F.c.masters = VList(F.masters)
    F.c.masters.insert(q, M)
    items = lambda: E.getp(m, NAME, "items")
    E.int_hints.append(lambda L, x: E.implies(L.i <= q, E.eq(x, off(L.i))))
    # while the children are added one by one
    E.hints.append(lambda L: E.and_(E.eq(E.len(items()), F.n + L.i), E.eq(SInt(ch.ln(M.t)), L.i), E.eq(g.count, L.i)))
    E.hints.append(lambda L: E.same_list(g.mirror, items()))
    E.hints.append(lambda L: E.forall_in(start, lambda k: E.eq(items().elem(k), F.old.elem(k))))
    E.hints.append(lambda L: E.forall_in(L.i, lambda j: E.and_(E.eq(items().elem(start + j), A.elem(j)), SBool(ch.cat(M.t, j.t) == A.at(j.t)))))
    E.hints.append(lambda L: E.forall("int", lambda k: E.implies(E.and_(k >= start, k < F.n), E.eq(items().elem(k + L.i), F.old.elem(k)))))
    E.hints.append(lambda L: E.forall("obj", lambda k: SBool(z3.And(ch.ln(k.t) >= 0, z3.Implies(k.t != M.t, ch.ln(k.t) == ln0(k.t)), z3.Implies(z3.Not(ch.has(k.t)), ch.ln(k.t) == 0)))))
    E.hints.append(lambda L: Quant(["obj", "int"], lambda k, j: SBool(z3.Implies(z3.And(k.t != M.t, j.t >= 0, j.t < ln0(k.t)), ch.cat(k.t, j.t) == cat0(k.t, j.t)))))
    E.hints.append(lambda L: E.and_(E.eq(tr.g.t, E.ite(tr.t0 >= start, tr.t0 + L.i, tr.t0)), E.not_(tr.g.gone)))
    other = E.choose(2)
    F.c.item_inserted_event.fire("others" if other else "masters", M, q)
    now = m.items
    if other:
        E.check("C15 other keys have no effect", E.same_list(now, F.old))
        F.ob.end(0)
        return
    E.check("C15 the children of a new master item are inserted at its place", E.eq(E.len(now), F.n + na), E.forall_in(na, lambda j: E.eq(now.elem(start + j), A.elem(j))),
            E.forall_in(start, lambda k: E.eq(now.elem(k), F.old.elem(k))),
            E.forall("int", lambda k: E.implies(E.and_(k >= start, k < F.n), E.eq(now.elem(k + na), F.old.elem(k)))))
    F.others_stay(ln0, cat0)
    ms2 = VList(F.masters0)
    ms2.insert(q, M)
    F.invariant(lambda i: SInt(z3.If(I(i) > q.t, off.f(I(i) - 1) + I(na), off.f(I(i)))), ms2)
    F.ob.end(na)
    E.check("C16 a selection goes on designating the same item", E.not_(tr.g.gone), E.eq(now.elem(tr.g.t), F.old.elem(tr.t0)),
            E.eq(tr.g.t, E.ite(tr.t0 >= start, tr.t0 + na, tr.t0)))
    # and the new master item is followed
    E.check("C15 listens to its master items", len([r for r in F.ins.fns if r() is not None]) == 1, len([r for r in F.rem.fns if r() is not None]) == 1)


@contract("C15 C16", ["ListModel.FlattenedListModel.__master_item_removed", "ListModel.FlattenedListModel.__child_item_removed"], SUB)
def master_remove(E):
    F = Flat(E)
    enter_M(E, F)
    F.state(True)
    M, ch, off, q = F.M, F.ch, F.off, F.p
    g, m = F.ob.g, F.m
    ln0, cat0 = ch.ln, ch.cat
    nk = SInt(ln0(M.t))
    F.actual = VList.symbolic(ln0(M.t), "obj", lambda j: cat0(M.t, j))
    tr = Tracked(E, F.n)
    E.setp(m, NAME, "selections", VList([tr]))
    start = off(q)
    items = lambda: E.getp(m, NAME, "items")
    E.int_hints.append(lambda L, x: E.implies(L.i <= q, E.eq(x, off(L.i))))
    rest = lambda L: nk - L.i
    E.hints.append(lambda L: E.and_(E.eq(E.len(items()), F.n - L.i), E.eq(SInt(ch.ln(M.t)), rest(L)), E.eq(g.count, L.i)))
    E.hints.append(lambda L: E.same_list(g.mirror, items()))
    E.hints.append(lambda L: E.forall_in(start + rest(L), lambda k: E.eq(items().elem(k), F.old.elem(k))))
    E.hints.append(lambda L: E.forall("int", lambda k: E.implies(E.and_(k >= start + nk, k < F.n), E.eq(items().elem(k - L.i), F.old.elem(k)))))
    E.hints.append(lambda L: E.forall_in(rest(L), lambda j: SBool(ch.cat(M.t, j.t) == cat0(M.t, j.t))))
    E.hints.append(lambda L: E.forall("obj", lambda k: SBool(z3.And(ch.ln(k.t) >= 0, z3.Implies(k.t != M.t, ch.ln(k.t) == ln0(k.t)), z3.Implies(z3.Not(ch.has(k.t)), ch.ln(k.t) == 0)))))
    E.hints.append(lambda L: Quant(["obj", "int"], lambda k, j: SBool(z3.Implies(z3.And(k.t != M.t, j.t >= 0, j.t < ln0(k.t)), ch.cat(k.t, j.t) == cat0(k.t, j.t)))))
    E.hints.append(lambda L: E.and_(E.iff(tr.g.gone, E.and_(tr.t0 >= start + rest(L), tr.t0 < start + nk)),
                                    E.implies(E.not_(tr.g.gone), E.eq(tr.g.t, E.ite(tr.t0 >= start + nk, tr.t0 - L.i, tr.t0)))))
    F.c.masters = VList(F.masters)
    del F.c.masters[q]
    other = E.choose(2)
    F.c.item_removed_event.fire("others" if other else "masters", M, q)
    now = m.items
    if other:
        E.check("C15 other keys have no effect", E.same_list(now, F.old))
        F.ob.end(0)
        return
    E.check("C15 the children of a removed master item are removed", E.eq(E.len(now), F.n - nk), E.forall_in(start, lambda k: E.eq(now.elem(k), F.old.elem(k))),
            E.forall("int", lambda k: E.implies(E.and_(k >= start + nk, k < F.n), E.eq(now.elem(k - nk), F.old.elem(k)))))
    F.others_stay(ln0, cat0)
    E.check("C15 invariant: no children are kept for a removed master item", SBool(E.getp(m, NAME, "children").ln(M.t) == 0))
    ms2 = VList(F.masters0)
    del ms2[q]
    F.invariant(lambda i: SInt(z3.If(I(i) > q.t, off.f(I(i) + 1) - nk.t, off.f(I(i)))), ms2)
    F.ob.end(nk)
    E.check("C16 a selection goes on designating the same item", E.implies(E.not_(tr.g.gone), E.eq(now.elem(tr.g.t), F.old.elem(tr.t0))),
            E.iff(tr.g.gone, E.and_(tr.t0 >= start, tr.t0 < start + nk)), E.implies(E.not_(tr.g.gone), E.eq(tr.g.t, E.ite(tr.t0 >= start + nk, tr.t0 - nk, tr.t0))))
    live = [r() for r in F.ins.fns + F.rem.fns]
    E.check("C15 does not listen to a removed master item", all(l is None or l.fn is None for l in live))


def replace_method(E, m, name, fn):
    """a callee by its contract"""
    if not hasattr(type(m), name):
        raise Unsupported(f"no method {name}")
    object.__setattr__(m, name, fn)


@contract("C15", ["ListModel.FlattenedListModel.container", "ListModel.FlattenedListModel.close"],
          EV + ["ListModel.FlattenedListModel.__master_item_removed (contract master_remove)"])
def flattened_leave(E):
    F = Flat(E)
    F.state(False)
    m, off = F.m, F.off
    masters, items = F.masters, F.items
    F.c.masters = cm = VList(F.masters)
    nm = F.nm

    def removed(key, item, index):
        k = E.len(masters)
        E.check("C15 leaving: removes master items that are there", E.eq(key, "masters"), k > 0, E.eq(index, k - 1), E.eq(item, masters.elem(k - 1)))
        masters._remove_at(I(k) - 1)
        items._write("assign")
        items.n = off.f(I(k) - 1)
    replace_method(E, m, "_FlattenedListModel__master_item_removed", removed)
    E.hints.append(lambda L: E.eq(E.len(masters), nm - L.i))
    E.hints.append(lambda L: E.eq(E.len(items), off(nm - L.i)))
    E.hints.append(lambda L: E.forall_in(nm - L.i, lambda k: E.eq(masters.elem(k), F.masters0.elem(k))))
    if E.choose(2):
        m.container = None
    else:
        m.close()
    E.check("C15 nothing is left without a container", E.eq(E.len(m.items), 0), m.container is None)
    F.c.item_inserted_event.fire("masters", E.obj("late"), 0)
    E.check("C15 a left container has no effect", E.eq(E.len(m.items), 0))


@contract("C15", ["ListModel.FlattenedListModel.container", "ListModel.FlattenedListModel.__init__"],
          EV + ["ListModel.FlattenedListModel.__master_item_inserted (contract master_insert)"])
def flattened_enter(E):
    F = Flat(E)
    m = F.m
    if E.choose(2):
        m.container = None
    masters, items = VList(), VList()
    E.setp(m, NAME, "master_items", masters)
    E.setp(m, NAME, "items", items)
    cm = E.objlist("masters", distinct=True)
    kids = fam(E, "kids_of")
    off = Off(E, cm, kids)
    FL = E.objlist("flat", nonone=False)
    E.assume(*holds_inv(E, FL, cm, kids, off))
    nm = E.len(cm)
    c2 = Container(E, cm, changes=bool(E.choose(2)))

    def inserted(key, item, index):
        k = E.len(masters)
        E.check("C15 entering: inserts the master items of the container in order", E.eq(key, "masters"), E.eq(index, k), k < nm, E.eq(item, cm.elem(k)))
        masters.append(item)
        items._write("assign")
        items._become(VList.symbolic(off.f(I(k) + 1), "obj", FL.at))
    replace_method(E, m, "_FlattenedListModel__master_item_inserted", inserted)
    E.hints.append(lambda L: E.eq(E.len(masters), L.i))
    E.hints.append(lambda L: E.eq(E.len(items), off(L.i)))
    E.hints.append(lambda L: E.forall_in(L.i, lambda k: E.eq(masters.elem(k), cm.elem(k))))
    E.hints.append(lambda L: E.forall_in(off(L.i), lambda k: E.eq(items.elem(k), FL.elem(k))))
    m.container = c2
    E.check("C15 the items are the children of the master items of the container", E.same_list(m.items, FL), m.container is c2)
    E.check("C15 the items are reachable by the items key", E.same_list(m.things, m.items))
