"""Contracts of nion/utils/Selection.py (C01-C04)."""
from engine.api import *

CLS = "IndexedSelection"
STYLES = ["none", "single", "single_or_none", "multiple"]
EV = ["Event.Event.fire (contract C05)"]


def state(E, inv=True):
    """an arbitrary selection of any style satisfying the class invariant"""
    M = E.load("Selection")
    style = getattr(M.Style, E.pick(STYLES))
    sel = M.IndexedSelection(style)
    S = E.intset("indexes")
    E.setp(sel, CLS, "indexes", S)
    if E.choose(2):
        a = E.int("anchor")
        E.assume(E.member(S, a))
        E.setp(sel, CLS, "anchor_index", a)
    else:
        a = None
        E.assume(E.forall("int", lambda k: E.not_(E.member(S, k))))
        E.setp(sel, CLS, "anchor_index", None)
    if style.name in ("single", "single_or_none") and a is not None:
        E.assume(E.forall("int", lambda k: E.implies(E.member(S, k), E.eq(k, a))))
    if style.name == "none":
        E.assume(E.forall("int", lambda k: E.not_(E.member(S, k))))
    old = E.copyset(S)
    g = E.ghost(fires=0, ok=True)

    def fired():
        g.fires = g.fires + 1
        g.seen = E.copyset(sel.indexes)
    sel._listener = sel.changed_event.listen(fired)
    return M, style.name, sel, old, a, g


def inv_post(E, sel, style):
    """class invariant after the call: the anchor is a selected index, None exactly when nothing is selected, and the
    style's bound on the number of selected indexes"""
    S, a = sel.indexes, sel.anchor_index
    if a is None:
        E.check("C02 no anchor only when nothing is selected", E.forall("int", lambda k: E.not_(E.member(S, k))))
    else:
        E.check("C02 the anchor is a selected index", E.member(S, a))
        if style in ("single", "single_or_none"):
            E.check("C01 at most one index selected", E.forall("int", lambda k: E.implies(E.member(S, k), E.eq(k, a))))
    if style == "none":
        E.check("C01 nothing selected in style none", E.forall("int", lambda k: E.not_(E.member(S, k))))


def fires_post(E, sel, old, g):
    """fired once iff the selected set changed, after the change"""
    S = sel.indexes
    if g.fires == 0:
        E.check("C04 not announced, so unchanged", E.same_set(S, old))
    else:
        E.check("C04 announced at most once", E.eq(g.fires, 1))
        E.check("C04 new contents in place when announced", E.same_set(g.seen, S))
        E.check("C04 announced, so changed", lambda: S != old) if E.concrete else E.check(
            "C04 announced, so changed", SBool(z3.BoolVal(not (S == old))))


def expect(E, name, sel, f):
    S = sel.indexes
    E.check(name, E.forall("int", lambda k: E.iff(E.member(S, k), f(k))))


def only(E, x):
    return lambda k: E.eq(k, x)


def clear_expect(E, style):
    return (lambda k: E.eq(k, 0)) if style == "single" else (lambda k: False)


def set_expect(E, style, x):
    return (lambda k: False) if style == "none" else (lambda k: E.eq(k, x))


@contract("C01 C02 C04", "Selection.IndexedSelection.clear", EV, concrete=True)
def clear(E):
    M, style, sel, old, a, g = state(E)
    sel.clear()
    expect(E, "C01 clear", sel, clear_expect(E, style))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.set", EV, concrete=True)
def set_(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.set(x)
    expect(E, "C01 set selects exactly the index", sel, set_expect(E, style, x))
    if style != "none":
        E.check("C02 set makes the index the anchor", E.eq(sel.anchor_index, x))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.add", EV, concrete=True)
def add(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.add(x)
    if style == "multiple":
        expect(E, "C01 add unions", sel, lambda k: E.or_(E.member(old, k), E.eq(k, x)))
        if a is not None:
            E.check("C02 adding leaves the anchor alone", E.eq(sel.anchor_index, a))
    else:
        expect(E, "C01 add in a single style", sel, set_expect(E, style, x))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.remove", EV, concrete=True)
def remove(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    raised, e = E.raises(KeyError, sel.remove, x)
    if raised:
        E.check("C01 KeyError only for an index not selected", E.not_(E.member(old, x)))
        E.check("C01 removing does not fail in this style", style in ("multiple", "single_or_none"))
        E.check("C01 failed remove changes nothing", E.same_set(sel.indexes, old))
        E.check("C04 failed remove is not announced", E.eq(g.fires, 0))
        E.check("C02 failed remove keeps the anchor", E.eq(sel.anchor_index, a) if a is not None else sel.anchor_index is None)
        return
    if style in ("multiple", "single_or_none"):
        E.check("C01 KeyError for an index not selected", E.member(old, x))
        expect(E, "C01 remove subtracts", sel, lambda k: E.and_(E.member(old, k), E.not_(E.eq(k, x))))
    elif style == "single":
        expect(E, "C01 remove is ignored in single style", sel, lambda k: E.member(old, k))
    else:
        expect(E, "C01 nothing selected", sel, lambda k: False)
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.toggle", EV, concrete=True)
def toggle(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.toggle(x)
    if style == "multiple":
        expect(E, "C01 toggle flips", sel, lambda k: E.ite(E.eq(k, x), E.not_(E.member(old, k)), E.member(old, k)))
    elif style == "single":
        expect(E, "C01 toggle in single style", sel, only(E, x))
    elif style == "single_or_none":
        expect(E, "C01 toggle in single_or_none style", sel, lambda k: E.and_(E.eq(k, x), E.not_(E.member(old, x))))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.extend", EV, concrete=True)
def extend(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.extend(x)
    if style == "multiple":
        if a is None:
            expect(E, "C01 extend of an empty selection", sel, only(E, x))
        else:
            expect(E, "C01 extend adds the range from the anchor", sel, lambda k: E.or_(
                E.member(old, k), E.and_(a <= k, k <= x), E.and_(x <= k, k <= a)))
            E.check("C02 extending leaves the anchor alone", E.eq(sel.anchor_index, a))
    else:
        expect(E, "C01 extend in a single style", sel, set_expect(E, style, x))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02 C04", "Selection.IndexedSelection.set_multiple", EV, concrete=True)
def set_multiple(E):
    M, style, sel, old, a, g = state(E)
    T = E.intset("new")
    new = E.copyset(T)
    sel.set_multiple(T)
    if style == "multiple":
        expect(E, "C01 set_multiple replaces", sel, lambda k: E.member(new, k))
    elif style == "none":
        pass
    else:
        one = E.len(new) == 1
        if one:
            expect(E, "C01 one-element set_multiple", sel, lambda k: E.member(new, k))
        else:
            expect(E, "C01 other set_multiple clears", sel, clear_expect(E, style))
    E.check("C01 the given set is not changed", E.same_set(T, new))
    inv_post(E, sel, style)
    fires_post(E, sel, old, g)


@contract("C01 C02", "Selection.IndexedSelection.add_range", EV)
def add_range(E):
    M, style, sel, old, a, g = state(E)
    lo, hi = E.int("lo"), E.int("hi")
    r = loader.py_range(lo, hi)
    n = E.ite(hi > lo, hi - lo, 0)
    empty = a is None
    E.hints.append(lambda L: E.forall("int", lambda k: E.iff(
        E.member(sel.indexes, k), E.or_(E.member(old, k), E.and_(lo <= k, k < lo + L.i)) if style == "multiple" else
        (False if style == "none" else E.ite(E.eq(L.i, 0), E.member(old, k), E.eq(k, lo + L.i - 1))))))
    if style == "multiple" and not empty:
        E.hints.append(lambda L: E.eq(sel.anchor_index, a))
    # one announcement per index actually added: announcements + (indexes of the prefix already there) = iterations
    def anchor_hint(L):
        x = sel.anchor_index
        if x is None:
            return E.eq(L.i, 0) if style != "none" else True
        if style == "multiple":
            return E.member(sel.indexes, x) if not empty else E.and_(L.i > 0, E.eq(x, lo))
        if style == "none":
            return False
        return E.member(sel.indexes, x)
    E.hints.append(anchor_hint)
    each = {"n": 0}
    orig = sel.add
    sel.add_range(r)
    if style == "multiple":
        expect(E, "C01 add_range adds the whole range", sel, lambda k: E.or_(E.member(old, k), E.and_(lo <= k, k < hi)))
        if a is not None:
            E.check("C02 adding a range leaves the anchor alone", E.eq(sel.anchor_index, a))
    elif style == "none":
        expect(E, "C01 nothing selected", sel, lambda k: False)
    else:
        expect(E, "C01 add_range in a single style selects the last index", sel,
               lambda k: E.ite(hi > lo, E.eq(k, hi - 1), E.member(old, k)))
    inv_post(E, sel, style)


@contract("C03 C02", "Selection.IndexedSelection.insert_index", EV, concrete=True)
def insert_index(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.insert_index(x)
    expect(E, "C03 insert shifts the indexes at or above", sel,
           lambda k: E.ite(k < x, E.member(old, k), E.and_(k > x, E.member(old, k - 1))))
    E.check("C03 insert does not announce", E.eq(g.fires, 0))
    E.check("C03 style unchanged", sel.selection_style.name == style)
    if a is not None:
        E.check("C03 the anchor moves with its index", E.eq(sel.anchor_index, E.ite(x <= a, a + 1, a)))
    else:
        E.check("C03 no anchor stays no anchor", sel.anchor_index is None)
    if style == "multiple":
        inv_post(E, sel, style)


@contract("C03 C02", "Selection.IndexedSelection.remove_index", EV, concrete=True)
def remove_index(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    sel.remove_index(x)
    expect(E, "C03 remove shifts the indexes above", sel,
           lambda k: E.ite(k < x, E.member(old, k), E.member(old, k + 1)))
    E.check("C03 remove does not announce", E.eq(g.fires, 0))
    E.check("C03 style unchanged", sel.selection_style.name == style)
    b = sel.anchor_index
    if a is None:
        E.check("C03 no anchor stays no anchor", b is None)
    elif b is None:
        E.check("C03 the anchor vanishes only with its index", E.eq(x, a))
    else:
        E.check("C03 the anchor moves with its index", E.implies(E.not_(E.eq(x, a)), E.eq(b, E.ite(x < a, a - 1, a))))
    if style == "multiple":
        inv_post(E, sel, style)


@contract("C02 C04", ["Selection.IndexedSelection.current_index", "Selection.IndexedSelection.contains",
                      "Selection.IndexedSelection.has_selection", "Selection.IndexedSelection.indexes"], EV, concrete=True)
def queries(E):
    M, style, sel, old, a, g = state(E)
    x = E.int("x")
    q = E.pick(["contains", "has", "current"])
    if q == "contains":
        r = sel.contains(x)
        E.check("C02 contains", E.iff(r, E.member(old, x)))
    elif q == "has":
        E.check("C02 has_selection", E.iff(sel.has_selection, a is not None))
    else:
        c = sel.current_index
        if c is None:
            if a is not None:
                # not exactly one: there is another one
                E.check("C02 current_index None only when not exactly one", not (E.len(old) == 1))
        else:
            E.check("C02 current_index is the only one", E.member(old, c),
                    E.forall("int", lambda k: E.implies(E.member(old, k), E.eq(k, c))))
    E.check("C02 queries change nothing", E.same_set(sel.indexes, old))
    E.check("C04 queries do not announce", E.eq(g.fires, 0))


@contract("C02 C04", "Selection.IndexedSelection.ordered_indexes", EV)
def ordered(E):
    M, style, sel, old, a, g = state(E)
    r = VList(sel.ordered_indexes)
    n = r.length()
    E.check("C02 ordered_indexes lists only selected ones", E.forall_in(n, lambda k: E.member(old, r.elem(k))))
    if a is None:
        E.check("C02 ordered_indexes of an empty selection", E.eq(n, 0))
    else:
        E.check("C02 the anchor comes first", n > 0, E.eq(r.elem(0), a))
        E.check("C02 the others ascend and none repeats", E.forall(["int", "int"], lambda i, j: E.implies(
            E.and_(1 <= i, i < j, j < n), r.elem(i) < r.elem(j))),
            E.forall("int", lambda i: E.implies(E.and_(1 <= i, i < n), E.not_(E.eq(r.elem(i), a)))))
        # every selected index occurs: the list of sorted indexes has as many elements as the selection
        E.check("C02 as many as selected", E.eq(n, VSet.enumeration(old).length() if False else VSet.length(sel.indexes)))
    E.check("C02 queries change nothing", E.same_set(sel.indexes, old))
    E.check("C04 queries do not announce", E.eq(g.fires, 0))


@contract("C02", ["Selection.IndexedSelection.__eq__", "Selection.IndexedSelection.__ne__"], EV)
def equality(E):
    M, style, sel, old, a, g = state(E)
    other = M.IndexedSelection()
    T = E.intset("other")
    E.setp(other, CLS, "indexes", T)
    b = None
    if E.choose(2):
        b = E.int("b")
        E.setp(other, CLS, "anchor_index", b)
    kind = E.choose(3)
    same_anchor = (a is None and b is None) or (a is not None and b is not None and bool(a == b))
    if kind == 0:
        r = (sel == other)
        same = E.copyset(old) == T
        E.check("C02 == compares set and anchor", E.iff(r, same and same_anchor))
    elif kind == 1:
        r = (sel != other)
        same = E.copyset(old) == T
        E.check("C02 != is the negation", E.iff(r, not (same and same_anchor)))
    else:
        E.check("C02 not equal to other things", (sel == 3) is False, (sel != 3) is True)


@contract("C01 C02", "Selection.IndexedSelection.__init__", EV)
def init(E):
    M = E.load("Selection")
    st = E.pick([None] + STYLES)
    sel = M.IndexedSelection(getattr(M.Style, st) if st else None)
    E.check("C01 starts empty", E.forall("int", lambda k: E.not_(E.member(sel.indexes, k))))
    E.check("C02 starts without anchor", sel.anchor_index is None)
    E.check("C01 style", sel.selection_style.name == (st or "multiple"))


@contract("C04", "Selection.IndexedSelection.add_range", EV)
def add_range_fires(E):
    """each index added by add_range is announced once: count announcements against added indexes, index by index"""
    M, style, sel, old, a, g = state(E)
    lo, hi = E.int("lo"), E.int("hi")
    added = E.ghost(n=0)
    orig_add = M.IndexedSelection.add

    def add(self, x):
        before = VSet(self.indexes)
        f0 = g.fires
        orig_add(self, x)
        if self.indexes == before:
            E.check("C04 add_range: an unchanged set is not announced", E.eq(g.fires, f0))
        else:
            E.check("C04 add_range: a changed set is announced once", E.eq(g.fires, f0 + 1))
            added.n = added.n + 1
    M.IndexedSelection.add = add
    E.hints.append(lambda L: E.eq(g.fires, added.n))
    sel.add_range(loader.py_range(lo, hi))
    E.check("C04 add_range: as many announcements as changes", E.eq(g.fires, added.n))
