import copy
import datetime
import operator
from rt.base import check
from nion.utils import Event, ListModel, Observable, Selection, StructuredModel


class Mirror:
    """an observer applying notifications to a copy"""

    def __init__(self, t, tag, model, key, now=None, keep=None):
        self.t, self.tag, self.key, self.model = t, tag, key, model
        self.now = now or (lambda: model.items)
        self.items = list(self.now())
        self.log = []
        self.l = (model.item_inserted_event.listen(self.ins), model.item_removed_event.listen(self.rem))

    def ins(self, key, item, index):
        self.log.append(("i", item, index))
        self.t.ok(self.tag, key == self.key, f"announced under {key!r}")
        self.items.insert(index, item)
        self.same("during insert")

    def rem(self, key, item, index):
        self.log.append(("r", item, index))
        self.t.ok(self.tag, key == self.key, f"announced under {key!r}")
        ok = -len(self.items) <= index < len(self.items) and self.items[index] is item
        self.t.ok(self.tag, ok, lambda: f"announced removal of {item!r} at {index} from {self.items!r}")
        if -len(self.items) <= index < len(self.items):
            del self.items[index]
        self.same("during remove")

    def same(self, msg):
        got = list(self.now())
        self.t.ok(self.tag, len(got) == len(self.items) and all(a is b for a, b in zip(got, self.items)), lambda: f"{msg}: observer has {self.items!r}, model {got!r}")


class Item:
    n = 0

    def __init__(self, i, v=0, observable=True):
        self.i, self.v = i, v
        if observable:
            self.item_changed_event = Event.Event()

    def __repr__(self):
        return f"<{self.i}:{self.v}>"


# ---------------------------------------------------------------- ListModel

def gen_list(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append([rng.choice(["ins", "ins", "app", "rem", "rem", "clear", "insneg", "remneg", "remout"]), rng.randint(0, 9)])
    return {"key": rng.choice([None, "things", "items"]), "init": rng.choice([None, 0, 1, 3]), "ops": ops, "dup": rng.random() < 0.3}


def fixed_list():
    for key in (None, "things"):
        for init in (None, 0, 3):
            for op in ("ins", "app", "rem", "clear", "insneg", "remneg", "remout"):
                for i in (0, 1, 2, 3, 7):
                    yield {"key": key, "init": init, "ops": [[op, i], ["app", 0]], "dup": False}


@check("C11", gen_list, fixed_list)
def list_model(t, d):
    init = None if d["init"] is None else [Item(-k) for k in range(d["init"])]
    m = ListModel.ListModel(d["key"], init) if d["key"] else (ListModel.ListModel(items=init) if init is not None else ListModel.ListModel())
    want = list(init or [])
    key = d["key"] or "items"
    same = lambda: len(m.items) == len(want) and all(a is b for a, b in zip(m.items, want))
    t.ok("C11", same(), "initial items")
    if init is not None:
        init.append(Item("x"))
        t.ok("C11", same(), "shares the given list")
    mir = Mirror(t, "C11", m, key)
    shared = Item("s")
    for n, (op, i) in enumerate(d["ops"]):
        del mir.log[:]
        v = shared if d["dup"] else Item(n)
        k = len(want)
        if op == "ins":
            i = i % (k + 1)
            m.insert_item(i, v); want.insert(i, v)
            t.eq("C11", mir.log, [("i", v, i)], "announcements")
        elif op == "insneg":
            m.insert_item(-i, v); want.insert(-i, v)
            t.eq("C11", len(mir.log), 1, "announcements")
        elif op == "app":
            m.append_item(v); want.append(v)
            t.eq("C11", mir.log, [("i", v, k)], "announcements")
        elif op == "rem" and k:
            i = i % k
            m.remove_item(i); x = want.pop(i)
            t.eq("C11", mir.log, [("r", x, i)], "announcements")
        elif op == "remneg" and k:
            i = -1 - i % k
            m.remove_item(i); want.pop(i)
            t.eq("C11", len(mir.log), 1, "announcements")
        elif op == "remout":
            t.raises("C11", IndexError, m.remove_item, k + i, msg="remove outside")
            t.eq("C11", mir.log, [], "announcements")
        elif op == "clear":
            m.clear_items(); want = []
            t.eq("C11", len(mir.log), k, "announcements")
        t.ok("C11", same(), lambda: f"items {m.items!r}, expected {want!r} after {op} {i}")
        mir.same(op)
    if d["key"]:
        t.ok("C11", getattr(m, d["key"]) == m.items, "reachable by key")
    t.raises("C11", AttributeError, getattr, m, "nothing", msg="unknown attribute")


# ---------------------------------------------------------------- MappedListModel

class Mapped:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return f"m{self.x!r}"


def gen_map(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append([rng.choice(["ins", "ins", "ins", "rem", "rem", "clear", "cont", "none", "other", "sel", "sel", "make", "release", "late", "block"]), rng.randint(0, 9), rng.randint(0, 9)])
    return {"init": rng.randint(0, 4), "ops": ops, "nofn": rng.random() < 0.1, "chain": rng.random() < 0.3, "again": rng.choice([0, 0, 2, 3])}


def fixed_map():
    for init in (0, 1, 3):
        for a in ("ins", "rem", "clear", "cont", "none", "other", "late"):
            for i in (0, 1, 2, 3):
                yield {"init": init, "ops": [["make", 0, 0], ["sel", i, 0], ["sel", i + 1, 0], [a, i, 2], ["sel", 1, 0], ["ins", 1, 0], ["rem", 0, 0]], "nofn": False, "chain": False}


@check("C12 C16", gen_map, fixed_map)
def mapped_list(t, d):
    calls = []
    mk = {}

    def map_fn(x):
        r = Mapped(x)
        calls.append(("map", x, r))
        return r

    def unmap_fn(x):
        calls.append(("unmap", x))
    n = [0]
    made = []

    def new():
        n[0] += 1
        if made and d.get("again") and n[0] % d["again"] == 0 and not d["nofn"]:
            return made[n[0] * 7 % len(made)]      # an item that was there before, or is still
        made.append(Item(n[0]))
        return made[-1]
    C = ListModel.ListModel("masters", [new() for _ in range(d["init"])])
    first = Selection.IndexedSelection()
    kw = {} if d["nofn"] else {"map_fn": map_fn, "unmap_fn": unmap_fn}
    m = ListModel.MappedListModel(container=C, master_items_key="masters", items_key="things", selection=first, **kw)
    mir = Mirror(t, "C12", m, "things")
    sels = [[first, []]]       # selection, designated mapped objects (a list of items)
    released = []
    conts = []
    inner = []

    def check_all(msg):
        want = list(C.items) if C is not None else []
        got = m.items
        if d["nofn"]:
            t.ok("C12", len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: f"{msg}: {got!r} for {want!r}")
        else:
            t.ok("C12", len(got) == len(want) and all(a.x is b for a, b in zip(got, want)), lambda: f"{msg}: {got!r} for {want!r}")
        mir.same(msg)
        t.ok("C12", getattr(m, "things") == got, "reachable by key")
        for s, des in sels:
            des[:] = [x for x in des if any(x is y for y in got)]
            w = {k for k, y in enumerate(got) if any(y is x for x in des)}
            t.eq("C16", set(s.indexes), w, f"{msg}: selected")
        for s, old in released:
            t.eq("C16", set(s.indexes), old, f"{msg}: released selection")
    check_all("constructed")
    t.eq("C12", len([c for c in calls if c[0] == "map"]), 0 if d["nofn"] else d["init"], "map calls at construction")
    for op, i, j in d["ops"]:
        del calls[:]
        before = m.items
        k = len(C.items) if C is not None else 0
        if op == "ins" and C is not None:
            i = i % (k + 1)
            v = new()
            C.insert_item(i, v)
            if not d["nofn"]:
                t.ok("C12", len(calls) == 1 and calls[0][:2] == ("map", v) and m.items[i] is calls[0][2], lambda: f"calls {calls!r}")
        elif op == "rem" and k:
            i = i % k
            C.remove_item(i)
            if not d["nofn"]:
                t.ok("C12", len(calls) == 1 and calls[0][0] == "unmap" and calls[0][1] is before[i], lambda: f"calls {calls!r}, removed {before[i]!r}")
        elif op == "clear" and k:
            C.clear_items()
        elif op in ("cont", "none", "late"):
            old = C
            conts.append(old)
            if op == "none":
                C = None
            else:
                C = ListModel.ListModel("masters", [new() for _ in range(j % 4)])
            m.container = C
            if not d["nofn"]:
                un = [c[1] for c in calls if c[0] == "unmap"]
                t.ok("C12", len(un) == len(before) and all(any(a is b for b in un) for a in before), lambda: f"unmapped {un!r} of {before!r}")
            t.ok("C12", m.container is C, "container")
            if op == "late" and old is not None:
                del calls[:]
                old.append_item(new())
                t.eq("C12", calls, [], "calls for an old container")
        elif op == "other" and C is not None:
            C.notify_insert_item("others", new(), 0)
            C.notify_remove_item("others", new(), 0)
            t.ok("C12", not calls and all(a is b for a, b in zip(m.items, before)) and len(m.items) == len(before), "other keys")
        elif op == "make":
            s = m.make_selection()
            t.ok("C16", isinstance(s, Selection.IndexedSelection) and not s.has_selection, "make_selection")
            sels.append([s, []])
        elif op == "release" and len(sels) > 1:
            s, des = sels.pop(1 + i % (len(sels) - 1))
            m.release_selection(s)
            released.append((s, set(s.indexes)))
        elif op == "sel" and m.items:
            s, des = sels[j % len(sels)]
            x = m.items[i % len(m.items)]
            if not any(x is y for y in des):
                des.append(x)
                s.add(i % len(m.items))
        elif op == "block":
            ev = []
            l1 = m.begin_changes_event.listen(lambda k: ev.append(("b", k)))
            l2 = m.end_changes_event.listen(lambda k: ev.append(("e", k)))
            with m.changes():
                if C is not None:
                    C.append_item(new())
                    if i % 2:
                        with m.changes():
                            C.append_item(new())
                            if j % 2:
                                C.remove_item(0)
        check_all(op)
    m.close()
    t.eq("C12", list(m.items), [], "items after close")
    mir.same("close")


# ---------------------------------------------------------------- FlattenedListModel

class Master(ListModel.ListModel):
    pass


def gen_flat(rng):
    ops = []
    for _ in range(rng.randint(1, 14)):
        ops.append([rng.choice(["mins", "mins", "mrem", "cins", "cins", "cins", "crem", "crem", "cclear", "cont", "none", "other", "cother", "sel", "sel", "make", "release", "stale"]),
                    rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9)])
    return {"init": [rng.randint(0, 3) for _ in range(rng.randint(0, 3))], "ops": ops, "key": rng.choice([None, "things"])}


def fixed_flat():
    for init in ([], [0], [2], [1, 2], [2, 0, 3], [0, 0]):
        for op in ("mins", "mrem", "cins", "crem", "cont", "none", "other", "cother", "stale", "cclear"):
            for i in (0, 1, 2):
                yield {"init": init, "ops": [["make", 0, 0, 0], ["sel", i, 0, 0], ["sel", 3, 0, 0], [op, i, 1, 2], ["cins", i, 1, 1], ["mrem", 0, 0, 0], ["cins", 0, 0, 0]], "key": "things"}


@check("C15 C16", gen_flat, fixed_flat)
def flattened_list(t, d):
    n = [0]

    def new():
        n[0] += 1
        return Item(n[0])

    def master(k):
        return Master("children", [new() for _ in range(k)])
    C = ListModel.ListModel("masters", [master(k) for k in d["init"]])
    first = Selection.IndexedSelection()
    key = d["key"]
    m = ListModel.FlattenedListModel(container=C, master_items_key="masters", child_items_key="children", items_key=key, selection=first)
    key = key or "children"
    mir = Mirror(t, "C15", m, key)
    sels = [[first, []]]
    released = []
    olds = []

    def check_all(msg):
        want = [x for mm in (C.items if C is not None else []) for x in mm.items]
        got = m.items
        t.ok("C15", len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: f"{msg}: {got!r}, expected {want!r}")
        mir.same(msg)
        t.ok("C15", getattr(m, key) == got, "reachable by key")
        for s, des in sels:
            des[:] = [x for x in des if any(x is y for y in got)]
            w = {k for k, y in enumerate(got) if any(y is x for x in des)}
            t.eq("C16", set(s.indexes), w, f"{msg}: selected")
        for s, old in released:
            t.eq("C16", set(s.indexes), old, f"{msg}: released selection")
    check_all("constructed")
    for op, i, j, k in d["ops"]:
        ms = C.items if C is not None else []
        del mir.log[:]
        before = m.items
        if op == "mins" and C is not None:
            C.insert_item(i % (len(ms) + 1), master(j % 4))
        elif op == "mrem" and ms:
            x = ms[i % len(ms)]
            C.remove_item(i % len(ms))
            olds.append(x)
        elif op == "cins" and ms:
            mm = ms[i % len(ms)]
            mm.insert_item(j % (len(mm.items) + 1), new())
            t.eq("C15", len(mir.log), 1, "announcements of an inserted child")
        elif op == "crem" and ms:
            mm = ms[i % len(ms)]
            if mm.items:
                mm.remove_item(j % len(mm.items))
                t.eq("C15", len(mir.log), 1, "announcements of a removed child")
        elif op == "cclear" and ms:
            ms[i % len(ms)].clear_items()
        elif op in ("cont", "none"):
            olds.extend(ms)
            C = None if op == "none" else ListModel.ListModel("masters", [master((j + q) % 3) for q in range(k % 4)])
            m.container = C
        elif op == "other" and C is not None:
            C.notify_insert_item("others", master(1), 0)
            C.notify_remove_item("others", master(1), 0)
            t.eq("C15", mir.log, [], "other keys")
        elif op == "cother" and ms:
            ms[i % len(ms)].notify_insert_item("others", new(), 0)
            ms[i % len(ms)].notify_remove_item("others", new(), 0)
            t.eq("C15", mir.log, [], "other child keys")
        elif op == "stale" and olds:
            olds[i % len(olds)].append_item(new())
            t.eq("C15", mir.log, [], "children of a master that left")
        elif op == "make":
            sels.append([m.make_selection(), []])
        elif op == "release" and len(sels) > 1:
            s, des = sels.pop(1 + i % (len(sels) - 1))
            m.release_selection(s)
            released.append((s, set(s.indexes)))
        elif op == "sel" and m.items:
            s, des = sels[j % len(sels)]
            x = m.items[i % len(m.items)]
            if not any(x is y for y in des):
                des.append(x)
                s.add(i % len(m.items))
        check_all(op)
    m.close()
    t.eq("C15", list(m.items), [], "items after close")
    mir.same("close")


# ---------------------------------------------------------------- FilteredListModel

FILTERS = {"all": lambda v: True, "none": lambda v: False, "even": lambda v: v % 2 == 0, "big": lambda v: v > 4, "odd": lambda v: v % 2 == 1, "small": lambda v: v < 6}


def gen_filt(rng):
    ops = []
    for _ in range(rng.randint(1, 16)):
        ops.append([rng.choice(["ins", "ins", "ins", "rem", "rem", "chg", "chg", "chg", "filter", "filter", "sort", "rev", "cont", "none", "begin", "end", "mark", "other", "late", "reorder", "refilter", "resort"]),
                    rng.randint(0, 9), rng.randint(0, 11), rng.choice(list(FILTERS))])
    return {"init": [rng.randint(0, 11) for _ in range(rng.randint(0, 5))], "ops": ops, "mkey": rng.choice([None, "masters"]), "obs": rng.random() < 0.85,
            "mutfilter": rng.random() < 0.5}


def fixed_filt():
    for init in ([], [3], [5, 2, 8], [1, 1, 1, 1], [0, 1, 2, 3, 4, 5]):
        for sort in (None, "sort"):
            for rev in (None, "rev"):
                pre = ([["sort", 1, 1, "all"]] if sort else []) + ([["rev", 1, 1, "all"]] if rev else [])
                for op in ("ins", "rem", "chg", "filter", "cont", "none", "reorder", "refilter", "resort"):
                    for a, b in ((0, 0), (1, 7), (2, 11), (3, 4)):
                        for f in ("even", "big"):
                            yield {"init": init, "ops": pre + [["filter", 0, 0, f], [op, a, b, "odd"], ["begin", 0, 0, "all"], [op, b, a, "small"], ["ins", 1, b, "all"], ["end", 0, 0, "all"]],
                                   "mkey": "masters", "obs": True, "mutfilter": False}


@check("C13 C14", gen_filt, fixed_filt, weight=2.0)
def filtered_list(t, d):
    n = [0]

    def new(v):
        n[0] += 1
        return Item(n[0], v, d["obs"])
    mkey = d["mkey"] or "things"
    C = ListModel.ListModel(mkey, [new(v) for v in d["init"]])
    m = ListModel.FilteredListModel(container=C, master_items_key=d["mkey"], items_key="things")
    mir = Mirror(t, "C14", m, "things")
    st = {"f": "all", "sort": None, "rev": False, "level": 0, "depth": 0, "negative": False}

    def b(k):
        t.ok("C14", k == "things", "begin key")
        st["depth"] += 1

    def e(k):
        t.ok("C14", k == "things", "end key")
        st["depth"] -= 1
        if st["depth"] < 0:
            st["negative"] = True

    def notified(*a):
        t.ok("C14", st["depth"] > 0, "notification outside of begin and end changes")
        t.ok("C14", st["level"] == 0 or st["ending"], "notification while a change block is open")
    st["ending"] = False
    same_filter = ListModel.PredicateFilter(lambda x: FILTERS[st["box"]](x.v))
    same_key = lambda x: st["key"](x)
    ls = (m.begin_changes_event.listen(b), m.end_changes_event.listen(e), m.item_inserted_event.listen(notified), m.item_removed_event.listen(notified))

    def want():
        its = [x for x in (C.items if C is not None else []) if FILTERS[st["f"]](x.v)]
        return its

    def check_all(msg):
        mir.same(msg)
        t.ok("C14", st["depth"] == 0 and not st["negative"], f"{msg}: begin and end do not balance ({st['depth']})")
        if st["level"]:
            return
        got, w = m.items, want()
        t.ok("C13", len(got) == len(w) and all(any(a is c for c in w) for a in got) and len({id(x) for x in got}) == len(got), lambda: f"{msg}: {got!r}, expected {w!r}")
        if st["sort"] is None:
            t.ok("C13", len(got) == len(w) and all(a is c for a, c in zip(got, w)), lambda: f"{msg}: order {got!r}, expected {w!r}")
        else:
            ks = [st["sort"](x) for x in got]
            t.ok("C13", ks == sorted(ks, reverse=st["rev"]), lambda: f"{msg}: order {got!r} reverse={st['rev']}")
        t.ok("C13", getattr(m, "things") == got, "reachable by key")
    check_all("constructed")
    olds = []
    for op, i, j, f in d["ops"]:
        ms = C.items if C is not None else []
        before = m.items
        if op == "ins" and C is not None:
            C.insert_item(i % (len(ms) + 1), new(j))
        elif op == "rem" and ms:
            C.remove_item(i % len(ms))
        elif op == "chg" and ms:
            x = ms[i % len(ms)]
            if not d["obs"]:
                continue
            x.v = j
            x.item_changed_event.fire()
        elif op == "filter":
            st["f"] = f
            m.filter = ListModel.PredicateFilter(lambda x, f=f: FILTERS[f](x.v))
        elif op == "sort":
            st["sort"] = None if i % 4 == 0 else ((lambda x: x.v) if i % 2 else (lambda x: (-x.v, x.i)))
            m.sort_key = st["sort"]
        elif op == "refilter":      # the same filter object, set again after what it matches has changed
            st["f"] = st["box"] = f
            m.filter = same_filter
        elif op == "resort":        # the same key function
            st["key"] = (lambda x: x.v % 5) if i % 2 else (lambda x: -x.v)
            st["sort"] = same_key
            m.sort_key = same_key
        elif op == "rev":
            st["rev"] = bool(i % 2)
            m.sort_reverse = st["rev"]
        elif op in ("cont", "none"):
            C = None if op == "none" else ListModel.ListModel(mkey, [new((j * q + i) % 12) for q in range(i % 5)])
            m.container = C
        elif op == "begin":
            m.begin_change()
            st["level"] += 1
        elif op == "end" and st["level"]:
            st["level"] -= 1
            m.end_change()
        elif op == "mark":
            st["ending"] = st["level"] == 0
            m.mark_changed()
            st["ending"] = False
        elif op == "other" and C is not None:
            C.notify_insert_item("others", new(j), 0)
            C.notify_remove_item("others", new(j), 0)
        elif op == "reorder" and ms:
            # move an item (removed and inserted again)
            x = ms[i % len(ms)]
            C.remove_item(i % len(ms))
            C.insert_item(j % (len(C.items) + 1), x)
        if st["level"]:
            t.ok("C14", len(m.items) == len(before) and all(a is c for a, c in zip(m.items, before)), f"{op}: items changed while a change block is open")
        check_all(op)
    while st["level"]:
        st["level"] -= 1
        m.end_change()
    check_all("end")
    # chained: a filtered list as container
    m2 = ListModel.FilteredListModel(container=m, master_items_key="things", items_key="second")
    mir2 = Mirror(t, "C14", m2, "second")
    m2.filter = ListModel.PredicateFilter(lambda x: x.v % 3 == 0)
    if C is not None:
        C.append_item(new(6))
        C.append_item(new(3))
    w = [x for x in m.items if x.v % 3 == 0]
    t.ok("C13", len(m2.items) == len(w) and all(a is b for a, b in zip(m2.items, w)), lambda: f"chained: {m2.items!r} expected {w!r}")
    mir2.same("chained")


def gen_in(rng):
    return {"init": [rng.randint(0, 11) for _ in range(rng.randint(0, 5))], "sort": rng.random() < 0.4, "f": rng.choice(["all", "even", "big"]), "how": rng.choice(["block", "block", "edit", "both"]),
            "ops": [[rng.choice(["ins", "ins", "rem", "chg"]), rng.randint(0, 9), rng.randint(0, 11)] for _ in range(rng.randint(1, 6))]}


@check("C13 C14", gen_in, lambda: [{"init": [1, 2], "sort": s, "f": f, "how": h, "ops": [["ins", 0, 4], ["chg", 1, 6], ["rem", 0, 0], ["chg", 0, 7]]}
                                   for s in (False, True) for f in ("all", "even") for h in ("block", "edit", "both")], weight=0.5)
def filtered_used_by_listeners(t, d):
    """listeners that open a change block when changes begin, or edit the container once more when told of a change"""
    n = [0]

    def new(v):
        n[0] += 1
        return Item(n[0], v, True)
    C = ListModel.ListModel("masters", [new(v) for v in d["init"]])
    m = ListModel.FilteredListModel(container=C, master_items_key="masters", items_key="things")
    m.filter = ListModel.PredicateFilter(lambda x: FILTERS[d["f"]](x.v))
    if d["sort"]:
        m.sort_key = lambda x: x.v
    mir = Mirror(t, "C14", m, "things")
    st = {"depth": 0, "blocks": 0, "edits": 0}

    def begun(k):
        st["depth"] += 1
        if d["how"] != "edit" and not st["blocks"]:
            st["blocks"] = 1
            m.begin_change()

    def ended(k):
        st["depth"] -= 1

    def edit(*a):
        t.ok("C14", st["depth"] > 0, "notification outside of begin and end changes")
        if d["how"] != "block" and not st["edits"] and not st["blocks"]:
            st["edits"] = 1
            C.append_item(new(2 * n[0] % 12))
    ls = (m.begin_changes_event.listen(begun), m.end_changes_event.listen(ended), m.item_inserted_event.listen(edit), m.item_removed_event.listen(edit))
    for op, i, j in d["ops"]:
        ms = C.items
        st["edits"] = 0
        if op == "ins":
            C.insert_item(i % (len(ms) + 1), new(j))
        elif op == "rem" and ms:
            C.remove_item(i % len(ms))
        elif op == "chg" and ms:
            x = ms[i % len(ms)]
            x.v = j
            x.item_changed_event.fire()
        mir.same(op)
        if st["blocks"]:
            m.end_change()
            st["blocks"] = 0
            while st["blocks"]:
                m.end_change()
                st["blocks"] -= 1
            mir.same("end of the block")
        t.ok("C14", st["depth"] == 0, "begin and end do not balance")
        w = [x for x in C.items if FILTERS[d["f"]](x.v)]
        if d["sort"]:
            w.sort(key=lambda x: x.v)
            t.ok("C13", sorted(x.i for x in m.items) == sorted(x.i for x in w) and [x.v for x in m.items] == [x.v for x in w], lambda: f"{op}: {m.items!r}, expected {w!r}")
        else:
            t.ok("C13", len(m.items) == len(w) and all(a is b for a, b in zip(m.items, w)), lambda: f"{op}: {m.items!r}, expected {w!r}")


# ---------------------------------------------------------------- filters

class Rec:
    pass


def gen_tree(rng, depth=0):
    k = rng.choice(["and", "or", "not", "eq", "neq", "cmp", "pre", "text", "date", "plain", "pred"] if depth < 3 else ["eq", "neq", "pre", "text", "date", "plain"])
    if k in ("and", "or"):
        return [k, [gen_tree(rng, depth + 1) for _ in range(rng.randint(0, 3))]]
    if k == "not":
        return [k, gen_tree(rng, depth + 1)]
    if k in ("eq", "neq", "pred"):
        return [k, rng.randint(0, 3)]
    if k == "cmp":
        return [k, rng.choice(["lt", "ge", "ne"]), rng.randint(0, 3), rng.random() < 0.5]
    if k in ("pre", "text"):
        return [k, rng.choice(["", "a", "Ab", "AB", "b", "c", "abc"])]
    if k == "date":
        return [k, rng.choice([None, 2020, 2021]), rng.choice([None, 1, 5]), rng.choice([None, 1, 7])]
    return [k, rng.random() < 0.5]


def gen_filter(rng):
    return {"tree": gen_tree(rng), "items": [[rng.randint(0, 3), rng.choice(["abc", "ABC", "xab", "b", "", "Abba"]), [rng.choice([2020, 2021]), rng.choice([1, 5, 6]), rng.choice([1, 7, 9])]] for _ in range(6)]}


def fixed_filter():
    its = [[v, s, dt] for v in (0, 1, 2) for s in ("abc", "ABC", "xAb", "") for dt in ([2020, 1, 1], [2021, 5, 7], [2020, 5, 7], [2020, 1, 7])]
    leaves = [["eq", 1], ["neq", 1], ["pre", "a"], ["pre", ""], ["text", "AB"], ["text", "ab"], ["text", ""], ["date", 2020, None, None], ["date", None, 5, None], ["date", None, None, 7],
              ["date", 2020, 1, 1], ["date", 2020, None, 7], ["date", None, None, None], ["plain", True], ["plain", False], ["cmp", "lt", 1, False], ["cmp", "lt", 1, True], ["pred", 1]]
    for l in leaves:
        yield {"tree": l, "items": its}
        yield {"tree": ["not", l], "items": its}
    for op in ("and", "or"):
        yield {"tree": [op, []], "items": its}
        for a in leaves[:6]:
            for b in leaves[:8]:
                yield {"tree": [op, [a, b]], "items": its[:20]}
                yield {"tree": ["not", [op, [a, ["or", [b]]]]], "items": its[:20]}


@check("C17", gen_filter, fixed_filter)
def filters(t, d):
    lists = []

    def build(tr):
        k = tr[0]
        if k in ("and", "or"):
            subs = [build(x) for x in tr[1]]
            L = [s[0] for s in subs]
            lists.append(L)
            fs = [s[1] for s in subs]
            if k == "and":
                return ListModel.AndFilter(L), lambda x: all(f(x) for f in fs)
            return ListModel.OrFilter(L), lambda x: any(f(x) for f in fs)
        if k == "not":
            f, p = build(tr[1])
            return ListModel.NotFilter(f), lambda x: not p(x)
        if k == "eq":
            return ListModel.EqFilter("num", tr[1]), lambda x: x.num == tr[1]
        if k == "neq":
            return ListModel.NotEqFilter("num", tr[1]), lambda x: x.num != tr[1]
        if k == "cmp":
            o = getattr(operator, tr[1])
            if tr[3]:
                return ListModel.NotEqFilter("num", tr[2], o), lambda x: not o(x.num, tr[2])
            return ListModel.EqFilter("num", tr[2], o), lambda x: o(x.num, tr[2])
        if k == "pre":
            return ListModel.StartsWithFilter("text", tr[1]), lambda x: x.text.startswith(tr[1])
        if k == "text":
            return ListModel.TextFilter("text", tr[1]), lambda x: tr[1].lower() in x.text.lower()
        if k == "date":
            return ListModel.PartialDateFilter("date", *tr[1:]), lambda x: all(a is None or a == b for a, b in zip(tr[1:], (x.date.year, x.date.month, x.date.day)))
        if k == "pred":
            return ListModel.PredicateFilter(lambda x: x.num > tr[1]), lambda x: x.num > tr[1]
        return ListModel.Filter(tr[1]), lambda x: tr[1]
    f, p = build(d["tree"])
    c = copy.deepcopy(f)
    items = []
    for a, s, dt in d["items"]:
        r = Rec()
        r.num, r.text, r.date = a, s, datetime.date(*dt)
        items.append(r)
    for msg in ("", " after the given lists changed"):
        for x in items:
            w = p(x)
            t.ok("C17", bool(f.matches(x)) == w, lambda: f"{d['tree']} on {vars(x)}: expected {w}{msg}")
            t.ok("C17", bool(c.matches(x)) == w, lambda: f"copy of {d['tree']} on {vars(x)}: expected {w}{msg}")
            t.ok("C17", bool(copy.deepcopy(c).matches(x)) == w, lambda: f"copy of a copy of {d['tree']} on {vars(x)}: expected {w}{msg}")
        for L in lists:
            if msg == "":
                L.insert(0, ListModel.Filter(False))
                L.insert(0, ListModel.Filter(True))
    # a filter answers for what the item is now: the same item asked again after it changed
    for x, y in zip(items, items[1:] + items[:1]):
        r = Rec()
        for now in (x, y, x):
            r.num, r.text, r.date = now.num, now.text, now.date
            w = p(r)
            t.ok("C17", bool(f.matches(r)) == w and bool(c.matches(r)) == w and bool(f.matches(r)) == w, lambda: f"{d['tree']} on {vars(r)}, asked before it changed: expected {w}")
