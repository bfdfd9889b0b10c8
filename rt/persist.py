import copy
import gc
import io
import uuid
import warnings
from rt.base import check
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from nion.utils import Persistence as P


class Conv:
    def convert(self, v):
        return None if v is None else {"n": v}

    def convert_back(self, v):
        return None if v is None else v["n"]


class Made:
    def __init__(self, v=None):
        self.v = v

    def write_dict(self):
        return {"made": copy.deepcopy(self.v)}

    def read_dict(self, d):
        self.v = copy.deepcopy(d["made"])

    def __eq__(self, o):
        return isinstance(o, Made) and o.v == self.v

    def __bool__(self):
        return bool(self.v)     # a value may count as false


LOG = []


def factory(lookup):
    n = Node()
    n.looked = (lookup("type"), lookup("uuid"), lookup("nothing", 7))
    return n


class Node(P.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_type("node")
        rec = lambda what: lambda *a: LOG.append((what, self) + a)
        self.define_property("a", changed=rec("changed"))
        self.define_property("b", converter=Conv(), key="b_key", changed=rec("changed"))
        self.define_property("c", copy_on_read=True, changed=rec("changed"))
        self.define_property("d", validate=lambda v: [v] if v is not None and not isinstance(v, list) else v, key="d_key")
        self.define_property("m", make=Made, key="m_key", changed=rec("changed"))
        self.define_property("cc", copy_on_read=True, key="cc_key", converter=Conv())
        self.define_property("ro", 3, read_only=True)
        self.define_property("h", hidden=True, key="h_key")
        self.define_item("it", factory, rec("item_changed"))
        self.define_item("hid", factory, hidden=True)
        self.define_relationship("r", factory, rec("insert"), rec("remove"))
        self.define_relationship("s", factory, rec("insert"), rec("remove"), key="s_key")


PROPS = {"a": "a", "b": "b_key", "c": "c", "d": "d_key", "m": "m_key", "cc": "cc_key", "h": "h_key"}
RELS = {"r": "r", "s": "s_key"}
VALUES = [None, 0, 1, "", "x", False, [], [1, [2]], {"k": [1]}, 2.5]


class Storage:
    """keeps a dict per object, as a storage handler does"""

    def __init__(self, ctx, root):
        self.ctx, self.calls = ctx, []
        self.dicts = {}
        self.root = root
        self.take(root)

    def take(self, o, d=None):
        d = o.write_to_dict() if d is None else d
        self.dicts[o.uuid] = d
        for n in ("it", "hid"):
            c = o.get_item(n)
            if c is not None:
                self.take(c, d[n])
        for n, k in RELS.items():
            for i, c in enumerate(getattr(o, n)):
                self.take(c, d[k][i])
        return d

    @property
    def properties(self):
        return self.dicts[self.root.uuid]

    def set_property(self, o, name, value):
        self.calls.append(("set_property", o, name))
        self.dicts[o.uuid][name] = copy.deepcopy(value)

    def clear_property(self, o, name):
        self.calls.append(("clear_property", o, name))
        self.dicts[o.uuid].pop(name, None)

    def insert_item(self, parent, name, before_index, item):
        self.calls.append(("insert_item", parent, name, before_index, item))
        self.dicts[parent.uuid].setdefault(RELS[name], list()).insert(before_index, self.take(item))
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        self.calls.append(("remove_item", parent, name, index, item))
        del self.dicts[parent.uuid][RELS[name]][index]

    def set_item(self, parent, name, item):
        self.calls.append(("set_item", parent, name, item))
        if item is None:
            self.dicts[parent.uuid].pop(name, None)
        else:
            self.dicts[parent.uuid][name] = self.take(item)
            item.persistent_object_context = parent.persistent_object_context


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 14)):
        op = rng.choice(["set", "set", "set", "insert", "insert", "append", "remove", "item", "ctx", "ro", "extend"])
        ops.append([op, rng.randint(0, 9), rng.choice(sorted(PROPS)), rng.randint(0, len(VALUES) - 1), rng.choice(["r", "s"]), rng.choice(["it", "hid"]), rng.randint(0, 5)])
    return {"ops": ops, "ctx": rng.randint(0, 1), "depth": rng.randint(0, 3)}


def fixed():
    for c in (0, 1):
        for p in sorted(PROPS):
            for v in range(len(VALUES)):
                yield {"ops": [["set", 0, p, 7, "r", "it", 0], ["set", 0, p, v, "r", "it", 0]], "ctx": c, "depth": 0}
        for rel in ("r", "s"):
            ins = [["insert", 0, "a", 1, rel, "it", i] for i in (0, 1, 0, 2)]
            for k in range(4):
                yield {"ops": ins + [["remove", 0, "a", 0, rel, "it", k]] + [["set", 1, "a", 7, "r", "it", 0]], "ctx": c, "depth": 1}


def snap(o, own=True):
    """all that an object holds"""
    d = {p: copy.deepcopy(o._get_persistent_property_value(p)) for p in PROPS}
    d["type"] = o.type
    if own:
        d["uuid"] = o.uuid
    d["it"], d["hid"] = (snap(c, own) if c is not None else None for c in (o.get_item("it"), o.get_item("hid")))
    for r in RELS:
        d[r] = [snap(c, own) for c in getattr(o, r)]
    return d


def nodes(o):
    yield o
    for c in (o.get_item("it"), o.get_item("hid")):
        if c is not None:
            yield from nodes(c)
    for r in RELS:
        for c in getattr(o, r):
            yield from nodes(c)


@check("C26 C27 C28", gen, fixed)
def tree_histories(t, d):
    ctx = P.PersistentObjectContext()
    reg = []
    keep = ctx.registration_event.listen(lambda a, b: reg.append((a, b)))
    root = Node()
    st = None
    parent_of = {root.uuid: None}
    if d["ctx"]:
        st = Storage(ctx, root)
        ctx._set_persistent_storage_for_object(root, st)
        root.persistent_object_context = ctx
        t.ok("C28", reg == [(root, None)], "registration event")
    x = root
    for i in range(d["depth"]):
        n = Node()
        if i % 2:
            x.set_item("hid", n)
        else:
            x.append_item("s", n)
        x = n
    removed = []
    for op, at, prop, v, rel, item, pos in d["ops"]:
        all_ = list(nodes(root))
        o = all_[at % len(all_)]
        value = copy.deepcopy(VALUES[v])
        before = snap(root)
        counts = [(n, n.modified_count) for n in all_]
        line, p = [], o
        while p is not None:
            line.append(p)
            p = p.persistent_object_parent.parent if p.persistent_object_parent else None
        t.ok("C27", line[-1] is root, "the parents lead to the root")
        LOG.clear()
        reg.clear()
        if st:
            st.calls.clear()
        inside = o.persistent_object_context is not None
        t.ok("C28", inside == bool(d["ctx"]), "context")
        modifications = 1
        if op == "set":
            if prop == "m":
                value = None if value is None else Made(value)
            given = value
            if prop == "h":
                o._set_persistent_property_value("h", given)
            else:
                setattr(o, prop, given)
            want = ([given] if prop == "d" and given is not None and not isinstance(given, list) else given)
            now = o._get_persistent_property_value(prop)
            t.ok("C26", now == want and type(now) is type(want), "property %s: %r, expected %r" % (prop, now, want))
            if isinstance(given, (list, dict, Made)) and prop != "d":
                t.ok("C26", now is not given, "property %s shares the assigned value" % prop)
            if prop in ("c", "cc") and isinstance(now, (list, dict)):
                t.ok("C26", o._get_persistent_property_value(prop) is not now and LOG[0][3] is not now if prop == "c" else True, "copy on read")
            if prop in ("a", "b", "c", "m"):
                t.ok("C26", len(LOG) == 1 and LOG[0][:3] == ("changed", o, prop) and LOG[0][3] == want, "changed callback %r" % (LOG,))
            else:
                t.ok("C26", not LOG, "callbacks")
            if inside:
                none = want is None
                t.ok("C26", st.calls == [("clear_property" if none else "set_property", o, PROPS[prop])], "storage requests %r" % (st.calls,))
            elif st:
                t.ok("C26", not st.calls, "storage requests")
        elif op == "ro":
            modifications = 0
            t.raises("C26", AttributeError, setattr, o, "ro", value)
            t.ok("C26", o.ro == 3, "read only")
        elif op in ("insert", "append", "extend"):
            n = Node()
            if removed and pos == 3:
                n = removed.pop()
            l = list(getattr(o, rel))
            if op == "insert":
                i = pos % (len(l) + 1)
                o.insert_item(rel, i, n)
            elif op == "append":
                i = len(l)
                o.append_item(rel, n)
            else:
                i = len(l)
                o.extend_items(rel, [n])
            l.insert(i, n)
            t.ok("C27", getattr(o, rel) == l, "relationship after insert")
            t.ok("C27", o.item_count(rel) == len(l) and o.item_index(rel, n) == i, "count and index")
            t.ok("C27", LOG == [("insert", o, rel, i, n)], "insert callback %r" % (LOG,))
            t.ok("C27", n.persistent_object_parent.parent is o and n.persistent_object_parent.relationship_name == rel, "parent of the item")
            if inside:
                t.ok("C27", st.calls == [("insert_item", o, rel, i, n)], "storage requests")
        elif op == "remove":
            l = list(getattr(o, rel))
            if not l:
                continue
            i = pos % len(l)
            n = l.pop(i)
            below = list(nodes(n))
            o.remove_item(rel, n)
            t.ok("C27", getattr(o, rel) == l, "relationship after remove")
            t.ok("C27", LOG == [("remove", o, rel, i, n)], "remove callback")
            t.ok("C27", n.persistent_object_parent is None and n.persistent_object_context is None, "parent and context of the removed item")
            if inside:
                t.ok("C27", st.calls == [("remove_item", o, rel, i, n)], "storage requests")
                for m in below:
                    t.ok("C28", ctx.get_registered_object(m.uuid) is None and m.persistent_object_context is None, "removed objects are unregistered")
                    t.eq("C28", [(a, b) for a, b in reg if b is m], [(None, m)], "unregistered once")
            removed.append(n)
        elif op == "item":
            n = Node() if pos else None
            old = o.get_item(item)
            o.set_item(item, n)
            t.ok("C27", o.get_item(item) is n, "item")
            t.ok("C27", LOG == ([("item_changed", o, "it", old, n)] if item == "it" else []), "item callback")
            if n is not None:
                t.ok("C27", n.persistent_object_parent.parent is o and n.persistent_object_parent.item_name == item, "parent of the item")
            if inside:
                t.ok("C27", st.calls == [("set_item", o, item, n)], "storage requests")
        elif op == "ctx":
            if not d["ctx"]:
                continue
            modifications = 0
            reg.clear()
            root.persistent_object_context = None
            t.ok("C28", sorted(id(b) for a, b in reg) == sorted(map(id, all_)) and all(a is None for a, b in reg), "each object is unregistered once")
            t.ok("C28", all(ctx.get_registered_object(n.uuid) is None and n.persistent_object_context is None for n in all_), "none is known")
            reg.clear()
            root.persistent_object_context = ctx
            t.ok("C28", sorted(id(a) for a, b in reg) == sorted(map(id, all_)) and all(b is None for a, b in reg), "each object is registered once")
        for n, c in counts:
            t.eq("C26" if op in ("set", "ro") else "C27", n.modified_count, c + (modifications if any(n is m for m in line) else 0), "modification count")
        # nothing else changed
        now = snap(root)
        path(t, before, now, o.uuid, op, prop, rel, item)
        for n in nodes(root):
            if d["ctx"]:
                t.ok("C28", ctx.get_registered_object(n.uuid) is n and n.persistent_object_context is ctx, "every object of the tree is registered")
                t.ok("C28", ctx._get_persistent_storage_for_object(n) is st, "storage of an object")
        if st:
            t.eq("C26" if op == "set" else "C27", st.properties, root.write_to_dict(), "what the storage holds")
            got = ctx.get_properties(root)
            t.ok("C28", got == st.properties and got is not st.properties, "get_properties")
    # reading and copying
    def spoil(w):       # the caller does what it likes with the dict it got
        for n in ("it", "hid"):
            if isinstance(w.get(n), dict):
                spoil(w[n])
        for k in RELS.values():
            for c in w.get(k) or ():
                spoil(c)
            if k in w:
                w[k].clear()
        w.clear()
    w = root.write_to_dict()
    w0 = copy.deepcopy(w)
    spoil(w)
    w = root.write_to_dict()
    t.eq("C27", w, w0, "written again, after the caller used up what was written before")
    y = Node()
    y.write_to_dict()
    y.begin_reading()
    y.read_from_dict(w)
    y.finish_reading()
    t.eq("C27", snap(y), snap(root), "an object read from the dict")
    t.ok("C27", w == w0 and not any(n._is_reading for n in nodes(y)), "reading")
    t.eq("C27", {k: v for k, v in y.write_to_dict().items() if k != "modified"}, {k: v for k, v in w0.items() if k != "modified"}, "what was read, written again")
    for n in nodes(y):
        if n is not y:
            t.ok("C27", n.looked == ("node", str(n.uuid), 7), "factory lookup")
            t.ok("C27", n.persistent_object_parent.parent is not None, "parent of what was read")
    z = copy.deepcopy(root)
    t.eq("C27", snap(z, False), snap(root, False), "a deep copy")
    us = {n.uuid for n in nodes(root)}
    t.ok("C27", not any(n.uuid in us for n in nodes(z)), "a copy has its own uuids")
    for p in ("a", "b", "m", "d"):
        v1, v2 = getattr(root, p), getattr(z, p)
        t.ok("C27", v1 is not v2 or not isinstance(v1, (list, dict, Made)), "a copy shares no values")


def path(t, a, b, u, op, prop, rel, item):
    """two snapshots differ only where the operation was made"""
    if a["uuid"] == u:
        skip = {"set": {prop}, "insert": {rel}, "append": {rel}, "extend": {rel}, "remove": {rel}, "item": {item}}.get(op, set())
        for k in a:
            if k not in skip:
                t.eq("C26" if op == "set" else "C27", b[k], a[k], "what was not changed: " + k)
        return
    for k in list(PROPS) + ["uuid", "type"]:
        t.eq("C26" if op == "set" else "C27", b[k], a[k], "what was not changed: " + k)
    for k in ("it", "hid"):
        if a[k] is None or b[k] is None:
            t.ok("C27", a[k] is None and b[k] is None, "items elsewhere")
        else:
            path(t, a[k], b[k], u, op, prop, rel, item)
    for k in RELS:
        t.ok("C27", len(a[k]) == len(b[k]), "relationships elsewhere")
        for x, y in zip(a[k], b[k]):
            path(t, x, y, u, op, prop, rel, item)


class Equal(Node):
    """children that compare by what they hold"""

    def __eq__(self, o):
        return isinstance(o, Equal) and self.a == o.a

    __hash__ = None


def gen_eq(rng):
    return {"vals": [rng.randint(0, 2) for _ in range(rng.randint(1, 7))], "again": [rng.randint(0, 6) for _ in range(rng.randint(0, 2))], "rm": [rng.randint(0, 6) for _ in range(rng.randint(1, 4))]}


@check("C27", gen_eq, lambda: [{"vals": [1, 0, 1, 0], "again": [], "rm": [2, 2]}, {"vals": [0, 0, 1], "again": [0], "rm": [1, 0, 0]}], weight=0.3)
def removing_one_of_several(t, d):
    """children that are equal, or there twice: what is announced is what is removed"""
    x = Node()
    for v in d["vals"]:
        c = Equal()
        c.a = v
        x.append_item("r", c)
    for k in d["again"]:
        x.append_item("r", x.r[k % len(x.r)])
    for k in d["rm"]:
        old = x.r
        if not old:
            break
        gone = old[k % len(old)]
        LOG.clear()
        x.remove_item("r", gone)
        now = x.r
        t.ok("C27", len(now) == len(old) - 1 and len(LOG) == 1 and LOG[0][:3] == ("remove", x, "r"), "one is removed and announced")
        if t.fails:
            return
        j = LOG[0][3]
        t.ok("C27", old[j] == gone and [id(c) for c in now] == [id(c) for c in old[:j] + old[j + 1:]], lambda: f"removing the item at {k % len(old)} announced {j}, and left {[old.index(c) for c in now]!r}")


def gen_ctx(rng):
    return {"ops": [[rng.choice(["register", "register", "unregister", "subscribe", "subscribe", "drop"]), rng.randint(0, 2), rng.choice(["both", "reg", "unreg", "none", "nested"])] for _ in range(rng.randint(1, 14))]}


class Thing:
    def __init__(self, u):
        self.uuid = u
        self.persistent_object_parent = None


@check("C28", gen_ctx)
def context_histories(t, d):
    ctx = P.PersistentObjectContext()
    us = [uuid.uuid4() for _ in range(3)]
    things, known, subs, log, events = {}, {}, {}, [], []
    keep = ctx.registration_event.listen(lambda a, b: events.append((a, b)))
    n = [0]
    expect = []
    for op, i, kind in d["ops"]:
        u = us[i]
        log.clear()
        events.clear()
        expect.clear()
        if op == "register":
            x = Thing(u)
            known[u] = x
            mine = list(subs.get(u, []))
            ctx.register(x)
            for s in mine:
                if s["reg"]:
                    expect.append(("r", s["id"], x))
            for s in subs.get(u, []):
                if s not in mine and s["reg"]:
                    expect.append(("r", s["id"], x))
            t.eq("C28", events, [(x, None)], "registration event")
            x = None
        elif op == "unregister":
            if u not in known:
                continue
            x = known.pop(u)
            for s in subs.pop(u, []):
                if s["unreg"]:
                    expect.append(("u", s["id"], x))
            ctx.unregister(x)
            t.eq("C28", events, [(None, x)], "registration event")
            x = None
        elif op == "subscribe":
            def sub(kind):
                s = {"id": n[0], "reg": kind in ("both", "reg", "nested"), "unreg": kind in ("both", "unreg"), "kind": kind, "done": False}
                n[0] += 1

                def reg(o, s=s):
                    log.append(("r", s["id"], o))
                    if s["kind"] == "nested" and not s["done"]:
                        s["done"] = True
                        sub("both")
                subs.setdefault(u, []).append(s)
                ctx.subscribe(u, reg if s["reg"] else None, (lambda o: log.append(("u", s["id"], o))) if s["unreg"] else None)
                return s
            first = n[0]
            sub(kind)
            if u in known:
                for s in subs[u]:
                    if s["id"] >= first and s["reg"]:
                        expect.append(("r", s["id"], known[u]))
            t.eq("C28", events, [], "registration event")
        key = lambda e: (e[0], e[1])
        t.ok("C28", sorted(map(key, log)) == sorted(map(key, expect)) and all(any(a[:2] == b[:2] and a[2] is b[2] for b in expect) for a in log), "subscribers told %r, expected %r" % ([e[:2] for e in log], [e[:2] for e in expect]))
        for v in us:
            t.ok("C28", ctx.get_registered_object(v) is known.get(v), "registered object")
    # a released object is not found
    log.clear(); events.clear(); expect.clear()
    x = None
    for u in list(known):
        del known[u]
        if ctx.get_registered_object(u) is not None:
            gc.collect()
        t.ok("C28", ctx.get_registered_object(u) is None, "an object that is gone is not found")


def gen_store(rng):
    return {"parents": [rng.randint(-1, i - 1) for i in range(6)], "ops": [[rng.choice(["give", "take", "ask"]), rng.randint(0, 5)] for _ in range(12)]}


@check("C28", gen_store)
def storages(t, d):
    ctx = P.PersistentObjectContext()
    nodes_ = []
    for i, p in enumerate(d["parents"]):
        o = P.PersistentObject()
        if p >= 0:
            o.persistent_object_parent = P.PersistentObjectParent(nodes_[p], item_name="x")
        nodes_.append(o)
    own = {}

    class St:
        def __init__(self):
            self.log = []

        def __getattr__(self, name):
            if name in ("get_properties", "properties") or name.startswith("__"):
                raise AttributeError(name)
            return lambda *a: self.log.append((name,) + a) or ("answer", name)
    for op, i in d["ops"]:
        if op == "give":
            own[i] = St()
            ctx._set_persistent_storage_for_object(nodes_[i], own[i])
        elif op == "take" and i in own:
            del own[i]
            ctx._set_persistent_storage_for_object(nodes_[i], None)
        for k in range(6):
            j = k
            while j >= 0 and j not in own:
                j = d["parents"][j]
            want = own.get(j)
            t.ok("C28", ctx._get_persistent_storage_for_object(nodes_[k]) is want, "storage of the nearest ancestor")
            if want is not None and op == "ask":
                x = nodes_[k]
                want.get_properties = lambda o, want=want: want.log.append(o) or held
                held, want.log = {"n": [1]}, []
                r = ctx.get_properties(x)
                t.ok("C28", want.log == [x] and r == held and r is not held and r["n"] is not held["n"], "the properties the storage has for the object, copied")
                for call, name, args in (("property_changed", "set_property", ("n", 1)), ("clear_property", "clear_property", ("n",)), ("item_inserted", "insert_item", ("n", 2, x)),
                                         ("item_removed", "remove_item", ("n", 2, x)), ("item_set", "set_item", ("n", x)), ("read_external_data", "read_external_data", ("n",)),
                                         ("write_external_data", "write_external_data", ("n", 3)), ("enter_write_delay", "enter_write_delay", ()), ("exit_write_delay", "exit_write_delay", ()),
                                         ("is_write_delayed", "is_write_delayed", ()), ("rewrite_item", "rewrite_item", ()), ("get_storage_property", "get_storage_property", ("n",))):
                    want.log.clear()
                    r = getattr(ctx, call)(x, *args)
                    t.ok("C28", want.log == [(name, x) + args], "request %s" % call)
                    if call in ("read_external_data", "is_write_delayed", "get_storage_property"):
                        t.eq("C28", r, ("answer", name), "answer of %s" % call)


def gen_prop(rng):
    return {"kind": rng.choice(["plain", "conv", "made", "custom", "valid"]), "copy": rng.randint(0, 1), "key": rng.randint(0, 1), "v": rng.randint(0, len(VALUES) - 1),
            "prev": rng.randint(0, len(VALUES) - 1), "stale": rng.randint(0, 1), "ro": rng.randint(0, 1)}


@check("C26", gen_prop)
def property_roundtrips(t, d):
    log = []

    def reader(p, properties):
        return properties.get("mine")

    def writer(p, properties, value):
        if value is not None:
            properties["mine"] = value

    def make():
        o = P.PersistentObject()
        kw = {"conv": {"converter": Conv()}, "made": {"make": Made}, "custom": {"reader": reader, "writer": writer}, "valid": {"validate": lambda v: copy.deepcopy(v)}}.get(d["kind"], {})
        o.define_property("before", 1, key="before_key")
        o.define_property("p", None, key="p_key" if d["key"] else None, copy_on_read=bool(d["copy"]), changed=lambda *a: log.append(a), **kw)
        o.define_property("after", 2)
        return o

    def val(i):
        v = copy.deepcopy(VALUES[i])
        return (None if v is None else Made(v)) if d["kind"] == "made" else v
    key = "mine" if d["kind"] == "custom" else "p_key" if d["key"] else "p"
    x = make()
    v = val(d["v"])
    x.p = v
    store = {"bystander": [1]}
    if d["stale"] and d["kind"] != "custom":
        store[key] = "stale"
    x._get_persistent_property("p").write_to_dict(store)
    has = v is not None
    want = {"conv": lambda: {"n": v}, "made": lambda: {"made": v.v}}.get(d["kind"], lambda: v)() if has else None
    t.eq("C26", store, {"bystander": [1], key: want} if has else {"bystander": [1]}, "the dict written")
    one, two = x.p, x.p
    if d["copy"] and isinstance(one, (list, dict)) and one:
        inner = lambda q: q[1] if isinstance(q, list) else q["k"]
        t.ok("C26", one is not two and inner(one) is not inner(two), "a copy-on-read property hands out deep copies")
    if has and d["kind"] in ("plain", "valid") and isinstance(v, (list, dict)):
        t.ok("C26", store[key] is not log[-1][1], "the dict shares the stored value")
    y = make()
    y.p = val(d["prev"])
    log.clear()
    snap_ = copy.deepcopy(store)
    y._get_persistent_property("p").read_from_dict(store)
    t.eq("C26", store, snap_, "reading changes the dict")
    exp = v if has else val(d["prev"])
    t.ok("C26", y.p == exp and type(y.p) is type(exp), "value read %r, expected %r" % (y.p, exp))
    t.eq("C26", len(log), 1 if has else 0, "changed callbacks while reading")
    t.ok("C26", (y.before, y.after) == (1, 2), "other properties")
    z = P.PersistentObject()
    z.define_property("q", VALUES[d["v"]], read_only=True, hidden=False, copy_on_read=bool(d["copy"]))
    t.raises("C26", AttributeError, setattr, z, "q", 5)
    t.ok("C26", z.q == VALUES[d["v"]] and z.modified_count == 0, "a read-only property")
