import copy
import gc
from rt.base import check
from nion.utils import StructuredModel as S

SIMPLE = ["string", "boolean", "int", "double", "float"]


def value_of(t, r):
    return {"string": ["", "a", "bb"], "boolean": [True, False], "int": [0, 1, 7]}.get(t, [0.0, 1.5, -2.0])[r.randrange(3) % (2 if t == "boolean" else 3)]


def g_schema(r, depth, top=False):
    k = r.randrange(10)
    if not top and (depth == 0 or k < 5):
        t = r.choice(SIMPLE)
        return t if r.random() < .7 else {"type": t}
    if k < 8:
        return {"type": "record", "name": "r", "fields": [g_field(r, depth, i) for i in range(r.randrange(1, 4) if r.random() < .8 else r.randrange(4, 8))]}
    return {"type": "array", "items": g_schema(r, depth - 1)}


def g_field(r, depth, i):
    s = g_schema(r, depth - 1)
    f = {"name": "f%d" % i, "type": s}
    if r.random() < .4:
        f["default"] = g_value(s, r, .8)
    return f


def kind(s):
    return s if isinstance(s, str) else s["type"]


def g_value(s, r, full):
    k = kind(s)
    if k == "record":
        return {f["name"]: g_value(f["type"], r, full) for f in s["fields"] if r.random() < full}
    if k == "array":
        return [g_value(s["items"], r, full) for _ in range(r.randrange(4))]
    return value_of(k, r)


def g_struct(r):
    s = g_schema(r, 3, True)
    d = {"schema": s, "value": g_value(s, r, r.choice([1, .6])) if r.random() < .85 else None, "ops": [[r.random() for _ in range(6)] for _ in range(r.randrange(9))], "as_default": r.random() < .2}
    d["other"] = g_value(s, r, 1)
    return d


# the oracle: nested dicts and lists with every field present (None for no value)

def tree(s, v, default=None):
    k = kind(s)
    if k == "record":
        vals = {**(default or {}), **(v or {})}
        return {f["name"]: tree(f["type"], vals.get(f["name"]), f.get("default")) for f in s["fields"]}
    if k == "array":
        v = v if v is not None else default
        return [tree(s["items"], x) if kind(s["items"]) in ("record", "array") else x for x in (v or [])]
    return v if v is not None else default


def dict_of(s, t):
    k = kind(s)
    if k == "record":
        return {f["name"]: dict_of(f["type"], t[f["name"]]) for f in s["fields"] if dict_of(f["type"], t[f["name"]]) is not None}
    if k == "array":
        return [dict_of(s["items"], x) for x in t]
    return t


def full(s, t):
    k = kind(s)
    if k == "record":
        return all(full(f["type"], t[f["name"]]) for f in s["fields"])
    if k == "array":
        return all(full(s["items"], x) for x in t)
    return t is not None


def nodes(s, t, m, path=()):
    """(schema, oracle, model, enclosing models) of every record and array; models reached through the public attributes"""
    k = kind(s)
    if k not in ("record", "array"):
        return
    yield s, t, m, path
    if k == "record":
        for f in s["fields"]:
            yield from nodes(f["type"], t[f["name"]], getattr(m, f["name"] + "_model"), path + (m,))
    else:
        for i, x in enumerate(t):
            yield from nodes(s["items"], x, m.items[i], path + (m,))


class Ears:
    def __init__(self, s, t, m):
        self.log, self.keep = [], []
        for s1, t1, m1, path in nodes(s, t, m):
            n = id(m1)
            def on(ev, what, n=n):
                self.keep.append(ev.listen(lambda *a: self.log.append((what, n) + a)))
            on(m1.model_changed_event, "model")
            if kind(s1) == "record":
                on(m1.property_changed_event, "prop")
                on(m1.item_inserted_event, "ins")
                on(m1.item_removed_event, "rem")
            else:
                on(m1.array_item_inserted_event, "ains")
                on(m1.array_item_removed_event, "arem")
                on(m1.item_inserted_event, "ins")
                on(m1.item_removed_event, "rem")
        self.models = [x[2] for x in nodes(s, t, m)]


def same(a, b):
    """equal with equal types"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def spoil(v):
    """change a dict value everywhere"""
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()
        v["spoilt"] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoilt")


def defined(s):
    """the same schema, made by the define functions"""
    k = kind(s)
    if k == "record":
        return S.define_record(s["name"], [S.define_field(f["name"], defined(f["type"]), **({"default": copy.deepcopy(f["default"])} if "default" in f else {})) for f in s["fields"]])
    if k == "array":
        return S.define_array(defined(s["items"]))
    return {"string": S.define_string, "boolean": S.define_boolean, "int": S.define_int, "double": S.define_float, "float": lambda: "float"}[k]() if isinstance(s, str) else dict(s)


def agree(t, s, o, m, what):
    t.ok("C29", same(m.to_dict_value(), dict_of(s, o)), lambda: "%s: dict value %r, expected %r" % (what, m.to_dict_value(), dict_of(s, o)))
    spoil(m.to_dict_value())
    t.ok("C29", same(m.to_dict_value(), dict_of(s, o)), lambda: "%s: dict value %r after the one given out was changed, expected %r" % (what, m.to_dict_value(), dict_of(s, o)))
    for s1, o1, m1, path in nodes(s, o, m):
        if kind(s1) == "record":
            for f in s1["fields"]:
                if kind(f["type"]) not in ("record", "array"):
                    t.ok("C29", same(getattr(m1, f["name"]), o1[f["name"]]), lambda: "%s: field %s is %r, expected %r" % (what, f["name"], getattr(m1, f["name"]), o1[f["name"]]))
                elif kind(f["type"]) == "array":
                    seq = getattr(m1, f["name"])
                    t.ok("C29", len(seq) == len(o1[f["name"]]) and all(x is y and x in seq for x, y in zip(seq, getattr(m1, f["name"] + "_model").items)) and object() not in seq, "%s: the sequence of an array field" % what)
                else:
                    t.ok("C29", getattr(m1, f["name"]) is getattr(m1, f["name"] + "_model"), "%s: a record field is its model" % what)


@check("C29", g_struct, weight=3)
def structured(t, d):
    s = d["schema"]
    snap = copy.deepcopy(d)
    m = S.build_model(defined(s), value=copy.deepcopy(d["value"]))
    agree(t, s, tree(s, copy.deepcopy(d["value"])), m, "built from the define functions")
    v = d["value"]
    if d["as_default"] or kind(s) == "record":
        m = S.build_model(s, default_value=v) if d["as_default"] else S.build_model(s, value=v)
    else:
        m = S.build_model(s, value=v)
    o = tree(s, copy.deepcopy(v))
    agree(t, s, o, m, "built")
    t.ok("C29", s == snap["schema"] and v == snap["value"], "building changes the schema or the values")
    removed = []
    for op in d["ops"]:
        ns = list(nodes(s, o, m))
        s1, o1, m1, path = ns[int(op[0] * len(ns))]
        ears = Ears(s, o, m)
        up = [id(x) for x in path] + [id(m1)]
        expect_model = True
        if kind(s1) == "record":
            leaves = [f for f in s1["fields"] if kind(f["type"]) not in ("record", "array")]
            if not leaves:
                continue
            f = leaves[int(op[1] * len(leaves))]
            n = f["name"]
            new = value_of(kind(f["type"]), __import__("random").Random(op[2])) if op[3] > .15 else None
            changed = new != o1[n]
            if op[4] < .5:
                setattr(m1, n, new)
            elif op[4] < .8:
                getattr(m1, n + "_model").value = new
            else:
                m1.from_dict_value({n: new})
            o1[n] = new if changed else o1[n]
            want = [("prop", id(m1), n)] if changed else []
            t.eq("C29", [x for x in ears.log if x[0] != "model"], want, "events of setting field %s" % n)
            expect_model = changed
        else:
            n = len(o1)
            if op[2] < .55 or not n:
                i = int(op[1] * (n + 1))
                val = g_value(s1["items"], __import__("random").Random(op[3]), .8)
                el = S.build_value(s1["items"], value=copy.deepcopy(val))
                parent = path[-1] if path else None
                fname = next((f["name"] for f in parent.schema["fields"] if getattr(parent, f["name"] + "_model") is m1), None) if parent is not None and isinstance(parent, S.RecordModel) else None
                if fname is not None and op[4] < .5:
                    getattr(parent, fname).insert(i, el)
                else:
                    m1.insert_item(i, el)
                o1.insert(i, tree(s1["items"], val) if kind(s1["items"]) in ("record", "array") else val)
                want = [("ains", id(m1), "items", el, i), ("ins", id(m1), "items", el, i)] + ([("ins", id(parent), fname, el, i)] if fname is not None else [])
            else:
                i = int(op[1] * n)
                el = m1.items[i]
                parent = path[-1] if path else None
                fname = next((f["name"] for f in parent.schema["fields"] if getattr(parent, f["name"] + "_model") is m1), None) if parent is not None and isinstance(parent, S.RecordModel) else None
                if fname is not None and op[4] < .5:
                    del getattr(parent, fname)[i]
                else:
                    m1.remove_item(i)
                removed.append((s1["items"], o1.pop(i), el))
                want = [("arem", id(m1), "items", el, i), ("rem", id(m1), "items", el, i)] + ([("rem", id(parent), fname, el, i)] if fname is not None else [])
            got = [x for x in ears.log if x[0] != "model"]
            t.ok("C29", len(got) == len(want) and all(w in got for w in want), lambda: "events of an array edit: %r, expected %r" % (got, want))
        fired = [x[1] for x in ears.log if x[0] == "model"]
        t.ok("C29", sorted(fired) == sorted(up if expect_model else []), lambda: "model_changed fired by %d models (%d times), %d expected" % (len(set(fired)), len(fired), len(up)))
        agree(t, s, o, m, "after an edit")
        if removed:
            s2, o2, m2 = removed[-1]
            if kind(s2) == "record":
                leaves = [f for f in s2["fields"] if kind(f["type"]) not in ("record", "array")]
                if leaves:
                    del ears.log[:]
                    f = leaves[0]
                    setattr(m2, f["name"], value_of(kind(f["type"]), __import__("random").Random(op[5])))
                    t.ok("C29", not any(x[1] in [id(y) for y in ears.models if y is not m2] for x in ears.log), "a removed element is still listened to")
    if full(s, o):
        c = copy.deepcopy(m)
        t.ok("C29", c is not m, "the copy is the model")
        agree(t, s, o, c, "deep copy")
        e = S.build_model(s, value=copy.deepcopy(d["other"]))
        e.copy_from(m)
        agree(t, s, o, e, "copy_from")
        for x in (c, e):
            ears = Ears(s, o, m)
            ids = {id(y) for y in ears.models}
            t.ok("C29", not any(id(y) in ids for _, _, y, _ in nodes(s, o, x)), "a copy shares a model")
            x.from_dict_value(copy.deepcopy(d["other"]))
            t.ok("C29", not ears.log, "changing a copy is heard by the original")
        agree(t, s, o, m, "after changing copies")
        # from_dict
        ears = Ears(s, o, m)
        m.from_dict_value(copy.deepcopy(d["other"]))
        new = tree(s, d["other"])
        t.ok("C29", same(m.to_dict_value(), dict_of(s, new)), lambda: "from_dict_value gives %r, expected %r" % (m.to_dict_value(), dict_of(s, new))) if full(s, new) else None
    m.close()
