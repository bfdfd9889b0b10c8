from rt.base import check
from nion.utils import Binding, Event


class Source:
    def __init__(self, **kw):
        self.property_changed_event = Event.Event()
        self.item_inserted_event = Event.Event()
        self.item_removed_event = Event.Event()
        self.__dict__.update(kw)
        self.sets = []

    def __setattr__(self, k, v):
        if "sets" in self.__dict__:
            self.sets.append((k, v))
        super().__setattr__(k, v)
        if self.__dict__.get("tells") and k in self.__dict__:
            self.property_changed_event.fire(k)

    def put(self, k, v):
        self.__dict__[k] = v


class Conv:
    def convert(self, x):
        return ("c", x)

    def convert_back(self, x):
        return ("b", x)


class Valid:
    def validate(self, x):
        return ("v", x)


class Val:
    def __init__(self, a, b):
        self.a, self.b = a, b


class FalsyVal(Val):
    def __bool__(self):
        return False


NAMES = ["p", "q", "prop", "value"]
VALS = [None, 0, 1, "", "x", False, [], [1, 2, 3], [0], float("nan")]


def gen(rng):
    return {"kind": rng.choice(["property", "attribute", "tuple", "tuple"]), "conv": rng.random() < 0.5, "valid": rng.random() < 0.5, "fall": rng.choice([None, "F", 0]),
            "name": rng.choice(NAMES), "index": rng.randint(0, 5), "tells": rng.random() < 0.4, "start": rng.choice([None, "w", 3]), "len": rng.randint(0, 6), "fn": rng.random() < 0.4,
            "ops": [[rng.choice(["set", "set", "announce", "other", "update", "update", "none", "target", "notarget", "direct", "shape"]), rng.choice(VALS), rng.randint(0, 6)]
                    for _ in range(rng.randint(1, 12))]}


def fixed():
    for kind in ("property", "attribute", "tuple"):
        for conv in (False, True):
            for valid in (False, True):
                for fall in (None, "F"):
                    for index, ln in ((0, 0), (2, 1), (2, 5), (0, 1), (4, 3), (1, 3)):
                        yield {"kind": kind, "conv": conv, "valid": valid, "fall": fall, "name": "p", "index": index, "tells": index == 1, "start": "w", "len": ln, "fn": index == 2,
                               "ops": [["target", 0, 0], ["announce", 0, 0], ["other", 0, 0], ["update", "x", 0], ["announce", 0, 0], ["none", 0, 0], ["announce", 0, 0], ["update", 0, 0],
                                       ["set", 1, 3], ["update", "", 1], ["shape", 0, 4], ["update", 1, 0], ["notarget", 0, 0], ["announce", 0, 0], ["target", 0, 0], ["set", 0, 0], ["direct", None, 0]]}


@check("C18", gen, fixed)
def bindings(t, d):
    kind, name = d["kind"], d["name"]
    fall = d["fall"]
    conv = Conv() if d["conv"] else None
    valid = Valid() if d["valid"] and kind == "property" else None
    C = (lambda x: ("c", x)) if conv else (lambda x: x)

    def Bk(x):
        x = ("b", x) if conv else x
        return ("v", x) if valid else x
    first = lambda v, n: {"property": v, "attribute": (FalsyVal if n % 2 else Val)(v, "b"), "tuple": tuple((v, j) if j != d["index"] else v for j in range(n))}[kind]
    src = Source(**{name: first(d["start"], d["len"]) if kind != "property" else d["start"]}, unrelated=1, tells=d.get("tells"))
    fncalls = []

    def fn(value, attr, x):
        fncalls.append((value, attr, x))
        return Val(x, "fn")
    if kind == "property":
        b = Binding.PropertyBinding(src, name, converter=conv, validator=valid, fallback=fall)
    elif kind == "attribute":
        b = Binding.PropertyAttributeBinding(src, name, "a", converter=conv, fallback=fall, update_attribute_fn=fn if d["fn"] else None)
    else:
        b = Binding.TuplePropertyBinding(src, name, d["index"], converter=conv, fallback=fall)
    t.ok("C18", b.source is src and b.converter is conv and b.validator is valid, "source, converter, validator")

    def raw():
        v = getattr(src, name)
        if v is None:
            return None
        if kind == "property":
            return v
        if kind == "attribute":
            return getattr(v, "a", None)
        return v[d["index"]] if d["index"] < len(v) else None

    def missing():
        v = getattr(src, name)
        return v is None or (kind == "attribute" and not hasattr(v, "a")) or (kind == "tuple" and d["index"] >= len(v))
    got = []
    setter = False
    want = lambda: fall if raw() is None else C(raw())

    def told(n, where):
        ok = [want()]
        if raw() is None and not missing():
            ok.append(C(None))
        t.ok("C18", len(got) == n and all(g in ok for g in got), lambda: f"target told {got!r} after {where}, expected {ok[0]!r} {n} times")
        got.clear()
    for op, v, n in d["ops"]:
        v = tuple(v) if isinstance(v, list) else v
        src.sets.clear()
        if op == "target":
            b.target_setter = got.append
            setter = True
        elif op == "notarget":
            b.target_setter = None
            setter = False
        elif op == "set":
            src.put(name, first(v, n) if kind != "property" else v)
            src.property_changed_event.fire(name)
            told(1 if setter else 0, f"setting {v!r}")
        elif op == "none":
            src.put(name, None)
        elif op == "shape":
            src.put(name, {"property": v, "attribute": Source(z=1), "tuple": tuple("e%d" % j for j in range(n))}[kind])
        elif op == "announce":
            src.property_changed_event.fire(name)
            told(1 if setter else 0, "announcement")
        elif op == "other":
            src.property_changed_event.fire("unrelated")
            told(0, "announcement of another property")
        elif op == "direct":
            b.update_target_direct(v)
            t.eq("C18", got, [v] if setter else [], "direct update")
            got.clear()
            b.update_target(v)
            t.eq("C18", got, [C(v)] if setter else [], "update of the target")
            got.clear()
        elif op == "update":
            before = getattr(src, name)
            if kind == "attribute" and before is None and not d["fn"]:
                continue
            fncalls.clear()
            b.update_source(v)
            now = getattr(src, name)
            t.eq("C18", [k for k, _ in src.sets], [name], "properties set")
            if d.get("tells"):
                told(1 if setter else 0, f"updating the source with {v!r}, which announces it")
            if kind == "property":
                t.eq("C18", now, Bk(v), "property value")
            elif kind == "attribute":
                t.eq("C18", now.a, Bk(v), "attribute value")
                if d["fn"]:
                    t.ok("C18", len(fncalls) == 1 and fncalls[0][0] is before and fncalls[0][1:] == ("a", Bk(v)), f"updating function called with {fncalls!r}")
                else:
                    t.ok("C18", now is before, "object kept")
            else:
                e = list(before) if before is not None else []
                e += [None] * (d["index"] + 1 - len(e))
                e[d["index"]] = Bk(v)
                t.eq("C18", now, tuple(e), "tuple")
                t.ok("C18", type(now) is tuple, "a tuple is set")
        t.eq("C18", got, [], f"target told by {op}")
        t.eq("C18", b.get_target_value(), want(), f"target value after {op}")
    b.close()
    src.sets.clear()
    src.property_changed_event.fire(name)
    b.update_source("late")
    t.eq("C18", (got, src.sets), ([], []), "after closing")


def gen_list(rng):
    return {"ops": [[rng.choice(["in", "out", "oin", "oout", "ins", "rem", "noins", "norem"]), rng.randint(0, 9), rng.choice(VALS)] for _ in range(rng.randint(1, 14))]}


@check("C18", gen_list, lambda: [{"ops": [["ins", 0, 0], ["rem", 0, 0], ["in", 0, "x"], ["in", 3, None], ["out", 2, None], ["oin", 1, 1], ["oout", 1, 1], ["noins", 0, 0], ["in", 1, 1]]}], weight=0.4)
def list_bindings(t, d):
    src = Source(things=["a"])
    b = Binding.ListBinding(src, "things")
    got = []
    have = {"ins": False, "rem": False}
    t.ok("C18", b.items is src.things, "items")
    for op, i, v in d["ops"]:
        got.clear()
        want = []
        if op in ("ins", "noins"):
            have["ins"] = op == "ins"
            b.inserter = (lambda x, j: got.append(("in", x, j))) if have["ins"] else None
        elif op in ("rem", "norem"):
            have["rem"] = op == "rem"
            b.remover = (lambda j: got.append(("out", j))) if have["rem"] else None
        elif op in ("in", "oin"):
            src.item_inserted_event.fire("things" if op == "in" else "others", v, i)
            want = [("in", v, i)] if have["ins"] and op == "in" else []
        else:
            src.item_removed_event.fire("things" if op == "out" else "others", v, i)
            want = [("out", i)] if have["rem"] and op == "out" else []
        t.eq("C18", got, want, f"relayed by {op}")
    b.close()
    got.clear()
    src.item_inserted_event.fire("things", 1, 0)
    src.item_removed_event.fire("things", 1, 0)
    t.eq("C18", got, [], "relayed after closing")
