import asyncio
from rt.base import check
from nion.utils import Event, Model, Stream

VALS = [None, 0, 1, 1, 2, 3, "a", "", (1, 2), [1], 1.0, True, False]


def val(x):
    return tuple(x) if isinstance(x, list) else x


# ---------------------------------------------------------------- C20

def gen20(rng):
    return {"kind": rng.choice(["model", "stream", "follow"]), "cmp": rng.choice(["", "eq", "mod", "ne", "never"]), "cb": rng.random() < 0.6,
            "start": rng.choice(VALS), "vals": [rng.choice(VALS) for _ in range(rng.randint(1, 12))], "close": rng.randint(0, 12)}


def fixed20():
    for kind in ("model", "stream", "follow"):
        for cmp in ("", "eq", "mod", "never"):
            for s in (None, 0, 1):
                for v in (None, 0, 1, 2):
                    yield {"kind": kind, "cmp": cmp, "cb": True, "start": s, "vals": [v, v, None, 2, s], "close": 4}


@check("C20", gen20, fixed20)
def values(t, d):
    bad = []

    def guard(f):
        def g(a, b):
            if a is None or b is None:
                bad.append((a, b))
            return f(a, b)
        return g
    num = lambda x: x if isinstance(x, (int, float)) else len(x)
    fns = {"eq": lambda a, b: a == b, "mod": lambda a, b: num(a) % 2 == num(b) % 2, "ne": lambda a, b: a != b, "never": lambda a, b: False}
    start, vals = val(d["start"]), [val(v) for v in d["vals"]]
    f = fns.get(d["cmp"]) or fns["eq"]
    if d["kind"] == "stream":
        f = fns["eq"]
    differ = lambda a, b: (a is not b) if a is None or b is None else not f(a, b)
    if d["kind"] == "stream":
        s = Stream.ValueStream(start)
        t.eq("C20", s.value, start, "initial value")
        got = []
        l = s.value_stream.listen(lambda x: got.append((x, s.value)))
        cur = start
        for v in vals:
            s.value = v
            t.eq("C20", got, [(v, v)] if v != cur else [], f"fired for {v!r} after {cur!r}")
            got.clear()
            if v != cur:
                cur = v
            t.eq("C20", s.value, cur, "value read")
        return
    if d["kind"] == "model":
        m = Model.PropertyModel(start, guard(f)) if d["cmp"] else Model.PropertyModel(start)
        src = None
    else:
        src = Stream.ValueStream(start)
        if d["cmp"] not in ("", "eq"):
            d["cmp"] = ""
            f = fns["eq"]
        m = Model.StreamValueModel(src, cmp=guard(f)) if d["cmp"] else Model.StreamValueModel(src)
    t.eq("C20", m.value, start, "initial value")
    t.eq("C20", Model.PropertyModel().value, None, "default value")
    got, cb = [], []
    l = m.property_changed_event.listen(lambda k: got.append((k, m.value)))
    if d["cb"]:
        m.on_value_changed = lambda x: cb.append((x, m.value))
    cur = start
    for i, v in enumerate(vals):
        if i == d["close"]:
            m.close()
            if src is not None:
                src.value = v
                t.eq("C20", got, [], "notified after close")
                t.eq("C20", m.value, cur, "value after close")
                t.eq("C20", cb, [], "callback after close")
                break
            m.value = v
            t.eq("C20", cb, [], "callback after close")
            break
        if src is not None:
            src.value = v
        else:
            m.value = v
        dif = differ(v, cur)
        if dif:
            cur = v
        t.eq("C20", m.value, cur, f"value after setting {v!r}")
        t.eq("C20", got, [("value", v)] if dif else [], f"notifications for {v!r}")
        t.eq("C20", cb, [(v, v)] if dif and d["cb"] else [], f"callbacks for {v!r}")
        got.clear()
        cb.clear()
    t.eq("C20", bad, [], "None passed to the comparison")


def gen_nested(rng):
    v = lambda: rng.choice([None, 0, 1, 2, 3, "a"])
    return {"kind": rng.choice(["model", "callback", "stream", "follow", "map", "combine", "property", "source", "concat", "again", "quiet"]),
            "start": v(), "vals": [[v(), v()] for _ in range(rng.randint(1, 4))], "j": rng.randint(0, 1), "k": rng.randint(0, 1)}


def fixed_nested():
    for kind in ("model", "callback", "stream", "follow", "map", "combine", "property", "source", "concat", "again", "quiet"):
        for vals in ([[1, 2]], [[1, 0]], [[1, 1]], [[2, None], [3, 1]]):
            for j in (0, 1):
                yield {"kind": kind, "start": 0, "vals": vals, "j": j, "k": 1}


@check("C20 C21", gen_nested, fixed_nested)
def changed_by_listeners(t, d):
    """listeners that change the value (or the input) again when they are told of a change"""
    kind = d["kind"]
    pending = []

    def act(*a):
        if pending:
            change(pending.pop())
    if kind in ("model", "callback", "stream", "follow"):
        src = None
        calls, notes = [], []
        if kind == "stream":
            m = Stream.ValueStream(d["start"])
            ev = m.value_stream
        elif kind == "follow":
            src = Stream.ValueStream(d["start"])
            m = Model.StreamValueModel(src)
            ev = m.property_changed_event
        else:
            m = Model.PropertyModel(d["start"])
            ev = m.property_changed_event
        target = src or m

        def change(v):
            target.value = v
        l = ev.listen(lambda k: notes.append(m.value))
        if kind != "stream":
            m.on_value_changed = lambda x: (calls.append(x), act() if kind == "callback" else None)
        l2 = ev.listen(act) if kind != "callback" else None
        cur = d["start"]
        for v, v2 in d["vals"]:
            calls.clear(), notes.clear()
            pending[:] = [v2]
            change(v)
            d1 = v != cur
            d2 = d1 and v2 != v
            cur = v2 if d1 else cur
            want = [v] * d1 + [v2] * d2
            t.eq("C20", m.value, cur, "value after nested changes")
            t.eq("C20", notes, want, "notifications of nested changes")
            if kind != "stream":
                t.eq("C20", sorted(calls, key=repr), sorted(want, key=repr), "callbacks of nested changes")
        return
    ins = [Stream.ValueStream(d["start"]), Stream.ValueStream(5)]
    if kind == "map":
        s = Stream.MapStream(ins[0], lambda x: ("f", x))

        def change(v):
            ins[0].value = v
        want = lambda: ("f", ins[0].value)
    elif kind == "combine":
        s = Stream.CombineLatestStream(ins)
        turn = [d["j"], d["k"]]

        def change(v):
            turn.reverse()
            ins[turn[0]].value = v
        want = lambda: (ins[0].value, ins[1].value)
    elif kind in ("property", "source", "again", "quiet"):
        srcs = [Src(d["start"]), Src(7)]
        ins[0].value = srcs[0]
        s = Stream.PropertyChangedEventStream(ins[0], "x")

        def change(v):
            if kind == "property":
                ins[0].value.set("x", v)
            elif kind == "source":
                ins[0].value = srcs[1] if ins[0].value is srcs[0] else srcs[0]
            elif kind == "again":
                ins[0].value.x = v
                ins[0].value_stream.fire(ins[0].value)      # sent again, changed meanwhile
            else:
                other = srcs[1] if ins[0].value is srcs[0] else srcs[0]
                other.x = v                                  # changed before it is sent
                ins[0].value = other
        want = lambda: ins[0].value.x
    else:
        ins[0].value = Item(d["start"])
        s = Stream.ConcatStream(ins[0], lambda it: it.stream)

        def change(v):
            if len(pending) == d["j"]:
                ins[0].value = Item(v)
            else:
                ins[0].value.stream.value = v
        want = lambda: ins[0].value.stream.value
    s.add_ref()
    l = s.value_stream.listen(act)
    for v, v2 in d["vals"]:
        pending[:] = [v2]
        change(v)
        t.eq("C21", s.value, want(), f"{kind}: value after nested changes")


# ---------------------------------------------------------------- C21, C22

class Counted(Stream.ValueStream):
    """a value stream that counts how often it is released"""
    deleted = 0

    def about_to_delete(self):
        self.deleted += 1
        super().about_to_delete()


class Src:
    def __init__(self, x):
        self.property_changed_event = Event.Event()
        self.x = x
        self.y = x

    def set(self, key, v):
        setattr(self, key, v)
        self.property_changed_event.fire(key)


class Item:
    """an input value of a concatenated stream: makes a stream"""
    def __init__(self, v):
        self.stream = Counted(v)


KINDS = ["map", "combine", "combine", "tuple", "property", "property_stream", "concat", "constant"]


def gen21(rng):
    k = rng.choice(KINDS)
    n = rng.randint(0, 5) if k in ("combine", "tuple") else rng.randint(2, 3)
    number = lambda: rng.randint(0, 4) if rng.random() < 0.6 else rng.choice([True, False, 1.0, 0.0, 2.0, -0.0, -1])
    return {"kind": k, "n": n, "start": [rng.randint(0, 4) if rng.random() < 0.8 else None for _ in range(n)], "none": rng.random() < 0.2,
            "same": rng.random() < 0.1, "fn": rng.choice(["half", "id", "none", "const", "repr"]), "cmp": rng.random() < 0.3,
            "ops": [[rng.choice(["set", "set", "set", "other", "source", "nosource", "old", "resend"]), rng.randint(0, 5), number() if rng.random() < 0.85 else None]
                    for _ in range(rng.randint(1, 12))], "how": rng.choice(["close", "unref", "unref2"]), "deep": rng.random() < 0.3}


def fixed21():
    for k in ("map", "combine", "tuple", "property", "property_stream", "concat", "constant"):
        for none in (False, True):
            for how in ("close", "unref", "unref2"):
                for fn in ("half", "none", "repr"):
                    yield {"kind": k, "n": 3, "start": [1, 2, 0], "none": none, "same": False, "fn": fn, "cmp": False, "deep": False, "how": how,
                           "ops": [["set", 0, 1], ["set", 1, 3], ["set", 2, 4], ["set", 0, 1], ["other", 0, 3], ["source", 1, 0], ["old", 0, 4], ["set", 1, 3], ["set", 0, 2],
                                   ["nosource", 0, 0], ["old", 1, 3], ["set", 0, 2], ["set", 0, 1], ["set", 0, 0], ["set", 0, True], ["set", 0, 2], ["set", 0, 1.0], ["resend", 0, 0], ["source", 0, 0], ["source", 0, 0], ["set", 0, None], ["set", 0, 3]]}
    for how in ("close", "unref"):
        yield {"kind": "tuple", "n": 0, "start": [], "none": False, "same": False, "fn": "id", "cmp": False, "deep": False, "how": how, "ops": []}
        yield {"kind": "combine", "n": 1, "start": [1], "none": False, "same": True, "fn": "id", "cmp": False, "deep": False, "how": how, "ops": [["set", 0, 2]]}
        yield {"kind": "tuple", "n": 3, "start": [1, 2, 3], "none": False, "same": True, "fn": "id", "cmp": False, "deep": True, "how": how, "ops": [["set", 0, 2], ["set", 1, 1]]}


def release(s, how):
    if how == "close":
        s.close()
    elif how == "unref":
        s.remove_ref()
    else:
        s.add_ref()
        s.remove_ref()
        s.remove_ref()


@check("C21 C22", gen21, fixed21)
def derived(t, d):
    F = {"half": lambda x: None if x is None else x // 2, "id": lambda x: x, "none": lambda x: None if x in (1, 2) else x, "const": lambda x: 7, "repr": repr}[d["fn"]]
    calls = []
    k = d["kind"]
    kw = {"cmp": (lambda a, b: a == b)} if d["cmp"] else {}
    G = lambda *x: tuple(F(y) for y in x)

    def counted_fn(f):
        def g(*a):
            calls.append(a)
            return f(*a)
        return g
    if k == "constant":
        s = Stream.ConstantStream(d["start"][0])
        s.add_ref()
        t.eq("C21", s.value, d["start"][0], "constant")
        s.remove_ref()
        return
    ins = [Counted(v) for v in d["start"]]
    for i in ins:
        i.add_ref()
    got = []
    items, srcs = [], []
    uses = {}
    if k == "map":
        s = Stream.MapStream(ins[0], counted_fn(F))
        uses = {0: 1}
        want = lambda: F(ins[0].value)
    elif k in ("combine", "tuple"):
        order = list(range(d["n"]))
        if d["same"] and order:
            order += [0]
        s = Stream.CombineLatestStream([ins[j] for j in order], counted_fn(G)) if k == "combine" else Stream.CombineLatestStream([ins[j] for j in order])
        for j in order:
            uses[j] = uses.get(j, 0) + 1
        want = (lambda: G(*[ins[j].value for j in order])) if k == "combine" else (lambda: tuple(ins[j].value for j in order))
    elif k in ("property", "property_stream"):
        srcs = [Src(1), Src(2), Src(1)]
        if k == "property":
            s = Stream.PropertyChangedEventStream(srcs[0], "x", **kw)
            cur_src = srcs[0]
            uses = {}
        else:
            ins[0].value = None if d["none"] else srcs[0]
            s = Stream.PropertyChangedEventStream(ins[0], "x", **kw)
            cur_src = ins[0].value
            uses = {0: 1}
        held = cur_src.x if cur_src is not None else None
    else:
        items = [Item(1), Item(2), Item(None)]
        ins[0].value = None if d["none"] else items[0]

        def cf(it):
            calls.append(it)
            return it.stream
        s = Stream.ConcatStream(ins[0], cf)
        uses = {0: 1}
        for it in items:
            it.stream.add_ref()
        cur_item = ins[0].value
        t.eq("C21", len(calls), 0 if d["none"] else 1, "streams made at construction")
    s.add_ref()
    top, inner = s, None
    if d["deep"]:
        inner = s
        top = Stream.MapStream(s, lambda x: ("top", x))
        top.add_ref()
        s.remove_ref()      # now only held by the stream derived from it

    def refs(where):
        for j, i in enumerate(ins):
            t.eq("C22", i.ref_count, 1 + uses.get(j, 0), f"references on input {j} {where}")
        if items:
            for n, it in enumerate(items):
                t.eq("C22", it.stream.ref_count, 1 + (1 if it is cur_item else 0), f"references on made stream {n} {where}")
    refs("after construction")
    l = s.value_stream.listen(lambda x: got.append((x, s.value)))

    def expect():
        if srcs:
            return held
        if items:
            return cur_item.stream.value if cur_item is not None else None
        return want()

    def state(where):
        t.eq("C21", s.value, expect(), f"value {where}")
        if inner is not None:
            t.eq("C21", top.value, ("top", expect()), f"value of the stream derived from it {where}")
    state("after construction")
    for op, j, v in d["ops"]:
        before = expect()
        got.clear()
        nc = len(calls)
        fires = None
        if op == "resend":
            # the input sends its value once more
            if k not in ("property",) and ins and (j % len(ins) in uses):
                j = j % len(ins)
                ins[j].value_stream.fire(ins[j].value)
                if items:
                    t.eq("C21", len(calls) - nc, 0 if cur_item is None else 1, "streams made for a value sent again")
                if k in ("map", "property_stream"):
                    fires = []
                else:
                    fires = [(expect(), expect())] * uses[j]
        elif srcs:
            if op == "set" and cur_src is not None:
                cur_src.set("x", v)
                held = v
            elif op == "other":
                (cur_src or srcs[0]).set("y", v)
            elif op == "old":
                srcs[(j + 1) % 3].set("x", v) if srcs[(j + 1) % 3] is not cur_src else None
            elif op in ("source", "nosource") and k == "property_stream":
                new = srcs[j % 3] if op == "source" else None
                ins[0].value = new
                cur_src = new
                if new is not None:
                    held = new.x
            fires = [(held, held)] if held != before else []
        elif items:
            if op == "set" and cur_item is not None:
                old = cur_item.stream.value
                cur_item.stream.value = v
                fires = [(v, v)] if v != old else []
            elif op in ("old", "other"):
                it = items[j % 3]
                if it is not cur_item:
                    it.stream.value = v
                    fires = []
            elif op in ("source", "nosource"):
                new = items[j % 3] if op == "source" else None
                same = new is cur_item
                ins[0].value = new
                cur_item = new
                fires = [] if same else [(expect(), expect())]
                t.eq("C21", len(calls) - nc, 0 if same or new is None else 1, "streams made")
        elif ins:
            j = j % len(ins)
            old = ins[j].value
            ins[j].value = v
            if old == v:
                fires = []
            elif k == "map":
                fires = [(expect(), expect())] if expect() != before else []
            elif uses[j] if j in uses else 0:
                if uses[j] == 1:
                    fires = [(expect(), expect())]
                else:
                    fires = None
                    t.eq("C21", len(got), uses[j], "one update per use")
            else:
                fires = []
        if fires is not None:
            t.eq("C21", got, fires, f"values sent by {op} {j} {v!r}")
        state(f"after {op} {j} {v!r}")
        refs(f"after {op}")
    if d["deep"]:
        release(top, "unref" if d["how"] == "unref" else d["how"])
        if d["how"] == "close":
            pass
    else:
        release(s, d["how"])
    got.clear()
    nc = len(calls)
    for j, i in enumerate(ins):
        t.eq("C22", i.ref_count, 1, f"references on input {j} after release by {d['how']}")
    for n, it in enumerate(items):
        t.eq("C22", it.stream.ref_count, 1, f"references on made stream {n} after release")
    for i in ins:
        i.value = "late"
    for x in srcs:
        x.set("x", "late")
    for it in items:
        it.stream.value = "late"
    t.eq("C21", got, [], "values sent after closing")
    t.eq("C21", len(calls), nc, "function called after closing")
    for i in ins + [it.stream for it in items]:
        t.eq("C22", i.deleted, 0, "released early")
        i.remove_ref()
        t.eq("C22", i.deleted, 1, "released once")


# ---------------------------------------------------------------- C22, C23

class VLoop(asyncio.SelectorEventLoop):
    now = 0.0

    def time(self):
        return self.now

    def spin(self):
        for _ in range(6):
            self.call_soon(self.stop)
            self.run_forever()


def gen23(rng):
    return {"kind": rng.choice(["debounce", "sample"]), "period": rng.randint(1, 4), "start": rng.choice([None, 0, 1]), "how": rng.choice(["close", "unref", "unref2"]),
            "ops": [rng.choice(["tick", "tick", "tick", "set", "set", "setnow", "reply"]) + ":%d" % rng.randint(0, 3) for _ in range(rng.randint(1, 25))]}


def fixed23():
    for k in ("debounce", "sample"):
        for how in ("close", "unref", "unref2"):
            for period in (1, 2, 3):
                for ops in (["tick"] * 3, ["set", "tick", "set", "tick", "tick", "tick", "set", "tick"], ["tick", "tick", "tick", "set", "set", "tick", "tick", "tick", "tick"],
                            ["tick", "tick", "setnow", "setnow"], ["tick", "setnow"], ["tick", "tick", "tick", "tick", "setnow"], ["reply"] + ["tick"] * 8, ["tick"] * 3 + ["set", "reply"] + ["tick"] * 8):
                    yield {"kind": k, "period": period, "start": 5, "how": how, "ops": [o + ":%d" % (n % 4) for n, o in enumerate(ops)]}


@check("C22 C23", gen23, fixed23)
def timed(t, d):
    loop = VLoop()
    try:
        i = Counted(d["start"])
        i.add_ref()
        k, period = d["kind"], d["period"]
        s = (Stream.DebounceStream if k == "debounce" else Stream.SampleStream)(i, period, loop)
        s.add_ref()
        got = []
        l = s.value_stream.listen(lambda x: got.append((x, s.value)))
        reply = []

        def respond(x):
            # a value arriving in response to the one sent
            if reply:
                i.value = reply.pop()
        l2 = s.value_stream.listen(respond)
        t.eq("C22", i.ref_count, 2, "references")
        loop.spin()
        now = 0
        latest = d["start"]
        end = period
        arrived = True
        held = d["start"]
        for op in d["ops"]:
            op, v = op.split(":")
            got.clear()
            if op == "reply":
                reply[:] = [int(v) + 20]
            elif op == "tick":
                now += 1
                fed = list(reply)
                loop.now += 1.0
                loop.spin()
                if end is not None and now >= end:
                    if k == "debounce":
                        t.eq("C23", got, [(latest, latest)], "the latest value once at the end of the period")
                        end = None
                        if fed and fed[0] != latest:
                            latest, end = fed[0], now + period
                    else:
                        if arrived:
                            held = latest
                        t.eq("C23", got, [(latest, latest)] if arrived else [], "sample")
                        if arrived and fed and fed[0] != latest:
                            latest = fed[0]
                        else:
                            arrived = False
                        end = now + period
                else:
                    t.eq("C23", got, [], "nothing sent before the end of the period")
            else:
                v = int(v)
                for x in ([v] if op == "set" else [v, v + 10]):
                    if i.value != x:
                        latest = x
                        arrived = True
                        if k == "debounce" and end is None:
                            end = now + period
                    i.value = x
                t.eq("C23", got, [], "nothing sent on arrival")
                loop.spin()
            if k == "sample":
                t.eq("C23", s.value, held, "value held")
            t.eq("C22", i.ref_count, 2, "references")
        release(s, d["how"])
        t.eq("C22", i.ref_count, 1, "references after closing")
        got.clear()
        i.value = "late"
        for _ in range(2 * period + 2):
            loop.now += 1.0
            loop.spin()
        t.eq("C23", got, [], "sent after closing")
        t.eq("C23", [x for x in asyncio.all_tasks(loop) if not x.done()], [], "tasks left after closing")
        i.remove_ref()
        t.eq("C22", i.deleted, 1, "released once")
    finally:
        loop.close()


def gen_svm(rng):
    return {"vals": [rng.choice(VALS) for _ in range(rng.randint(0, 6))]}


@check("C22", gen_svm, lambda: [{"vals": []}, {"vals": [1, 2]}])
def follow_refs(t, d):
    s = Counted(0)
    s.add_ref()
    m = Model.StreamValueModel(s)
    for v in d["vals"]:
        s.value = val(v)
        t.eq("C22", s.ref_count, 2, "references on the stream of a model")
    m.close()
    t.eq("C22", s.ref_count, 1, "references after closing the model")
    s.remove_ref()
    t.eq("C22", s.deleted, 1, "released once")
