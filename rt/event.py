import contextlib
import gc
import io
from rt.base import check
from nion.utils import Event, Observable

OPS = ["listen", "listen", "listen", "close", "del", "fire", "fire", "any", "all", "with", "owner", "delowner"]


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 16)):
        op = rng.choice(OPS)
        # behaviour of a new listener: return value, what it does when called
        ops.append([op, rng.randint(0, 6), rng.choice([0, 1, None, "x", "", True, False]),
                    rng.choice(["", "", "", "raise", "close_self", "close:%d" % rng.randint(0, 6), "close:%d" % rng.randint(0, 6), "fire"]) if rng.random() < 0.6 else ""])
    ops += [["fire", 0, None, ""], ["any", 0, None, ""], ["all", 0, None, ""]]
    return {"ops": ops}


def fixed():
    L = lambda v, w="": ["listen", 0, v, w]
    tail = [["fire", 0, None, ""], ["any", 0, None, ""], ["all", 0, None, ""]]
    for v in (0, 1):
        for w in (0, 1):
            for extra in ([], [["close", 0, None, ""]], [["close", 1, None, ""]], [["del", 0, None, ""]], [["del", 1, None, ""]], [["with", 0, None, ""]]):
                yield {"ops": [L(v), L(w), L(v)] + extra + tail}
    for beh in ("raise", "close_self", "close:0", "close:1", "close:2", "fire"):
        for k in range(3):
            yield {"ops": [L(1, beh if i == k else "") for i in range(3)] + tail + tail}
            yield {"ops": [L(0, beh if i == k else "") for i in range(3)] + tail + tail}
    yield {"ops": tail}
    yield {"ops": [["owner", 0, 1, ""], L(1)] + tail + [["delowner", 0, None, ""]] + tail}
    yield {"ops": [["owner", 0, 0, ""], ["owner", 0, 1, ""], L(1)] + tail + [["delowner", 1, None, ""]] + tail}


class Owner:
    pass


@check("C05", gen, fixed)
def event_histories(t, d):
    ev = Event.Event()
    model = []      # dicts of listeners in order: id, open, value, behaviour, token
    calls = []
    n = [0]
    depth = [0]

    def find(i):
        return model[i % len(model)] if model else None

    def make(value, beh):
        m = {"id": n[0], "open": True, "alive": True, "value": value, "beh": beh, "token": None, "owner": None}
        n[0] += 1

        def fn(*a, **k):
            calls.append((m["id"], a, k))
            if m["beh"] == "raise":
                raise ValueError("callback")
            if m["beh"] == "close_self" and m["token"] is not None:
                m["token"].close()
                m["open"] = False
            elif m["beh"].startswith("close:"):
                o = find(int(m["beh"][6:]))
                if o is not None and o["token"] is not None:
                    o["token"].close()
                    o["open"] = False
            elif m["beh"] == "fire" and depth[0] == 0:
                depth[0] += 1
                try:
                    other.fire()
                finally:
                    depth[0] -= 1
            return m["value"]
        m["fn"] = fn
        return m
    other = Event.Event()
    for op, i, value, beh in d["ops"]:
        if op == "listen" or op == "owner":
            m = make(value, beh)
            if op == "owner":
                m["owner"] = Owner()
                ev.listen(m["fn"], owner=m["owner"])
                m["beh"] = ""
            else:
                m["token"] = ev.listen(m["fn"])
                t.ok("C05", m["token"].is_open, "new listener is open")
            model.append(m)
        elif op == "close":
            m = find(i)
            if m and m["token"] is not None:
                m["token"].close()
                m["open"] = False
                t.ok("C05", not m["token"].is_open, "closed listener is open")
        elif op == "with":
            m = find(i)
            if m and m["token"] is not None:
                with m["token"]:
                    pass
                m["open"] = False
        elif op == "del":
            m = find(i)
            if m and m["token"] is not None:
                m["token"] = None
                model.remove(m)
                m = None
                gc.collect()
        elif op == "delowner":
            m = find(i)
            if m and m["owner"] is not None:
                m["owner"] = None
                m["open"] = False
                gc.collect()
        else:
            del calls[:]
            # expected calls, by the statement
            snapshot = [dict(m, token=m["token"] is not None or None, owner=None, fn=None) for m in model]
            m = o = None
            opens = {m["id"]: m["open"] for m in model}
            expect, result, failed = [], {"fire": None, "any": False, "all": True}[op], False
            for m in snapshot:
                if not opens[m["id"]]:
                    continue
                expect.append(m["id"])
                b = m["beh"]
                if b == "raise":
                    failed = True
                    break
                if b == "close_self":
                    opens[m["id"]] = False
                elif b.startswith("close:"):
                    o = snapshot[int(b[6:]) % len(snapshot)]
                    if o["token"] is not None:
                        opens[o["id"]] = False
                if op == "any" and m["value"]:
                    result = True
                    break
                if op == "all" and not m["value"]:
                    result = False
                    break
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    f = {"fire": ev.fire, "any": ev.fire_any, "all": ev.fire_all}[op]
                    r = f(1, "a", k=i)
                except Exception as e:
                    t.ok("C05", False, f"{op} raised {e!r}")
                    return
            got = [c[0] for c in calls]
            if failed:
                t.ok("C05", got[:len(expect)] == expect and len(set(got)) == len(got), lambda: f"{op} called {got}, expected {expect} first")
                if op != "fire":
                    t.ok("C05", r is None, f"{op} after a failure gave {r!r}")
            else:
                t.eq("C05", got, expect, f"{op} called")
                if op != "fire":
                    t.ok("C05", r is result, f"{op} gave {r!r}, expected {result!r}")
            t.ok("C05", all(c[1] == (1, "a") and c[2] == {"k": i} for c in calls), "arguments")


def gen_changes(rng):
    n = rng.randint(1, 6)
    acts = ["", "", "drop", "drop", "add", "again", "close", "swap"]
    return {"acts": [[rng.choice(acts), rng.randrange(n)] for _ in range(n)], "how": rng.choice(["fire", "any", "all"]), "times": rng.randint(1, 3)}


def fixed_changes():
    for n in (2, 3, 4):
        for k in range(n):
            for a in ("drop", "add", "again", "close", "swap"):
                for j in range(n):
                    for how in ("fire", "any", "all"):
                        yield {"acts": [[a if i == k else "", j] for i in range(n)], "how": how, "times": 2}


@check("C05", gen_changes, fixed_changes)
def listeners_changing_during_a_firing(t, d):
    """listeners that attach, release, close and fire while the event is fired: the ones not touched are called exactly once, in order"""
    ev = Event.Event()
    calls, tokens, loose = [], {}, set()
    extra = []
    nested = []
    depth = [0]
    how = d["how"]
    value = how == "all"        # a value that lets the firing go on

    def send():
        return {"fire": ev.fire, "any": ev.fire_any, "all": ev.fire_all}[how](7, k="x")

    def make(i, act, j):
        def fn(*a, **k):
            calls.append((depth[0], i))
            t.ok("C05", a == (7,) and k == {"k": "x"}, "arguments")
            if act == "drop":
                loose.add(j)
                tokens.pop(j, None)
            elif act == "close":
                if j in tokens:
                    tokens[j].close()
                    loose.add(j)
            elif act == "add":
                extra.append(ev.listen(lambda *a, **k: value))
            elif act == "swap":
                loose.add(j)
                tokens.pop(j, None)
                extra.append(ev.listen(lambda *a, **k: value))
            elif act == "again" and depth[0] == 0:
                depth[0] = 1
                k = len(calls)
                send()
                nested.append([i for dp, i in calls[k:] if dp == 1])
                depth[0] = 0
            return value
        return fn
    for i, (act, j) in enumerate(d["acts"]):
        tokens[i] = ev.listen(make(i, act, j))
    for _ in range(d["times"]):
        del calls[:]
        del nested[:]
        gone = set(loose)
        with contextlib.redirect_stderr(io.StringIO()) as err:
            r = send()
        got = [i for dp, i in calls if dp == 0]
        n = len(d["acts"])
        t.eq("C05", [i for i in got if i not in loose], [i for i in range(n) if i not in loose], f"{how} called (closed or released during it: {sorted(loose)})")
        for inner in nested:
            t.eq("C05", [i for i in inner if i not in loose], [i for i in range(n) if i not in loose], f"{how} inside a callback called (closed or released meanwhile: {sorted(loose)})")
            t.ok("C05", len(set(inner)) == len(inner), lambda: f"called twice: {inner}")
        t.ok("C05", len(set(got)) == len(got), lambda: f"called twice: {got}")
        t.ok("C05", not gone & {i for _, i in calls}, lambda: f"called after it was closed or released: {calls}")
        if how != "fire":
            t.ok("C05", r is value, f"{how} gave {r!r}")


# ---------------------------------------------------------------- Observable (C33)

NOTIFY = {"notify_property_changed": ("property_changed_event", 1), "notify_set_item": ("item_set_event", 2), "notify_clear_item": ("item_cleared_event", 1),
          "notify_insert_item": ("item_inserted_event", 3), "notify_remove_item": ("item_removed_event", 3), "notify_add_item": ("item_added_event", 2),
          "notify_discard_item": ("item_discarded_event", 2), "notify_item_content_changed": ("item_content_changed_event", 3)}
ARGS = ["key", "", None, 0, 1, -1, False, (), (1, 2), [], [3], float("nan"), "item"]


class Kind(Observable.Observable):
    def __init__(self):
        super().__init__()


def gen_obs(rng):
    return {"ops": [[rng.randint(0, 2), rng.choice(sorted(NOTIFY)), rng.randint(0, 12), rng.randint(0, 12), rng.randint(0, 12)] for _ in range(rng.randint(1, 8))]}


def fixed_obs():
    for m in sorted(NOTIFY):
        for x in range(13):
            yield {"ops": [[x % 3, m, 0, 12, 1], [x % 3, m, 0, 12, 1], [0, m, x, (x + 3) % 13, (x + 7) % 13], [1, m, x, x, x]]}


@check("C33", gen_obs, fixed_obs)
def notifications(t, d):
    objs = [Observable.Observable(), Kind(), Observable.Observable()]
    log, keep = [], []
    for i, o in enumerate(objs):
        for e, _ in NOTIFY.values():
            t.ok("C33", hasattr(o, e), "an observable object without " + e)
            if hasattr(o, e):
                keep.append(getattr(o, e).listen(lambda *a, i=i, e=e, **k: log.append((i, e, a, k))))
    for i, m, *xs in d["ops"]:
        e, n = NOTIFY[m]
        args = tuple(ARGS[x] for x in xs[:n])
        log.clear()
        getattr(objs[i], m)(*args)
        t.ok("C33", len(log) == 1 and log[0][:2] == (i, e) and len(log[0][2]) == n and all(p is q for p, q in zip(log[0][2], args)) and not log[0][3], f"{m}{args} was announced as {log}")
    # a listener that notifies again
    for i, o in enumerate(objs[:2]):
        for m, (e, n) in NOTIFY.items():
            del keep[:]
            del log[:]
            def again(*a, o=o, m=m, n=n):
                log.append(a)
                if len(log) < 3:
                    getattr(o, m)(*ARGS[:n])
            if hasattr(o, e):
                keep.append(getattr(o, e).listen(again))
                getattr(o, m)(*ARGS[:n])
                t.ok("C33", log == [tuple(ARGS[:n])] * 3, f"{m} called again by its listener was announced as {log}")
