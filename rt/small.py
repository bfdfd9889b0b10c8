import locale
import datetime
import math
import pathlib
import random
import uuid
from rt.base import check
from nion.utils import ReferenceCounting, Promise, Registry, Validator, Converter


# ---------------------------------------------------------------- reference counting

def gen_ref(rng):
    return {"ops": [rng.choice(["add", "add", "remove", "remove", "nocheck", "with", "with_raise"]) for _ in range(rng.randint(1, 14))], "how": rng.choice([None, "block", "refs"])}


@check("C06", gen_ref, lambda: [{"ops": list(o), "how": h} for h in (None, "block", "refs") for o in (["add", "remove", "add", "remove"], ["remove"], ["add", "nocheck", "with", "with"],
                                                           ["with", "add", "remove"], ["add", "add", "nocheck", "remove", "add", "remove"])])
def ref_histories(t, d):
    deleted = []

    class Item(ReferenceCounting.ReferenceCounted):
        def about_to_delete(self):
            deleted.append(self.ref_count)
            if len(deleted) < 4 and how == "block":
                with self.ref():
                    pass
            elif len(deleted) < 4 and how == "refs":
                self.add_ref()
                self.remove_ref()
    how = d.get("how")
    o = Item()
    n, released = 0, False
    t.eq("C06", o.ref_count, 0, "initial count")
    for op in d["ops"]:
        before = len(deleted)
        if op == "add":
            t.ok("C06", o.add_ref() is o, "add_ref returns self")
            n += 1
        elif op in ("remove", "nocheck"):
            try:
                o.remove_ref() if op == "remove" else o.remove_ref(check=False)
                ok = True
            except AssertionError:
                ok = False
            t.eq("C06", ok, n > 0, f"{op} with count {n}")
            if n > 0:
                n -= 1
                if n == 0 and op == "remove" and not released:
                    released = True
        else:
            try:
                with o.ref():
                    t.eq("C06", o.ref_count, n + 1, "inside with")
                    t.eq("C06", len(deleted), before, "released inside with")
                    if op == "with_raise":
                        raise KeyError()
                t.ok("C06", op == "with", "exception swallowed")
            except KeyError:
                pass
            if n == 0 and not released:
                released = True
        t.eq("C06", o.ref_count, n, f"count after {op}")
        t.eq("C06", deleted, [0] if released else [], f"releases after {op}")


# ---------------------------------------------------------------- promise

def gen_promise(rng):
    return {"value": rng.choice([0, 1, None, "", "x", False, [], 2.5]), "ops": [rng.choice(["value", "opt", "has", "fail"]) for _ in range(rng.randint(1, 8))]}


@check("C24", gen_promise, lambda: [{"value": v, "ops": o} for v in (None, 0, 5, "") for o in
                                    (["opt", "has", "value", "value", "opt", "has"], ["fail", "opt", "value", "fail", "has"], ["fail", "fail", "value"])])
def promise_histories(t, d):
    calls = []
    fail = [False]
    val = d["value"]

    def fn():
        calls.append(1)
        if fail[0]:
            raise ValueError("x")
        return val
    p = Promise.Promise(fn)
    t.eq("C24", calls, [], "called at construction")
    done = False
    for op in d["ops"]:
        n = len(calls)
        fail[0] = op == "fail"
        if op in ("value", "fail"):
            try:
                v = p.value
                t.ok("C24", done or op == "value", "exception did not reach the reader")
                t.ok("C24", v is val or v == val and type(v) is type(val), f"value {v!r}")
                t.eq("C24", len(calls) - n, 0 if done else 1, "calls")
                done = True
            except ValueError:
                t.ok("C24", not done and op == "fail", "raised")
                t.eq("C24", len(calls) - n, 1, "calls")
        elif op == "opt":
            v = p.opt_value
            t.ok("C24", (v is val or v == val) if done else v is None, f"opt_value {v!r}")
            t.eq("C24", len(calls), n, "opt_value calls")
        else:
            t.eq("C24", p.has_value, done and val is not None, "has_value")
            t.eq("C24", len(calls), n, "has_value calls")


# ---------------------------------------------------------------- registry

class Comp:
    def __init__(self, i, prio):
        self.i = i
        if prio is not None:
            self.priority = prio

    def __repr__(self):
        return f"c{self.i}"


def gen_reg(rng):
    n = rng.randint(1, 5)
    ops = []
    for _ in range(rng.randint(1, 12)):
        ts = rng.sample(["a", "b", "c", "d"], rng.choice([0, 1, 1, 2, 3]))
        ops.append([rng.choice(["r", "r", "r", "u", "u", "uall", "prio"]), rng.randrange(n), ts])
    return {"prios": [rng.choice([None, 50, 10, 90, 50.5, 0, 100, -1, 49, 51]) for _ in range(n)], "ops": ops}


@check("C07", gen_reg)
def registry_histories(t, d):
    cm = Registry.ComponentManager()
    comps = [Comp(i, p) for i, p in enumerate(d["prios"])]
    held = {}
    log = []
    l1 = Registry.listen_component_registered_event(lambda c, ts: log.append(("r", c, set(ts))))
    l2 = Registry.listen_component_unregistered_event(lambda c, ts: log.append(("u", c, set(ts))))
    try:
        for op, i, ts in d["ops"]:
            c = comps[i]
            del log[:]
            mine = held.setdefault(i, set())
            given = set(ts)
            try:
                if op == "prio":
                    ok, want = True, []
                    if ts:
                        c.priority = sum(map(ord, ts)) % 101       # components may change their priority
                    elif hasattr(c, "priority"):
                        del c.priority
                elif op == "r":
                    ok = not (mine & given)
                    Registry.register_component(c, given)
                    mine |= set(ts)
                    want = [("r", c, set(ts))]
                elif op == "u":
                    if not mine and not ts:
                        continue
                    ok = set(ts) <= mine
                    Registry.unregister_component(c, given)
                    mine -= set(ts)
                    want = [("u", c, set(ts))]
                else:
                    if not mine:
                        continue
                    ok = True
                    want = [("u", c, set(mine))]
                    Registry.unregister_component(c)
                    mine.clear()
                t.ok("C07", ok, f"{op} {i} {ts} was accepted")
                t.eq("C07", log, want, "events")
            except AssertionError:
                t.ok("C07", not ok, f"{op} {i} {ts} was refused")
                t.eq("C07", log, [], "events of a refused call")
            t.eq("C07", given, set(ts), "argument changed")
            given.add("zz")
            given.discard("a")
            for ty in ("a", "b", "c", "d", "zz"):
                exp = [comps[j] for j, m in held.items() if ty in m]
                got = Registry.get_components_by_type(ty)
                t.ok("C07", len(got) == len(exp) and all(e in got for e in exp), f"components of {ty}: {got} expected {exp}")
                best = Registry.get_component(ty)
                if not exp:
                    t.ok("C07", best is None, "get_component of nothing")
                else:
                    pr = lambda x: getattr(x, "priority", 50)
                    t.ok("C07", best in exp and pr(best) == max(pr(x) for x in exp), f"get_component {best} of {[(x, pr(x)) for x in exp]}")
                del log[:]
                Registry.fire_existing_component_registered_events(ty)
                t.ok("C07", sorted(map(repr, log)) == sorted(repr(("r", e, {ty})) for e in exp) and all(any(x[1] is e for x in log) for e in exp), f"announced again for {ty}: {log}")
    finally:
        l1.close()
        l2.close()
        for i, m in held.items():
            if m:
                try:
                    Registry.unregister_component(comps[i])
                except Exception:
                    pass
        for ty in ("a", "b", "c", "d"):
            for c in list(Registry.get_components_by_type(ty)):
                try:
                    Registry.unregister_component(c, {ty})
                except Exception:
                    pass

# ---------------------------------------------------------------- validators and converters

def gen_conv(rng):
    return {"k": rng.choice([rng.randint(-10, 10), rng.randint(-10 ** 9, 10 ** 9), 10 ** 20, 0]), "mn": rng.choice([None, rng.randint(-20, 20)]), "w": rng.choice([None, 0, 1, rng.randint(0, 30)]),
            "v": rng.randint(-60, 60), "n": rng.choice([1, 2, 10, 100, 1000, 255]), "vmin": rng.choice([0, -1, -10.0, 2.5, -0.5]), "width": rng.choice([1, 2, 4, 0.5, 10.0]),
            "f": rng.randint(0, 1024) / 1024, "h": rng.randint(0, 1024) / 1024, "u": rng.getrandbits(128), "ts": rng.randint(0, 4 * 10 ** 9),
            "us": rng.choice([0, 0, 1, 999999, 500000]), "path": rng.choice(["a", "/x/y", "a b/c.txt", "..", "/", "x" * 40]), "pc": rng.randint(-300, 300) / 128,
            "mult": rng.choice([1, 2, 1000, 0.5, 1e9, -2]), "pv": rng.randint(-4000, 4000) / 8, "txt": rng.choice(["", "abc", "12345678-1234-1234-1234-123456789012", "2020-01-01", "not a uuid at all", "2020-13-01T00:00:00", "2020-01-01T00:00:00Z"])}


@check("C19", gen_conv)
def conversions(t, d):
    mn, mx = d["mn"], None if d["w"] is None else (d["mn"] if d["mn"] is not None else 0) + d["w"]
    for v in {d["v"], mn if mn is not None else 0, mx if mx is not None else 0, (mn or 0) - 1, (mx or 0) + 1}:
        want = mn if mn is not None and v < mn else (mx if mx is not None and v > mx else v)
        t.eq("C19", Validator.IntegerRangeValidator(mn, mx).validate(v), want, f"validate {v} in {mn}..{mx}")
    c = Converter.IntegerToStringConverter()
    t.eq("C19", c.convert_back(c.convert(d["k"])), d["k"], "int round trip")
    t.eq("C19", Converter.IntegerToStringConverter("{:05d}").convert(42), "00042", "int format")
    c = Converter.FloatToScaledIntegerConverter(d["n"], d["vmin"], d["vmin"] + d["width"])
    lo, hi = sorted((d["vmin"] + d["f"] * d["width"], d["vmin"] + d["h"] * d["width"]))
    a, b = c.convert(lo), c.convert(hi)
    t.ok("C19", isinstance(a, int) and 0 <= a <= b <= d["n"], f"scaled {lo}->{a} {hi}->{b}")
    t.eq("C19", (c.convert(d["vmin"]), c.convert(d["vmin"] + d["width"])), (0, d["n"]), "scaled ends")
    step = d["width"] / d["n"]
    back = c.convert_back(a)
    t.ok("C19", -1e-9 <= lo - back <= step + 1e-9, f"scaled back {lo} -> {a} -> {back}")
    t.ok("C19", abs(c.convert_back(d["n"]) - (d["vmin"] + d["width"])) < 1e-9 and abs(c.convert_back(0) - d["vmin"]) < 1e-9, "back ends")
    c = Converter.FloatToPercentStringConverter()
    s = c.convert(d["pc"])
    t.eq("C19", s, f"{math.trunc(d['pc'] * 100)}%", "percent string")
    t.ok("C19", abs(c.convert_back(s) - d["pc"]) <= 0.01 + 1e-9, f"percent back {s}")
    t.ok("C19", abs(c.convert_back("25%") - 0.25) < 1e-9 and abs(c.convert_back("25") - 0.25) < 1e-9, "percent back")
    c = Converter.PhysicalValueToStringConverter("nm", d["mult"])
    s = c.convert(d["pv"])
    t.eq("C19", s, "{:g} nm".format(d["pv"] * d["mult"]), "physical string")
    pvm = float("{:g}".format(d["pv"] * d["mult"]))
    t.ok("C19", abs(c.convert_back(s) - pvm / d["mult"]) < 1e-9 * max(1, abs(pvm / d["mult"])), f"physical back {s}")
    t.eq("C19", Converter.PhysicalValueToStringConverter("m", 2.0, "{:.1f}").convert(1.5), "3.0 m", "physical format")
    t.eq("C19", Converter.PhysicalValueToStringConverter("m", 2.0, pass_none=True).convert(None), None, "physical none")
    c = Converter.CheckedToCheckStateConverter()
    t.eq("C19", [c.convert(True), c.convert(False), c.convert_back("checked"), c.convert_back("unchecked")], ["checked", "unchecked", True, False], "check state")
    u = uuid.UUID(int=d["u"], version=4)
    c = Converter.UuidToStringConverter()
    t.eq("C19", c.convert_back(c.convert(u)), u, "uuid round trip")
    t.eq("C19", c.convert_back(str(u).upper()), u, "uuid upper case")
    t.eq("C19", c.convert(None), None, "uuid none")
    t.eq("C19", c.convert_back(d["txt"]), None, "no uuid")
    v1 = str(u)[:14] + "1" + str(u)[15:]
    t.eq("C19", c.convert_back(v1), None, "version 1 uuid")
    t.eq("C19", c.convert_back(str(u) + "0"), None, "too long uuid")
    t.eq("C19", c.convert_back("x" + str(u)), None, "prefixed uuid")
    p = pathlib.Path(d["path"])
    c = Converter.PathToStringConverter()
    t.eq("C19", c.convert_back(c.convert(p)), p, "path round trip")
    t.eq("C19", (c.convert(None), c.convert_back(None)), (None, None), "path none")
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=d["ts"], microseconds=d["us"])
    c = Converter.DatetimeToStringConverter()
    t.eq("C19", c.convert_back(c.convert(dt)), dt, "datetime round trip")
    t.eq("C19", c.convert(None), None, "datetime none")
    t.eq("C19", c.convert_back(d["txt"]), None, "no datetime")
    c = Converter.FloatToStringConverter(pass_none=True)
    t.eq("C19", (c.convert(None), c.convert_back(None), c.convert_back("")), (None, None, None), "float none")
    t.eq("C19", Converter.FloatToStringConverter().convert_back(" " + Converter.FloatToStringConverter().convert(d["pv"])), float("{:g}".format(d["pv"])), "float round trip")
    t.eq("C19", Converter.FloatToStringConverter(fuzzy=False).convert_back("{:g}".format(d["pv"])), float("{:g}".format(d["pv"])), "float round trip, strict")
    # every option, with values that count as false, and with another decimal point
    for pn in (False, True):
        for fuzzy in (False, True):
            for fmt in (None, "{:.3f}"):
                c = Converter.FloatToStringConverter(fmt, pass_none=pn, fuzzy=fuzzy)
                for v in (d["pv"], 0.0, 0, -d["pv"]):
                    text = (fmt or "{:g}").format(v)
                    t.eq("C19", c.convert(v), text, f"float format {fmt} pass_none={pn}")
                    t.eq("C19", c.convert_back(text), float(text), f"float back {text} fuzzy={fuzzy}")
                    for point in (",", "."):
                        kept = locale._override_localeconv
                        locale._override_localeconv = {"decimal_point": point, "thousands_sep": "." if point == "," else ","}
                        try:
                            t.eq("C19", c.convert_back(text), float(text), f"float back {text} fuzzy={fuzzy}, decimal point {point!r}")
                            t.eq("C19", c.convert_back(text.replace(".", point)), float(text), f"float back {text} fuzzy={fuzzy} written with its decimal point {point!r}")
                        finally:
                            locale._override_localeconv = kept
                t.eq("C19", c.convert_back("-1.5e3"), -1500.0, "exponent")
                if fuzzy:
                    t.eq("C19", (c.convert_back("  2.5 nm"), c.convert_back("+.5x"), c.convert_back("nothing")), (2.5, 0.5, 0.0), "fuzzy")
                else:
                    t.raises("C19", ValueError, c.convert_back, "2.5 nm", msg="strict")
            c = Converter.PhysicalValueToStringConverter("nm", d["mult"], pass_none=pn, fuzzy=fuzzy)
            t.eq("C19", (c.convert(0.0), c.convert_back("0 nm")), ("{:g} nm".format(0.0 * d["mult"]), 0.0), "physical zero")
            t.eq("C19", c.convert(d["pv"]), "{:g} nm".format(d["pv"] * d["mult"]), "physical string")
    t.eq("C19", Converter.IntegerToStringConverter().convert(True), "1", "int of a bool")
    t.eq("C19", Converter.IntegerToStringConverter().convert(2.0), "2", "int of a float")
    t.eq("C19", Converter.UuidToStringConverter().convert_back(" " + str(u) + "\n"), u, "uuid with blanks")
    c = Converter.DatetimeToStringConverter()
    t.eq("C19", (c.convert_back("2020-01-02"), c.convert_back("2020-01-02T03:04:05.6"), c.convert_back("")), (None, None, None), "no datetime")
