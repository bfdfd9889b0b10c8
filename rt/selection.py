from rt.base import check
from nion.utils import Selection

STYLES = ["none", "single", "single_or_none", "multiple"]
OPS = ["clear", "set", "add", "remove", "toggle", "extend", "set_multiple", "add_range", "insert_index", "remove_index", "anchor"]


def gen(rng):
    style = rng.choice(STYLES + ["multiple", "multiple"])
    hi = rng.choice([3, 6, 12])
    ops = []
    for _ in range(rng.randint(1, 14)):
        op = rng.choice(OPS)
        if op == "set_multiple":
            ops.append([op, [rng.randint(0, hi) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]])
        elif op == "add_range":
            a = rng.randint(0, hi)
            ops.append([op, a, a + rng.randint(-1, 4)])
        else:
            ops.append([op, rng.randint(0, hi) if rng.random() < 0.97 else rng.choice([-1, -3, 3000])])
    return {"style": style, "ops": ops}


def fixed():
    # every pair of operations from every small state, for each style
    for style in STYLES:
        for start in ([], [0], [2], [1, 3], [0, 1, 2]):
            for op in OPS:
                for x in range(0, 5):
                    arg = [op, [x, x + 2]] if op == "set_multiple" else ([op, x, x + 2] if op == "add_range" else [op, x])
                    yield {"style": style, "ops": [["set_multiple", start], arg]}


@check("C01 C02 C03 C04", gen, fixed)
def selection_histories(t, d):
    style = d["style"]
    sel = Selection.IndexedSelection(Selection.Style[style])
    t.ok("C01", sel.indexes == set() and sel.anchor_index is None, "starts empty")
    seen = []
    l = sel.changed_event.listen(lambda: seen.append(set(sel.indexes)))
    for op in d["ops"]:
        name, a = op[0], op[1]
        old, oa = set(sel.indexes), sel.anchor_index
        old_ordered = list(sel.ordered_indexes)
        del seen[:]
        raised = None
        try:
            if name == "clear":
                sel.clear()
            elif name == "set_multiple":
                given = set(a)
                sel.set_multiple(given)
                t.eq("C01", given, set(a), "argument changed")
            elif name == "add_range":
                sel.add_range(range(a, op[2]))
            elif name == "anchor":
                if a in old:
                    sel.anchor_index = a
                    oa = a
                    t.eq("C02", sel.anchor_index, a, "assigned anchor")
                else:
                    continue
            else:
                getattr(sel, name)(a)
        except KeyError as e:
            raised = e
        new, na = set(sel.indexes), sel.anchor_index
        multi, none, single, son = (style == s for s in ("multiple", "none", "single", "single_or_none"))
        want = None
        if name == "clear":
            want = {0} if single else set()
        elif name == "set":
            want = set() if none else {a}
            if not none:
                t.eq("C02", na, a, "set makes the anchor")
        elif name == "add":
            want = old | {a} if multi else (set() if none else {a})
        elif name == "remove":
            if multi or son:
                want = old - {a}
                t.eq("C01", raised is not None, a not in old, f"{op} KeyError on {sorted(old)}")
            else:
                want = old
        elif name == "toggle":
            want = old ^ {a} if multi else ({a} if single else (set() if none else ({a} - old)))
        elif name == "extend":
            if multi:
                want = {a} if not old else old | set(range(min(a, oa), max(a, oa) + 1)) if abs(a - oa) < 10 ** 4 else None
            else:
                want = set() if none else {a}
        elif name == "set_multiple":
            if multi:
                want = set(a)
            elif none:
                want = set()
            else:
                want = set(a) if len(set(a)) == 1 else ({0} if single else set())
        elif name == "add_range":
            r = range(a, op[2])
            want = old | set(r) if multi else (set() if none else ({r[-1]} if len(r) else old))
        elif name == "insert_index":
            want = {x + 1 if x >= a else x for x in old}
        elif name == "remove_index":
            want = {x - 1 if x > a else x for x in old if x != a}
        elif name == "anchor":
            want = old
        shift = name in ("insert_index", "remove_index")
        if raised is not None and name != "remove":
            t.ok("C01", False, f"{op} raised {raised!r}")
        if want is not None:
            t.eq("C03" if shift else "C01", new, want, f"{op} from {sorted(old)} style {style}")
        t.eq("C02", na is None, not new, f"{op}: anchor None iff nothing selected (anchor {na}, {sorted(new)})")
        t.ok("C02", na is None or na in new, f"{op}: anchor {na} not in {sorted(new)}")
        if single or son or none:
            t.ok("C01", len(new) <= (0 if none else 1), f"{op}: too many selected {new}")
        if name in ("add", "extend", "add_range") and old and multi:
            t.eq("C02", na, oa, f"{op}: adding keeps the anchor")
        if shift:
            t.eq("C03", seen, [], f"{op}: announced")
            if oa is not None and not (name == "remove_index" and oa == a):
                t.eq("C03", na, (oa + 1 if a <= oa else oa) if name == "insert_index" else (oa - 1 if a < oa else oa), f"{op}: anchor follows")
        elif name == "add_range":
            if multi:
                t.eq("C04", len(seen), len(new - old), f"{op}: one announcement per added index")
        elif name != "anchor":
            t.eq("C04", seen, [new] if new != old else [], f"{op} from {sorted(old)}: announced iff changed, afterwards")
        if new:
            t.eq("C02", list(sel.ordered_indexes), [na] + sorted(new - {na}), "ordered_indexes")
        else:
            t.eq("C02", list(sel.ordered_indexes), [], "ordered_indexes of nothing")
        t.eq("C02", sel.has_selection, bool(new), "has_selection")
        t.eq("C02", sel.current_index, next(iter(new)) if len(new) == 1 else None, "current_index")
        for x in list(new)[:5] + [0, 1, 7]:
            t.eq("C02", bool(sel.contains(x)), x in new, "contains")
        other = Selection.IndexedSelection(Selection.Style.multiple)
        other.set_multiple(set(new))
        if new:
            other.anchor_index = na
        t.ok("C02", sel == other and not (sel != other), "== compares set and anchor")
        if len(new) > 1:
            other.anchor_index = next(x for x in sorted(new) if x != na)
            t.ok("C02", sel != other and not (sel == other), "!= for another anchor")
        other.add(12345)
        t.ok("C02", sel != other and not (sel == other), "!= for another set")
        sel.indexes.add(777) if False else None
        t.eq("C02", sel.indexes, new, "queries change nothing")
    if seen is not None:
        l.close()
