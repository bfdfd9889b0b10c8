import fractions
import math
from rt.base import check
from nion.utils import Geometry as Ge


def rint(rng):
    return rng.choice([0, 1, -1, 2, 3, rng.randint(-20, 20), rng.randint(-1000, 1000), rng.randint(-2, 2) * 10 ** 6 + rng.randint(-9, 9)])


def rfl(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-10, 10), float(rng.randint(-20, 20)), rng.uniform(-1, 1) * 10 ** rng.randint(-3, 4)])


def gen_int(rng):
    return {"v": [rint(rng) for _ in range(12)], "touch": rng.randint(0, 5)}


def gen_fl(rng):
    return {"v": [rfl(rng) for _ in range(14)], "touch": rng.randint(0, 5), "angle": rng.choice([0.0, math.pi / 2, math.pi, rng.uniform(-7, 7)])}


def fixed_int():
    out = []
    for a in (0, 1, 2, 3, -1, -2, -3, 5):
        for b in (0, 1, 2, 3, -1, 4):
            out.append({"v": [a, b, b, a, b, a, 1 - a, b + 1, abs(a) + 1, abs(b), a, b], "touch": (a + b) % 6})
    return out


def fixed_fl():
    return [dict(d, v=[float(x) + 0.25 * (i % 3) for i, x in enumerate(d["v"] + d["v"][:2])], angle=0.3) for d in fixed_int()]


def generic(t, d, fl):
    tag = "C09" if fl else "C08"
    P, S, R = (Ge.FloatPoint, Ge.FloatSize, Ge.FloatRect) if fl else (Ge.IntPoint, Ge.IntSize, Ge.IntRect)

    def close(a, b):
        return a == b or (fl and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), scale))
    scale = max([1.0] + [abs(x) for x in d["v"]]) if fl else 1

    def eqs(got, want, msg):
        got, want = tuple(got), tuple(want)
        t.ok(tag, len(got) == len(want) and all(close(g, w) for g, w in zip(got, want)), lambda: f"{msg}: got {got!r}, expected {want!r}")

    def pt(p, y, x, msg):
        t.ok(tag, isinstance(p, P), msg)
        eqs((p.y, p.x), (y, x), msg)
        eqs((p[0], p[1]), (y, x), msg + " index")
        eqs(tuple(p), (y, x), msg + " iteration")

    def sz(s, h, w, msg):
        t.ok(tag, isinstance(s, S), msg)
        eqs((s.height, s.width), (h, w), msg)
        eqs((s[0], s[1]), (h, w), msg + " index")
        eqs(tuple(s), (h, w), msg + " iteration")

    def rc(r, y, x, h, w, msg):
        t.ok(tag, isinstance(r, R), msg)
        eqs((r.origin.y, r.origin.x, r.size.height, r.size.width), (y, x, h, w), msg)
        eqs((r.top, r.left, r.height, r.width, r.bottom, r.right), (y, x, h, w, y + h, x + w), msg + " edges")
        eqs(r[0] + r[1], (y, x, h, w), msg + " index")

    y, x, h, w, v, u, k, j, h2, w2, dx, dy = d["v"][:12]
    pt(P(y, x), y, x, "point")
    pt(P(x=x, y=y), y, x, "point keywords")
    pt(P.make((y, x)), y, x, "make point")
    pt(P.make(P(y, x)), y, x, "point of point")
    sz(S(h, w), h, w, "size")
    sz(S(width=w, height=h), h, w, "size keywords")
    sz(S(w=w, h=h), h, w, "size short keywords")
    sz(S(height=h, w=w), h, w, "size mixed keywords")
    sz(S.make((h, w)), h, w, "make size")
    pt(P(), 0, 0, "default point")
    sz(S(), 0, 0, "default size")
    p, q, s, z = P(y, x), P(v, u), S(h, w), S(h2, w2)
    pt(p + q, y + v, x + u, "p+q")
    pt(p - q, y - v, x - u, "p-q")
    pt(-p, -y, -x, "-p")
    pt(p + s, y + h, x + w, "p+s")
    pt(p - s, y - h, x - w, "p-s")
    sz(s + z, h + h2, w + w2, "s+s")
    sz(s - z, h - h2, w - w2, "s-s")
    sz(-s, -h, -w, "-s")
    sz(s * 3, h * 3, w * 3, "s*3")
    sz(2 * s, h * 2, w * 2, "2*s")
    eqs((abs(p), abs(s)), (math.hypot(y, x), math.hypot(h, w)), "abs")
    eqs((s.aspect_ratio,), (w / h if h else 1.0,), "aspect")
    for a, b, same in ((p, q, (y, x) == (v, u)), (p, P(y, x), True), (p, (y, u), x == u), (p, (v, x), y == v)):
        t.ok(tag, (a == b) == same and (a != b) == (not same), lambda: f"point equality {a} {b}")
    for a, b, same in ((s, z, (h, w) == (h2, w2)), (s, S(h, w), True), (s, (h, w2), w == w2), (s, (h2, w), h == h2)):
        t.ok(tag, (a == b) == same and (a != b) == (not same), lambda: f"size equality {a} {b}")
    r = R((y, x), (h, w))
    rc(r, y, x, h, w, "rect")
    rc(R(p, s), y, x, h, w, "rect of objects")
    rc(R.make(((y, x), (h, w))), y, x, h, w, "make rect")
    rc(R.make(r), y, x, h, w, "rect of rect")
    rc(R.from_tlhw(y, x, h, w), y, x, h, w, "tlhw")
    rc(R.from_tlbr(y, x, v, u), y, x, v - y, u - x, "tlbr")
    for i in range(5):
        c = [y, x, h, w]
        if i < 4:
            c[i] += 1
        o = R((c[0], c[1]), (c[2], c[3]))
        t.ok(tag, (r == o) == (i == 4) and (r != o) == (i != 4), lambda: f"rect equality {r} {o}")
        o = ((c[0], c[1]), (c[2], c[3]))
        t.ok(tag, (r == o) == (i == 4) and (r != o) == (i != 4), lambda: f"rect equality {r} {o}")
    t.ok(tag, not p == None and p != None and not s == None and s != None and not r == None and r != None, "comparison with None")
    pt(r.top_left, y, x, "tl"); pt(r.top_right, y, x + w, "tr"); pt(r.bottom_left, y + h, x, "bl"); pt(r.bottom_right, y + h, x + w, "br")
    eqs((r.aspect_ratio,), (w / h if h else 1.0,), "rect aspect")
    if fl:
        pt(r.center, y + h * 0.5, x + w * 0.5, "center")
    else:
        pt(r.center, (2 * y + h) // 2, (2 * x + w) // 2, "center")
        t.eq(tag, r.slice, (slice(y, y + h), slice(x, x + w)), "slice")
        f = r.to_float_rect()
        t.ok(tag, isinstance(f, Ge.FloatRect) and (f.top, f.left, f.height, f.width) == (y, x, h, w), "to_float_rect")
        f, g = p.to_float_point(), s.to_float_size()
        t.ok(tag, (f.y, f.x, g.height, g.width) == (y, x, h, w) and isinstance(f, Ge.FloatPoint) and isinstance(g, Ge.FloatSize), "to_float")
    rc(r.translated(q), y + v, x + u, h, w, "translated")
    rc(r.translated((v, u)), y + v, x + u, h, w, "translated by tuple")
    a, b = abs(h), abs(w)
    ra = R((y, x), (a, b))
    rc(ra + q, y + v, x + u, a, b, "rect+point")
    rc(ra - q, y - v, x - u, a, b, "rect-point")
    rc(q + ra, y + v, x + u, a, b, "point+rect")
    c = R.from_center_and_size((y, x), (a, b))
    eqs((c.center.y, c.center.x, c.height, c.width), (y, x, a, b), "from center")
    i = r.inset(dx, dy)
    eqs((i.top, i.left, i.bottom, i.right), (y + dy, x + dx, y + h - dy, x + w - dx), "inset")
    i = r.inset(dx)
    eqs((i.top, i.left, i.bottom, i.right), (y + dx, x + dx, y + h - dx, x + w - dx), "inset dx")
    i = r.inset(dx, 0)
    eqs((i.top, i.left, i.bottom, i.right), (y, x + dx, y + h, x + w - dx), "inset dx, 0")
    # second rect, sometimes touching the first in an edge
    ty, tx = v, u
    m = d["touch"]
    if m == 1:
        tx = x + w
    elif m == 2:
        ty = y + h
    elif m == 3:
        tx = x - w2
    elif m == 4:
        ty = y - h2
    e = R((ty, tx), (h2, w2))
    for one, two in ((r, e), (e, r)):
        n = one.union(two)
        rc(n, min(y, ty), min(x, tx), max(y + h, ty + h2) - min(y, ty), max(x + w, tx + w2) - min(x, tx), "union")
        n = one.intersect(two)
        rc(n, max(y, ty), max(x, tx), min(y + h, ty + h2) - max(y, ty), min(x + w, tx + w2) - max(x, tx), "intersect")
        bey = one.left > two.right or two.left > one.right or one.top > two.bottom or two.top > one.bottom
        t.eq(tag, one.intersects_rect(two), not bey, f"intersects {one} {two}")
    for py in {y, y + h, v, y - 1, y + h - 1, y + h / 2 if fl else y + h // 2}:
        for px in {x, x + w, u, x - 1, x + w - 1, x + w / 2 if fl else x + w // 2}:
            want = r.left <= px < r.right and r.top <= py < r.bottom
            t.eq(tag, r.contains_point(P(py, px)), want, f"contains {r} {py} {px}")
            t.eq(tag, r.contains_point((py, px)), want, f"contains {r} {py} {px}")
    rc(r, y, x, h, w, "rect unchanged")
    pt(p, y, x, "point unchanged")
    return P, S, R, eqs, pt, sz, rc


@check("C08", gen_int, fixed_int)
def int_geometry(t, d):
    generic(t, d, False)


@check("C09", gen_fl, fixed_fl)
def float_geometry(t, d):
    P, S, R, eqs, pt, sz, rc = generic(t, d, True)
    y, x, h, w, v, u, k, j, h2, w2, dx, dy, e1, e2 = d["v"]
    p, s = P(y, x), S(h, w)
    if abs(k) > 0.01:
        pt(p * k, y * k, x * k, "p*k")
        pt(k * p, y * k, x * k, "k*p")
        pt(p / k, y / k, x / k, "p/k")
        sz(s / k, h / k, w / k, "s/k")
        sz(s * k, h * k, w * k, "s*k")
    rc(R.unit_rect(), 0, 0, 1, 1, "unit")
    nz = lambda z: z if abs(z) > 0.05 else z + 1.0
    f, g = R((dy, dx), (nz(h), nz(w))), R((v, u), (nz(h2), nz(w2)))
    for a in ("top_left", "top_right", "bottom_left", "bottom_right", "center"):
        m = Ge.map_point(getattr(f, a), f, g)
        b = getattr(g, a)
        pt(m, b.y, b.x, "map " + a)
    tol = lambda a, b, z: abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b), z)
    big = max(abs(z) for z in d["v"]) + 1
    big = big * big * 40
    m = Ge.map_point(Ge.map_point(p, f, g), g, f)
    t.ok("C09", tol(m.y, y, big) and tol(m.x, x, big), f"map point back {m} {p}")
    m = Ge.map_size(f.size, f, g)
    sz(m, g.height, g.width, "map size")
    q = S(k, j)
    m = Ge.map_size(Ge.map_size(q, f, g), g, f)
    t.ok("C09", tol(m.height, k, 1) and tol(m.width, j, 1), f"map size back {m} {q}")
    m = Ge.map_rect(f, f, g)
    rc(m, g.top, g.left, g.height, g.width, "map rect")
    r = R((y, x), (k, j))
    m = Ge.map_rect(r, f, g)
    tl, br = Ge.map_point(r.top_left, f, g), Ge.map_point(r.bottom_right, f, g)
    t.ok("C09", all(tol(a, b, big) for a, b in ((m.top, tl.y), (m.left, tl.x), (m.bottom, br.y), (m.right, br.x))), f"map rect {m} {tl} {br}")
    m = Ge.map_rect(m, g, f)
    t.ok("C09", all(tol(a, b, big) for a, b in ((m.top, y), (m.left, x), (m.height, k), (m.width, j))), f"map rect back {m} {r}")
    hh, ww, asp = abs(nz(h)), abs(nz(w)), abs(nz(e1))
    r = R((y, x), (hh, ww))
    for fit, want in ((Ge.fit_to_aspect_ratio(r, asp), asp), (Ge.fit_to_aspect_ratio(((y, x), (hh, ww)), asp), asp),
                      (Ge.fit_to_size(r, (abs(nz(e2)), asp)), asp / abs(nz(e2))), (Ge.fit_to_aspect_ratio(r, ww / hh), ww / hh)):
        z = max(hh, ww, abs(y), abs(x))
        t.ok("C09", tol(fit.width, fit.height * want, z), f"ratio {fit} {want}")
        t.ok("C09", tol(fit.center.y, r.center.y, z) and tol(fit.center.x, r.center.x, z), f"centered {fit} {r}")
        t.ok("C09", fit.width <= ww + 1e-7 * z and fit.height <= hh + 1e-7 * z, f"contained {fit} {r}")
        t.ok("C09", tol(fit.width, ww, z) or tol(fit.height, hh, z), f"touches {fit} {r}")
    o = P(v, u)
    m = p.rotate(d["angle"], o)
    eqs((math.hypot(m.y - v, m.x - u),), (math.hypot(y - v, x - u),), "rotate keeps distance")
    m = p.rotate(d["angle"])
    eqs((math.hypot(m.y, m.x),), (math.hypot(y, x),), "rotate keeps length")
    m = s.rotate(d["angle"])
    eqs((math.hypot(m.height, m.width),), (math.hypot(h, w),), "rotate size keeps length")
    pt(p.rotate(0.0, o), y, x, "rotate 0")
    pt(p.rotate(0), y, x, "rotate 0")
    sz(s.rotate(0), h, w, "rotate size 0")
    eqs((Ge.distance((y, x), (v, u)), Ge.distance(p, o)), (math.hypot(y - v, x - u),) * 2, "distance")
    eqs(Ge.midpoint((y, x), (v, u)), ((y + v) / 2, (x + u) / 2), "midpoint")
    m = Ge.inset_rect(((y, x), (h, w)), k)
    eqs(tuple(m[0]) + tuple(m[1]), (y + k, x + k, h - 2 * k, w - 2 * k), "inset_rect")


# ---------------------------------------------------------------- ticks

def rval(rng):
    return rng.choice([0.0, 1.0, 10.0, 100.0, rng.uniform(-10, 10), float(rng.randint(-100, 100)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12),
                       math.nextafter(10.0 ** rng.randint(-8, 8), 0), math.nextafter(10.0 ** rng.randint(-8, 8), math.inf), rng.choice([1, 2, 5, 1.5, 3, 7]) * 10.0 ** rng.randint(-6, 6)])


def gen_tick(rng):
    lo = rval(rng)
    hi = rng.choice([rval(rng), lo + abs(rval(rng)), lo, lo * 1.001])
    return {"lo": lo, "hi": hi, "ticks": rng.choice([2, 3, 4, 5, 5, 6, 7, 10, 11, 13, 50])}


def fixed_tick():
    for lo, hi in ((0, 1), (0, 10), (1, 10), (-1, 1), (-3.5, 7.2), (7.2, -3.5), (0, 0.0999999), (99.5, 100.5), (5, 5), (-20, -10), (0.1, 0.3), (1e-9, 3e-9), (0, 1e12),
                   (-0.5, 0.5), (0, 99.99999999999999), (2, 1), (0, 0)):
        for n in (2, 3, 4, 5, 6, 10, 20):
            yield {"lo": float(lo), "hi": float(hi), "ticks": n}
    for z in ("inf", "-inf"):
        yield {"lo": z, "hi": 1.0, "ticks": 5}
        yield {"lo": -2.0, "hi": z, "ticks": 5}
    yield {"lo": -1.7e308, "hi": 1.7e308, "ticks": 5}


def mantissa(v):
    """m with v = m * 10**e exactly-enough, m in 1, 2, 5; or None"""
    e = math.floor(math.log10(v))
    for ee in (e - 1, e, e + 1):
        for m in (1, 2, 5, 10):
            if abs(v - m * 10.0 ** ee) <= 1e-9 * v:
                return m
    return None


@check("C10", gen_tick, fixed_tick)
def ticks(t, d):
    lo, hi, n = float(d["lo"]), float(d["hi"]), d["ticks"]
    tk = Ge.LinearTicker(lo, hi, ticks=n)
    vals = list(tk.values)
    t.eq("C10", len(tk.labels), len(vals), "labels")
    t.ok("C10", all(isinstance(l, str) and l for l in tk.labels), "labels are text")
    if not math.isfinite(lo) or not math.isfinite(hi) or not math.isfinite(hi - lo):
        t.ok("C10", vals == [0], f"not finite: {vals}")
        return
    if lo == hi:
        t.eq("C10", vals, [lo], "equal bounds")
        t.eq("C10", (tk.minimum, tk.maximum), (lo, lo), "equal bounds")
        return
    a, b = min(lo, hi), max(lo, hi)
    if b - a < 1e-11 * max(abs(a), abs(b)) or b - a < 1e-250:
        return   # rounding dominates
    dv = tk.division
    mag = max(abs(a), abs(b))
    eps = 1e-9 * dv + 1e-13 * mag
    t.ok("C10", dv > 0 and mantissa(dv) is not None, f"division {dv}")
    t.ok("C10", abs(vals[0] - tk.minimum) <= eps, f"starts at minimum {vals[0]} {tk.minimum}")
    t.ok("C10", abs(vals[-1] - tk.maximum) <= eps, f"ends at maximum {vals[-1]} {tk.maximum}")
    t.ok("C10", all(abs((q - p) - dv) <= eps for p, q in zip(vals, vals[1:])), lambda: f"spacing {vals}")
    t.ok("C10", tk.minimum <= a + eps and a - tk.minimum < dv + eps, f"minimum {tk.minimum} for {a}")
    t.ok("C10", tk.maximum >= b - eps and tk.maximum - b < dv + eps, f"maximum {tk.maximum} for {b}")
    r = Ge.make_pretty_range(lo, hi, ticks=n)
    t.ok("C10", (r[0], r[1], list(r[2]), r[3]) == (tk.minimum, tk.maximum, vals, dv), "make_pretty_range agrees with the ticker")
    for rounding in (False, True):
        for v in (lo, hi, hi - lo, lo / n):
            if abs(v) < 1e-290:
                continue
            m = Ge.make_pretty2(v, rounding)
            t.ok("C10", m != 0 and (m > 0) == (v > 0), f"pretty {v} {m}")
            if m != 0:
                t.ok("C10", mantissa(abs(m)) is not None and abs(m) <= 2.5000001 * abs(v) and abs(v) <= 2.5000001 * abs(m), f"pretty {v} {m}")
    t.eq("C10", (Ge.make_pretty2(0.0, True), Ge.make_pretty2(0, False)), (0.0, 0.0), "pretty zero")


def gen_log(rng):
    k = rng.random()
    lo = rng.choice([rng.uniform(-5, 5), rng.uniform(-100, 100), float(rng.randint(-20, 20)), 0.0, -1e-3])
    w = 0.0 if k < 0.08 else (10.0 ** rng.uniform(-6, 0) if k < 0.45 else (rng.uniform(0, 12) if k < 0.8 else (float(rng.randint(1, 12)) if k < 0.9 else rng.uniform(0, 100))))
    return {"lo": lo, "hi": min(lo + w, 100.0), "ticks": rng.choice([1, 2, 3, 4, 5, 5, 5, 6, 8, 10, 15, 25]), "base": rng.choice([10, 10, 10, 10, 2, 3, 5, 16])}


def fixed_log():
    for lo in (0.0, 0.3, -2.0, -0.7, 5.0, 17.0):
        for w in (0.0, 0.001, 0.05, 0.1, 0.25, 0.3, 0.5, 0.99, 1.0, 1.5, 2.0, 3.0, 4.9, 5.0, 6.3, 8.0, 10.0, 33.0):
            for n in (1, 2, 3, 5, 8, 12):
                for base in (10, 2):
                    yield {"lo": lo, "hi": lo + w, "ticks": n, "base": base}
    for lo, hi in (("-inf", "inf"), ("nan", 1), (0, "inf"), ("-inf", 2), (1, "nan")):
        yield {"lo": lo, "hi": hi, "ticks": 5, "base": 10}


@check("C31", gen_log, fixed_log)
def log_ticks(t, d):
    lo, hi, n, base = float(d["lo"]), float(d["hi"]), d["ticks"], d["base"]
    tk = Ge.LogTicker(lo, hi, ticks=n, base=base) if base != 10 or n % 2 else Ge.LogTicker(lo, hi, ticks=n)
    vals, minor = list(tk.values), list(tk.minor_tick_indices)
    t.ok("C31", len(tk.labels) == len(vals) and all(isinstance(l, str) and l for l in tk.labels), "one label per tick")
    if not math.isfinite(lo) or not math.isfinite(hi):
        t.ok("C31", vals == [1] and minor == [], f"not finite: {vals} {minor}")
        return
    eps = 1e-9 * max(1.0, abs(lo), abs(hi))
    t.eq("C31", (tk.ticks, tk.base), (n, base), "reports what it was asked for")
    t.ok("C31", minor == sorted(set(minor)) and all(0 <= i < len(vals) for i in minor), lambda: f"minor positions {minor}")
    t.ok("C31", all(q > p for p, q in zip(vals, vals[1:])), lambda: f"increasing {vals}")
    flagged = set(minor)
    at = [i for i in range(len(vals)) if i not in flagged]
    major = [vals[i] for i in at]
    if len(major) < 2:
        t.ok("C31", False, f"major ticks {major}")
        return
    step = (major[-1] - major[0]) / (len(major) - 1)
    t.ok("C31", all(abs(q - p - step) <= eps for p, q in zip(major, major[1:])), lambda: f"evenly spaced {major}")
    dv = tk.division
    t.ok("C31", dv >= 1 and dv == int(dv), f"division {dv}")
    f = step / dv
    e = math.log(f, base)
    t.ok("C31", abs(e - round(e)) <= 1e-3, f"spacing {step} for division {dv}")
    f = float(base) ** round(e)
    t.ok("C31", all(abs(v - round(v / f) * f) <= eps for v in major), lambda: f"multiples of {f}: {major}")
    t.ok("C31", not minor or f == 1, f"minor ticks between parts of a decade {f}")
    t.ok("C31", major[0] <= lo + eps and lo - major[0] < f + eps, f"first {major[0]} for {lo}")
    t.ok("C31", major[-1] >= hi - eps, f"last {major[-1]} for {hi}")
    per = {}
    for i in minor:
        g = sum(1 for x in at if x < i) - 1
        t.ok("C31", g >= 0, "a minor tick before the first major one")
        if g >= 0:
            above = major[g + 1] if g + 1 < len(major) else major[g] + step
            t.ok("C31", major[g] + eps < vals[i] < above - eps, f"minor tick {vals[i]} between {major[g]} and {above}")
            mul = float(base) ** (vals[i] - major[g])
            t.ok("C31", abs(mul - round(mul)) <= 1e-6 and 2 <= round(mul) < base, f"minor tick at {mul} times a power of the base")
            per.setdefault(g, []).append(round(mul))
    t.ok("C31", not per or (len(per) == len(major) and all(x == per[0] for x in per.values())), lambda: f"every decade has the same minor ticks {per}")
