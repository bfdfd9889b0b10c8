"""Contracts of Geometry.py: integer geometry (C08), float geometry (C09), linear ticks (C10)."""
from engine.api import *
import math as _m


class G:
    """the integer or the float classes, with the arguments that belong to them"""

    def __init__(self, E, fl):
        self.E, self.fl, self.tag = E, fl, "C09" if fl else "C08"
        self.M = M = E.load("Geometry")
        self.P, self.S, self.R = (M.FloatPoint, M.FloatSize, M.FloatRect) if fl else (M.IntPoint, M.IntSize, M.IntRect)

    def num(self, name):
        return self.E.real(name) if self.fl else self.E.int(name)

    def chk(self, name, *s):
        self.E.check(f"{self.tag} {name}", *s)

    def pt(self, p, y, x, what):
        E = self.E
        self.chk(what, isinstance(p, self.P), E.eq(p.y, y), E.eq(p.x, x))
        self.chk(what + ": tuple order y, x", E.eq(p[0], y), E.eq(p[1], x), E.eq(tuple(p), (y, x)))

    def sz(self, s, h, w, what):
        E = self.E
        self.chk(what, isinstance(s, self.S), E.eq(s.height, h), E.eq(s.width, w))
        self.chk(what + ": tuple order height, width", E.eq(s[0], h), E.eq(s[1], w), E.eq(tuple(s), (h, w)))

    def rc(self, r, t, l, h, w, what):
        E = self.E
        self.chk(what, isinstance(r, self.R), E.eq(r.origin.y, t), E.eq(r.origin.x, l), E.eq(r.size.height, h), E.eq(r.size.width, w))

    def point(self, n=""):
        y, x = self.num("y" + n), self.num("x" + n)
        return self.P(y, x), y, x

    def size(self, n=""):
        h, w = self.num("h" + n), self.num("w" + n)
        return self.S(h, w), h, w

    def rect(self, n=""):
        t, l, h, w = self.num("t" + n), self.num("l" + n), self.num("h" + n), self.num("w" + n)
        return self.R((t, l), (h, w)), t, l, h, w


def kinds(name, both, conc=True):
    def deco(fn):
        for fl, prop, pre in ((False, "C08", "Int"), (True, "C09", "Float")):
            contract(prop, [t.replace("#", "Geometry." + pre) for t in both], name=("float_" if fl else "int_") + name, concrete=conc)(
                (lambda fl: lambda E: fn(E, G(E, fl)))(fl))
        return fn
    return deco


@kinds("point_construct", ["#Point.__init__", "#Point.make", "#Point.x", "#Point.y", "#Point.__getitem__", "#Point.__iter__"])
def point_construct(E, g):
    y, x = g.num("y"), g.num("x")
    w = E.choose(6)
    if w == 0:
        g.pt(g.P(y, x), y, x, "point from y, x")
    elif w == 1:
        g.pt(g.P(x=x, y=y), y, x, "point from keywords")
    elif w == 2:
        g.pt(g.P.make((y, x)), y, x, "point from tuple")
    elif w == 3:
        g.pt(g.P.make(g.P(y, x)), y, x, "point from point")
    elif w == 4:
        g.pt(g.P.make(g.S(y, x)), y, x, "point from size")
        g.pt(g.P(), 0, 0, "default point")
        g.pt(g.P(y=y), y, 0, "default x")
        g.pt(g.P(x=x), 0, x, "default y")
    elif g.fl:
        k, j = E.int("k"), E.int("j")
        g.pt(g.P(k, j), k, j, "float point from ints")
        g.pt(g.M.IntPoint(k, j).to_float_point(), k, j, "float point of an int point")
        g.sz(g.M.IntSize(k, j).to_float_size(), k, j, "float size of an int size")
    else:
        p = g.M.IntPoint(y, x).to_float_point()
        E.check("C08 point as float point", E.eq(p.y, y), E.eq(p.x, x), isinstance(p, g.M.FloatPoint))


@kinds("size_construct", ["#Size.__init__", "#Size.make", "#Size.width", "#Size.height", "#Size.__getitem__", "#Size.__iter__", "#Size.aspect_ratio"])
def size_construct(E, g):
    h, w = g.num("h"), g.num("w")
    c = E.choose(7)
    if c == 0:
        g.sz(g.S(h, w), h, w, "size from height, width")
    elif c == 1:
        g.sz(g.S(width=w, height=h), h, w, "size from keywords")
    elif c == 2:
        g.sz(g.S(w=w, h=h), h, w, "size from short keywords")
    elif c == 3:
        g.sz(g.S.make((h, w)), h, w, "size from tuple")
    elif c == 4:
        g.sz(g.S.make(g.S(h, w)), h, w, "size from size")
    elif c == 5:
        g.sz(g.S(), 0, 0, "default size")
        g.sz(g.S(h), h, 0, "default width")
        g.sz(g.S(w=w), 0, w, "default height")
        g.sz(g.S(height=h, width=w, h=1, w=1), h, w, "long names win")
    else:
        s = g.S(h, w)
        a = s.aspect_ratio
        g.chk("aspect ratio of a size", E.eq(a * h, w) if h != 0 else E.eq(a, 1))
        if not g.fl:
            f = s.to_float_size()
            E.check("C08 size as float size", E.eq(f.height, h), E.eq(f.width, w), isinstance(f, g.M.FloatSize))


@kinds("rect_construct", ["#Rect.__init__", "#Rect.make", "#Rect.from_tlbr", "#Rect.from_tlhw", "#Rect.from_center_and_size", "#Rect.__getitem__", "#Rect.__iter__"])
def rect_construct(E, g):
    t, l, h, w = g.num("t"), g.num("l"), g.num("h"), g.num("w")
    c = E.choose(7)
    if c == 0:
        g.rc(g.R((t, l), (h, w)), t, l, h, w, "rect from tuples")
    elif c == 1:
        g.rc(g.R(g.P(t, l), g.S(h, w)), t, l, h, w, "rect from point and size")
    elif c == 2:
        g.rc(g.R.make(((t, l), (h, w))), t, l, h, w, "rect from a tuple of tuples")
    elif c == 3:
        g.rc(g.R.make(g.R((t, l), (h, w))), t, l, h, w, "rect from rect")
    elif c == 4:
        b, r = g.num("b"), g.num("r")
        g.rc(g.R.from_tlbr(t, l, b, r), t, l, b - t, r - l, "rect from edges")
        g.rc(g.R.from_tlhw(t, l, h, w), t, l, h, w, "rect from top, left, height, width")
    elif c == 5:
        if not g.fl:
            E.assume(h >= 0, w >= 0)
        r = g.R.from_center_and_size((t, l), (h, w))
        g.chk("rect from center and size has that size", E.eq(r.height, h), E.eq(r.width, w))
        g.chk("rect from center and size has that center", E.eq(r.center.y, t), E.eq(r.center.x, l))
    else:
        r = g.R((t, l), (h, w))
        g.chk("rect as tuples", E.eq(r[0], (t, l)), E.eq(r[1], (h, w)), E.eq(tuple(r), ((t, l), (h, w))))
        if g.fl:
            u = g.M.FloatRect.unit_rect()
            g.rc(u, 0, 0, 1, 1, "unit rect")
        else:
            f = r.to_float_rect()
            E.check("C08 rect as float rect", isinstance(f, g.M.FloatRect), E.eq(f.top, t), E.eq(f.left, l), E.eq(f.height, h), E.eq(f.width, w))


@kinds("rect_access", ["#Rect.origin", "#Rect.size", "#Rect.width", "#Rect.height", "#Rect.left", "#Rect.top", "#Rect.right", "#Rect.bottom", "#Rect.top_left",
                       "#Rect.top_right", "#Rect.bottom_left", "#Rect.bottom_right", "#Rect.center", "#Rect.aspect_ratio"])
def rect_access(E, g):
    r, t, l, h, w = g.rect()
    c = E.choose(3)
    if c == 0:
        g.chk("edges", E.eq(r.top, t), E.eq(r.left, l), E.eq(r.bottom, t + h), E.eq(r.right, l + w), E.eq(r.height, h), E.eq(r.width, w))
        g.pt(r.origin, t, l, "origin")
        g.sz(r.size, h, w, "size")
        g.pt(r.top_left, t, l, "top left")
        g.pt(r.top_right, t, l + w, "top right")
        g.pt(r.bottom_left, t + h, l, "bottom left")
        g.pt(r.bottom_right, t + h, l + w, "bottom right")
    elif c == 1:
        if g.fl:
            g.pt(r.center, t + h / 2, l + w / 2, "center is the midpoint")
        else:
            g.pt(r.center, (t + t + h) // 2, (l + l + w) // 2, "center is the floor midpoint")
            s = r.slice
            g.chk("slices", E.eq(s[0].start, t), E.eq(s[0].stop, t + h), E.eq(s[1].start, l), E.eq(s[1].stop, l + w), s[0].step is None, s[1].step is None)
    else:
        a = r.aspect_ratio
        g.chk("aspect ratio of a rect", E.eq(a * h, w) if h != 0 else E.eq(a, 1))


@kinds("equality", ["#Point.__eq__", "#Point.__ne__", "#Size.__eq__", "#Size.__ne__", "#Rect.__eq__", "#Rect.__ne__"])
def equality(E, g):
    c = E.choose(6)
    if c == 0:
        p, y, x = g.point()
        q, v, u = g.point("2")
        same = E.and_(E.eq(y, v), E.eq(x, u))
        g.chk("points are equal exactly when the coordinates are", E.iff(p == q, same), E.iff(p != q, E.not_(same)))
        g.chk("points compare with tuples", E.iff(p == (v, u), same), E.iff(p != (v, u), E.not_(same)))
    elif c == 1:
        p, y, x = g.size()
        q, v, u = g.size("2")
        same = E.and_(E.eq(y, v), E.eq(x, u))
        g.chk("sizes are equal exactly when the dimensions are", E.iff(p == q, same), E.iff(p != q, E.not_(same)))
        g.chk("sizes compare with tuples", E.iff(p == (v, u), same), E.iff(p != (v, u), E.not_(same)))
    elif c == 2:
        r, t, l, h, w = g.rect()
        q, t2, l2, h2, w2 = g.rect("2")
        same = E.and_(E.eq(t, t2), E.eq(l, l2), E.eq(h, h2), E.eq(w, w2))
        g.chk("rects are equal exactly when the coordinates are", E.iff(r == q, same))
    elif c == 3:
        r, t, l, h, w = g.rect()
        q, t2, l2, h2, w2 = g.rect("2")
        same = E.and_(E.eq(t, t2), E.eq(l, l2), E.eq(h, h2), E.eq(w, w2))
        g.chk("rects differ exactly when a coordinate does", E.iff(r != q, E.not_(same)))
    elif c == 4:
        r, t, l, h, w = g.rect()
        t2, l2, h2, w2 = g.num("t2"), g.num("l2"), g.num("h2"), g.num("w2")
        same = E.and_(E.eq(t, t2), E.eq(l, l2), E.eq(h, h2), E.eq(w, w2))
        g.chk("rects compare with tuples", E.iff(r == ((t2, l2), (h2, w2)), same))
    else:
        p, y, x = g.point()
        s, h, w = g.size()
        r = g.R(p, s)
        g.chk("nothing equals None", not (p == None), p != None, not (s == None), s != None, not (r == None), r != None)


@kinds("arithmetic", ["#Point.__add__", "#Point.__sub__", "#Point.__neg__", "#Size.__add__", "#Size.__sub__", "#Size.__neg__", "#Point.__abs__", "#Size.__abs__",
                      "#Size.__mul__", "#Size.__rmul__"])
def arithmetic(E, g):
    p, y, x = g.point()
    s, h, w = g.size()
    c = E.choose(6)
    if c == 0:
        q, v, u = g.point("2")
        g.pt(p + q, y + v, x + u, "point plus point")
        g.pt(p - q, y - v, x - u, "point minus point")
        g.pt(-p, -y, -x, "negated point")
        g.pt(p, y, x, "operands are not changed")
    elif c == 1:
        g.pt(p + s, y + h, x + w, "point plus size")
        g.pt(p - s, y - h, x - w, "point minus size")
    elif c == 2:
        q, v, u = g.size("2")
        g.sz(s + q, h + v, w + u, "size plus size")
        g.sz(s - q, h - v, w - u, "size minus size")
        g.sz(-s, -h, -w, "negated size")
        g.sz(s + (v, u), h + v, w + u, "size plus tuple")
        g.sz(s - (v, u), h - v, w - u, "size minus tuple")
    elif c == 3:
        a, b = abs(p), abs(s)
        g.chk("length of a point", a >= 0, E.eq(a * a, y * y + x * x))
        g.chk("length of a size", b >= 0, E.eq(b * b, h * h + w * w))
    elif c == 4:
        k = E.real("k") if g.fl else E.int("k")
        g.sz(s * k, h * k, w * k, "size times number")
        g.sz(k * s, h * k, w * k, "number times size")
    elif g.fl:
        k = E.real("k")
        g.pt(p * k, y * k, x * k, "point times number")
        g.pt(k * p, y * k, x * k, "number times point")
        E.assume(k != 0)
        d, e = p / k, s / k
        g.chk("point over number", E.eq(d.y * k, y), E.eq(d.x * k, x))
        g.chk("size over number", E.eq(e.height * k, h), E.eq(e.width * k, w))


@kinds("rect_move", ["#Rect.translated", "#Rect.__add__", "#Rect.__sub__", "#Point.__add__", "#Point.__sub__", "#Rect.inset"])
def rect_move(E, g):
    r, t, l, h, w = g.rect()
    p, y, x = g.point()
    c = E.choose(6)
    if c == 0:
        g.rc(r.translated(p), t + y, l + x, h, w, "translated rect")
        g.rc(r.translated((y, x)), t + y, l + x, h, w, "rect translated by a tuple")
        g.rc(r, t, l, h, w, "the rect itself is not changed")
    elif c in (1, 2, 3):
        if not g.fl:
            E.assume(h >= 0, w >= 0)
        if c == 1:
            g.rc(r + p, t + y, l + x, h, w, "rect plus point")
        elif c == 2:
            g.rc(r - p, t - y, l - x, h, w, "rect minus point")
        else:
            g.rc(p + r, t + y, l + x, h, w, "point plus rect")
    elif c == 4:
        dx, dy = g.num("dx"), g.num("dy")
        q = r.inset(dx, dy)
        g.chk("inset moves each side inwards", E.eq(q.left, l + dx), E.eq(q.right, l + w - dx), E.eq(q.top, t + dy), E.eq(q.bottom, t + h - dy))
    else:
        dx = g.num("dx")
        q = r.inset(dx)
        g.chk("inset by one amount moves every side", E.eq(q.left, l + dx), E.eq(q.right, l + w - dx), E.eq(q.top, t + dx), E.eq(q.bottom, t + h - dx))


@kinds("rect_combine", ["#Rect.union", "#Rect.intersect"])
def rect_combine(E, g):
    r, t, l, h, w = g.rect()
    q, t2, l2, h2, w2 = g.rect("2")
    mn = lambda a, b: E.ite(a <= b, a, b)
    mx = lambda a, b: E.ite(a >= b, a, b)
    if E.choose(2):
        u = r.union(q)
        g.chk("union has the outermost edges", E.eq(u.top, mn(t, t2)), E.eq(u.left, mn(l, l2)), E.eq(u.bottom, mx(t + h, t2 + h2)), E.eq(u.right, mx(l + w, l2 + w2)))
    else:
        u = r.intersect(q)
        g.chk("intersection has the innermost edges", E.eq(u.top, mx(t, t2)), E.eq(u.left, mx(l, l2)), E.eq(u.bottom, mn(t + h, t2 + h2)), E.eq(u.right, mn(l + w, l2 + w2)))


@kinds("rect_contains", ["#Rect.contains_point", "#Rect.intersects_rect"])
def rect_contains(E, g):
    r, t, l, h, w = g.rect()
    if E.choose(2):
        y, x = g.num("y"), g.num("x")
        pt = g.P(y, x) if E.choose(2) else (y, x)
        g.chk("containment is half open", E.iff(r.contains_point(pt), E.and_(l <= x, x < l + w, t <= y, y < t + h)))
    else:
        q, t2, l2, h2, w2 = g.rect("2")
        beyond = E.or_(l > l2 + w2, l2 > l + w, t > t2 + h2, t2 > t + h)
        g.chk("rects intersect unless one lies strictly beyond an edge of the other", E.iff(r.intersects_rect(q), E.not_(beyond)))


# ---------------------------------------------------------------- float only

def rects(E, nondeg=True):
    g = G(E, True)
    f, ft, fl, fh, fw = g.rect("f")
    t, tt, tl, th, tw = g.rect("g")
    E.assume(fh != 0, fw != 0, th != 0, tw != 0)
    return g, (f, ft, fl, fh, fw), (t, tt, tl, th, tw)


@contract("C09", "Geometry.map_point", concrete=True)
def map_point(E):
    g, (f, ft, fl, fh, fw), (t, tt, tl, th, tw) = rects(E)
    mp = g.M.map_point
    c = E.choose(4)
    P = g.P
    if c == 0:
        for a, b in ((f.top_left, t.top_left), (f.bottom_right, t.bottom_right), (f.top_right, t.top_right), (f.bottom_left, t.bottom_left)):
            q = mp(a, f, t)
            g.chk("corners map to corners", E.eq(q.y, b.y), E.eq(q.x, b.x))
    elif c == 1:
        q = mp(P(ft + fh / 2, fl + fw / 2), f, t)
        g.chk("center maps to center", E.eq(q.y, tt + th / 2), E.eq(q.x, tl + tw / 2))
    elif c == 2:
        p, y, x = g.point()
        q = mp(mp(p, f, t), t, f)
        g.chk("mapping back restores the point", E.eq(q.y, y), E.eq(q.x, x))
    else:
        # affine: relative position is kept
        a, b = E.real("a"), E.real("b")
        q = mp(P(ft + a * fh, fl + b * fw), f, t)
        g.chk("points keep their relative position", E.eq(q.y, tt + a * th), E.eq(q.x, tl + b * tw))


@contract("C09", "Geometry.map_size", concrete=True)
def map_size(E):
    g, (f, ft, fl, fh, fw), (t, tt, tl, th, tw) = rects(E)
    ms = g.M.map_size
    if E.choose(2):
        q = ms(f.size, f, t)
        g.chk("size of the first maps to size of the second", E.eq(q.height, th), E.eq(q.width, tw))
        a, b = E.real("a"), E.real("b")
        q = ms(g.S(a * fh, b * fw), f, t)
        g.chk("sizes are scaled", E.eq(q.height, a * th), E.eq(q.width, b * tw))
    else:
        s, h, w = g.size()
        q = ms(ms(s, f, t), t, f)
        g.chk("mapping back restores the size", E.eq(q.height, h), E.eq(q.width, w))


@contract("C09", "Geometry.map_rect", concrete=True, timeout=60)
def map_rect(E):
    g, (f, ft, fl, fh, fw), (t, tt, tl, th, tw) = rects(E)
    mr = g.M.map_rect
    if E.choose(2):
        q = mr(f, f, t)
        g.rc(q, tt, tl, th, tw, "the first rect maps to the second")
        a, b, c, d = E.real("a"), E.real("b"), E.real("c"), E.real("d")
        q = mr(g.R.from_tlhw(ft + a * fh, fl + b * fw, c * fh, d * fw), f, t)
        g.rc(q, tt + a * th, tl + b * tw, c * th, d * tw, "rects keep their relative place and size")
    else:
        # by the relative position lemma it is enough to map back a rect given relatively to the first
        a, b, c, d = E.real("a"), E.real("b"), E.real("c"), E.real("d")
        r = g.R.from_tlhw(tt + a * th, tl + b * tw, c * th, d * tw)
        q = mr(r, t, f)
        g.rc(q, ft + a * fh, fl + b * fw, c * fh, d * fw, "mapping back restores the rect")


@contract("C09", ["Geometry.fit_to_aspect_ratio", "Geometry.fit_to_size"], concrete=True)
def fit(E):
    g = G(E, True)
    r, t, l, h, w = g.rect()
    E.assume(h > 0, w > 0)
    a = E.real("aspect")
    E.assume(a > 0)
    if E.choose(2):
        sh, sw = E.real("sh"), E.real("sw")
        E.assume(sh > 0, sw > 0)
        E.assume(E.eq(a * sh, sw))
        q = g.M.fit_to_size(r, (sh, sw))
    else:
        arg = r if E.choose(2) else ((t, l), (h, w))
        q = g.M.fit_to_aspect_ratio(arg, a)
    g.chk("fitted rect has the ratio", E.eq(q.width, q.height * a), q.height > 0)
    g.chk("fitted rect is centered", E.eq(q.top + q.bottom, t + t + h), E.eq(q.left + q.right, l + l + w))
    g.chk("fitted rect touches in a dimension", E.or_(E.eq(q.width, w), E.eq(q.height, h)))
    eps = 1e-9 if E.concrete else 0
    g.chk("fitted rect is contained", q.width <= w + eps, q.height <= h + eps)


@contract("C09", ["Geometry.FloatPoint.rotate", "Geometry.FloatSize.rotate", "Geometry.distance", "Geometry.midpoint", "Geometry.inset_rect"],
          ["sin(x)^2 + cos(x)^2 = 1, sin(0) = 0, cos(0) = 1", "sqrt(x)^2 = x"], concrete=True)
def rotate(E):
    g = G(E, True)
    p, y, x = g.point()
    s, h, w = g.size()
    c = E.choose(7)
    ang = E.real("angle")
    if c == 0:
        o, v, u = g.point("o")
        q = p.rotate(ang, o)
        g.chk("rotation keeps the distance to the origin", E.eq((q.y - v) * (q.y - v) + (q.x - u) * (q.x - u), (y - v) * (y - v) + (x - u) * (x - u)))
    elif c == 1:
        q = p.rotate(ang)
        g.chk("rotation about the origin keeps the length", E.eq(q.y * q.y + q.x * q.x, y * y + x * x))
    elif c == 2:
        q = s.rotate(ang)
        g.chk("rotation of a size keeps its length", E.eq(q.height * q.height + q.width * q.width, h * h + w * w))
    elif c == 3:
        o, v, u = g.point("o")
        q = p.rotate(0.0, o)
        g.pt(q, y, x, "rotation by zero changes nothing")
        g.pt(p.rotate(0.0), y, x, "rotation by zero changes nothing (default origin)")
        g.sz(s.rotate(0.0), h, w, "rotation of a size by zero changes nothing")
    elif c == 4:
        v, u = E.real("v"), E.real("u")
        a = (y, x) if E.choose(2) else p
        d = g.M.distance(a, (v, u))
        g.chk("distance is Euclidean", d >= 0, E.eq(d * d, (y - v) * (y - v) + (x - u) * (x - u)))
    elif c == 5:
        v, u = E.real("v"), E.real("u")
        m = g.M.midpoint((y, x), (v, u))
        g.chk("midpoint", E.eq(m[0] + m[0], y + v), E.eq(m[1] + m[1], x + u))
    else:
        t, l, k = E.real("t"), E.real("l"), E.real("k")
        m = g.M.inset_rect(((t, l), (h, w)), k)
        g.chk("inset rect moves each side inwards", E.eq(m[0][0], t + k), E.eq(m[0][1], l + k), E.eq(m[0][0] + m[1][0], t + h - k), E.eq(m[0][1] + m[1][1], l + w - k))


# ---------------------------------------------------------------- linear ticks (C10)

TEN = z3.Function("ten_to", IntS, RealS)
LOG = z3.Function("log10", RealS, RealS)
TICK_TRUSTS = ["10^floor(log10 v) is a power of ten p with (1 - 1e-6) p <= v < 10 p for v > 0 (log10 may round up to the next integer)",
               "10^k is a positive power of ten"]


def decimal(E):
    """log10 and powers of ten by what is assumed of them; returns the list of powers of ten seen"""
    powers = []

    def h(name, a):
        if name == "log10":
            t = core.num_term(a[0])
            t = z3.ToReal(t[1]) if t[0] == "int" else t[1]
            if E.decide(t <= 0):
                raise ValueError("math domain error")
            f = z3.ToInt(LOG(t))
            E.add(z3.And(TEN(f) > 0, TEN(f) * z3.RealVal("999999/1000000") <= t, t < TEN(f) * 10))
            return SReal(LOG(t))
        if name == "pow":
            return power(a[0], a[1])
        if name == "copysign":
            v = abs(a[0]) if isinstance(a[0], core.SNum) else abs(float(a[0]))
            s = core.num_term(a[1])[1]
            return -v if E.decide(s < 0) else v + 0.0
        return NotImplemented

    def power(b, e):
        if not (isinstance(b, (int, float)) and b == 10):
            raise Unsupported("power of other than ten")
        k, t = core.num_term(e)
        if k == "real":
            return SReal(z3.Function("ten_to_real", RealS, RealS)(t))
        E.add(TEN(t) > 0)
        powers.append(TEN(t))
        return SReal(TEN(t))
    E.math_handlers.append(h)
    E.pow_hook = power
    return powers


def is_pretty(powers, v):
    """1, 2, 5 or 10 times a power of ten"""
    return SBool(z3.Or([v == m * p for p in powers for m in (z3.RealVal("1/10"), z3.RealVal("1/5"), z3.RealVal("1/2"), z3.RealVal(1), z3.RealVal(2), z3.RealVal(5), z3.RealVal(10))]
                       or [z3.BoolVal(False)]))


@contract("C10", ["Geometry.make_pretty", "Geometry.make_pretty2"], TICK_TRUSTS)
def pretty(E):
    M = E.load("Geometry")
    powers = decimal(E)
    rounding = bool(E.choose(2))
    if E.choose(2):
        E.check("C10 zero stays zero", M.make_pretty2(0.0, rounding) == 0, M.make_pretty2(0, rounding) == 0)
        for z in (float("inf"), float("-inf"), float("nan")):
            E.check("C10 no pretty number for what is not finite", M.make_pretty2(z, rounding) == 0)
        return
    v = E.real("value")
    E.assume(v != 0)
    r, f = M.make_pretty(v, rounding)
    R = core.num_term(r)[1]
    A = z3.If(R < 0, -R, R)
    V = z3.If(v.t < 0, -v.t, v.t)
    E.check("C10 a pretty number is not zero and keeps the sign", r != 0, E.iff(r > 0, v > 0))
    E.check("C10 a pretty number is 1, 2, 5 or 10 times a power of ten", is_pretty(powers, A))
    E.check("C10 a pretty number is within a factor 2.5", SBool(A <= V * z3.RealVal("25/10")), SBool(V <= A * z3.RealVal("25/10")))
    E.check("C10 make_pretty2 is the pretty number", E.eq(M.make_pretty2(v, rounding), r))


def mono(E, a, b, d):
    """lemma a <= b and d > 0 imply a d <= b d (proved once for all reals), used at a, b, d"""
    x, y, z = z3.Reals("lemma_x lemma_y lemma_z")
    E.check("C10 lemma: scaling is monotone", SBool(z3.Implies(z3.And(x <= y, z > 0), x * z <= y * z)), SBool(z3.Implies(z3.And(x < y, z > 0), x * z < y * z)))
    E.assume(SBool(z3.Implies(z3.And(a <= b, d > 0), a * d <= b * d)), SBool(z3.Implies(z3.And(a < b, d > 0), a * d < b * d)))


def abstract_pretty(E, M, powers):
    """make_pretty by its contract (pretty): the caller is checked against it, not its body"""
    n = [0]

    def make_pretty(val, rounding):
        val = val if not isinstance(val, (int, float)) else float(val)
        if not isinstance(val, core.SNum) and (val == 0 or not _m.isfinite(val)):
            return 0.0, 0
        if E.decide(core.num_term(val)[1] == 0):
            return 0.0, 0
        n[0] += 1
        k = E.fresh(IntS, "exponent")
        r, p = E.fresh(RealS, "pretty"), TEN(k)
        v = core.num_term(val)[1]
        powers.append(p)
        E.add(p > 0)
        E.add(z3.Or([z3.If(r < 0, -r, r) == m * p for m in (1, 2, 5, 10)]))
        E.add((r > 0) == (v > 0))
        E.add(z3.And(z3.If(r < 0, -r, r) * 2 <= z3.If(v < 0, -v, v) * 5, z3.If(v < 0, -v, v) * 2 <= z3.If(r < 0, -r, r) * 5))
        return SReal(r), SReal(p)
    M.make_pretty = make_pretty
    M.make_pretty2 = lambda v, rounding: make_pretty(v, rounding)[0]


@contract("C10", ["Geometry.make_pretty_range2", "Geometry.LinearTicker.__init__", "Geometry.Ticker"], TICK_TRUSTS + ["Geometry.make_pretty (contract pretty)"], timeout=60)
def linear_ticks(E):
    M = E.load("Geometry")
    powers = decimal(E)
    for n in ("make_pretty", "make_pretty2"):
        if not hasattr(M, n):
            raise Unsupported("no " + n)
    abstract_pretty(E, M, powers)
    c = E.choose(3)
    if c == 0:
        v = E.real("v")
        r = M.make_pretty_range2(v, v, ticks=5)
        E.check("C10 equal bounds give one tick", len(r[2]) == 1, E.eq(r[2][0], v), E.eq(r[0], v), E.eq(r[1], v))
        t = M.LinearTicker(v, v)
        E.check("C10 equal bounds give one label", E.eq(E.len(t.values), 1), E.eq(E.len(t.labels), 1), E.eq(E.elem(t.values, 0), v))
        return
    if c == 1:
        inf = float("inf")
        for lo, hi in ((-inf, inf), (0.0, inf), (-inf, 3.0), (inf, 2.0), (-1.7e308, 1.7e308)):
            t = M.LinearTicker(lo, hi)
            E.check("C10 infinite ranges give the tick 0", len(t.values) == 1, t.values[0] == 0, len(t.labels) == 1)
        return
    a, b = E.real("low"), E.real("high")
    n = E.int("ticks")
    E.assume(n >= 2)
    E.assume(a != b)
    r = M.make_pretty_range2(a, b, ticks=n)
    gmin, gmax, vals, div = r[0], r[1], r[2], r[3]
    T = lambda x: term_of(x, "real")
    lo, hi = z3.If(a.t <= b.t, a.t, b.t), z3.If(a.t <= b.t, b.t, a.t)
    d = T(div)
    E.check("C10 the division is positive", SBool(d > 0))
    E.check("C10 the division is 1, 2, 5 or 10 times a power of ten", is_pretty(powers, d))
    ql, qh = lo / d, hi / d
    fl, ch = z3.ToReal(z3.ToInt(ql)), z3.ToReal(-z3.ToInt(-qh))
    for x, y in ((fl, ql), (ql, fl + 1), (qh, ch), (ch - 1, qh)):
        mono(E, x, y, d)
    E.check("C10 minimum is the largest multiple of the division not above the data", SBool(T(gmin) <= lo), SBool(lo < T(gmin) + d))
    E.check("C10 maximum is the smallest multiple of the division not below the data", SBool(T(gmax) >= hi), SBool(hi > T(gmax) - d))
    L = E.len(vals)
    E.check("C10 there are ticks", L >= 1)
    E.check("C10 ticks are spaced by the division from the minimum", Quant(["int"], lambda k: SBool(z3.Implies(z3.And(k.t >= 0, k.t < I(L)), T(E.elem(vals, k)) == T(gmin) + z3.ToReal(k.t) * d))))
    E.check("C10 the last tick is the maximum", SBool(T(E.elem(vals, L - 1)) == T(gmax)))


@contract("C10", ["Geometry.LinearTicker.__init__", "Geometry.LinearTicker.value_label", "Geometry.Ticker"], TICK_TRUSTS + ["Geometry.make_pretty_range2 (contract linear_ticks)"])
def labels(E):
    M = E.load("Geometry")
    powers = decimal(E)
    a, b, n = E.real("low"), E.real("high"), E.int("ticks")
    vals = E.intlist("values", "real")
    gmin, gmax, div, f10 = E.real("gmin"), E.real("gmax"), E.real("div"), E.real("f10")
    prec = E.int("precision")
    E.assume(div > 0, f10 > 0, prec >= 0)
    seen = []

    def make_pretty_range2(lo, hi, ticks=5, logarithmic=False):
        seen.append(1)
        E.check("C10 the ticker asks for ticks of its bounds", E.or_(E.and_(E.eq(lo, a), E.eq(hi, b)), E.and_(E.eq(lo, b), E.eq(hi, a))), E.eq(ticks, n), not logarithmic)
        return gmin, gmax, vals, div, prec, f10
    if not hasattr(M, "make_pretty_range2"):
        raise Unsupported("no make_pretty_range2")
    M.make_pretty_range2 = make_pretty_range2
    t = M.LinearTicker(a, b, ticks=n)
    if not seen:
        raise Unsupported("the ticker does not use make_pretty_range2")
    E.check("C10 the ticker reports the pretty range", E.eq(t.minimum, gmin), E.eq(t.maximum, gmax), E.eq(t.division, div), E.eq(t.precision, prec), E.eq(t.ticks, n))
    E.check("C10 the ticker reports the ticks", E.same_list(t.values, vals))
    E.check("C10 one label per tick", E.eq(E.len(t.labels), E.len(vals)))


# ---------------------------------------------------------------- logarithmic ticks (C31)

EXP = z3.Function("base_to", RealS, RealS)
LOGB = z3.Function("log_base", RealS, RealS)
LOG_TRUSTS = ["log and pow to the base 10 are the exact, mutually inverse, strictly increasing functions", "0 < log 2 < log 3 < ... < log 9 < 1",
              "Geometry.LogTicker.value_label gives a text"]


def real(x):
    return term_of(x, "real")


def logarithm(E):
    """log and pow to the base ten by what is assumed of them"""
    digits = [z3.RealVal(0)] + [LOGB(z3.RealVal(s)) for s in range(2, 10)] + [z3.RealVal(1)]

    def ten(b):
        if not (isinstance(b, (int, float)) and b == 10):
            raise Unsupported("a base other than ten")

    def h(name, a):
        if name == "log":
            if len(a) != 2:
                raise Unsupported("natural logarithm")
            ten(a[1])
            if not isinstance(a[0], core.SNum):
                return _m.log(a[0], 10)
            t = real(a[0])
            if E.decide(t <= 0):
                raise ValueError("math domain error")
            return SReal(LOGB(t))
        if name == "pow":
            return power(a[0], a[1])
        return NotImplemented

    def power(b, e):
        ten(b)
        if not isinstance(e, core.SNum):
            return _m.pow(10, e)
        t = real(e)
        if core.num_term(e)[0] == "int" and E.decide(t == 0):
            return 1.0
        if core.num_term(e)[0] == "int":
            E.log_powers.append(EXP(t))
        E.add(z3.And(EXP(t) > 0, (EXP(t) == 1) == (t == 0), LOGB(EXP(t)) == t, *[LOGB(s * EXP(t)) == t + digits[s - 1] for s in range(2, 10)]))
        return SReal(EXP(t))
    for x, y in zip(digits, digits[1:]):
        E.add(x < y)
    E.log_powers = []
    E.math_handlers.append(h)
    E.pow_hook = power
    return digits


@contract("C31", ["Geometry.LogTicker.__init__", "Geometry.Ticker"], LOG_TRUSTS, timeout=40)
def log_ticks(E):
    M = E.load("Geometry")
    inf, nan = float("inf"), float("nan")
    if E.choose(2):
        for lo, hi in ((-inf, inf), (0.0, inf), (-inf, 3.0), (nan, nan), (nan, 1.0), (1.0, nan)):
            t = M.LogTicker(lo, hi)
            E.check("C31 bounds which are not finite give the tick 1", len(t.values) == 1, t.values[0] == 1, len(t.labels) == 1, len(t.minor_tick_indices) == 0)
        return
    E.cand_quick = 15
    E.skip_templates = ("unchanged", "length - iterations")
    digits = logarithm(E)
    rounded = []
    math = M.math

    class Math:
        def __getattr__(self, name):
            f = getattr(math, name)
            if name not in ("floor", "ceil"):
                return f

            def wrapped(x):
                r = f(x)
                if isinstance(x, core.SNum):
                    rounded.append((name, real(x), real(r)))
                return r
            return wrapped
    M.math = Math()
    a, b, n = E.real("low"), E.real("high"), E.int("ticks")
    E.assume(a <= b, n >= 1)
    SUBS = {9: list(range(2, 10)), 5: [2, 4, 6, 8], 2: [5]}

    def of(L, l, kind, per=None):
        """the elements of a list which gets so many at a time; the wrong candidates are put off at sight"""
        if getattr(L, "site", "") == "comprehension":
            raise Unsupported("not this loop")
        l = VList(l)
        if l.c is None and per is not None:
            n = z3.simplify(l.n)
            grown = sum(x.as_long() for x in (n.children() if z3.is_add(n) else [n]) if z3.is_int_value(x))
            if grown not in (0, per):
                raise Unsupported("grows by another number")
        if l.c is not None:
            if l.c:
                raise Unsupported("not empty")
            l._to_sym(*[kind] if kind == "real" else [])
        if (l.kind == "real") != (kind == "real"):
            raise Unsupported("another list")
        return lambda k: wrap(l.kind, l.at(k.t))

    def ticks_hint(L, l, l0, q, subs):
        x = of(L, l, "real", q)
        return core.Conj([(E.eq(E.len(l), q * L.i))] + [E.forall_in(L.i, lambda k, r=r, s=s: SBool(z3.And(x(q * k + r).t > 0, LOGB(x(q * k + r).t) == term_of(L.seq.elem(k.t), "real") + digits[s - 1])))
                                                for r, s in enumerate([1] + subs)])

    def minor_hint(L, l, l0, q):
        x = of(L, l, "int", q - 1)
        return core.Conj([(E.eq(E.len(l), (q - 1) * L.i))] + [E.forall_in(L.i, lambda k, r=r: E.eq(x((q - 1) * k + r), q * k + r + 1)) for r in range(q - 1)])
    E.list_hints.append(lambda L, l, l0: [of(L, l, "real")] and E.forall_in(E.len(l), lambda k: of(L, l, "real")(k) > 0))
    for q, subs in SUBS.items():
        E.list_hints.append(lambda L, l, l0, q=q, subs=subs: ticks_hint(L, l, l0, q, subs))
        E.list_hints.append(lambda L, l, l0, q=q: minor_hint(L, l, l0, q))
    t = M.LogTicker(a, b, ticks=n)
    values, minor, div = t.values, t.minor_tick_indices, real(t.division)
    N, K = E.len(values), E.len(minor)
    V = lambda k: real(E.elem(values, k))
    J = N - K
    E.check("C31 one label per tick", E.eq(E.len(t.labels), N))
    E.check("C31 the ticker reports what it was asked for", E.eq(t.ticks, n), t.base == 10)
    E.check("C31 the division is a whole number", isinstance(t.division, (int, SInt)), SBool(div >= 1))
    end = E.int("last")
    E.assume(E.eq(end, J - 1))       # a name for the position of the last major tick
    last = real(end)

    def cut(fact):
        """a step of the argument: proved here, used below"""
        E.check("C31 lemma", SBool(fact))
        E.assume(SBool(fact))
    parts = [(k, x, r) for k, x, r in rounded if not (z3.is_app(x) and x.decl() in (LOGB, EXP))]
    lows = [r for k, x, r in parts if k == "floor"][:1]
    for k, x, r in parts:
        quotient = z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV
        num, den = x.children() if quotient else (None, None)
        if quotient:
            E.check("C31 lemma: what a quotient is", SBool(z3.Implies(z3.Real("lemma_y") != 0, z3.Real("lemma_x") / z3.Real("lemma_y") * z3.Real("lemma_y") == z3.Real("lemma_x"))))
            E.assume(SBool(z3.Implies(den != 0, x * den == num)))
            for u, v in ((r, x), (x, r + 1)) if k == "floor" else ((x, r), (r - 1, x)):
                mono(E, u, v, den)
        if quotient and k == "ceil" and E.entails(den == div):
            mono(E, r, last + 1, div)
            cut(num <= last * div + div)
            for f in E.log_powers:
                for lo in lows:
                    mono(E, num - div + lo, lo + last * div, f)
                    for k2, x2, r2 in parts:
                        if k2 == "ceil" and r2 is not r:
                            mono(E, r2, num - div + lo, f)
    E.check("C31 there are major ticks on both sides", J >= 2)
    q = next((q for q in (1, 2, 5, 9) if E.decide((K == (q - 1) * J).t)), None)
    if q is None:
        raise Unsupported("another number of minor ticks")
    for lo in lows:
        f = E.log_powers[0] if E.log_powers and q == 1 else z3.RealVal(1)
        for x in (lo * f, (lo + last * div) * f):
            E.add(z3.And(LOGB(EXP(x)) == x, LOGB(EXP(z3.simplify(x))) == z3.simplify(x)))      # the assumed contract of log and pow, at these exponents
        cut(V(0) == z3.simplify(lo * f))
        cut(V(q * end) == z3.simplify((lo + last * div) * f))
    E.check("C31 the first major tick is not above the data", SBool(V(0) <= a.t))
    E.check("C31 the last major tick is not below the data", SBool(V(q * end) >= b.t))
    units = [f for i, f in enumerate(E.log_powers) if not any(f.eq(g) for g in E.log_powers[:i])] if q == 1 else []
    if len(units) > 1:
        raise Unsupported("several powers of the base")
    step = div * units[0] if units else div
    pair = lambda fn: E.forall(["int", "int"], lambda j, k: E.implies(E.and_(j >= 0, k < J, E.eq(k, j + 1)), fn(j, k)))
    E.check("C31 major ticks are evenly spaced by the division times a power of the base", pair(lambda j, k: SBool(V(q * k) - V(q * j) == step)), SBool(step > 0))
    for r in range(q - 1):
        E.check("C31 the ticks between are flagged as minor", E.forall_in(J, lambda k: E.eq(E.elem(minor, (q - 1) * k + r), q * k + r + 1)))
        E.check("C31 ticks increase", E.forall_in(J, lambda k: SBool(V(q * k + r) < V(q * k + r + 1))))
    E.check("C31 ticks increase", pair(lambda j, k: SBool(V(q * j + q - 1) < V(q * k))))
    if q > 1:
        E.check("C31 minor ticks stay within the step", E.forall_in(J, lambda k: SBool(V(q * k + q - 1) < V(q * k) + div)))
