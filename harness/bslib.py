"""Shared parts of the harnesses over bgem.bspline."""
import types

# degree -> knot vectors (free ends), with simple and multiple inner knots, other domains than [0, 1]
KNOTS = {
    0: [[0, 1], [0, 1, 3], [-1, 0, 2, "2.5"]],
    1: [[0, 0, 1, 1], [0, 0, 1, 3, 3], [-1, -1, 0, 2, "2.5", "2.5"]],
    2: [[0, 0, 0, 1, 1, 1], [0, 0, 0, 1, 3, 3, 3], [-1, -1, -1, 0, 2, "2.5", "2.5", "2.5"],
        [0, 0, 0, 1, 1, 2, 2, 2], [1, 1, 1, 2, 3, 3, 5, 5, 5]],
    3: [[0, 0, 0, 0, 1, 1, 1, 1], [0, 0, 0, 0, 1, 3, 3, 3, 3], [-1, -1, -1, -1, 0, 2, "2.5", "2.5", "2.5", "2.5"],
        [0, 0, 0, 0, 1, 1, 2, 2, 2, 2]],
    4: [[0, 0, 0, 0, 0, 1, 1, 1, 1, 1], [0, 0, 0, 0, 0, 1, 3, 3, 3, 3, 3]],
}


def fixed_knots(e, degree, which, tag=""):
    return [e.lit(x) for x in KNOTS[degree][which]]


def sym_knots(e, degree, n_int, tag="k"):
    k = [e.real(tag + "0", -2, 2)]
    for i in range(n_int):
        k.append(k[-1] + e.real("%sh%d" % (tag, i), "0.1", 3))
    return [k[0]] * degree + k + [k[-1]] * degree


def make_basis(e, degree, knots, tag="k"):
    """knots: index of a fixed vector, or ('sym', n_intervals)"""
    stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    kn = sym_knots(e, degree, knots[1], tag) if isinstance(knots, tuple) else fixed_knots(e, degree, knots)
    return B.SplineBasis(degree, e.arr(kn))


def bounds(basis):
    return basis.knots[basis.degree], basis.knots[len(basis.knots) - basis.degree - 1]


def param(e, basis, name="t", lo=None, hi=None):
    """Any parameter of the domain (or of [lo, hi])."""
    a, b = bounds(basis)
    a, b = (a if lo is None else lo), (b if hi is None else hi)
    if not e.symbolic:
        return min(max(e.real(name), a), b) if name in e.inputs else a
    la, lb = e.core.lift(a), e.core.lift(b)
    t = e.real(name, la if la.c is not None else -3, lb if lb.c is not None else 30)
    e.assume(t >= la)
    e.assume(t <= lb)
    return t


def breakpoints(basis):
    out = []
    for k in basis.knots:
        if not out or bool(k != out[-1]):
            out.append(k)
    return out


class Piece:
    """The polynomial that f is on the open interval (a, b); degree deg."""

    def __init__(self, e, f, a, b, deg, name="x"):
        self.e, self.a, self.b = e, a, b
        if e.symbolic:
            core = e.core
            x = e.real(name, -3, 30)
            e.assume(x > a)
            e.assume(x < b)
            c = coeffs_in(core, core.lift(f(x)), next(iter(x.n))[0][0])
            e.check(not c or max(c) <= deg, "not a polynomial of the degree of the basis between knots")
            self.c = [c.get(k, core.lift(0)) for k in range(deg + 1)]
        else:
            import numpy as np
            n = deg + 1
            ts = [a + (b - a) * (0.05 + 0.9 * i / n) for i in range(n + 1)]
            self.c = list(np.polyfit([(t - a) / (b - a) for t in ts], [float(f(t)) for t in ts], deg)[::-1])

    def value(self, t):
        return self._horner(self.c, t)

    def diff(self, t):
        v = self._horner([k * c for k, c in enumerate(self.c)][1:], t)
        return v if self.e.symbolic else v / (self.b - self.a)

    def _horner(self, c, t):
        if not self.e.symbolic:
            t = (t - self.a) / (self.b - self.a)
        r = self.e.lit(0)
        for x in reversed(c):
            r = r * t + x
        return r


def coeffs_in(core, r, vid):
    """r as a polynomial in one variable: {exponent: R}"""
    out = {}
    for m, c in r.num().items():
        ex = dict(m).get(vid, 0)
        out.setdefault(ex, {})[tuple(x for x in m if x[0] != vid)] = c
    if r.d is not None and any(v == vid for m in r.d for v, k in m):
        raise core.CheckFailed("not a polynomial between knots")
    return {k: core.rpoly(p, r.d) for k, p in out.items()}


class AABB:
    """Box of a point list: the interface of bih.AABB."""

    def __init__(self, points):
        self._b = [list(points[0]), list(points[0])]
        for p in points[1:]:
            self.add_point(p)

    def add_point(self, p):
        from symx.shim import max2
        for k, x in enumerate(p):
            self._b[0][k] = max2(self._b[0][k], x, -1)
            self._b[1][k] = max2(self._b[1][k], x)

    def add_box(self, o):
        self.add_point(o.min())
        self.add_point(o.max())

    def min(self):
        return list(self._b[0])

    def max(self):
        return list(self._b[1])

    def center(self):
        return [(a + b) / 2 for a, b in zip(*self._b)]

    def intersect(self, o):
        return all(bool(a <= d) and bool(c <= b) for a, b, c, d in zip(self._b[0], self._b[1], o._b[0], o._b[1]))

    def contains_point(self, p):
        return all(bool(a <= x) and bool(x <= b) for a, b, x in zip(self._b[0], self._b[1], p))


class BIH:
    def __init__(self):
        self._boxes = []

    def add_boxes(self, boxes):
        self._boxes += list(boxes)

    def construct(self):
        pass

    def find_box(self, b):
        return [i for i, x in enumerate(self._boxes) if x.intersect(b)]

    def find_point(self, p):
        return [i for i, x in enumerate(self._boxes) if x.contains_point(p)]


BIH_STUB = "The box tree of the extension module bih is replaced by a list of boxes searched completely."


def stub_bih(e):
    if e.symbolic:
        e.stub("bih", types.SimpleNamespace(AABB=AABB, BIH=BIH))


def poles(e, n, dim, tag="p", lo=-4, hi=4):
    return [[e.real("%s%d_%d" % (tag, i, k), lo, hi) for k in range(dim)] for i in range(n)]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s
