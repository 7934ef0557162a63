"""C22: lines, planes and bilinear surfaces as B-splines; curves from point sequences end in the end points."""
import types

from symx.runner import Job
from harness import bslib as L

OUTSIDE = "The fitting of curve_from_grid between its end points (compiled FITPACK); overhang above 2."


def approx(e, **interp):
    L.stub_bih(e)
    if e.symbolic:
        sp = types.SimpleNamespace(linalg=types.SimpleNamespace())
        e.stub("scipy", types.SimpleNamespace(sparse=sp, interpolate=types.SimpleNamespace(**interp)))
        e.stub("scipy.sparse", sp)
        e.stub("scipy.sparse.linalg", sp.linalg)
        e.stub("scipy.interpolate", types.SimpleNamespace(**interp))
    return e.mod("bgem.bspline.bspline_approx")


def overhang(e, kind):
    if kind == "any":
        return e.real("overhang", 0, 2)
    return {"default": None, "zero": 0, "int": 1}[kind]


def points(e, n, dim, ints):
    if ints:
        m = e.choice("points", [1, 2, 3])
        return [[(5 * m * i + 3 * k + i * k) % 7 - m for k in range(dim)] for i in range(n)]
    return [[e.real("p%d%d" % (i, k), -5, 5) for k in range(dim)] for i in range(n)]


def given(e, P, form):
    """the points as a list of tuples or an array (of integers where they are)"""
    if form == "list":
        return [tuple(p) for p in P]
    return e.np.array(P)


def line(e, dim, ints, ov):
    A = approx(e)
    P = points(e, 2, dim, ints)
    o = overhang(e, ov)
    form = e.choice("form", ["list", "array"])
    given_pts = given(e, P, form)
    c = A.line(given_pts) if o is None else A.line(given_pts, o)
    o = o or e.lit(0)
    e.check(c.dim == dim, "dimension")
    e.near(c.basis.domain[0], -o, "domain")
    e.near(c.basis.domain[1], 1 + o, "domain")
    t = -o + e.real("s", 0, 1) * (1 + 2 * o)
    x = c.eval(t)
    for k in range(dim):
        e.near(x[k], P[0][k] * (1 - t) + P[1][k] * t, "not the line through the points")
        for i in range(2):
            e.near(given_pts[i][k], P[i][k], "argument changed")
    e.observe("x", x[0])


def bilinear(e, ints, ov, plane, dim=3):
    A = approx(e)
    P = points(e, 3 if plane else 4, dim, ints)
    o = overhang(e, ov)
    form = e.choice("form", ["list", "array"])
    given_pts = given(e, P, form)
    f = A.plane_surface if plane else A.bilinear_surface
    s = f(given_pts) if o is None else f(given_pts, o)
    o = o or e.lit(0)
    e.check(s.dim == dim, "dimension")
    for b in s.basis:
        e.near(b.domain[0], -o, "domain")
        e.near(b.domain[1], 1 + o, "domain")
    u = -o + e.real("su", 0, 1) * (1 + 2 * o)
    v = -o + e.real("sv", 0, 1) * (1 + 2 * o)
    x = s.eval(u, v)
    for k in range(dim):
        if plane:
            r = P[0][k] + u * (P[1][k] - P[0][k]) + v * (P[2][k] - P[0][k])
        else:
            r = (P[0][k] * (1 - u) + P[1][k] * u) * (1 - v) + (P[3][k] * (1 - u) + P[2][k] * u) * v
        e.near(x[k], r, "not the plane through the points" if plane else "not the bilinear surface of the corners")
        for i in range(len(P)):
            e.near(given_pts[i][k], P[i][k], "argument changed")
    e.observe("x", x[0])


def fitted(e, dim, n):
    """whatever the fit gives, the curve joins the end points; the points, weights and options reach the fit"""
    deg = e.choice("degree", [None, 1, 2, 3])
    seen = {}

    def splprep(x, k=3, s=None, w=None, **kw):
        seen.update(x=x, k=k, s=s, w=w)
        kn = [e.lit(0)] * (k + 1) + [e.real("knot", "0.1", "0.9")] + [e.lit(1)] * (k + 1)
        return [e.arr(kn), [e.arr([e.real("c%d_%d" % (i, d), -9, 9) for i in range(k + 2)]) for d in range(dim)], k], e.arr([0])
    A = approx(e, splprep=splprep)
    P = points(e, n, dim, False)
    if not e.symbolic:
        A.scipy.interpolate.splprep, old = splprep, A.scipy.interpolate.splprep
    try:
        c = A.curve_from_grid(e.arr(P), **({} if deg is None else dict(degree=deg, tol=2)))
    finally:
        if not e.symbolic:
            A.scipy.interpolate.splprep = old
    e.check(seen["k"] == (3 if deg is None else deg), "degree of the fit")
    e.check(c.basis.degree == seen["k"], "degree of the curve")
    e.check(len(seen["w"]) == n and len(seen["x"]) == dim, "data of the fit")
    e.near(seen["s"], e.lit("0.01") if deg is None else 2, "tolerance of the fit")
    a, b = c.eval(c.basis.domain[0]), c.eval(c.basis.domain[1])
    for k in range(dim):
        e.near(a[k], P[0][k], "curve does not start in the first point")
        e.near(b[k], P[-1][k], "curve does not end in the last point")
        for i in range(n):
            e.near(seen["x"][k][i], P[i][k], "points given to the fit")


def jobs():
    J = []
    for ov in ("any", "default", "zero", "int"):
        for ints in (0, 1):
            for dim in (1, 2, 3):
                J.append(Job("line:%d:%s:%d" % (dim, ov, ints), line, dict(dim=dim, ints=ints, ov=ov), symchoice=True,
                             bounds="dimension %d, any end points, parameter and overhang (%s)" % (dim, ov)))
            for plane in (0, 1):
                J.append(Job("%s:%s:%d" % ("plane" if plane else "bilinear", ov, ints), bilinear, dict(ints=ints, ov=ov, plane=plane),
                             symchoice=True,
                             bounds="any points, parameters and overhang (%s)" % ov))
    for dim in (2, 3):
        for n in (4, 6):
            J.append(Job("fitted:%d:%d" % (dim, n), fitted, dict(dim=dim, n=n), bounds="%d points of dimension %d, any result of the fit" % (n, dim),
                         assumptions=["scipy.interpolate.splprep: returns any poles and any inner knot"]))
    return J
