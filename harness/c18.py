"""C18: curve evaluation."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 3; more than 3 knot intervals; weights that are not positive."


def make(e, deg, knots, dim, rational):
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    b = L.make_basis(e, deg, knots)
    P = L.poles(e, b.size, dim)
    w = [e.real("w%d" % i, "0.1", 8) for i in range(b.size)] if rational else None
    rows = [p + [w[i]] for i, p in enumerate(P)] if rational else P
    form = e.choice("form", ["array", "list", "raw"])
    if form == "raw":
        c = B.Curve.make_raw(e.arr(rows), b.knots, bool(rational), deg)
        return B, c.basis, P, w, c
    c = B.Curve(b, e.arr(rows) if form == "array" else rows, bool(rational))
    return B, b, P, w, c


def value(e, deg, knots, dim, rational):
    """eval is the (weighted) combination of the poles by the basis functions, for every way of evaluation"""
    B, b, P, w, c = make(e, deg, knots, dim, rational)
    e.check(c.dim == dim, "dimension")
    t = L.param(e, b)
    v = [b.eval(i, t) for i in range(b.size)]
    if rational:
        v = [x * y for x, y in zip(v, w)]
        s = L.dot(v, [e.lit(1)] * len(v))
    x = c.eval(t)
    e.check(len(x) == dim, "dimension of the value")
    for k in range(dim):
        r = L.dot(v, [p[k] for p in P])
        if rational:
            e.near(x[k] * s, r, "value is not the weighted combination of the poles")
        else:
            e.near(x[k], r, "value is not the combination of the poles")
    y = c.eval_array(e.arr([t, b.domain[0]]))
    z = c.eval_local(t, b.find_knot_interval(t))
    a = c.eval(b.domain[0])
    q = c.eval(b.domain[1])
    for k in range(dim):
        e.near(y[0][k], x[k], "eval_array")
        e.near(z[k], x[k], "eval_local")
        e.near(y[1][k], P[0][k], "curve does not start in the first pole")
        e.near(a[k], P[0][k], "curve does not start in the first pole")
        e.near(q[k], P[-1][k], "curve does not end in the last pole")
    e.observe("x", x[0])


def hull(e, deg, knots, rational):
    """the curve stays in the box of its poles, every interval in the box of its own poles (fixed poles; any parameter)"""
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    b = L.make_basis(e, deg, knots)
    P = [[e.lit((7 * i * i) % 11 - 3), e.lit((-1) ** i * (4 - i)), e.lit(i * i - 3 * i)] for i in range(b.size)]
    w = [e.lit(1 + (5 * i) % 7) for i in range(b.size)]
    c = B.Curve(b, e.arr([p + [w[i]] for i, p in enumerate(P)] if rational else P), bool(rational))
    t = L.param(e, b)
    x = c.eval(t)
    box = c.aabb()
    e.check(tuple(box.shape) == (2, 3), "shape of the box")
    loc = c.boxes[b.find_knot_interval(t)]
    e.check(len(c.boxes) == b.n_intervals, "number of boxes")
    e.check(b.find_knot_interval(t) in c.tree.find_point(list(x)), "interval not found in the tree of boxes")
    for k in range(3):
        for lo, hi, what in ((box[0][k], box[1][k], "bounding box"), (loc.min()[k], loc.max()[k], "box of the interval")):
            e.leq(lo, x[k], "curve leaves the " + what)
            e.leq(x[k], hi, "curve leaves the " + what)


def box_of_poles(e, deg, knots, rational):
    """boxes are exactly those of the right poles in every coordinate (one pole moves)"""
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    b = L.make_basis(e, deg, knots)
    P = [[e.lit(i * i - 3 * i), e.lit(5 - 2 * i), e.lit((7 * i * i) % 11 - 3)] for i in range(b.size)]
    P[e.choice("pole", range(b.size))][e.choice("axis", range(3))] = e.real("z", -20, 20)
    c = B.Curve(b, e.arr([p + [e.lit(2)] for p in P] if rational else P), bool(rational))
    bx = c.aabb()
    for it in list(range(b.n_intervals)) + [None]:
        pts = P if it is None else P[it:it + deg + 1]
        lo, hi = (bx[0], bx[1]) if it is None else (c.boxes[it].min(), c.boxes[it].max())
        e.check(len(lo) == 3, "dimension of the box")
        for k in range(3):
            for p in pts:
                e.check(lo[k] <= p[k], "pole out of the box")
                e.check(hi[k] >= p[k], "pole out of the box")
            e.check(any(bool(lo[k] == p[k]) for p in pts), "box larger than the poles")
            e.check(any(bool(hi[k] == p[k]) for p in pts), "box larger than the poles")


def affine(e, deg, knots, rational):
    """an affine map of the poles maps the curve"""
    B, b, P, w, c = make(e, deg, knots, 2, rational)
    A = [[e.real("a%d%d" % (i, j), -2, 2) for j in range(3)] for i in range(2)]
    Q = [[A[0][0] * p[0] + A[0][1] * p[1] + A[0][2], A[1][0] * p[0] + A[1][1] * p[1] + A[1][2]] for p in P]
    d = B.Curve(b, e.arr([q + [w[i]] for i, q in enumerate(Q)] if rational else Q), bool(rational))
    t = L.param(e, b)
    x, y = c.eval(t), d.eval(t)
    e.near(y[0], A[0][0] * x[0] + A[0][1] * x[1] + A[0][2], "affine image")
    e.near(y[1], A[1][0] * x[0] + A[1][1] * x[1] + A[1][2], "affine image")


def equal_weights(e, deg, knots):
    B = e.mod("bgem.bspline.bspline")
    b = L.make_basis(e, deg, knots)
    P = L.poles(e, b.size, 2)
    w = e.real("w", "0.1", 10)
    c, d = B.Curve(b, e.arr(P)), B.Curve(b, e.arr([p + [w] for p in P]), True)
    t = L.param(e, b)
    x, y = c.eval(t), d.eval(t)
    for k in (0, 1):
        e.near(x[k], y[k], "rational curve of equal weights differs from the polynomial one")


def arc(e):
    """the quarter circle as a rational curve of degree 2"""
    B = e.mod("bgem.bspline.bspline")
    w = e.np.sqrt(e.lit("0.5"))
    P = [[e.lit(1), e.lit(0), e.lit(1)], [e.lit(1), e.lit(1), w], [e.lit(0), e.lit(1), e.lit(1)]]
    c = B.Curve.make_raw(e.arr(P), e.arr([0, 0, 0, 1, 1, 1]), True)
    x = c.eval(L.param(e, c.basis))
    e.near(x[0] * x[0] + x[1] * x[1], 1, "rational quarter circle is not on the circle")


def ends(e, deg, knots):
    """parameters a rounding error out of the domain give the end points"""
    B, b, P, w, c = make(e, deg, knots, 1, False)
    d = e.real("d", 0, "1e-14")
    x, y = c.eval(b.domain[0] - d), c.eval(b.domain[1] + d)
    e.near(x[0], P[0][0], "clamped start")
    e.near(y[0], P[-1][0], "clamped end")
    d = e.real("far", "1e-6", 3)
    for t in (b.domain[0] - d, b.domain[1] + d):
        try:
            c.eval(t)
        except IndexError:
            continue
        e.check(False, "evaluation out of the domain")


def jobs():
    J = []
    for deg in (0, 1, 2, 3):
        for k, kn in enumerate(L.KNOTS[deg]):
            bd = "degree %d, knots %s, any poles in [-4, 4], any parameter" % (deg, kn)
            for r in (0, 1):
                q = dict(tier="quick" if not r or k < 3 else "thorough", weight=2)
                J.append(Job("value:%d:%d:%d" % (deg, k, r), value, dict(deg=deg, knots=k, dim=2 + k % 2, rational=r), bounds=bd, **q))
                J.append(Job("affine:%d:%d:%d" % (deg, k, r), affine, dict(deg=deg, knots=k, rational=r), bounds=bd, **q))
                J.append(Job("boxes:%d:%d:%d" % (deg, k, r), box_of_poles, dict(deg=deg, knots=k, rational=r),
                             assumptions=[L.BIH_STUB], bounds="degree %d, knots %s, fixed poles but one coordinate of any one" % (deg, kn)))
                J.append(Job("hull:%d:%d:%d" % (deg, k, r), hull, dict(deg=deg, knots=k, rational=r), bounds=bd,
                             assumptions=[L.BIH_STUB], qt=10000, weight=4))
            J.append(Job("weights:%d:%d" % (deg, k), equal_weights, dict(deg=deg, knots=k), bounds=bd))
            J.append(Job("ends:%d:%d" % (deg, k), ends, dict(deg=deg, knots=k), bounds=bd))
    for deg, n in ((1, 2), (2, 2), (2, 3), (3, 2)):
        J.append(Job("value_sym:%d:%d" % (deg, n), value, dict(deg=deg, knots=("sym", n), dim=1, rational=0),
                     bounds="degree %d, any %d interval lengths, any poles and parameter" % (deg, n)))
    J.append(Job("arc", arc, bounds="any parameter"))
    return J
