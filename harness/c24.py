"""C24: convex hull of the points and the smallest rectangle around it (default quad of the approximation)."""
from symx.runner import Job
from harness import bslib as L
from harness import c22

OUTSIDE = "More than 6 points; collinear sets; two coinciding points."
SETS = [[(0, 0), (4, 1), (1, 3)], [(0, 0), (0, 2), (3, 0)], [(-2, 1), (1, -2), (2, 2)], [(0, 0), (0, 3), (0, 1), (4, 0)],
        [(1, 1), (-1, 1), (-1, -1), (1, -1)], [(2, 0), (0, "1.5"), (-2, 0), ("0.5", -2)], [(0, 0), (2, 0), (4, 0), (1, 2), (1, 1)]]


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sample(e, s, nsym):
    P = [[e.lit(x) for x in p] for p in SETS[s]]
    for i in range(nsym):
        q = [e.real("x%d" % i, -4, 5), e.real("y%d" % i, -4, 5)]
        for p in P:
            d = [abs(q[k] - p[k]) >= e.lit("1e-3") for k in (0, 1)]
            e.assume((d[0] | d[1]) if e.symbolic else (d[0] or d[1]))
        P.append(q)
    k = e.choice("rotation", range(len(P)))
    return P[k:] + P[:k]


def hull(e, s, nsym):
    A = c22.approx(e)
    P = sample(e, s, nsym)
    H = A.convex_hull_2d(e.arr(P))
    H = [[x for x in h] for h in H]
    e.check(len(H) >= 4, "number of hull points")
    for k in (0, 1):
        e.near(H[0][k], H[-1][k], "hull is not closed")
    H = H[:-1]
    idx = []
    for h in H:
        m = [i for i, p in enumerate(P) if e.iszero(h[0] - p[0]) and e.iszero(h[1] - p[1])]
        e.check(len(m) == 1, "hull point is not one of the points")
        idx.append(m[0])
    e.check(len(set(idx)) == len(idx), "repeated hull point")
    # same turn everywhere, all points on the one side of each edge
    a = cross(H[0], H[1], H[2])
    sg = 1 if bool(a > 0) else -1
    for i in range(len(H)):
        h, t = H[i], H[(i + 1) % len(H)]
        c = sg * cross(h, t, H[(i + 2) % len(H)])
        e.leq(0, c, "hull is not convex", tol=1e-9)
        for p in P:
            e.leq(0, sg * cross(h, t, p), "point outside of the hull", tol=1e-9)


def rect(e, s, nsym):
    A = c22.approx(e)
    P = [[e.lit(x) for x in p] for p in SETS[s]]
    if nsym:
        # move the last point, the polygon stays convex
        q = [P[-1][0] + e.real("x", "-0.4", "0.4"), P[-1][1] + e.real("y", "-0.4", "0.4")]
        P[-1] = q
    n = len(P)
    R = A.min_bounding_rect(e.arr(P + P[:1]))
    R = [[x for x in r] for r in R]
    u = [R[2][k] - R[1][k] for k in (0, 1)]
    v = [R[0][k] - R[1][k] for k in (0, 1)]
    e.near(u[0] * v[0] + u[1] * v[1], 0, "not a rectangle")
    for k in (0, 1):
        e.near(R[3][k], R[2][k] + v[k], "not a parallelogram")
    d = u[0] * v[1] - u[1] * v[0]
    e.check(d > 0, "rectangle is not oriented counter-clockwise")
    for p in P:
        w = [p[k] - R[1][k] for k in (0, 1)]
        for a in (u, v):
            t = w[0] * a[0] + w[1] * a[1]
            e.leq(0, t, "point outside of the rectangle")
            e.leq(t, a[0] * a[0] + a[1] * a[1], "point outside of the rectangle")
    # area over all edges
    for i in range(n):
        h, t = P[i], P[(i + 1) % n]
        x, y = t[0] - h[0], t[1] - h[1]
        a = [x * p[0] + y * p[1] for p in P]
        b = [x * p[1] - y * p[0] for p in P]
        q = x * x + y * y
        ext = [None, None]
        for k, c in enumerate((a, b)):
            lo, hi = c[0], c[0]
            for z in c[1:]:
                lo = z if bool(z < lo) else lo
                hi = z if bool(z > hi) else hi
            ext[k] = hi - lo
        e.leq(d * q, ext[0] * ext[1], "not the smallest rectangle", tol=1e-6)
    e.observe("area", d)


def default_quad(e, s):
    """all points are inside of the default quad"""
    A = c22.approx(e)
    P = [[e.lit(x) for x in p] for p in SETS[s]]
    q = [e.real("x", -3, 3), e.real("y", -3, 3)]
    a = A.SurfaceApprox(e.arr([p + [e.lit(0)] for p in P + [q]]))
    Q = a.compute_default_quad()
    e.check(tuple(Q.shape) == (4, 2) and a.quad is Q, "default quad")
    u = [Q[2][k] - Q[1][k] for k in (0, 1)]
    v = [Q[0][k] - Q[1][k] for k in (0, 1)]
    for p in P + [q]:
        w = [p[k] - Q[1][k] for k in (0, 1)]
        for b in (u, v):
            t = w[0] * b[0] + w[1] * b[1]
            e.leq(0, t, "point outside of the default quad")
            e.leq(t, b[0] * b[0] + b[1] * b[1], "point outside of the default quad")


def jobs():
    J = []
    for s, pts in enumerate(SETS):
        for n in (1, 2, 3):
            if len(pts) + n <= 6:
                J.append(Job("hull:%d:%d" % (s, n), hull, dict(s=s, nsym=n), tier="quick" if n == 1 else "thorough", budget=300,
                             bounds="points %s and %d anywhere in [-4, 5]^2, any rotation of the list" % (pts, n)))
    for s in (0, 1, 2, 4, 5):
        for n in (0, 1):
            J.append(Job("rect:%d:%d" % (s, n), rect, dict(s=s, nsym=n), bounds="hull %s, last point moved by up to 0.4" % SETS[s]))
        J.append(Job("quad:%d" % s, default_quad, dict(s=s), tier="thorough", bounds="points %s and any one in [-3, 3]^2" % SETS[s]))
    return J
