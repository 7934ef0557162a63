"""C14: basis functions: non-negative, zero off their support, sum to one, polynomials of the degree between knots, continuous."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 4; more than 4 knot intervals; knot vectors without free ends (rejected by the constructor)."


def values(e, deg, knots):
    b = L.make_basis(e, deg, knots)
    t = L.param(e, b)
    v = [b.eval(i, t) for i in range(b.size)]
    s = v[0]
    for x in v[1:]:
        s = s + x
    e.near(s, 1, "basis functions do not sum to one")
    for i, x in enumerate(v):
        e.leq(0, x, "negative basis function")
        e.leq(x, 1, "basis function above one")
        lo, hi = b.fn_supp(i)
        e.check(lo == b.knots[i], "support does not start at its knot")
        e.check(hi == b.knots[i + deg + 1], "support does not end at its knot")
        if bool(t < lo) or bool(t > hi):
            e.near(x, 0, "basis function nonzero outside of its support")
    a, c = L.bounds(b)
    e.near(b.eval(0, a), 1, "first basis function is not one at the start of the domain")
    e.near(b.eval(b.size - 1, c), 1, "last basis function is not one at the end of the domain")
    e.check(len(v) == len(b.knots) - deg - 1, "number of basis functions")
    e.observe("v0", v[0])
    e.observe("vn", v[-1])


def pieces(e, deg, knots):
    """Polynomial pieces of every function join continuously at the knots and the ends (deg - multiplicity derivatives)."""
    b = L.make_basis(e, deg, knots)
    bp = L.breakpoints(b)
    P = [[L.Piece(e, lambda t, i=i: b.eval(i, t), x, y, deg, "x%d_%d" % (k, i)) for i in range(b.size)]
         for k, (x, y) in enumerate(zip(bp, bp[1:]))]
    for i in range(b.size):
        for k in range(1, len(bp) - 1):
            m = sum(1 for q in b.knots if bool(q == bp[k]))
            v = b.eval(i, bp[k])
            if m <= deg:
                e.near(P[k - 1][i].value(bp[k]), v, "basis function jumps at a knot")
            e.near(P[k][i].value(bp[k]), v, "basis function is not continuous from the right")
            if m < deg:
                e.near(P[k - 1][i].diff(bp[k]), P[k][i].diff(bp[k]), "basis function is not smooth at a simple knot", tol=1e-5)
        e.near(P[0][i].value(bp[0]), b.eval(i, bp[0]), "value at the start of the domain")
        e.near(P[-1][i].value(bp[-1]), b.eval(i, bp[-1]), "value at the end of the domain")


def jobs():
    J = []
    for deg, vs in L.KNOTS.items():
        for k, kn in enumerate(vs):
            J.append(Job("values:%d:%d" % (deg, k), values, dict(deg=deg, knots=k),
                         bounds="degree %d, knots %s, any parameter" % (deg, kn)))
            J.append(Job("pieces:%d:%d" % (deg, k), pieces, dict(deg=deg, knots=k),
                         bounds="degree %d, knots %s" % (deg, kn)))
    for deg, n in ((0, 3), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (3, 3), (4, 1), (4, 2)):
        q = "quick" if (deg, n) not in ((2, 4), (3, 3), (4, 1), (4, 2)) else "thorough"
        J.append(Job("values_sym:%d:%d" % (deg, n), values, dict(deg=deg, knots=("sym", n)), tier=q, qt=10000,
                     bounds="degree %d, any %d interval lengths in [0.1, 3], any parameter" % (deg, n)))
        J.append(Job("pieces_sym:%d:%d" % (deg, n), pieces, dict(deg=deg, knots=("sym", n)), tier=q, qt=10000,
                     bounds="degree %d, any %d interval lengths in [0.1, 3]" % (deg, n)))
    return J
