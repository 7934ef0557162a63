"""C16: derivatives of basis functions are the derivatives of the values, in generic and optimised form."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 4; more than 4 knot intervals; derivatives at inner knots of multiplicity equal to the degree (one-sided)."


def diff(e, deg, knots):
    b = L.make_basis(e, deg, knots)
    bp = L.breakpoints(b)
    k = e.choice("interval", range(len(bp) - 1))
    lo, hi = bp[k], bp[k + 1]
    t = L.param(e, b, "t", lo, hi)
    e.assume((t < hi) if k < len(bp) - 2 else (t <= hi))
    tot = e.lit(0)
    ds = []
    for i in range(b.size):
        P = L.Piece(e, lambda x: b.eval(i, x), lo, hi, deg, "x%d" % i)
        d = b.eval_diff(i, t)
        e.near(d, P.diff(t), "derivative of a basis function differs from the slope of its values", tol=1e-5)
        tot = tot + d
        ds.append(d)
    e.near(tot, 0, "derivatives of the basis do not sum to zero")
    j = b.find_knot_interval(t)
    v = b.eval_diff_vector(j, t)
    e.check(len(v) == deg + 1, "length of the local vector")
    for i in range(deg + 1):
        e.near(v[i], ds[j + i], "local derivative vector differs from the derivatives of the functions")
    for i in range(b.size):
        if not j <= i <= j + deg:
            e.near(ds[i], 0, "nonzero derivative outside of the local vector")
    if hasattr(b, "eval_diff_base_vector"):
        w = b.eval_diff_base_vector(j, t)
        for i in range(deg + 1):
            e.near(w[i], v[i], "optimised derivative vector differs from the generic one")
    e.observe("d", ds[0])


def jobs():
    J = []
    for deg, vs in L.KNOTS.items():
        for k, kn in enumerate(vs):
            J.append(Job("diff:%d:%d" % (deg, k), diff, dict(deg=deg, knots=k),
                         bounds="degree %d, knots %s, any parameter" % (deg, kn)))
    for deg, n in ((1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (3, 3), (4, 2)):
        J.append(Job("diff_sym:%d:%d" % (deg, n), diff, dict(deg=deg, knots=("sym", n)), qt=10000,
                     tier="quick" if (deg, n) not in ((2, 4), (3, 3), (4, 2)) else "thorough",
                     bounds="degree %d, any %d interval lengths in [0.1, 3], any parameter" % (deg, n)))
    return J
