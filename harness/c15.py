"""C15: parameter lookup: the knot interval contains the parameter, the local basis vectors are the nonzero functions there."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 3; more than 3 knot intervals."


def local(e, deg, knots):
    b = L.make_basis(e, deg, knots)
    t = L.param(e, b)
    a, c = L.bounds(b)
    i = b.find_knot_interval(t)
    e.check(0 <= i < b.n_intervals, "interval index out of range")
    lo, hi = b.knot_interval_bounds(i)
    e.check(lo <= t, "parameter before its knot interval")
    e.check((t < hi) | (t == c) if e.symbolic else (t < hi or t == c), "parameter behind its knot interval")
    e.check(lo < hi, "empty knot interval")
    v = b.eval_vector(i, t)
    e.check(len(v) == deg + 1, "length of the local vector")
    for k in range(b.size):
        if i <= k <= i + deg:
            e.near(v[k - i], b.eval(k, t), "local vector differs from the basis function")
        else:
            e.near(b.eval(k, t), 0, "nonzero basis function outside of the local vector")
    if hasattr(b, "eval_base_vector"):
        w = b.eval_base_vector(i, t)
        e.check(len(w) == deg + 1, "length of the local vector")
        for k in range(deg + 1):
            e.near(w[k], v[k], "optimised local vector differs from the generic one")
    e.check(b.in_domain(t), "parameter of the domain reported out of it")
    e.near(b.check(t), t, "a parameter of the domain was changed by check")
    e.observe("v", v[0])


def clamp(e, deg, knots):
    """check(): unchanged inside, moved to the end within the tolerance, IndexError outside."""
    b = L.make_basis(e, deg, knots)
    a, c = L.bounds(b)
    t = e.real("t", -40, 40)
    inside = bool(t >= a) and bool(t <= c)
    e.check(bool(b.in_domain(t)) == inside, "in_domain")
    far = bool(t < a - e.lit("1e-8")) or bool(t > c + e.lit("1e-8"))
    near = bool(t > a - e.lit("1e-14")) and bool(t < c + e.lit("1e-14"))
    try:
        r = b.check(t)
    except IndexError:
        e.check(not inside, "check refuses a parameter of the domain")
        e.check(not near, "check refuses a rounding error at the end of the domain")
        return
    e.check(not far, "check accepts a parameter out of the domain")
    if inside:
        e.near(r, t, "check changes a parameter of the domain")
    e.check(r >= a, "checked parameter below the domain")
    e.check(r <= c, "checked parameter above the domain")
    e.leq(abs(r - t), e.lit("1e-8"), "check moves a parameter too far")


def jobs():
    J = []
    for deg, vs in L.KNOTS.items():
        for k, kn in enumerate(vs):
            J.append(Job("local:%d:%d" % (deg, k), local, dict(deg=deg, knots=k),
                         bounds="degree %d, knots %s, any parameter" % (deg, kn)))
            J.append(Job("clamp:%d:%d" % (deg, k), clamp, dict(deg=deg, knots=k),
                         bounds="degree %d, knots %s, any parameter in [-40, 40]" % (deg, kn)))
    for deg, n in ((0, 3), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (3, 3)):
        q = "quick" if (deg, n) not in ((2, 4), (3, 3)) else "thorough"
        J.append(Job("local_sym:%d:%d" % (deg, n), local, dict(deg=deg, knots=("sym", n)), qt=10000, tier=q,
                     bounds="degree %d, any %d interval lengths in [0.1, 3], any parameter" % (deg, n)))
        J.append(Job("clamp_sym:%d:%d" % (deg, n), clamp, dict(deg=deg, knots=("sym", n)), qt=10000, tier=q,
                     bounds="degree %d, any %d interval lengths in [0.1, 3], any parameter" % (deg, n)))
    return J
