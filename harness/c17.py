"""C17: knot vectors: equidistant, packed and unpacked; linear poles reproduce the parameter."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 4; more than 5 intervals."


def equidistant(e, deg, n, integer):
    B = e.mod("bgem.bspline.bspline")
    if integer:
        lo = e.choice("lo", [0, -1, 3])
        hi = lo + e.choice("size", [1, 2, 7])
        b = B.SplineBasis.make_equidistant(deg, n, [lo, hi])
    elif integer is None:
        lo, hi = 0, 1
        b = B.SplineBasis.make_equidistant(deg, n)
    else:
        lo = e.real("lo", -5, 5)
        hi = lo + e.real("size", "0.1", 10)
        b = B.SplineBasis.make_equidistant(deg, n, [lo, hi])
    e.check(b.degree == deg, "degree")
    e.check(b.size == n + deg, "number of basis functions")
    e.check(b.n_intervals == n, "number of intervals")
    e.check(len(b.knots) == n + 2 * deg + 1, "number of knots")
    for i in range(deg + 1):
        e.near(b.knots[i], lo, "leading knots")
        e.near(b.knots[-1 - i], hi, "trailing knots")
    h = (hi - lo) / n if not e.symbolic else e.core.lift(hi - lo) / n
    for i in range(n + 1):
        e.near(b.knots[deg + i], lo + i * h, "inner knots are not equidistant")
    e.near(b.domain[0], lo, "domain")
    e.near(b.domain[1], hi, "domain")
    e.near(b.domain_size, hi - lo, "size of the domain")
    for i in range(n):
        x, y = b.knot_interval_bounds(i)
        e.near(x, lo + i * h, "bounds of a knot interval")
        e.near(y, lo + (i + 1) * h, "bounds of a knot interval")


def linear(e, deg, knots):
    B = e.mod("bgem.bspline.bspline")
    b = L.make_basis(e, deg, knots)
    p = b.make_linear_poles()
    e.check(len(p) == b.size, "number of poles")
    c = B.Curve(b, e.arr([[x] for x in p]))
    t = L.param(e, b)
    e.near(c.eval(t)[0], t, "linear poles do not reproduce the parameter")
    a, z = L.bounds(b)
    e.near(p[0], a, "first linear pole")
    e.near(p[-1], z, "last linear pole")
    e.observe("p", p[-1])


def pack(e, deg, n, sym):
    """unpack(pack) and pack(unpack) are identities; packed knots are distinct and increasing."""
    B = e.mod("bgem.bspline.bspline")
    mults = [deg + 1] + [e.choice("m%d" % i, range(1, max(deg, 1) + 1)) for i in range(n - 1)] + [deg + 1]
    x = e.real("x", -3, 3) if sym else e.lit(-1)
    packed = []
    for i, m in enumerate(mults):
        packed.append((x, m))
        x = x + (e.real("h%d" % i, "0.1", 2) if sym else e.lit(i + 1))
    b = B.SplineBasis.make_from_packed_knots(deg, packed)
    full = [k for k, m in packed for _ in range(m)]
    e.check(len(b.knots) == len(full), "number of knots")
    for p, q in zip(b.knots, full):
        e.near(p, q, "unpacked knots")
    e.check(b.size == len(full) - deg - 1, "number of basis functions")
    r = b.pack_knots()
    e.check([m for k, m in r] == mults, "multiplicities of packed knots")
    for (p, m), (q, m2) in zip(r, packed):
        e.near(p, q, "packed knots")
    b2 = B.SplineBasis.make_from_packed_knots(deg, r)
    for p, q in zip(b.knots, b2.knots):
        e.near(p, q, "pack and unpack")


def free_ends(e, deg):
    """The constructor accepts exactly knot vectors with free ends."""
    B = e.mod("bgem.bspline.bspline")
    k = e.choice("where", range(2 * deg + 1))
    kn = [e.lit(0)] * (deg + 1) + [e.lit(1), e.lit(2)] + [e.lit(3)] * (deg + 1)
    if k < deg:
        for i in range(k + 1):
            kn[i] = -e.real("d", "0.1", 1)
    elif k < 2 * deg:
        for i in range(k - deg + 1):
            kn[-1 - i] = 3 + e.real("d", "0.1", 1)
    try:
        B.SplineBasis(deg, e.arr(kn))
        ok = True
    except AssertionError:
        ok = False
    e.check(ok == (k == 2 * deg), "free ends of the knot vector are not checked")


def jobs():
    J = []
    for deg in (0, 1, 2, 3, 4):
        for n in (1, 2, 3, 5):
            J.append(Job("equidistant:%d:%d" % (deg, n), equidistant, dict(deg=deg, n=n, integer=False),
                         bounds="degree %d, %d intervals, any real range" % (deg, n)))
        J.append(Job("equidistant_int:%d" % deg, equidistant, dict(deg=deg, n=4, integer=True), symchoice=True,
                     bounds="degree %d, 4 intervals, integer ranges" % deg))
        J.append(Job("equidistant_default:%d" % deg, equidistant, dict(deg=deg, n=3, integer=None), bounds="unit range"))
        for n in (1, 2, 3):
            J.append(Job("pack:%d:%d" % (deg, n), pack, dict(deg=deg, n=n, sym=True), symchoice=True,
                         bounds="degree %d, %d intervals of any lengths, any multiplicities of inner knots" % (deg, n)))
        if deg:
            for k, kn in enumerate(L.KNOTS[deg]):
                J.append(Job("linear:%d:%d" % (deg, k), linear, dict(deg=deg, knots=k),
                             bounds="degree %d, knots %s, any parameter" % (deg, kn)))
            J.append(Job("free_ends:%d" % deg, free_ends, dict(deg=deg), symchoice=True, bounds="one broken end knot"))
    for deg, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)):
        J.append(Job("linear_sym:%d:%d" % (deg, n), linear, dict(deg=deg, knots=("sym", n)), qt=10000,
                     tier="quick" if (deg, n) not in ((3, 3), (4, 1), (4, 2)) else "thorough",
                     bounds="degree %d, any %d interval lengths in [0.1, 3], any parameter" % (deg, n)))
    return J
