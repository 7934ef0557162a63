"""C19: surface evaluation, boxes and patch numbering."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Degrees above 3; more than 3 knot intervals per direction; weights that are not positive."


def surf(e, ku, kv, dim, rational, P=None, w=None, form="array"):
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    bu, bv = L.make_basis(e, *ku, tag="k"), L.make_basis(e, *kv, tag="l")
    if P is None:
        P = [[[e.real("p%d_%d_%d" % (i, j, k), -4, 4) for k in range(dim)] for j in range(bv.size)] for i in range(bu.size)]
    if rational and w is None:
        w = [[e.real("w%d_%d" % (i, j), "0.1", 8) for j in range(bv.size)] for i in range(bu.size)]
    rows = [[p + [w[i][j]] if rational else p for j, p in enumerate(r)] for i, r in enumerate(P)]
    if form == "raw":
        s = B.Surface.make_raw(e.arr(rows), (bu.knots, bv.knots), bool(rational), (ku[0], kv[0]))
        return B, s.u_basis, s.v_basis, P, w, s
    return B, bu, bv, P, w, B.Surface((bu, bv), e.arr(rows) if form == "array" else rows, bool(rational))


def value(e, ku, kv, dim, rational):
    B, bu, bv, P, w, s = surf(e, ku, kv, dim, rational, form=e.choice("form", ["array", "list", "raw"]))
    e.check(s.dim == dim, "dimension")
    e.check(s.u_basis is bu and s.v_basis is bv, "bases")
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    Bu, Bv = [bu.eval(i, u) for i in range(bu.size)], [bv.eval(i, v) for i in range(bv.size)]
    x = s.eval(u, v)
    e.check(len(x) == dim, "dimension of the value")
    f = [[Bu[i] * Bv[j] * (w[i][j] if rational else 1) for j in range(bv.size)] for i in range(bu.size)]
    den = e.lit(0)
    for r in f:
        for q in r:
            den = den + q
    c = s.deep_copy()
    c.poles += 1
    e.check(c.rational == s.rational, "copy of a rational surface")
    y = s.eval_array(e.arr([[u, v], [bu.domain[1], bv.domain[0]]]))
    z = s.eval_local(u, v, bu.find_knot_interval(u), bv.find_knot_interval(v))
    for k in range(dim):
        t = e.lit(0)
        for i in range(bu.size):
            for j in range(bv.size):
                t = t + f[i][j] * P[i][j][k]
        e.near(x[k] * den if rational else x[k], t, "value is not the combination of the poles")
        e.near(y[0][k], x[k], "eval_array")
        e.near(z[k], x[k], "eval_local")
        e.near(y[1][k], P[-1][0][k], "corner of the surface")
        for a, b_, p in ((0, 0, P[0][0]), (0, 1, P[0][-1]), (1, 1, P[-1][-1])):
            e.near(s.eval(bu.domain[a], bv.domain[b_])[k], p[k], "corner of the surface")
    e.observe("x", x[0])


def hull(e, ku, kv, rational):
    """any point stays in the box of all poles and in the box of its patch; the tree finds the patch"""
    bu, bv = L.make_basis(e, *ku), L.make_basis(e, *kv)
    P = [[[e.lit((7 * i * i + 3 * j) % 11 - 3), e.lit((-1) ** (i + j) * (4 - i + j)), e.lit(i * j - 3 * j)]
          for j in range(bv.size)] for i in range(bu.size)]
    w = [[e.lit(1 + (5 * i + 2 * j) % 7) for j in range(bv.size)] for i in range(bu.size)]
    B, bu, bv, P, w, s = surf(e, ku, kv, 3, rational, P, w)
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    x = s.eval(u, v)
    box = s.aabb()
    e.check(tuple(box.shape) == (2, 3), "shape of the box")
    iu, iv = bu.find_knot_interval(u), bv.find_knot_interval(v)
    n = s.patch_pos2id(iu, iv)
    loc = s.boxes[n]
    if e.symbolic:
        e.check(n in s.tree.find_point(list(x)), "patch not found in the tree of boxes")
    for k in range(3):
        for lo, hi, what in ((box[0][k], box[1][k], "bounding box"), (loc.min()[k], loc.max()[k], "box of its patch")):
            e.leq(lo, x[k], "surface leaves the " + what)
            e.leq(x[k], hi, "surface leaves the " + what)


def boxes(e, ku, kv, rational):
    """boxes are exactly those of the poles that act on the patch (one pole moves); patch numbers are a bijection"""
    bu, bv = L.make_basis(e, *ku), L.make_basis(e, *kv)
    P = [[[e.lit((7 * i * i + 3 * j) % 11 - 3), e.lit((-1) ** (i + j) * (4 - i + j)), e.lit(i * j - 3 * j)]
          for j in range(bv.size)] for i in range(bu.size)]
    P[e.choice("i", range(bu.size))][e.choice("j", range(bv.size))][e.choice("axis", range(3))] = e.real("z", -20, 20)
    w = [[e.lit(1 + (5 * i + 2 * j) % 7) for j in range(bv.size)] for i in range(bu.size)]
    B, bu, bv, P, w, s = surf(e, ku, kv, 3, rational, P, w)
    nu, nv = bu.n_intervals, bv.n_intervals
    e.check(len(s.boxes) == nu * nv, "number of boxes")
    seen = set()
    bx = s.aabb()
    for iu in range(nu):
        for iv in range(nv):
            n = s.patch_pos2id(iu, iv)
            e.check(n not in seen and 0 <= n < nu * nv, "patch number")
            seen.add(n)
            e.check(tuple(s.patch_id2pos(n)) == (iu, iv), "patch position from its number")
            pts = [P[i][j] for i in range(iu, iu + bu.degree + 1) for j in range(iv, iv + bv.degree + 1)]
            exact(e, pts, s.boxes[n].min(), s.boxes[n].max())
    exact(e, [p for r in P for p in r], bx[0], bx[1])


def exact(e, pts, lo, hi):
    e.check(len(lo) == 3, "dimension of the box")
    for k in range(3):
        for p in pts:
            e.check(lo[k] <= p[k], "pole out of the box")
            e.check(hi[k] >= p[k], "pole out of the box")
        e.check(any(bool(lo[k] == p[k]) for p in pts), "box larger than the poles")
        e.check(any(bool(hi[k] == p[k]) for p in pts), "box larger than the poles")


def iso(e, ku, kv):
    """an isoparametric line is the curve of the combined poles; a surface with transposed poles swaps parameters"""
    B, bu, bv, P, w, s = surf(e, ku, kv, 1, 0)
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    rows = [B.Curve(bv, e.arr(r)).eval(v) for r in P]
    x = B.Curve(bu, e.arr(rows)).eval(u)
    t = B.Surface((bv, bu), e.arr([[P[i][j] for i in range(bu.size)] for j in range(bv.size)])).eval(v, u)
    y = s.eval(u, v)
    e.near(y[0], x[0], "isoparametric line")
    e.near(y[0], t[0], "swapped parameters")


def affine(e, ku, kv, rational):
    B, bu, bv, P, w, s = surf(e, ku, kv, 2, rational)
    A = [[e.real("a%d%d" % (i, j), -2, 2) for j in range(3)] for i in range(2)]
    f = lambda p: [A[0][0] * p[0] + A[0][1] * p[1] + A[0][2], A[1][0] * p[0] + A[1][1] * p[1] + A[1][2]]
    s2 = surf(e, ku, kv, 2, rational, [[f(p) for p in r] for r in P], w)[-1]
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    x, y = f(s.eval(u, v)), s2.eval(u, v)
    for k in (0, 1):
        e.near(y[k], x[k], "affine image of a surface")


def copies(e, ku, kv, rational):
    """a copy has equal values and is independent of the original"""
    B, bu, bv, P, w, s = surf(e, ku, kv, 1, rational)
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    c = s.deep_copy()
    a, b = s.eval(u, v), c.eval(u, v)
    e.check(len(a) == len(b), "dimension of the copy")
    e.near(a[0], b[0], "copy of a surface")
    c.poles += 1
    c.basis[0] = None
    e.near(s.eval(u, v)[0], a[0], "change of a copy changes the original")
    d = e.real("d", 0, "1e-14")
    e.near(s.eval(bu.domain[0] - d, bv.domain[1] + d)[0], P[0][-1][0], "clamped parameters")
    far = e.real("far", "1e-6", 3)
    for q in ((bu.domain[0] - far, v), (u, bv.domain[1] + far)):
        try:
            s.eval(*q)
        except IndexError:
            continue
        e.check(False, "evaluation out of the domain")


def jobs():
    J = []
    pairs = [((2, 0), (2, 0)), ((2, 1), (2, 2)), ((1, 2), (2, 1)), ((2, 3), (1, 2)), ((3, 1), (1, 0)), ((1, 0), (3, 0)), ((0, 1), (2, 1))]
    for n, (ku, kv) in enumerate(pairs):
        bd = "degrees %d, %d, knots %s, %s, any poles in [-4, 4] and parameters" % (
            ku[0], kv[0], L.KNOTS[ku[0]][ku[1]], L.KNOTS[kv[0]][kv[1]])
        for r in (0, 1):
            nm = ":%d:%d" % (n, r)
            a = dict(ku=ku, kv=kv, rational=r)
            J.append(Job("value" + nm, value, dict(a, dim=1 + n % 2 * (1 - r)), bounds=bd, weight=3))
            J.append(Job("hull" + nm, hull, a, qt=10000, bounds="as value, fixed poles", assumptions=[L.BIH_STUB], weight=3,
                         path_s=90,
                         budget=200, tier="quick" if n not in (1, 3) else "thorough"))
            J.append(Job("boxes" + nm, boxes, a, bounds="as value, fixed poles but one coordinate of any one", symchoice=False,
                         assumptions=[L.BIH_STUB], tier="quick" if n in (0, 2, 4, 5) else "thorough"))
            J.append(Job("affine" + nm, affine, a, bounds=bd, tier="quick" if n in (0, 2, 4) else "thorough"))
            J.append(Job("copies" + nm, copies, a, bounds=bd, tier="quick" if n in (0, 2) else "thorough"))
        J.append(Job("iso:%d" % n, iso, dict(ku=ku, kv=kv), bounds=bd))
    J.append(Job("value_sym", value, dict(ku=(2, ("sym", 1)), kv=(1, ("sym", 2)), dim=1, rational=0), bounds="any interval lengths"))
    return J
