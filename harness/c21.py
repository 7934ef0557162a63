"""C21: GridSurface: grid detection, regularity check, evaluation, transforms, box."""
import numpy

from symx.runner import Job
from harness import bslib as L
from harness import c20

OUTSIDE = "Grids larger than 4 x 4; deviations of grid points between 1e-8 and 0.01 (neighbourhood of the tolerance); degenerate grids."
UV = [(0, 1), (0, 0), (1, 0), (1, 1)]
FIXED = [[["1", "2"], ["0.7", "-0.2"], ["0.1", "1.5"]], [[0, 0], [1, 0], [0, 1]], [["-1", "3"], ["0", "2"], ["-1", "0.5"]]]


def frame(e, kind):
    """corner, u step, v step"""
    if kind != "sym":
        return [[e.lit(x) for x in p] for p in FIXED[kind]]
    o = [e.real("o%d" % k, -5, 5) for k in (0, 1)]
    a, b = e.real("a", "0.5", 3), e.real("b", "-0.9", "0.9")
    # any shear and any step along U with the other one fixed, in both orientations
    du, dv = [a, a * b], [e.lit("-0.3"), e.lit(1) * e.choice("orientation", [1, -1])]
    return o, du, dv


def grid(e, fr, nu, nv, sym=True):
    o, du, dv = fr
    P = []
    for i in range(nu):
        for j in range(nv):
            z = e.real("z%d_%d" % (i, j), -4, 4) if sym else e.lit((3 * i * i + 5 * j) % 7 - 2)
            P.append([o[k] + i * du[k] + j * dv[k] for k in (0, 1)] + [z])
    return P


def make(e, nu, nv, kind, sym=True):
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    fr = frame(e, kind)
    P = grid(e, fr, nu, nv, sym)
    return B, fr, P, B.GridSurface(e.arr(P))


def detect(e, nu, nv, kind):
    B, (o, du, dv), P, g = make(e, nu, nv, kind)
    e.check(tuple(g.shape) == (nu, nv), "shape of the grid")
    for i, (a, b) in enumerate(UV):
        for k in (0, 1):
            e.near(g.quad[i][k], o[k] + a * (nu - 1) * du[k] + b * (nv - 1) * dv[k], "envelope of the grid")
    for i in range(nu):
        for j in range(nv):
            r = [e.lit(i) / (nu - 1), e.lit(j) / (nv - 1), P[i * nv + j][2]]
            for k in range(3):
                e.near(g.grid_uvz[i][j][k], r[k], "grid points in the unit square")


def values(e, nu, nv, kind):
    """bilinear interpolation of the grid, the same for all ways of evaluation"""
    B, (o, du, dv), P, g = make(e, nu, nv, kind)
    u, v = e.real("u", 0, 1), e.real("v", 0, 1)
    uv = e.arr([[u, v], [e.lit(1), e.lit(0)]])
    z = bilinear(e, P, nu, nv, u, v)
    xyz = [o[k] + u * (nu - 1) * du[k] + v * (nv - 1) * dv[k] for k in (0, 1)] + [z]
    evals(e, g, uv, u, v, xyz, P[(nu - 1) * nv][2], "grid")
    e.observe("z", g.z_eval_array(uv)[0])


def bilinear(e, P, nu, nv, u, v):
    s, t = u * (nu - 1), v * (nv - 1)
    i = 0
    while i < nu - 2 and bool(s >= i + 1):
        i += 1
    j = 0
    while j < nv - 2 and bool(t >= j + 1):
        j += 1
    s, t = s - i, t - j
    Z = [[P[(i + a) * nv + j + b][2] for b in (0, 1)] for a in (0, 1)]
    return (Z[0][0] * (1 - s) + Z[1][0] * s) * (1 - t) + (Z[0][1] * (1 - s) + Z[1][1] * s) * t


def evals(e, g, uv, u, v, xyz, z10, tag):
    za = g.z_eval_array(uv)
    p = g.eval_array(uv)
    m = g.uv_to_xy(uv)
    xy = e.arr([xyz[:2], m[1]])
    q = g.xy_to_uv(xy)
    zx = g.z_eval_xy_array(xy)
    e.check(len(za) == 2 and len(zx) == 2, tag + ": number of values")
    e.near(za[0], xyz[2], tag + ": z_eval_array is not the interpolation of the grid")
    e.near(za[1], z10, tag + ": z_eval_array in the corner")
    e.near(zx[0], xyz[2], tag + ": z_eval_xy_array is not the interpolation of the grid")
    for k in range(3):
        e.near(p[0][k], xyz[k], tag + ": eval_array")
    e.near(p[1][2], z10, tag + ": eval_array in the corner")
    for k in (0, 1):
        e.near(m[0][k], xyz[k], tag + ": uv_to_xy")
        e.near(q[0][k], (u, v)[k], tag + ": xy_to_uv")
    c = g.center()
    r = g.eval_array(e.arr([[e.lit("0.5")] * 2]))[0]
    for k in range(3):
        e.near(c[k], r[k], tag + ": center")


def transform(e, nu, nv, kind, what):
    B, (o, du, dv), P, g = make(e, nu, nv, kind)
    A = c20.matrix(e) if "x" in what else None
    Z = [e.real("zs", -3, 3), e.real("zt", -4, 4)] if "z" in what else None
    c0 = [e.lit(0) + x for x in g.center()]
    quad0 = [[e.lit(0) + x for x in q] for q in g.quad]
    if "2" in what:
        g.transform(e.arr([[2, 1, 3], [0, 1, -1]]), e.arr([3, -2]))
    g.transform(None if A is None else e.arr(A), None if Z is None else e.arr(Z))
    if "2" in what:
        A, Z = A or [[2, 1, 3], [0, 1, -1]], Z or [3, -2]
    for i in range(4):
        r = c20.moved(A, None, c0, quad0[i] + [0])
        for k in (0, 1):
            e.near(g.quad[i][k], r[k], "envelope of the transformed grid")
    u, v = e.real("u", 0, 1), e.real("v", 0, 1)
    p = [o[k] + u * (nu - 1) * du[k] + v * (nv - 1) * dv[k] for k in (0, 1)] + [bilinear(e, P, nu, nv, u, v)]
    evals(e, g, e.arr([[u, v], [e.lit(1), e.lit(0)]]), u, v, c20.moved(A, Z, c0, p),
          c20.moved(A, Z, c0, [0, 0, P[(nu - 1) * nv][2]])[2], "transformed grid")


def box(e, nu, nv, kind, z):
    B, (o, du, dv), P, g = make(e, nu, nv, kind, sym=False)
    c0 = [e.lit(0) + x for x in g.center()]
    Z = None
    if z:
        Z = [e.real("zs", -3, 3), e.real("zt", -4, 4)]
        g.transform(None, e.arr(Z))
    b = g.aabb()
    zs = [c20.moved(None, Z, c0, p)[2] for p in P]
    for k in range(3):
        vals = zs if k == 2 else [p[k] for p in P]
        for x in vals:
            e.leq(b[0][k], x, "box does not contain the surface")
            e.leq(x, b[1][k], "box does not contain the surface")
        e.check(any(e.iszero(b[0][k] - x, 10) for x in vals) and any(e.iszero(b[1][k] - x, 10) for x in vals), "box too large")


def irregular(e, nu, nv, kind):
    """a grid with one point, row or column moved is refused, whatever the direction"""
    L.stub_bih(e)
    B = e.mod("bgem.bspline.bspline")
    fr = frame(e, kind)
    P = grid(e, fr, nu, nv, sym=False)
    n = e.choice("point", range(nu * nv + nu + nv))
    # a point, a row or a column
    S = [n] if n < nu * nv else [i * nv + j for i in range(nu) for j in range(nv) if n - nu * nv in (i, nu + j)]
    k = e.choice("axis", (0, 1))
    d = e.real("d", "0.01", 5) * e.choice("sign", (1, -1))
    d2 = e.real("d2", -5, 5)
    for n in S:
        P[n] = [P[n][k] + d, P[n][1] + d2, P[n][2]] if k == 0 else [P[n][0] + d2, P[n][1] + d, P[n][2]]
    try:
        g = B.GridSurface(e.arr(P))
    except (B.GridNotInShapeExc, B.IrregularGridExc, numpy.linalg.LinAlgError):
        return
    # the moved point may still give another grid; then the positions must agree
    e.check(g.shape[0] * g.shape[1] == nu * nv, "number of points")
    for i in range(g.shape[0]):
        for j in range(g.shape[1]):
            r = g.uv_to_xy(e.arr([[e.lit(i) / (g.shape[0] - 1), e.lit(j) / (g.shape[1] - 1)]]))[0]
            for k in (0, 1):
                dd = r[k] - P[i * g.shape[1] + j][k]
                e.check((dd <= e.lit("1e-3")) & (dd >= e.lit("-1e-3")) if e.symbolic else abs(dd) <= 1.1e-3,
                        "an irregular grid was accepted")


def wrong(e):
    """sets of points that are not a grid"""
    B = e.mod("bgem.bspline.bspline")
    w = e.choice("what", ["one row", "incomplete", "no second row step"])
    o, du, dv = frame(e, "sym")
    P = [[o[k] + i * du[k] + j * dv[k] for k in (0, 1)] + [e.lit(i * j)] for i in range(3) for j in range(3)]
    if w == "one row":
        P = P[:3]
    elif w == "incomplete":
        P = P[:e.choice("n", [4, 5, 7, 8])]
    else:
        P = [[o[k] + (3 * i + j) * dv[k] for k in (0, 1)] + [e.lit(i * j)] for i in range(3) for j in range(3)]
    try:
        B.GridSurface(e.arr(P))
        ok = True
    except (B.GridNotInShapeExc, B.IrregularGridExc):
        ok = False
    e.check(not ok, "points that are not a grid were accepted")


def jobs():
    J = [Job("wrong", wrong, {}, bounds="point sets that are not a grid, any steps", qt=10000)]
    for n, (nu, nv) in enumerate(((2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4))):
        th = dict(tier="quick" if n < 3 else "thorough")
        bd = "%d x %d points, any Z" % (nu, nv)
        J.append(Job("detect:%d:%d" % (nu, nv), detect, dict(nu=nu, nv=nv, kind="sym"), bounds=bd + ", any steps", **th))
        for kind in ("sym", 0, 1, 2):
            a = dict(nu=nu, nv=nv, kind=kind)
            J.append(Job("values:%s:%d:%d" % (kind, nu, nv), values, a, bounds=bd + ", any parameters", **th))
            for w in ("x", "z", "xz", "2xz", "2x", "2z"):
                if kind != "sym" or "x" not in w:
                    J.append(Job("transform:%s:%s:%d:%d" % (w, kind, nu, nv), transform, dict(a, what=w),
                                 tier="quick" if n in (1, 2) and kind == 0 and w in ("xz", "z", "2x", "2z") else "thorough",
                                 bounds=bd + ", any matrix, shift, scale, parameters"))
            if kind != "sym":
                for z in (0, 1):
                    J.append(Job("box:%d:%s:%d:%d" % (z, kind, nu, nv), box, dict(a, z=z), bounds=bd, **th))
                J.append(Job("irregular:%s:%d:%d" % (kind, nu, nv), irregular, a, bounds="one point, row or column moved by 0.01 to 5 in one axis and anyhow in the other",
                             tier="quick" if kind < 1 and n < 4 else "thorough"))
    return J
