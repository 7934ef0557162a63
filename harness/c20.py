"""C20: Z_Surface: XY map, evaluation in all forms, transforms, copies, box."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = ("Rational Z surfaces; parameter domains other than the unit square; four-point quads within 5e-4 of a parallelogram "
           "but not equal to one; xy_to_uv of a bilinear quad (not implemented in the code).")
UV = [(0, 1), (0, 0), (1, 0), (1, 1)]


def zpoles(e, bu, bv, sym=True):
    return [[[e.real("z%d_%d" % (i, j), -4, 4) if sym else e.lit((3 * i * i + 5 * j) % 7 - 2)] for j in range(bv.size)]
            for i in range(bu.size)]


def make(e, ku, kv, quad, sym=True):
    """quad: 'par3', 'par4' (any parallelogram by three or four points), 'bil' (any fourth corner at least 5e-4 off), 'unit'"""
    bu, bv = L.make_basis(e, *ku), L.make_basis(e, *kv)
    B = e.mod("bgem.bspline.bspline")
    if quad == "unit":
        Q = [[e.lit(a), e.lit(b)] for a, b in UV]
    elif quad == "fixed":
        Q = [[e.lit(a), e.lit(b)] for a, b in ((1, "3.5"), (1, 2), (2, "2.2"), (2, "3.7"))]
    else:
        Q = [[e.real("q%d%d" % (i, k), -3, 3) for k in (0, 1)] for i in range(3)]
        d = (Q[2][0] - Q[1][0]) * (Q[0][1] - Q[1][1]) - (Q[2][1] - Q[1][1]) * (Q[0][0] - Q[1][0])
        e.assume((d >= e.lit("0.1")) if e.choice("orientation", [1, -1]) > 0 else (d <= e.lit("-0.1")))
        Q.append([Q[0][k] + Q[2][k] - Q[1][k] for k in (0, 1)])
        if quad == "bil":
            Q[3] = [Q[3][0] + e.real("b0", "0.0005", 2), Q[3][1] + e.real("b1", -1, 1)]
    P = zpoles(e, bu, bv, sym)
    s = B.Z_Surface(e.arr(Q[:3] if quad == "par3" else Q), B.Surface((bu, bv), e.arr(P)))
    return B, bu, bv, Q, P, s


def xy_of(e, Q, u, v):
    """bilinear interpolation of the quad"""
    w = [(1 - u) * v, (1 - u) * (1 - v), u * (1 - v), u * v]
    return [L.dot(w, [q[k] for q in Q]) for k in (0, 1)]


def all_evals(e, s, u, v, ref, linear, tag):
    """every way to evaluate gives ref = (x, y, z)"""
    uv = e.arr([[u, v], [e.lit("0.5"), e.lit("0.5")]])
    xy = e.arr([ref[:2], [e.lit(0) + x for x in s.center()[:2]]])
    full = s.make_full_surface().eval(u, v)
    outs = [("eval", s.eval(u, v)), ("eval_array", s.eval_array(uv)[0]), ("full surface", full)]
    if linear:
        outs.append(("eval_xy_array", s.eval_xy_array(xy)[0]))
        e.near(s.z_eval_xy_array(xy)[0], ref[2], tag + ": z_eval_xy_array")
        q = s.xy_to_uv(xy)
        e.near(q[0][0], u, tag + ": xy_to_uv is not the inverse of uv_to_xy")
        e.near(q[0][1], v, tag + ": xy_to_uv is not the inverse of uv_to_xy")
        e.near(q[1][0], e.lit("0.5"), tag + ": xy_to_uv of the center")
    for what, p in outs:
        e.check(len(p) == 3, tag + ": dimension")
        for k in range(3):
            e.near(p[k], ref[k], "%s: %s, coordinate %d" % (tag, what, k))
    z = s.z_eval_array(uv)
    e.check(len(z) == 2, tag + ": number of values")
    e.near(z[0], ref[2], tag + ": z_eval_array")
    m = s.uv_to_xy(uv)
    for k in (0, 1):
        e.near(m[0][k], ref[k], tag + ": uv_to_xy")
    c = s.center()
    r = s.eval(e.lit("0.5"), e.lit("0.5"))
    for k in range(3):
        e.near(c[k], r[k], tag + ": center")


def plain(e, ku, kv, quad):
    B, bu, bv, Q, P, s = make(e, ku, kv, quad)
    e.check(s.dim == 3, "dimension")
    for i, uv in enumerate(UV):
        p = s.uv_to_xy(e.arr([[e.lit(x) for x in uv]]))[0]
        for k in (0, 1):
            e.near(p[k], Q[i][k], "corners of the quad")
            e.near(s.quad[i][k], Q[i][k], "quad")
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    z = B.Surface((bu, bv), e.arr(P)).eval(u, v)[0]
    all_evals(e, s, u, v, xy_of(e, Q, u, v) + [z], quad != "bil", "untransformed")
    e.observe("z", s.eval(u, v)[2])


def matrix(e, tag="", lo="0.2"):
    A = [[e.real("%sa%d%d" % (tag, i, j), -2, 2) for j in range(2)] + [e.real("%ss%d" % (tag, i), -5, 5)] for i in range(2)]
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    e.assume((d >= e.lit(lo)) if e.choice(tag + "or", [1, -1]) > 0 else (d <= -e.lit(lo)))
    return A


def moved(A, Z, c, p):
    """transform about the center c"""
    x = list(p)
    if A is not None:
        x[0] = A[0][0] * (p[0] - c[0]) + A[0][1] * (p[1] - c[1]) + A[0][2] + c[0]
        x[1] = A[1][0] * (p[0] - c[0]) + A[1][1] * (p[1] - c[1]) + A[1][2] + c[1]
    if Z is not None:
        x[2] = Z[0] * (p[2] - c[2]) + Z[1] + c[2]
    return x


def transform(e, ku, kv, quad, what):
    """transforms act about the center of the original surface and do not accumulate"""
    B, bu, bv, Q, P, s = make(e, ku, kv, quad, sym=quad in ("unit", "fixed"))
    u, v = L.param(e, bu, "u"), L.param(e, bv, "v")
    p0 = [e.lit(0) + x for x in s.eval(u, v)]
    c0 = [e.lit(0) + x for x in s.center()]
    A = matrix(e) if "x" in what else None
    Z = [e.real("zs", -3, 3), e.real("zt", -4, 4)] if "z" in what else None
    if "2" in what:
        # an earlier transform is replaced
        s.transform(e.arr([[2, 1, 3], [0, 1, -1]]), e.arr([3, -2]))
    s.transform(None if A is None else e.arr(A), None if Z is None else e.arr(Z))
    if "2" in what:
        A = A or [[2, 1, 3], [0, 1, -1]]
        Z = Z or [3, -2]
    ref = moved(A, Z, c0, p0)
    all_evals(e, s, u, v, ref, quad != "bil", "transformed")
    gx, gz = s.get_transform()
    for i in (0, 1):
        for j in range(3):
            e.near(gx[i][j], (A or [[1, 0, 0], [0, 1, 0]])[i][j], "get_transform")
        e.near(gz[i], (Z or [1, 0])[i], "get_transform")
    for i in range(4):
        r = moved(A, None, c0, Q[i] + [0])
        m = s.uv_to_xy(e.arr([[e.lit(x) for x in UV[i]]]))[0]
        for k in (0, 1):
            e.near(s.quad[i][k], r[k], "transformed quad")
            e.near(m[k], r[k], "corner of the transformed quad")
    if "a" in what:
        orig = s.z_surface
        zp = [[e.lit(0) + orig.poles[i, j, 0] for j in range(bv.size)] for i in range(bu.size)]
        s.apply_z_transform()
        all_evals(e, s, u, v, ref, quad != "bil", "after apply_z_transform")
        gx, gz = s.get_transform()
        e.near(gz[0], 1, "Z transform not reset")
        e.near(gz[1], 0, "Z transform not reset")
        for i in range(bu.size):
            for j in range(bv.size):
                e.near(orig.poles[i, j, 0], zp[i][j], "poles of the shared surface changed")
        c1 = s.center()
        s.transform(None, e.arr([2, 1]))
        all_evals(e, s, u, v, moved(None, [2, 1], c1, ref), quad != "bil", "second transform after apply_z_transform")
    e.observe("x", s.eval(u, v)[0])


def copies(e, ku, kv, quad, order):
    """transforms of a copy and of the original are independent"""
    B, bu, bv, Q, P, s = make(e, ku, kv, quad, sym=False)
    u, v = e.real("u", 0, 1), e.real("v", 0, 1)
    p0 = [e.lit(0) + x for x in s.eval(u, v)]
    c0 = [e.lit(0) + x for x in s.center()]
    A1, Z1 = matrix(e, "m"), [e.real("mz", -3, 3), e.real("mt", -4, 4)]
    A2, Z2 = [[1, -1, 2], [1, 1, 0]], [-2, 5]
    if order == "transformed":
        s.transform(e.arr(A1), e.arr(Z1))
        c = s.get_copy()
        all_evals(e, c, u, v, moved(A1, Z1, c0, p0), quad != "bil", "copy of a transformed surface")
    else:
        c = s.get_copy()
        all_evals(e, c, u, v, p0, quad != "bil", "copy")
        s.transform(e.arr(A1), e.arr(Z1))
        all_evals(e, c, u, v, p0, quad != "bil", "copy after a transform of the original")
    c.transform(e.arr(A2), e.arr(Z2))
    all_evals(e, c, u, v, moved(A2, Z2, c0, p0), quad != "bil", "transformed copy")
    all_evals(e, s, u, v, moved(A1, Z1, c0, p0), quad != "bil", "original after a transform of the copy")
    c.apply_z_transform()
    all_evals(e, s, u, v, moved(A1, Z1, c0, p0), quad != "bil", "original after apply_z_transform of the copy")


def box(e, ku, kv, quad):
    """the box is that of the quad and of the transformed Z poles; it contains the surface"""
    B, bu, bv, Q, P, s = make(e, ku, kv, quad, sym=False)
    A = [[e.real("a", -2, 2), e.lit("0.5"), e.lit(1)], [e.lit("-0.5"), e.lit(1), e.lit(2)]]
    e.assume((A[0][0] >= e.lit("0.1")) if e.choice("sign", [1, -1]) > 0 else (A[0][0] <= e.lit("-0.5")))
    Z = [e.real("zs", -3, 3), e.real("zt", -4, 4)]
    c0 = [e.lit(0) + x for x in s.center()]
    which = e.choice("which", ["none", "xy", "z", "both"])
    A, Z = (A if which in ("xy", "both") else None), (Z if which in ("z", "both") else None)
    if which != "none":
        s.transform(None if A is None else e.arr(A), None if Z is None else e.arr(Z))
    b = s.aabb()
    e.check(tuple(b.shape) == (2, 3), "shape of the box")
    pts = [moved(A, None, c0, q + [0]) for q in Q]
    zs = [moved(None, Z, c0, [0, 0, p[0]])[2] for r in P for p in r]
    for k in range(3):
        vals = [p[k] for p in pts] if k < 2 else zs
        for x in vals:
            e.leq(b[0][k], x, "box does not contain the surface")
            e.leq(x, b[1][k], "box does not contain the surface")
        e.check(any(e.iszero(b[0][k] - x) for x in vals), "box too large")
        e.check(any(e.iszero(b[1][k] - x) for x in vals), "box too large")


def jobs():
    J = []
    pairs = [((2, 0), (2, 0)), ((1, 0), (2, 0)), ((2, 5), (1, 3))]
    L.KNOTS[2].append([0, 0, 0, "0.4", 1, 1, 1]) if len(L.KNOTS[2]) == 5 else None
    L.KNOTS[1].append([0, 0, "0.3", "0.6", 1, 1]) if len(L.KNOTS[1]) == 3 else None
    for n, (ku, kv) in enumerate(pairs):
        bd = "degrees %d and %d, knots %s and %s" % (ku[0], kv[0], L.KNOTS[ku[0]][ku[1]], L.KNOTS[kv[0]][kv[1]])
        for q in ("par3", "par4", "bil", "unit"):
            a = dict(ku=ku, kv=kv, quad=q)
            J.append(Job("plain:%s:%d" % (q, n), plain, a, bounds=bd + ", any Z poles, any quad of area at least 0.1",
                         tier="quick" if n < 2 else "thorough"))
        for w in ("x", "z", "xz", "2xz", "2x", "2z", "xza", "za", "2za"):
            # a symbolic quad together with a symbolic matrix gives determinants that the solver does not decide
            for q in ("fixed", "unit") + (() if "x" in w else ("par3", "par4")) + ("bil",):
                J.append(Job("transform:%s:%s:%d" % (w, q, n), transform, dict(ku=ku, kv=kv, quad=q, what=w),
                             tier="quick" if n == 0 and (q == "fixed" or q == "bil" and w in ("x", "z", "xz", "2xz")) or w == "xz" and q == "unit" and n == 1 else "thorough",
                             bounds=bd + ", any regular 2x2 matrix, shift and Z scale, any parameter, quad: " + q))
        for q in ("fixed", "bil"):
            a = dict(ku=ku, kv=kv, quad=q)
            for o in ("plain", "transformed"):
                J.append(Job("copies:%s:%s:%d" % (o, q, n), copies, dict(a, order=o), bounds=bd + ", any transform, quad: " + q,
                             tier="quick" if n == 0 else "thorough"))
            J.append(Job("box:%s:%d" % (q, n), box, a, bounds=bd + ", any X scale and Z transform, quad: " + q,
                         tier="quick" if q == "fixed" and n < 2 else "thorough"))
    return J
