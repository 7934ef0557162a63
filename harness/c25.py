"""C25: intersection points of B-spline curves and surfaces lie on both, and none of the crossings is missed."""
from symx.runner import Job
from harness import bslib as L

OUTSIDE = ("Surfaces that are not planes in the completeness part; degree other than 2 (the code is for degree 2); multiple inner knots; "
           "ordering of the points to curves (unfinished in the code).")
U = [[0, 0, 0, 1, 1, 1], [0, 0, 0, 1, 3, 3, 3], [-1, -1, -1, 0, 2, "2.5", "2.5", "2.5"]]


def mods(e):
    L.stub_bih(e)
    m = lambda n: e.mod("bgem.bspline." + n)
    return m("bspline"), m("isec_curve_surf"), m("isec_surf_surf"), m("surface_point"), m("curve_point")


def basis(e, B, k):
    return B.SplineBasis(2, e.arr([e.lit(x) for x in U[k]]))


def vec(x):
    return [c for c in x]


def surface(e, B, ku, kv, kind):
    """kind: 'any' - all poles symbolic, else (origin, a, b) - the plane origin + u a + v b"""
    u, v = basis(e, B, ku), basis(e, B, kv)
    if kind == "any":
        P = [[[e.real("s%d%d%d" % (i, j, k), -3, 3) for k in range(3)] for j in range(v.size)] for i in range(u.size)]
    else:
        o, a, b = kind
        x, y = u.make_linear_poles(), v.make_linear_poles()
        P = [[[o[k] + x[i] * a[k] + y[j] * b[k] for k in range(3)] for j in range(v.size)] for i in range(u.size)]
    return B.Surface((u, v), e.np.array(P))


def curve(e, B, kt, kind):
    t = basis(e, B, kt)
    if kind == "any":
        P = [[e.real("c%d%d" % (i, k), -3, 3) for k in range(3)] for i in range(t.size)]
    else:
        o, d = kind
        x = t.make_linear_poles()
        P = [[o[k] + x[i] * d[k] for k in range(3)] for i in range(t.size)]
    return B.Curve(t, e.np.array(P))


def lits(e, *vs):
    return [[e.lit(x) for x in v] for v in vs]


def jac(e, ku, kv, kt):
    B, ICS, _, _, _ = mods(e)
    S, C = surface(e, B, ku, kv, "any"), curve(e, B, kt, "any")
    iu, iv = e.choice("iu", range(S.u_basis.n_intervals)), e.choice("iv", range(S.v_basis.n_intervals))
    it = e.choice("it", range(C.basis.n_intervals))
    cell = [S.u_basis.knots[iu + 2:iu + 4], S.v_basis.knots[iv + 2:iv + 4], C.basis.knots[it + 2:it + 4]]
    x = [c[0] + e.real("r%d" % i, 0, 1) * (c[1] - c[0]) for i, c in enumerate(cell)]
    J, p, q = ICS.IsecCurveSurf(S, C)._compute_jacobian_and_coordinates(e.np.array(x), (iu, iv, it))
    fs = lambda u, v: S.eval_local(u, v, iu, iv)
    fc = lambda t: C.eval_local(t, it)
    s, c = fs(x[0], x[1]), fc(x[2])
    # derivative of the quadratic polynomial through three points of the interval
    def diff(f, y, cell):
        a, b = cell
        f0, f1, f2 = f(a), f((a + b) / 2), f(b)
        r = (y - a) / (b - a)
        return [(4 * f1[k] - 3 * f0[k] - f2[k] + 4 * r * (f0[k] + f2[k] - 2 * f1[k])) / (b - a) for k in range(3)]
    ref = [diff(lambda z: fs(z, x[1]), x[0], cell[0]), diff(lambda z: fs(x[0], z), x[1], cell[1]),
           [-z for z in diff(fc, x[2], cell[2])]]
    for k in range(3):
        e.near(p[k], s[k], "surface point")
        e.near(q[k], c[k], "curve point")
        for a in range(3):
            e.near(J[k][a], ref[a][k], "column of the Jacobian matrix")


PLANES = [((0, 0, 0), (1, 0, 0), (0, 1, 0), ("0.5", "0.25", 1)), ((1, 0, -1), (1, 1, 0), (-1, 2, "0.5"), (0, "0.3", -2))]


def inv3(a, b, c):
    """rows of the inverse of the matrix with the columns a, b, c"""
    cr = lambda x, y: [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    d = L.dot(a, cr(b, c))
    return [[x / d for x in r] for r in (cr(b, c), cr(c, a), cr(a, b))]


def line_origin(e, o, a, b, d, free):
    """origin of a line of direction d that hits the plane in any point at any parameter (only the free ones symbolic)"""
    w = [e.real("uvt"[i], "-1.5", 4) if i in free else e.lit(e.choice("uvt"[i], ["-0.9", "0.3", "1.8", "3.1"])) for i in range(3)]
    return w, [o[k] + w[0] * a[k] + w[1] * b[k] - w[2] * d[k] for k in range(3)]


def inside(e, w, cell, m="1e-4"):
    m = e.lit(m)
    return all(bool(x > c[0] + m) and bool(x < c[1] - m) for x, c in zip(w, cell))


def newton(e, p, ku, kv, kt, free):
    B, ICS, _, _, _ = mods(e)
    o, a, b, d = lits(e, *PLANES[p])
    w, org = line_origin(e, o, a, b, d, free)
    S, C = surface(e, B, ku, kv, (o, a, b)), curve(e, B, kt, (org, d))
    iu, iv = e.choice("iu", range(S.u_basis.n_intervals)), e.choice("iv", range(S.v_basis.n_intervals))
    it = e.choice("it", range(C.basis.n_intervals))
    cell = [S.u_basis.knots[iu + 2:iu + 4], S.v_basis.knots[iv + 2:iv + 4], C.basis.knots[it + 2:it + 4]]
    tol = e.real("tol", "1e-9", "0.1")
    uvt, conv, xyz = ICS.IsecCurveSurf(S, C).get_intersection(iu, iv, it, 10, e.lit("1e-16"), tol)
    if bool(conv):
        x, y = S.eval_local(uvt[0], uvt[1], iu, iv), C.eval_local(uvt[2], it)
        q = e.lit(0)
        for k in range(3):
            q = q + (x[k] - y[k]) * (x[k] - y[k])
            e.near(2 * xyz[k], x[k] + y[k], "returned point is not between the surface and the curve")
        e.leq(q, tol * tol, "point accepted too far from the surface or the curve", tol=1e-15)
        for k in range(3):
            e.leq(cell[k][0], uvt[k], "parameter out of the interval")
            e.leq(uvt[k], cell[k][1], "parameter out of the interval")
    elif inside(e, w, cell):
        e.check(False, "crossing in the given patch and interval not found")


def surf_point(e, ku, kv):
    B, _, _, SP, _ = mods(e)
    S = surface(e, B, ku, kv, "any")
    bs = (S.u_basis, S.v_basis)
    cells, uv = [], []
    for k, b in enumerate(bs):
        i = e.choice("i%d" % k, range(b.n_intervals))
        lo, hi = b.knots[i + 2], b.knots[i + 3]
        uv.append([lo, hi, lo + (hi - lo) * e.real("r%d" % k, "0.001", "0.999")][e.choice("where%d" % k, range(3))])
        cells.append(i)
    p = SP.SurfacePoint(S, e.np.array(cells) if not e.symbolic else cells, e.np.array(uv))
    ref = {i * bs[1].n_intervals + j for i in range(bs[0].n_intervals) for j in range(bs[1].n_intervals)
           if all(bool(b.knots[n + 2] <= x) and bool(x <= b.knots[n + 3]) for b, n, x in zip(bs, (i, j), uv))}
    got = p.patch_id()
    e.check(len(got) == len(ref) and set(int(i) for i in got) == ref, "patches around the point")
    on = any(bool(x == b.domain[0]) or bool(x == b.domain[1]) for b, x in zip(bs, uv))
    e.check((p.surface_boundary_flag == 1) == on, "point on the boundary of the surface")


def curv_point(e, kt):
    B, _, _, _, CP = mods(e)
    C = curve(e, B, kt, "any")
    b = C.basis
    it = e.choice("it", range(b.n_intervals))
    lo, hi = b.knots[it + 2], b.knots[it + 3]
    t = [lo, hi, lo + (hi - lo) * e.real("r", "0.001", "0.999")][e.choice("where", range(3))]
    p = CP.CurvePoint(C, it, t)
    ref = {n for n in range(b.n_intervals) if bool(b.knots[n + 2] <= t) and bool(t <= b.knots[n + 3])}
    e.check(len(p.it) == len(ref) and set(int(i) for i in p.it) == ref, "intervals around the point")
    e.check((p.boundary_flag == 1) == (bool(t == b.domain[0]) or bool(t == b.domain[1])), "end point of the curve")


def threads(e, ku, kv, axis):
    B, _, ISS, _, _ = mods(e)
    S = surface(e, B, ku, kv, "any")
    ax = ISS.IP.Axis(axis)
    curves, w, patch = ISS.IsecSurfSurf._main_curves(S, ax)
    fix, run = (S.u_basis, S.v_basis) if axis == 0 else (S.v_basis, S.u_basis)
    e.check(len(curves) == len(w) == len(patch) == fix.n_intervals + 1, "number of the curves")
    i = e.choice("curve", range(fix.n_intervals + 1))
    e.near(w[i], L.breakpoints(fix)[i], "parameter of the curve")
    a, b = fix.knots[patch[i] + 2], fix.knots[patch[i] + 3]
    e.check(bool(a <= w[i]) and bool(w[i] <= b), "patch of the curve")
    t = L.param(e, run)
    x, y = curves[i].eval(t), S.eval(*((w[i], t) if axis == 0 else (t, w[i])))
    for k in range(3):
        e.near(x[k], y[k], "curve does not lie in the surface")


def near_pt(e, a, b, tol="1e-6"):
    t = e.lit(tol)
    return all(bool(x - y <= t) and bool(y - x <= t) for x, y in zip(a, b))


def curve_surf(e, p, ku, kv, kt, knot, free):
    """a line through the plane: the crossing (and nothing else) is reported"""
    B, ICS, _, _, _ = mods(e)
    o, a, b, d = lits(e, *PLANES[p])
    w, org = line_origin(e, o, a, b, d, free)
    S, C = surface(e, B, ku, kv, (o, a, b)), curve(e, B, kt, (org, d))
    cell = [x.domain for x in (S.u_basis, S.v_basis, C.basis)]
    if knot:
        w[2] = C.basis.knots[3]
        C = curve(e, B, kt, ([o[k] + w[0] * a[k] + w[1] * b[k] - w[2] * d[k] for k in range(3)], d))
    pts = ICS.IsecCurveSurf(S, C, abs_tol=e.lit("1e-9")).get_intersections(S, C, S.tree)
    if inside(e, w, cell):
        e.check(len(pts) > 0, "crossing of the line and the plane not found")
    x = [o[k] + w[0] * a[k] + w[1] * b[k] for k in range(3)]
    for q in pts:
        e.check(near_pt(e, vec(q.xyz), x), "reported point is not the crossing")
        e.check(near_pt(e, vec(q.surface_point.uv) + [q.curve_point.t], w), "parameters of the reported point")


SECOND = [((0, 0, -1), (0, 1, 0), (0, 0, 2)), (("0.2", 0, -1), (1, 2, "0.25"), ("-0.125", 0, 2))]


def surf_surf(e, ku, kv, s, swap):
    """two planes: the points are on both and every crossing of a main curve of the first one is reported"""
    B, _, ISS, _, _ = mods(e)
    o, a, b = lits(e, *PLANES[0][:3])
    o2, a2, b2 = lits(e, *SECOND[s])
    o2[0] = o2[0] + e.real("dx", -1, 3)
    o2[1] = o2[1] + e.lit(e.choice("dy", ["-0.6", 0, "0.35"]))
    S1 = surface(e, B, ku, kv, (o, a, b))
    S2 = surface(e, B, kv, 0, (o2, a2, b2))
    A = ISS.IsecSurfSurf(S1, S2, abs_tol=e.lit("1e-9"))
    pts = A.get_intersections(*((S2, S1) if swap else (S1, S2)))
    P1, P2 = (S2, S1) if swap else (S1, S2)
    g1, g2 = ((o2, a2, b2), (o, a, b)) if swap else ((o, a, b), (o2, a2, b2))
    for q in pts:
        for sp, S, g in zip(q.surface_point, (P1, P2), (g1, g2)):
            e.check(sp.surf is S, "surface of the point")
            x = [g[0][k] + sp.uv[0] * g[1][k] + sp.uv[1] * g[2][k] for k in range(3)]
            e.check(near_pt(e, x, vec(q.xyz)), "reported point is not on the surface")
            for c, z in zip((S.u_basis, S.v_basis), sp.uv):
                e.leq(c.domain[0], z, "parameter out of the domain")
                e.leq(z, c.domain[1], "parameter out of the domain")
            e.check(int(next(iter(sp.patch_id()))) >= 0, "patch")
    for i in (0, 1) if pts else ():
        lists, edge = A.make_patch_point_list(pts, i)
        for n, c in enumerate(lists):
            e.check(set(c) == {m for m, q in enumerate(pts) if n in q.surface_point[i].patch_id()}, "points of the patch")
        e.check(list(edge) == [m for m, q in enumerate(pts) if q.surface_point[0].surface_boundary_flag == 1], "boundary points")
    dom2 = [P2.u_basis.domain, P2.v_basis.domain]
    for axis, fix, run in ((0, P1.u_basis, P1.v_basis), (1, P1.v_basis, P1.u_basis)):
        for c in L.breakpoints(fix):
            d, f = g1[2 - axis], g1[1 + axis]
            org = [g1[0][k] + c * f[k] for k in range(3)]
            cols = [g2[1], g2[2], [-x for x in d]]
            det = cols[0][0] * (cols[1][1] * cols[2][2] - cols[1][2] * cols[2][1]) - cols[1][0] * (
                cols[0][1] * cols[2][2] - cols[0][2] * cols[2][1]) + cols[2][0] * (cols[0][1] * cols[1][2] - cols[0][2] * cols[1][1])
            if bool(det == 0):
                continue
            M = inv3(*cols)
            rhs = [org[k] - g2[0][k] for k in range(3)]
            uvt = [L.dot(r, rhs) for r in M]
            if inside(e, uvt, dom2 + [run.domain]):
                x = [org[k] + uvt[2] * d[k] for k in range(3)]
                e.check(any(near_pt(e, vec(q.xyz), x) for q in pts), "crossing of a main curve not found")


def jobs():
    J = []
    for k in range(3):
        J.append(Job("jac:%d" % k, jac, dict(ku=k, kv=(k + 1) % 3, kt=(k + 2) % 3), bounds="any poles, any patch, any parameters"))
        J.append(Job("curvpoint:%d" % k, curv_point, dict(kt=k), bounds="any parameter in any interval"))
        for m in range(3):
            J.append(Job("surfpoint:%d%d" % (k, m), surf_point, dict(ku=k, kv=m), bounds="any parameters in any patch"))
            for axis in (0, 1):
                J.append(Job("threads:%d%d:%d" % (k, m, axis), threads, dict(ku=k, kv=m, axis=axis), bounds="any poles and parameter",
                             tier="quick" if k <= m else "thorough"))
    for p in range(len(PLANES)):
        for ks in ((0, 0, 0), (1, 2, 1), (2, 1, 2)):
            for free in ((0,), (1,), (2,), (0, 1, 2)):
                tag = "%d:%d%d%d:" % ((p,) + ks) + "".join("uvt"[i] for i in free)
                J.append(Job("newton:" + tag, newton, dict(p=p, ku=ks[0], kv=ks[1], kt=ks[2], free=free),
                             tier="quick" if len(free) == 1 and (p == ks[0] % 2 or ks == (0, 0, 0)) and ks[0] < 2 else "thorough",
                             bounds="fixed plane and direction, any line position (%d symbolic), patch, interval, tolerance in [1e-9, 0.1]" % len(free)))
                for knot in (0, 1) if ks[2] and 2 not in free else (0,):
                    J.append(Job("curvesurf:%s:%d" % (tag, knot), curve_surf, dict(p=p, ku=ks[0], kv=ks[1], kt=ks[2], knot=knot, free=free),
                                 tier="quick" if len(free) == 1 and p == ks[0] % 2 and (ks == (0, 0, 0) or (free[0] == 0 and knot == ks[0] % 2)) else "thorough",
                                 bounds="fixed plane and direction, any line position (%d symbolic)%s" % (
                                     len(free), ", crossing at a knot of the curve" if knot else "")))
    for s in range(len(SECOND)):
        for swap in (0, 1):
            for ks in ((0, 0), (1, 0), (1, 1)):
                J.append(Job("surfsurf:%d:%d:%d%d" % ((s, swap) + ks), surf_surf, dict(ku=ks[0], kv=ks[1], s=s, swap=swap),
                             tier="quick" if ks != (1, 1) else "thorough",
                             bounds="two planes of fixed directions, any shift of the second one"))
    return J
