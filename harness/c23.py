"""C23: least squares approximation of point sets by Z surfaces."""
import types
from fractions import Fraction as Fr

from symx.runner import Job
from harness import bslib as L

OUTSIDE = ("More than 3 x 2 intervals; the values of the two matrix norms that scale the regularization (replaced by traces); conditioning and "
           "rounding of the sparse solver (replaced by exact elimination); points closer than 1e-9 to the border of the quad from outside.")
QUADS = {"unit": [(0, 1), (0, 0), (1, 0), (1, 1)], "skew": [(1, "3.5"), (1, 2), (3, "2.5"), (3, 4)], "back": [(-2, 0), (0, 0), (0, 4), (-2, 4)]}


class M:
    """Small dense stand-in of a sparse matrix."""

    def __init__(self, e, rows):
        self.e, self.rows = e, [list(r) for r in rows]
        self.shape = (len(self.rows), len(self.rows[0]) if self.rows else 0)

    def transpose(self):
        return M(self.e, list(zip(*self.rows)))

    T = property(transpose)

    def _same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = copy = asformat = _same

    def toarray(self):
        return self.e.arr(self.rows)

    todense = toarray

    def diagonal(self):
        return self.e.arr([self.rows[i][i] for i in range(min(self.shape))])

    def dot(self, o):
        if isinstance(o, M):
            c = list(zip(*o.rows))
            return M(self.e, [[self._d(r, x) for x in c] for r in self.rows])
        if hasattr(o, "shape") or isinstance(o, list):
            assert len(o) == self.shape[1], "dimension mismatch"
            if len(o) and hasattr(o[0], "shape") and o[0].shape:
                return self.e.arr([[self._d(r, x) for x in zip(*o)] for r in self.rows])
            return self.e.arr([self._d(r, o) for r in self.rows])
        return M(self.e, [[x * o for x in r] for r in self.rows])

    def _d(self, a, b):
        s = self.e.lit(0)
        for x, y in zip(a, b):
            s = s + x * y
        return s

    __mul__ = __matmul__ = dot

    def __rmul__(self, o):
        return M(self.e, [[o * x for x in r] for r in self.rows])

    def __add__(self, o):
        assert self.shape == o.shape
        return M(self.e, [[a + b for a, b in zip(r, s)] for r, s in zip(self.rows, o.rows)])

    def __sub__(self, o):
        return self + (-1) * o

    def __truediv__(self, o):
        return M(self.e, [[a / o for a in r] for r in self.rows])

    def trace(self):
        t = self.e.lit(0)
        for i in range(min(self.shape)):
            t = t + self.rows[i][i]
        return t


def elimination(e, A, b):
    A, b, n = [list(r) for r in A.rows], list(b), len(b)
    for k in range(n):
        p = next((i for i in range(k, n) if bool(A[i][k] != 0)), None)
        if p is None:
            raise ValueError("singular matrix")
        A[k], A[p], b[k], b[p] = A[p], A[k], b[p], b[k]
        for i in range(k + 1, n):
            if bool(A[i][k] != 0):
                f = A[i][k] / A[k][k]
                for j in range(k, n):
                    A[i][j] = A[i][j] - f * A[k][j]
                b[i] = b[i] - f * b[k]
    for k in range(n - 1, -1, -1):
        for j in range(k + 1, n):
            b[k] = b[k] - A[k][j] * b[j]
        b[k] = b[k] / A[k][k]
    return e.arr(b)


def trace_of(m):
    return m.trace() if isinstance(m, M) else m.diagonal().sum()


def load(e):
    """the module with the scipy parts replaced (symbolic) or with the two norms replaced (replay)"""
    L.stub_bih(e)

    def coo(arg, shape=None, **k):
        data, (row, col) = arg
        rows = [[e.lit(0)] * shape[1] for _ in range(shape[0])]
        for d, r, c in zip(data, row, col):
            r, c = int(r), int(c)
            assert 0 <= r < shape[0] and 0 <= c < shape[1], "index out of range"
            rows[r][c] = rows[r][c] + d
        return M(e, rows)

    def diags(v, k=0, **kw):
        return M(e, [[x if i == j else e.lit(0) for j in range(len(v))] for i, x in enumerate(v)])

    def limits(k, ncv, top):
        if not k < ncv < top:
            raise ValueError("`ncv` must be an integer satisfying k < ncv")

    if e.symbolic:
        def svds(m, k=6, ncv=None, **kw):
            if ncv is not None:
                limits(k, ncv, min(m.shape))
            return e.arr([trace_of(m)])

        def eigsh(m, k=6, ncv=None, **kw):
            if ncv is not None:
                limits(k, ncv, m.shape[0] + 1)
            return e.arr([trace_of(m)])
        lin = types.SimpleNamespace(svds=svds, eigsh=eigsh, spsolve=lambda A, b, **k: elimination(e, A, b))
        sp = types.SimpleNamespace(linalg=lin, csr_matrix=coo, coo_matrix=coo, csc_matrix=coo, diags=diags,
                                   dia_matrix=diags)
        e.stub("scipy", types.SimpleNamespace(sparse=sp, interpolate=types.SimpleNamespace()))
        e.stub("scipy.sparse", sp)
        e.stub("scipy.sparse.linalg", lin)
        e.stub("scipy.interpolate", types.SimpleNamespace())
        return e.mod("bgem.bspline.bspline_approx")
    A = e.mod("bgem.bspline.bspline_approx")
    lin = A.scipy.sparse.linalg
    if not hasattr(lin, "_vp"):
        lin._vp = (lin.svds, lin.eigsh)

    def wrap(f):
        def g(m, *a, **k):
            f(m, *a, **k)
            return e.arr([trace_of(m)])
        return g
    lin.svds, lin.eigsh = wrap(lin._vp[0]), wrap(lin._vp[1])
    return A


def unload(e, A):
    if not e.symbolic:
        lin = A.scipy.sparse.linalg
        lin.svds, lin.eigsh = lin._vp


def dense(e, m):
    return m.rows if isinstance(m, M) else m.toarray()


def quad(e, q):
    return [[e.lit(x) for x in p] for p in QUADS[q]]


def energy(e, bu, bv):
    """exact matrix of the integral of the squared gradient over the unit square; pole (i, j) has index i + j * nu"""
    nodes = [(Fr(k, 4), w) for k, w in enumerate((7, 32, 12, 32, 7))]

    def gram(b):
        M0 = [[e.lit(0)] * b.size for _ in range(b.size)]
        M1 = [[e.lit(0)] * b.size for _ in range(b.size)]
        bp = L.breakpoints(b)
        for x, y in zip(bp, bp[1:]):
            h = y - x
            for t, w in nodes:
                p = x + h * e.lit(t)
                v = [b.eval(i, p) for i in range(b.size)]
                d = [b.eval_diff(i, p) for i in range(b.size)]
                f = h * e.lit(Fr(w, 90))
                for i in range(b.size):
                    for j in range(b.size):
                        M0[i][j] = M0[i][j] + f * v[i] * v[j]
                        M1[i][j] = M1[i][j] + f * d[i] * d[j]
        return M0, M1
    (u0, u1), (v0, v1) = gram(bu), gram(bv)
    n = bu.size
    N = n * bv.size
    return [[u1[a % n][b % n] * v0[a // n][b // n] + u0[a % n][b % n] * v1[a // n][b // n] for b in range(N)] for a in range(N)]


def system(e, nu, nv):
    """rows of the system are values of the basis in the points: B z is the surface"""
    A = load(e)
    s = A.SurfaceApprox(e.arr([[0, 0, 0]]))
    B = A.bs
    s._u_basis, s._v_basis = B.SplineBasis.make_equidistant(2, nu), B.SplineBasis.make_equidistant(2, nv)
    u, v = e.real("u", 0, 1), e.real("v", 0, 1)
    s._uv_quad_points = e.arr([[u, v], [1, 0], [v, u]])
    m, iv = s._build_ls_matrix()
    m = dense(e, m)
    e.check(len(m) == 3 and len(m[0]) == (nu + 2) * (nv + 2), "shape of the system")
    for r, (x, y) in enumerate(((u, v), (e.lit(1), e.lit(0)), (v, u))):
        for j in range(nv + 2):
            for i in range(nu + 2):
                e.near(m[r][i + j * (nu + 2)], s._u_basis.eval(i, x) * s._v_basis.eval(j, y), "row of the system")
    unload(e, A)


def energy_matrix(e, nu, nv):
    """the regularization is a multiple of the energy of the gradient: as a quadratic form, coefficient by coefficient"""
    A = load(e)
    s = A.SurfaceApprox(e.arr([[0, 0, 0]]))
    B = A.bs
    s._u_basis, s._v_basis = B.SplineBasis.make_equidistant(2, nu), B.SplineBasis.make_equidistant(2, nv)
    m = dense(e, s._build_sparse_reg_matrix())
    E = energy(e, s._u_basis, s._v_basis)
    N = len(E)
    e.check(len(m) == N and len(m[0]) == N, "shape of the regularization")
    c = m[0][0] / E[0][0]
    e.check(c > 0, "sign of the regularization")
    for i in range(N):
        for j in range(N):
            e.near(m[i][j], E[i][j] * c, "regularization is not the energy of the gradient", tol=1e-6)
            e.near(m[i][j], m[j][i], "regularization is not symmetric")
    unload(e, A)


XY = [("0.1", "0.2"), ("0.35", "0.9"), ("0.6", "0.15"), ("0.9", "0.8"), ("0.5", "0.5"), ("0", "1"), ("1", "0"), ("0.25", "0.55"), ("1", "1"),
      ("0.7", "0.65")]
OUT = [("1.2", "0.3"), ("-0.1", "0.5"), ("0.5", "1.01"), ("0.4", "-0.02")]


def fit(e, nu, nv, q, weighted, reg):
    """the gradient of the weighted squares plus the scaled energy vanishes in the result"""
    A = load(e)
    Q = quad(e, q)
    n = e.choice("n", [10, 4])
    pts = XY[:n] + OUT if q != "unit" else OUT[:1] + XY[:n] + OUT[1:]
    z = [e.real("z%d" % i, -4, 4) for i in range(len(pts))]
    P, inside = [], []
    for i, (u, v) in enumerate(pts):
        u, v = e.lit(u), e.lit(v)
        p = [Q[1][k] + u * (Q[2][k] - Q[1][k]) + v * (Q[0][k] - Q[1][k]) for k in (0, 1)] + [z[i]]
        w = e.lit(1)
        if weighted:
            w = e.lit(1 + (3 * i) % 5)
            p.append(w)
        P.append(p)
        if pts[i] not in OUT:
            inside.append((u, v, z[i], w))
    a = A.SurfaceApprox(e.arr(P))
    try:
        if e.choice("how", ["arguments", "attributes"]) == "arguments":
            kw = dict(quad=e.arr(Q), nuv=(nu, nv))
            if reg is not None:
                kw["regularization_weight"] = e.lit(reg)
            s = a.compute_approximation(**kw)
        else:
            a.set_quad(e.arr(Q))
            a.nuv = (nu, nv)
            if reg is not None:
                a.regularization_weight = e.lit(reg)
            s = a.compute_approximation()
    finally:
        unload(e, A)
    bu, bv = s.u_basis, s.v_basis
    e.check((bu.size, bv.size) == (nu + 2, nv + 2), "number of poles")
    e.check(s is a.surface, "result is kept")
    for i in range(4):
        for k in (0, 1):
            e.near(s.quad[i][k], Q[i][k], "quad of the surface")
    N = bu.size * bv.size
    poles = [s.z_surface.poles[i % bu.size, i // bu.size, 0] for i in range(N)]
    E = energy(e, bu, bv)
    rows, res = [], []
    for u, v, h, w in inside:
        cu, cv = [bu.eval(i, u) for i in range(bu.size)], [bv.eval(i, v) for i in range(bv.size)]
        rows.append([cu[i % bu.size] * cv[i // bu.size] for i in range(N)])
        res.append(s.eval(u, v)[2] - h)
    tb, te = e.lit(0), e.lit(0)
    for i in range(N):
        te = te + E[i][i]
        for r, (u, v, h, w) in zip(rows, inside):
            tb = tb + w * r[i] * r[i]
    lam = e.lit("0.001" if reg is None else reg) * tb / te
    for i in range(N):
        g = e.lit(0)
        for r, x, (u, v, h, w) in zip(rows, res, inside):
            g = g + w * r[i] * x
        for j in range(N):
            g = g + lam * E[i][j] * poles[j]
        e.near(g, 0, "not the minimum of the squares with the regularization", tol=1e-6)
    for x in res:
        e.leq(x, a.error, "error is not the maximum norm", tol=1e-6)
        e.leq(-x, a.error, "error is not the maximum norm", tol=1e-6)
    if e.symbolic:
        c = e.core.to_cond(False)
        for x in res:
            c = c | e.core.to_cond(a.error == x) | e.core.to_cond(a.error == -x)
        e.check(c, "error is not attained")
    else:
        e.near(a.error, max(abs(x) for x in res), "error is not attained", tol=1e-6)
    e.observe("z", s.eval(e.lit("0.3"), e.lit("0.4"))[2])


def filtering(e, q, weighted):
    """points of the quad with their heights and weights are kept, all others dropped"""
    A = load(e)
    Q = quad(e, q)
    P, U = [], []
    for i in range(2):
        u, v = e.real("u%d" % i, -1, 2), e.real("v%d" % i, -1, 2)
        for x in (u, v):
            # not just outside
            e.assume((x >= 0) | (x <= e.lit("-1e-9")) if e.symbolic else (x >= 0 or x <= -1e-9))
            e.assume((x <= 1) | (x >= e.lit("1.000000001")) if e.symbolic else (x <= 1 or x >= 1.000000001))
        U.append((u, v))
        P.append([Q[1][k] + u * (Q[2][k] - Q[1][k]) + v * (Q[0][k] - Q[1][k]) for k in (0, 1)] + [e.real("z%d" % i, -4, 4)]
                 + ([e.real("w%d" % i, 0, 4)] if weighted else []))
    a = A.SurfaceApprox(e.arr(P))
    a.set_quad(e.arr(Q))
    a._compute_uv_points()
    unload(e, A)
    keep = [i for i in range(2) if all(bool(x >= 0) and bool(x <= 1) for x in U[i])]
    if not e.symbolic and any(min(abs(x), abs(x - 1)) < 1e-12 for p in U for x in p):
        return
    e.check(len(a._uv_quad_points) == len(keep), "points of the quad")
    e.check(len(a._z_quad_points) == len(keep), "heights of the points of the quad")
    for r, i in enumerate(keep):
        for k in (0, 1):
            e.near(a._uv_quad_points[r][k], U[i][k], "parameters of a point")
        e.near(a._z_quad_points[r], P[i][2], "height of a point")
        if weighted:
            e.near(a._w_quad_points[r], P[i][3], "weight of a point")
    if weighted:
        e.check(len(a._w_quad_points) == len(keep), "weights of the points of the quad")


def default_nuv(e, n, k):
    """not more unknowns than points where the quad is not too long; the longer side gets more intervals"""
    A = load(e)
    a = A.SurfaceApprox(e.arr([[0, 0, 0]] * 3))
    x, y = e.real("x", "0.2", 5), e.real("y", "0.2", 5)
    Q = [[e.lit(1), 1 + y], [e.lit(1), e.lit(1)], [1 + x, e.lit(1)], [1 + x, 1 + y]]
    if k == "rot":
        Q = [[e.lit("0.6") * p - e.lit("0.8") * r, e.lit("0.8") * p + e.lit("0.6") * r] for p, r in Q]
    a.set_quad(e.arr(Q))
    r = a._compute_default_nuv(n)
    unload(e, A)
    nu, nv = int(r[0]), int(r[1])
    e.check(nu >= 1 and nv >= 1, "number of intervals")
    if nu > 1 and nv > 1:
        e.check((nu + 2) * (nv + 2) <= n, "more unknowns than points")
    if bool(x >= y):
        e.check(nu >= nv, "the longer side has less intervals")
    else:
        e.check(nu <= nv, "the longer side has less intervals")
    # nu + 2 = floor(sqrt(n x / y) / 3) unless clipped
    for m, p, q in ((nu, x, y), (nv, y, x)):
        if m > 1:
            e.check(9 * (m + 2) * (m + 2) * q <= n * p * e.lit("1.0001"), "number of intervals")
        e.check(9 * (m + 3) * (m + 3) * q >= n * p * e.lit("0.9999"), "number of intervals")


def jobs():
    J = []
    for n, (nu, nv) in enumerate(((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2))):
        bd = "%d x %d intervals" % (nu, nv)
        J.append(Job("system:%d:%d" % (nu, nv), system, dict(nu=nu, nv=nv), bounds=bd + ", any points of the unit square"))
        J.append(Job("energy:%d:%d" % (nu, nv), energy_matrix, dict(nu=nu, nv=nv), bounds=bd + ", any poles"))
        for q in QUADS:
            for w in (0, 1):
                for reg in (None, "0.5", "2"):
                    J.append(Job("fit:%s:%d:%s:%d:%d" % (q, w, reg, nu, nv), fit, dict(nu=nu, nv=nv, q=q, weighted=w, reg=reg),
                                 minmax="atom", tier="quick" if n < 3 and (q, w, reg) in (("skew", 0, None), ("unit", 1, "0.5")) else "thorough",
                                 bounds=bd + ", 4 or 10 points in the quad and 4 outside, any heights"))
    for q in QUADS:
        for w in (0, 1):
            J.append(Job("filtering:%s:%d" % (q, w), filtering, dict(q=q, weighted=w), bounds="two points anywhere around the quad"))
    for n in (20, 60, 100, 400):
        for k in ("axes", "rot"):
            J.append(Job("nuv:%d:%s" % (n, k), default_nuv, dict(n=n, k=k), bounds="%d points, rectangles with sides 0.2 to 5" % n,
                         tier="quick" if n < 100 else "thorough"))
    return J
