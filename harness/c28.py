"""C28: sizes and quality measures of mesh elements."""
import itertools
import math
from fractions import Fraction as Fr
from symx.runner import Job

OUTSIDE = "Bounds 0 and 1 of the qualities are decided only on the listed one-parameter families; rounding errors; the common normal (singular value decomposition)."
TET = [[0, 0, 0], [2, 0, 0], ["0.5", 3, 0], [1, 1, 2]]
# tetrahedra with rational edges and areas of faces (the first one is the smallest one with different edges)
SHAPES = {"heron1": [[84, 0, 0], [0, 0, 0], [20, 48, 0], [-24, 36, 27]], "heron2": [[56, 0, 0], [-72, 96, 0], [36, -12, 9], [0, 0, 0]]}
PERM3 = [[0, 1, 2], [1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0], [2, 0, 1]]
PERM4 = [[1, 0, 2, 3], [0, 2, 1, 3], [0, 1, 3, 2], [3, 0, 1, 2], [2, 3, 0, 1], [3, 1, 2, 0], [1, 2, 0, 3], [2, 1, 0, 3]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sqrt(e, x):
    return e.np.sqrt(x) if e.symbolic else max(x, 0) ** 0.5


def points(e, n, free, tag="p", base=TET):
    """The base points, those in free with symbolic coordinates (all or the given ones)."""
    out = []
    for i in range(n):
        out.append([e.real("%s%d%d" % (tag, i, c), -5, 5) if i in free and c in free[i] else e.lit(base[i][c]) for c in range(3)])
    return out


ALL = (0, 1, 2)


def vol6(p):
    return dot(cross(sub(p[1], p[0]), sub(p[2], p[0])), sub(p[3], p[0]))


def area2sq(a, b, c):
    n = cross(sub(b, a), sub(c, a))
    return dot(n, n)


def sizes(e, free):
    """Volume, edges, face areas and normals."""
    H = e.mod("bgem.gmsh.heal_mesh")
    p = points(e, 4, free)
    t = H.Tetrahedron(e.arr(p))
    e.check(t.dim == 3, "dimension")
    e.near(t.measure * 6, vol6(p), "volume")
    e.check(len(t.edge_lens) == 6 and len(t.face_areas) == 4, "numbers of edges and faces")
    seen = set()
    for (a, b), v, l in zip(H.Tetrahedron.edges, t.edge_vectors, t.edge_lens):
        seen.add(frozenset((a, b)))
        d = sub(p[b], p[a])
        for x, y in zip(v, d):
            e.near(x, y, "edge vector")
        e.near(l, sqrt(e, dot(d, d)), "length of an edge")
    e.check(len(seen) == 6, "edges of the tetrahedron")
    fc = H.Tetrahedron.vtxs_faces
    e.check(len({frozenset(f) for f in fc}) == 4 and all(len(set(f)) == 3 for f in fc), "faces of the tetrahedron")
    tot = [0, 0, 0]
    for f, ar, n in zip(fc, t.face_areas, t.face_normals):
        o = ({0, 1, 2, 3} - set(f)).pop()
        e.near(ar * 2, sqrt(e, area2sq(*[p[i] for i in f])), "area of a face")
        e.near(dot(n, sub(p[f[1]], p[f[0]])), 0, "normal of a face")
        e.near(dot(n, sub(p[f[2]], p[f[0]])), 0, "normal of a face")
        e.near(dot(n, sub(p[o], p[f[0]])), -vol6(p), "orientation and size of the normal of a face")
        tot = [x + y for x, y in zip(tot, n)]
    # again, in another order and from the stored values
    t2 = H.Tetrahedron(e.arr(p))
    t2.face_areas, t2.edge_lens, t2.measure
    e.near(t2.measure, t.measure, "volume asked again")
    e.near(t2.measure, t.measure, "volume asked again")


def tria_sizes(e):
    H = e.mod("bgem.gmsh.heal_mesh")
    p = points(e, 3, {0: ALL, 1: ALL, 2: ALL})
    t = H.Triangle(e.arr(p))
    e.check(t.dim == 2 and H.Line(e.arr(p[:2])).dim == 1 and H.Point(e.arr(p[:1])).dim == 0, "dimension")
    n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    for x, y in zip(t.normal(), n):
        e.near(x, y, "normal of the triangle")
    e.near(2 * t.measure, sqrt(e, dot(n, n)), "area")
    e.near(2 * t.measure, sqrt(e, dot(n, n)), "area asked again")
    for i, ((a, b), v, l) in enumerate(zip(H.Triangle.edges, t.edge_vectors, t.edge_lens)):
        e.check({a, b, i} == {0, 1, 2}, "edge is opposite to the node of its index")
        d = sub(p[b], p[a])
        for x, y in zip(v, d):
            e.near(x, y, "edge vector")
        e.near(l, sqrt(e, dot(d, d)), "length of an edge")
    d = sub(p[1], p[0])
    e.near(H.Line(e.arr(p[:2])).measure, sqrt(e, dot(d, d)), "length of a line")
    e.check(H.Point(e.arr(p[:1])).measure == 0, "size of a point")


def regular_tet(e, k):
    """In a cube."""
    return [[0, 0, 0], [k, k, 0], [k, 0, k], [0, k, k]]


def regular(e):
    """Regular elements have quality one, whatever their size and place."""
    H = e.mod("bgem.gmsh.heal_mesh")
    k, s = e.real("k", "0.001", 1000), [e.real("s%d" % i, -5, 5) for i in range(3)]
    dim = e.choice("dim", [2, 3])
    p = regular_tet(e, k)[:dim + 1]
    p = [[x + y for x, y in zip(a, s)] for a in p]
    if e.choice("mirrored", [0, 1]):
        p[0], p[1] = p[1], p[0]
    t = (H.Triangle if dim == 2 else H.Tetrahedron)(e.arr(p))
    e.near(t.gmsh_gamma(), 1, "gamma of a regular element")
    if dim == 2:
        q = t.smooth_grad_error_indicator()
        e.near(q * q * q, 1, "gradient error indicator of a regular element")
    e.near(t.small_edge_ratio(), 1, "ratio of edges of a regular element")
    e.near(t.flat_indicator(), sqrt(e, e.lit("0.75") if dim == 2 else e.lit(2) / 3), "flatness of a regular element")


def tet_quality(e, shape):
    """Values of the qualities of a tetrahedron of any size, in any place and with any numbering of nodes."""
    H = e.mod("bgem.gmsh.heal_mesh")
    p = SHAPES[shape]
    per = e.choice("order", list(itertools.permutations(range(4))))
    k, s = e.real("k", "0.001", 1000), [e.real("s%d" % i, -5, 5) for i in range(3)]
    q = [[p[i][c] * k + s[c] for c in range(3)] for i in per]
    t = H.Tetrahedron(e.arr(q))
    root = lambda x: Fr(math.isqrt(x.numerator), math.isqrt(x.denominator))
    A = {frozenset(f): root(Fr(area2sq(*[p[i] for i in f]))) / 2 for f in itertools.combinations(range(4), 3)}
    L = {frozenset(f): root(Fr(dot(sub(p[f[0]], p[f[1]]), sub(p[f[0]], p[f[1]])))) for f in itertools.combinations(range(4), 2)}
    V, SA = abs(Fr(vol6(p), 6)), sum(A.values())
    # center of the circumscribed sphere
    u, v, w = (sub(p[i], p[0]) for i in (1, 2, 3))
    d = 2 * vol6(p)
    c = [Fr(dot(u, u) * a + dot(v, v) * b + dot(w, w) * c, d) for a, b, c in zip(cross(v, w), cross(w, u), cross(u, v))]
    # gamma = 3 * inradius / circumradius
    g2 = (9 * V / SA) ** 2 / dot(c, c)
    g = t.gmsh_gamma()
    e.check(bool(g > 0), "gamma is not positive")
    e.near(g * g, e.lit(str(g2)), "gamma is not 3 * inradius / circumradius", tol=1e-7)
    e.near(t.gmsh_gamma(), g, "gamma asked again")
    # V * (sum of areas / sum over edges of squared length times areas of the faces of the edge) ** (3 / 4)
    S = sum(L[x] ** 2 * math.prod(A[f] for f in A if x <= f) for x in L)
    q = t.smooth_grad_error_indicator()
    want = float(V) * float(SA / S) ** 0.75 * 9 / (2 * math.sqrt(2 / 3))
    e.near(q, e.lit(repr(want)), "gradient error indicator", tol=1e-6)
    e.near(t.small_edge_ratio(), e.lit(str(min(L.values()) / max(L.values()))), "ratio of edges")
    e.near(t.flat_indicator(), e.lit(str(3 * V / max(A.values()) / max(L.values()))), "flatness")


def permuted(e, dim, free):
    """The numbering of nodes does not matter."""
    H = e.mod("bgem.gmsh.heal_mesh")
    C = H.Tetrahedron if dim == 3 else H.Triangle
    p = points(e, dim + 1, free)
    per = e.choice("order", PERM4 if dim == 3 else PERM3)
    if dim == 3:
        e.assume(vol6(p) > e.lit("0.01"))
    else:
        e.assume(area2sq(*p) > e.lit("0.01"))
    a, b = C(e.arr(p)), C(e.arr([p[i] for i in per]))
    odd = sum(per[i] > per[j] for i in range(dim + 1) for j in range(i + 1, dim + 1)) % 2
    e.near(b.measure, -a.measure if odd and dim == 3 else a.measure, "size of a renumbered element")
    e.near(a.smooth_grad_error_indicator(), b.smooth_grad_error_indicator(), "gradient error indicator of a renumbered element")
    e.near(a.gmsh_gamma(), b.gmsh_gamma(), "gamma of a renumbered element")
    if len(free) == 1 and len(list(free.values())[0]) == 1:
        e.near(a.small_edge_ratio(), b.small_edge_ratio(), "ratio of edges of a renumbered element")
        e.near(a.flat_indicator(), b.flat_indicator(), "flatness of a renumbered element")


def scaled(e, dim, free):
    """Scale and shift do not matter."""
    H = e.mod("bgem.gmsh.heal_mesh")
    C = H.Tetrahedron if dim == 3 else H.Triangle
    p = points(e, dim + 1, free)
    if dim == 3:
        e.assume(vol6(p) > e.lit("0.01"))
    else:
        e.assume(area2sq(*p) > e.lit("0.01"))
    k, s = e.choice("scale", [2, 1000, "0.01"]), [e.real("s%d" % i, -3, 3) for i in range(3)]
    k = e.lit(k)
    q = [[(x + y) * k for x, y in zip(a, s)] for a in p]
    a, b = C(e.arr(p)), C(e.arr(q))
    e.near(a.gmsh_gamma(), b.gmsh_gamma(), "gamma of a scaled element")
    e.near(a.smooth_grad_error_indicator() ** 3, b.smooth_grad_error_indicator() ** 3, "gradient error indicator of a scaled element")
    e.near(b.measure, a.measure * k ** dim, "size of a scaled element", tol=1e-5)


def tria_quality(e, free):
    H = e.mod("bgem.gmsh.heal_mesh")
    p = points(e, 3, free)
    S = area2sq(*p)      # 4 * area ** 2
    e.assume(S > e.lit("0.01"))
    t = H.Triangle(e.arr(p))
    l = [sqrt(e, dot(sub(p[a], p[b]), sub(p[a], p[b]))) for a, b in ((1, 2), (2, 0), (0, 1))]
    g = t.gmsh_gamma()
    # 2 r / R, r = 2 area / o, R = a b c / (4 area)
    o = l[0] + l[1] + l[2]
    e.near(g * o * l[0] * l[1] * l[2], 4 * S, "gamma is not 2 * inradius / circumradius", tol=1e-5)
    q = t.smooth_grad_error_indicator()
    # (4 / sqrt(3) * area) ** 3 / (abc) ** 2
    lhs, rhs = q * q * q * (l[0] * l[1] * l[2]) ** 2, (2 / sqrt(e, e.lit(3))) ** 3 * S * sqrt(e, S)
    e.near(lhs, rhs, "gradient error indicator", tol=1e-5 * (1 if e.symbolic else max(1, abs(rhs))))


def tria_range(e):
    """Qualities of triangles are between zero and one."""
    H = e.mod("bgem.gmsh.heal_mesh")
    x, y = e.real("x", "0.5", 3), e.real("y", "0.01", 3)
    t = H.Triangle(e.arr([[0, 0, 0], [1, 0, 0], [x, y, 0]]))
    g = t.gmsh_gamma()
    e.leq(g, 1, "gamma above one")
    e.leq(0, g, "negative gamma")


def flat(e, what):
    """Flat elements have no volume and quality zero; no failure."""
    H = e.mod("bgem.gmsh.heal_mesh")
    x = e.real("x", "0.1", "0.9")
    p = {"on circle": [[0, 0, 0], [1, 0, 0], [1, x, 0], [0, x, 0]],
         "quad": [[0, 0, 0], [1, 0, 0], [1, 1, 0], [x, 2, 0]],
         "inside": [[0, 0, 0], [2, 0, 0], [0, 2, 0], [x, x, 0]]}[what]
    per = e.choice("order", [[0, 1, 2, 3]] + PERM4)
    t = H.Tetrahedron(e.arr([p[i] for i in per]))
    e.near(t.measure, 0, "volume of a flat tetrahedron")
    e.near(t.gmsh_gamma(), 0, "gamma of a flat tetrahedron")
    e.near(t.smooth_grad_error_indicator(), 0, "gradient error indicator of a flat tetrahedron")
    e.near(t.flat_indicator(), 0, "flatness of a flat tetrahedron")


def ratios(e, dim):
    """Ratios: shortest to longest edge, smallest altitude to longest edge."""
    H = e.mod("bgem.gmsh.heal_mesh")
    i = e.choice("node", range(dim + 1))
    p = points(e, dim + 1, {i: (e.choice("coordinate", ALL),)})
    if dim == 3:
        v = vol6(p)
        e.assume(v > e.lit("0.01"))
    else:
        e.assume(area2sq(*p) > e.lit("0.01"))
    t = (H.Tetrahedron if dim == 3 else H.Triangle)(e.arr(p))
    d2 = [dot(sub(p[a], p[b]), sub(p[a], p[b])) for a in range(dim + 1) for b in range(a)]
    r, fl = t.small_edge_ratio(), t.flat_indicator()
    if dim == 3:
        alt2 = [v * v / area2sq(*[p[j] for j in range(4) if j != k]) for k in range(4)]
    else:
        alt2 = [area2sq(*p) / d for d in d2]
    lo = hi = d2[0]
    for d in d2[1:]:
        lo = d if bool(d < lo) else lo
        hi = d if bool(d > hi) else hi
    al = alt2[0]
    for d in alt2[1:]:
        al = d if bool(d < al) else al
    e.near(r * sqrt(e, hi), sqrt(e, lo), "ratio of the shortest and the longest edge")
    e.near(fl * fl * hi, al, "ratio of the smallest altitude and the longest edge")


def skew(e):
    H = e.mod("bgem.gmsh.heal_mesh")
    p = points(e, 4, {3: ALL, 2: ALL})
    n = cross(sub(p[1], p[0]), sub(p[3], p[2]))
    e.assume(dot(n, n) > e.lit("0.01"))
    d, nn = H.Tetrahedron(e.arr(p)).skew_line_dist()
    e.near(dot(nn, nn), 1, "unit normal")
    e.near(dot(nn, sub(p[1], p[0])), 0, "normal to the first line")
    e.near(dot(nn, sub(p[3], p[2])), 0, "normal to the second line")
    e.near(d, dot(nn, sub(p[0], p[2])), "distance of the lines")


class Mesh:
    def __init__(self, nodes, elements):
        self.nodes, self.elements, self.physical = nodes, elements, {}


def statistics(e):
    """Every triangle and tetrahedron is counted once, in the bin of its quality."""
    H = e.mod("bgem.gmsh.heal_mesh")
    nodes = {i: e.arr([e.lit(c) for c in x]) for i, x in enumerate(TET)}
    els = {5: (2, [1], [0, 1, 2]), 2: (4, [1], [0, 1, 2, 3]), 9: (1, [1], [0, 1]), 4: (15, [1], [3])}
    hm = H.HealMesh(Mesh(nodes, els))
    q, free = {}, e.choice("free", [(5, "gmsh_gamma"), (2, "gmsh_gamma"), (5, "smooth_grad_error_indicator"), (2, "smooth_grad_error_indicator")])
    for C, k in ((H.Triangle, 5), (H.Tetrahedron, 2)):
        for m in ("smooth_grad_error_indicator", "gmsh_gamma"):
            q[k, m] = e.real("%d%s" % (k, m), 0, "1.5") if (k, m) == free else e.lit("0.02") if k == 2 else e.lit("0.3")
            setattr(C, m, lambda self, x=q[k, m]: x)
    tol = e.lit(e.choice("tol", ["0.01", "0.3"]))
    hist, bins, bad = hm.quality_statistics(tol)
    e.check(set(hist) == {"flow_stats", "gamma_stats"} and set(bad) == set(hist), "names of the statistics")
    for name, m in (("flow_stats", "smooth_grad_error_indicator"), ("gamma_stats", "gmsh_gamma")):
        want = [0] * len(bins)
        for k in (5, 2):
            i = 0
            while not bool(q[k, m] < bins[i]):
                i += 1
            want[i] += 1
            e.check((k in bad[name]) == bool(q[k, m] <= tol), "list of bad elements")
        e.check(all(bool(a == b) for a, b in zip(hist[name], want)), "histogram of qualities")
        e.check(len(bad[name]) == len(set(bad[name])), "repeated bad elements")


def jobs():
    out = [
        Job("sizes_all", sizes, {"free": {0: ALL, 1: ALL, 2: ALL, 3: ALL}}, minmax="atom", bounds="any four points"),
        Job("tria_sizes", tria_sizes, minmax="atom", bounds="any three points"),
        Job("regular", regular, bounds="regular triangle and tetrahedron of any size in [0.001, 1000], shifted"),
        Job("skew", skew, bounds="lines given by two fixed and two arbitrary points"),
        Job("statistics", statistics, bounds="a triangle and a tetrahedron, one of the qualities is any number in [0, 1.5]", minmax="atom"),
        Job("tria_range", tria_range, bounds="third node of a triangle anywhere in a box (one half of the plane by symmetry)"),
    ]
    for sh in SHAPES:
        out.append(Job("tet_quality_" + sh, tet_quality, {"shape": sh}, bounds="a tetrahedron with rational edges and areas, any size in [0.001, 1000], shifted, all 24 orders of nodes"))
    for n, fr in (("one", {2: ALL}),):
        out.append(Job("tria_quality_" + n, tria_quality, {"free": fr}, bounds="triangles with free coordinates %s" % fr))
        out.append(Job("permuted2_" + n, permuted, {"dim": 2, "free": fr}, bounds="the same, renumbered"))
        out.append(Job("scaled2_" + n, scaled, {"dim": 2, "free": fr}, bounds="the same, scaled and shifted"))
    out.append(Job("permuted2_line", permuted, {"dim": 2, "free": {2: (0,)}}))
    for w in ("on circle", "quad", "inside"):
        out.append(Job("flat_" + w.replace(" ", "_"), flat, {"what": w}, bounds="flat tetrahedra of one parameter, nine orders of nodes"))
    for d in (2, 3):
        out.append(Job("ratios%d" % d, ratios, {"dim": d}, bounds="one free coordinate"))
    for j in out:
        j.symchoice = True
    return out
