"""C11: the intersection of decompositions is their common refinement and its maps name the right originals."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import TEMPLATES, STUB, stub_lookup_class

OUTSIDE = ("Pairs of decompositions other than the listed families; objects closer than 1e-4 but not coincident; tolerances "
           "other than the default.")

T = dict(TEMPLATES)
T["small_square"] = [("L", (0, 0), (2, 0)), ("L", (2, 0), (2, 2)), ("L", (2, 2), (0, 2)), ("L", (0, 2), (0, 0))]
T["line"] = [("L", (0, 0), (2, 0))]
T["cross"] = [("L", (0, 2), (4, 2)), ("L", (2, 0), (2, 4))]
T["grid"] = [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 2)), ("L", (4, 2), (0, 2)), ("L", (0, 2), (0, 0)), ("L", (2, 0), (2, 2))]
T["two_triangles"] = [("L", (0, 0), (2, 0)), ("L", (2, 0), (0, 2)), ("L", (0, 2), (0, 0)),
                      ("L", (5, 0), (7, 0)), ("L", (7, 0), (5, 2)), ("L", (5, 2), (5, 0))]
T["point"] = [("P", (0, 0))]
T["big"] = [("L", (-1, -1), (9, -1)), ("L", (9, -1), (9, 9)), ("L", (9, 9), (-1, 9)), ("L", (-1, 9), (-1, -1))]


def build(e, t, dx, dy):
    """The points of the decomposition are placed by the public interface; candidate lookup is real."""
    P = e.mod("bgem.polygons.polygons")
    d = P.PolygonDecomposition(e.lit("0.001"))

    def xy(p):
        return e.arr([e.lit(p[0]) + dx, e.lit(p[1]) + dy])
    for o in T[t]:
        if o[0] == "L":
            d.add_line(xy(o[1]), xy(o[2]))
        else:
            d.add_point(xy(o[1]))
    return d


def separated(e, D):
    """Vertices of one are on a segment/vertex of another exactly, or at least 1e-4 away from its line."""
    m = e.lit("0.0001")
    for i, a in enumerate(D):
        for j, b in enumerate(D):
            if i == j:
                continue
            pa, pb = O.graph_of(a)[0], O.graph_of(b)
            for p in pa.values():
                for u, v in pb[1].values():
                    c = O.cross(O.sub(pb[0][v], pb[0][u]), O.sub(p, pb[0][u]))
                    if not e.iszero(c, 10):
                        e.assume(c > m or c < -m)
                        continue
                    for w in (u, v):
                        z = O.sub(p, pb[0][w])
                        q = O.dot(z, z)
                        if not e.iszero(q, 1):
                            e.assume(q > m)
                for w in pb[0].values():
                    z = O.sub(p, w)
                    if not (z[0] == 0 and z[1] == 0):
                        q = O.dot(z, z)
                        if not e.iszero(q, 1):
                            e.assume(q > m)


def same(e, p, q):
    return e.iszero(p[0] - q[0], 10) and e.iszero(p[1] - q[1], 10)


def merged(e, ts, at, par, rng, lookup=False):
    if not lookup:
        stub_lookup_class(e)
    s = e.real("s", *rng)
    D = []
    for k, t in enumerate(ts):
        dx, dy = e.lit(at[k][0]) + s * e.lit(par[k][0]), e.lit(at[k][1]) + s * e.lit(par[k][1])
        D.append(build(e, t, dx, dy))
    separated(e, D)
    if e.choice("order", [0, 1]):
        D = D[::-1]
    G = [O.graph_of(d) for d in D]
    FP = [O.check_topology(e, d, "input") for d in D]
    M = e.mod("bgem.polygons.merge")
    common, maps = M.intersect_decompositions(D)
    F, poly_of = O.check_topology(e, common, "intersection")
    O.check_simple(e, common, "intersection")
    e.check(len(maps) == len(D), "one map for every input")
    for d, g in zip(D, G):
        g1 = O.graph_of(d)
        e.check(g1[1] == g[1] and all(g1[0][i][0] == p[0] and g1[0][i][1] == p[1] for i, p in g[0].items()),
                "an input decomposition was changed")
    pts, segs = O.graph_of(common)
    for (gp, gs), (f, fpoly), d, mp in zip(G, FP, D, maps):
        # points
        for i, p in gp.items():
            im = [k for k, q in pts.items() if same(e, p, q)]
            e.check(len(im) == 1, "a point of an input is missing in the intersection")
            e.check(mp[0].get(im[0]) == i, "point map: wrong original")
        for k, i in mp[0].items():
            if k in pts:
                e.check(i in gp and same(e, pts[k], gp[i]), "point map: a point without original is mapped")
        # segments
        on = {}
        for k, (u, v) in segs.items():
            for i, (a, b) in gs.items():
                ab = O.sub(gp[b], gp[a])
                if not all(e.iszero(O.cross(ab, O.sub(pts[w], gp[a])), 10) for w in (u, v)):
                    continue
                mid = ((pts[u][0] + pts[v][0]) / 2, (pts[u][1] + pts[v][1]) / 2)
                t = O.dot(ab, O.sub(mid, gp[a]))
                if t > 0 and t < O.dot(ab, ab):
                    on[k] = (i, bool(O.dot(ab, O.sub(pts[v], pts[u])) > 0))
                    break
            e.check(mp[1].get(k) == (on[k][0] if k in on else None), "segment map: wrong original")
        for i, (a, b) in gs.items():
            parts = [k for k in on if on[k][0] == i]
            tot = 0
            ab = O.sub(gp[b], gp[a])
            for k in parts:
                w = O.dot(ab, O.sub(pts[segs[k][1]], pts[segs[k][0]]))
                tot = tot + (w if on[k][1] else -w)
            e.near(tot, O.dot(ab, ab), "a segment of an input is not covered by the intersection")
        # polygons: decided at every side of every segment
        fp = {}
        for kk in range(len(f.orbits)):
            fp[kk] = fpoly[kk] if f.positive[kk] else fpoly[f.comp_face[f.comp[f.rings[kk][0]]]]
        for k, (u, v) in segs.items():
            mid = ((pts[u][0] + pts[v][0]) / 2, (pts[u][1] + pts[v][1]) / 2)
            if k not in on:
                o = fpoly[f.locate(mid)].id
            for side in (0, 1):
                if k in on:
                    i, along = on[k]
                    o = fp[f.orbit_of[(i, side if along else 1 - side)]].id
                ob = F.orbit_of[(k, side)]
                c = poly_of[ob] if F.positive[ob] else poly_of[F.comp_face[F.comp[F.rings[ob][0]]]]
                e.check(mp[2].get(c.id) == o, "polygon map: wrong original")
        e.check(mp[2].get(common.outer_polygon.id) == d.outer_polygon.id, "polygon map: outer polygon")
        e.check(set(common.polygons) <= set(mp[2]), "polygon map: a polygon of the intersection is not mapped")


FAM = [
    # templates, base shifts, parameter directions, range, tier
    (("square", "small_square"), [(0, 0), (1, 1)], [(0, 0), (1, 0)], (-4, 4), "quick"),
    (("square", "triangle"), [(0, 0), (1, 1)], [(0, 0), (1, "0.5")], (-2, 2), "quick"),
    (("grid", "small_square"), [(0, 0), (1, 1)], [(0, 0), (0, 1)], (-3, 1), "quick"),
    (("square", "line"), [(0, 0), (1, 0)], [(0, 0), (0, 1)], (-1, 5), "quick"),
    (("adjacent", "cross"), [(0, 0), (0, 0)], [(0, 0), (1, 0)], (-1, 1), "quick"),
    (("hole", "line"), [(0, 0), (0, 3)], [(0, 0), (1, 0)], (-3, 6), "quick"),
    (("square", "point"), [(0, 0), (0, 0)], [(0, 0), (1, 1)], (-1, 5), "quick"),
    (("big", "two_triangles"), [(0, 0), (0, 0)], [(0, 0), (0, 1)], (-3, 3), "quick"),
    (("two_triangles", "small_square"), [(0, 0), (0, 0)], [(0, 0), (1, 0)], (-3, 8), "thorough"),
    (("square", "square_dendrite"), [(0, 0), (0, 1)], [(0, 0), (1, 0)], (-2, 2), "thorough"),
    (("hole", "square"), [(0, 0), (0, 1)], [(0, 0), (1, 0)], (-2, 4), "thorough"),
    (("nested", "line"), [(0, 0), (0, 4)], [(0, 0), (1, 0)], (-1, 7), "thorough"),
    (("nested", "small_square"), [(0, 0), (3, 3)], [(0, 0), (1, "0.3")], (-3, 3), "thorough"),
    (("two_holes", "grid"), [(0, 0), (2, 1)], [(0, 0), (1, 0)], (-3, 3), "thorough"),
    (("square", "small_square", "line"), [(0, 0), (1, 1), (0, 2)], [(0, 0), (0, 0), (1, 0)], (-1, 4), "quick"),
    (("grid", "triangle", "small_square"), [(0, 0), (0, 0), (1, 0)], [(0, 0), (0, 0), (0, 1)], (-2, 2), "thorough"),
    (("square_points", "small_square"), [(0, 0), (1, 1)], [(0, 0), (0, 1)], (-2, 2), "thorough"),
    (("hole",), [(0, 0)], [(1, "0.5")], (-1, 1), "quick"),
    (("square", "square"), [(0, 0), (0, 0)], [(0, 0), (1, 0)], (-1, 5), "quick"),
    (("hole_joined", "hole"), [(0, 0), (0, 0)], [(1, 0), (1, 0)], (-1, 1), "quick"),
    (("square", "square", "square"), [(0, 0), (2, 2), (0, 0)], [(0, 0), (0, 0), (1, 1)], (0, 2), "thorough"),
    (("fan", "small_square"), [(0, 0), (1, 1)], [(0, 0), (1, 0)], (-2, 2), "thorough"),
]


def jobs():
    J = []
    for n, (ts, at, par, rng, tier) in enumerate(FAM):
        J.append(Job("merge%d:%s" % (n, "+".join(ts)), merged, dict(ts=ts, at=at, par=par, rng=rng), tier=tier, weight=6,
                     path_s=60, assumptions=[STUB],
                     bounds="templates %s at %s + s*%s, s in %s, both orders" % (ts, at, par, rng)))
    ts, at, par, rng, tier = FAM[3]
    J.append(Job("lookup:" + "+".join(ts), merged, dict(ts=ts, at=at, par=par, rng=rng, lookup=True), weight=9,
                 minmax="atom", path_s=60,
                 bounds="templates %s at %s + s*%s, s in %s, both orders, real box lookup" % (ts, at, par, rng)))
    return J
