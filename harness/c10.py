"""C10: a displacement is accepted exactly when the moved points and segments cross nothing around; moving is exact."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, check_boxes, STUB

OUTSIDE = ("Contacts without a proper crossing (a moved point ending exactly on a segment, parallel overlaps): the answer is "
           "not constrained there. Objects swept over without any crossing of the moved points' paths or of the final segments.")


def proper_cross(e, a, b, c, d):
    """Do segments ab and cd cross properly?  1 yes, 0 no, -1 they (nearly) touch."""
    ab, cd = O.sub(b, a), O.sub(d, c)
    s1, s2 = O.cross(ab, O.sub(c, a)), O.cross(ab, O.sub(d, a))
    r1, r2 = O.cross(cd, O.sub(a, c)), O.cross(cd, O.sub(b, c))
    m = e.lit("0.000001")
    near = False
    for x, y in ((s1, s2), (r1, r2)):
        if x < 0:
            x, y = -x, -y
        if x > 0 and y > 0:
            return 0
        if not (x > m * (x - y) and -y > m * (x - y)):
            near = True
    return -1 if near else 1


def check(e, t, pts, box):
    p = Poly(e).build(OBSTACLE if t == "obstacle" else t)
    d = p.d
    moved = [p.find(q) for q in pts]
    ids = [m.id for m in moved]
    dx, dy = e.real("dx", box[0], box[2]), e.real("dy", box[1], box[3])
    P, S = O.graph_of(d)
    F, poly_of = O.check_topology(e, d, "template")
    kof = {id(q): q for q in poly_of.values()}
    # polygons along the moved segments, from the oracle's faces
    face_poly = {}
    for k in range(len(F.orbits)):
        face_poly[k] = poly_of[k] if F.positive[k] else poly_of[F.comp_face[F.comp[F.rings[k][0]]]]
    mseg = {s for s, v in S.items() if v[0] in ids or v[1] in ids}
    changed = {face_poly[F.orbit_of[(s, side)]].id for s in mseg for side in (0, 1)}
    around = {s for s in S if s not in mseg and
              any(face_poly[F.orbit_of[(s, side)]].id in changed for side in (0, 1))}
    D = e.arr([dx, dy])
    r = d.check_displacment(moved, D)
    e.check(O.graph_of(d)[1] == S and all(q[0] == P[i][0] and q[1] == P[i][1] for i, q in O.graph_of(d)[0].items()),
            "checking a displacement changed the decomposition")
    ch = d.get_last_polygon_changes()
    if mseg:
        e.check(ch[0] == p.decomp_mod.PolygonChange.shape and sorted(ch[1]) == sorted(changed),
                "reported polygons are not those along the moved segments")

    def new(i):
        return (P[i][0] + dx, P[i][1] + dy) if i in ids else P[i]
    hits = {}
    for s in sorted(S):
        if s in mseg:
            continue
        c, f = P[S[s][0]], P[S[s][1]]
        h = [proper_cross(e, P[i], new(i), c, f) for i in ids]
        for m in sorted(mseg):
            if set(S[m]) & set(S[s]) and not (set(S[m]) & set(S[s])) <= set(ids):
                # shares a fixed end point: they can meet in it only (or overlap)
                continue
            h.append(proper_cross(e, new(S[m][0]), new(S[m][1]), c, f))
        hits[s] = 1 if 1 in h else (-1 if -1 in h else 0)
        if hits[s] == 1 and s in around:
            e.check(r is False or not r, "a displacement through a segment of a surrounding polygon is accepted")
            return
    if all(v == 0 for v in hits.values()):
        e.check(bool(r), "a displacement that crosses nothing is rejected")


def move(e, t, pts, box, lookup=False):
    """A displacement that collides with nothing: everything else is as before, boxes and vectors follow."""
    p = Poly(e, lookup=lookup).build(t)
    d = p.d
    moved = [p.find(q) for q in pts]
    ids = [m.id for m in moved]
    dx, dy = e.real("dx", box[0], box[2]), e.real("dy", box[1], box[3])
    P, S = O.graph_of(d)
    D = e.arr([dx, dy])
    r = d.check_displacment(moved, D)
    e.check(bool(r), "a displacement that crosses nothing is rejected")
    d.move_points(moved, D)
    P1, S1 = O.graph_of(d)
    e.check(S1 == S and set(P1) == set(P), "moving points changed the segments")
    for i in P:
        k = 1 if i in ids else 0
        e.near(P1[i][0], P[i][0] + k * dx, "a point is not where it was moved to")
        e.near(P1[i][1], P[i][1] + k * dy, "a point is not where it was moved to")
    O.check_topology(e, d, "after move_points")
    check_boxes(e, d, "after move_points")
    if lookup:
        q = d.add_point(e.arr([P1[ids[0]][0], P1[ids[0]][1]]))
        e.check(q is moved[0], "a moved point is not found at its new place")
    # the stored direction vectors are current: a new segment is linked in the right place
    for s in sorted(S):
        v = d.segments[s].vector
        e.near(v[0], P1[S[s][1]][0] - P1[S[s][0]][0], "direction of a segment is stale after the move")
        e.near(v[1], P1[S[s][1]][1] - P1[S[s][0]][1], "direction of a segment is stale after the move")


OBSTACLE = [("L", (0, 0), (8, 0)), ("L", (8, 0), (8, 8)), ("L", (8, 8), (0, 8)), ("L", (0, 8), (0, 0)),
            ("L", (4, 3), (5, 2)), ("L", (5, 2), (5, 4)), ("L", (5, 4), (4, 3)), ("L", (1, 1), (1, 5))]
CHECKS = [("obstacle", [(1, 1), (1, 5)], (0, -1, 5, 2), "quick"),
          ("obstacle", [(1, 1), (1, 5)], (-2, -4, 7, 5), "thorough"),
          ("obstacle", [(0, 0)], (2, 1, 5, 3), "quick"),
          ("obstacle", [(4, 3)], (-4, -1, -1, 0), "quick"),
          ("obstacle", [(0, 0)], (-1, -1, 6, 4), "thorough"),
          ("obstacle", [(4, 3)], (-4, -1, 1, 3), "thorough"),
          ("triangle", [(0, 0)], (-2, -2, 5, 5), "quick"),
          ("fan", [(2, 2)], (-4, -4, 4, 4), "thorough"),
          ("fan", [(0, 0), (2, 2)], (-1, -1, 4, 4), "quick"),
          ("adjacent", [(2, 3)], (-3, -4, 3, 2), "thorough"),
          ("adjacent", [(2, 3), (2, 0)], (-3, -4, 3, 2), "quick"),
          ("hole", [(2, 2)], (-3, -1, 1, 0), "quick"),
          ("hole", [(2, 2), (4, 2), (4, 4), (2, 4)], (-3, -3, 3, 3), "thorough"),
          ("square_dendrite", [(3, 2)], (-3, -1, 2, 3), "quick"),
          ("square_dendrite", [(3, 2)], (-3, -3, 4, 4), "thorough"),
          ("square_dendrite", [(1, 2), (3, 2)], (-3, -3, 4, 4), "thorough"),
          ("hole_joined", [(0, 0)], (-2, -2, 6, 6), "thorough"),
          ("two_holes", [(2, 3)], (-2, -4, 6, 3), "thorough"),
          ("nested", [(4, 5)], (-5, -5, 5, 5), "thorough"),
          ("wheel", [(4, 4)], (-4, -4, 4, 4), "thorough"),
          ("hole", [(2, 2)], (-3, -3, 3, 3), "thorough"),
          ("star", [(3, 3)], (-3, -3, 3, 3), "quick")]
MOVES = [("fan", [(2, 2)], (-1, -1, 1, 1), False), ("hole", [(2, 2), (4, 2), (4, 4), (2, 4)], ("-0.5", "-0.4", "0.5", "0.4"), False),
         ("square_points", [(1, 2)], (0, -1, 1, 1), True), ("triangle", [(0, 0)], (-1, -1, "0.5", "0.5"), True),
         ("square_dendrite", [(1, 2), (3, 2)], (0, 0, "0.4", 1), False), ("adjacent", [(2, 3), (2, 0)], (0, 0, "0.5", 0), False)]


def jobs():
    J = []
    for n, (t, pts, box, tier) in enumerate(CHECKS):
        J.append(Job("check%d:%s" % (n, t), check, {"t": t, "pts": pts, "box": box}, tier=tier, weight=5, assumptions=[STUB],
                     bounds="template %s, points %s moved by any vector in %s" % (t, pts, box)))
    for n, (t, pts, box, lk) in enumerate(MOVES):
        J.append(Job("move%d:%s" % (n, t), move, {"t": t, "pts": pts, "box": box, "lookup": lk}, weight=3,
                     minmax="atom" if lk else "fork",
                     bounds="template %s, points %s moved by any vector in %s%s" % (t, pts, box, ", real lookup" if lk else "")))
    return J
