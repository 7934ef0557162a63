"""C03: add_point snaps to what is within the tolerance and otherwise creates a point exactly where asked."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, check_boxes, STUB

OUTSIDE = "Tolerances other than those of the jobs; more than two objects within the tolerance."


def d2(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


def seg_dist2(p, a, b):
    """Squared distance of p to segment ab as (d2, t) with t the clamped parameter."""
    ab, ap = O.sub(b, a), O.sub(p, a)
    n, l = O.dot(ab, ap), O.dot(ab, ab)
    if n <= 0:
        return d2(p, a), 0
    if n >= l:
        return d2(p, b), 1
    t = n / l
    return d2(p, (a[0] + t * ab[0], a[1] + t * ab[1])), t


def add(e, t, box, tol, lookup=False, again=True):
    P = Poly(e, lookup=lookup, tol="0.001").build(t)
    d = P.d
    d.set_tolerance(e.lit(tol))
    T = e.lit(tol)
    q = e.arr([e.real("x", box[0], box[2]), e.real("y", box[1], box[3])])
    p = (q[0], q[1])
    pts, segs = O.graph_of(d)
    F0, poly0 = O.check_topology(e, d, "template")
    near_pts = [i for i in pts if d2(p, pts[i]) < T * T]
    near = []
    for i, (u, v) in segs.items():
        D, tt = seg_dist2(p, pts[u], pts[v])
        if D < T * T:
            near.append((i, tt))
    r = d.add_point(q)
    e.check(d.points.get(r.id) is r, "add_point returned a point that is not registered")
    pts1, segs1 = O.graph_of(d)
    same = all(pts1[i][0] == pts[i][0] and pts1[i][1] == pts[i][1] for i in pts if i in pts1)
    e.check(set(pts) <= set(pts1) and same, "add_point moved or removed an existing point")
    if near_pts:
        e.check(r.id in near_pts, "not snapped to a point within the tolerance")
        e.check(len(pts1) == len(pts) and segs1 == segs, "snapping to a point changed the decomposition")
    elif near:
        if len(near) == 1:
            i, tt = near[0]
            a, b = pts[segs[i][0]], pts[segs[i][1]]
            x = (a[0] + tt * (b[0] - a[0]), a[1] + tt * (b[1] - a[1]))
            end = [segs[i][k] for k, z in enumerate((a, b)) if d2(x, z) < T * T]
            if end:
                e.check(r.id in end, "projection within the tolerance of an end point is not snapped to it")
                e.check(len(pts1) == len(pts) and segs1 == segs, "snapping to an end point changed the decomposition")
            else:
                e.near(r.xy[0], x[0], "point is not the projection to the segment")
                e.near(r.xy[1], x[1], "point is not the projection to the segment")
        if r.id not in pts:
            # an existing segment was split
            e.check(len(pts1) == len(pts) + 1 and len(segs1) == len(segs) + 1, "split segment counts")
            parts = [i for i in segs1 if r.id in segs1[i]]
            e.check(len(parts) == 2, "new point on a segment does not divide it in two")
            ends = frozenset(v for i in parts for v in segs1[i] if v != r.id)
            old = [i for i, s in segs.items() if frozenset(s) == ends]
            e.check(len(old) == 1 and old[0] in [i for i, tt in near], "the divided segment was not within the tolerance")
            a, b = pts[segs[old[0]][0]], pts[segs[old[0]][1]]
            e.near(O.cross(O.sub(b, a), O.sub((r.xy[0], r.xy[1]), a)), 0, "new point is not on the divided segment")
            rest = {frozenset(s) for i, s in segs.items() if i != old[0]}
            e.check(rest <= {frozenset(s) for s in segs1.values()}, "another segment was changed")
    else:
        e.check(r.id not in pts, "snapped to a point farther than the tolerance")
        e.check(len(pts1) == len(pts) + 1 and segs1 == segs, "new free point changed something else")
        e.check(r.is_free(), "new point is not free")
        e.near(r.xy[0], p[0], "free point is not where it was asked for")
        e.near(r.xy[1], p[1], "free point is not where it was asked for")
    O.check_topology(e, d, "after add_point")
    if lookup:
        check_boxes(e, d, "after add_point")
    if again and len(near) <= 1:
        r2 = d.add_point(q)
        e.check(r2 is r, "adding the same point again returns another point")
        e.check(O.graph_of(d)[1] == segs1 and len(d.points) == len(pts1), "adding the same point again changed something")


def jobs():
    J = []
    for t, box, tol, tier in (
            ("empty", (-2, -2, 2, 2), "0.1", "quick"),
            ("segment", (0, 0, 4, 2), "0.3", "quick"),
            ("square", (-1, -1, 2, 2), "0.3", "quick"),
            ("square_points", (0, 0, 4, 4), "0.2", "quick"),
            ("triangle", (-1, -1, 5, 5), "0.1", "quick"),
            ("fan", (1, 1, 3, 3), "0.1", "quick"),
            ("square_dendrite", (-1, -1, 7, 5), "0.1", "thorough"),
            ("star", (1, 1, 6, 6), "0.1", "thorough"),
            ("hole_joined", (-1, -1, 7, 7), "0.1", "thorough"),
            ("adjacent", (-1, -1, 5, 4), "0.3", "thorough"),
            ("ushape", (-1, -1, 7, 5), "0.1", "thorough")):
        J.append(Job("add:" + t, add, {"t": t, "box": box, "tol": tol}, tier=tier, weight=5, assumptions=[STUB],
                     bounds="template %s, tolerance %s, point anywhere in %s" % (t, tol, box)))
    for t, box in (("segment", (0, "0.95", 4, "1.3")), ("square_points", ("0.5", "1.5", "2.5", "2.5"))):
        J.append(Job("lookup:" + t, add, {"t": t, "box": box, "tol": "0.2", "lookup": True}, weight=6,
                     minmax="atom", bounds="template %s with the real box lookup, tolerance 0.2, point anywhere in %s" % (t, box)))
    return J
