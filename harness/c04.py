"""C04: add_line covers the line from one end point to the other, divides what it crosses and moves nothing else."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, check_boxes, STUB

OUTSIDE = ("Lines other than the listed one-parameter families; lines that pass within the tolerance (0.01) of an "
           "existing vertex without hitting it: only structure is asserted for those.")


def on_segment(e, p, a, b):
    """p on the closed segment ab (exact)."""
    ab, ap = O.sub(b, a), O.sub(p, a)
    if not e.iszero(O.cross(ab, ap), 10):
        return False
    t = O.dot(ab, ap)
    return bool(t >= 0) and bool(t <= O.dot(ab, ab))


def near_pt(p, a, b, T):
    """squared distance of p from the line through a,b less than T^2, between the ends"""
    ab, ap = O.sub(b, a), O.sub(p, a)
    c, l = O.cross(ab, ap), O.dot(ab, ab)
    if not c * c < T * T * l:
        return False
    t = O.dot(ab, ap)
    return bool(t > 0) and bool(t < l)


def line(e, t, ln, rng, lookup=False, twice=True):
    p = Poly(e, lookup=lookup).build(t)
    d = p.d
    T = d.tolerance
    s = e.real("s", *rng)
    (ax, ay, bx, by), (ux, uy, vx, vy) = ln
    a = e.arr([e.lit(ax) + s * e.lit(ux), e.lit(ay) + s * e.lit(uy)])
    b = e.arr([e.lit(bx) + s * e.lit(vx), e.lit(by) + s * e.lit(vy)])
    A, B = d.add_point(a), d.add_point(b)
    pts0, segs0 = O.graph_of(d)
    pa, pb = pts0[A.id], pts0[B.id]
    close = [i for i in pts0 if i not in (A.id, B.id) and near_pt(pts0[i], pa, pb, T)]
    exact = all(on_segment(e, pts0[i], pa, pb) for i in close)
    if e.choice("dir", [0, 1]):
        A, B, a, b, pa, pb = B, A, b, a, pb, pa
    r = d.add_line(a, b)
    F, poly = O.check_topology(e, d, "after add_line")
    if A is B:
        return
    e.check(isinstance(r, list) and len(r) > 0, "add_line returned no segments")
    e.check(all(d.segments.get(g.id) is g for g in r), "add_line returned a segment that is not registered")
    # a chain of segments from A to B
    x = A.id
    chain = [x]
    for g in r:
        ends = [v.id for v in g.vtxs]
        e.check(x in ends, "segments of the new line are not connected")
        x = ends[1] if ends[0] == x else ends[0]
        chain.append(x)
    e.check(x == B.id, "the new line does not end in its end point")
    e.check(len(set(chain)) == len(chain), "the new line visits a point twice")
    pts, segs = O.graph_of(d)
    if exact:
        ab = O.sub(pb, pa)
        last = None
        for i in chain:
            e.near(O.cross(ab, O.sub(pts[i], pa)), 0, "a vertex of the new line is off the line")
            tt = O.dot(ab, O.sub(pts[i], pa))
            if last is not None:
                e.check(tt > last, "vertices of the new line are not ordered")
            last = tt
        for i in close:
            e.check(i in chain, "an existing point on the new line is not its vertex")
        O.check_simple(e, d, "after add_line")
    # what was there stays there: every old segment is a chain of collinear new ones
    e.check(set(pts0) <= set(pts), "an existing point disappeared")
    for i in pts0:
        e.check(pts[i][0] == pts0[i][0], "an existing point moved")
        e.check(pts[i][1] == pts0[i][1], "an existing point moved")
    edges = {frozenset(v) for v in segs.values()}
    for u, v in segs0.values():
        x0, x1 = pts0[u], pts0[v]
        if frozenset((u, v)) in edges:
            continue
        new = [i for i in pts if i not in pts0 and on_segment(e, pts[i], x0, x1)]
        dd = O.sub(x1, x0)
        order = []
        for i in new:
            k = 0
            while k < len(order) and bool(O.dot(dd, O.sub(pts[order[k]], x0)) < O.dot(dd, O.sub(pts[i], x0))):
                k += 1
            order.insert(k, i)
        way = [u] + order + [v]
        e.check(all(frozenset(w) in edges for w in zip(way[:-1], way[1:])), "an existing segment is no longer covered")
    if lookup:
        check_boxes(e, d, "after add_line")
    if twice and exact:
        r2 = d.add_line(a, b)
        e.check([g.id for g in r2] == [g.id for g in r], "adding the same line again returns other segments")
        e.check(O.graph_of(d)[1] == segs, "adding the same line again changed the segments")


LINES = [
    ("square", ((-1, 1, 5, 1), (0, 0, 0, 1)), (-2, 4), "quick"),
    ("square", ((1, 1, 6, 2), (0, 0, -2, 3)), (-1, 2), "quick"),
    ("square_points", ((-1, 2, 7, 2), (0, 1, 0, 1)), (-2, 2), "quick"),
    ("square_points", ((0, 0, 4, 4), (0, 1, 0, -1)), (0, 4), "quick"),
    ("hole", ((3, -1, 3, 7), (1, 0, "-0.5", 0)), (-3, 3), "quick"),
    ("hole", ((1, 1, 5, 5), (0, 1, 0, 0)), (-2, 2), "thorough"),
    ("adjacent", ((-1, "1.3", 5, "1.6"), (0, 1, 0, "0.5")), (-2, 2), "quick"),
    ("ushape", ((-1, 3, 7, 3), (0, 1, 0, "0.7")), (-2, 1), "thorough"),
    ("fan", ((-1, "1.9", 5, "0.4"), (0, 1, 0, 1)), (-1, 3), "quick"),
    ("star", ((0, 2, 6, 4), (0, 1, 0, -1)), (-2, 3), "thorough"),
    ("path", ((-1, -1, 3, 3), (1, 0, 1, 0)), (-2, 4), "quick"),
    ("segment", ((0, 1, 4, 1), (0, 1, 0, -1)), (-1, 1), "quick"),
    ("segment", ((0, 1, 2, 1), (0, 0, 1, 0)), (-3, 3), "quick"),
    ("square_dendrite", ((-1, "1.5", 7, "2.5"), (0, 1, 0, "0.3")), (-2, 2), "thorough"),
    ("nested", ((-1, 4, 9, 4), (0, 1, 0, "0.5")), (-4, 4), "thorough"),
    ("two_holes", ((-1, 2, 9, 2), (0, 1, 0, "-0.6")), (-2, 2), "thorough"),
]


def jobs():
    J = []
    for n, (t, ln, r, tier) in enumerate(LINES):
        J.append(Job("line%d:%s" % (n, t), line, {"t": t, "ln": ln, "rng": r, "twice": t not in ("fan", "adjacent", "hole")}, tier=tier, weight=7, assumptions=[STUB],
                     bounds="template %s, line %s + s*%s, s in %s, both directions" % (t, ln[0], ln[1], r)))
    J.append(Job("lookup:segment", line, {"t": "segment", "ln": ((2, 0, 2, 3), (1, 0, 0, 0)), "rng": (-2, 2), "lookup": True,
                                          "twice": False}, minmax="atom", weight=8,
                 bounds="template segment with the real box lookup, line (2,0)-(2,3) + s*(1,0,0,0), s in [-2,2]"))
    J.append(Job("lookup:square", line, {"t": "square", "ln": ((1, 1, 6, 2), (0, 0, 0, 1)), "rng": (-1, 1), "lookup": True,
                                         "twice": False}, minmax="atom", weight=8, tier="thorough",
                 bounds="template square with the real box lookup, line (1,1)-(6,2+s), s in [-1,1]"))
    return J
