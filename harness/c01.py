"""C01: the decomposition stays a consistent planar subdivision under any history of edits."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, TEMPLATES, STUB

OUTSIDE = ("Histories longer than the listed ones, more than about 17 segments, coordinates outside the listed ranges; "
           "lines that pass within the tolerance of several objects at once (only structure is asserted there).")


def clear_of_segments(e, d, a, b):
    """The open segment a-b crosses no segment and no vertex (precondition of new_segment)."""
    pts, segs = O.graph_of(d)
    A, B = pts[a.id], pts[b.id]
    ab = O.sub(B, A)
    side = {}
    for i, p in pts.items():
        if i in (a.id, b.id):
            side[i] = 0
            continue
        c = O.cross(ab, O.sub(p, A))
        side[i] = 1 if c > 0 else (-1 if c < 0 else 0)
        if side[i] == 0:
            t = O.dot(ab, O.sub(p, A))
            if t > 0 and t < O.dot(ab, ab):
                return False
    for u, v in segs.values():
        if side[u] * side[v] < 0:
            P, Q = pts[u], pts[v]
            pq = O.sub(Q, P)
            if O.cross(pq, O.sub(A, P)) * O.cross(pq, O.sub(B, P)) < 0:
                return False
    return True


def deletes(e, t, n):
    s = e.real("s", "-0.3", "0.3")
    p = Poly(e, shear=s).build(t)
    O.check_topology(e, p.d, "after building")
    O.check_simple(e, p.d, "after building")
    for k in range(n):
        segs = sorted(p.d.segments)
        if not segs:
            return
        j = e.choice("del%d" % k, segs)
        p.d.delete_segment(p.d.segments[j])
        O.check_topology(e, p.d, "after delete_segment")


def delete_vertex(e, t):
    s = e.real("s", "-0.3", "0.3")
    p = Poly(e, shear=s).build(t)
    j = e.choice("pt", sorted(p.d.points))
    p.d.delete_point(p.d.points[j])
    O.check_topology(e, p.d, "after delete_point")
    e.check(j not in p.d.points, "deleted point is still registered")


def chords(e, t):
    """new_segment between two existing points, then the removal of some segment."""
    s = e.real("s", "-0.3", "0.3")
    p = Poly(e, shear=s).build(t)
    ids = sorted(p.d.points)
    a = p.d.points[e.choice("a", ids[:-1])]
    b = p.d.points[e.choice("b", [i for i in ids if i > a.id])]
    e.assume(clear_of_segments(e, p.d, a, b))
    n0 = len(p.d.segments)
    old = [g for g in p.d.segments.values() if {g.vtxs[0].id, g.vtxs[1].id} == {a.id, b.id}]
    if e.choice("dir", [0, 1]):
        a, b = b, a
    g = p.d.new_segment(a, b)
    e.check({g.vtxs[0].id, g.vtxs[1].id} == {a.id, b.id}, "new_segment returned another segment")
    if old:
        e.check(g is old[0] and len(p.d.segments) == n0, "new_segment duplicated an existing segment")
    O.check_topology(e, p.d, "after new_segment")
    p.d.delete_segment(g)
    O.check_topology(e, p.d, "after deleting the new segment")


def connect(e, t, box):
    """A free point anywhere in the box, a segment to it from any vertex, then removal of some segment."""
    p = Poly(e).build(t)
    x, y = e.real("x", box[0], box[2]), e.real("y", box[1], box[3])
    q = p.d.add_point(e.arr([x, y]))
    O.check_topology(e, p.d, "after add_point")
    others = [i for i in sorted(p.d.points) if i != q.id]
    a = p.d.points[e.choice("a", others)]
    e.assume(clear_of_segments(e, p.d, a, q))
    g = p.d.new_segment(a, q) if e.choice("dir", [0, 1]) else p.d.new_segment(q, a)
    O.check_topology(e, p.d, "after new_segment")
    p.d.delete_segment(g)
    O.check_topology(e, p.d, "after deleting the new segment")


def cut(e, t, line, rng):
    """add_line along a symbolic line; then delete one of the new segments."""
    p = Poly(e).build(t)
    s = e.real("s", *rng)
    (ax, ay, bx, by), (ux, uy, vx, vy) = line
    a = e.arr([e.lit(ax) + s * e.lit(ux), e.lit(ay) + s * e.lit(uy)])
    b = e.arr([e.lit(bx) + s * e.lit(vx), e.lit(by) + s * e.lit(vy)])
    r = p.d.add_line(a, b)
    O.check_topology(e, p.d, "after add_line")
    if isinstance(r, list) and r:
        k = e.choice("k", range(len(r)))
        if r[k].id in p.d.segments:
            p.d.delete_segment(r[k])
            O.check_topology(e, p.d, "after delete_segment")


BOX = {"empty": (-2, -2, 2, 2), "segment": (0, 0, 4, 3), "triangle": (-1, -1, 4, 4), "square": (-1, -1, 5, 5),
       "hole": (-1, -1, 7, 7), "ushape": (0, 0, 6, 5), "star": (1, 1, 6, 6), "wheel": (1, 1, 7, 7),
       "adjacent": (0, 0, 4, 3), "nested": (0, 0, 8, 8)}


def jobs():
    J = []
    sh = "template %s sheared by a symbolic factor in [-0.3,0.3]"
    for t in TEMPLATES:
        if t == "empty":
            continue
        J.append(Job("delete1:" + t, deletes, {"t": t, "n": 1}, bounds=(sh % t) + "; any one segment deleted",
                     weight=9 if t in ("wheel", "nested") else 2))
        J.append(Job("delpoint:" + t, delete_vertex, {"t": t}, bounds=(sh % t) + "; any point deleted",
                     weight=6 if t in ("wheel", "nested") else 2,
                     tier="quick" if t not in ("two_holes", "fan", "path") else "thorough"))
        J.append(Job("chord:" + t, chords, {"t": t}, tier="quick" if t in (
            "path", "square_points", "square_dendrite", "adjacent", "star", "hole_joined") else "thorough", weight=8,
            bounds=(sh % t) + "; any two points joined, then that segment deleted"))
        J.append(Job("delete2:" + t, deletes, {"t": t, "n": 2}, tier="thorough", weight=10,
                     bounds=(sh % t) + "; any two segments deleted"))
    for t, b in BOX.items():
        if t == "empty":
            continue
        J.append(Job("connect:" + t, connect, {"t": t, "box": b}, weight=9,
                     tier="quick" if t in ("segment", "triangle", "square") else "thorough",
                     bounds="template %s; point anywhere in %s; segment from any vertex and its removal" % (t, b)))
    L = [("square", ((-1, 1, 5, 1), (0, 0, 0, 1)), (-2, 4)), ("hole", ((3, -1, 3, 7), (1, 0, "-0.5", 0)), (-3, 3)),
         ("adjacent", ((-1, "1.3", 5, "1.6"), (0, 1, 0, "0.5")), (-2, 2)),
         ("ushape", ((-1, 3, 7, 3), (0, 1, 0, "0.7")), (-2, 1)),
         ("fan", ((-1, "1.9", 5, "0.4"), (0, 1, 0, 1)), (-1, 3)),
         ("square_points", ((-1, 2, 7, 2), (0, 1, 0, 1)), (-2, 2))]
    for t, ln, r in L:
        J.append(Job("cut:" + t, cut, {"t": t, "line": ln, "rng": r}, weight=8,
                     bounds="template %s cut by the line %s + s*%s, s in %s; one new segment deleted" % (t, ln[0], ln[1], r)))
    for j in J:
        j.assumptions = [STUB]
    return J
