"""C02: every point of the plane belongs to exactly one polygon; polygons, holes and free points are nested correctly."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.c01 import clear_of_segments
from harness.polylib import Poly, TEMPLATES, STUB

OUTSIDE = "Points exactly on a segment; templates other than the listed ones."


def off_segments(e, d, p):
    pts, segs = O.graph_of(d)
    for u, v in segs.values():
        a, b = pts[u], pts[v]
        e.assume((O.cross(O.sub(b, a), O.sub(p, a)) != 0) | (O.dot(O.sub(p, a), O.sub(p, b)) > 0))


def locate(e, t, box, deleted=None):
    p = Poly(e).build(t)
    if deleted:
        for o in deleted:
            p.op(o)
    q = e.arr([e.real("x", box[0], box[2]), e.real("y", box[1], box[3])])
    off_segments(e, p.d, (q[0], q[1]))
    F, poly_of = O.check_topology(e, p.d, "template")
    k = F.locate((q[0], q[1]))
    for j, poly in poly_of.items():
        e.check(bool(poly.contains_point(q)) == (j == k), "contains_point differs from the position of the point")
        e.check(bool(poly.outer_wire.contains_point(q)) ==
                (j is None or O.point_in_ring((q[0], q[1]), F.ring_xy(j))), "wire contains_point")


def owners(e, t, box):
    """A free point at any place; a chord between two vertices of the template; its removal."""
    p = Poly(e).build(t)
    q = p.d.add_point(e.arr([e.real("x", box[0], box[2]), e.real("y", box[1], box[3])]))
    e.assume(q.is_free())
    O.check_topology(e, p.d, "after add_point")
    ids = sorted(i for i in p.d.points if i != q.id)
    a = p.d.points[e.choice("a", ids[:-1])]
    b = p.d.points[e.choice("b", [i for i in ids if i > a.id])]
    e.assume((a.id, b.id) not in p.d.decomp.pt_to_seg and (b.id, a.id) not in p.d.decomp.pt_to_seg)
    e.assume(clear_of_segments(e, p.d, a, b))
    g = p.d.new_segment(a, b)
    O.check_topology(e, p.d, "after new_segment")
    p.d.delete_segment(g)
    O.check_topology(e, p.d, "after delete_segment")


def nesting(e, t, n):
    """get_childs and vertices of all polygons, before and after deleting a segment."""
    s = e.real("s", "-0.3", "0.3")
    p = Poly(e, shear=s).build(t)
    for k in range(n + 1):
        F, poly_of = O.check_topology(e, p.d, "state")
        inv = {q.id: k for k, q in poly_of.items()}

        def chain(k):
            out = [k]
            while k is not None:
                k = F.comp_face[F.comp[F.rings[k][0]]]
                out.append(k)
            return out
        for j, q in poly_of.items():
            want = {r.id for i, r in poly_of.items() if j in chain(i)}
            e.check(p.d.get_childs(q.id) == want, "get_childs differs from the polygons inside")
            vs = [v.id for v in q.vertices()]
            if j is None:
                e.check(vs == [] and q.is_outer_polygon(), "outer polygon has vertices")
                continue
            e.check(not q.is_outer_polygon(), "inner polygon claims to be the outer one")
            ring = F.rings[j]
            e.check(len(vs) == len(ring), "number of polygon vertices")
            e.check(any(vs == ring[i:] + ring[:i] for i in range(len(ring))),
                    "polygon vertices are not listed counterclockwise")
        for sg in p.d.segments.values():
            r, l = sg.polygons()
            for side, q in ((0, r), (1, l)):
                o = F.orbit_of[(sg.id, side)]
                f = o if F.positive[o] else F.comp_face[F.comp[F.rings[o][0]]]
                e.check(q is poly_of[f], "polygons() of a segment are not the faces on its sides")
        segs = sorted(p.d.segments)
        if k < n and segs:
            p.d.delete_segment(p.d.segments[e.choice("del%d" % k, segs)])


def slit(e, order, gap, lo, full):
    """Two closed loops, one inside of the other and near to it, drawn in any direction from any corner; joined and parted."""
    g = e.real("gap", gap, "0.5")
    x0 = e.real("s", "-0.3", "0.3")
    p = Poly(e, tol="1e-8")
    d = p.d

    def ring(a, b, tag, fixed):
        k = 0 if fixed else e.choice("start" + tag, [0, 1, 2, 3] if full or not order or tag == "inner" else [0, 3])
        step = 1 if fixed or not full and order and tag == "inner" else e.choice("direction" + tag, [1, -1])
        pts = [d.add_point(e.arr([x + x0 * y, y])) for x, y in ((a, a), (b, a), (b, b), (a, b))]
        for i in range(4):
            j = k + step * i
            u, v = pts[j % 4], pts[(j + step) % 4]
            d.new_segment(u, v)
        O.check_topology(e, d, "after drawing the %s loop" % tag)
        return pts
    z, w = e.lit(0), e.lit(lo)
    todo = [("outer", z, w), ("inner", g, w - g)]
    if order:
        todo.reverse()
    made = {t: ring(a, b, t, t == "outer" and not order) for t, a, b in todo}
    s = d.new_segment(made["outer"][0], made["inner"][0])
    O.check_topology(e, d, "after joining")
    d.delete_segment(s)
    O.check_topology(e, d, "after parting")


BOX = {"triangle": (-1, -1, 5, 5), "square_dendrite": (-1, -1, 7, 5), "hole": (-1, -1, 7, 7),
       "hole_joined": (-1, -1, 7, 7), "adjacent": (-1, -1, 5, 4), "ushape": (-1, -1, 7, 5),
       "nested": (-1, -1, 9, 9), "two_holes": (-1, -1, 9, 5), "wheel": (-1, -1, 9, 9), "fan": (-1, -1, 5, 5)}


def jobs():
    J = []
    for t, b in BOX.items():
        J.append(Job("locate:" + t, locate, {"t": t, "box": b}, weight=4,
                     bounds="template %s, any point of %s off the segments" % (t, b),
                     tier="quick" if t not in ("wheel", "two_holes") else "thorough"))
    for t, b, tier in (("square", (-1, -1, 5, 5), "quick"), ("adjacent", ("0.3", "0.3", "1.7", "2.7"), "quick"),
                       ("hole_joined", (2, "4.3", 4, "5.7"), "quick"), ("hole_joined", ("0.5", "4.3", "5.5", "5.7"), "thorough"), ("adjacent", (0, 0, 4, 3), "thorough"),
                       ("ushape", ("0.2", "0.2", "5.8", "1.8"), "thorough"), ("nested", ("0.5", "0.5", "7.5", "1.5"), "thorough"),
                       ("wheel", (2, 2, 6, 6), "thorough"), ("hole", (-1, -1, 7, 7), "thorough")):
        J.append(Job("owners:%s:%s" % (t, b), owners, {"t": t, "box": b}, weight=9, tier=tier,
                     bounds="template %s, free point anywhere in %s, chord between any two vertices added and removed" % (t, b)))
    for order in (0, 1):
        for n, (gap, size, tier) in enumerate((("0.001", 8, "quick"), ("0.000001", 100, "thorough"))):
            J.append(Job("slit:%d:%d" % (order, n), slit, {"order": order, "gap": gap, "lo": size, "full": n > 0}, weight=5, tier=tier,
                         bounds="two sheared squares with a gap from %s to 0.5 (size %d), %s first, second one in any direction "
                         "from any corner" % (gap, size, "inner" if order else "outer")))
    for t in TEMPLATES:
        J.append(Job("nesting:" + t, nesting, {"t": t, "n": 1 if t != "empty" else 0}, weight=6,
                     tier="quick" if t not in ("nested", "two_holes") else "thorough",
                     bounds="template %s with symbolic shear, any segment deleted" % t))
    for j in J:
        j.assumptions = [STUB]
    return J
