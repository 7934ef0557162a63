"""C08: the report of polygon changes tells exactly what an edit did; attributes follow the polygons."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.c01 import clear_of_segments
from harness.c04 import LINES, on_segment, near_pt
from harness.polylib import Poly, TEMPLATES, STUB

OUTSIDE = "Reports after macro operations (add_line, delete_point) that consist of several edits (their attributes are checked); attributes when the line passes within the tolerance of a vertex or of a crossing."


def regions(d, F, poly_of):
    """polygon id -> (outer ring darts, set of hole darts)"""
    out = {}
    for k, q in poly_of.items():
        outer = frozenset(F.orbits[k]) if k is not None else frozenset()
        holes = frozenset(dt for i, orb in enumerate(F.orbits) if not F.positive[i]
                          and F.comp_face[F.comp[F.rings[i][0]]] == k for dt in orb)
        out[q.id] = (outer, holes)
    return out


def nested_in(F, k):
    return F.comp_face[F.comp[F.rings[k][0]]]


def setup(e, t, shear):
    p = Poly(e, shear=e.real("s", "-0.3", "0.3") if shear else None)
    first = p.d.get_last_polygon_changes()
    o = p.d.outer_polygon.id
    PC = p.decomp_mod.PolygonChange
    e.check(first == (PC.add, o, o), "report of an empty decomposition")
    p.build(t)
    for i, q in p.d.polygons.items():
        q.attr = "f%d" % i
    for i, g in p.d.segments.items():
        g.attr = "s%d" % i
    for i, v in p.d.points.items():
        v.attr = "v%d" % i
    F, poly = O.check_topology(e, p.d, "template")
    return p, PC, F, poly


def kept(e, d, gone=()):
    """Attributes of segments and points that exist from the beginning; new ones have none."""
    for i, g in d.segments.items():
        e.check(g.attr == (None if i in gone else "s%d" % i), "attribute of a segment changed")
    for i, v in d.points.items():
        e.check(v.attr == "v%d" % i, "attribute of a point changed")


def macro(e, t, ln, rng):
    """Attributes after a line added across the decomposition."""
    p, PC, F0, poly0 = setup(e, t, False)
    d = p.d
    old = {i: (g.vtxs[0].xy.copy(), g.vtxs[1].xy.copy(), [g.wire[k].polygon.id for k in (0, 1)]) for i, g in d.segments.items()}
    pts0 = set(d.points)
    A0 = {i: q.attr for i, q in d.polygons.items()}
    s = e.real("s", *rng)
    (ax, ay, bx, by), (ux, uy, vx, vy) = ln
    a = e.arr([e.lit(ax) + s * e.lit(ux), e.lit(ay) + s * e.lit(uy)])
    b = e.arr([e.lit(bx) + s * e.lit(vx), e.lit(by) + s * e.lit(vy)])
    far = d.tolerance * 20
    for v in d.points.values():
        x = (v.xy[0], v.xy[1])
        ab, ap = O.sub(b, a), O.sub(x, a)
        e.assume(e.iszero(O.cross(ab, ap), 10) or not near_pt(x, a, b, far))
        for end in (a, b):
            c = O.sub(x, end)
            e.assume(O.dot(c, c) > far * far or e.iszero(O.dot(c, c), 10))
    for x0, x1, sides in old.values():
        for end in (a, b):
            e.assume(on_segment(e, end, x0, x1) or not near_pt(end, x0, x1, far))
    if e.choice("dir", [0, 1]):
        a, b = b, a
    r = d.add_line(a, b)
    F, poly = O.check_topology(e, d, "after add_line")
    part = {}
    for i, g in d.segments.items():
        o = [k for k, (x0, x1, sides) in old.items() if on_segment(e, g.vtxs[0].xy, x0, x1) and on_segment(e, g.vtxs[1].xy, x0, x1)]
        e.check(len(o) <= 1, "a segment is a part of two")
        e.check(g.attr == ("s%d" % o[0] if o else None), "a part of a segment does not inherit its attribute")
        if o:
            x0, x1, sides = old[o[0]]
            same = bool(O.dot(O.sub(x1, x0), g.vector) > 0)
            for k in (0, 1):
                part[i, k] = sides[k if same else 1 - k]
    for i, v in d.points.items():
        e.check(v.attr == ("v%d" % i if i in pts0 else None), "attribute of a point changed")
    for i, q in d.polygons.items():
        if i in A0:
            e.check(q.attr == A0[i], "attribute of a polygon changed")
    for k, q in poly.items():
        if k is not None:
            for dart in F.orbits[k]:
                if dart in part:
                    e.check(q.attr == A0[part[dart]], "a new polygon does not inherit the attribute of the divided one")


def split(e, t, shear):
    """A point on a segment."""
    p, PC, F0, poly0 = setup(e, t, shear)
    d = p.d
    R0, A0 = regions(d, F0, poly0), {i: q.attr for i, q in d.polygons.items()}
    g = d.segments[e.choice("seg", sorted(d.segments))]
    ends = [v.id for v in g.vtxs]
    n = len(d.segments)
    x = g.vtxs[0].xy + g.vector * e.real("t", "0.2", "0.8")
    v = d.add_point(x)
    O.check_topology(e, d, "after add_point")
    e.check(len(d.segments) == n + 1, "a segment is divided")
    for i, h in d.segments.items():
        if v in h.vtxs:
            e.check(h.attr == "s%d" % g.id, "a part of a segment does not inherit its attribute")
            e.check([w.id for w in h.vtxs if w is not v][0] in ends, "parts of the segment")
        else:
            e.check(h.attr == "s%d" % i, "attribute of a segment changed")
    for i, w in d.points.items():
        e.check(w.attr == (None if w is v else "v%d" % i), "attribute of a point changed")
    e.check({i: q.attr for i, q in d.polygons.items()} == A0, "attribute of a polygon changed")


def remove_point(e, t):
    p, PC, F0, poly0 = setup(e, t, False)
    d = p.d
    A0 = {i: q.attr for i, q in d.polygons.items()}
    v = d.points[e.choice("point", sorted(d.points))]
    sides = {q.id for g, k in v.segments() for q in g.polygons()}
    d.delete_point(v)
    O.check_topology(e, d, "after delete_point")
    kept(e, d)
    for i, q in d.polygons.items():
        e.check(i in A0 and q.attr == A0[i], "attribute of a polygon changed")
    e.check(set(A0) - sides <= set(d.polygons), "a polygon that does not touch the point is lost")


def moved(e, t):
    p, PC, F0, poly0 = setup(e, t, False)
    d = p.d
    ids = sorted(d.points)
    pts = [d.points[i] for i in ids[e.choice("first", [0, 1, 2]):][:2]]
    sides = {q.id for v in pts for g, k in v.segments() for q in g.polygons()}
    dx = e.arr([e.real("x", "-0.2", "0.2"), e.real("y", "-0.2", "0.2")])
    if d.check_displacment(pts, dx):
        typ, x, y = d.get_last_polygon_changes()
        e.check(typ == PC.shape and y is None and sorted(x) == sorted(sides), "report of moved points")
        d.move_points(pts, dx)
    kept(e, d)
    for i, q in d.polygons.items():
        e.check(q.attr == "f%d" % i, "attribute of a polygon changed")


def untouched(e, R0, R1, A0, d, changed):
    for i in R1:
        if i not in changed:
            e.check(R0.get(i) == R1[i], "a polygon changed that is not reported")
        if i in A0:
            e.check(d.polygons[i].attr == A0[i], "attribute of a polygon changed")


def create(e, t, shear):
    p, PC, F0, poly0 = setup(e, t, shear)
    d = p.d
    ids = sorted(d.points)
    a = d.points[e.choice("a", ids[:-1])]
    b = d.points[e.choice("b", [i for i in ids if i > a.id])]
    if e.choice("dir", [0, 1]):
        a, b = b, a
    e.assume(clear_of_segments(e, d, a, b))
    existed = {a.id, b.id} in [set(v.id for v in s.vtxs) for s in d.segments.values()]
    lonely = a.is_free() and b.is_free()
    R0, A0 = regions(d, F0, poly0), {i: q.attr for i, q in d.polygons.items()}
    g = d.new_segment(a, b)
    typ, x, y = d.get_last_polygon_changes()
    F, poly = O.check_topology(e, d, "after new_segment")
    R1 = regions(d, F, poly)
    kept(e, d, () if existed else (g.id,))
    inv = {q.id: k for k, q in poly.items()}
    new = set(R1) - set(R0)
    sides = {q.id for q in g.polygons()}
    if existed:
        e.check((typ, x, y) == (PC.none, None, None) and R0 == R1, "report for an existing segment")
        return
    if new:
        e.check(len(new) == 1 and y in new and x in R0, "the report does not name the new polygon")
        e.check(sides == {x, y}, "the reported polygons are not those on the sides of the new segment")
        inside = nested_in(F, inv[y]) == inv[x]
        e.check(typ == (PC.add if inside else PC.split), "type of the reported change")
        e.check(d.polygons[y].attr == A0[x], "the new polygon does not inherit the attribute")
        untouched(e, R0, R1, A0, d, {x, y})
    elif lonely:
        e.check((typ, x, y) == (PC.none, None, None), "report for a new separate segment")
        untouched(e, R0, R1, A0, d, sides)
    else:
        e.check(typ == PC.shape and y is None and set(x) == sides and len(x) == 1, "report of a changed shape")
        untouched(e, R0, R1, A0, d, sides)


def delete(e, t, shear):
    p, PC, F0, poly0 = setup(e, t, shear)
    d = p.d
    inv0 = {q.id: k for k, q in poly0.items()}
    g = d.segments[e.choice("del", sorted(d.segments))]
    sides = {q.id for q in g.polygons()}
    R0, A0 = regions(d, F0, poly0), {i: q.attr for i, q in d.polygons.items()}
    ends = list(g.vtxs)
    d.delete_segment(g)
    typ, x, y = d.get_last_polygon_changes()
    F, poly = O.check_topology(e, d, "after delete_segment")
    R1 = regions(d, F, poly)
    kept(e, d)
    gone = set(R0) - set(R1)
    e.check(not set(R1) - set(R0), "deleting a segment created a polygon")
    if gone:
        e.check(gone == {y} and x in R1 and sides == {x, y}, "the report does not name the joined polygons")
        inside = nested_in(F0, inv0[y]) == inv0[x]
        e.check(typ == (PC.remove if inside else PC.join), "type of the reported change")
        untouched(e, R0, R1, A0, d, {x})
    elif all(v.is_free() for v in ends):
        e.check((typ, x, y) == (PC.none, None, None), "report for a deleted separate segment")
        untouched(e, R0, R1, A0, d, sides)
    else:
        e.check(typ == PC.shape and y is None and set(x) == sides and len(x) == 1, "report of a changed shape")
        untouched(e, R0, R1, A0, d, sides)


def jobs():
    J = []
    for t in TEMPLATES:
        if t == "empty":
            continue
        J.append(Job("delete:" + t, delete, {"t": t, "shear": True}, weight=6, assumptions=[STUB],
                     tier="quick" if t not in ("wheel", "nested", "two_holes") else "thorough",
                     bounds="template %s with symbolic shear, any segment deleted" % t))
        J.append(Job("create:" + t, create, {"t": t, "shear": True}, weight=8, assumptions=[STUB],
                     tier="quick" if t in ("path", "square_points", "square_dendrite", "star") else "thorough",
                     bounds="template %s with symbolic shear, any two points joined" % t))
        if t in ("wheel", "nested", "two_holes"):
            J.append(Job("delete0:" + t, delete, {"t": t, "shear": False}, weight=3, assumptions=[STUB],
                         bounds="template %s, any segment deleted" % t))
        if t in ("hole", "hole_joined", "adjacent", "ushape", "nested"):
            J.append(Job("create0:" + t, create, {"t": t, "shear": False}, weight=4, assumptions=[STUB],
                         bounds="template %s, any two points joined" % t))
        if t not in ("wheel", "nested", "two_holes"):
            sh = t not in ("hole", "hole_joined", "ushape")
            J.append(Job("split:" + t, split, {"t": t, "shear": sh}, weight=4, assumptions=[STUB], tier="quick" if t in ("path", "square", "hole_joined", "star") else "thorough",
                         bounds="template %s%s, a point added on any segment" % (t, " with symbolic shear" if sh else "")))
            J.append(Job("remove_point:" + t, remove_point, {"t": t}, weight=2, assumptions=[STUB], bounds="template %s, any point deleted" % t))
            J.append(Job("moved:" + t, moved, {"t": t}, weight=3, assumptions=[STUB], tier="quick" if t in ("square_points", "adjacent") else "thorough",
                         bounds="template %s, two points moved by at most 0.2" % t))
    for n, (t, ln, r, tier) in enumerate(LINES):
        J.append(Job("line%d:%s" % (n, t), macro, {"t": t, "ln": ln, "rng": r}, tier=tier, weight=7, assumptions=[STUB],
                     bounds="template %s, line %s + s*%s, s in %s, both directions, not within 20 tolerances of a vertex unless through it" % (t, ln[0], ln[1], r)))
    return J
