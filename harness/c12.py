"""C12: a decomposition rebuilt from its lists of points, segments and polygons is the same decomposition."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, TEMPLATES, STUB, stub_lookup, check_boxes

OUTSIDE = "Decompositions other than the templates (sheared); lists that do not come from a valid decomposition."


def rebuild(e, t, rotate, delete=False, rng=("-0.3", "0.3")):
    s = e.real("s", *rng)
    p = Poly(e, shear=s).build(t)
    d = p.d
    if delete and d.segments:
        d.delete_segment(d.segments[e.choice("del", sorted(d.segments))])
    F, poly_of = O.check_topology(e, d, "original")
    # what a writer stores: points, end points of segments, boundary loops and free points of polygons
    P, S = O.graph_of(d)

    def loop(w):
        return [sg.id for sg, side in w.segments()]
    polys = []
    for k, q in poly_of.items():
        ow = [] if k is None else loop(q.outer_wire)
        polys.append([ow, [loop(h) for h in sorted(q.outer_wire.childs, key=lambda w: w.id) if h.polygon is q],
                      [x.id for x in q.free_points]])
    # a loop can be listed from any of its segments
    loops = [(i, None) for i, q in enumerate(polys) if q[0]] + [(i, j) for i, q in enumerate(polys) for j in range(len(q[1]))]
    if rotate and loops:
        i, j = e.choice("loop", loops)
        l = polys[i][0] if j is None else polys[i][1][j]
        k = e.choice("from", range(len(l)))
        l[:] = l[k:] + l[:k]
    M = e.mod("bgem.polygons.polygons")
    n = M.PolygonDecomposition(e.lit("0.01"))
    stub_lookup(n)
    pm = {i: n.add_point(e.arr([x, y])).id for i, (x, y) in P.items()}
    sm = {}
    for i, (a, b) in S.items():
        g = n.make_segment((pm[a], pm[b]))
        sm[i] = g.id
        e.check(n.segments.get(g.id) is g and [v.id for v in g.vtxs] == [pm[a], pm[b]], "make_segment: wrong segment")
    new = []
    for ow, holes, free in polys:
        new.append(n.make_polygon([sm[i] for i in ow], [[sm[i] for i in h] for h in holes], [pm[i] for i in free]))
    n.set_wire_parents()
    F1, poly1 = O.check_topology(e, n, "rebuilt")
    P1, S1 = O.graph_of(n)
    for i in P:
        e.check(P1[pm[i]][0] == P[i][0], "rebuilt point moved")
        e.check(P1[pm[i]][1] == P[i][1], "rebuilt point moved")
    for (ow, holes, free), q in zip(polys, new):
        e.check(sorted(x.id for x in q.free_points) == sorted(pm[i] for i in free), "free points of a rebuilt polygon")
        got = [] if q is n.outer_polygon else sorted(loop(q.outer_wire))
        e.check(got == sorted(sm[i] for i in ow), "outer boundary of a rebuilt polygon")
    check_boxes(e, n, "rebuilt")


def jobs():
    J = []
    full, part = ("-0.3", "0.3"), ("0.05", "0.1")
    small = ("segment", "path", "triangle", "square", "square_points", "square_dendrite", "star", "fan", "adjacent")
    for t in TEMPLATES:
        if t == "empty":
            continue
        for r, tier in ((full, "quick"),) if t in small else ((part, "quick"), (full, "thorough")):
            J.append(Job("rebuild:%s%s" % (t, "" if r == full else ":narrow"), rebuild, {"t": t, "rotate": True, "rng": r},
                         weight=4, assumptions=[STUB], tier=tier, symchoice=True,
                         bounds="template %s sheared by a symbolic factor in %s, every boundary loop listed from any of its "
                                "segments" % (t, r)))
            J.append(Job("edited:%s%s" % (t, "" if r == full else ":narrow"), rebuild,
                         {"t": t, "rotate": False, "delete": True, "rng": r}, weight=4, assumptions=[STUB],
                         tier=tier, symchoice=True,
                         bounds="template %s sheared by a symbolic factor in %s, any one segment deleted before" % (t, r)))
    return J
