"""C06: undo restores the decomposition, redo restores the change, for every recorded editing operation."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.c01 import clear_of_segments
from harness.polylib import Poly, check_boxes, STUB

OUTSIDE = "move_points (not recorded in the undo history); histories longer than the listed ones."


def snapshot(d):
    pts = {i: (p.xy[0], p.xy[1], p.attr, p.is_free()) for i, p in d.points.items()}
    segs = {i: (s.vtxs[0].id, s.vtxs[1].id, s.attr) for i, s in d.segments.items()}
    polys = {}
    for p in d.polygons.values():
        ring = tuple(sorted((s.id, side) for s, side in p.outer_wire.segments()))
        polys[ring] = (p.id, p.attr, tuple(sorted(q.id for q in p.free_points)))
    return pts, segs, polys


def same(e, a, b, what):
    e.check(set(a[0]) == set(b[0]), what + ": points differ")
    for i in a[0]:
        e.check(a[0][i][0] == b[0][i][0], what + ": a point is elsewhere")
        e.check(a[0][i][1] == b[0][i][1], what + ": a point is elsewhere")
        e.check(a[0][i][3] == b[0][i][3], what + ": a point is (not) free")
        e.check(a[0][i][2] == b[0][i][2], what + ": attribute of a point differs")
    e.check(set(a[1]) == set(b[1]), what + ": segments differ")
    for i in a[1]:
        e.check(a[1][i][:2] == b[1][i][:2], what + ": end points of a segment differ")
        e.check(a[1][i][2] == b[1][i][2], what + ": attribute of a segment differs")
    e.check(set(a[2]) == set(b[2]), what + ": polygons differ")
    for r in a[2]:
        e.check(a[2][r][2] == b[2][r][2], what + ": free points of a polygon differ")
        e.check(a[2][r][1] == b[2][r][1], what + ": attribute of a polygon differs")
        e.check(a[2][r][0] == b[2][r][0], what + ": ID of a polygon differs")


def op_point(e, d, k, box):
    d.add_point(e.arr([e.real("x%d" % k, box[0], box[2]), e.real("y%d" % k, box[1], box[3])]))


def op_line(e, d, k, ln):
    s = e.real("s%d" % k, ln[8], ln[9])
    d.add_line(e.arr([e.lit(ln[0]) + s * e.lit(ln[4]), e.lit(ln[1]) + s * e.lit(ln[5])]),
               e.arr([e.lit(ln[2]) + s * e.lit(ln[6]), e.lit(ln[3]) + s * e.lit(ln[7])]))


def op_del(e, d, k, arg):
    ids = sorted(d.segments)
    e.assume(len(ids) > 0)
    d.delete_segment(d.segments[e.choice("del%d" % k, ids)])


def op_delpt(e, d, k, arg):
    d.delete_point(d.points[e.choice("pt%d" % k, sorted(d.points))])


def op_new(e, d, k, arg):
    ids = sorted(d.points)
    a = d.points[e.choice("a%d" % k, ids[:-1])]
    b = d.points[e.choice("b%d" % k, [i for i in ids if i > a.id])]
    e.assume(clear_of_segments(e, d, a, b))
    d.new_segment(a, b)


def op_attr(e, d, k, arg):
    objs = [o for m in (d.points, d.segments, d.polygons) for i, o in sorted(m.items())]
    d.set_attr(objs[e.choice("obj%d" % k, range(len(objs)))], "attr%d" % k)


def op_join(e, d, k, arg):
    """join two collinear segments at a vertex with exactly two"""
    seg = d.segments[e.choice("seg%d" % k, sorted(d.segments))]
    t = e.real("t%d" % k, "0.2", "0.8")
    pt, new = d._point_on_segment(seg, t)
    if arg:
        d._join_segments(pt, seg, new)
        d._rm_point(pt)


OPS = {"point": op_point, "line": op_line, "del": op_del, "delpt": op_delpt, "new": op_new, "attr": op_attr, "join": op_join}


def roundtrip(e, t, ops, shear=False, lookup=False):
    P = Poly(e, shear=e.real("s", "-0.3", "0.3") if shear else None, lookup=lookup)
    P.build(t)
    d = P.d
    U = e.mod("bgem.undo")
    for m, c in ((d.points, "p"), (d.segments, "s"), (d.polygons, "f")):
        for i, o in m.items():
            o.attr = "%s%d" % (c, i)
    P.P.enable_undo()
    U.stack().clear()
    snaps, counts = [snapshot(d)], [0]
    for k, (name, arg) in enumerate(ops):
        OPS[name](e, d, k, arg)
        O.check_topology(e, d, "after the operation")
        snaps.append(snapshot(d))
        counts.append(U.stack().undocount())
    e.check(counts[-1] >= len([1 for a, b in zip(counts, counts[1:]) if b > a]), "operations are recorded")
    for rnd in (0, 1):
        for k in range(len(ops) - 1, -1, -1):
            for _ in range(counts[k + 1] - counts[k]):
                U.stack().undo()
            O.check_topology(e, d, "after undo")
            same(e, snaps[k], snapshot(d), "after undo")
            if lookup:
                check_boxes(e, d, "after undo")
        if rnd:
            break
        e.check(not U.stack().canundo(), "undo left actions")
        for k in range(len(ops)):
            for _ in range(counts[k + 1] - counts[k]):
                U.stack().redo()
            O.check_topology(e, d, "after redo")
            same(e, snaps[k + 1], snapshot(d), "after redo")
            if lookup:
                check_boxes(e, d, "after redo")
        e.check(not U.stack().canredo(), "redo left actions")


def jobs():
    J = []

    def job(name, t, ops, tier="quick", **kw):
        J.append(Job(name + ":" + t, roundtrip, dict(t=t, ops=ops, **kw), tier=tier, weight=5, assumptions=[STUB],
                     minmax="atom" if kw.get("lookup") else "fork",
                     bounds="template %s, operations %s, undone, redone and undone again" % (t, ops)))
    sq = (-1, -1, 5, 5)
    hl = (3, -1, 3, 7, 1, 0, "-0.5", 0, -3, 3)
    job("point", "square", [("point", sq)])
    job("point", "adjacent", [("point", ("0.2", "-0.5", 3, 3))])
    for t in ("path", "triangle", "square_dendrite", "hole_joined", "adjacent", "star"):
        job("del", t, [("del", None)], shear=True, tier="quick" if t != "star" else "thorough")
        job("delpt", t, [("delpt", None)], shear=True, tier="quick" if t not in ("star", "hole_joined") else "thorough")
        job("join", t, [("join", 1)], tier="quick" if t in ("path", "adjacent", "square_dendrite") else "thorough")
    for t in ("path", "square_points", "adjacent", "hole_joined"):
        job("new", t, [("new", None)], tier="quick" if t != "hole_joined" else "thorough")
    job("attr", "hole", [("attr", None)])
    job("line", "square", [("line", (-1, 1, 5, 1, 0, 0, 0, 1, -2, 4))])
    job("line", "hole", [("line", hl)], tier="thorough")
    job("line", "square_points", [("line", (-1, 2, 7, 2, 0, 1, 0, 1, -2, 2))])
    job("new_del", "square_points", [("new", None), ("del", None)])
    job("attr_del", "adjacent", [("attr", None), ("del", None)])
    job("split_del", "adjacent", [("join", 0), ("del", None)])
    job("del_new", "adjacent", [("del", None), ("new", None)], tier="thorough")
    job("del_del", "hole_joined", [("del", None), ("del", None)], tier="thorough")
    job("point_new", "square", [("point", sq), ("new", None)], tier="thorough")
    job("boxes", "segment", [("point", (0, "0.98", 4, "1.02"))], lookup=True)
    job("boxes_join", "path", [("join", 1)], lookup=True)
    job("boxes_del", "triangle", [("delpt", None)], lookup=True)
    return J
