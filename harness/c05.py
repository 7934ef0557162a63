"""C05: segments around a point are kept in angular order whatever the directions and the order of insertion."""
from symx.runner import Job
from harness import poly_oracle as O
from harness.polylib import Poly, STUB

OUTSIDE = "More than the listed number of segments at the point; directions within 1e-10 of each other."

FIX = [(2, 0), (1, 2), (-1, 1), (-2, -1), (0, -2), (2, -1), (0, 2), (-2, 0)]


def star(e, ds, nsym, rng):
    """Segments from the origin to fixed points ds (either orientation) and to nsym symbolic points."""
    P = Poly(e)
    d = P.d
    o = d.decomp.add_free_point(e.arr([e.lit(0), e.lit(0)]), d.outer_polygon)
    dirs = []
    for k, v in enumerate(ds):
        q = d.decomp.add_free_point(e.arr([e.lit(v[0]), e.lit(v[1])]), d.outer_polygon)
        d.new_segment(o, q) if k % 2 else d.new_segment(q, o)
        dirs.append((e.lit(v[0]), e.lit(v[1])))
    O.check_topology(e, d, "before")
    for k in range(nsym):
        x, y = e.real("x%d" % k, *rng), e.real("y%d" % k, *rng)
        e.assume((x * x + y * y) > e.lit("0.01"))
        for w in dirs:
            e.assume((O.cross(w, (x, y)) != 0) | (O.dot(w, (x, y)) < 0))
        q = d.decomp.add_free_point(e.arr([x, y]), d.outer_polygon)
        if e.choice("flip%d" % k, [0, 1]):
            d.new_segment(q, o)
        else:
            d.new_segment(o, q)
        dirs.append((x, y))
        O.check_topology(e, d, "after inserting a segment")


def sector(e, ds, rng):
    """insert_vector returns the neighbours of the vector."""
    P = Poly(e)
    d = P.d
    o = d.decomp.add_free_point(e.arr([e.lit(0), e.lit(0)]), d.outer_polygon)
    dirs = {}
    for k, v in enumerate(ds):
        q = d.decomp.add_free_point(e.arr([e.lit(v[0]), e.lit(v[1])]), d.outer_polygon)
        g = d.new_segment(o, q) if k % 2 else d.new_segment(q, o)
        dirs[g.id] = (e.lit(v[0]), e.lit(v[1]))
    x, y = e.real("x", *rng), e.real("y", *rng)
    e.assume((x * x + y * y) > e.lit("0.01"))
    for w in dirs.values():
        e.assume((O.cross(w, (x, y)) != 0) | (O.dot(w, (x, y)) < 0))
    prev, nxt, wire = o.insert_vector(e.arr([x, y]))
    ring = [k for v, k in O.sort_ccw([(v, k) for k, v in dirs.items()] + [((x, y), -1)])]
    i = ring.index(-1)
    ccw, cw = ring[(i + 1) % len(ring)], ring[i - 1]
    e.check(prev[0].id == ccw and prev[0].vtxs[prev[1]] is o, "previous side is not the counterclockwise neighbour")
    e.check(nxt[0].id == cw and nxt[0].vtxs[1 - nxt[1]] is o, "next side is not the clockwise neighbour")
    e.check(prev[0].wire[prev[1]] is wire and nxt[0].wire[nxt[1]] is wire, "wire of the sector")


def jobs():
    J = []
    for n in (1, 2, 3, 4, 5, 8):
        J.append(Job("star%d+1" % n, star, {"ds": FIX[:n], "nsym": 1, "rng": (-3, 3)}, weight=2, assumptions=[STUB],
                     bounds="%d fixed segments and one of any direction, both orientations" % n))
        J.append(Job("sector%d" % n, sector, {"ds": FIX[:n], "rng": (-3, 3)}, weight=1, assumptions=[STUB],
                     bounds="insert_vector of any vector among %d segments" % n))
    for n, t in ((1, "quick"), (2, "quick"), (3, "quick"), (4, "thorough"), (6, "thorough")):
        J.append(Job("star%d+2" % n, star, {"ds": FIX[:n], "nsym": 2, "rng": (-3, 3)}, weight=8, tier=t, assumptions=[STUB],
                     bounds="%d fixed segments and two of any direction, both orientations" % n))
    J.append(Job("star1+3", star, {"ds": FIX[:1], "nsym": 3, "rng": (-3, 3)}, weight=9, tier="thorough", assumptions=[STUB],
                 bounds="one fixed segment and three of any direction, both orientations"))
    return J
