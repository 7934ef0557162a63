"""
Independent oracle for a planar subdivision held by a bgem PolygonDecomposition.

Everything below is recomputed from the coordinates and the end points of the
segments alone; only the arithmetic +,-,*,< is used on the coordinates, so it runs on
floats (replay) and on symbolic reals (every comparison forks a path).

Conventions of the code under test (verified, not trusted): a dart (seg, side) runs from
seg.vtxs[1-side] to seg.vtxs[side] and has its face on its left.
"""


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def half(d):
    """0 for direction angle in [0, pi), 1 for [pi, 2pi)."""
    if d[1] > 0:
        return 0
    if d[1] < 0:
        return 1
    return 0 if d[0] > 0 else 1


def ccw_less(a, b):
    """Angle of a strictly less than that of b, both in [0, 2pi)."""
    ha, hb = half(a), half(b)
    if ha != hb:
        return ha < hb
    return bool(cross(a, b) > 0)


def sort_ccw(items):
    """Insertion sort of [(dir, key)] by angle."""
    out = []
    for it in items:
        i = 0
        while i < len(out) and ccw_less(out[i][0], it[0]):
            i += 1
        out.insert(i, it)
    return out


def point_in_ring(p, ring):
    """
    Crossing-number test of p against the closed polyline ring (list of points).
    Callers make sure p is not on the ring.
    """
    inside = False
    n = len(ring)
    for i in range(n):
        a, b = ring[i], ring[(i + 1) % n]
        up = bool(b[1] > p[1])
        if bool(a[1] > p[1]) == up:
            continue
        # side of p with respect to the upward oriented edge
        s = cross(sub(b, a), sub(p, a))
        if up:
            hit = bool(s > 0)      # p left of upward edge
        else:
            hit = bool(s < 0)
        if hit:
            inside = not inside
    return inside


class Faces:
    """Faces of the straight-line graph (points: id->(x,y), segs: id->(out_id, in_id))."""

    def __init__(self, points, segs):
        self.points = points
        self.segs = segs
        darts = {}
        at = {pid: [] for pid in points}
        for sid, (o, i) in segs.items():
            for side, (a, b) in ((1, (o, i)), (0, (i, o))):
                darts[(sid, side)] = (a, b)
                at[a].append((sub(points[b], points[a]), (sid, side)))
        self.darts = darts
        # ccw order of outgoing darts around every vertex
        self.rot = {}
        for pid, items in at.items():
            self.rot[pid] = [k for d, k in sort_ccw(items)]
        self.next = {}
        for (sid, side), (a, b) in darts.items():
            ring = self.rot[b]
            k = ring.index((sid, 1 - side))
            self.next[(sid, side)] = ring[k - 1]      # clockwise neighbour of the reversed dart
        # orbits
        self.orbit_of = {}
        self.orbits = []
        for d in darts:
            if d in self.orbit_of:
                continue
            orb = []
            e = d
            while e not in self.orbit_of:
                self.orbit_of[e] = len(self.orbits)
                orb.append(e)
                e = self.next[e]
            self.orbits.append(orb)
        # connected components
        comp = {pid: pid for pid in points}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for a, b in darts.values():
            comp[find(a)] = find(b)
        self.comp = {pid: find(pid) for pid in points}
        # signed areas
        self.positive = []
        self.rings = []
        for orb in self.orbits:
            ring = [darts[d][0] for d in orb]
            self.rings.append(ring)
            self.positive.append(self._is_positive(orb, ring))
        self.perimeter = {}
        for k, pos in enumerate(self.positive):
            if not pos:
                c = self.comp[self.rings[k][0]]
                assert c not in self.perimeter, "oracle: two perimeters in a component"
                self.perimeter[c] = k
        # face (positive orbit index or None = unbounded) containing each component
        self.comp_face = {}
        for c in set(self.comp.values()):
            self.comp_face[c] = self.locate(points[c], skip=c)

    def _is_positive(self, orb, ring):
        # an orbit visiting every dart together with its twin encloses no area
        s = set(orb)
        if all((sid, 1 - side) in s for sid, side in orb):
            return False
        o = self.points[ring[0]]
        area = 0
        for k in range(1, len(ring) - 1):
            area = area + cross(sub(self.points[ring[k]], o), sub(self.points[ring[k + 1]], o))
        return bool(area > 0)

    def ring_xy(self, k):
        return [self.points[p] for p in self.rings[k]]

    def locate(self, p, skip=None):
        """
        Positive orbit whose face contains p (p on no segment); None = unbounded face.
        skip: component to ignore.
        """
        inside = [k for k, pos in enumerate(self.positive)
                  if pos and self.comp[self.rings[k][0]] != skip and point_in_ring(p, self.ring_xy(k))]
        # faces containing p are nested one in another; the innermost contains no other's ring
        # (a face of the same component never nests, so compare by components)
        best = None
        for k in inside:
            if best is None or point_in_ring(self.points[self.rings[k][0]], self.ring_xy(best)):
                best = k
        return best


def graph_of(dec):
    pts = {i: (p.xy[0], p.xy[1]) for i, p in dec.points.items()}
    segs = {i: (s.vtxs[0].id, s.vtxs[1].id) for i, s in dec.segments.items()}
    return pts, segs


def check_topology(env, dec, tag, deep=True):
    """
    All structural claims about the decomposition 'dec' (PolygonDecomposition).
    Raises through env.check on the first disagreement.
    """
    ck = env.check
    D = dec.decomp
    # registries
    for name in ("points", "segments", "polygons", "wires"):
        m = getattr(D, name)
        ck(all(k == o.id for k, o in m.items()), tag + ": registry key differs from the object id in " + name)
    pts, segs = graph_of(dec)
    live_pts = {id(p) for p in D.points.values()}
    for s in D.segments.values():
        ck(all(id(v) in live_pts for v in s.vtxs), tag + ": a segment ends in a point that is not registered")
        ck(s.vtxs[0].id != s.vtxs[1].id, tag + ": degenerate segment")
    pairs = [frozenset(v) for v in segs.values()]
    ck(len(set(pairs)) == len(pairs), tag + ": two segments between the same points")
    p2s = {k: v.id for k, v in D.pt_to_seg.items()}
    ck(p2s == {v: k for k, v in segs.items()}, tag + ": end point -> segment index differs from the segments")
    F = Faces(pts, segs)
    # linkage of darts
    for (sid, side), nxt in F.next.items():
        s = D.segments[sid]
        got = s.next[side]
        ck(got[0] is not None and (got[0].id, got[1]) == nxt and D.segments.get(got[0].id) is got[0],
           tag + ": boundary does not continue with the next side around the vertex")
    # iteration around points: all sides, clockwise
    for pid, p in D.points.items():
        ring = F.rot[pid]
        if not ring:
            ck(p.is_free(), tag + ": isolated point not marked free")
            ck(list(p.segments()) == [], tag + ": isolated point lists segments")
            continue
        ck(not p.is_free(), tag + ": connected point marked free")
        got = []
        for seg, vtx in p.segments():
            ck(seg.vtxs[vtx] is p, tag + ": point lists a segment that does not end in it")
            got.append((seg.id, 1 - vtx))     # outgoing dart
            if len(got) > len(ring):
                break
        k = ring.index(got[0]) if got[0] in ring else 0
        expect = [ring[(k - j) % len(ring)] for j in range(len(ring))]
        ck(got == expect, tag + ": segments around a point are not listed clockwise, each once")
    # wires are the orbits
    wire_of_orbit = {}
    for d, k in F.orbit_of.items():
        w = D.segments[d[0]].wire[d[1]]
        ck(w is not None and D.wires.get(w.id) is w, tag + ": segment side without a registered boundary")
        wire_of_orbit.setdefault(k, w)
        ck(wire_of_orbit[k] is w, tag + ": one boundary loop carries two wires")
    ck(len({id(w) for w in wire_of_orbit.values()}) == len(F.orbits), tag + ": two boundary loops share one wire")
    root = D.outer_polygon.outer_wire
    ck(D.wires.get(root.id) is root and root.is_root(), tag + ": outer polygon lost its root wire")
    ck(D.polygons.get(D.outer_polygon.id) is D.outer_polygon, tag + ": outer polygon not registered")
    ck(len(D.wires) == len(F.orbits) + 1, tag + ": number of wires differs from the number of boundary loops")
    for k, w in wire_of_orbit.items():
        sg, side = w.segment
        ck(sg is not None and F.orbit_of.get((sg.id, side)) == k, tag + ": wire starts on a foreign boundary loop")
        got = [(sg.id, side) for sg, side in w.segments()]
        ck(sorted(got) == sorted(F.orbits[k]), tag + ": wire does not list its loop")
    # polygons are the faces
    npos = sum(1 for x in F.positive if x)
    ck(len(D.polygons) == npos + 1, tag + ": number of polygons differs from the number of faces")
    poly_of = {None: D.outer_polygon}
    for k, pos in enumerate(F.positive):
        if pos:
            w = wire_of_orbit[k]
            p = w.polygon
            ck(p is not None and D.polygons.get(p.id) is p, tag + ": face boundary without a registered polygon")
            ck(p.outer_wire is w, tag + ": face boundary is not the outer wire of its polygon")
            poly_of[k] = p
    ck(len({id(p) for p in poly_of.values()}) == npos + 1, tag + ": one polygon for two faces")
    for k, pos in enumerate(F.positive):
        w = wire_of_orbit[k]
        c = F.comp[F.rings[k][0]]
        if pos:
            par = wire_of_orbit[F.perimeter[c]]
            ck(w.parent is par, tag + ": parent of an inner boundary is not the perimeter of its component")
        else:
            p = poly_of[F.comp_face[c]]
            ck(w.polygon is p, tag + ": hole boundary assigned to a wrong polygon")
            ck(w.parent is p.outer_wire, tag + ": parent of a hole is not the outer wire of its polygon")
    for w in D.wires.values():
        kids = {id(v) for v in D.wires.values() if v is not w and v.parent is w}
        ck({id(c) for c in w.childs} == kids and len(w.childs) == len(kids), tag + ": children and parents disagree")
    # free points
    for p in D.polygons.values():
        for pt in p.free_points:
            ck(D.points.get(pt.id) is pt, tag + ": polygon owns a removed free point")
    for pid, p in D.points.items():
        if F.rot[pid]:
            ck(all(p not in q.free_points for q in D.polygons.values()), tag + ": connected point listed as free")
        else:
            q = poly_of[F.locate(pts[pid], skip=F.comp[pid])]
            ck(p.poly is q, tag + ": free point assigned to a wrong polygon")
            ck([r.id for r in D.polygons.values() if any(z is p for z in r.free_points)] == [q.id],
               tag + ": free point is not listed by exactly its polygon")
    # stored direction vectors
    for s in D.segments.values():
        v = s.vector
        e = sub(pts[s.vtxs[1].id], pts[s.vtxs[0].id])
        ck(v[0] == e[0], tag + ": stored direction of a segment is stale")
        ck(v[1] == e[1], tag + ": stored direction of a segment is stale")
    return F, poly_of


def check_simple(env, dec, tag, eps=0):
    """No two segments cross or overlap; no vertex lies inside a segment."""
    pts, segs = graph_of(dec)
    ids = sorted(segs)
    for x, i in enumerate(ids):
        a, b = pts[segs[i][0]], pts[segs[i][1]]
        ab = sub(b, a)
        for pid, p in pts.items():
            if pid in segs[i]:
                continue
            c = cross(ab, sub(p, a))
            if c == 0:
                t = dot(ab, sub(p, a))
                env.check(not (t > 0 and t < dot(ab, ab)), tag + ": a vertex lies inside a segment")
        for j in ids[x + 1:]:
            if set(segs[i]) & set(segs[j]):
                continue
            c, d = pts[segs[j][0]], pts[segs[j][1]]
            s1, s2 = cross(ab, sub(c, a)), cross(ab, sub(d, a))
            cd = sub(d, c)
            r1, r2 = cross(cd, sub(a, c)), cross(cd, sub(b, c))
            crosses = ((s1 > 0 and s2 < 0) or (s1 < 0 and s2 > 0)) and ((r1 > 0 and r2 < 0) or (r1 < 0 and r2 > 0))
            env.check(not crosses, tag + ": two segments cross")
