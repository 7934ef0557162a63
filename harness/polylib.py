"""Shared parts of the harnesses over bgem.polygons."""
from harness import poly_oracle as O

TOL = "0.01"

# name -> list of operations building the starting decomposition (coordinates of a lattice)
TEMPLATES = {
    "empty": [],
    "segment": [("L", (1, 1), (3, 1))],
    "path": [("L", (0, 0), (2, 0)), ("L", (2, 0), (2, 2)), ("L", (2, 2), (4, 2))],
    "triangle": [("L", (0, 0), (4, 0)), ("L", (4, 0), (0, 4)), ("L", (0, 4), (0, 0))],
    "square": [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 4)), ("L", (4, 4), (0, 4)), ("L", (0, 4), (0, 0))],
    "square_points": [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 4)), ("L", (4, 4), (0, 4)), ("L", (0, 4), (0, 0)),
                      ("P", (1, 2)), ("P", (3, 1)), ("P", (6, 2))],
    "square_dendrite": [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 4)), ("L", (4, 4), (0, 4)), ("L", (0, 4), (0, 0)),
                        ("L", (0, 0), (1, 2)), ("L", (1, 2), (3, 2)), ("L", (4, 4), (6, 4))],
    "hole": [("L", (0, 0), (6, 0)), ("L", (6, 0), (6, 6)), ("L", (6, 6), (0, 6)), ("L", (0, 6), (0, 0)),
             ("L", (2, 2), (4, 2)), ("L", (4, 2), (4, 4)), ("L", (4, 4), (2, 4)), ("L", (2, 4), (2, 2)),
             ("P", (3, 3)), ("P", (1, 1))],
    "hole_joined": [("L", (0, 0), (6, 0)), ("L", (6, 0), (6, 6)), ("L", (6, 6), (0, 6)), ("L", (0, 6), (0, 0)),
                    ("L", (2, 2), (4, 2)), ("L", (4, 2), (4, 4)), ("L", (4, 4), (2, 4)), ("L", (2, 4), (2, 2)),
                    ("P", (3, 3)), ("P", (1, 3)), ("L", (0, 0), (2, 2))],
    "adjacent": [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 3)), ("L", (4, 3), (2, 3)), ("L", (2, 3), (0, 3)),
                 ("L", (0, 3), (0, 0)), ("L", (2, 3), (2, 0)), ("P", (1, 1)), ("P", (3, 1))],
    "star": [("L", (3, 3), (6, 3)), ("L", (3, 3), (5, 5)), ("L", (3, 6), (3, 3)), ("L", (3, 3), (1, 4)),
             ("L", (2, 1), (3, 3)), ("L", (3, 3), (4, 1))],
    "ushape": [("L", (0, 0), (6, 0)), ("L", (6, 0), (6, 4)), ("L", (6, 4), (4, 4)), ("L", (4, 4), (4, 2)),
               ("L", (4, 2), (2, 2)), ("L", (2, 2), (2, 4)), ("L", (2, 4), (0, 4)), ("L", (0, 4), (0, 0)),
               ("P", (1, 3)), ("P", (3, 3))],
    "two_holes": [("L", (0, 0), (8, 0)), ("L", (8, 0), (8, 4)), ("L", (8, 4), (0, 4)), ("L", (0, 4), (0, 0)),
                  ("L", (1, 1), (3, 1)), ("L", (3, 1), (2, 3)), ("L", (2, 3), (1, 1)),
                  ("L", (5, 1), (7, 1)), ("L", (7, 1), (6, 3)), ("L", (6, 3), (5, 1))],
    "nested": [("L", (0, 0), (8, 0)), ("L", (8, 0), (8, 8)), ("L", (8, 8), (0, 8)), ("L", (0, 8), (0, 0)),
               ("L", (2, 2), (6, 2)), ("L", (6, 2), (6, 6)), ("L", (6, 6), (2, 6)), ("L", (2, 6), (2, 2)),
               ("L", (3, 3), (5, 3)), ("L", (5, 3), (4, 5)), ("L", (4, 5), (3, 3)), ("P", (1, 1))],
    # a ring inside a ring joined by two spokes: a face that does not touch the perimeter
    "wheel": [("L", (0, 0), (8, 0)), ("L", (8, 0), (8, 8)), ("L", (8, 8), (0, 8)), ("L", (0, 8), (0, 0)),
              ("L", (2, 2), (6, 2)), ("L", (6, 2), (4, 6)), ("L", (4, 6), (2, 2)),
              ("L", (3.5, 3), (4.5, 3)), ("L", (4.5, 3), (4, 4)), ("L", (4, 4), (3.5, 3)),
              ("L", (2, 2), (3.5, 3)), ("L", (4, 4), (4, 6)), ("L", (0, 0), (2, 2))],
    "fan": [("L", (0, 0), (4, 0)), ("L", (4, 0), (4, 4)), ("L", (4, 4), (0, 4)), ("L", (0, 4), (0, 0)),
            ("L", (2, 2), (0, 0)), ("L", (2, 2), (4, 0)), ("L", (4, 4), (2, 2)), ("L", (0, 4), (2, 2))],
}


class Poly:
    """A PolygonDecomposition under construction together with the map of lattice points."""

    def __init__(self, e, shear=None, lookup=False, tol=TOL, undo=False):
        self.e = e
        self.P = e.mod("bgem.polygons.polygons")
        self.decomp_mod = e.mod("bgem.polygons.decomp")
        self.d = self.P.PolygonDecomposition(e.lit(tol))
        self.shear = shear
        self.lookup = lookup
        if not lookup:
            stub_lookup(self.d)
        self.pt = {}

    def xy(self, p):
        x, y = self.e.lit(p[0]), self.e.lit(p[1])
        if self.shear is not None:
            x = x + self.shear * y
        return self.e.arr([x, y])

    def point(self, p):
        return self.pt[p]

    def op(self, o):
        d = self.d
        if o[0] == "L":
            r = d.add_line(self.xy(o[1]), self.xy(o[2]))
            for p in (o[1], o[2]):
                if p not in self.pt:
                    self.pt[p] = self.find(p)
            return r
        if o[0] == "P":
            r = self.pt[o[1]] = d.add_point(self.xy(o[1]))
            return r
        if o[0] == "D":
            return d.delete_segment(self.seg(o[1], o[2]))
        if o[0] == "X":
            return d.delete_point(self.find(o[1]))
        if o[0] == "N":
            return d.new_segment(self.find(o[1]), self.find(o[2]))
        raise ValueError(o)

    def find(self, p):
        x = self.xy(p)
        for q in self.d.points.values():
            if q.xy[0] == x[0] and q.xy[1] == x[1]:
                return q
        raise KeyError(p)

    def seg(self, a, b):
        a, b = self.find(a), self.find(b)
        for s in self.d.segments.values():
            if {s.vtxs[0].id, s.vtxs[1].id} == {a.id, b.id}:
                return s
        raise KeyError((a, b))

    def build(self, template):
        for o in TEMPLATES[template] if isinstance(template, str) else template:
            self.op(o)
        return self


def stub_lookup(d):
    """
    Candidate lookup replaced by 'everything alive': the lookup is complete (property C09), so a complete
    candidate list gives the same nearest object; it keeps the box arithmetic out of these jobs.
    """
    d.points_lookup.closest_candidates = lambda p: sorted(d.points)
    d.points_lookup.intersect_candidates = lambda b: sorted(d.points)
    d.segments_lookup.closest_candidates = lambda p: sorted(d.segments)
    d.segments_lookup.intersect_candidates = lambda b: sorted(d.segments)


def stub_lookup_class(e):
    """As stub_lookup for every lookup made later in the path (symbolic runs only)."""
    L = e.mod("bgem.polygons.aabb_lookup")
    if not e.symbolic:
        return

    class Lookup(L.AABB_Lookup):
        def __init__(self, *a, **k):
            self.alive = set()

        def add_object(self, id, box):
            self.alive.add(id)

        def rm_object(self, id):
            self.alive.discard(id)

        def closest_candidates(self, point):
            return sorted(self.alive)

        def intersect_candidates(self, box):
            return sorted(self.alive)
    L.AABB_Lookup = Lookup
    L.make_aabb = lambda points, margin=-1: None


def check_boxes(e, d, tag):
    """Every live object has a registered box that covers it; removed ids have none."""
    for look, objs, pts in ((d.points_lookup, d.points, lambda o: [o.xy]),
                            (d.segments_lookup, d.segments, lambda o: [v.xy for v in o.vtxs])):
        for i, o in objs.items():
            b = look.boxes[i]
            for p in pts(o):
                for k in (0, 1):
                    e.check(b[k] <= p[k], tag + ": lookup box does not cover its object")
                    e.check(b[k + 2] >= p[k], tag + ": lookup box does not cover its object")
        for i in range(look.n_boxes):
            if i not in objs:
                e.check(bool(look.boxes[i][0] >= look.inf), tag + ": removed object still in the lookup")


STUB = "Candidate lists of the box lookup are replaced by all live objects (completeness of the lookup is property C09)."
