"""C26: the BREP text denotes the model it was written from."""
import io

from symx.runner import Job
from harness import bslib as L

OUTSIDE = "Writing of numbers by Python's str (exact tokens in the encoding); reading by OpenCASCADE; vertex representations (never written)."
NAMES = {"Co": "Compound", "Cs": "CompoundSolid", "So": "Solid", "Sh": "Shell", "Fa": "Face", "Wi": "Wire", "Ed": "Edge", "Ve": "Vertex"}


# ------------------------------------------------------------ reader of the BREP format
class Reader:
    def __init__(self, e, text):
        self.e, self.w, self.i = e, text.split(), 0

    def tok(self):
        if self.i >= len(self.w):
            self.e.check(False, "the text ends too early")
        self.i += 1
        return self.w[self.i - 1]

    def expect(self, *ts):
        for t in ts:
            g = self.tok()
            self.e.check(g == t, "found %r in place of %r" % (g, t))

    def num(self):
        t = self.tok()
        if self.e.symbolic:
            return self.e.core.lift(self.e.shim.to_float(t))
        try:
            return float(t)
        except ValueError:
            self.e.check(False, "%r is not a number" % t)

    def int(self, lo=None, hi=None):
        t = self.tok()
        self.e.check(t.lstrip("-").isdigit(), "%r is not an integer" % t)
        v = int(t)
        self.e.check((lo is None or v >= lo) and (hi is None or v <= hi), "number out of range")
        return v

    def knots(self, n):
        return [(self.num(), self.int(1)) for i in range(n)]

    def ref(self, n, n_loc):
        t = self.tok()
        if t == "*":
            return None
        self.e.check(t[0] in "+-ie" and t[1:].isdigit(), "wrong reference %r" % t)
        k = int(t[1:])
        self.e.check(1 <= k <= n, "reference to a shape that does not exist")
        return t[0], k, self.int(0, n_loc)

    def read(self):
        m = {}
        self.expect("DBRep_DrawableShape", "CASCADE", "Topology", "V1,", "(c)", "Matra-Datavision", "Locations")
        m["loc"] = loc = [None]
        for i in range(self.int(0)):
            if self.int(1, 2) == 1:
                loc.append(("elem", [[self.num() for c in range(4)] for r in range(3)]))
            else:
                p = []
                while True:
                    k = self.int(0, len(loc) - 1)
                    if k == 0:
                        break
                    p.append((k, self.int()))
                loc.append(("comp", p))
        nl = len(loc) - 1
        for key, dim in (("Curve2ds", 2), ("Curves", 3)):
            self.expect(key)
            m[key] = [None]
            for i in range(self.int(0)):
                self.expect("7")
                r = self.int(0, 1)
                self.expect("0")
                d, np_, nk = self.int(1), self.int(2), self.int(2)
                poles = [[self.num() for c in range(dim + r)] for p in range(np_)]
                kn = self.knots(nk)
                self.e.check(sum(k for x, k in kn) == d + np_ + 1, "number of knots")
                m[key].append((r, d, poles, kn))
        self.expect("Polygon3D", "0", "PolygonOnTriangulations", "0", "Surfaces")
        m["Surfaces"] = [None]
        for i in range(self.int(0)):
            self.expect("9")
            r = self.int(0, 1)
            self.expect(str(r), "0", "0")
            d = [self.int(1), self.int(1)]
            n = [self.int(2), self.int(2)]
            k = [self.int(2), self.int(2)]
            poles = [[[self.num() for c in range(3 + r)] for q in range(n[1])] for p in range(n[0])]
            kn = [self.knots(x) for x in k]
            for a in (0, 1):
                self.e.check(sum(x for y, x in kn[a]) == d[a] + n[a] + 1, "number of knots")
            m["Surfaces"].append((r, d, poles, kn))
        self.expect("Triangulations", "0", "TShapes")
        n = self.int(1)
        m["shapes"] = sh = {}
        for i in range(n):
            name = self.tok()
            self.e.check(name in NAMES, "unknown shape %r" % name)
            s = {"name": name}
            if name == "Ve":
                s["tol"], s["point"] = self.num(), [self.num() for c in range(3)]
                self.expect("0", "0")
            elif name == "Ed":
                s["tol"], s["eflags"], s["repr"] = self.num(), [self.int(0, 1) for c in range(3)], []
                while True:
                    k = self.int(0, 2)
                    if k == 0:
                        break
                    if k == 1:
                        s["repr"].append((1, self.int(1, len(m["Curves"]) - 1), None, self.int(0, nl), self.num(), self.num()))
                    else:
                        s["repr"].append((2, self.int(1, len(m["Curve2ds"]) - 1), self.int(1, len(m["Surfaces"]) - 1),
                                          self.int(0, nl), self.num(), self.num()))
            elif name == "Fa":
                s["restr"], s["tol"], s["surf"], s["loc"] = self.int(0, 1), self.num(), self.int(1, len(m["Surfaces"]) - 1), self.int(0, nl)
            f = self.tok()
            self.e.check(len(f) == 7 and set(f) <= set("01"), "shape flags")
            s["flags"], s["sub"] = f, []
            while True:
                r = self.ref(n, nl)
                if r is None:
                    break
                self.e.check(r[1] in sh, "reference to a shape that was not written before")
                s["sub"].append(r)
            sh[n - i] = s
        m["root"] = self.ref(n, nl)
        self.e.check(self.i == len(self.w), "text after the end of the model")
        return m


# ------------------------------------------------------------ description of the expected model
class Spec:
    """name, object of the writer, children [(orientation, spec, location)], data"""

    def __init__(self, name, obj, sub=(), **data):
        self.name, self.obj, self.sub, self.data = name, obj, list(sub), data


class Loc:
    def __init__(self, obj, kind=None, data=None):
        self.obj, self.kind, self.data = obj, kind, data


def nears(e, a, b, msg):
    e.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        if isinstance(x, (list, tuple)):
            nears(e, x, y, msg)
        else:
            e.near(x, y, msg)


class Match:
    def __init__(self, e, m):
        self.e, self.m, self.seen, self.back = e, m, {}, {}

    def loc(self, k, want):
        if want is None or want.kind is None:
            self.e.check(k == 0, "location of a shape")
            return
        self.e.check(k > 0, "location of a shape")
        kind, data = self.m["loc"][k]
        self.e.check(kind == want.kind, "kind of the location")
        if kind == "elem":
            nears(self.e, data, want.data, "matrix of the location")
        else:
            self.e.check([p for _, p in data] == [p for _, p in want.data], "powers of the location")
            for (k2, _), (w2, _) in zip(data, want.data):
                self.loc(k2, w2)

    def one_to_one(self, kind, k, obj):
        a = self.seen.setdefault((kind, id(obj)), k)
        b = self.back.setdefault((kind, k), id(obj))
        self.e.check(a == k and b == id(obj), "objects merged or duplicated")

    def shape(self, k, spec):
        e = self.e
        first = ("shape", id(spec)) not in self.seen
        self.one_to_one("shape", k, spec)
        if not first:
            return
        s = self.m["shapes"][k]
        e.check(s["name"] == spec.name, "kind of the shape")
        e.check(len(s["sub"]) == len(spec.sub), "number of subshapes")
        for (o, k2, l), (o2, sub, loc) in zip(s["sub"], spec.sub):
            e.check(o == o2, "orientation of a subshape")
            self.loc(l, loc)
            self.shape(k2, sub)
        d = spec.data
        if "tol" in d:
            e.near(s["tol"], d["tol"], "tolerance")
        if spec.name == "Ve":
            nears(e, s["point"], d["point"], "coordinates of a vertex")
        if spec.name == "Wi":
            n = {}
            for _, ed, _ in spec.sub:
                for _, v, _ in ed.sub:
                    n[id(v)] = n.get(id(v), 0) + 1
            e.check((s["flags"][4] == "1") == all(c % 2 == 0 for c in n.values()), "closed flag of the wire")
        if spec.name == "Ed":
            self.edge(s, spec)
        if spec.name == "Fa":
            self.face(s, spec)
        if "flags" in d:
            e.check(s["flags"] == d["flags"], "flags of the shape")

    def geom(self, got, want, msg):
        r, d, poles, kn = got
        e = self.e
        e.check(r == int(want["rational"]), msg + ": rational flag")
        e.check(d == want["degree"], msg + ": degree")
        nears(e, poles, want["poles"], msg + ": poles")
        nears(e, kn, want["knots"], msg + ": knots")

    def edge(self, s, spec):
        e = self.e
        e.check(s["eflags"] == list(spec.data.get("eflags", (1, 1, 0))), "flags of the edge")
        want = spec.data.get("repr", [])
        e.check(len(s["repr"]) >= max(1, len(want)), "number of representations of the edge")
        for r, w in zip(s["repr"], want):
            kind, c, surf, loc, t0, t1 = r
            e.check(kind == w["kind"], "kind of the representation of the edge")
            self.one_to_one(kind, c, w["curve"])
            self.geom(self.m["Curves" if kind == 1 else "Curve2ds"][c], w["curve"], "curve of the edge")
            if kind == 2:
                self.one_to_one("surf", surf, w["surf"])
                self.geom(self.m["Surfaces"][surf], w["surf"], "surface of the edge")
            self.loc(loc, w.get("loc"))
            nears(e, [t0, t1], w["t"], "parameter range of the edge")
        V = [v.data["point"] for _, v, _ in spec.sub]
        if not want:
            x = e.real("t", 0, 1)
        for r in s["repr"][len(want):]:
            # made by the writer: the straight line between the vertices
            kind, c, surf, loc, t0, t1 = r
            e.check(loc == 0, "location of the representation")
            t = t0 + x * (t1 - t0)
            p = bezier(e, self.m["Curves" if kind == 1 else "Curve2ds"][c], t)
            if kind == 2:
                p = bezier2(e, self.m["Surfaces"][surf], *p)
            for k in range(3):
                e.near(p[k], (1 - x) * V[0][k] + x * V[1][k], "representation of the edge is not the line between its vertices")

    def face(self, s, spec):
        e, w = self.e, spec.data.get("surf")
        if w is not None:
            self.one_to_one("surf", s["surf"], w)
            self.geom(self.m["Surfaces"][s["surf"]], w, "surface of the face")
            self.loc(s["loc"], spec.data.get("loc"))
            return
        e.check(s["loc"] == 0, "location of the surface")
        for _, wk, _ in s["sub"]:
            for _, ek, _ in self.m["shapes"][wk]["sub"]:
                on = [r for r in self.m["shapes"][ek]["repr"] if r[0] == 2 and r[2] == s["surf"]]
                e.check(len(on) == 1, "edge of the face has no curve on its surface")
        self.back.setdefault(("implicit", s["surf"]), spec)
        e.check(self.back[("implicit", s["surf"])] is spec, "surface of another face")


def bern(t, kn):
    (a, m), (b, n) = kn
    s = (t - a) / (b - a)
    return [(1 - s) * (1 - s), 2 * s * (1 - s), s * s]


def bezier(e, c, t):
    r, d, poles, kn = c
    e.check(r == 0 and d == 2 and [k for _, k in kn] == [3, 3], "line is not a Bezier curve of degree 2")
    B = bern(t, kn)
    return [L.dot(B, [p[k] for p in poles]) for k in range(len(poles[0]))]


def bezier2(e, s, u, v):
    r, d, poles, kn = s
    e.check(r == 0 and d == [2, 2] and all([k for _, k in x] == [3, 3] for x in kn), "surface is not a Bezier surface of degree 2")
    B, C = bern(u, kn[0]), bern(v, kn[1])
    return [L.dot(B, [L.dot(C, [q[k] for q in row]) for row in poles]) for k in range(3)]


# ------------------------------------------------------------ models
class Make:
    def __init__(self, e):
        L.stub_bih(e)
        self.e, self.bw, self.n = e, e.mod("bgem.bspline.brep_writer"), 0

    def vertex(self, p=None, **k):
        e = self.e
        self.n += 1
        p = p or [e.real("v%d_%d" % (self.n, c), -5, 5) for c in range(3)]
        return Spec("Ve", self.bw.Vertex(tuple(p), **({"tolerance": k["tol"]} if "tol" in k else {})), point=p, tol=k.get("tol", self.e.lit("1e-3")))

    def edge(self, a, b, **k):
        ob = self.bw.Edge([a.obj, b.obj], **({"tolerance": k["tol"]} if "tol" in k else {}))
        return Spec("Ed", ob, [("+", a, None), ("-", b, None)], tol=k.get("tol", self.e.lit("1e-3")))

    def refs(self, sub):
        """sub: [(orientation, spec)] or [(orientation, spec, location)]"""
        m = {"+": "p", "-": "m", "i": "i", "e": "e"}
        out = []
        for x in sub:
            if len(x) == 3 and x[2] is not None:
                O = self.bw.Orient
                out.append(self.bw.ShapeRef(x[1].obj, {"+": O.Forward, "-": O.Reversed, "i": O.Internal, "e": O.External}[x[0]], x[2].obj))
            else:
                out.append(x[1].obj if x[0] == "+" else getattr(x[1].obj, m[x[0]])())
        return out

    def shape(self, name, sub, **k):
        sub = [x if len(x) == 3 else x + (None,) for x in sub]
        args = {a: b for a, b in k.items() if a in ("surface", "location", "tolerance")}
        obj = getattr(self.bw, NAMES[name])(self.refs(sub), **args)
        data = {a: b for a, b in k.items() if a not in args}
        if name == "Fa" and sub[0][1].name == "Ed":
            w = Spec("Wi", None, sub)
            sub = [("+", w, None)]
        return Spec(name, obj, sub, **data)

    def loc(self, kind):
        """identity, elementary, composed (with a shared elementary one)"""
        e, bw = self.e, self.bw
        if kind == "id":
            return Loc(bw.Location())
        self.n += 1
        M = [[e.real("m%d_%d%d" % (self.n, r, c), -2, 2) for c in range(4)] for r in range(3)]
        el = Loc(bw.Location(M), "elem", M)
        if kind == "elem":
            return el
        co = Loc(bw.ComposedLocation([(el.obj, 2)]), "comp", [(el, 2)])
        if kind == "comp":
            return co
        return Loc(bw.ComposedLocation([(co.obj, -1), (el.obj, 3)]), "comp", [(co, -1), (el, 3)])

    def write(self, root, loc=None, times=1):
        loc = loc or Loc(self.bw.Location())
        for i in range(times):
            f = io.StringIO()
            self.bw.write_model(f, root.obj, loc.obj)
        m = Reader(self.e, f.getvalue()).read()
        self.e.check(m["root"][0] == "+", "orientation of the model")
        M = Match(self.e, m)
        M.loc(m["root"][2], loc)
        M.shape(m["root"][1], root)
        used = {k for (kind, k) in M.back if kind == "shape"}
        self.e.check(used == set(m["shapes"]), "shapes that are not in the model")
        return m

    def polygon(self, vs, orient, start, wire):
        """face with the edges along vs; orient: edge i is made from i to i+1 or reversed"""
        n = len(vs)
        es = []
        for i in range(n):
            a, b = vs[i], vs[(i + 1) % n]
            es.append(("+", self.edge(a, b)) if orient[i] == "+" else ("-", self.edge(b, a)))
        es = es[start:] + es[:start]
        if wire is None:
            return self.shape("Fa", es)
        return self.shape("Fa", [(wire, self.shape("Wi", es))])


def face(e, n, wire):
    M = Make(e)
    vs = [M.vertex() for i in range(n)]
    orient = ["+"] + [e.choice("o%d" % i, ["+", "-"]) for i in range(1, n)]
    if e.choice("first", [0, 1]):
        orient[0] = "-"
    f = M.polygon(vs, orient, e.choice("start", range(n)), wire)
    M.write(M.shape("Co", [("+", f)]), times=e.choice("times", [1, 2]))


def prism(e, perm, times):
    """shared edges and vertices, triangles and quads, as in the test"""
    M = Make(e)
    a, b = [M.vertex() for i in range(3)], [M.vertex() for i in range(3)]
    v = [M.edge(a[i], b[i]) for i in range(3)]
    t = [M.edge(a[i], a[(i + 1) % 3]) for i in range(3)]
    u = [M.edge(b[i], b[(i + 1) % 3]) for i in range(3)]
    fs = [M.shape("Fa", [("-", v[i]), ("+", t[i]), ("+", v[(i + 1) % 3]), ("-", u[i])]) for i in range(3)]
    fs += [M.shape("Fa", [("+", x) for x in t]), M.shape("Fa", [("-", M.shape("Wi", [("+", x) for x in u]))])]
    refs = [("+", f) for f in fs[:4]] + [("-", fs[4])]
    refs = [refs[i] for i in perm]
    so = M.shape("So", [("+", M.shape("Sh", refs))])
    M.write(M.shape("Co", [("+", so)]), M.loc(e.choice("location", ["id", "comp"])), times=times)


KN = [[(0, 3), (1, 3)], [(0, 3), (1, 1), (3, 3)], [(-1, 3), (2, 2), ("2.5", 3)]]


def geometry(e, M, kind, k, rational, name):
    kn = [(e.lit(x), m) for x, m in KN[k]]
    n = sum(m for x, m in kn) - 3
    if kind == "surf":
        kv = [(e.lit(x), m) for x, m in KN[(k + 1) % 3]]
        nv = sum(m for x, m in kv) - 3
        P = [[[e.real("%s%d%d%d" % (name, i, j, c), 1, 3) for c in range(3 + rational)] for j in range(nv)] for i in range(n)]
        return dict(rational=rational, degree=[2, 2], poles=P, knots=[kn, kv]), M.bw.Surface(P, (kn, kv), bool(rational))
    dim = int(kind)
    P = [[e.real("%s%d%d" % (name, i, c), 1, 3) for c in range(dim + rational)] for i in range(n)]
    cls = M.bw.Curve2D if dim == 2 else M.bw.Curve3D
    return dict(rational=rational, degree=2, poles=P, knots=kn), cls(P, kn, bool(rational))


def explicit(e, k, rational, share):
    """faces with given surfaces, edges with given curves, locations of them"""
    M = Make(e)
    V = [M.vertex(tol=e.real("tolv", "0.001", 1)) for i in range(3)]
    E = [M.edge(V[i], V[(i + 1) % 3], tol=e.real("tole", "0.001", 1)) for i in range(3)]
    S, s = geometry(e, M, "surf", k, rational, "s")
    lc = M.loc(e.choice("curve location", ["id", "elem"]))
    ls = M.loc(e.choice("surface location", ["id", "elem", "comp2"]))
    for i, x in enumerate(E):
        x.data["repr"] = R = []
        if i == 1:
            x.obj.set_edge_flags(0, 1, 0)
            x.data["eflags"] = (0, 1, 0)
        if i < 2:
            C, c = geometry(e, M, "3", (k + i) % 3, rational, "c%d_" % i)
            t = [e.real("a%d" % i, 0, 1), e.real("b%d" % i, 1, 2)]
            x.obj.attach_to_3d_curve(tuple(t), c, lc.obj)
            R.append(dict(kind=1, curve=C, t=t, loc=lc))
        if i > 0:
            C, c = geometry(e, M, "2", (k + i) % 3, rational, "d%d_" % i)
            t = [e.real("e%d" % i, 0, 1), e.real("f%d" % i, 1, 2)]
            x.obj.attach_to_2d_curve(tuple(t), c, s, ls.obj)
            R.append(dict(kind=2, curve=C, surf=S, t=t, loc=ls))
    w = M.shape("Wi", [("+", x) for x in E])
    fs = [M.shape("Fa", [("+", w)], surface=s, location=ls.obj, surf=S, loc=ls, tolerance=e.lit("0.5"), tol=e.lit("0.5"))]
    if share:
        fs.append(M.shape("Fa", [("-", w)], surface=s, surf=S))
    else:
        S2, s2 = geometry(e, M, "surf", (k + 2) % 3, 0, "z")
        fs.append(M.shape("Fa", [("-", w)], surface=s2, surf=S2))
    M.write(M.shape("Co", [("+", x) for x in fs]), M.loc(e.choice("location", ["id", "elem"])), times=e.choice("times", [1, 2]))


def from_bs(e, k, rational):
    """conversion of the B-spline objects"""
    M = Make(e)
    B = e.mod("bgem.bspline.bspline")
    flat = lambda kn: [x for x, m in kn for i in range(m)]
    kn = [[(e.lit(x), m) for x, m in KN[(k + i) % 3]] for i in range(2)]
    bs = [B.SplineBasis(2, e.arr(flat(x))) for x in kn]
    P = [[[e.real("s%d%d%d" % (i, j, c), 1, 3) for c in range(3 + rational)] for j in range(bs[1].size)] for i in range(bs[0].size)]
    s = M.bw.surface_from_bs(B.Surface(bs, e.np.array(P), bool(rational)))
    Q = [[e.real("c%d%d" % (i, c), 1, 3) for c in range(3)] for i in range(bs[0].size)]
    c = M.bw.curve_from_bs(B.Curve(bs[0], e.np.array(Q)))
    W = [[e.real("d%d%d" % (i, c), 1, 3) for c in range(2 + rational)] for i in range(bs[1].size)]
    d = M.bw.curve_from_bs(B.Curve(bs[1], e.np.array(W), bool(rational)))
    Sd = dict(rational=rational, degree=[2, 2], poles=P, knots=kn)
    m = Match(e, None)
    rd = lambda o: (int(o.rational), o.degree if isinstance(o.degree, int) else list(o.degree),
                    [[list(q) for q in p] if o is s else list(p) for p in o.poles], o.knots)
    m.geom(rd(s), Sd, "converted surface")
    m.geom(rd(c), dict(rational=0, degree=2, poles=Q, knots=kn[0]), "converted curve")
    m.geom(rd(d), dict(rational=rational, degree=2, poles=W, knots=kn[1]), "converted curve")
    # vertices in the ends of the curve are accepted, other ones are not
    v = [M.vertex(Q[0]), M.vertex(Q[-1])]
    x = M.edge(*v)
    dom = bs[0].domain
    x.obj.attach_to_3d_curve((dom[0], dom[1]), c)
    x.data["repr"] = [dict(kind=1, curve=dict(rational=0, degree=2, poles=Q, knots=kn[0]), t=[dom[0], dom[1]])]
    M.write(M.shape("Co", [("+", x)]))
    ax = e.choice("axis", range(3))
    far = [q + (e.real("off", "0.1", 3) if i == ax else 0) for i, q in enumerate(Q[-1])]
    try:
        M.edge(v[0], M.vertex(far)).obj.attach_to_3d_curve((dom[0], dom[1]), c)
    except Exception as ex:
        e.check("far from curve" in str(ex), "refused for another reason")
    else:
        e.check(False, "accepted a vertex far from the end of the curve")


def nested(e, what):
    """references with orientations and locations on all levels"""
    M = Make(e)
    o = lambda n: e.choice("o " + n, "+-ie")
    locs = [M.loc(k) for k in ("id", "elem", "comp2")]
    l = lambda n: e.choice("l " + n, locs)
    V = [M.vertex() for i in range(3)]
    f = M.polygon(V, "+++", 0, None)
    if what == "shapes":
        sh = M.shape("Sh", [(o("face"), f, l("face"))])
        x = M.vertex()
        root = M.shape("Co", [(o("shell"), sh, l("shell")), ("+", x, None), ("-", x, l("vertex"))])
    else:
        sh = M.shape("Sh", [("+", f)])
        so = M.shape("So", [(o("shell"), sh, l("shell"))])
        cs = M.shape("Cs", [("+", so), (o("solid"), so, l("solid"))])
        ed = M.edge(V[0], V[2])
        wi = M.shape("Wi", [("+", ed)])
        root = M.shape("Co", [("+", cs), ("-", ed), ("+", wi)])
    M.write(root, M.loc("elem"), times=e.choice("times", [1, 2]))


def rejected(e):
    """faces of open wires and wrong kinds of subshapes are refused"""
    M = Make(e)
    bw = M.bw
    V = [M.vertex() for i in range(4)]
    E = [M.edge(V[i], V[i + 1]) for i in range(3)] + [M.edge(V[3], V[0])]
    drop = e.choice("drop", range(4))
    part = [x for i, x in enumerate(E) if i != drop]
    for make in (lambda: bw.Face([x.obj for x in part]), lambda: bw.Face([bw.Wire([x.obj for x in part])])):
        try:
            make()
        except Exception as x:
            e.check("non-closed" in str(x), "refused for another reason")
        else:
            e.check(False, "face of an open wire accepted")
    f = bw.Face([x.obj for x in E])
    for cls, ch in ((bw.Wire, V[0].obj), (bw.Shell, E[0].obj), (bw.Solid, f), (bw.Edge, E[0].obj), (bw.CompoundSolid, f), (bw.Face, V[0].obj)):
        try:
            cls([ch, ch])
        except bw.ParamError:
            pass
        else:
            e.check(False, "wrong kind of a subshape accepted")
    e.check(bw.Wire([x.obj for x in E]).is_closed() == 1, "closed wire")


def approx(e, n, form):
    """plane and bilinear surface through points, also given as the caller's list (not changed)"""
    M = Make(e)
    A = M.bw.Approx
    P = [[e.real("p%d%d" % (i, k), -5, 5) for k in range(3)] for i in range(n)]
    given = [tuple(p) for p in P] if form == "tuples" else [list(p) for p in P]
    for rep in range(2):
        s, uv = (A.plane if n == 3 else A.bilinear)(given)
        e.check(len(given) == n and len(uv) == n, "number of points")
        g = (0, list(s.degree), [[[x for x in q] for q in r] for r in s.poles], s.knots)
        for p, (u, v) in zip(P, uv):
            nears(e, bezier2(e, g, u, v), p, "surface does not contain the point")
    u, v = e.real("u", 0, 1), e.real("v", 0, 1)
    x = bezier2(e, g, u, v)
    for k in range(3):
        if n == 3:
            r = P[0][k] + u * (P[1][k] - P[0][k]) + v * (P[2][k] - P[0][k])
        else:
            r = (P[0][k] * (1 - u) + P[1][k] * u) * (1 - v) + (P[3][k] * (1 - u) + P[2][k] * u) * v
        e.near(x[k], r, "not the plane" if n == 3 else "not the bilinear surface")


def jobs():
    J = []
    for n in (3, 4):
        for w in (None, "+", "-"):
            J.append(Job("face:%d:%s" % (n, w), face, dict(n=n, wire=w), bounds="any vertices, all orientations of the edges and starts of the wire"))
        for f in ("tuples", "lists"):
            J.append(Job("approx:%d:%s" % (n, f), approx, dict(n=n, form=f), bounds="any points and parameters"))
    for i, perm in enumerate(([0, 1, 2, 3, 4], [3, 4, 0, 1, 2], [4, 2, 3, 1, 0])):
        for t in (1, 2):
            J.append(Job("prism:%d:%d" % (i, t), prism, dict(perm=perm, times=t), bounds="any vertices, shared edges, with and without location"))
    for k in range(3):
        for r in (0, 1):
            for s in (0, 1):
                J.append(Job("explicit:%d:%d:%d" % (k, r, s), explicit, dict(k=k, rational=r, share=s),
                             bounds="any poles, weights, locations, tolerances and parameter ranges"))
            J.append(Job("frombs:%d:%d" % (k, r), from_bs, dict(k=k, rational=r), bounds="any poles and weights"))
    for w in ("shapes", "solids"):
        J.append(Job("nested:" + w, nested, dict(what=w), bounds="all orientations and kinds of locations at two or three references"))
    J.append(Job("rejected", rejected, {}, bounds="one edge of four left out; wrong kinds of subshapes"))
    for j in J:
        j.symchoice = True
    return J
