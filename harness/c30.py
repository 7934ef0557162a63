"""C30: mesh size fields, options and primitive shapes mean in gmsh what the caller said."""
import types

from symx.runner import Job
from harness import gmshlib

OUTSIDE = "What gmsh does with the values; the module gmsh is replaced by a recording stand-in; the sigmoid of a threshold is checked by its parameters only."


def lt(e, a, b):
    return bool(a < b)


def value(e, k, i, vals, x):
    """Value of a field as gmsh documents it."""
    e.check(hasattr(i, "__index__") and i in k.fields, "known field")
    f = k.fields[i]
    kind = f["kind"]
    if kind in ("Distance",):
        return vals[i]
    if kind == "Threshold":
        e.check(f["IField"] != i, "field of itself")
        d = value(e, k, f["IField"], vals, x)
        a, b = f["DistMin"], f["DistMax"]
        va, vb = f["LcMin"], f["LcMax"]
        if d <= a and a < b:
            return va
        if d >= b:
            e.check(not f.get("StopAtDistMax"), "no value over the upper bound")
            return vb
        e.check(a < b, "bounds of the threshold in order")
        return va + (vb - va) * ((d - a) / (b - a))
    if kind == "Box":
        ok = all(bool(f[n + "Min"] <= c) and bool(c <= f[n + "Max"]) for n, c in zip("XYZ", x))
        return f["VIn"] if ok else f["VOut"]
    e.check(kind in ("Min", "Max") and len(f["FieldsList"]) > 0, "kind of a field")
    e.check(all(hasattr(j, "__index__") and j < i for j in f["FieldsList"]), "fields given before")
    vs = [value(e, k, j, vals, x) for j in f["FieldsList"]]
    m = vs[0]
    for v in vs[1:]:
        if (v < m) if kind == "Min" else (v > m):
            m = v
    return m


def threshold(e):
    k = gmshlib.start(e)
    F = e.mod("bgem.gmsh.field")
    base = F.distance_nodes([3, 1])
    other = F.distance_nodes([2])
    a, va, vb = e.real("a", -50, 50), e.real("va", 0, 9), e.real("vb", 0, 9)
    b = a + e.real("w", "1/100", 90)
    d = e.real("d", -60, 200)
    upper = e.choice("upper", [0, 1])
    pair = e.choice("pair", [tuple, list])
    sig = e.choice("sigmoid", [False, True])
    kw = {"sigmoid": True} if sig else {}
    t = F.threshold(base, pair((a, va)), pair((b, vb)), **kw) if upper else F.threshold(base, pair((a, va)), **kw)
    e.check(k.fields[t]["kind"] == "Threshold" and k.fields[t]["IField"] == base, "field of the threshold")
    e.check(bool(k.fields[t].get("Sigmoid", False)) == sig, "kind of interpolation")
    got = value(e, k, t, {base: d, other: d + 1}, None)
    if not upper:
        e.near(got, va, "threshold without an upper bound")
    elif d <= a:
        e.near(got, va, "threshold under the lower bound")
    elif d >= b:
        e.near(got, vb, "threshold over the upper bound")
    else:
        e.near(got, va + (vb - va) * (d - a) / (b - a), "interpolation of the threshold")
    e.check(set(k.fields) == {base, other, t}, "no other field")


def boxes(e):
    k = gmshlib.start(e)
    F = e.mod("bgem.gmsh.field")
    x = [e.real("x%d" % i, -9, 9) for i in range(3)]
    lo = [e.real("l%d" % i, -5, 5) for i in range(3)]
    hi = [l + e.real("w%d" % i, 0, 5) for i, l in enumerate(lo)]
    vi, vo, r = e.real("vi", 0, 9), e.real("vo", 0, 9), e.real("r", 0, 9)
    kind = e.choice("kind", ["box", "box default", "constant"])
    if kind == "constant":
        f = F.constant(vi, r)
        if all(bool(-r <= c) and bool(c <= r) for c in x):
            e.near(value(e, k, f, {}, x), vi, "constant field")
        return
    f = F.box(lo, hi, vi, vo) if kind == "box" else F.box(tuple(lo), tuple(hi), vi)
    inside = all(bool(l <= c) and bool(c <= h) for l, c, h in zip(lo, x, hi))
    got = value(e, k, f, {}, x)
    if inside:
        e.near(got, vi, "value inside of the box")
    elif kind == "box":
        e.near(got, vo, "value outside of the box")
    else:
        e.check(got > 1e100, "value outside of the box")


def combine(e):
    k = gmshlib.start(e)
    F = e.mod("bgem.gmsh.field")
    x = [e.real("x%d" % i, -2, 2) for i in range(3)]
    va, vb, vc = e.real("va", 0, 9), e.real("vb", 0, 9), e.real("vc", 0, 9)
    fa = F.box((-1, -3, -3), (1, 3, 3), va, vb)
    fb = F.constant(vc, 5)
    fc = F.box((-3, 0, -3), (3, 3, 3), vb)
    fields = e.choice("fields", [[fa, fb], [fb, fa, fc], [fc]])
    op = e.choice("op", ["min", "max", "both"])
    vals = []
    for f in fields:
        v = value(e, k, f, {}, x)
        vals.append(v)
    if op == "both":
        g = F.max([F.min(fields), fb])
    else:
        g = getattr(F, op)(fields)
    got = value(e, k, g, {}, x)
    if op != "max":
        m = vals[0]
        for v in vals[1:]:
            m = v if v < m else m
        want = m if op == "min" else (m if m > vc else vc)
    else:
        m = vals[0]
        for v in vals[1:]:
            m = v if v > m else m
        want = m
    e.near(got, want, "value of combined fields")
    F.set_mesh_step_field(g)
    e.check(k.background == g, "field of the mesh step")


def distances(e):
    k = gmshlib.start(e)
    F = e.mod("bgem.gmsh.field")
    tags = e.choice("tags", [[4, 2, 9], [1], []])
    coord = e.choice("coord", [None, (5, 6, 7), [8, 9, 10]])
    kw = {} if coord is None else {"coordinate_fields": coord}
    which = e.choice("which", ["nodes", "edges", "edges n"])
    n = e.real("n", 2, 50)
    if which == "nodes":
        f = k.fields[F.distance_nodes(tags, **kw)]
        e.check(list(f["NodesList"]) == tags and not f.get("EdgesList"), "nodes of the distance")
    else:
        f = k.fields[F.distance_edges(tags, **kw) if which == "edges" else F.distance_edges(tags, n, **kw)]
        e.check(list(f["EdgesList"]) == tags and not f.get("NodesList"), "edges of the distance")
        if which == "edges n":
            e.check(f["NNodesByEdge"] == n, "nodes on an edge")
        else:
            e.check(f["NNodesByEdge"] == 8, "nodes on an edge by default")
    e.check(f["kind"] == "Distance", "kind of the field")
    e.check([f.get("Field" + c) for c in "XYZ"] == (list(coord) if coord else [None] * 3), "fields of coordinates")


def restrict(e):
    k = gmshlib.start(e)
    F = e.mod("bgem.gmsh.field")
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    ents = {3: [k.add(3, [0]), k.add(3, [1, 2])], 2: [k.add(2, [0])], 1: [k.add(1, [3]), k.add(1, [2])], 0: [k.add(0, [1]), k.add(0, [0])]}
    if e.choice("touching", [False, True]):
        # common boundaries
        for d in (3, 1):
            ents[d] = k.boolean(ents[d], [], "fragment")[0]
    geo._need_synchronize = True
    sets = []
    n = 1 + e.choice("n", [0, 1, 2])
    want = set()
    for i in range(n):
        d = e.choice("dim", [0, 1, 2, 3])
        dts = ents[d][:1 + e.choice("several", [0, 1])]
        sets.append(G.ObjectSet(geo, list(dts), [G.Region.get("r%d" % i)]))
        want |= set(dts)
    add = e.choice("boundary", [False, True])
    f = F.restrict(77, *sets, **({"add_boundary": True} if add else {}))
    if add:
        want |= {b for w in want for b in k.bnd[w]}
    r = k.fields[f]
    e.check(r["kind"] == "Restrict" and r["IField"] == 77, "field to restrict")
    got = {(d, t) for d, name in enumerate(["NodesList", "EdgesList", "FacesList", "RegionsList"]) for t in r.get(name, [])}
    e.check(got == want, "entities of the restriction")


def options(e):
    k = gmshlib.start(e)
    O = e.mod("bgem.gmsh.options")
    cls, prefix = e.choice("class", [("Mesh", "Mesh."), ("Geometry", "Geometry.")])
    o = getattr(O, cls)()
    for n, v in k.option_log:
        e.check(n.startswith(prefix), "prefix of an option")
    if cls == "Mesh":
        e.check(k.options["Mesh.Algorithm"] == 2 and k.options["Mesh.Algorithm3D"] == 1, "options with a default")
        e.check("Mesh.CharacteristicLengthMin" not in k.options, "option without a default")
    names = {"Mesh": ["Algorithm3D", "CharacteristicLengthMin", "CharacteristicLengthExtendFromBoundary", "CharacteristicLengthFromPoints", "ToleranceInitialDelaunay"],
             "Geometry": ["Tolerance", "ToleranceBoolean", "AutoCoherence", "OCCFixDegenerated"]}[cls]
    name = e.choice("name", names)
    other = e.choice("other", ["Foo", "prefix2", "CharacteristicLenghtMin", name.lower(), prefix + name])
    kind = e.choice("value", ["number", "bool", "enum", "text", "none", "unknown"])
    before = dict(k.options)
    v = {"number": e.real("v", -5, 5), "bool": True, "enum": O.Algorithm3d.RTree, "text": "abc", "none": None, "unknown": 1.0}[kind]
    target = other if kind == "unknown" else name
    try:
        setattr(o, target, v)
        raised = False
    except Exception:
        raised = True
    e.check(raised == (kind in ("text", "none", "unknown")), "value accepted or refused")
    if raised:
        e.check(k.options == before, "refused value changes nothing")
    else:
        e.check(k.options[prefix + name] == v, "value of the option")
        del k.options[prefix + name]
        before.pop(prefix + name, None)
        e.check(k.options == before, "other options kept")
        w = e.real("w", -5, 5)
        setattr(o, name, w)
        e.check(k.options[prefix + name] == w, "the last value counts")


class Own:
    pass


def own_options(e):
    """Options of a class derived by the user."""
    k = gmshlib.start(e)
    O = e.mod("bgem.gmsh.options")
    v = e.real("v", -5, 5)

    class View(O.OptionsBase):
        def __init__(self):
            super().__init__("View.")
            self.Name = str
            self.Title = "first"
            self.Size = v
            self.finish_init()
    o = View()
    e.check(k.options == {"View.Title": "first", "View.Size": v}, "defaults of own options")
    o.Name = "second"
    o.Size = 2 * v
    e.check(k.options == {"View.Title": "first", "View.Size": 2 * v, "View.Name": "second"}, "own options")
    for n, x in (("Name", 1.0), ("Size", "text"), ("Missing", 1.0)):
        try:
            setattr(o, n, x)
        except Exception:
            continue
        e.check(False, "value of a wrong type accepted")


def same(e, a, b, msg):
    e.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        e.near(x, y, msg)


def primitives(e):
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    kind = e.choice("kind", ["rectangle", "box", "cylinder"])
    seq = e.choice("seq", ["list", "tuple", "array"])

    def mk(x):
        return {"list": list, "tuple": tuple, "array": e.arr}[seq](x)
    for turn in range(2):
        c = [e.real("c%d%d" % (turn, i), -9, 9) for i in range(3)]
        s = [e.real("s%d%d" % (turn, i), "1/10", 9) for i in range(3)]
        dc, ds = e.choice("default center", [0, 1]), e.choice("default size", [0, 1])
        kw = {} if dc else {"center": mk(c)}
        if dc:
            c = [0, 0, 0]
        if kind == "rectangle":
            s = [1, 1] if ds else s[:2]
            arg = mk(s)
            o = geo.rectangle(**kw) if ds else geo.rectangle(arg, **kw)
            same(e, list(arg), s, "argument changed")
            g = k.geo[o.dim_tags[0]]
            same(e, [g[1] + g[4] / 2, g[2] + g[5] / 2, g[3]], c, "center of the rectangle")
            same(e, g[4:6], s, "sides of the rectangle")
            e.check(g[0] == "rectangle" and g[6] == 0 and o.dim_tags[0][0] == 2, "shape")
        elif kind == "box":
            o = geo.box(mk(s), **kw)
            g = k.geo[o.dim_tags[0]]
            same(e, [g[i + 1] + g[i + 4] / 2 for i in range(3)], c, "center of the box")
            same(e, g[4:7], s, "sides of the box")
            e.check(g[0] == "box" and o.dim_tags[0][0] == 3, "shape")
        else:
            r = e.real("r%d" % turn, "1/10", 5)
            o = geo.cylinder(**kw) if ds else geo.cylinder(r, mk(s), **kw)
            g = k.geo[o.dim_tags[0]]
            same(e, g[1:4], c, "base of the cylinder")
            same(e, g[4:7], [0, 0, 1] if ds else s, "axis of the cylinder")
            e.near(g[7], 1 if ds else r, "radius of the cylinder")
        e.check(len(o.dim_tags) == 1 and o.size == 1 and len(o.tags) == 1 and o.tags[0] == o.dim_tags[0][1], "one object")
        geo.synchronize()
        e.check(o.dim_tags[0] in k.get_entities(), "object visible after synchronize")
        e.check([r.name for r in o.regions] == ["default_%dd" % o.dim_tags[0][0]], "default region")


def loop_points(e, k, loop):
    """Points of a closed loop of lines."""
    tags = loop[1] if isinstance(loop, tuple) else loop
    ends = [[k.geo[1, abs(t)][1], k.geo[1, abs(t)][2]] for t in tags]
    if len(ends) < 3:
        return None
    cur = ends[0][1] if ends[0][1] in ends[1] else ends[0][0]
    first = ends[0][0] if cur == ends[0][1] else ends[0][1]
    pts = [first]
    for a, b in ends[1:]:
        pts.append(cur)
        if cur not in (a, b):
            return None
        cur = b if cur == a else a
    return pts if cur == first and len(set(pts)) == len(pts) else None


def polygon(e):
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m", e.choice("model", ["occ", "geo"]))
    n = 3 + e.choice("n", [0, 1, 2])
    pts = [[e.real("p%d%d" % (i, c), -9, 9) for c in range(3)] for i in range(n)]
    step = e.choice("step", ["none", "float", "list", "array", "int"])
    h = [e.real("h%d" % i, "1/10", 9) for i in range(n)]
    arg = e.arr(pts) if e.choice("array", [0, 1]) else pts
    geo.synchronize()
    if step == "none":
        o, h = geo.make_polygon(arg), [0] * n
    elif step == "float":
        o, h = geo.make_polygon(arg, h[0]), [h[0]] * n
    elif step == "int":
        o, h = geo.make_polygon(arg, mesh_step=2), [2] * n
    else:
        o = geo.make_polygon(arg, h if step == "list" else e.arr(h))
    e.check(len(o.dim_tags) == 1 and o.dim_tags[0][0] == 2, "one face")
    loops = k.geo[o.dim_tags[0]][1]
    e.check(len(loops) == 1, "one loop")
    lp = loop_points(e, k, loops[0])
    e.check(lp is not None and len(lp) == n, "closed loop of the polygon")
    # any start, any direction
    order = {t: i for i, t in enumerate(sorted(t for d, t in k.ents if d == 0))}
    idx = [order[t] for t in lp]
    i0 = idx.index(0)
    idx = idx[i0:] + idx[:i0]
    e.check(idx in (list(range(n)), [0] + list(range(n - 1, 0, -1))), "order of the vertices")
    for t, i in order.items():
        g = k.geo[0, t]
        same(e, g[1:4], pts[i], "vertex of the polygon")
        e.near(g[4], h[i], "mesh step of a vertex")
    geo.synchronize()
    e.check(o.dim_tags[0] in k.get_entities(), "polygon visible after synchronize")
    b = o.get_boundary()
    e.check(len(b.dim_tags) == n and all(d == 1 for d, t in b.dim_tags), "boundary of the polygon")


def shapes(e):
    """Rectangle with corners at the multiples of a vector; reference simplex."""
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    if e.choice("kind", ["rectangle", "simplex"]) == "rectangle":
        s = [e.real("s%d" % i, "1/10", 9) for i in range(3)]
        tag = geo.make_rectangle(e.arr(s))
        lp = loop_points(e, k, k.geo[2, tag][1][0])
        e.check(lp is not None and len(lp) == 4, "closed loop of the rectangle")
        p = [k.geo[0, t][1:4] for t in lp]
        for i in range(4):
            e.near(abs(p[i][0]), s[0], "corner")
            e.near(abs(p[i][1]), s[1], "corner")
            e.near(p[i][2], 0, "corner")
        # diagonals of the loop meet in the center
        for i in range(2):
            for c in range(2):
                e.near(p[i][c] + p[i + 2][c], 0, "opposite corners")
        e.check(not bool(p[0][0] == p[1][0]) or not bool(p[0][1] == p[1][1]), "corners differ")
        geo.synchronize()
        e.check((2, tag) in k.get_entities(), "visible after synchronize")
        return
    dim = e.choice("dim", [0, 1, 2, 3])
    o = geo.make_simplex(dim)
    e.check(len(o.dim_tags) == 1 and o.dim_tags[0][0] == dim, "dimension of the simplex")
    pts = {t: [k.geo[0, t][1 + c] for c in range(3)] for d, t in k.ents if d == 0}
    want = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]][:dim + 1]
    e.check(len(pts) == dim + 1, "number of vertices")
    for w in want:
        e.check(any(all(bool(a == b) for a, b in zip(w, p)) for p in pts.values()), "vertex of the simplex")
    if dim == 1:
        e.check(set(k.geo[o.dim_tags[0]][1:3]) == set(pts), "ends of the line")
    faces = []
    if dim == 2:
        faces = [k.geo[o.dim_tags[0]]]
    if dim == 3:
        e.check(len(k.geo[o.dim_tags[0]][1]) == 1, "one shell")
        faces = [k.geo[2, abs(t)] for t in k.geo[o.dim_tags[0]][1][0][1]]
    tri = []
    for f in faces:
        e.check(len(f[1]) == 1, "one loop")
        lp = loop_points(e, k, f[1][0])
        e.check(lp is not None and len(lp) == 3, "face of the simplex")
        tri.append(frozenset(lp))
    e.check(len(tri) == len(set(tri)) == {0: 0, 1: 0, 2: 1, 3: 4}[dim], "faces of the simplex")
    e.check(len([t for d, t in k.ents if d == 1]) == {0: 0, 1: 1, 2: 3, 3: 6}[dim], "edges of the simplex")
    geo.synchronize()
    e.check(o.dim_tags[0] in k.get_entities(), "visible after synchronize")


def image(e, k, dt, x, rots):
    """Image of a point in the transforms of an entity; the matrix of the n-th rotation is any matrix."""
    n = 0
    for t in k.map[dt]:
        if t[0] == "translate":
            x = [a + b for a, b in zip(x, t[1:])]
        elif t[0] == "dilate":
            c = t[1:4]
            x = [p + s * (a - p) for p, a, s in zip(c, x, t[4:7])]
        else:
            c, axis, angle = t[1:4], t[4:7], t[7]
            e.check(n < len(rots), "number of rotations")
            ax, an, R = rots[n]
            n += 1
            for p, q in zip(ax + [an], axis + (angle,)):
                e.check(p == q, "axis and angle of a rotation")
            v = [a - p for a, p in zip(x, c)]
            x = [p + sum((R[i][j] * v[j] for j in range(3)), start=e.lit("0")) for i, p in enumerate(c)]
    return x


def rot(e, name):
    axis = [e.real("%sa%d" % (name, i), -1, 1) for i in range(3)]
    return axis, e.real(name + "w", -3, 3), [[e.real("%sr%d%d" % (name, i, j), -1, 1) for j in range(3)] for i in range(3)]


def transforms(e, n):
    """Any sequence of transforms of an object and of its copy."""
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    k.queue = [(0,), (1, 2)]
    a, b = geo.box([1, 1, 1]), geo.box([1, 1, 1])
    o = geo.group(a, b)
    x = [e.real("x%d" % i, -2, 2) for i in range(3)]
    rots, copies, want = [], [], x
    for i in range(n):
        op = e.choice("op%d" % i, ["translate", "scale", "rotate", "copy"])
        v = [e.real("v%d%d" % (i, c), -2, 2) for c in range(3)]
        c = [e.real("c%d%d" % (i, j), -2, 2) for j in range(3)]
        dc = e.choice("center%d" % i, [0, 1]) if op in ("scale", "rotate") else 0
        kw = {"center": c} if dc else {}
        if not dc:
            c = [0, 0, 0]
        if op == "copy":
            p = o.copy()
            e.check(not set(p.dim_tags) & set(o.dim_tags) and [d for d, t in p.dim_tags] == [3, 3], "new entities of the copy")
            e.check([r.name for r in p.regions] == [r.name for r in o.regions], "regions of the copy")
            copies.append((o, want))
            o = p
            continue
        if op == "translate":
            r = o.translate(v)
            want = [p + q for p, q in zip(want, v)]
        elif op == "scale":
            r = o.scale(v, **kw)
            want = [p + s * (q - p) for p, q, s in zip(c, want, v)]
        else:
            ax, an, R = rot(e, "q%d" % i)
            rots.append((ax, an, R))
            r = o.rotate(ax, an, **kw)
            w = [p - q for p, q in zip(want, c)]
            want = [c[a] + sum((R[a][b] * w[b] for b in range(3)), start=e.lit("0")) for a in range(3)]
        e.check(r is o, "the object is returned")
        geo.synchronize()
        e.check(all(k.seen_map[dt] is not None and len(k.seen_map[dt]) == len(k.map[dt]) for dt in o.dim_tags), "the model sees the transform after synchronize")
    for obj, w in copies + [(o, want)]:
        for dt in obj.dim_tags:
            same(e, image(e, k, dt, x, rots), w, "image of a point")


def files(e):
    """Files are written from the current model under the given name."""
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("model name")
    k.queue = [(0,)]
    a = geo.box([e.real("a%d" % i, "1/10", 5) for i in range(3)])
    name = e.choice("name", [None, "some.name", "dir/file"])
    what = e.choice("what", ["brep", "mesh"])
    if what == "brep":
        geo.write_brep(*([name] if name else []))
        w = [l for l in k.log if l[0] == "write"]
        e.check(len(w) == 1 and w[0][1] == (name or "model name") + ".brep" and a.dim_tags[0] in w[0][2], "file of the model")
        return
    geo.make_mesh([a], dim=2 if name else 3)
    e.check([g[0] for g in k.generated] == [2 if name else 3], "dimension of the mesh")
    if name:
        geo.write_mesh(name)
    else:
        f = e.choice("format", ["msh", "msh2", "vtk", "stl"])
        geo.write_mesh(format=G.MeshFormat[f])
        e.check(k.options["Mesh.Format"] == G.MeshFormat[f], "format of the mesh")
        name = "model name." + f
    w = [l for l in k.log if l[0] == "write"]
    e.check(len(w) == 1 and w[0][1] == name, "file of the mesh")


def fractures(e, n):
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    base = G.ObjectSet(geo, [k.add(2, [0])], [G.Region.get("base")])
    frs, rots = [], []
    regs = [geo.get_region_name("fr_a"), "fr_b", "fr_a"]
    for i in range(n):
        ax, an, R = rot(e, "q%d" % i)
        rots.append((ax, an, R))
        frs.append(types.SimpleNamespace(rx=e.real("rx%d" % i, "1/10", 5), ry=e.real("ry%d" % i, "1/10", 5), rotation_axis=ax, rotation_angle=an,
                                         centre=[e.real("c%d%d" % (i, c), -5, 5) for c in range(3)], region=e.choice("reg%d" % i, regs)))
    x = [e.real("x0", -1, 1), e.real("x1", -1, 1), e.real("x2", -1, 1)]
    # the copies do not touch: fragments are the shapes themselves
    kb = k.boolean
    k.moved = []

    def boolean(a, b, kind, *rest):
        k.moved = [list(k.map[tuple(d)]) for d in list(a) + list(b)]
        for i, d in enumerate(a):
            k.ents[tuple(d)] = frozenset([i])
        return kb(a, b, kind, *rest)
    k.boolean = boolean
    out = geo.make_fractures(frs, base)
    e.check(len(out) == n, "one object per fracture")
    e.check(len(k.moved) == n, "every fracture is fragmented")
    e.check(base.dim_tags and tuple(base.dim_tags[0]) in k.ents and not k.map[tuple(base.dim_tags[0])], "the base shape is kept")
    for i, (o, fr) in enumerate(zip(out, frs)):
        name = fr.region if isinstance(fr.region, str) else fr.region.name
        e.check([r.name for r in o.regions] == [name] * len(o.dim_tags) and all(r.dim == 2 for r in o.regions), "region of the fracture")
        e.check([sorted(k.ents[tuple(d)]) for d in o.dim_tags] == [[i]], "fragments of the fracture")
        k.map["moved"] = k.moved[i]
        R = rots[i][2]
        s = [fr.rx * x[0], fr.ry * x[1], x[2]]
        want = [sum((R[a][b] * s[b] for b in range(3)), start=e.lit("0")) + fr.centre[a] for a in range(3)]
        same(e, image(e, k, "moved", x, rots[i:i + 1]), want, "place of the fracture")


def masses(e, n):
    k = gmshlib.start(e)
    G = e.mod("bgem.gmsh.gmsh")
    geo = G.GeometryOCC("m")
    dts = [k.add(3, [0]), k.add(3, [1]), k.add(2, [3]), k.add(3, [2])][:n]
    regs = [G.Region.get("r%d" % i) for i in range(n)]
    o = G.ObjectSet(geo, list(dts), list(regs))
    m = [e.real("m%d" % i, 0, 9) for i in range(n)]
    c = [[e.real("c%d%d" % (i, j), -9, 9) for j in range(3)] for i in range(n)]
    for i, d in enumerate(dts):
        k.mass[d] = m[i]
        k.center[d] = e.np.array(c[i]) if e.choice("array", [0, 1]) else tuple(c[i])
    total = sum(m, start=e.lit("0"))
    e.near(o.mass(), total, "mass of the object")
    got = o.center_of_mass()
    e.near(got[1], total, "mass with the center")
    if total > 0:
        for j in range(3):
            e.near(got[0][j] * total, sum((m[i] * c[i][j] for i in range(n)), start=e.lit("0")), "center of the mass", tol=1e-6)
    limit = e.real("limit", 0, 9)
    r = o.remove_small_mass(limit)
    e.check(r is o, "the object is returned")
    keep = [i for i in range(n) if m[i] > limit]
    e.check(list(o.dim_tags) == [dts[i] for i in keep] and [x.name for x in o.regions] == ["r%d" % i for i in keep], "objects over the limit with their regions")


def jobs():
    out = [
        Job("threshold", threshold, bounds="any bounds, values and distance; with and without upper bound"),
        Job("boxes", boxes, bounds="any box, radius, point"),
        Job("combine", combine, bounds="up to three fields, minimum, maximum, nested; any point and values"),
        Job("distances", distances, bounds="three lists of tags, coordinate fields, any number of nodes"),
        Job("restrict", restrict, bounds="up to three object sets of dimensions 0 to 3, with or without boundary"),
        Job("options", options, bounds="nine options of the two classes, any number, other types, unknown names"),
        Job("own_options", own_options, bounds="class with text and numeric options"),
        Job("primitives", primitives, bounds="rectangle, box, cylinder of any size and place twice in turn, defaults, lists, tuples, arrays"),
        Job("polygon", polygon, bounds="3 to 5 points anywhere, mesh steps of all kinds"),
        Job("shapes", shapes, bounds="any scale; dimensions 0 to 3"),
        Job("transforms", transforms, {"n": 2}, bounds="two transforms or copies with any numbers, image of any point"),
        Job("transforms3", transforms, {"n": 3}, tier="thorough", bounds="three"),
        Job("fractures", fractures, {"n": 2}, bounds="two fractures of any size, place and rotation (an arbitrary matrix)"),
        Job("fractures3", fractures, {"n": 3}, tier="thorough", bounds="three"),
        Job("files", files, bounds="geometry and mesh files, with and without a name, four formats"),
        Job("masses", masses, {"n": 2}, bounds="any masses, centers, limit"),
        Job("masses3", masses, {"n": 3}, tier="thorough", bounds="three"),
    ]
    for j in out:
        j.symchoice = True
    return out
