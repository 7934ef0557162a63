"""C27: mesh files in the text format of gmsh are written and read without loss."""
import io
import os
import shutil
import tempfile

from symx.runner import Job

OUTSIDE = "Binary files (neither written nor read by the code on the present Python); other versions of the format than 1.0 and 2.x; numbers are written as exact tokens in the encoding."
BASE = ["123.456789012345", "-0.000123456789", "98765.4321012345"]
# id -> position in the list of coordinates
NODES = [[1, 2, 3, 4], [7, 3, 12, 100], [0, 5, 1, 2]]
# (element id, type, tags, positions of nodes)
ELEMENTS = [
    [(1, 4, [5, 6], [0, 1, 2, 3]), (2, 2, [7, 8, 9], [2, 0, 1]), (3, 1, [10, 11], [3, 0]), (4, 15, [1, 2], [1])],
    [(20, 15, [3], [2]), (3, 1, [], [0, 1]), (11, 2, [4], [3, 2, 1]), (5, 1, [6], [2, 3]), (100, 15, [], [0])],
    [(2, 2, [], [0, 1, 2]), (1, 4, [], [3, 2, 1, 0]), (9, 4, [1, 2, 3, 4], [0, 1, 2, 3])],
]
PHYSICAL = [{}, {"a": (1, 2)}, {'"rock"': (10, 3), '".side wall 1"': (3, 2), "b": (11, 1)}]


class Text(io.StringIO):
    name = "text"

    def close(self):
        pass


def coords(e, n, tag="p"):
    return [[e.lit(BASE[c]) + e.real("%s%d%d" % (tag, i, c), -4, 4) for c in range(3)] for i in range(n)]


def same_mesh(e, got, nodes, elements, physical):
    e.check(sorted(got.nodes) == sorted(nodes), "ids of the nodes")
    for k, x in nodes.items():
        e.check(len(got.nodes[k]) == 3, "number of coordinates")
        for a, b in zip(got.nodes[k], x):
            e.check(a == b, "coordinates of a node")
    e.check(sorted(got.elements) == sorted(elements), "ids of the elements")
    for k, (t, tags, nds) in elements.items():
        gt, gtags, gn = got.elements[k]
        e.check(gt == t and list(gtags) == list(tags) and list(gn) == list(nds), "type, tags and nodes of an element")
    e.check({k: tuple(v) for k, v in got.physical.items()} == {k: tuple(v) for k, v in physical.items()}, "physical names")


def make(e):
    ids = e.choice("ids", NODES)
    xs = coords(e, len(ids))
    nodes = dict(zip(ids, xs))
    els = {k: (t, tags, [ids[i] for i in n]) for k, t, tags, n in e.choice("elements", ELEMENTS)}
    return nodes, els, e.choice("physical", PHYSICAL)


def round_trip(e):
    G = e.mod("bgem.gmsh.gmsh_io")
    nodes, els, phys = make(e)
    m = G.GmshIO()
    m.nodes = {k: (e.arr(x) if e.choice("array", [0, 1]) else list(x)) for k, x in nodes.items()} if e.choice("kind", [0, 1]) else dict(nodes)
    m.elements = {k: (t, tuple(tags), list(n)) for k, (t, tags, n) in els.items()}
    m.physical = dict(phys)
    how = e.choice("file", ["stream", "file"])
    if how == "stream":
        f = Text()
        m.write_ascii(f)
        g = G.GmshIO()
        g.read(Text(f.getvalue()))
    else:
        d = tempfile.mkdtemp(prefix="symx_")
        try:
            m.filename = os.path.join(d, "m.msh")
            m.write_ascii()
            g = G.GmshIO(m.filename)
        finally:
            shutil.rmtree(d)
    same_mesh(e, g, nodes, els, phys)
    same_mesh(e, m, nodes, els, phys)
    # written again, the text is the same mesh
    f2 = Text()
    g.write_ascii(f2)
    h = G.GmshIO()
    h.read(Text(f2.getvalue()))
    same_mesh(e, h, nodes, els, phys)
    # a second read of another mesh replaces nothing but the ids in it; reset forgets all
    h.reset()
    e.check(not h.nodes and not h.elements and not h.physical and not h.element_data, "reset")


def num(e, x):
    return str(x) if e.symbolic else repr(float(x))


EXTRA = ["", "$Comments\nmade by 1 2 3 4\n1 2 3 4 5 6 7\n$EndComments\n", "$Periodic\n1\n2 5 6 7\n$EndPeriodic\n",
         "$NodeData\n1\n\"f\"\n1\n0.5\n3\n0\n3\n1\n1 2 3 4\n$EndNodeData\n", "\n\n"]


def texts(e, n):
    """Texts made by other programs."""
    G = e.mod("bgem.gmsh.gmsh_io")
    nodes, els, phys = make(e)
    version = e.choice("version", [1, 2])
    x1, x2, x3 = [EXTRA[e.choice("extra", range(len(EXTRA)))] for i in range(n)] + [EXTRA[0]] * (3 - n)
    t = ""
    if version == 2:
        t += x1 + "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n" + x2
        t += "$PhysicalNames\n%d\n%s$EndPhysicalNames\n" % (len(phys), "".join("%d %d %s\n" % (d, i, n) for n, (i, d) in phys.items()))
        t += x3
    else:
        phys = {}
        t += x1
    a, b = ("$Nodes", "$EndNodes") if version == 2 else ("$NOD", "$ENDNOD")
    t += "%s\n%d\n%s%s\n" % (a, len(nodes), "".join("%d %s\n" % (k, " ".join(num(e, c) for c in x)) for k, x in nodes.items()), b)
    t += x2
    if version == 2:
        t += "$Elements\n%d\n%s$EndElements\n" % (len(els), "".join(
            "%d %d %d %s %s\n" % (k, ty, len(tags), " ".join(map(str, tags)), " ".join(map(str, n))) for k, (ty, tags, n) in els.items()))
    else:
        els = {k: (ty, (list(tags) + [0, 0])[:2], n) for k, (ty, tags, n) in els.items()}
        t += "$ELM\n%d\n%s$ENDELM\n" % (len(els), "".join(
            "%d %d %d %d %d %s\n" % (k, ty, tags[0], tags[1], len(n), " ".join(map(str, n))) for k, (ty, tags, n) in els.items()))
    t += x3
    g = G.GmshIO()
    g.read(Text(t))
    same_mesh(e, g, nodes, els, phys)


def data(e):
    G = e.mod("bgem.gmsh.gmsh_io")
    ids = e.choice("ids", [[1, 2, 3], [7, 3, 12], [5]])
    shape = e.choice("components", [None, 1, 3])
    n = len(ids)
    fields = {}
    for f in e.choice("fields", [["a"], ["a", "conc X"]]):
        v = [[e.lit(BASE[c]) + e.real("%s%d%d" % (f, i, c), -4, 4) for c in range(shape or 1)] for i in range(n)]
        fields[f] = v
    arrs = {k: e.arr([r[0] for r in v] if shape is None else v) for k, v in fields.items()}
    m = G.GmshIO()
    d = tempfile.mkdtemp(prefix="symx_")
    try:
        p = os.path.join(d, "d.msh")
        if e.choice("target", ["given", "own"]) == "given":
            m.write_fields(p, e.np.array(ids) if e.choice("array of ids", [0, 1]) else ids, arrs)
        else:
            m.filename = p
            m.write_fields(None, ids, arrs)
        g = G.GmshIO(p)
        # the same fields at the end of a mesh
        f = Text()
        G.GmshIO().write_ascii(f)
        for k, v in arrs.items():
            G.GmshIO().write_element_data(f, ids, k, v)
        g2 = G.GmshIO()
        g2.read(Text(f.getvalue()))
    finally:
        shutil.rmtree(d)
    for x in (g, g2):
        e.check(sorted(x.element_data) == sorted(fields), "names of the fields")
        for k, v in fields.items():
            e.check(list(x.element_data[k]) == [0], "time steps of the field")
            time, vals = x.element_data[k][0]
            e.near(time, 0, "time of the field")
            vals = {int(i): r for i, r in vals.items()}
            e.check(sorted(vals) == sorted(ids), "elements of the field")
            for i, r in zip(ids, v):
                e.check(len(vals[i]) == len(r), "number of components")
                for a, b in zip(vals[i], r):
                    e.check(a == b, "value of the field")


def times(e):
    """Several times of a field, other fields between, wrong counts refused."""
    G = e.mod("bgem.gmsh.gmsh_io")
    want = {}
    t = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n"
    wrong = e.choice("wrong", ["no", "few", "comp", "twice"])
    blocks = [("p", 0), ("q", 0), ("p", 1), ("p", 5)] + ([("q", 0)] if wrong == "twice" else [])
    for f, k in blocks:
        time = e.real("t%s%d" % (f, k), 0, 9)
        v = {i: [e.real("v%s%d%d%d" % (f, k, i, c), -4, 4) for c in range(2)] for i in (3, 8)}
        want[f, k] = time, v
        bad = (f, k) == ("p", 1)
        t += '$ElementData\n1\n"%s"\n1\n%s\n3\n%d\n%d\n%d\n' % (f, num(e, time), k, 2 + (wrong == "comp" and bad), len(v) + (wrong == "few" and bad))
        for i, r in v.items():
            t += "%d %s\n" % (i, " ".join(num(e, c) for c in r))
        t += "$EndElementData\n"
    g = G.GmshIO()
    if wrong != "no":
        try:
            g.read(Text(t))
        except Exception:
            return
        e.check(False, "wrong data accepted")
    g.read(Text(t))
    e.check({(f, k) for f in g.element_data for k in g.element_data[f]} == set(want), "fields and times")
    for (f, k), (time, v) in want.items():
        gt, gv = g.element_data[f][k]
        e.check(gt == time, "time of the field")
        gv = {int(i): r for i, r in gv.items()}
        e.check(sorted(gv) == sorted(v), "elements of the field")
        for i in v:
            e.check(len(gv[i]) == 2, "number of components")
            for a, b in zip(gv[i], v[i]):
                e.check(a == b, "value of the field")


def jobs():
    out = [
        Job("round_trip", round_trip, bounds="three sets of ids of 4 nodes, three sets of elements of types 15, 1, 2, 4 with 0 to 4 tags, three sets of physical names; any coordinates of a box"),
        Job("texts", texts, {"n": 2}, bounds="versions 1 and 2 with up to two other sections or empty lines at any place; the same meshes"),
        Job("texts3", texts, {"n": 3}, tier="thorough", bounds="the same with three"),
        Job("data", data, bounds="one or two fields on one or three elements with 1 or 3 components; any values"),
        Job("times", times, bounds="four blocks of two fields and up to three times; too few rows, wrong number of components, repeated time"),
    ]
    for j in out:
        j.symchoice = True
    return out
