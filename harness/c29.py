"""C29: healing of meshes: incidence of nodes and elements, merging, flat elements."""
from symx.runner import Job
from harness.c28 import sub, dot, cross, vol6, area2sq

OUTSIDE = "Tetrahedra that are bad but not exactly flat (general singular value decomposition); meshes with several bad elements at once; rounding."


class Mesh:
    def __init__(self, nodes, elements):
        self.nodes, self.elements, self.physical = nodes, elements, {}


NODES = {1: [0, 0, 0], 2: [4, 0, 0], 3: [0, 4, 0], 4: [1, 1, 4], 5: [1, 1, -4], 9: [6, 5, 1]}
ELS = {2: (4, [7, 2], [1, 2, 3, 4]), 3: (4, [7, 2], [1, 3, 2, 5]), 5: (2, [8, 1], [1, 2, 3]), 6: (2, [8, 1], [2, 3, 4]),
       8: (1, [9, 3], [1, 2]), 11: (15, [4, 4], [9]), 12: (1, [9, 3], [3, 9])}


def make(e, nodes, els, tol="0.0001"):
    H = e.mod("bgem.gmsh.heal_mesh")
    m = Mesh({i: [e.lit(c) if not e.is_sym(c) else c for c in x] for i, x in nodes.items()}, {i: (t, list(g), list(n)) for i, (t, g, n) in els.items()})
    return H, m, H.HealMesh(m, node_tol=e.lit(tol))


def plain(els):
    return {i: (t, list(g), [int(n) for n in nn]) for i, (t, g, nn) in els.items()}


def incidence(e, hm, m):
    for n in m.nodes:
        want = {i for i, (t, g, nn) in m.elements.items() if n in [int(x) for x in nn]}
        e.check(set(hm.node_els.get(n, ())) == want, "elements of a node")
    for i, (t, g, nn) in m.elements.items():
        e.check(all(int(n) in m.nodes for n in nn), "element of a node that does not exist")
    for n, s in list(hm.node_els.items()):
        e.check(n in m.nodes or not s, "elements of a removed node")
    e.check(hm.max_ele_id >= max(list(m.elements) + [0]) and hm.max_node_id >= max(list(m.nodes) + [0]), "highest numbers")


def same_node(e, m, n, x, msg):
    for a, b in zip(m.nodes[n], x):
        e.near(a, b, msg)


def history(e, ops, steps):
    """Any sequence of modifications keeps nodes and elements consistent."""
    H, m, hm = make(e, NODES, ELS)
    incidence(e, hm, m)
    nodes = {n: list(x) for n, x in m.nodes.items()}
    els = plain(m.elements)
    for k in range(steps):
        op = e.choice("op%d" % k, ops)
        hm.reset_modified()
        if op == "remove":
            i = e.choice("element%d" % k, sorted(els))
            hm.remove_element(i)
            del els[i]
        elif op == "add":
            t, nn = e.choice("new%d" % k, [(2, [1, 4, 9]), (4, [2, 4, 3, 9]), (2, [3, 2, 1]), (4, [4, 1, 2, 3]), (1, [2, 1]), (15, [9]), (1, [4, 5])])
            if not all(n in nodes for n in nn):
                continue
            dup = any(a[0] == t and set(nn) <= set(a[2]) for a in els.values())
            top = hm.max_ele_id
            i = hm.add_element((t, [3, 3], list(nn)))
            e.check((i is None) == dup, "duplicate elements are refused and no others")
            if not dup:
                e.check(i not in els and i > top, "number of the new element")
                els[i] = (t, [3, 3], list(nn))
                e.check(i in hm.reset_modified(), "new element is reported as modified")
        elif op == "node":
            x = [e.real("x%d%d" % (k, c), -5, 5) for c in range(3)]
            n = hm.add_node(e.arr(x))
            e.check(n not in nodes and n > max(nodes), "number of the new node")
            nodes[n] = x
        elif op == "move":
            n = e.choice("moved%d" % k, sorted(nodes))
            x = [e.real("x%d%d" % (k, c), -5, 5) for c in range(3)] if steps == 1 else [e.lit(c + k) for c in NODES[5]]
            hm.move_node(n, e.arr(x))
            nodes[n] = x
            e.check(set(hm.reset_modified()) == {i for i, a in els.items() if n in a[2]}, "elements of the moved node are reported as modified")
        elif op == "merge":
            a = e.choice("rm%d" % k, sorted(nodes))
            b = e.choice("target%d" % k, [n for n in sorted(nodes) if n != a])
            new = [(x + y) / 2 for x, y in zip(nodes[a], nodes[b])]
            before = plain(m.elements)
            got = hm.merge_node(a, b)
            e.check(int(got) == b, "merge returns the kept node")
            del nodes[a]
            nodes[b] = new
            keep = {i: x for i, x in before.items() if a not in x[2]}
            edge = {i for i, x in before.items() if a in x[2] and b in x[2]}
            sub_ = [(x[0], x[1], [b if n == a else n for n in x[2]]) for i, x in before.items() if a in x[2] and b not in x[2]]
            now = plain(m.elements)
            e.check(all(now.get(i) == x for i, x in keep.items()), "merge changes elements without the removed node")
            e.check(not any(i in now for i in edge), "elements with the contracted edge stay")
            rest = [x for i, x in now.items() if i not in keep]
            for x in rest:
                e.check(x in sub_, "element that does not come from an element with the removed node")
            for x in sub_:
                e.check(sum(set(y[2]) == set(x[2]) and y[0] == x[0] for y in now.values()) >= 1, "an element with the removed node was lost")
                if any(set(y[2]) == set(x[2]) and y[0] == x[0] for y in keep.values()):
                    e.check(not any(set(y[2]) == set(x[2]) and y[0] == x[0] for y in rest), "duplicate of an element after the merge")
            els = now
            e.check({i for i, x in now.items() if b in x[2]} <= set(hm.reset_modified()), "elements of the merged node are reported as modified")
        incidence(e, hm, m)
        e.check(plain(m.elements) == els, "elements")
        e.check(set(m.nodes) == set(nodes), "nodes")
        for n, x in nodes.items():
            same_node(e, m, n, x, "coordinates of a node")


def volumes(m, els=None):
    return [vol6([m.nodes[int(n)] for n in nn]) for t, g, nn in (els or m.elements).values() if len(nn) == 4]


def healed(e, hm, m):
    incidence(e, hm, m)
    seen = set()
    for t, g, nn in m.elements.values():
        e.check(len(set(int(n) for n in nn)) == len(nn), "element with a repeated node")
        k = (t, frozenset(int(n) for n in nn))
        e.check(k not in seen, "element twice")
        seen.add(k)


def good(e):
    """A mesh without bad elements stays as it is."""
    z = e.real("z", "0.5", 4)
    nodes = dict(NODES)
    nodes[4] = [1, 1, z]
    els = {i: x for i, x in ELS.items() if i in (3, 5, 6, 11, 12)}
    H, m, hm = make(e, nodes, els)
    before, old = plain(m.elements), {n: list(x) for n, x in m.nodes.items()}
    hm.heal_mesh(gamma_tol=e.lit("0.02"))
    e.check(plain(m.elements) == before, "healing changes good elements")
    for n, x in old.items():
        same_node(e, m, n, x, "healing moves nodes of good elements")
    incidence(e, hm, m)


def repeated(e):
    """Elements with repeated nodes and elements given twice are removed, the others stay."""
    bad = e.choice("bad", [(2, [3, 3, 9]), (2, [9, 5, 9]), (4, [1, 4, 9, 4]), (1, [9, 9]), (2, [10, 10, 10]), (2, [10, 11, 10])])
    num = e.choice("number", [1, 20])
    base = e.choice("mesh", ["full", "none"])
    nodes = dict(NODES)
    nodes[10], nodes[11] = [9, 9, 9], [8, 9, 9]
    els = dict(ELS) if base == "full" else {5: ELS[5]}
    els[num] = (bad[0], [1, 1], list(bad[1]))
    twice = e.choice("twice", [None, (2, [3, 1, 2])])
    if twice:
        els[30] = (twice[0], [5, 5], twice[1])
    H, m, hm = make(e, nodes, els)
    hm.heal_mesh(gamma_tol=e.lit("0.02"))
    healed(e, hm, m)
    want = {(t, frozenset(nn)) for i, (t, g, nn) in els.items() if i != num}
    got = {(t, frozenset(int(n) for n in nn)) for t, g, nn in m.elements.values()}
    e.check(want == got, "elements after the removal of those with repeated nodes")


def close(e):
    """Nodes nearer than the tolerance become one node in their middle."""
    d = e.real("d", 0, "0.1")
    e.assume(d > 0)
    # diameter of the mesh is 8, tolerance 0.01
    nodes = {1: [0, 0, 0], 2: [8, 0, 0], 3: [0, 6, 0], 4: [8, d, 0], 5: [8, 6, 0]}
    els = {1: (2, [1, 1], [1, 2, 3]), 2: (1, [2, 2], [2, 4]), 3: (2, [1, 1], [4, 5, 3]), 4: (15, [3, 3], [4])}
    H, m, hm = make(e, nodes, els, tol="0.00125")
    old = {n: list(x) for n, x in m.nodes.items()}
    hm.heal_mesh(gamma_tol=e.lit("0.02"))
    healed(e, hm, m)
    if bool(d < e.lit("0.01")):
        e.check(len(m.nodes) == 4 and (2 in m.nodes) != (4 in m.nodes), "close nodes are merged")
        n = 2 if 2 in m.nodes else 4
        same_node(e, m, n, [8, d / 2, 0], "place of the merged node")
        e.check(sorted((t, g, sorted(nn)) for t, g, nn in plain(m.elements).values()) == sorted([(2, [1, 1], sorted([1, n, 3])), (2, [1, 1], sorted([3, n, 5])), (15, [3, 3], [n])]), "elements after the merge")
        del old[2], old[4]
    else:
        e.check(plain(m.elements) == plain(els), "nodes farther than the tolerance are kept")
    for n, x in old.items():
        same_node(e, m, n, x, "healing moves other nodes")


def flat_only(e, H):
    """Quality of tetrahedra (decided in C28) is replaced: only exactly flat ones are bad."""
    tiny, low, high = e.lit("0.0000001"), e.lit("0.001"), e.lit("0.5")

    def gamma(self):
        v = vol6(self.nodes)
        return low if bool(v < tiny) and bool(v > -tiny) else high
    H.Tetrahedron.gmsh_gamma = gamma
    H.Triangle.gmsh_gamma = lambda self: high if bool(area2sq(*self.nodes) > low) else low


def flat_quad(e, plane, order):
    """A flat tetrahedron with four neighbours: the neighbours are split at the crossing of the diagonals, the volume stays."""
    x = e.real("x", "-0.3", "0.3")
    q = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [x, 1, 0]]
    q = [[e.lit(c) if not e.is_sym(c) else c for c in p] for p in q]
    q = [q[i] for i in order]
    apex = [[e.lit("0.5"), e.lit("0.6"), e.lit(s)] for s in ("2", "-2")]
    P = q + apex
    if plane == "xz":
        P = [[a, c, b] for a, b, c in P]
    elif plane == "tilted":
        P = [[a, b, c + a * e.lit("0.75")] for a, b, c in P]
    nodes = {i + 1: p for i, p in enumerate(P)}
    els = {1: (4, [1, 1], [1, 2, 3, 4])}
    inv = {order[i]: i + 1 for i in range(4)}          # corner of the quad -> node
    k = 2
    for tri, ap in (((0, 1, 2), 5), ((0, 2, 3), 5), ((0, 1, 3), 6), ((1, 2, 3), 6)):
        nn = [inv[t] for t in tri] + [ap]
        if bool(vol6([nodes[n] for n in nn]) < 0):
            nn[0], nn[1] = nn[1], nn[0]
        els[k] = (4, [k, 1], nn)
        k += 1
    els[k] = (2, [9, 9], [inv[0], inv[1], 5])
    H, m, hm = make(e, nodes, els)
    flat_only(e, H)
    per = {g[0]: vol6([m.nodes[n] for n in nn]) for t, g, nn in els.values() if t == 4}
    hm.heal_mesh(gamma_tol=e.lit("0.02"), fraction_of_new_els=5)
    healed(e, hm, m)
    now = plain(m.elements)
    e.check(1 not in now, "the flat element stays")
    e.check(now.get(k) == plain(els)[k], "an element beside is changed")
    e.check(len(m.nodes) == 7, "one node is added")
    for n, p in nodes.items():
        same_node(e, m, n, p, "nodes of a flat element are moved")
    new = [n for n in m.nodes if n not in nodes][0]
    a, b, c, d = (nodes[inv[i]] for i in range(4))
    X = m.nodes[new]
    for (u, v) in ((a, c), (b, d)):
        w = cross(sub(v, u), [X[i] - u[i] for i in range(3)])
        for y in w:
            e.near(y, 0, "the new node is the crossing of the diagonals")
    for tag in (2, 3, 4, 5):
        part = [nn for t, g, nn in now.values() if t == 4 and g[0] == tag]
        e.check(len(part) == 2 and all(new in nn for nn in part), "each neighbour is split in two")
        v = [vol6([m.nodes[n] for n in nn]) for nn in part]
        for y in v:
            e.leq(0, y, "parts of a neighbour have its orientation")
        e.near(v[0] + v[1], per[tag], "volume of the parts of a neighbour")


def flat_tria(e, plane, order):
    """A flat tetrahedron with a node inside of its face: the outer neighbour is split in three."""
    x = e.real("x", "0.7", "0.9")
    q = [[0, 0, 0], [2, 0, 0], ["0.6", 2, 0], [x, "0.7", 0]]
    q = [[e.lit(c) if not e.is_sym(c) else c for c in p] for p in q]
    q = [q[i] for i in order]
    P = q + [[e.lit("0.5"), e.lit("0.6"), e.lit(s)] for s in ("2", "-2")]
    if plane == "xz":
        P = [[a, c, b] for a, b, c in P]
    elif plane == "tilted":
        P = [[a, b, c + a * e.lit("0.75")] for a, b, c in P]
    nodes = {i + 1: p for i, p in enumerate(P)}
    els = {1: (4, [1, 1], [1, 2, 3, 4])}
    inv = {order[i]: i + 1 for i in range(4)}
    k = 2
    for tri, ap in (((0, 1, 2), 5), ((0, 1, 3), 6), ((1, 2, 3), 6), ((0, 2, 3), 6)):
        nn = [inv[t] for t in tri] + [ap]
        if bool(vol6([nodes[n] for n in nn]) < 0):
            nn[0], nn[1] = nn[1], nn[0]
        els[k] = (4, [k, 1], nn)
        k += 1
    H, m, hm = make(e, nodes, els)
    flat_only(e, H)
    per = {g[0]: vol6([m.nodes[n] for n in nn]) for t, g, nn in els.values() if t == 4}
    hm.heal_mesh(gamma_tol=e.lit("0.02"), fraction_of_new_els=5)
    healed(e, hm, m)
    now = plain(m.elements)
    e.check(1 not in now and set(m.nodes) == set(nodes), "the flat element is removed and no nodes added")
    for n, p in nodes.items():
        same_node(e, m, n, p, "nodes of a flat element are moved")
    for i in (3, 4, 5):
        e.check(now.get(i) == plain(els)[i], "inner neighbours are kept")
    part = [nn for t, g, nn in now.values() if g[0] == 2]
    e.check(len(part) == 3 and all(inv[3] in nn and 5 in nn for nn in part), "the outer neighbour is split in three")
    tot = 0
    for nn in part:
        v = vol6([m.nodes[n] for n in nn])
        e.leq(0, v, "parts of the outer neighbour have its orientation")
        tot = tot + v
    e.near(tot, per[2], "volume of the parts of the outer neighbour")


def needle(e):
    """A flat triangle: its middle node is projected to the longest edge, the elements of that edge are split."""
    h = e.real("h", "0.002", "0.02")
    x = e.lit(e.choice("x", ["0.3", "0.5", "0.8"]))
    rot = e.choice("rotation", [0, 1, 2])
    mirror = e.choice("mirrored", [0, 1])
    nodes = {1: [0, 0, 0], 2: [1, 0, 0], 3: [x, h, 0], 4: [e.lit("0.5"), -1, 0], 5: [e.lit("0.5"), 1, 0]}
    t = [1, 2, 3]
    t = t[rot:] + t[:rot]
    if mirror:
        t[0], t[1] = t[1], t[0]
    els = {1: (2, [1, 1], t), 2: (2, [2, 2], [1, 4, 2]), 3: (2, [3, 3], [2, 5, 3]), 4: (2, [3, 3], [3, 5, 1])}
    H, m, hm = make(e, nodes, els)
    hm.heal_mesh(gamma_tol=e.lit("0.02"), fraction_of_new_els=5)
    healed(e, hm, m)
    now = plain(m.elements)
    e.check(1 not in now and 2 not in now and now.get(3) == plain(els)[3] and now.get(4) == plain(els)[4], "flat triangle and split neighbour are removed, the others kept")
    same_node(e, m, 3, [x, 0, 0], "the middle node is projected to the longest edge")
    for n in (1, 2, 4, 5):
        same_node(e, m, n, [e.lit(c) if not e.is_sym(c) else c for c in nodes[n]], "other nodes are moved")
    part = sorted(sorted(nn) for tt, g, nn in now.values() if g == [2, 2])
    e.check(part == [[1, 3, 4], [2, 3, 4]], "neighbour of the longest edge is split in two")


def jobs():
    ALLOPS = ["remove", "add", "node", "move", "merge"]
    out = [Job("history1", history, {"ops": ALLOPS, "steps": 1}, bounds="one modification of a mesh of 7 elements, any place"),
           Job("history2", history, {"ops": ["remove", "add", "merge", "move"], "steps": 2}, bounds="two modifications"),
           Job("history3", history, {"ops": ["remove", "merge", "add"], "steps": 3}, tier="thorough", bounds="three modifications"),
           Job("good", good, bounds="height of a tetrahedron in [0.5, 4]"),
           Job("repeated", repeated, bounds="listed elements with repeated nodes"),
           Job("close", close, minmax="atom", bounds="distance of two nodes in (0, 0.1], tolerance 0.01"),
           Job("needle", needle, bounds="height of the triangle in [0.002, 0.02]")]
    for pl in ("xy", "xz", "tilted"):
        for o in ([0, 1, 2, 3], [0, 2, 1, 3], [3, 0, 2, 1]):
            if pl == "xy" or o[0] == 3:
                out.append(Job("flat_quad_%s_%s" % (pl, "".join(map(str, o))), flat_quad, {"plane": pl, "order": o}, bounds="one corner of the quad on a line"))
                out.append(Job("flat_tria_%s_%s" % (pl, "".join(map(str, o))), flat_tria, {"plane": pl, "order": o}, bounds="inner node on a line"))
    for j in out:
        j.symchoice = True
    return out
