"""C31: regions of geometric objects through boolean operations, boundaries and meshing."""
from symx.runner import Job
from harness import gmshlib

OUTSIDE = "The geometry kernel: gmsh is replaced by a stand-in over an abstract cell complex of three volumes (gmshlib.py); copies of object sets of mixed dimensions; boolean operations that consume an entity which another object set has as well (fragments shared by two objects)."
CELLS = {3: [[1], [0, 1], [1, 2]], 2: [[0], [1, 2], [0, 1, 3]], 1: [[0], [1, 2], [0, 1]], 0: [[0], [1]]}


class State:
    pass


def setup(e):
    s = State()
    s.k = gmshlib.start(e)
    s.G = e.mod("bgem.gmsh.gmsh")
    s.geo = s.G.GeometryOCC("model")
    s.e = e
    return s


FEW = {3: [[0, 1], [1]], 2: [[1, 2], [2]]}
TOUCH = {d: [[0], [1]] for d in (3, 2, 1)}
APART = {3: [[0], [1], [1, 2]], 2: [[0], [1, 2], [3]]}


def region(s, name, kind, dim):
    """kind: 0 the region of the name, 1 another region with the same name, 2 default region."""
    if kind == 0:
        return s.geo.get_region_name("%s%d" % (name, dim)).complete(dim)
    if kind == 1:
        return s.G.Region.get("%s%d" % (name, dim), dim)
    return s.G.Region.default_region[dim]


def objects(s, name, dims, n, kinds, cells=CELLS):
    """An object set of n entities with symbolic cells and regions."""
    e, k = s.e, s.k
    d0 = e.choice("dim " + name, dims)
    dts, regs = [], []
    for i in range(n):
        dim = d0 if i == 0 or not isinstance(d0, tuple) else d0[1]
        dim = dim[0] if isinstance(dim, tuple) else dim
        dts.append(k.add(dim, e.choice("cells %s%d" % (name, i), cells[dim])))
        regs.append(region(s, "a" if (name, i) == ("A", 0) else e.choice("region %s%d" % (name, i), ["a", "b"]), e.choice("kind %s%d" % (name, i), kinds), dim))
    s.geo._need_synchronize = True
    same = all(r is regs[0] for r in regs)
    return s.G.ObjectSet(s.geo, dts, [regs[0]] if same else regs)


def content(s, o):
    """cell -> ids of regions"""
    s.e.check(len(o.dim_tags) == len(o.regions) == o.size, "a region for every entity")
    out = {}
    for dt, r in zip(o.dim_tags, o.regions):
        dt = tuple(dt)
        s.e.check(dt in s.k.ents, "entity exists")
        s.e.check(r.dim is None or r.dim == dt[0], "dimension of a region")
        for c in s.k.ents[dt]:
            out.setdefault((dt[0], c), set()).add(r.id)
    return out


def union(*cs):
    out = {}
    for c in cs:
        for x, r in c.items():
            out.setdefault(x, set()).update(r)
    return out


def closed(s, o):
    out = set()
    for d, t in o.dim_tags:
        for dd, cc in gmshlib.closure(d, s.k.ents[d, t]).items():
            out |= {(dd, c) for c in cc}
    return out


def disjoint(s, o):
    seen = set()
    for d, t in o.dim_tags:
        for c in s.k.ents[d, t]:
            if (d, c) in seen:
                return False
            seen.add((d, c))
    return True


def gone(e, o):
    e.check(o.dim_tags is None and o.regions is None and o.factory is None, "object of a finished operation is not usable")


def conform(s, *sets):
    """Entities of one dimension are equal or disjoint."""
    ts = list(dict.fromkeys(tuple(d) for o in sets for d in o.dim_tags))
    for i, a in enumerate(ts):
        for b in ts[:i]:
            if a[0] == b[0]:
                s.e.check(not s.k.ents[a] & s.k.ents[b], "fragments overlap")


def apply(s, op, a, b):
    """Apply an operation, check the result; returns live object sets."""
    e = s.e
    ca, cb = content(s, a), content(s, b)
    ta, tb = list(a.dim_tags), list(b.dim_tags)
    clb = closed(s, b)

    def kept(o, c, t, what):
        e.check(list(o.dim_tags) == t and content(s, o) == c, "%s is kept" % what)
    if op == "group":
        g = s.geo.group(a, b)
        e.check(content(s, g) == union(ca, cb), "group has the entities and regions of its parts")
        e.check(list(g.dim_tags) == ta + tb, "entities of a group")
        kept(a, ca, ta, "part of a group")
        kept(b, cb, tb, "part of a group")
        return [g]
    if op == "fragment all":
        r = s.geo.fragment(a, b)
        e.check(len(r) == 2, "one result per object")
        e.check(content(s, r[0]) == ca and content(s, r[1]) == cb, "fragments have the region of their object")
        conform(s, *r)
        gone(e, a)
        gone(e, b)
        return list(r)
    if op in ("cut", "intersect", "fragment"):
        r = getattr(a, op)(b)
        want = ca if op == "fragment" else {x: v for x, v in ca.items() if (x in clb) == (op == "intersect")}
        e.check(content(s, r) == want, "%s has the cells and regions" % op)
        kept(b, cb, tb, "tool")
        gone(e, a)
        return [r, b]
    if op == "split_by_cut":
        e.assume(disjoint(s, a) and disjoint(s, b))
        r = a.split_by_cut(b)
        e.check(len(r) == 4, "four results")
        for o, want in zip(r, [{x: v for x, v in ca.items() if x not in cb}, {x: v for x, v in cb.items() if x not in ca},
                               {x: v for x, v in ca.items() if x in cb}, {x: v for x, v in cb.items() if x in ca}]):
            e.check(content(s, o) == want, "part of a cut")
        gone(e, a)
        return list(r[:2]) + [r[2]]
    if op == "select":
        pieces = {dt: [c for c in s.k.ents[dt] if (dt[0], c) in clb] for dt in ta}
        try:
            r = a.select_by_intersect(b)
        except s.G.BoolOperationError:
            e.check(any(len(s.k.ents[dt]) > 1 for dt in ta), "selection of one cell refused")
            return [a, b]
        want = [(dt, reg.id) for dt, reg in zip(ta, a.regions) if pieces[dt]]
        e.check([(tuple(dt), reg.id) for dt, reg in zip(r.dim_tags, r.regions)] == want, "selected entities")
        kept(a, ca, ta, "object")
        kept(b, cb, tb, "tool")
        return [a, b]
    if op == "copy":
        r = a.copy()
        e.check(content(s, r) == ca and not set(r.dim_tags) & set(ta), "copy has its own entities with the regions")
        kept(a, ca, ta, "original")
        return [r, b, a]
    if op == "rename":
        n = len(a.dim_tags)
        which = e.choice("rename", ["name", "region", "modify", "dimtag"])
        one = len({d for d, t in ta}) == 1
        if which in ("name", "region"):
            e.assume(one)
            d = ta[0][0]
            reg = "new%d" % d if which == "name" else s.G.Region.get("own")
            r = a.set_region(reg)
            e.check(r is a, "the object is returned")
            e.check([x.name for x in a.regions] == ["new%d" % d if which == "name" else "own"] * n, "new region")
            e.check(len({x.id for x in a.regions}) == 1 and all(x.dim == d for x in a.regions), "one region")
            if which == "name":
                e.check(s.geo.get_region_name("new%d" % d) is a.regions[0], "region of the name")
        elif which == "modify":
            old = [x.name for x in a.regions]
            r = a.modify_regions("x_{}.y")
            e.check(r is a, "the object is returned")
            e.check([x.name for x in a.regions] == ["x_%s.y" % x for x in old], "modified names")
            for x, o in zip(a.regions, old):
                e.check(s.geo.get_region_name("x_%s.y" % o) is x, "region of the modified name")
        else:
            a.set_region_from_dimtag()
            e.check([x.name for x in a.regions] == ["%d_%d" % t for t in ta], "regions of single entities")
        e.check(list(a.dim_tags) == ta, "entities are kept")
        kept(b, cb, tb, "other object")
        return [a, b]
    if op == "split":
        g = s.geo.group(a, b)
        r = g.split_by_region()
        want = {}
        for dt, reg in zip(g.dim_tags, g.regions):
            want.setdefault(reg.id, []).append(dt)
        e.check(sorted((x.regions[0].id, list(x.dim_tags)) for x in r) == sorted(want.items()), "parts by region")
        for x in r:
            e.check(len({q.id for q in x.regions}) == 1, "one region of a part")
            content(s, x)
        q = g.split_by_dimension()
        e.check(len(q) == 4, "four dimensions")
        for d, x in enumerate(q):
            e.check([(dt, reg.id) for dt, reg in zip(x.dim_tags, x.regions)] ==
                    [(dt, reg.id) for dt, reg in zip(g.dim_tags, g.regions) if dt[0] == d], "parts by dimension")
            content(s, x)
        e.check(content(s, g) == union(ca, cb), "object is kept")
        return [a, b]
    if op == "boundary":
        g = s.geo.group(a, b)
        comb = e.choice("combined", [False, True])
        x = g.get_boundary(combined=comb) if comb else e.choice("how", [lambda: g.get_boundary(), lambda: g.get_boundary(combined=False)])()
        ts = list(dict.fromkeys(g.dim_tags))
        n = {}
        for t in ts:
            for q in s.k.bnd[t]:
                n[q] = n.get(q, 0) + 1
        want = {q for q in n if not comb or n[q] % 2}
        e.check({tuple(d) for d in x.dim_tags} == want, "entities of the boundary")
        e.check([reg.name for reg in x.regions] == ["default_%dd" % d for d, t in x.dim_tags], "regions of the boundary")
        return [a, b]
    if op == "boundary by region":
        g = s.geo.group(a, b)
        e.assume(all(d > 0 for d, t in g.dim_tags))
        names = {r.id: r.name for r in g.regions}
        fmt = e.choice("format", [None, "side_{}"])
        r = g.get_boundary_per_region() if fmt is None else g.get_boundary_per_region(fmt)
        parts = {}
        for dt, reg in zip(g.dim_tags, g.regions):
            parts.setdefault(reg.id, []).append(dt)
        e.check(len(r) == len(parts), "one boundary per region")
        used = set()
        for x, (i, ts) in zip(r, parts.items()):
            n = {}
            for t in dict.fromkeys(ts):
                for q in s.k.bnd[t]:
                    n[q] = n.get(q, 0) + 1
            e.check(sorted(map(tuple, x.dim_tags)) == sorted(q for q in n if n[q] % 2), "boundary of a region")
            for reg in x.regions:
                e.check(reg.name == (fmt or ".{}").format(names[i]) and reg.dim == ts[0][0] - 1, "boundary region")
                used.add((i, reg.id))
        e.check(len({a for a, b in used}) == len({b for a, b in used}) == len(used), "own boundary region of every region")
        return [a, b]
    raise ValueError(op)


def mesh(s, sets, eliminate, dim):
    """Physical groups of the mesh."""
    e, k = s.e, s.k
    want, names, tags = {}, {}, {}
    for o in sets:
        for x, r in content(s, o).items():
            for i in r:
                want.setdefault(i, set()).add(x)
        for dt, r in zip(o.dim_tags, o.regions):
            names[r.id] = r.name
            tags.setdefault(r.id, set()).add(tuple(dt))
    members = {tuple(d) for o in sets for d in o.dim_tags}
    s.geo.make_mesh(list(sets), dim, eliminate)
    e.check([d for d, x in k.generated] == [dim], "dimension of the mesh")
    groups = {}
    for (d, t), ts in k.physical.items():
        e.check((d, t) in k.names, "every group has a name")
        groups[k.names[d, t]] = {(d, x) for x in ts}
    e.check(len(groups) == len(k.physical), "names of groups are unique")
    e.check(sorted(map(sorted, groups.values())) == sorted(map(sorted, tags.values())), "a group is the entities of a region")
    regs = {r.id: r for o in sets for r in o.regions}
    for i, n in names.items():
        e.check(groups.get(regs[i].name) == tags[i], "group has the name of the region")
        if sum(m == n for m in names.values()) == 1:
            e.check(regs[i].name == n, "name used once is kept")
        else:
            e.check(regs[i].name.startswith(n), "name used twice is extended")
    seen = k.generated[0][1]
    for m in members:
        e.check(m in seen, "object is meshed")
    if eliminate:
        for m in seen:
            e.check(m in members or any(m in b for q, b in k.bnd.items() if q in seen), "other shapes are removed")
    e.check("removeDuplicateNodes" in k.log, "duplicate nodes")


def operation(e, op, na, nb, dims, touching=False):
    s = setup(e)
    cells = APART if op == "split_by_cut" else CELLS
    by_name = op in ("split", "boundary by region")
    if touching:
        # entities with common boundaries
        a, b = (objects(s, n, dims, k, [0, 1] if by_name and n == "A" else [0], TOUCH) for n, k in (("A", na), ("B", nb)))
        e.assume(len({d for o in (a, b) for d, t in o.dim_tags}) == 1)
        a, b = s.geo.fragment(a, b)
    else:
        a = objects(s, "A", dims, na, [0, 1] if op == "split" else [0], cells)
        b = objects(s, "B", dims, nb, [0], cells)
    apply(s, op, a, b)


def meshing(e, na, nb, kinds, dims):
    s = setup(e)
    a = objects(s, "A", dims, na, kinds, FEW)
    b = objects(s, "B", dims, nb, kinds, FEW)
    extra = e.choice("extra", [0, 1])
    if extra:
        # a region with the name another region may get
        d = a.dim_tags[0][0]
        c = s.G.ObjectSet(s.geo, [s.k.add(d, [0])], [s.geo.get_region_name("a%d_%d" % (d, e.choice("suffix", [0, 1])))])
    s.k.add(3, [2])
    s.k.add(2, [0])
    mesh(s, [a, b] + ([c] if extra else []), *e.choice("eliminate", [(True, 3), (False, 2)]))


OPS = ["group", "fragment all", "cut", "intersect", "fragment", "split_by_cut", "select", "copy", "rename", "boundary"]


def history(e, n, ops, dims):
    """Operations in turn, then the mesh."""
    s = setup(e)
    s.k.add(3, [1, 2])
    live = [objects(s, "A", dims, 1, [0], FEW), objects(s, "B", dims, 2, [0], FEW)]
    for i in range(n):
        op = e.choice("op%d" % i, ops)
        if len(live) < 2:
            live.append(objects(s, "C%d" % i, dims, 1, [0, 1], FEW))
        if not (live[0].dim_tags and live[1].dim_tags):
            live = [x for x in live if x.dim_tags] + [x for x in live if not x.dim_tags]
            live.insert(1, objects(s, "C%d" % i, dims, 1, [0], FEW))
        if not live[0].dim_tags or len({d for d, t in live[0].dim_tags}) > 1 and op in ("select", "copy"):
            break
        if len({d for d, t in live[1].dim_tags}) > 1 and op in ("cut", "intersect", "fragment", "select"):
            break
        if op in ("fragment all", "cut", "intersect", "fragment", "split_by_cut"):
            # consumed entities that another object has as well are outside
            used = set(map(tuple, live[0].dim_tags)) | (set(map(tuple, live[1].dim_tags)) if op in ("fragment all", "split_by_cut") else set())
            others = [x for x in live[2:]] + [live[1]] * (op not in ("fragment all", "split_by_cut"))
            if any(tuple(d) in used for x in others for d in x.dim_tags) or set(map(tuple, live[0].dim_tags)) & set(map(tuple, live[1].dim_tags)):
                break
        live = apply(s, op, live[0], live[1]) + live[2:]
        if e.choice("turn%d" % i, [0, 1]):
            live.reverse()
    mesh(s, [x for x in live if x.dim_tags], True, 3)


def steps(e):
    s = setup(e)
    e_, k = e, s.k
    a = objects(s, "A", [3, 2, 1, 0], 2, [0])
    other = objects(s, "B", [3, 0], 1, [0])
    h = e.real("h", "1/100", 9)
    a.set_mesh_step(h)
    want, todo = set(), list(a.dim_tags)
    while todo:
        t = todo.pop()
        todo += k.bnd[t]
        if t[0] == 0:
            want.add(t)
    e.check(set(k.sizes) == want, "points of the object")
    for t in want:
        e.check(k.sizes[t] == h, "mesh step of a point")
    e.check(bool(other.dim_tags), "other object")


def keep(e):
    """keep_only, all_entities."""
    s = setup(e)
    k = s.k
    a = objects(s, "A", [3, 2, (3, 2)], 2, [0])
    b = objects(s, "B", [3, 2], 1, [0])
    before = dict(k.ents)
    how = e.choice("how", ["one", "both", "none"])
    s.geo.keep_only(*{"one": [a], "both": [a, b], "none": []}[how])
    got = set(s.geo.all_entities())
    want, todo = set(), list({"one": a.dim_tags, "both": a.dim_tags + b.dim_tags, "none": []}[how])
    while todo:
        t = todo.pop()
        want.add(t)
        todo += k.bnd[t]
    e.check(got == want, "only the objects and their boundaries are kept")
    e.check(set(before) >= got, "nothing is made")


def jobs():
    two = [3, 2]
    out = []
    for op in OPS + ["split", "boundary by region"]:
        name = op.replace(" ", "_")
        mixed = [(3, 2)] if op in ("group", "fragment all", "rename", "split", "boundary") else []
        if "boundary" in op:
            out.append(Job(name + "_touching", operation, {"op": op, "na": 2, "nb": 1, "dims": two + [1], "touching": True},
                           bounds="two and one entity of dimension 3 to 1 with common boundaries, regions with equal names"))
        out.append(Job(name, operation, {"op": op, "na": 2, "nb": 1, "dims": two + mixed},
                       bounds="an object set of two entities and one of one entity, any of three sets of cells each, dimensions 3 and 2, one to three regions"))
        out.append(Job(name + "_two", operation, {"op": op, "na": 2, "nb": 2, "dims": two + mixed}, tier="thorough", bounds="the same with two and two"))
    out += [
        Job("mesh", meshing, {"na": 2, "nb": 1, "kinds": [0, 1, 2], "dims": [3]}, bounds="regions of one or more names, several regions of one name, default regions; three sets"),
        Job("mesh2", meshing, {"na": 1, "nb": 1, "kinds": [0, 1, 2], "dims": [3, 2]}, bounds="the same with dimensions 3 and 2"),
        Job("history", history, {"n": 2, "ops": ["fragment all", "cut", "copy", "split_by_cut"], "dims": [3]}, bounds="two operations of four kinds, then the mesh"),
        Job("history_b", history, {"n": 2, "ops": ["intersect", "fragment", "copy"], "dims": [3]}, bounds="two operations of other kinds, then the mesh"),
        Job("history3", history, {"n": 3, "ops": OPS, "dims": two}, tier="thorough", budget=1200, bounds="three operations"),
        Job("steps", steps, bounds="two entities of dimension 0 to 3, any step"),
        Job("keep", keep, bounds="three entities, dimensions 3 and 2"),
    ]
    for j in out:
        j.symchoice = True
    return out
