"""C09: the box lookup never loses the nearest object and returns exactly the boxes that meet a given box."""
from symx.runner import Job

OUTSIDE = "More than four live boxes at once; coordinates near the sentinel value that marks removed boxes."


def box_of(e, k, pos, size):
    x, y = e.lit(pos[0]), e.lit(pos[1])
    if size == "free":
        x, y = e.real("x%d" % k, -4, 4), e.real("y%d" % k, -4, 4)
        w, h = e.real("w%d" % k, 0, 3), e.real("h%d" % k, 0, 3)
    elif size == "grow":
        w, h = e.real("w%d" % k, 0, 3), e.real("h%d" % k, 0, 3)
    else:
        w, h = e.lit(size[0]), e.lit(size[1])
    return [x, y, x + w, y + h]


def sq(x):
    return x * x


def l2min2(p, b):
    s = 0
    for k in (0, 1):
        if p[k] < b[k]:
            s = s + sq(b[k] - p[k])
        elif p[k] > b[k + 2]:
            s = s + sq(p[k] - b[k + 2])
    return s


def l2max2(p, b):
    s = 0
    for k in (0, 1):
        lo, hi = p[k] - b[k], b[k + 2] - p[k]
        s = s + (sq(lo) if lo > hi else sq(hi))
    return s


def fill(e, L, boxes, ids, gone, init):
    look = L.AABB_Lookup(init_size=init)
    for i, b in zip(ids, boxes):
        look.add_object(i, e.arr(b))
    for i in gone:
        look.rm_object(i)
    return look


def closest(e, specs, ids, gone=(), init=4, query=None, replace=None):
    L = e.mod("bgem.polygons.aabb_lookup")
    boxes = [box_of(e, k, p, s) for k, (p, s) in enumerate(specs)]
    p = [e.real("px", *query), e.real("py", *query)] if query else [e.lit(0), e.lit(0)]
    look = fill(e, L, boxes, ids, gone, init)
    if replace is not None:
        # a replaced box counts with its new extent only
        i, nb = replace
        nb = [e.lit(v) for v in nb]
        look.add_object(ids[i], e.arr(nb))
        boxes[i] = nb
    got = [int(i) for i in look.closest_candidates(e.arr(p))]
    live = {i: b for i, b in zip(ids, boxes) if i not in gone}
    e.check(len(set(got)) == len(got), "closest_candidates lists an id twice")
    e.check(set(got) <= set(live), "closest_candidates returned an id that is not registered")
    e.check(bool(got) == bool(live), "closest_candidates is empty although there are objects")
    for k, b in live.items():
        if k in got:
            continue
        m = l2min2(p, b)
        ok = False
        for j in got:
            if l2max2(p, live[j]) <= m:
                ok = True
                break
        e.check(ok, "an object that may be the closest one is not among the candidates")


def meets(e, specs, ids, gone=(), init=4, replace=None):
    L = e.mod("bgem.polygons.aabb_lookup")
    boxes = [box_of(e, k, p, s) for k, (p, s) in enumerate(specs)]
    q = [e.real("qx", -4, 4), e.real("qy", -4, 4)]
    q = q + [q[0] + e.real("qw", 0, 4), q[1] + e.real("qh", 0, 4)]
    look = fill(e, L, boxes, ids, gone, init)
    if replace is not None:
        i, nb = replace
        nb = [e.lit(v) for v in nb]
        look.add_object(ids[i], e.arr(nb))
        boxes[i] = nb
    got = [int(i) for i in look.intersect_candidates(e.arr(q))]
    live = {i: b for i, b in zip(ids, boxes) if i not in gone}
    want = [i for i, b in live.items()
            if b[0] <= q[2] and q[0] <= b[2] and b[1] <= q[3] and q[1] <= b[3]]
    e.check(sorted(got) == sorted(want), "intersect_candidates are not the live boxes that meet the given box")


def build_box(e):
    """make_aabb is the tight box of the points, expanded by the margin on every side."""
    L = e.mod("bgem.polygons.aabb_lookup")
    pts = [[e.real("x%d" % i, -5, 5), e.real("y%d" % i, -5, 5)] for i in range(3)]
    m = e.real("m", "0.001", 2)
    for margin in (None, m):
        b = L.make_aabb([e.arr(p) for p in pts]) if margin is None else L.make_aabb([e.arr(p) for p in pts], margin=m)
        z = e.lit(0) if margin is None else m
        for k in (0, 1):
            lo = hi = pts[0][k]
            for p in pts[1:]:
                lo = p[k] if p[k] < lo else lo
                hi = p[k] if p[k] > hi else hi
            e.near(b[k], lo - z, "make_aabb: lower bound")
            e.near(b[k + 2], hi + z, "make_aabb: upper bound")


def jobs():
    G = "grow"
    J = []
    for name, specs, ids, gone, init, query, rep, tier in (
            ("one", [((1, 1), G)], [0], (), 1, (-3, 3), None, "quick"),
            ("two_free", [((0, 0), "free"), ((0, 0), "free")], [0, 1], (), 4, None, None, "quick"),
            ("three_sizes", [((1, 1), G), ((-2, 1), G), ((2, -3), G)], [0, 1, 2], (), 2, None, None, "quick"),
            ("points_query", [((1, 1), (0, 0)), ((-2, 1), (0, 0)), ((2, -3), (0, 0)), ((0, 2), (0, 0))],
             [0, 1, 2, 3], (), 2, (-4, 4), None, "quick"),
            ("overlap_query", [((0, 0), (2, 2)), ((1, 1), (2, 2)), ((3, 0), (1, 3))], [0, 1, 2], (), 4, (-2, 5), None, "quick"),
            ("removed", [((0, 0), (1, 1)), ((2, 2), (1, 2)), ((-3, -1), (1, 2))], [0, 3, 5], (0,), 1, (-2, 3), None, "quick"),
            ("all_removed", [((0, 0), (1, 1)), ((2, 2), G)], [0, 1], (0, 1), 1, (-2, 3), None, "quick"),
            ("replaced", [((0, 0), (1, 1)), ((2, 2), (1, 1)), ((4, -1), (1, 1))], [0, 1, 2], (), 4, (-2, 5),
             (1, (-3, 2, -2, 4)), "quick"),
            ("three_free", [((0, 0), "free"), ((0, 0), "free"), ((0, 0), "free")], [0, 1, 2], (), 4, None, None, "thorough"),
            ("four_sizes", [((1, 1), G), ((-2, 1), G), ((2, -3), G), ((-3, -3), G)], [0, 2, 4, 9], (), 2, None, None, "thorough")):
        J.append(Job("closest:" + name, closest, dict(specs=specs, ids=ids, gone=gone, init=init, query=query, replace=rep),
                     minmax="atom", tier=tier, weight=5,
                     bounds="boxes %s (grow: symbolic size up to 3; free: symbolic place and size), ids %s, removed %s, query %s"
                            % (specs, ids, list(gone), "origin" if query is None else "anywhere in %s^2" % (query,))))
    for name, specs, ids, gone, init, rep, tier in (
            ("two", [((0, 0), (1, 1)), ((-2, 1), (3, 0))], [0, 1], (), 1, None, "quick"),
            ("free", [((0, 0), "free")], [3], (), 2, None, "quick"),
            ("removed", [((0, 0), (1, 1)), ((-2, 1), (3, 2)), ((1, -3), (0, 0))], [0, 1, 4], (1,), 2, None, "quick"),
            ("replaced", [((0, 0), (1, 1)), ((-2, 1), (3, 2))], [0, 1], (), 2, (0, (-3, -3, -2, -2)), "quick"),
            ("three", [((0, 0), (2, 1)), ((-2, 1), (3, 2)), ((1, -3), (0, 0))], [2, 1, 8], (), 2, None, "thorough")):
        J.append(Job("meets:" + name, meets, dict(specs=specs, ids=ids, gone=gone, init=init, replace=rep), minmax="atom",
                     tier=tier, weight=3, bounds="boxes %s, ids %s, removed %s, any query box in [-4,8]^2" % (specs, ids, list(gone))))
    J.append(Job("make_aabb", build_box, minmax="atom", bounds="three points anywhere in [-5,5]^2, margin in (0.001,2]"))
    return J
