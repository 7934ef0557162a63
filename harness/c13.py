"""C13: identifiers: unique among live objects, stable, last released reused first."""
from symx.runner import Job

OUTSIDE = "Sequences longer than the listed length."


def ids(e, n, start=0, again=False):
    M = e.mod("bgem.polygons.idmap")
    m = M.IdMap()
    live, freed, seen, out = [], [], 0, []
    for k in range(-start, n):
        ops = ["append"] + ["remove%d" % i for i in range(len(live))]
        if again and any(o.id not in [x.id for x in live] for o in out):
            ops.append("again")
        op = "append" if k < 0 else e.choice("op%d" % k, ops)
        if op == "again":
            # removal of an object that is not in the map: refused or ignored
            try:
                m.remove([o for o in out if o.id not in [x.id for x in live]][-1])
            except Exception:
                pass
        elif op == "append":
            o = M.IdObject()
            r = m.append(o)
            e.check(r is o, "append returns the object")
            e.check(m.get(o.id) is o, "appended object is not found under its ID")
            e.check(o.id not in [x.id for x in live], "an ID of a live object was given again")
            if freed:
                e.check(o.id == freed.pop(), "the last released ID is not reused first")
            else:
                e.check(o.id == seen, "a new ID is not the next one")
                seen += 1
            live.append(o)
        else:
            o = live.pop(int(op[6:]))
            m.remove(o)
            freed.append(o.id)
            out.append(o)
        e.check(sorted(m) == sorted(o.id for o in live), "IDs of the map are not those of the live objects")
        for o in live:
            e.check(m[o.id] is o, "an ID leads to another object")
        for a in live:
            e.check([b for b in live if a == b] == [a], "two live objects are equal")


def jobs():
    J = [Job("ids5", ids, {"n": 5}, bounds="any 5 appends and removals"),
            Job("ids7", ids, {"n": 7}, bounds="any 7 appends and removals"),
            Job("again", ids, {"n": 6, "again": True}, bounds="any 6 appends and removals, also of objects not in the map"),
            Job("more", ids, {"n": 5, "start": 4}, bounds="4 appends and any 5 appends and removals"),
            Job("ids9", ids, {"n": 9}, tier="thorough", bounds="any 9 appends and removals"),
            Job("more5", ids, {"n": 5, "start": 6}, tier="thorough", bounds="6 appends and any 5 appends and removals")]
    for j in J:
        j.symchoice = True
    return J
