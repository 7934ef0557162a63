"""C07: the undo stack behaves as a list of done and undone actions under every sequence of calls."""
from symx.runner import Job

OUTSIDE = "Sequences longer than the listed length; exceptions other than one raised by a done, redone or undone action."


class Boom(Exception):
    pass


class Model:
    """Reference: lists of (text, steps) with steps a list of (index, increment)."""

    def __init__(self):
        self.undos, self.redos, self.saved = [], [], None

    def do(self, text, steps):
        self.undos.append((text, steps, object()))
        self.redos = []

    def top(self):
        return self.undos[-1][2] if self.undos else "empty"


def sequence(e, n, kinds):
    U = e.mod("bgem.undo")
    U.setstack(U.Stack())
    st = U.stack()
    val = [e.lit(0), e.lit(0)]
    calls = {"do": 0, "undo": 0}
    st.docallback = lambda: calls.__setitem__("do", calls["do"] + 1)
    st.undocallback = lambda: calls.__setitem__("undo", calls["undo"] + 1)
    fail = {"undo": False}

    @U.undoable
    def add(i, inc):
        val[i] = val[i] * 2 + inc        # not commutative: the order of undo matters
        yield "add %d" % i, i
        if fail["undo"]:
            raise Boom()
        val[i] = (val[i] - inc) / 2

    @U.undoable
    def bad():
        raise Boom()
        yield "bad"
    m = Model()
    ref = [e.lit(0), e.lit(0)]

    def apply(steps):
        for i, inc in steps:
            ref[i] = ref[i] * 2 + inc

    def revert(steps):
        for i, inc in reversed(steps):
            ref[i] = (ref[i] - inc) / 2

    def group(k, levels, raising):
        steps = []
        try:
            with U.group("group {count}"):
                for j in range(2):
                    inc = e.real("g%d_%d" % (k, j), -5, 5)
                    i = j % 2
                    r = add(i, inc)
                    e.check(r == i, "value returned by the action")
                    steps.append((i, inc))
                if levels:
                    with U.group("inner"):
                        inc = e.real("h%d" % k, -5, 5)
                        add(0, inc)
                        steps.append((0, inc))
                    inc = e.real("i%d" % k, -5, 5)
                    add(1, inc)
                    steps.append((1, inc))
                if raising:
                    bad()
        except Boom:
            e.check(raising, "unexpected exception")
            apply(steps)
            return
        e.check(not raising, "exception of a grouped action was swallowed")
        apply(steps)
        m.do("group %d" % (4 if levels else 2), steps)

    for k in range(n):
        op = e.choice("op%d" % k, kinds)
        if op == "do":
            inc = e.real("d%d" % k, -5, 5)
            r = add(k % 2, inc)
            e.check(r == k % 2, "value returned by the action")
            apply([(k % 2, inc)])
            m.do("add %d" % (k % 2), [(k % 2, inc)])
        elif op == "undo":
            st.undo()
            if m.undos:
                a = m.undos.pop()
                revert(a[1])
                m.redos.append(a)
        elif op == "redo":
            st.redo()
            if m.redos:
                a = m.redos.pop()
                apply(a[1])
                m.undos.append(a)
        elif op == "group":
            group(k, 0, False)
        elif op == "nested":
            group(k, 1, False)
        elif op == "failing_group":
            group(k, 0, True)
        elif op == "save":
            st.savepoint()
            m.saved = m.top()
        elif op == "clear":
            st.clear()
            m.undos, m.redos, m.saved = [], [], None
        elif op == "fail_undo":
            if m.undos:
                # nothing of a single failing action is reverted; the history is dropped
                if len(m.undos[-1][1]) != 1:
                    continue
                fail["undo"] = True
                try:
                    st.undo()
                    e.check(False, "exception of a failing undo was swallowed")
                except Boom:
                    pass
                fail["undo"] = False
                m.undos, m.redos, m.saved = [], [], None
        for i in (0, 1):
            e.check(val[i] == ref[i], "state after %s" % op)
        e.check(st.undocount() == len(m.undos) and st.redocount() == len(m.redos), "number of undos and redos")
        e.check(st.canundo() == bool(m.undos) and st.canredo() == bool(m.redos), "canundo, canredo")
        if m.undos and m.undos[-1][0]:
            e.check(st.undotext() == "Undo " + m.undos[-1][0], "undo text")
        if not m.undos:
            e.check(st.undotext() is None, "undo text of an empty stack")
        if m.redos and m.redos[-1][0]:
            e.check(st.redotext() == "Redo " + m.redos[-1][0], "redo text")
        want = m.saved is None or m.saved != m.top()
        e.check(st.haschanged() == want, "haschanged")
    # everything can be undone and redone
    while m.undos:
        st.undo()
        a = m.undos.pop()
        revert(a[1])
        m.redos.append(a)
        for i in (0, 1):
            e.check(val[i] == ref[i], "state after undoing everything")
    while m.redos:
        st.redo()
        a = m.redos.pop()
        apply(a[1])
        for i in (0, 1):
            e.check(val[i] == ref[i], "state after redoing everything")
    e.check(not st.canredo(), "redo left actions")


def callbacks(e, n):
    U = e.mod("bgem.undo")
    U.setstack(U.Stack())
    st = U.stack()
    log = []
    st.docallback = lambda: log.append(("do", st.undotext()))
    st.undocallback = lambda: log.append(("undo", st.redotext()))
    x = [e.lit(0)]

    @U.undoable
    def add(inc):
        x[0] = x[0] + inc
        yield "add"
        x[0] = x[0] - inc
    for k in range(n):
        op = e.choice("op%d" % k, ["do", "undo", "redo"])
        before = len(log)
        can = {"do": True, "undo": st.canundo(), "redo": st.canredo()}[op]
        if op == "do":
            add(e.real("d%d" % k, -1, 1))
        else:
            getattr(st, op)()
        want = [("undo" if op == "undo" else "do", "Redo add" if op == "undo" else "Undo add")] if can else []
        e.check(log[before:] == want, "callbacks")
    e.check(st.undocount() + st.redocount() <= n, "number of actions")


def jobs():
    K = ["do", "undo", "redo", "group", "nested", "failing_group", "save", "clear", "fail_undo"]
    J = [Job("seq3", sequence, {"n": 3, "kinds": K}, weight=3, bounds="any 3 calls out of %s, symbolic increments" % K),
            Job("seq5", sequence, {"n": 5, "kinds": ["do", "undo", "redo", "save"]}, weight=4,
                bounds="any 5 calls out of do, undo, redo, savepoint"),
            Job("seq4g", sequence, {"n": 4, "kinds": ["do", "undo", "redo", "nested", "failing_group"]}, weight=4,
                bounds="any 4 calls out of do, undo, redo, nested group, failing group"),
            Job("seq4", sequence, {"n": 4, "kinds": K}, weight=6, tier="thorough", bounds="any 4 calls out of %s" % K),
            Job("seq6", sequence, {"n": 6, "kinds": ["do", "undo", "redo", "save", "group"]}, weight=9, tier="thorough",
                bounds="any 6 calls out of do, undo, redo, savepoint, group"),
            Job("callbacks", callbacks, {"n": 4}, bounds="any 4 calls out of do, undo, redo")]
    for j in J:
        j.symchoice = True
    return J
