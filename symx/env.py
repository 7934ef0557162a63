"""The two faces of a harness: symbolic execution (SymEnv) and replay on the real code (RealEnv)."""
import importlib
import math
import os
import sys
from fractions import Fraction as Fr

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class ReplayAssume(BaseException):
    pass


class ReplayViolation(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class HarnessNote(BaseException):
    pass


def frac(s):
    return Fr(s)


class RealEnv:
    """Concrete run of the harness against the installed modules."""
    symbolic = False

    def __init__(self, inputs, choices):
        import numpy
        self.np = numpy
        self.inputs = inputs
        self.choices = choices
        self.observed = []
        self.nchecks = 0
        self.pi = math.pi
        if REPO_SRC not in sys.path:
            sys.path.insert(0, REPO_SRC)

    def mod(self, name):
        return importlib.import_module(name)

    def stub(self, name, m):
        sys.modules[name] = m

    def real(self, name, lo=None, hi=None):
        if name not in self.inputs:
            self.inputs[name] = Fr(lo if lo is not None else 0)
        v = float(self.inputs[name])
        if lo is not None:
            v = max(v, float(Fr(lo)))
        if hi is not None:
            v = min(v, float(Fr(hi)))
        return v

    def choice(self, name, seq):
        seq = list(seq)
        name = unique(self, name)
        if "choice " + name in self.inputs:
            return seq[int(self.inputs["choice " + name] // 1) % len(seq)]
        return seq[int(self.choices.get(name, 0)) % len(seq)]

    def lit(self, x):
        return float(Fr(x) if isinstance(x, str) else x)

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def assume(self, c):
        if not bool(c):
            raise ReplayAssume()

    def check(self, c, msg):
        self.nchecks += 1
        if not bool(c):
            raise ReplayViolation(msg)

    def near(self, a, b, msg, tol=1e-7):
        self.nchecks += 1
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b) or not abs(a - b) <= tol * max(1.0, abs(a), abs(b)) / 10:
            raise ReplayViolation("%s (%r vs %r)" % (msg, a, b))

    def leq(self, a, b, msg, tol=1e-7):
        self.nchecks += 1
        if not float(a) <= float(b) + tol * max(1.0, abs(float(a)), abs(float(b))) / 10:
            raise ReplayViolation("%s (%r > %r)" % (msg, a, b))

    def iszero(self, x, scale=1.0):
        """x == 0 exactly in the encoding, up to rounding on the real code."""
        return abs(float(x)) <= 1e-9 * scale

    def observe(self, name, v):
        self.observed.append((name, float(v)))

    def is_sym(self, x):
        return False


class SymEnv:
    symbolic = True
    symchoice = False

    def __init__(self, explorer, world):
        from . import core, shim
        self.core, self.shim = core, shim
        self.ex = explorer
        self.world = world
        self.np = shim.NP
        self.pi = shim.PI

    def mod(self, name):
        return self.world.load(name)

    def stub(self, name, m):
        self.world.stubs[name] = m

    def real(self, name, lo=None, hi=None):
        return self.ex.input_real(name, lo, hi)

    def choice(self, name, seq):
        seq = list(seq)
        name = unique(self, name)
        if self.symchoice and len(seq) > 1:
            v = self.ex.input_real("choice " + name, 0, Fr(2 * len(seq) - 1, 2))
            return seq[self.ex.floor(v)]
        return seq[self.ex.choose(name, len(seq))]

    def lit(self, x):
        return self.core.lift(Fr(x) if isinstance(x, (str, Fr)) else x)

    def arr(self, x):
        return self.shim.NP.array(x, dtype=float)

    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, msg):
        self.ex.check(c, msg)

    def near(self, a, b, msg, tol=1e-7):
        """|a-b| <= tol, decided as exact equality first."""
        if isinstance(a, self.shim.Ang) or isinstance(b, self.shim.Ang):
            self.ex.check(a == b, msg)
            return
        la, lb = self.core.lift(a), self.core.lift(b)
        if la is None or lb is None:
            if la is None and lb is None and (a == b):
                return
            raise self.core.CheckFailed(msg + " (not a finite number)", None)
        d = la - lb
        if d.c == 0:
            self.ex.stats.checks_folded += 1
            return
        t = self.core.lift(tol)
        c = self.core.to_cond(d <= t) & self.core.to_cond(d >= -t)
        self.ex.check(c, msg)

    def leq(self, a, b, msg, tol=1e-7):
        t = self.core.lift(tol)
        self.ex.check(self.core.lift(a) <= self.core.lift(b) + t if not _isinf(a) and not _isinf(b) else a <= b, msg)

    def iszero(self, x, scale=1.0):
        return bool(x == 0)

    def observe(self, name, v):
        self.ex.observed.append((name, v))

    def is_sym(self, x):
        return isinstance(x, self.core.R) and x.c is None


def unique(env, name):
    """A repeated name of a choice means another choice."""
    used = env.__dict__.setdefault("used", {})
    used[name] = used.get(name, 0) + 1
    return name if used[name] == 1 else "%s #%d" % (name, used[name])


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)
