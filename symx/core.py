"""
Symbolic reals for executing unmodified Python source.

A value is a rational function n/d with d > 0 on the current path; n, d are multivariate
polynomials with rational coefficients in normal form.  Square roots are atoms that are
eliminated from every comparison by exact case analysis.  Every comparison yields a
Cond (quantifier-free formula over polynomial sign conditions); asking for its truth
value (bool()) forks the execution, with the feasibility of both sides decided by z3.
"""
import math
import numbers
import os
import re
import sys
import time
from fractions import Fraction as Fr

import numpy as _np

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402


_PREC = re.compile(r"(?:\.(\d+))?([eEfFgG])$|\.(\d+)$")


class PathAbort(BaseException):
    """Assumption failed / path closed on purpose."""


class PathTimeout(BaseException):
    pass


class Unsupported(BaseException):
    """Operation outside the encodable fragment; the path is given up (inconclusive)."""


class CheckFailed(BaseException):
    """A property assertion can be violated on the current path."""
    def __init__(self, msg, cond=None):
        super().__init__(msg)
        self.msg = msg
        self.cond = cond     # negated assertion (Cond) or None (violated on the whole path)


# ---------------------------------------------------------------- polynomials
# poly: dict mono -> Fraction ; mono: tuple of (vid, exp), sorted by vid

ONE = ()
P_ZERO = {}


def nz(c):
    """Canonical coefficient: int when integral (fast), Fraction otherwise."""
    if type(c) is int:
        return c
    return c.numerator if c.denominator == 1 else c


def quo(a, b):
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fr(a, b)
    return nz(Fr(a) / b)


def p_const(c):
    return {ONE: nz(c)} if c else {}


def p_add(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        v = c if s == 1 else -c
        if o is not None:
            v = o + v
            if type(v) is not int:
                v = nz(v)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    if type(k) is int:
        return {m: nz(c * k) for m, c in a.items()}
    return {m: nz(c * k) for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE])
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            v = ca * cb
            if type(v) is not int:
                v = nz(v)
            o = r.get(m)
            if o is not None:
                v = v + o
                if type(v) is not int:
                    v = nz(v)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return p_reduce(r)


def p_reduce(p):
    """Replace s*s by its radicand for square root atoms s (s**3 for cube roots)."""
    sq = EX().sqrt_rad if EXPLORER is not None else None
    if not sq and (EXPLORER is None or not EX().cbrt_rad):
        return p
    cb = EX().cbrt_rad
    hit = False
    for m in p:
        for v, e in m:
            if e > 1 and (v in sq or e > 2 and v in cb):
                hit = True
                break
    if not hit:
        return p
    out = {}
    for m, c in p.items():
        extra = {ONE: 1}
        rest = []
        for v, e in m:
            k, rad = (2, sq[v]) if v in sq else (3, cb[v]) if v in cb else (e + 1, None)
            for _ in range(e // k):
                extra = p_mul(extra, rad)
            if e % k:
                rest.append((v, e % k))
        out = p_add(out, p_mul({tuple(rest): c}, extra))
    return out


def p_key(p):
    return tuple(sorted(p.items()))


def p_vars(p):
    return {v for m in p for v, e in m}


def p_eval(p, model):
    t = Fr(0)
    for m, c in p.items():
        for v, e in m:
            c = c * model[v] ** e
        t += c
    return t


def p_is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def p_cval(p):
    return p.get(ONE, 0)


def p_diff(p, v):
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.get(v, 0)
        if e:
            if e == 1:
                del d[v]
            else:
                d[v] = e - 1
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + c * e
    return {k: c for k, c in r.items() if c}


# ---------------------------------------------------------------- conditions

class Cond:
    """Formula. kind: 'c' const(bool) / 's' sign(poly, allowed subset of {-1,0,1}) / 'a' and / 'o' or"""
    __slots__ = ("kind", "p", "sg", "args", "_n", "_k")

    def __init__(self, kind, p=None, sg=None, args=None):
        self.kind, self.p, self.sg, self.args = kind, p, sg, args
        self._n = None

    # boolean algebra
    def __invert__(self):
        if self.kind == "c":
            return FALSE if self.p else TRUE
        if self.kind == "s":
            return Cond("s", self.p, frozenset((-1, 0, 1)) - self.sg)
        if self.kind == "a":
            return c_or([~x for x in self.args])
        return c_and([~x for x in self.args])

    def __and__(self, o):
        return c_and([self, to_cond(o)])

    __rand__ = __and__

    def __or__(self, o):
        return c_or([self, to_cond(o)])

    __ror__ = __or__

    def __xor__(self, o):
        o = to_cond(o)
        return (self & ~o) | (~self & o)

    def __bool__(self):
        if self.kind == "c":
            return self.p
        return EX().branch(self)

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, Cond)):
            return ~(self ^ to_cond(o))
        return bool(self) == o

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    # object-dtype ufuncs
    def logical_not(self):
        return ~self

    def logical_or(self, o):
        return self | o

    def logical_and(self, o):
        return self & o

    def z3(self):
        return cond_z3(self)

    def eval(self, model):
        k = self.kind
        if k == "c":
            return self.p
        if k == "s":
            v = p_eval(self.p, model)
            return ((v > 0) - (v < 0)) in self.sg
        if k == "a":
            return all(x.eval(model) for x in self.args)
        return any(x.eval(model) for x in self.args)

    def vars(self):
        if self.kind == "c":
            return set()
        if self.kind == "s":
            return p_vars(self.p)
        s = set()
        for x in self.args:
            s |= x.vars()
        return s

    def strengthen(self, eps):
        """Stronger formula with a margin on strict inequalities (for robust models)."""
        if self.kind == "s":
            sg = self.sg
            if sg == frozenset((1,)):
                return Cond("s", p_add(self.p, p_const(-eps)), frozenset((0, 1)))
            if sg == frozenset((-1,)):
                return Cond("s", p_add(self.p, p_const(eps)), frozenset((0, -1)))
            if sg == frozenset((-1, 1)):
                return c_or([Cond("s", p_add(self.p, p_const(-eps)), frozenset((0, 1))),
                             Cond("s", p_add(self.p, p_const(eps)), frozenset((0, -1)))])
            if sg == frozenset((0, 1)):
                return c_or([Cond("s", p_add(self.p, p_const(-eps)), frozenset((0, 1))), Cond("s", self.p, frozenset((0,)))]) \
                    if False else Cond("s", p_add(self.p, p_const(-eps)), frozenset((0, 1)))
            if sg == frozenset((0, -1)):
                return Cond("s", p_add(self.p, p_const(eps)), frozenset((0, -1)))
            return self
        if self.kind == "a":
            return c_and([x.strengthen(eps) for x in self.args])
        if self.kind == "o":
            return c_or([x.strengthen(eps) for x in self.args])
        return self


TRUE = Cond("c", True)
FALSE = Cond("c", False)
_LT, _LE, _EQ, _NE, _GT, _GE = (frozenset(x) for x in ((-1,), (-1, 0), (0,), (-1, 1), (1,), (0, 1)))


def to_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, R):
        return x != 0
    return TRUE if bool(x) else FALSE


def c_and(xs):
    out = []
    for x in xs:
        x = to_cond(x)
        if x.kind == "c":
            if not x.p:
                return FALSE
        elif x.kind == "a":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("a", args=out)


def c_or(xs):
    out = []
    for x in xs:
        x = to_cond(x)
        if x.kind == "c":
            if x.p:
                return TRUE
        elif x.kind == "o":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("o", args=out)


TINY = Fr(1, 10 ** 200)


def same_sign(p, sg, sq):
    """sum of c_i * (product of root atoms) with all c_i >= 0 (or all <= 0) on the path: no elimination needed."""
    groups = {}
    for m, c in p.items():
        at = tuple(v for v, k in m if v in sq)
        groups.setdefault(at, {})[tuple((v, k) for v, k in m if v not in sq)] = c
    way = tiny = 0
    c = groups.get((), {}).get(ONE)
    if c is not None and len(p) > 1 and 0 < abs(c) < TINY:
        # against a number like 1e-300: nothing else is so small (stated as an assumption)
        if len(groups.pop(())) > 1:
            return None
        tiny = 1 if c > 0 else -1
    for q in groups.values():
        w = EX().weak_sign(q)
        if w is None or w * way < 0:
            return None
        way = way or w
    g = 1 if way >= 0 else -1
    if tiny and way and tiny != g:
        zero = c_and([c_or([sign_cond(q, _EQ)] + [sign_cond(sq[v], _EQ) for v in at]) for at, q in groups.items()])
        return c_or(([~zero] if g in sg else []) + ([zero] if tiny in sg else []))
    if tiny:
        return TRUE if tiny in sg else FALSE
    nonzero = c_or([c_and([sign_cond(q, _NE)] + [sign_cond(sq[v], _NE) for v in at]) for at, q in groups.items()])
    if g in sg:
        return TRUE if 0 in sg else nonzero
    return ~nonzero if 0 in sg else FALSE


def sign_cond(p, sg):
    """p in allowed signs sg; eliminates square root atoms."""
    if p_is_const(p):
        v = p_cval(p)
        return TRUE if ((v > 0) - (v < 0)) in sg else FALSE
    sq = EX().sqrt_rad
    s = None
    if sq:
        cand = [v for v in p_vars(p) if v in sq]
        if len(cand) > 1 or cand and 0 < abs(p.get(ONE, 0)) < TINY:
            c = same_sign(p, sg, sq)
            if c is not None:
                return c
        if cand:
            s = max(cand)      # youngest atom first: its radicand uses older ones only
    if s is None:
        # normalise: primitive integer coefficients, leading one positive
        k = min(p)
        den, conv = 1, False
        for c in p.values():
            if type(c) is not int:
                conv = True
                den = den * c.denominator // math.gcd(den, c.denominator)
        if conv:
            p = {m: int(c * den) for m, c in p.items()}
        g = math.gcd(*p.values())
        if p[k] < 0:
            g = -g
            sg = frozenset(-x for x in sg)
        if g != 1:
            p = {m: c // g for m, c in p.items()}
        return Cond("s", p, sg)
    al, be = {}, {}
    for m, c in p.items():
        d = dict(m)
        if s in d:
            assert d[s] == 1
            del d[s]
            al[tuple(sorted(d.items()))] = c
        else:
            be[m] = c
    rad = sq[s]
    # p = al*s + be, s = sqrt(rad) >= 0
    D = p_add(p_mul(p_mul(al, al), rad), p_mul(be, be), -1)      # al^2 rad - be^2
    def sc(q, g):
        return sign_cond(q, g)
    parts = []
    if 0 in sg:
        # al*s == -be  <=> al*be <= 0 and al^2 rad == be^2
        parts.append(c_and([sign_cond(D, _EQ), sc(p_mul(al, be), _LE)]))
    if 1 in sg:
        # al*s + be > 0
        parts.append(c_or([
            c_and([sc(al, _GT), c_or([sc(be, _GT), sc(D, _GT)])]),
            c_and([sc(al, _LE), sc(be, _GT), sc(D, _LT)]),
        ]))
    if -1 in sg:
        parts.append(c_or([
            c_and([sc(al, _LT), c_or([sc(be, _LT), sc(D, _GT)])]),
            c_and([sc(al, _GE), sc(be, _LT), sc(D, _LT)]),
        ]))
    return c_or(parts)


_z3vars = {}


def z3var(v):
    x = _z3vars.get(v)
    if x is None:
        x = _z3vars[v] = z3.Real("v%d" % v)
    return x


_z3poly = {}


def poly_z3(p):
    k = p_key(p)
    e = _z3poly.get(k)
    if e is None:
        terms = []
        for m, c in k:
            f = []
            for v, ex in m:
                f.extend([z3var(v)] * ex)
            t = z3.RealVal(str(c))
            if f:
                prod = f[0]
                for x in f[1:]:
                    prod = prod * x
                t = prod if c == 1 else t * prod
            terms.append(t)
        e = terms[0] if len(terms) == 1 else z3.Sum(terms)
        _z3poly[k] = e
    return e


def cond_z3(c):
    if c.kind == "c":
        return z3.BoolVal(c.p)
    if c.kind == "s":
        e = poly_z3(c.p)
        z = z3.RealVal(0)
        sg = c.sg
        if sg == _LT:
            return e < z
        if sg == _LE:
            return e <= z
        if sg == _EQ:
            return e == z
        if sg == _NE:
            return e != z
        if sg == _GT:
            return e > z
        if sg == _GE:
            return e >= z
        return z3.BoolVal(bool(sg))
    xs = [cond_z3(x) for x in c.args]
    return z3.And(xs) if c.kind == "a" else z3.Or(xs)


def cond_key(c):
    if c.kind == "c":
        return ("c", c.p)
    if c.kind == "s":
        return ("s", p_key(c.p), tuple(sorted(c.sg)))
    return (c.kind,) + tuple(cond_key(x) for x in c.args)


def c_degree(c):
    if c.kind == "s":
        return max((sum(e for v, e in m) for m in c.p), default=0)
    if c.kind == "c":
        return 0
    return max(c_degree(x) for x in c.args)


# ---------------------------------------------------------------- values

_INF = (math.inf, -math.inf)


def lift(x):
    """Number -> R, or None if not a number we can lift."""
    if isinstance(x, R):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return rconst(Fr(int(x)))
    if isinstance(x, (int, _np.integer)):
        return rconst(int(x))
    if isinstance(x, Fr):
        return rconst(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return None
        return rconst(Fr(repr(x)))
    if isinstance(x, Cond):
        return rconst(Fr(int(x)))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def rconst(c):
    r = R.__new__(R)
    r.c = c if type(c) is int else nz(c)
    r.n = None
    r.d = None
    return r


def rpoly(n, d=None):
    """d: poly known positive, or None."""
    if not n:
        return rconst(Fr(0))
    if d is not None and p_is_const(d):
        n = p_scale(n, quo(1, p_cval(d)))
        d = None
    if d is None:
        if p_is_const(n):
            return rconst(p_cval(n))
    else:
        # cancel when proportional
        if len(n) == len(d):
            k = next(iter(d))
            if k in n:
                q = quo(n[k], d[k])
                if all(n.get(m) == q * c for m, c in d.items()):
                    return rconst(q)
    r = R.__new__(R)
    r.c = None
    r.n = n
    r.d = d
    return r


class R:
    """Symbolic real."""
    __slots__ = ("c", "n", "d")

    def __new__(cls, x=None):
        if cls is R and x is not None:
            return lift(x)
        return object.__new__(cls)

    def num(self):
        return p_const(self.c) if self.c is not None else self.n

    def _isc(self):
        return self.c is not None

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            return inf_arith("+", self, o)
        if self.c is not None:
            if b.c is not None:
                return rconst(self.c + b.c)
            if not self.c:
                return b
        elif b.c is not None and not b.c:
            return self
        if self.d is None and b.d is None:
            return rpoly(p_add(self.num(), b.num()))
        if self.d is not None and b.d is not None and self.d == b.d:
            return rpoly(p_add(self.n, b.n), self.d)
        if self.d is None:
            return rpoly(p_add(p_mul(self.num(), b.d), b.n), b.d)
        if b.d is None:
            return rpoly(p_add(self.n, p_mul(b.num(), self.d)), self.d)
        return rpoly(p_add(p_mul(self.n, b.d), p_mul(b.n, self.d)), p_mul(self.d, b.d))

    __radd__ = __add__

    def __neg__(self):
        if self.c is not None:
            return rconst(-self.c)
        return rpoly(p_scale(self.n, Fr(-1)), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            return inf_arith("-", self, o)
        return self + (-b)

    def __rsub__(self, o):
        b = lift(o)
        if b is None:
            if isinstance(o, (float, _np.floating)):
                return float(o)
            return NotImplemented
        return b + (-self)

    def __mul__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            return inf_arith("*", self, o)
        if self.c is not None:
            if b.c is not None:
                return rconst(self.c * b.c)
            if not self.c:
                return self
            if self.c == 1:
                return b
            return rpoly(p_scale(b.n, self.c), b.d)
        if b.c is not None:
            if not b.c:
                return b
            return rpoly(p_scale(self.n, b.c), self.d)
        an, ad, bn, bd = self.n, self.d, b.n, b.d
        if ad is not None and ad == bn:
            return rpoly(an, bd)
        if bd is not None and bd == an:
            return rpoly(bn, ad)
        d = ad if bd is None else (bd if ad is None else p_mul(ad, bd))
        return rpoly(p_mul(an, bn), d)

    __rmul__ = __mul__

    def recip(self):
        if self.c is not None:
            if not self.c:
                raise ZeroDivisionError("float division by zero")
            return rconst(quo(1, self.c))
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        sqv = EX().sqrt_rad
        n, d = self.n, self.d
        svs = [v for v in p_vars(n) if v in sqv] if sqv else []
        if svs:
            # rationalise the denominator: n = al*s+be -> multiply by (al*s-be)
            s = max(svs)
            al = {tuple(x for x in m if x[0] != s): c for m, c in n.items() if any(v == s for v, e in m)}
            be = {m: c for m, c in n.items() if not any(v == s for v, e in m)}
            if not be:
                # n = al*s :  1/n = s/(al*rad)
                den = rpoly(p_mul(al, sqv[s]))
                num = rpoly({((s, 1),): 1})
            else:
                den = rpoly(p_add(p_mul(p_mul(al, al), sqv[s]), p_mul(be, be), -1))
                num = rpoly(p_add(p_mul(al, {((s, 1),): 1}), be, -1))
                if den == 0:
                    # then al*s == be on this path (n != 0)
                    return rpoly(d if d is not None else {ONE: 1}) * (rpoly(p_scale(be, Fr(2)))).recip()
            r = num * den.recip()
            return r if d is None else r * rpoly(d)
        if bool(rpoly(n) > 0):
            return rpoly(d if d is not None else {ONE: 1}, n)
        return rpoly(p_scale(d, Fr(-1)) if d is not None else {ONE: -1}, p_scale(n, Fr(-1)))

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            if isinstance(o, (float, _np.floating)):
                return math.nan if math.isnan(o) else rconst(Fr(0))
            return NotImplemented
        if bool(b == 0):
            return div0(self)
        return self * b.recip()

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            if isinstance(o, (float, _np.floating)):
                return inf_arith("*", self, o)
            return NotImplemented
        if bool(self == 0):
            return div0(b)
        return b * self.recip()

    def __pow__(self, k):
        kk = lift(k)
        if kk is None or kk.c is None:
            raise Unsupported("symbolic exponent")
        k = kk.c
        if k.denominator == 2:
            base = self.sqrt()
            k = k.numerator
        elif k.denominator == 1:
            base = self
            k = int(k)
        elif k.denominator == 4:
            base = self.sqrt().sqrt()
            k = k.numerator
        elif k.denominator == 3 or abs(k - k.limit_denominator(3)) < Fr(1, 10 ** 15):
            k = k.limit_denominator(3).numerator
            base = self.cbrt()
        else:
            raise Unsupported("exponent %s" % k)
        if k < 0:
            base = base.recip()
            k = -k
        r = rconst(Fr(1))
        for _ in range(k):
            r = r * base
        return r

    def __rpow__(self, o):
        if self.c is not None and self.c.denominator == 1:
            return lift(o) ** int(self.c)
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        b = lift(o)
        return rconst(Fr((self / b).floor_int()))

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        b = lift(o)
        return self - b * (self // b)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __abs__(self):
        if self.c is not None:
            return rconst(abs(self.c))
        sq = EX().sqrt_rad
        # single atom, no forking
        if len(self.n) == 1:
            (m, c), = self.n.items()
            if len(m) == 1 and m[0][0] in sq and self.d is None:
                return rpoly({m: abs(c)})
        from . import shim
        if shim.OPT["minmax"] == "atom" and self.d is None:
            return shim.max2(self, -self)
        return self if bool(self >= 0) else -self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return rconst(Fr(0))

    def sqrt(self):
        if self.c is not None:
            if self.c < 0:
                raise Unsupported("sqrt of a negative number")
            a, b = self.c.numerator, self.c.denominator
            ra, rb = math.isqrt(a), math.isqrt(b)
            if ra * ra == a and rb * rb == b:
                return rconst(Fr(ra, rb))
            rad = p_const(Fr(a * b))
            return rpoly({((EX().sqrt_atom(rad), 1),): Fr(1, b)})
        if self.d is not None:
            return rpoly(p_mul(self.n, self.d)).sqrt() * rpoly(self.d).recip()
        if not bool(self >= 0):
            raise Unsupported("sqrt of a negative number")
        # perfect square of a linear-ish poly: (single monomial)
        if len(self.n) == 1:
            (m, c), = self.n.items()
            if all(e % 2 == 0 for v, e in m):
                root = rpoly({tuple((v, e // 2) for v, e in m): 1})
                return abs(root) * rconst(c).sqrt()
        r = p_sqrt(self.n)
        if r is not None:
            return abs(rpoly(r))
        # normalise content so that equal radicands up to a square share the atom
        k = min(self.n)
        lc = abs(self.n[k])
        rad = {m: quo(c, lc) for m, c in self.n.items()}
        return rpoly({((EX().sqrt_atom(rad), 1),): 1}) * rconst(lc).sqrt()

    def cbrt(self):
        """Cube root of a non-negative number: an atom with v**3 = x."""
        bool(self >= 0) or EX().unsupported("cube root of a negative number")

        def of_const(c):
            out = Fr(1)
            for n, sg in ((c.numerator, 1), (c.denominator, -1)):
                for q in (2, 3, 5, 7):
                    while n % q ** 3 == 0 and n:
                        n //= q ** 3
                        out *= Fr(q) ** sg
            return out, c / out ** 3
        if self.c is not None and self.c == 0:
            return self
        lead = Fr(self.c) if self.c is not None else Fr(self.n[max(self.n)]) / (self.d[max(self.d)] if self.d is not None else 1)
        out, rest = of_const(abs(lead))
        x = self / rconst(out ** 3)
        if x.c is not None and x.c == 1:
            return rconst(out)
        return rconst(out) * EX().cbrt_atom(x)

    def floor_int(self):
        if self.c is not None:
            return math.floor(self.c)
        return EX().floor(self)

    def __floor__(self):
        return self.floor_int()

    def __ceil__(self):
        return -((-self).floor_int())

    def floor(self):
        return rconst(Fr(self.floor_int()))

    def ceil(self):
        return rconst(Fr(-((-self).floor_int())))

    def rint(self):
        return rconst(Fr(self.__round__()))

    def __trunc__(self):
        if self.c is not None:
            return math.trunc(self.c)
        return self.floor_int() if bool(self >= 0) else -((-self).floor_int())

    def __int__(self):
        return self.__trunc__()

    def __round__(self, n=None):
        if n:
            k = 10 ** n
            return rconst(Fr((self * k).__round__(), k))
        f = self.floor_int()
        r = self - f
        half = rconst(Fr(1, 2))
        if bool(r < half):
            v = f
        elif bool(r > half):
            v = f + 1
        else:
            v = f if f % 2 == 0 else f + 1
        return v if n is None else rconst(Fr(v))

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic real reached native code")

    def __complex__(self):
        return complex(float(self))

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return self

    def is_integer(self):
        return self.c is not None and self.c.denominator == 1

    def any(self):
        return bool(self != 0)

    all = any

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype(object)

    # ---- comparisons
    def _cmp(self, o, sg):
        b = lift(o)
        if b is None:
            if isinstance(o, (float, _np.floating)):
                if math.isnan(o):
                    return sg == _NE
                return (-1 if o > 0 else 1) in sg
            if o is None or isinstance(o, str):
                if sg == _EQ:
                    return False
                if sg == _NE:
                    return True
                raise TypeError("comparison of a real with %r" % (o,))
            return NotImplemented
        if self.c is not None and b.c is not None:
            v = self.c - b.c
            return ((v > 0) - (v < 0)) in sg
        e = self - b
        if e.c is not None:
            return ((e.c > 0) - (e.c < 0)) in sg
        r = sign_cond(e.n, sg)
        if r.kind == "c":
            return r.p
        return r

    def __lt__(self, o):
        return self._cmp(o, _LT)

    def __le__(self, o):
        return self._cmp(o, _LE)

    def __gt__(self, o):
        return self._cmp(o, _GT)

    def __ge__(self, o):
        return self._cmp(o, _GE)

    def __eq__(self, o):
        return self._cmp(o, _EQ)

    def __ne__(self, o):
        return self._cmp(o, _NE)

    def __hash__(self):
        return 0x51

    def __bool__(self):
        if self.c is not None:
            return bool(self.c)
        return bool(self != 0)

    # ---- text: a token that float()/int() of the shim read back
    def __repr__(self):
        if self.c is not None and EXPLORER is None:
            return "R(%s)" % self.c
        return EX().token(self) if EXPLORER is not None else "R(%r/%r)" % (self.n, self.d)

    __str__ = __repr__

    def __format__(self, spec):
        m = _PREC.search(spec)
        return self.rounded(m.group(1) or m.group(3), (m.group(2) or "g").lower()) if m else self.__repr__()

    def rounded(self, digits, kind):
        """Printed with a limited precision: any number within the rounding error."""
        d = int(digits) if digits is not None else 6
        if kind == "f":
            return (self + EX().fresh_in("rnd", Fr(1, 2 * 10 ** d))).__repr__()
        d = max(d - 1 if kind == "g" else d, 0)
        return (self * (1 + EX().fresh_in("rnd", Fr(1, 2 * 10 ** d)))).__repr__()

    # ---- transcendental functions used on object arrays
    def _trans(name):
        def f(self, *a):
            return EX().transcendental(name, self)
        return f

    cos = _trans("cos")
    sin = _trans("sin")
    tan = _trans("tan")
    exp = _trans("exp")
    log = _trans("log")
    arccos = _trans("arccos")
    arcsin = _trans("arcsin")
    log2 = _trans("log2")
    log10 = _trans("log10")

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sign(self):
        if bool(self > 0):
            return rconst(Fr(1))
        if bool(self < 0):
            return rconst(Fr(-1))
        return rconst(Fr(0))

    def radians(self):
        return EX().transcendental("radians", self)


numbers.Real.register(R)


def p_sqrt(p):
    """Exact square root of a polynomial if it is a perfect square of a linear form (or None)."""
    vs = sorted(p_vars(p))
    deg = max(sum(e for v, e in m) for m in p)
    if deg != 2:
        return None
    root = {}
    # linear form a0 + sum ai xi ; ai^2 = coeff(xi^2)
    def rs(c):
        if c < 0:
            return None
        ra, rb = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return nz(Fr(ra, rb)) if ra * ra == c.numerator and rb * rb == c.denominator else None
    lead = None
    for v in vs:
        c = p.get(((v, 2),), Fr(0))
        q = rs(c)
        if q is None:
            return None
        if lead is None:
            if q == 0:
                return None
            lead = v
            root[((v, 1),)] = q
        else:
            cr = p.get(tuple(sorted(((lead, 1), (v, 1)))), Fr(0))
            root[((v, 1),)] = quo(cr, 2 * root[((lead, 1),)])
    root[ONE] = quo(p.get(((lead, 1),), 0), 2 * root[((lead, 1),)])
    root = {m: c for m, c in root.items() if c}
    return root if p_mul(root, root) == p else None


def div0(a):
    """numpy floating point division by zero (the code divides numpy scalars)."""
    EX().stats.note("division by zero followed as inf/nan") if False else None
    if bool(a > 0):
        return math.inf
    if bool(a < 0):
        return -math.inf
    return math.nan


def inf_arith(op, a, o):
    if isinstance(o, (float, _np.floating)):
        o = float(o)
        if op == "+":
            return o
        if op == "-":
            return -o
        if op == "*":
            if bool(a > 0):
                return o
            if bool(a < 0):
                return -o
            return math.nan
    return NotImplemented


# ---------------------------------------------------------------- angles

class Ang:
    """Linear combination of polar angles of symbolic vectors and pi: sum c_i*atan2(y_i,x_i) + k*pi."""
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t = t      # tuple of (coef, x, y)
        self.k = k

    @staticmethod
    def lift(o):
        if isinstance(o, Ang):
            return o
        b = lift(o)
        if b is not None and b.c == 0:
            return Ang((), Fr(0))
        return None

    def __add__(self, o):
        o = Ang.lift(o)
        if o is None:
            return NotImplemented
        ts = [list(x) for x in self.t]
        for c, x, y in o.t:
            for e in ts:
                if e[1] is x and e[2] is y or (rkey(e[1]) == rkey(x) and rkey(e[2]) == rkey(y)):
                    e[0] += c
                    break
            else:
                ts.append([c, x, y])
        return Ang(tuple(tuple(e) for e in ts if e[0]), self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Ang(tuple((-c, x, y) for c, x, y in self.t), -self.k)

    def __sub__(self, o):
        o = Ang.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        b = lift(o)
        if b is None or b.c is None:
            raise Unsupported("angle times symbolic")
        return Ang(tuple((c * b.c, x, y) for c, x, y in self.t if b.c), self.k * b.c)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Ang):
            if not self.t and not o.t:
                return rconst(self.k / o.k)
            raise Unsupported("angle ratio")
        return self * quo(1, lift(o).c)

    def __mod__(self, o):
        if isinstance(o, Ang) and not o.t and o.k > 0:
            r = self
            for _ in range(8):
                if bool(r < 0):
                    r = r + o
                elif bool(r >= o):
                    r = r - o
                else:
                    return r
        raise Unsupported("angle modulo")

    def _sign(self):
        """-1/0/1, forking."""
        if not self.t:
            return (self.k > 0) - (self.k < 0)
        ts = self.t
        s = ts[0][0]
        if all(abs(c) == abs(s) for c, x, y in ts):
            sc = abs(s)
            ts = tuple((c / sc, x, y) for c, x, y in ts)
            k = self.k / sc
        else:
            raise Unsupported("angle combination")
        if len(ts) == 1:
            c, x, y = ts[0]
            ts = ((c, x, y), (-c, rconst(Fr(1)), rconst(Fr(0))))
        if len(ts) == 2 and ts[0][0] == -ts[1][0]:
            (c1, x1, y1), (c2, x2, y2) = ts
            flip = 1
            if c1 < 0:
                x1, y1, x2, y2 = x2, y2, x1, y1
            # theta1 - theta2 + k pi
            if k.denominator != 1:
                # split k into integer + fraction; rotate v2 by the fraction (multiples of 1/4, 1/2 only)
                fr = k - (k.numerator // k.denominator)
                if fr == Fr(1, 2):
                    rot = (Fr(0), Fr(1))
                elif fr == Fr(1, 4):
                    rot = (Fr(1), Fr(1))
                elif fr == Fr(3, 4):
                    rot = (Fr(-1), Fr(1))
                else:
                    rot = (Fr(math.cos(math.pi * float(fr))), Fr(math.sin(math.pi * float(fr))))
                m = k - fr
                # theta1 + fr*pi: rotate v1 ccw by fr*pi; may exceed pi -> wrap by 2pi
                nx = x1 * rot[0] - y1 * rot[1]
                ny = x1 * rot[1] + y1 * rot[0]
                h_old = _half(x1, y1)
                th_new = _half(nx, ny)
                # rotated angle in (-pi,pi] wraps iff old >= pi*(1-fr) i.e. new < old
                wrapped = (th_new < h_old) or (th_new == h_old and bool(x1 * ny - y1 * nx < 0))
                x1, y1 = nx, ny
                k = m + (2 if wrapped else 0)
            h1, h2 = _half(x1, y1), _half(x2, y2)
            H = h1 - h2 + int(k)
            if H <= -1:
                return -1
            if H >= 1:
                return 1
            f1, f2 = (-1 if h1 % 2 else 1), (-1 if h2 % 2 else 1)
            cr = (x2 * y1 - y2 * x1) * (f1 * f2)
            if bool(cr > 0):
                return 1
            if bool(cr < 0):
                return -1
            return 0
        raise Unsupported("angle combination")

    def _cmp(self, o, sg):
        b = Ang.lift(o)
        if b is None:
            l = lift(o)
            if l is not None and l.c is not None:
                if not self.t:
                    v = float(self.k) * math.pi - float(l.c)
                    return ((v > 0) - (v < 0)) in sg
                # compare with a number that is a multiple of pi up to float accuracy
                q = Fr(float(l.c) / math.pi).limit_denominator(8)
                if abs(float(q) * math.pi - float(l.c)) < 1e-12:
                    b = Ang((), q)
                elif float(l.c) > 2 * math.pi or float(l.c) < -2 * math.pi:
                    return ((-1) if l.c > 0 else 1) in sg
                else:
                    # any other number: as a part of the straight angle, its direction up to float accuracy
                    b = Ang((), Fr(float(l.c) / math.pi))
            elif isinstance(o, float) and math.isinf(o):
                return ((-1) if o > 0 else 1) in sg
            else:
                return NotImplemented
        return (self - b)._sign() in sg

    def __lt__(self, o):
        return self._cmp(o, _LT)

    def __le__(self, o):
        return self._cmp(o, _LE)

    def __gt__(self, o):
        return self._cmp(o, _GT)

    def __ge__(self, o):
        return self._cmp(o, _GE)

    def __eq__(self, o):
        return self._cmp(o, _EQ)

    def __ne__(self, o):
        return self._cmp(o, _NE)

    def __hash__(self):
        return 0x52

    def __abs__(self):
        return -self if self._sign() < 0 else self

    def __float__(self):
        if not self.t:
            return float(self.k) * math.pi
        raise Unsupported("float() of a symbolic angle")

    def __bool__(self):
        return self._sign() != 0

    def __repr__(self):
        return "Ang"

    def cos(self):
        return EX().angle_cos_sin(self)[0]

    def sin(self):
        return EX().angle_cos_sin(self)[1]


def _half(x, y):
    """theta = h*pi + psi with psi in [0,pi): h in {-1,0,1} for theta in (-pi,pi]."""
    if bool(y < 0):
        return -1
    if bool(y > 0):
        return 0
    if bool(x < 0):
        return 1
    return 0


def rkey(r):
    r = lift(r)
    if r.c is not None:
        return r.c
    return (p_key(r.n), p_key(r.d) if r.d is not None else None)


def atan2(y, x):
    y, x = lift(y), lift(x)
    if y.c is not None and x.c is not None:
        tab = {(1, 0): Fr(0), (0, 1): Fr(1, 2), (-1, 0): Fr(1), (0, -1): Fr(-1, 2), (0, 0): Fr(0)}
        sx, sy = (x.c > 0) - (x.c < 0), (y.c > 0) - (y.c < 0)
        if (sx, sy) in tab:
            return Ang((), tab[(sx, sy)])
    elif bool((x == 0) & (y == 0)):
        return Ang((), Fr(0))
    return Ang(((Fr(1), x, y),), Fr(0))


class SymComplex:
    def __init__(self, re, im):
        self.real, self.imag = lift(re), lift(im)

    def angle(self):
        return atan2(self.imag, self.real)

    def __abs__(self):
        return (self.real * self.real + self.imag * self.imag).sqrt()


# ---------------------------------------------------------------- explorer

EXPLORER = None


def EX():
    return EXPLORER


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.unsupported = 0
        self.timeouts = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks_solver = 0       # assertions discharged by an unsat answer
        self.checks_folded = 0       # assertions that normalise to true on the path
        self.checks_unknown = 0
        self.notes = {}

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1


class Explorer:
    """Depth-first path exploration by re-execution."""

    def __init__(self, query_timeout_ms=4000, lookup_model=True):
        self.stats = Stats()
        self.names = {}          # variable name -> vid
        self.vid_name = []
        self.qt = query_timeout_ms
        self.unsat_cache = {}

    # -- variables
    def vid(self, name):
        v = self.names.get(name)
        if v is None:
            v = self.names[name] = len(self.vid_name)
            self.vid_name.append(name)
        return v

    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.weak_at = getattr(self, "weak_at", {})
        self.trace = []
        self.pc = []            # list of Cond
        self.pc_vars = []
        self.signs = {}         # poly key -> allowed signs
        self.decided = {}
        self.weak = {}
        self.sqrt_rad = {}
        self.cbrt_rad = {}
        self.sqrt_key = {}
        self.inputs = {}        # vid -> (name)
        self.choices = {}
        self.tokens = {}
        self.pending = []
        self.observed = []
        self.counter = 0
        self.model = {}
        self.model_ok = True
        self.input_log = []     # ordered (name, kind, payload)

    def token(self, r):
        k = "\u27e6%d\u27e7" % len(self.tokens)
        self.tokens[k] = r
        return k

    def input_real(self, name, lo=None, hi=None):
        v = self.vid(name)
        if v not in self.inputs:
            self.inputs[v] = name
            x = rpoly({((v, 1),): 1})
            lo_ = None if lo is None else (lo if isinstance(lo, R) else rconst(Fr(str(lo))))
            hi_ = None if hi is None else (hi if isinstance(hi, R) else rconst(Fr(str(hi))))
            m = Fr(0)
            if lo_ is not None and hi_ is not None:
                m = lo_.c + (hi_.c - lo_.c) * Fr(3 + (v * 5) % 7, 13)
            elif lo_ is not None:
                m = lo_.c + 1
            elif hi_ is not None:
                m = hi_.c - 1
            self.model[v] = m
            self.input_log.append((name, v))
            if lo_ is not None:
                self.assume(x >= lo_)
            if hi_ is not None:
                self.assume(x <= hi_)
            return x
        return rpoly({((v, 1),): 1})

    def fresh(self, name):
        self.counter += 1
        v = self.vid("%s#%d" % (name, self.counter))
        self.model[v] = Fr(0)
        return v

    def fresh_in(self, name, bound):
        """A new number with absolute value up to the bound."""
        x = rpoly({((self.fresh(name), 1),): 1})
        self.assume(x >= -bound)
        self.assume(x <= bound)
        return x

    def sqrt_atom(self, rad):
        k = p_key(rad)
        v = self.sqrt_key.get(k)
        if v is None:
            self.counter += 1
            v = self.vid("sqrt#%d" % self.counter)
            # atoms must be younger than the atoms inside their radicand: vids grow with creation,
            # but re-used names of earlier paths keep the order of creation along the path
            while any(u in self.sqrt_rad and u > v for u in p_vars(rad)):
                self.counter += 1
                v = self.vid("sqrt#%d" % self.counter)
            self.sqrt_key[k] = v
            self.sqrt_rad[v] = rad
        return v

    def sum_of_squares(self, s):
        if s.c is None and s.d is None and not any(v in self.sqrt_rad for v in p_vars(s.n)):
            self._add(sign_cond(s.n, _GE), implied=True)

    def unsupported(self, what):
        raise Unsupported(what)

    def cbrt_atom(self, x):
        k = ("cbrt", rkey(x))
        v = self.sqrt_key.get(k)
        if v is None:
            v = self.sqrt_key[k] = rpoly({((self.fresh("cbrt"), 1),): 1})
            u = next(iter(v.n))[0][0]
            try:
                self.model[u] = Fr(float(p_eval(x.n, self.model) / (p_eval(x.d, self.model) if x.d is not None else 1)) ** (1 / 3)).limit_denominator(10 ** 9)
            except Exception:
                self.model[u] = Fr(1)
            self._add(to_cond(v >= 0))
            self._add(to_cond(v * v * v == x))
            if x.d is None:
                self.cbrt_rad[u] = x.n
        return v

    def transcendental(self, name, x):
        raise Unsupported(name + " of a symbolic value")

    def angle_cos_sin(self, a):
        if not a.t:
            k = a.k % 2
            tab = {Fr(0): (1, 0), Fr(1, 2): (0, 1), Fr(1): (-1, 0), Fr(3, 2): (0, -1)}
            if k in tab:
                return rconst(Fr(tab[k][0])), rconst(Fr(tab[k][1]))
        if len(a.t) == 1 and a.k.denominator in (1, 2) and abs(a.t[0][0]) == 1:
            c, x, y = a.t[0]
            r = (x * x + y * y).sqrt()
            co, si = x / r, (y / r) * rconst(Fr(c))
            for _ in range(int(2 * (a.k % 2))):
                co, si = -si, co
            return co, si
        raise Unsupported("trigonometry of a symbolic angle")

    # -- constraints
    def _add(self, c, implied=False):
        """c holds on this path from now on (implied: it follows from the path condition already)."""
        if c.kind == "c":
            return
        if c.kind == "a":
            for x in c.args:
                self._add(x, implied)
            return
        if c.kind == "s":
            k = p_key(c.p)
            self.signs[k] = self.signs.get(k, frozenset((-1, 0, 1))) & c.sg
        else:
            self.decided[cond_key(c)] = True
        if implied:
            return
        self.pc.append(c)
        self.pc_vars.append(c.vars())

    def known(self, c):
        """True/False/None from syntactic knowledge on the path."""
        if c.kind == "c":
            return c.p
        if c.kind == "s":
            s = self.signs.get(p_key(c.p))
            if s is None:
                s = self._simple_sign(c.p)
            if s is not None:
                if s <= c.sg:
                    return True
                if not (s & c.sg):
                    return False
            return None
        r = self.decided.get(cond_key(c))
        if r is not None:
            return r
        ks = [self.known(x) for x in c.args]
        if c.kind == "a":
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        else:
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        return None

    @staticmethod
    def _simple_sign(p):
        """even monomials with one coefficient sign"""
        if all(all(e % 2 == 0 for v, e in m) for m in p):
            if all(c > 0 for c in p.values()):
                return _GT if ONE in p else _GE
            if all(c < 0 for c in p.values()):
                return _LT if ONE in p else _LE
        return None

    def weak_sign(self, p):
        """1 if p >= 0 on the path, -1 if p <= 0, 0 if zero, None if not decided."""
        if p_is_const(p):
            v = p_cval(p)
            return (v > 0) - (v < 0)
        k = p_key(p)
        if k in self.weak:
            return self.weak[k]
        kk = (tuple(self.trace), k)      # the same answer when the path is executed again
        if kk in self.weak_at:
            w = self.weak[k] = self.weak_at[kk]
            return w
        w = None
        if len(p) <= 60:
            for g, sg, bad in ((1, _GE, _LT), (-1, _LE, _GT)):
                if self.known(sign_cond(p, sg)) is True:
                    w = g
                    break
            else:
                for g, bad in ((1, _LT), (-1, _GT)):
                    c = sign_cond(p, bad)
                    rel, vs = self.relevant(c.vars())
                    if self.query(rel + [c], timeout=1000)[0] == "unsat":
                        w = g
                        break
        self.weak[k] = self.weak_at[kk] = w
        return w

    def relevant(self, vs):
        """conditions of the path connected to the variables vs"""
        vs = set(vs)
        todo = list(range(len(self.pc)))
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for i in todo:
                if self.pc_vars[i] & vs:
                    out.append(i)
                    if not self.pc_vars[i] <= vs:
                        vs |= self.pc_vars[i]
                    changed = True
                else:
                    rest.append(i)
            todo = rest
        return [self.pc[i] for i in sorted(out)], vs

    def query(self, conds, timeout=None):
        """'sat' (with model dict) / 'unsat' / 'unknown' of the conjunction of conds."""
        t0 = time.time()
        self.stats.queries += 1
        deg = max([c_degree(c) for c in conds], default=0)
        es = [cond_z3(c) for c in conds]
        to = timeout or self.qt
        res, mod = "unknown", None
        if deg <= 1:
            order = ("QF_LRA",)
        else:
            order = ("QF_NRA", None)
        for logic in order:
            s = z3.SolverFor(logic) if logic else z3.Solver()
            s.set("timeout", to)
            s.add(es)
            r = s.check()
            if r == z3.sat:
                res = "sat"
                mod = s.model()
                break
            if r == z3.unsat:
                res = "unsat"
                break
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        return res, mod

    def read_model(self, mod, vs):
        """-> (assignment dict for vs, exact?)"""
        out = {}
        exact = True
        for v in vs:
            e = mod.eval(z3var(v), model_completion=True)
            if z3.is_rational_value(e):
                out[v] = Fr(e.numerator_as_long(), e.denominator_as_long())
            elif z3.is_algebraic_value(e):
                a = e.approx(30)
                out[v] = Fr(a.numerator_as_long(), a.denominator_as_long())
                exact = False
            else:
                out[v] = Fr(0)
                exact = False
        return out, exact

    def sat_with(self, c, want_model=True):
        """Is path /\\ c satisfiable?  On sat updates nothing; returns (res, model or None, exact)."""
        rel, vs = self.relevant(c.vars())
        res, mod = self.query(rel + [c])
        if res != "sat":
            return res, None, False
        m, exact = self.read_model(mod, vs | c.vars())
        return res, m, exact

    def branch(self, c):
        k = self.known(c)
        if k is not None:
            return k
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(ent)
            val = ent in ("T", "t")
            self._add(c if val else ~c, implied=ent in ("t", "f"))
            if self.pos == len(self.prefix):
                self._refresh_model()
            return val
        self.pos += 1
        mv = None
        if self.model_ok:
            mv = c.eval(self.model)
        if mv is None:
            r1, m1, e1 = self.sat_with(c)
            r0, m0, e0 = self.sat_with(~c)
            t, f = r1 != "unsat", r0 != "unsat"
            if not t and not f:
                raise PathAbort("infeasible path")
        elif mv:
            t, m1, e1 = True, {}, True
            r0, m0, e0 = self.sat_with(~c)
            f = r0 != "unsat"
        else:
            f, m0, e0 = True, {}, True
            r1, m1, e1 = self.sat_with(c)
            t = r1 != "unsat"
        if t and f:
            self.stats.forks += 1
            val = True if mv is None else mv
            self.pending.append(self.trace + ["F" if val else "T"])
            self.trace.append("T" if val else "F")
            self._add(c if val else ~c)
        else:
            val = t
            self.trace.append("t" if val else "f")
            self._add(c if val else ~c, implied=True)
        if mv is None:
            self._take(m1 if val else m0, e1 if val else e0)
        return val

    def _take(self, m, exact):
        if m is None:
            self.model_ok = False
            return
        self.model.update(m)
        self.model_ok = exact

    def _refresh_model(self):
        """Find a model of the current path (after following a prefix)."""
        if not self.pc:
            return
        vs = set()
        for s in self.pc_vars:
            vs |= s
        # by connected components, so that a hard part does not spoil the rest
        left = set(vs)
        ok = True
        while left:
            rel, comp = self.relevant({next(iter(left))})
            left -= comp
            if all(c.eval(self.model) for c in rel):
                continue
            res, mod = self.query(rel)
            if res == "unsat":
                raise PathAbort("infeasible path")
            if res == "unknown":
                ok = False
                continue
            m, exact = self.read_model(mod, comp)
            self.model.update(m)
            ok = ok and exact
        self.model_ok = ok

    def choose(self, name, n):
        """Non-deterministic choice of 0..n-1 (all values explored)."""
        if n <= 0:
            raise PathAbort("empty choice")
        if n == 1:
            self.choices[name] = 0
            return 0
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            if self.pos == len(self.prefix):
                self._refresh_model()
        else:
            self.pos += 1
            val = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
            self.stats.forks += n - 1
            self.trace.append(0)
        self.choices[name] = val
        return val

    def floor(self, r):
        """integer part, forking over the feasible values (at most 64)"""
        tried = set()
        for _ in range(64):
            k = None
            if self.model_ok:
                try:
                    k = math.floor(p_eval(r.n, self.model) / (p_eval(r.d, self.model) if r.d else 1))
                except (KeyError, ZeroDivisionError):
                    k = self._approx_floor(r)
                n = 0
                while k in tried and n < 8:
                    n = -n if n > 0 else 1 - n
                    k += n if k + n not in tried else 0
                tried.add(k)
            # the candidate must be a function of the decisions only (re-execution): take it through choose-like record
            if self.pos < len(self.prefix):
                k = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(k)
                if self.pos == len(self.prefix):
                    self._refresh_model()
            else:
                if k is None:
                    raise Unsupported("floor without a model")
                self.pos += 1
                self.trace.append(k)
            if bool((r >= k) & (r < k + 1)):
                return k
        raise Unsupported("floor of a widely ranging value")

    def _approx_floor(self, r):
        """integer part of r in the current model, roots evaluated approximately"""
        m = dict(self.model)
        try:
            for v in sorted(p_vars(r.num()) | (p_vars(r.d) if r.d else set()) | set(self.sqrt_rad)):
                if v in self.sqrt_rad and v not in m:
                    try:
                        m[v] = Fr(math.sqrt(max(0.0, float(p_eval(self.sqrt_rad[v], m)))))
                    except KeyError:
                        continue
            return math.floor(p_eval(r.n, m) / (p_eval(r.d, m) if r.d else 1))
        except (KeyError, ZeroDivisionError):
            return None

    def assume(self, c):
        c = to_cond(c)
        k = self.known(c)
        if k is True:
            return
        if k is False:
            raise PathAbort("assumption")
        if self.pos < len(self.prefix):
            self._add(c)          # feasible: it was when the prefix was recorded
            return
        if self.model_ok and c.eval(self.model):
            self._add(c)
            return
        res, m, exact = self.sat_with(c)
        if res == "unsat":
            raise PathAbort("assumption")
        self._add(c)
        self._take(m, exact)

    def check(self, c, msg):
        """Assertion: raise CheckFailed if path /\\ not c is satisfiable."""
        c = to_cond(c)
        k = self.known(c)
        if k is True:
            self.stats.checks_folded += 1
            return
        if k is False:
            raise CheckFailed(msg, None)
        if self.pos < len(self.prefix):
            return               # decided when the prefix was first executed
        nc = ~c
        if self.model_ok and nc.eval(self.model):
            raise CheckFailed(msg, nc)
        res, m, exact = self.sat_with(nc)
        if res == "unsat":
            self.stats.checks_solver += 1
            return
        if res == "unknown":
            self.stats.checks_unknown += 1
            return
        raise CheckFailed(msg, nc)

    def models(self, extra=None):
        """
        Candidate input assignments of path /\\ extra, most robust first
        (margins on the inequalities), for replay on the real code.
        """
        base = list(self.pc) + ([extra] if extra is not None else [])
        seen = []
        for eps in (Fr(1, 20), Fr(1, 1000), Fr(1, 10 ** 6), None):
            cs = base if eps is None else [c.strengthen(eps) for c in base]
            cs = [c for c in cs if not (c.kind == "c" and c.p)]
            if any(c.kind == "c" for c in cs):
                continue
            vs = set()
            for c in cs:
                vs |= c.vars()
            res, mod = self.query(cs, timeout=6000)
            if res != "sat":
                continue
            m, exact = self.read_model(mod, vs)
            mm = {n: m.get(v, self.model.get(v, Fr(0))) for n, v in self.input_log}
            if mm not in seen:
                seen.append(mm)
        return seen
