"""numpy / math / builtins stand-ins that keep symbolic reals symbolic (object arrays)."""
import builtins
import cmath
import math
import types
from fractions import Fraction as Fr

import numpy as np

from . import core
from .core import R, Ang, Cond, SymComplex, lift, rconst, atan2, Unsupported

PI = Ang((), Fr(1))


# ------------------------------------------------------------ builtin types
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, R, Ang))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, R))

    def __call__(cls, x=0.0):
        return to_float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FloatMeta):
    """float: symbolic reals are floats; numbers are lifted to exact rationals."""


def to_float(x):
    if isinstance(x, (R, Ang)):
        return x
    if isinstance(x, str):
        s = x.strip()
        t = core.EX().tokens
        if s in t:
            return t[s]
        if len(s) > 1 and s[0] in "+-" and s[1:] in t:
            return t[s[1:]] if s[0] == "+" else -t[s[1:]]
        x = builtins.float(s)
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return to_float(x.reshape(-1)[0])
    v = lift(x)
    if v is None:
        return builtins.float(x)
    return v


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, str) and not a:
            s = x.strip()
            t = core.EX().tokens
            if s in t:
                v = t[s]
                if v.is_integer():
                    return builtins.int(v.c)
                raise ValueError("invalid literal for int() with base 10: %r" % x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(*a, **k):
        return builtins.int.from_bytes(*a, **k)


def complex_(re=0, im=0):
    if isinstance(re, R) or isinstance(im, R) or isinstance(re, Cond):
        return SymComplex(re, im)
    return SymComplex(lift(re), lift(im))


def is_num(x):
    return isinstance(x, (builtins.int, builtins.float, Fr, np.number, np.bool_))


def _lift_el(x):
    if isinstance(x, (R, Ang)):
        return x
    v = lift(x)
    return x if v is None else v


_lift_uf = np.frompyfunc(_lift_el, 1, 1)


def olift(a):
    """Array of reals with exact elements."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        pass
    else:
        a = np.asarray(_plain(a), dtype=object) if not isinstance(a, np.ndarray) else a.astype(object)
    if a.ndim == 0:
        r = np.empty((), dtype=object)
        r[()] = _lift_el(a.item() if a.dtype != object else a[()])
        return r
    if a.size == 0:
        return a.astype(object)
    return _lift_uf(a).astype(object)


def _plain(x):
    """np.array-able structure (iterators of maps etc. stay as numpy sees them)."""
    return x


def _fdt(dtype):
    return dtype is float_ or dtype is builtins.float or dtype in (np.float64, np.double, np.float32, "float", "f8", "d") \
        if not isinstance(dtype, np.dtype) else dtype.kind == "f"


def _idt(dtype):
    return builtins.int if dtype is int_ else dtype


def div(a, b):
    """True division of the source: exact on integers."""
    if is_num(a) and is_num(b):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return a / b
        return la / lb
    if isinstance(a, np.ndarray) and a.dtype.kind in "iufb":
        a = olift(a)
    if isinstance(b, np.ndarray) and b.dtype.kind in "iufb":
        b = olift(b)
    if isinstance(a, np.ndarray) and is_num(b):
        b = _lift_el(b)
    if isinstance(b, np.ndarray) and is_num(a):
        a = _lift_el(a)
    return a / b


def idiv(a, b):
    if isinstance(a, np.ndarray) and a.dtype == object:
        a /= b
        return a
    if isinstance(a, np.ndarray):
        a /= b          # numpy's own in-place behaviour (may raise a casting error)
        return a
    return div(a, b)


def power(a, b):
    if isinstance(b, np.ndarray) and not isinstance(a, np.ndarray):
        return np.array([power(a, k) for k in b.ravel().tolist()] + [None], dtype=object)[:-1].reshape(b.shape)
    if isinstance(a, builtins.int) and isinstance(b, builtins.int) and b < 0:
        return lift(a) ** b
    if isinstance(a, (builtins.float,)) or (isinstance(b, builtins.float) and is_num(a)):
        x = lift(a)
        if x is not None:
            return x ** b
    return a ** b


# ------------------------------------------------------------ min / max
OPT = {"minmax": "fork"}


def max2(a, b, sgn=1):
    a_, b_ = lift(a), lift(b)
    if a_ is None or b_ is None:
        if isinstance(a, Ang) or isinstance(b, Ang):
            return a if bool((a >= b) if sgn > 0 else (a <= b)) else b
        if a_ is None and isinstance(a, builtins.float):
            if math.isnan(a):
                return a
            return a if (a > 0) == (sgn > 0) else b
        if b_ is None and isinstance(b, builtins.float):
            if math.isnan(b):
                return b
            return b if (b > 0) == (sgn > 0) else a
        return a if bool((a >= b) if sgn > 0 else (a <= b)) else b
    if b_.c is not None and a_.c is None:
        a_, b_ = b_, a_     # a tie gives the constant
    c = (a_ >= b_) if sgn > 0 else (a_ <= b_)
    if not isinstance(c, Cond):
        return a_ if c else b_
    k = core.EX().known(c)
    if k is not None:
        return a_ if k else b_
    if OPT["minmax"] == "atom" and a_.d is None and b_.d is None:
        ex = core.EX()
        sq = ex.sqrt_rad
        if not any(v in sq for v in core.p_vars(a_.num()) | core.p_vars(b_.num())):
            return _mm_atom(a_, b_, sgn)
    return a_ if bool(c) else b_


def _mm_atom(a, b, sgn):
    ex = core.EX()
    key = ("mm", sgn) + tuple(sorted([repr(core.rkey(a)), repr(core.rkey(b))]))
    memo = ex.__dict__.setdefault("mm_memo", {})
    if memo.get("path") is not ex.trace:
        memo.clear()
        memo["path"] = ex.trace
    if key in memo:
        return memo[key]
    v = ex.fresh("mm")
    m = core.rpoly({((v, 1),): 1})
    va, vb = core.p_eval(a.num(), ex.model), core.p_eval(b.num(), ex.model)
    ex.model[v] = max(va, vb) if sgn > 0 else min(va, vb)
    if sgn > 0:
        ex._add(core.to_cond(m >= a) & core.to_cond(m >= b))
    else:
        ex._add(core.to_cond(m <= a) & core.to_cond(m <= b))
    ex._add(core.to_cond(m == a) | core.to_cond(m == b))
    memo[key] = m
    return m


_max_uf = np.frompyfunc(lambda a, b: max2(a, b, 1), 2, 1)
_min_uf = np.frompyfunc(lambda a, b: max2(a, b, -1), 2, 1)


def _reduce(uf):
    def f(a, axis=None, **kw):
        if not isinstance(a, np.ndarray):
            a = NP.array(a)
        if a.dtype != object:
            r = (np.max if uf is _max_uf else np.min)(a, axis=axis)
            return r if a.dtype.kind in "iub" else (olift(r) if isinstance(r, np.ndarray) else _lift_el(r))
        if a.size == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        keep = kw.get("keepdims", False)
        r = a
        for ax in sorted(((x + a.ndim) % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))), reverse=True):
            r = uf.reduce(r, axis=ax)
        if keep:
            r = np.expand_dims(np.asarray(r, dtype=object), axis)
        return r
    return f


# ------------------------------------------------------------ linear algebra
class LinAlgError(ValueError):
    pass


class _LA(types.SimpleNamespace):
    pass


def norm(x, ord=None, axis=None, keepdims=False):
    a = olift(np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x)
    if axis is None:
        v = a.reshape(-1)
        sp = [e for e in v if isinstance(e, builtins.float)]
        if sp:
            return math.nan if any(math.isnan(e) for e in sp) else math.inf
        if ord in (None, 2, "fro"):
            s = rconst(Fr(0))
            for e in v:
                s = s + e * e
            core.EX().sum_of_squares(s)
            return s.sqrt()
        if ord == np.inf:
            return _reduce(_max_uf)(np.abs(v))
        if ord == 1:
            return np.sum(np.abs(v))
        raise Unsupported("norm ord %r" % (ord,))
    if ord not in (None, 2):
        raise Unsupported("norm ord %r" % (ord,))
    s = np.sum(a * a, axis=axis, keepdims=keepdims)
    return np.frompyfunc(lambda e: lift(e).sqrt(), 1, 1)(s)


def det(A):
    A = olift(A)
    n = A.shape[-1]
    if A.ndim > 2:
        return np.array([det(x) for x in A], dtype=object)
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = rconst(Fr(0))
    for j in range(n):
        e = lift(A[0, j])
        if e.c == 0:
            continue
        m = np.delete(A[1:], j, axis=1)
        s = s + e * det(m) * ((-1) ** j)
    return s


def svd(A, full_matrices=True, compute_uv=True, hermitian=False):
    """Only for vectors of one plane in the space: the last right singular vector is a unit normal (of either sign)."""
    A = olift(A)
    if A.ndim != 2 or A.shape[1] != 3 or not compute_uv:
        raise Unsupported("svd")
    nrm = None
    for i in range(A.shape[0]):
        for j in range(i):
            a, b = A[i], A[j]
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            if nrm is None and any(bool(x != 0) for x in c):
                nrm = c
    if nrm is None:
        raise Unsupported("svd of a matrix of rank less than two")
    for i in range(A.shape[0]):
        if not bool(A[i, 0] * nrm[0] + A[i, 1] * nrm[1] + A[i, 2] * nrm[2] == 0):
            raise Unsupported("svd of a regular matrix")
    r = (nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]).sqrt()
    sg = (1, -1)[core.EX().choose("svd sign", 2)]
    none = float("nan")
    v = np.array([[none] * 3, [none] * 3, [sg * x / r for x in nrm]], dtype=object)
    return None, None, v


def solve(A, b):
    A, b = olift(A).copy(), olift(b).copy()
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    if n == 2:
        d = det(A)
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        rd = lift(d).recip()
        inv = np.array([[A[1, 1] * rd, -A[0, 1] * rd], [-A[1, 0] * rd, A[0, 0] * rd]], dtype=object)
        return inv.dot(b)
    one = b.ndim == 1
    if one:
        b = b.reshape(n, 1)
    for i in range(n):
        piv = None
        for k in range(i, n):
            if lift(A[k, i]).c not in (None, 0):
                piv = k
                break
        if piv is None:
            for k in range(i, n):
                if bool(A[k, i] != 0):
                    piv = k
                    break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if piv != i:
            A[[i, piv]] = A[[piv, i]]
            b[[i, piv]] = b[[piv, i]]
        r = lift(A[i, i]).recip()
        A[i] = A[i] * r
        b[i] = b[i] * r
        for k in range(n):
            if k != i and lift(A[k, i]).c != 0:
                f = A[k, i]
                A[k] = A[k] - f * A[i]
                b[k] = b[k] - f * b[i]
    return b[:, 0] if one else b


def inv(A):
    n = np.shape(A)[0]
    I = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            I[i, j] = rconst(Fr(int(i == j)))
    return solve(A, I)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


LA = _LA(norm=norm, det=det, solve=solve, svd=svd, inv=inv, LinAlgError=np.linalg.LinAlgError,
         lstsq=_unsup("lstsq"), eig=_unsup("eig"), eigh=_unsup("eigh"), qr=_unsup("qr"),
         pinv=_unsup("pinv"), cond=_unsup("cond"), matrix_rank=_unsup("matrix_rank"))


# ------------------------------------------------------------ numpy
class Numpy:
    def __init__(self):
        self.linalg = LA
        self.pi = PI
        self.float64 = float_
        self.double = float_
        self.inf = math.inf

    def __getattr__(self, name):
        return getattr(np, name)

    # creation
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        dtype = _idt(dtype)
        if dtype is not None and _fdt(dtype):
            a = np.array(x, dtype=object, ndmin=ndmin)
            if a.ndim and a.size and any(isinstance(e, (list, tuple)) for e in a.reshape(-1)):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            if any(isinstance(e, str) for e in a.reshape(-1)):
                b = np.empty(a.shape, dtype=object)
                for i, e in np.ndenumerate(a):
                    b[i] = to_float(e)
                return b
            if any(e is None for e in a.reshape(-1)):
                raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
            return olift(a)
        if dtype is not None:
            return np.array(x, dtype=dtype, ndmin=ndmin, **k)
        if isinstance(x, R):
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        if not isinstance(x, (list, tuple, np.ndarray)) and hasattr(x, "__iter__") and not hasattr(x, "__len__"):
            return np.array(x, ndmin=ndmin)
        a = np.array(x, ndmin=ndmin)
        if a.dtype.kind == "f":
            return olift(a)
        if a.dtype == object:
            els = a.reshape(-1)
            if any(isinstance(e, (R, builtins.float, np.floating)) for e in els) and \
                    all(isinstance(e, (R, Ang)) or is_num(e) for e in els):
                return olift(a)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == object and (dtype is None or _fdt(dtype)):
            return x
        return self.array(x, dtype=dtype)

    asanyarray = asarray
    ascontiguousarray = asarray
    asfarray = asarray

    def _full(self, shape, val, dtype):
        dtype = _idt(dtype)
        if dtype is None or _fdt(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(val)
            return a
        return None

    def zeros(self, shape, dtype=None, order="C", **k):
        a = self._full(shape, rconst(Fr(0)), dtype)
        return np.zeros(shape, _idt(dtype)) if a is None else a

    def ones(self, shape, dtype=None, order="C", **k):
        a = self._full(shape, rconst(Fr(1)), dtype)
        return np.ones(shape, _idt(dtype)) if a is None else a

    def empty(self, shape, dtype=None, order="C", **k):
        a = self._full(shape, rconst(Fr(0)), dtype)
        return np.empty(shape, _idt(dtype)) if a is None else a

    def full(self, shape, v, dtype=None, **k):
        if dtype is None and isinstance(v, (builtins.int, bool)) and not isinstance(v, R):
            return np.full(shape, v)
        if dtype is None or _fdt(_idt(dtype)):
            a = np.empty(shape, dtype=object)
            a[...] = olift(np.asarray(v, dtype=object)) if isinstance(v, (np.ndarray, list, tuple)) else _lift_el(v)
            return a
        return np.full(shape, v, _idt(dtype))

    def zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in "iub":
            return np.zeros_like(a)
        return self.zeros(a.shape, dtype)

    def ones_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in "iub":
            return np.ones_like(a)
        return self.ones(a.shape, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.shape(a), v, dtype)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        e = np.eye(n, m, k, dtype=builtins.int)
        return olift(e) if dtype is None or _fdt(_idt(dtype)) else e.astype(_idt(dtype))

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def diag(self, v, k=0):
        v = np.asarray(v)
        if v.ndim == 1 and v.dtype == object:
            n = len(v) + abs(k)
            a = self.zeros((n, n))
            for i, e in enumerate(v):
                a[i + max(-k, 0), i + max(k, 0)] = e
            return a
        return np.diag(v, k)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        num = builtins.int(num)
        n = num - 1 if endpoint else num
        A, B = (olift(x) if isinstance(x, (np.ndarray, list, tuple)) else _lift_el(x) for x in (a, b))
        out = []
        for i in range(num):
            out.append(A + (B - A) * rconst(Fr(i, n)) if n else A)
        r = np.empty((num,) + np.shape(out[0]) if num else (0,), dtype=object)
        for i, e in enumerate(out):
            r[i] = e
        step = (B - A) * rconst(Fr(1, n)) if n else math.nan
        return (r, step) if retstep else r

    def arange(self, *a, dtype=None):
        if all(isinstance(x, (builtins.int, np.integer)) for x in a):
            r = np.arange(*a)
            return olift(r) if dtype is not None and _fdt(_idt(dtype)) else r
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        lo, hi, st = lift(lo), lift(hi), lift(st)
        n = -(((lo - hi) / st).floor_int())
        r = np.empty(max(n, 0), dtype=object)
        for i in range(n):
            r[i] = lo + st * i
        return r

    def meshgrid(self, *xs, **k):
        return np.meshgrid(*[np.asarray(x) for x in xs], **k)

    # min/max
    max = amax = nanmax = staticmethod(_reduce(_max_uf))
    min = amin = nanmin = staticmethod(_reduce(_min_uf))

    def maximum(self, a, b, **k):
        return self._mm(a, b, _max_uf, np.maximum)

    def minimum(self, a, b, **k):
        return self._mm(a, b, _min_uf, np.minimum)

    fmax, fmin = maximum, minimum

    def _mm(self, a, b, uf, real):
        if not _sym(a) and not _sym(b):
            return real(a, b)
        return uf(a, b)

    def clip(self, a, lo, hi, **k):
        return self.minimum(self.maximum(a, lo), hi)

    # elementwise
    def _el(self, meth, x, fn):
        if isinstance(x, (R, Ang)):
            return fn(x)
        if isinstance(x, np.ndarray) and x.ndim:
            return np.frompyfunc(fn, 1, 1)(olift(x))
        if isinstance(x, (list, tuple)):
            return np.frompyfunc(fn, 1, 1)(olift(self.array(x)))
        v = _lift_el(x.item() if isinstance(x, np.ndarray) else x)
        return fn(v)

    def sqrt(self, x, **k):
        return self._el("sqrt", x, lambda v: lift(v).sqrt())

    def square(self, x, **k):
        return x * x if isinstance(x, (np.ndarray, R)) else np.square(x)

    def abs(self, x, **k):
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.frompyfunc(builtins.abs, 1, 1)(x)
        return builtins.abs(x)

    absolute = fabs = abs

    def sign(self, x, **k):
        return self._el("sign", x, lambda v: lift(v).sign())

    def floor(self, x, **k):
        return self._el("floor", x, lambda v: lift(v).floor())

    def ceil(self, x, **k):
        return self._el("ceil", x, lambda v: lift(v).ceil())

    def round(self, x, decimals=0, **k):
        return self._el("round", x, lambda v: lift(lift(v).__round__(decimals or None)))

    around = rint = round

    def cos(self, x, **k):
        return self._el("cos", x, _cos)

    def sin(self, x, **k):
        return self._el("sin", x, _sin)

    def tan(self, x, **k):
        return self._el("tan", x, lambda v: _sin(v) / _cos(v))

    def hypot(self, a, b):
        return self.sqrt(a * a + b * b)

    def arctan2(self, y, x):
        if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
            return np.frompyfunc(atan2, 2, 1)(y, x)
        return atan2(y, x)

    def angle(self, z, deg=False):
        if isinstance(z, SymComplex):
            return z.angle()
        if isinstance(z, complex):
            return atan2(lift(z.imag), lift(z.real))
        raise Unsupported("np.angle")

    def isnan(self, x):
        f = lambda v: isinstance(v, builtins.float) and math.isnan(v)
        if isinstance(x, np.ndarray):
            return np.frompyfunc(f, 1, 1)(x).astype(bool) if x.size else np.zeros(x.shape, bool)
        return f(x)

    def isfinite(self, x):
        f = lambda v: not (isinstance(v, builtins.float) and (math.isnan(v) or math.isinf(v)))
        if isinstance(x, np.ndarray):
            return np.frompyfunc(f, 1, 1)(x).astype(bool)
        return f(x)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        f = np.frompyfunc(lambda p, q: bool(builtins.abs(lift(p) - lift(q)) <=
                                            lift(atol) + lift(rtol) * builtins.abs(lift(q))), 2, 1)
        r = f(a if not isinstance(a, (list, tuple)) else self.array(a),
              b if not isinstance(b, (list, tuple)) else self.array(b))
        return r.astype(bool) if isinstance(r, np.ndarray) else r

    def allclose(self, a, b, **k):
        return bool(np.all(self.isclose(a, b, **k)))

    def array_equal(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))

    # reductions with exact division
    def mean(self, a, axis=None, **k):
        a = olift(a if isinstance(a, np.ndarray) else self.array(a))
        n = a.size if axis is None else a.shape[axis]
        return np.sum(a, axis=axis) * rconst(Fr(1, n))

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis)
        a, w = olift(self.asarray(a)), olift(self.asarray(weights))
        if axis is None:
            return np.sum(a * w) / np.sum(w)
        if w.ndim == 1:
            sh = [1] * a.ndim
            sh[axis] = len(w)
            w = w.reshape(sh)
            tot = np.sum(w)
        else:
            tot = np.sum(w, axis=axis)
        return np.sum(a * w, axis=axis) / tot

    def cross(self, a, b, **k):
        return np.cross(olift(self.asarray(a)), olift(self.asarray(b)), **k)

    def true_divide(self, a, b):
        return div(a, b)

    divide = true_divide

    def einsum(self, s, *ops, **k):
        k.pop("optimize", None)
        return np.einsum(s, *[olift(self.asarray(o)) for o in ops], **k)

    def dot(self, a, b):
        return np.dot(self._ol(a), self._ol(b))

    def _ol(self, a):
        return a if isinstance(a, (R, np.ndarray)) else self.array(a)

    def where(self, c, *ab):
        c = np.asarray(c)
        if c.dtype == object:
            c = np.frompyfunc(bool, 1, 1)(c).astype(bool)
        return np.where(c, *ab)

    def logical_and(self, a, b, **k):
        return self._log(a, b, np.logical_and)

    def logical_or(self, a, b, **k):
        return self._log(a, b, np.logical_or)

    def _log(self, a, b, f):
        r = f(a, b)
        return r.astype(bool) if isinstance(r, np.ndarray) and r.dtype == object else (
            bool(r) if isinstance(r, Cond) else r)

    def repeat(self, a, n, axis=None):
        if isinstance(n, np.ndarray) and n.dtype == object:
            n = np.array([int(bool(x)) if isinstance(x, (Cond, bool, np.bool_)) else int(x) for x in n.reshape(-1)], dtype=int)
        return np.repeat(a, n, axis)

    def logical_not(self, a, **k):
        a = np.asarray(a)
        return np.logical_not(a.astype(bool))

    def any(self, a, *r, **k):
        return np.any(_bools(a), *r, **k)

    def all(self, a, *r, **k):
        return np.all(_bools(a), *r, **k)

    def searchsorted(self, a, v, side="left", sorter=None):
        a = list(a)

        def one(x):
            lo = 0
            for i, e in enumerate(a):
                if bool(e < x) if side == "left" else bool(e <= x):
                    lo = i + 1
                else:
                    break
            return lo
        if isinstance(v, (np.ndarray, list, tuple)):
            return np.array([one(x) for x in v], dtype=builtins.int)
        return one(v)


def _bools(a):
    a = np.asarray(a)
    return np.frompyfunc(bool, 1, 1)(a).astype(bool) if a.dtype == object and a.size else a.astype(bool)


def _sym(a):
    if isinstance(a, (R, Ang)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_sym(x) for x in a)
    return False


def _cos(v):
    if isinstance(v, Ang):
        return v.cos()
    if lift(v).c == 0:
        return rconst(Fr(1))
    return core.EX().transcendental("cos", v)


def _sin(v):
    if isinstance(v, Ang):
        return v.sin()
    if lift(v).c == 0:
        return rconst(Fr(0))
    return core.EX().transcendental("sin", v)


NP = Numpy()


class Math:
    pi = PI
    inf = math.inf
    nan = math.nan
    sqrt = staticmethod(lambda x: lift(x).sqrt())
    fabs = staticmethod(lambda x: builtins.abs(lift(x)))
    hypot = staticmethod(lambda *a: sum((lift(x) * lift(x) for x in a), rconst(Fr(0))).sqrt())
    atan2 = staticmethod(atan2)
    cos = staticmethod(_cos)
    sin = staticmethod(_sin)
    floor = staticmethod(lambda x: lift(x).floor_int())
    ceil = staticmethod(lambda x: -((-lift(x)).floor_int()))
    isnan = staticmethod(lambda x: NP.isnan(x))
    isinf = staticmethod(lambda x: isinstance(x, builtins.float) and math.isinf(x))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
        builtins.abs(lift(a) - lift(b)) <= max2(lift(rel_tol) * max2(builtins.abs(lift(a)), builtins.abs(lift(b))), abs_tol)))

    def __getattr__(self, name):
        return getattr(math, name)


MATH = Math()


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


def no_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is not None:
        file.write((" " if sep is None else sep).join(str(a) for a in args) + ("\n" if end is None else end))


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], R):
            return float_
        return builtins.type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.type

    def __hash__(cls):
        return hash(builtins.type)


class type_(metaclass=_TypeMeta):
    """type: of a symbolic real it is float."""


BUILTINS = {"float": float_, "int": int_, "complex": complex_, "print": no_print, "type": type_}
