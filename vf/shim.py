"""numpy / math / scipy stand-ins that accept symbolic reals.

The stand-ins are put in the global namespaces of the repository's modules
while a harness runs symbolically (see :func:`patched`); the code that runs is
the repository's own.
"""

from __future__ import annotations

import builtins
import cmath
import contextlib
import itertools
import math
import sys
import types

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.special

from . import sym as S
from .sym import Sym, SymBool, SymC, lift

# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

_FLOAT_DT = (np.float64, np.float32, float, "float64", "float", "f8", "d",
             np.complex128, complex, np.double, "complex128", np.floating)


class SymArray(np.ndarray):
    """Object array of symbolic reals."""

    def astype(self, dtype, *a, **k):
        if _is_float_dt(dtype):
            return self.copy()
        return super().astype(_real_dt(dtype), *a, **k)

    def __array_finalize__(self, obj):
        pass

    # reductions that numpy would do in C with NaN handling etc.
    def sum(self, axis=None, **k):
        return _sum(self, axis=axis, **_only(k, "keepdims"))

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return _sum(self, axis=axis) / n

    def prod(self, axis=None, **k):
        return _reduce(self, lambda a, b: a * b, 1.0, axis)

    def max(self, axis=None, **k):
        return _reduce(self, _max2, None, axis)

    def min(self, axis=None, **k):
        return _reduce(self, _min2, None, axis)

    def any(self, axis=None, **k):
        return np.any(_boolify(self), axis=axis)

    def all(self, axis=None, **k):
        return np.all(_boolify(self), axis=axis)

    def std(self, axis=None, ddof=0, **k):
        return _std(self, axis=axis, ddof=ddof)

    @property
    def real(self):
        return _umap1(self, lambda x: x.re if isinstance(x, SymC) else _real(x))

    @property
    def imag(self):
        return _umap1(self, lambda x: x.im if isinstance(x, SymC) else _imag(x))

    def conj(self):
        return _umap1(self, lambda x: x.conjugate())

    conjugate = conj

    def dot(self, o):
        return np.dot(np.asarray(self, dtype=object), np.asarray(o, dtype=object)).view(SymArray)


def _only(k, *names):
    return {n: k[n] for n in names if n in k}


def _real(x):
    return x.real if isinstance(x, complex) else x


def _imag(x):
    return x.imag if isinstance(x, complex) else 0.0


def _is_float_dt(dt):
    if dt is None:
        return False
    if isinstance(dt, type) and issubclass(dt, _FloatLike):
        return True
    if dt is object or (isinstance(dt, np.dtype) and dt == object):
        return True
    try:
        return np.issubdtype(np.dtype(dt), np.inexact)
    except TypeError:
        return False


def _real_dt(dt):
    if dt in (SymInt,):
        return int
    return dt


def _lift_el(x):
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return S.const(S.Fraction(int(x)))
    r = lift(x)
    return x if r is NotImplemented else r


def to_sym_array(a):
    """Any nested sequence of numbers -> SymArray with lifted float elements."""
    if isinstance(a, SymArray) and a.dtype == object:
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            src = a
        elif np.issubdtype(a.dtype, np.inexact):
            src = a.astype(object)
        else:
            return a
    elif isinstance(a, (Sym, SymC, float, complex, np.inexact)):
        src = np.empty((), dtype=object)
        src[()] = a
    else:
        src = _nested(a)
        if src.dtype != object:
            if np.issubdtype(src.dtype, np.inexact):
                src = src.astype(object)
            else:
                return src
    out = np.empty(src.shape, dtype=object)
    fl = out.reshape(-1)
    for i, x in enumerate(src.reshape(-1)):
        fl[i] = _lift_el(x)
    out = fl.reshape(src.shape)
    return out.view(SymArray)


def _nested(a):
    def shape_of(x):
        if isinstance(x, np.ndarray):
            return x.shape
        if isinstance(x, (list, tuple)):
            if len(x) == 0:
                return (0,)
            return (len(x),) + shape_of(x[0])
        if hasattr(x, "__len__") and not isinstance(x, (str, bytes, dict)):
            try:
                x = list(x)
                return (len(x),) + (shape_of(x[0]) if x else ())
            except TypeError:
                return ()
        return ()

    if isinstance(a, (map, filter, types.GeneratorType)):
        a = list(a)
    if not _has_sym(a):
        return np.array(a)
    sh = shape_of(a)
    out = np.empty(sh, dtype=object)
    for idx in itertools.product(*(range(n) for n in sh)):
        x = a
        for i in idx:
            x = x[i]
        if isinstance(x, np.ndarray) and x.shape == ():
            x = x[()]
        out[idx] = x
    if sh == ():
        out[()] = a
    return out


def _has_sym(a):
    if isinstance(a, (Sym, SymC, SymBool)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_has_sym(x) for x in a)
    return False


def has_sym(*xs):
    return any(_has_sym(x) for x in xs)


def _wrap(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArray)
        return x
    return x


def _umap1(x, f):
    """Elementwise map preserving scalar-ness."""
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        a = to_sym_array(x)
        if a.dtype != object:
            a = a.astype(object).view(SymArray)
        out = np.empty(a.shape, dtype=object)
        fo = out.reshape(-1)
        for i, e in enumerate(a.reshape(-1)):
            fo[i] = f(e)
        out = fo.reshape(a.shape)
        if all(isinstance(e, (bool, np.bool_)) for e in fo) and fo.size:
            return out.astype(bool)
        return out.view(SymArray)
    return f(x)


def _umap2(x, y, f):
    sx = isinstance(x, (np.ndarray, list, tuple))
    sy = isinstance(y, (np.ndarray, list, tuple))
    if not sx and not sy:
        return f(x, y)
    a, b = np.broadcast_arrays(_oarr(x), _oarr(y))
    out = np.empty(a.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (p, q) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
        fo[i] = f(p, q)
    out = fo.reshape(a.shape)
    if fo.size and all(isinstance(e, (bool, np.bool_)) for e in fo):
        return out.astype(bool)
    return out.view(SymArray)


def _oarr(x):
    a = to_sym_array(x)
    if not isinstance(a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = a
        return b
    if a.dtype != object:
        a = a.astype(object)
    return np.asarray(a)


def _max2(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if a >= b else b


def _min2(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if a <= b else b


def _nan(a):
    return isinstance(a, float) and a != a


def _sum(a, axis=None, keepdims=False):
    a = _oarr(a)
    if axis is None:
        tot = 0.0
        for e in a.reshape(-1):
            tot = tot + e
        r = _lift_el(tot)
        return r
    r = np.add.reduce(a, axis=axis, keepdims=keepdims)
    return _wrap(np.asarray(r)) if isinstance(r, np.ndarray) else r


def _reduce(a, f, init, axis):
    a = _oarr(a)
    if axis is None:
        it = iter(a.reshape(-1))
        r = init
        for e in it:
            r = e if r is None else f(r, e)
        return r
    m = np.moveaxis(a, axis, 0)
    r = None
    for sl in m:
        r = sl if r is None else _umap2(r, sl, f)
    return _wrap(r)


def _boolify(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.array([bool(e) for e in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return a.view(np.ndarray) if isinstance(a, np.ndarray) else a


def _mean(a, axis=None):
    a = to_sym_array(a)
    n = a.size if axis is None else a.shape[axis]
    return _sum(a, axis=axis) / n


def _std(a, axis=None, ddof=0):
    a = to_sym_array(a)
    n = a.size if axis is None else a.shape[axis]
    if n - ddof <= 0:
        return math.nan
    m = _mean(a, axis)
    d = a - m
    return NP.sqrt(_sum(d * d, axis=axis) / (n - ddof))


# ---------------------------------------------------------------------------
# types
# ---------------------------------------------------------------------------


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real_types)

    def __subclasscheck__(cls, c):
        try:
            return type.__subclasscheck__(cls, c) or issubclass(c, cls.real_types[0])
        except TypeError:
            return False

    def __eq__(cls, o):
        return cls is o or o in cls.aliases

    def __hash__(cls):
        return hash(cls.aliases[0])


class _FloatLike(metaclass=_FloatMeta):
    real_types = (float, Sym)
    aliases = (float,)


class SymFloat(_FloatLike):
    """`float`"""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, (Sym,)):
            return x
        return float(x)

    fromhex = float.fromhex


class SymNPFloat(_FloatLike):
    real_types = (np.float64, Sym)
    aliases = (np.float64,)

    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymC)):
            return x
        if has_sym(x):
            return to_sym_array(x)
        return np.float64(x)


class SymComplex(_FloatLike):
    real_types = (complex, SymC)
    aliases = (complex, np.complex128)

    def __new__(cls, re=0.0, im=0.0):
        if isinstance(re, (Sym, SymC)) or isinstance(im, Sym):
            if isinstance(re, SymC):
                return re
            return SymC(re, im)
        return complex(re, im)


class SymInt(metaclass=_FloatMeta):
    real_types = (int,)
    aliases = (int,)

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym) and not a:
            return S.to_int(x)
        return int(x, *a)

    from_bytes = int.from_bytes


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if c is SymFloat or c is float:
            if builtins.isinstance(x, (float, Sym)):
                return True
        elif c is SymNPFloat or c in (np.floating, np.float64, np.number, np.inexact):
            if builtins.isinstance(x, (Sym,)) or builtins.isinstance(x, c if isinstance(c, type) and not c is SymNPFloat else np.float64):
                return True
        elif c is SymComplex or c is complex:
            if builtins.isinstance(x, (complex, SymC)):
                return True
        elif c is SymInt:
            if builtins.isinstance(x, int):
                return True
        else:
            try:
                import numbers
                if c in (numbers.Real, numbers.Number) and builtins.isinstance(x, Sym):
                    return True
            except Exception:
                pass
            if builtins.isinstance(x, c):
                return True
    return False


class _TypeShim:
    def __call__(self, *a):
        if len(a) == 1 and builtins.isinstance(a[0], Sym):
            return float
        return builtins.type(*a)


# ---------------------------------------------------------------------------
# numpy
# ---------------------------------------------------------------------------


def _shape_dt(shape, dtype, fill):
    if dtype is None or _is_float_dt(dtype):
        out = np.empty(shape, dtype=object)
        out.fill(fill)
        return out.view(SymArray)
    return np.full(shape, 0 if fill is S.ZERO else 1, dtype=_real_dt(dtype))


class _Random:
    """Arbitrary values in [0, 1)."""

    def __init__(self, name="rng"):
        self.name = name
        self.n = 0

    def _draw(self, size, lo=0.0, hi=1.0):
        def one():
            self.n += 1
            u = S.input_var(f"{self.name}{self.n}", 0, 1, lo_s=True, hi_s=True)
            if lo == 0.0 and hi == 1.0:
                return u
            return lo + (hi - lo) * u
        if size is None:
            return one()
        out = np.empty(size, dtype=object)
        fo = out.reshape(-1)
        for i in range(fo.size):
            fo[i] = one()
        return fo.reshape(out.shape).view(SymArray)

    def random(self, size=None, dtype=None, **k):
        return self._draw(size)

    random_sample = random

    def rand(self, *shape):
        return self._draw(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, low, high)


class _NPRandom:
    def __init__(self):
        self.SeedSequence = np.random.SeedSequence
        self.Generator = np.random.Generator
        self.RandomState = self.default_rng

    def default_rng(self, *a, **k):
        return _Random()

    def seed(self, *a):
        return None

    def __getattr__(self, n):
        return getattr(_Random(), n)


def _det(m):
    if len(m) == 1:
        return m[0][0]
    return _sum([(1 if j % 2 == 0 else -1) * m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))])


class _Linalg:
    def norm(self, x, axis=None, **k):
        x = to_sym_array(x)
        return NP.sqrt(_sum(x * x, axis=axis))

    def det(self, a):
        m = [[_lift_el(v) for v in r] for r in np.asarray(a, dtype=object)]
        return _det(m)

    def inv(self, a):
        if not has_sym(np.asarray(a)):
            return np.linalg.inv(np.asarray(a, dtype=float))
        m = [[_lift_el(v) for v in r] for r in np.asarray(a, dtype=object)]
        n = len(m)
        d = _det(m)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sub = [r[:i] + r[i + 1:] for q, r in enumerate(m) if q != j]
                out[i, j] = (1 if (i + j) % 2 == 0 else -1) * (_det(sub) if n > 1 else S.ONE) / d
        return out.view(SymArray)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.random = _NPRandom()
        self.linalg = _Linalg()
        self.float64 = SymNPFloat
        self.double = SymNPFloat
        self.complex128 = SymComplex
        self.inf, self.nan, self.newaxis = np.inf, np.nan, None
        self.ndarray = np.ndarray
        self._pi = None

    @property
    def pi(self):
        return pi_const()

    @property
    def e(self):
        return S.euler()

    def __getattr__(self, n):
        f = getattr(np, n)
        if isinstance(f, types.ModuleType) or isinstance(f, type) or not callable(f):
            return f

        def call(*a, **k):
            if "dtype" in k and _is_float_dt(k["dtype"]):
                k = dict(k)
                k["dtype"] = object
            r = f(*[_unsym(x) for x in a], **k)
            if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
                return type(r)(_wrap(x) for x in r)
            return _wrap(r)

        call.__name__ = n
        return call

    # creation
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if dtype is not None and not _is_float_dt(dtype):
            return np.array(x, dtype=_real_dt(dtype))
        r = to_sym_array(x)
        if isinstance(r, np.ndarray) and r.dtype != object and dtype is not None:
            r = to_sym_array(r.astype(float))
        if isinstance(r, np.ndarray) and (r is x or copy):
            r = r.copy()
        while ndmin and r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or _is_float_dt(dtype)):
            return x
        return self.array(x, dtype=dtype, copy=False)

    asanyarray = asarray
    ascontiguousarray = asarray

    def zeros(self, shape, dtype=None, **k):
        return _shape_dt(shape, dtype, S.ZERO)

    def ones(self, shape, dtype=None, **k):
        return _shape_dt(shape, dtype, S.ONE)

    def empty(self, shape, dtype=None, **k):
        return _shape_dt(shape, dtype, S.ZERO)

    def full(self, shape, fill, dtype=None, **k):
        if isinstance(fill, (bool, np.bool_)) or (dtype is not None and not _is_float_dt(dtype)):
            return np.full(shape, fill, dtype=dtype)
        return _shape_dt(shape, None, _lift_el(fill))

    def _like(self, x, fill, dtype=None, shape=None):
        if not isinstance(x, np.ndarray):
            if isinstance(x, (list, tuple)):
                x = to_sym_array(x)
            else:
                x = self.array(x)
        if not isinstance(x, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = fill
            return a.view(SymArray)
        if shape is None:
            shape = x.shape
        if dtype is None:
            dtype = x.dtype
        return _shape_dt(shape, dtype, fill)

    def zeros_like(self, x, dtype=None, shape=None, **k):
        return self._like(x, S.ZERO, dtype, shape)

    def ones_like(self, x, dtype=None, shape=None, **k):
        return self._like(x, S.ONE, dtype, shape)

    def empty_like(self, x, dtype=None, **k):
        return self._like(x, S.ZERO, dtype)

    def full_like(self, x, fill, dtype=None, **k):
        return self._like(x, _lift_el(fill), dtype)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, **k):
        a, b = lift(a), lift(b)
        n = int(num)
        den = (n - 1) if endpoint else n
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = a if (i == 0 or den == 0) else a + (b - a) * S.Fraction(i, den)
        if endpoint and n > 1:
            out[-1] = b
        out = out.view(SymArray)
        if retstep:
            return out, (b - a) / den
        return out

    def geomspace(self, a, b, num=50, **k):
        a, b = lift(a), lift(b)
        n = _count(num)
        out = np.empty(n, dtype=object)
        for i in range(n):
            if i == 0:
                out[i] = a
            elif i == n - 1:
                out[i] = b
            else:
                out[i] = S.sym_pow(b / a, S.Fraction(i, n - 1)) * a
        return out.view(SymArray)

    def logspace(self, a, b, num=50, **k):
        if not has_sym(a, b):
            return to_sym_array(np.logspace(float(a), float(b), int(num)))
        n = int(num)
        a, b = lift(a), lift(b)
        out = np.empty(n, dtype=object)
        for i in range(n):
            t = a + (b - a) * S.Fraction(i, n - 1) if n > 1 else a
            if t.op == "v" and t.a.fn == "log10":
                out[i] = t.a.args[0]
            else:
                out[i] = S.uf("pow10", t)
        return out.view(SymArray)

    def copy(self, x, **k):
        return _wrap(np.array(x, dtype=object)) if has_sym(x) else np.copy(x)

    # predicates
    def isscalar(self, x):
        return isinstance(x, (Sym, SymC)) or np.isscalar(x)

    def ndim(self, x):
        return 0 if isinstance(x, (Sym, SymC)) else np.ndim(x)

    def shape(self, x):
        return () if isinstance(x, (Sym, SymC)) else np.shape(x)

    def atleast_1d(self, *xs):
        r = []
        for x in xs:
            a = to_sym_array(x)
            if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
                a = np.atleast_1d(x)
            r.append(a.reshape(1) if a.ndim == 0 else a)
        return r[0] if len(r) == 1 else tuple(r)

    def isnan(self, x):
        return _umap1(x, lambda e: _nan(e))

    def isfinite(self, x):
        return _umap1(x, lambda e: not isinstance(e, float) or math.isfinite(e))

    def isinf(self, x):
        return _umap1(x, lambda e: isinstance(e, float) and math.isinf(e))

    def iscomplexobj(self, x):
        a = to_sym_array(x)
        return any(isinstance(e, SymC) for e in _oarr(a).reshape(-1))

    def nan_to_num(self, x, nan=0.0, **k):
        return _umap1(x, lambda e: _lift_el(nan) if _nan(e) else e)

    def finfo(self, dt):
        if dt is object or dt in (Sym, SymNPFloat, SymFloat) or isinstance(dt, _FloatMeta):
            return np.finfo(np.float64)
        if isinstance(dt, np.dtype) and dt == object:
            return np.finfo(np.float64)
        return np.finfo(dt)

    def issubdtype(self, a, b):
        if isinstance(a, np.dtype) and a == object or a is object:
            return b in (np.floating, np.inexact, np.number, SymNPFloat)
        return np.issubdtype(a, b)

    def dtype(self, x):
        return np.dtype(object) if _is_float_dt(x) else np.dtype(x)

    # elementwise
    def where(self, c, *ab):
        if not ab:
            return np.where(_boolify(np.asarray(c)))
        a, b = ab
        c = np.asarray(c, dtype=object) if has_sym(c) or isinstance(c, SymBool) else np.asarray(c)
        c, a, b = np.broadcast_arrays(c, _oarr(a), _oarr(b))
        out = np.empty(c.shape, dtype=object)
        fo = out.reshape(-1)
        for i, (t, x, y) in enumerate(zip(c.reshape(-1), a.reshape(-1), b.reshape(-1))):
            fo[i] = x if bool(t) else y
        return fo.reshape(c.shape).view(SymArray)

    def piecewise(self, x, conds, funcs, *a, **k):
        x = to_sym_array(x)
        out = np.empty(x.shape, dtype=object)
        out.fill(S.ZERO)
        out = out.view(SymArray)
        done = np.zeros(x.shape, dtype=bool)
        conds = [_boolify(np.asarray(c)) for c in conds]
        if len(funcs) == len(conds) + 1:
            rest = ~np.logical_or.reduce(conds)
            conds = list(conds) + [rest]
        for c, f in zip(conds, funcs):
            if np.any(c):
                out[c] = f(x[c], *a, **k) if callable(f) else f
        return out

    def select(self, conds, choices, default=0.0):
        r = default
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def maximum(self, a, b, **k):
        return _umap2(a, b, _max2)

    def minimum(self, a, b, **k):
        return _umap2(a, b, _min2)

    fmax, fmin = maximum, minimum

    def clip(self, x, lo=None, hi=None, **k):
        lo = k.get("a_min", k.get("min", lo))
        hi = k.get("a_max", k.get("max", hi))
        if lo is not None:
            x = self.maximum(x, lo)
        if hi is not None:
            x = self.minimum(x, hi)
        return x

    def max(self, x, axis=None, **k):
        if not has_sym(x):
            return np.max(x, axis=axis)
        return _reduce(x, _max2, None, axis)

    amax = max

    def min(self, x, axis=None, **k):
        if not has_sym(x):
            return np.min(x, axis=axis)
        return _reduce(x, _min2, None, axis)

    amin = min

    def nanmax(self, x, axis=None, **k):
        if not has_sym(x):
            return np.nanmax(x, axis=axis)
        if axis is None and any(isinstance(e, float) and e != e for e in _oarr(x).reshape(-1)):
            x = to_sym_array([e for e in _oarr(x).reshape(-1) if not (isinstance(e, float) and e != e)])
            if not len(x):
                return np.nan
        return _reduce(x, _max2, None, axis)

    def nanmin(self, x, axis=None, **k):
        if not has_sym(x):
            return np.nanmin(x, axis=axis)
        if axis is None and any(isinstance(e, float) and e != e for e in _oarr(x).reshape(-1)):
            x = to_sym_array([e for e in _oarr(x).reshape(-1) if not (isinstance(e, float) and e != e)])
            if not len(x):
                return np.nan
        return _reduce(x, _min2, None, axis)

    def argmax(self, x, **k):
        l = list(_oarr(x).reshape(-1))
        b = 0
        for i in range(1, len(l)):
            if l[i] > l[b]:
                b = i
        return b

    def argmin(self, x, **k):
        l = list(_oarr(x).reshape(-1))
        b = 0
        for i in range(1, len(l)):
            if l[i] < l[b]:
                b = i
        return b

    def sort(self, x, **k):
        l = list(_oarr(x).reshape(-1))
        out = []
        for e in l:
            i = 0
            while i < len(out) and out[i] <= e:
                i += 1
            out.insert(i, e)
        return to_sym_array(out)

    def unique(self, x, **k):
        l = self.sort(x)
        out = []
        for e in l:
            if not out or bool(out[-1] != e):
                out.append(e)
        return to_sym_array(out)

    def sign(self, x):
        return _umap1(x, lambda e: S.ONE if e > 0 else (-S.ONE if e < 0 else S.ZERO))

    def heaviside(self, x, h0):
        return _umap2(x, h0, lambda e, h: S.ONE if e > 0 else (S.ZERO if e < 0 else _lift_el(h)))

    def abs(self, x):
        return _umap1(x, abs)

    absolute = fabs = abs

    def real(self, x):
        return _umap1(x, lambda e: e.re if isinstance(e, SymC) else _real(e))

    def imag(self, x):
        return _umap1(x, lambda e: e.im if isinstance(e, SymC) else _lift_el(_imag(e)))

    def conj(self, x):
        return _umap1(x, lambda e: e.conjugate())

    conjugate = conj

    def square(self, x):
        return _umap1(x, lambda e: e * e)

    def reciprocal(self, x):
        return _umap1(x, lambda e: 1.0 / e)

    def power(self, a, b):
        return _umap2(a, b, lambda x, y: S.sym_pow(x, y))

    float_power = power

    def hypot(self, a, b):
        return _umap2(a, b, lambda x, y: S.sqrt(x * x + y * y))

    def arctan2(self, a, b):
        return _umap2(a, b, lambda x, y: S.uf("atan2", x, y))

    def divide(self, a, b, out=None, where=True, **k):
        if where is True:
            return _umap2(a, b, lambda x, y: _lift_el(x) / y)
        w = _boolify(np.asarray(where))
        a, b, w = np.broadcast_arrays(_oarr(a), _oarr(b), w)
        res = out if out is not None else self.zeros(a.shape)
        for idx in np.ndindex(a.shape):
            if w[idx]:
                res[idx] = _lift_el(a[idx]) / b[idx]
        return res

    true_divide = divide

    def multiply(self, a, b, **k):
        return _umap2(a, b, lambda x, y: x * y)

    def add(self, a, b, **k):
        return _umap2(a, b, lambda x, y: x + y)

    def subtract(self, a, b, **k):
        return _umap2(a, b, lambda x, y: x - y)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        return _umap2(a, b, lambda x, y: bool(abs(lift(x) - y) <= atol + rtol * abs(lift(y))))

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        return bool(np.all(self.isclose(a, b, rtol, atol)))

    # reductions
    def sum(self, x, axis=None, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if not has_sym(x):
            return np.sum(x, axis=axis, **_only(k, "keepdims"))
        return _sum(to_sym_array(x), axis=axis, **_only(k, "keepdims"))

    nansum = sum

    def mean(self, x, axis=None, **k):
        return _mean(x, axis)

    nanmean = average_ = mean

    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return _mean(x, axis)
        x = to_sym_array(x)
        return _sum(x * to_sym_array(weights), axis) / _sum(to_sym_array(weights), axis)

    def std(self, x, axis=None, ddof=0, **k):
        return _std(x, axis, ddof)

    nanstd = std

    def var(self, x, axis=None, ddof=0, **k):
        s = _std(x, axis, ddof)
        return s * s

    nanvar = var

    def prod(self, x, axis=None, **k):
        return _reduce(to_sym_array(x), lambda a, b: a * b, S.ONE if axis is None else None, axis)

    def any(self, x, axis=None, **k):
        return np.any(_boolify(np.asarray(x)), axis=axis)

    def all(self, x, axis=None, **k):
        return np.all(_boolify(np.asarray(x)), axis=axis)

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        y = to_sym_array(y)
        y = np.moveaxis(_oarr(y), axis, -1)
        if x is None:
            d = np.full(y.shape[-1] - 1, _lift_el(dx), dtype=object)
        else:
            xx = _oarr(x)
            if xx.ndim > 1:
                xx = np.moveaxis(xx, axis, -1)
            d = xx[..., 1:] - xx[..., :-1]
        z = d * (y[..., 1:] + y[..., :-1]) / S.const(S.Fraction(2))
        return _wrap(np.asarray(_sum(z, axis=-1))) if y.ndim > 1 else _sum(z, axis=-1)

    trapz = trapezoid

    def dot(self, a, b):
        r = np.dot(_oarr(a), _oarr(b))
        return _wrap(r)

    def matmul(self, a, b):
        return _wrap(np.matmul(_oarr(a), _oarr(b)))

    def einsum(self, spec, *a, **k):
        return _wrap(np.einsum(spec, *[_oarr(x) for x in a]))

    def diff(self, x, n=1, axis=-1):
        a = _oarr(x)
        return _wrap(np.diff(a, n=n, axis=axis))

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        xp, fp = list(to_sym_array(xp)), list(to_sym_array(fp))

        def one(e):
            if e < xp[0]:
                return fp[0] if left is None else _lift_el(left)
            if e > xp[-1]:
                return fp[-1] if right is None else _lift_el(right)
            for i in range(len(xp) - 1):
                if e <= xp[i + 1]:
                    return fp[i] + (fp[i + 1] - fp[i]) * (e - xp[i]) / (xp[i + 1] - xp[i])
            return fp[-1]

        return _umap1(x, one)

    def searchsorted(self, a, v, side="left", **k):
        a = list(_oarr(a))

        def one(e):
            i = 0
            while i < len(a) and ((a[i] < e) if side == "left" else (a[i] <= e)):
                i += 1
            return i

        if isinstance(v, (np.ndarray, list, tuple)):
            return np.array([one(e) for e in _oarr(v).reshape(-1)]).reshape(np.shape(v))
        return one(v)

    def histogram(self, x, bins=10, range=None, weights=None, density=None, **k):
        xs = list(_oarr(x).reshape(-1))
        if isinstance(bins, (int, np.integer)):
            lo, hi = range if range is not None else (self.min(x), self.max(x))
            edges = list(self.linspace(lo, hi, int(bins) + 1))
        else:
            edges = list(_oarr(bins))
        n = len(edges) - 1
        ws = [S.ONE] * len(xs) if weights is None else list(_oarr(weights).reshape(-1))
        cnt = [S.ZERO] * n
        for e, w in zip(xs, ws):
            if e < edges[0] or e > edges[-1]:
                continue
            for i in builtins.range(n):
                if (e < edges[i + 1]) or i == n - 1:
                    cnt[i] = cnt[i] + w
                    break
        cnt = to_sym_array(cnt)
        if density:
            db = to_sym_array([edges[i + 1] - edges[i] for i in builtins.range(n)])
            cnt = cnt / db / _sum(cnt)
        if weights is None and not density:
            # numpy returns integers here
            vals = [int(c.a) if c.op == "c" else c for c in cnt]
            if all(isinstance(v, int) for v in vals):
                return np.array(vals), to_sym_array(edges)
        return cnt, to_sym_array(edges)

    def vectorize(self, f=None, otypes=None, excluded=None, signature=None, **k):
        if f is None:
            return lambda g: self.vectorize(g, otypes=otypes, excluded=excluded)
        exc = set(excluded or ())

        def call(*a, **kw):
            idx = [i for i in builtins.range(len(a)) if i not in exc]
            keys = [q for q in kw if q not in exc]
            arrs = [_oarr(a[i]) for i in idx] + [_oarr(kw[q]) for q in keys]
            if not arrs:
                return f(*a, **kw)
            bs = np.broadcast_arrays(*arrs)
            shape = bs[0].shape
            vals = []
            for t in builtins.range(bs[0].size):
                aa = list(a)
                kk = dict(kw)
                for j, i in enumerate(idx):
                    aa[i] = bs[j].reshape(-1)[t]
                for j, q in enumerate(keys):
                    kk[q] = bs[len(idx) + j].reshape(-1)[t]
                vals.append(f(*aa, **kk))
            if shape == ():
                return vals[0] if vals else None
            out = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                out[i] = _lift_el(v)
            return out.reshape(shape).view(SymArray)

        return call


def _unsym(x):
    if isinstance(x, (Sym, SymC)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SymArray):
        return x
    return x


def _mk_unary(name, f):
    def g(self, x, *a, **k):
        def h(e):
            if isinstance(e, complex):
                e = lift(e)
            if isinstance(e, (Sym, SymC)):
                return f(e)
            return f(lift(e))
        return _umap1(x, h)

    setattr(NPShim, name, g)


for _n, _f in {
    "sqrt": S.sqrt, "exp": S.exp, "log": S.log, "sin": S.sin, "cos": S.cos,
    "tan": lambda e: S.sin(e) / S.cos(e),
    "log10": lambda e: S.uf("log10", e), "log2": lambda e: S.uf("log2", e),
    "log1p": lambda e: S.log(e + 1), "expm1": lambda e: S.exp(e) - 1,
    "sinh": lambda e: e.sinh(), "cosh": lambda e: e.cosh(),
    "tanh": lambda e: S.uf("tanh", e), "arctanh": lambda e: S.uf("atanh", e),
    "arcsin": lambda e: S.uf("asin", e), "arccos": lambda e: S.uf("acos", e),
    "arctan": lambda e: S.uf("atan", e), "arcsinh": lambda e: S.uf("asinh", e),
    "arccosh": lambda e: S.uf("acosh", e), "floor": lambda e: S.uf("floor", e),
    "ceil": lambda e: S.uf("ceil", e), "rint": lambda e: S.uf("rint", e),
    "cbrt": lambda e: S.uf("cbrt", e), "deg2rad": lambda e: e * pi_const() / 180,
    "radians": lambda e: e * pi_const() / 180,
}.items():
    _mk_unary(_n, _f)

S.EXTRA_NUM.update(asinh=math.asinh, acosh=math.acosh, atan2=math.atan2,
                   cbrt=lambda x: math.copysign(abs(x) ** (1 / 3), x))

NP = NPShim()


def pi_const():
    return S.const_var("pi", math.pi)


# ---------------------------------------------------------------------------
# math / cmath / scipy
# ---------------------------------------------------------------------------


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    @property
    def pi(self):
        return pi_const()

    @property
    def e(self):
        return S.euler()

    def __getattr__(self, n):
        f = getattr(math, n)
        g = _MATHMAP.get(n)
        if g is None:
            return f

        def call(*a):
            if has_sym(*a):
                return g(*a)
            return f(*a)

        return call


class CMathShim(MathShim):
    """Complex functions: the real value where it exists, a complex one on the cut."""

    @staticmethod
    def sqrt(x):
        x = lift(x)
        if isinstance(x, Sym) and not x >= 0:
            return SymC(0, S.sqrt(-x))
        return S.sqrt(x) if isinstance(x, (Sym, SymC)) else cmath.sqrt(x)

    @staticmethod
    def log(x, *b):
        x = lift(x)
        if b:
            return CMathShim.log(x) / CMathShim.log(b[0])
        if isinstance(x, Sym) and x < 0:
            return SymC(S.log(-x), pi_const())
        return S.log(x) if isinstance(x, (Sym, SymC)) else cmath.log(x)

    def __getattr__(self, n):
        f = getattr(cmath, n)
        g = _MATHMAP.get(n)
        if g is None:
            return f

        def call(*a):
            return g(*a) if has_sym(*a) else f(*a)

        return call


def _m(name):
    return lambda x: getattr(NP, name)(x)


_MATHMAP = {n: _m(n) for n in ("sqrt", "exp", "log10", "log1p", "expm1", "sin", "cos",
                               "tan", "sinh", "cosh", "tanh", "fabs", "isnan", "isfinite",
                               "isinf", "floor", "ceil")}
_MATHMAP["log"] = lambda x, b=None: S.log(lift(x)) if b is None else S.log(lift(x)) / S.log(lift(b))
_MATHMAP.update({
    "atan": _m("arctan"), "acos": _m("arccos"), "asin": _m("arcsin"), "atanh": _m("arctanh"),
    "pow": lambda a, b: S.sym_pow(a, b),
    "hypot": lambda *a: S.sqrt(sum(x * x for x in a)),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
        abs(lift(a) - b) <= NP.maximum(rel_tol * NP.maximum(abs(lift(a)), abs(lift(b))), abs_tol)),
    "fsum": lambda xs: sum(xs), "prod": lambda xs, start=1: _prod(xs, start),
    "copysign": lambda a, b: abs(lift(a)) if b >= 0 else -abs(lift(a)),
    "atan2": lambda a, b: S.uf("atan2", a, b),
    "erf": lambda a: S.uf("erf", a), "erfc": lambda a: S.uf("erfc", a),
    "fmod": lambda a, b: S.uf("fmod", a, b),
})


def _prod(xs, start):
    r = start
    for x in xs:
        r = r * x
    return r


MATH = MathShim()
CMATH = CMathShim()


class SpecialShim(types.ModuleType):
    """scipy.special: uninterpreted functions of their arguments."""

    def __init__(self):
        super().__init__("scipy.special")

    def __getattr__(self, n):
        f = getattr(scipy.special, n)
        if not callable(f):
            return f

        def call(*a, **k):
            if not has_sym(*a):
                return f(*a, **k)
            if len(a) == 1:
                return _umap1(a[0], lambda e: S.uf(n, e))
            if len(a) == 2:
                return _umap2(a[0], a[1], lambda x, y: S.uf(n, x, y))
            return S.uf(n, *a)

        S.EXTRA_NUM.setdefault(n, lambda *a: float(f(*a)))
        return call


SPECIAL = SpecialShim()


# -- integration ------------------------------------------------------------


class Integrals:
    """Integrals as atoms, linear in the integrand (constants factor out)."""

    depth = 0
    calls = []


def sym_quad(f, a, b, args=(), **k):
    """scipy.integrate.quad: exact integral as a linear functional of the integrand."""
    if not isinstance(args, tuple):
        args = (args,)
    return sym_integral(lambda x: f(x, *args), a, b), S.ZERO


def sym_integral(f, a, b):
    a, b = lift(a), lift(b)
    infs = [x for x in (a, b) if isinstance(x, float)]
    ka = ("inf", a) if isinstance(a, float) else a
    kb = ("inf", b) if isinstance(b, float) else b
    Integrals.depth += 1
    p = S.P
    try:
        name = f"xi{Integrals.depth}"
        x = S.vsym(S.W.by_name[name]) if name in S.W.by_name else S.input_var(name)
        vid = x.a.id
        sub = _BoundScope(p, vid, a, b, x)
        with sub:
            val = f(x)
    finally:
        Integrals.depth -= 1
    if isinstance(val, np.ndarray):
        val = val.reshape(-1)[0]
    val = lift(val)
    if isinstance(val, float):
        return val
    return integrate_rf(val, x, a, b)


class _BoundScope:
    def __init__(self, p, vid, a, b, x):
        self.p, self.vid, self.a, self.b, self.x = p, vid, a, b, x

    def __enter__(self):
        p = self.p
        self.n = len(p.conds)
        self.known = dict(p._known)
        self.was = self.vid in p.bound
        if not isinstance(self.a, float):
            p.add(self.x > self.a) if not isinstance(self.x > self.a, bool) else None
        if not isinstance(self.b, float):
            p.add(self.x < self.b) if not isinstance(self.x < self.b, bool) else None
        p.bound.add(self.vid)

    def __exit__(self, *e):
        p = self.p
        # drop constraints that mention the integration variable
        keep = [(c, v) for i, (c, v) in enumerate(zip(p.conds, p.cvars))
                if i < self.n or self.vid not in v]
        p.conds = [c for c, _ in keep]
        p.cvars = [v for _, v in keep]
        if not self.was:
            p.bound.discard(self.vid)
        p._known = {k: v for k, v in p._known.items() if k in self.known or True}
        return False


def integrate_rf(val, x, a, b):
    """Integral of a canonical expression over x in (a, b)."""
    vid = x.a.id
    try:
        rf = val.rf
    except S.TooBig:
        return S.atom("int_big", (val, _bkey(a), _bkey(b)))
    dep = _dependent_vars(vid)

    def depends(m):
        return any(v in dep for v, _ in m)

    den_in, den_out = {}, S.ONE
    for k, (p, e) in rf.d.items():
        if any(depends(m) for m in p):
            den_in[k] = (p, e)
        else:
            ps = S._poly_sym(p)
            for _ in range(e):
                den_out = den_out * ps
    groups = {}
    for m, c in rf.n.items():
        inn = tuple((v, e) for v, e in m if v in dep)
        out = tuple((v, e) for v, e in m if v not in dep)
        groups.setdefault(inn, {})[out] = c
    tot = S.ZERO
    for inn, outp in sorted(groups.items()):
        co = S._poly_sym(outp)
        if not inn and not den_in and not isinstance(a, float) and not isinstance(b, float):
            base = b - a
        elif (not den_in and not isinstance(a, float) and not isinstance(b, float)
              and len(inn) == 1 and inn[0][0] == vid):
            n = inn[0][1] + 1
            base = (S.sym_pow(b, n) - S.sym_pow(a, n)) / n
        else:
            g = Sym("p")
            g._rf = S.RF({inn: S.Fraction(1)}, den_in)
            g.a = None
            base = S.atom("int", (g, _bkey(a), _bkey(b)))
        tot = tot + co * base
    return tot / den_out


def _bkey(a):
    if isinstance(a, float):
        return S.input_var("inf!", None, None) if "inf!" not in S.W.by_name else S.vsym(S.W.by_name["inf!"])
    return a


def _dependent_vars(vid):
    dep = {vid}
    # atoms are created after their arguments: one forward pass suffices
    for v in S.W.vars:
        if v.args is None or v.id in dep:
            continue
        vs = set()
        for q in v.args:
            try:
                S.rf_vars(q.rf, vs)
            except S.TooBig:
                _dag_vars(q, vs)
        if vs & dep:
            if v.fn in ("int", "int_big"):
                # the bound variable of a finished integral is not free
                free = set()
                for q in v.args[1:]:
                    S.rf_vars(q.rf, free)
                inner = set()
                S.rf_vars(v.args[0].rf, inner)
                if vid in (free & dep) or (vs & dep) - {vid}:
                    dep.add(v.id)
                continue
            dep.add(v.id)
    return dep


def _dag_vars(x, out):
    st = [x]
    seen = set()
    while st:
        s = st.pop()
        if id(s) in seen or not isinstance(s, Sym):
            continue
        seen.add(id(s))
        if s.op == "v":
            out.add(s.a.id)
        elif s.op == "p":
            S.rf_vars(s._rf, out)
        else:
            st.extend(k for k in (s.a, s.b) if isinstance(k, Sym))


class IntegrateShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.integrate")

    def quad(self, f, a, b, *ar, **k):
        return HOOKS["quad"](f, a, b, *ar, **k)

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        return NP.trapezoid(y, x=x, dx=dx, axis=axis)

    trapz = trapezoid

    def simpson(self, y, x=None, dx=1.0, axis=-1, **k):
        return sym_simpson(y, x, dx, axis)

    def __getattr__(self, n):
        h = HOOKS.get(n)
        if h is not None:
            return h
        return getattr(scipy.integrate, n)


def sym_simpson(y, x=None, dx=1.0, axis=-1):
    """Composite Simpson rule (odd number of points) as in scipy."""
    y = np.moveaxis(_oarr(y), axis, -1)
    n = y.shape[-1]
    if n % 2 == 0:
        raise S.Inconclusive("simpson with an even number of points is not modelled")
    if x is None:
        xs = np.array([_lift_el(dx) * i for i in range(n)], dtype=object)
    else:
        xs = _oarr(x)
        if xs.ndim > 1:
            xs = np.moveaxis(xs, axis, -1)
    tot = 0.0
    for i in range(0, n - 2, 2):
        h0 = xs[..., i + 1] - xs[..., i]
        h1 = xs[..., i + 2] - xs[..., i + 1]
        hs, hp, hr = h0 + h1, h0 * h1, h0 / h1
        tot = tot + hs / 6 * (y[..., i] * (2 - 1 / hr) + y[..., i + 1] * (hs * (hs / hp))
                              + y[..., i + 2] * (2 - hr))
    return _wrap(tot) if isinstance(tot, np.ndarray) else tot


HOOKS = {"quad": sym_quad}
INTEGRATE = IntegrateShim()


class SymLinSpline:
    """Exact model of a linear scipy spline (InterpolatedUnivariateSpline / UnivariateSpline with k=1, s=0)."""

    EXT = {0: 0, "extrapolate": 0, 1: 1, "zeros": 1, 2: 2, "raise": 2, 3: 3, "const": 3}

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, s=None, ext=0, check_finite=False):
        if k != 1 or w is not None or tuple(bbox) != (None, None):
            raise NotImplementedError("symbolic spline other than linear interpolation")
        self._x, self._y = list(_oarr(x)), list(_oarr(y))
        if len(self._x) != len(self._y):
            raise ValueError("x and y should have a same length")
        for a, b in zip(self._x, self._x[1:]):
            if not a < b:
                raise ValueError("x must be strictly increasing")
        self._ext = self.EXT[ext]

    def get_knots(self):
        return to_sym_array(self._x)

    def get_residual(self):
        return 0.0

    def _line(self, i, e):
        x, y = self._x, self._y
        return y[i] + (y[i + 1] - y[i]) * (e - x[i]) / (x[i + 1] - x[i])

    def __call__(self, x, nu=0, ext=None):
        if nu:
            raise NotImplementedError("spline derivative")
        ext = self._ext if ext is None else self.EXT[ext]
        X, Y = self._x, self._y

        def one(e):
            e = _lift_el(e)
            if e < X[0]:
                if ext == 2:
                    raise ValueError("Error code returned by spev: 1")
                return [self._line(0, e) if ext == 0 else None, S.ZERO, None, Y[0]][ext]
            if e > X[-1]:
                if ext == 2:
                    raise ValueError("Error code returned by spev: 1")
                return [self._line(len(X) - 2, e) if ext == 0 else None, S.ZERO, None, Y[-1]][ext]
            for i in range(len(X) - 1):
                if e <= X[i + 1]:
                    return self._line(i, e)

        return _umap1(x, one)

    def integral(self, a, b):
        """Integral of the interpolant, zero outside the nodes."""
        X, Y = self._x, self._y

        def F(t):
            t = _lift_el(t)
            tot = S.ZERO
            for i in range(len(X) - 1):
                if t <= X[i]:
                    return tot
                if t <= X[i + 1]:
                    return tot + (t - X[i]) * (Y[i] + self._line(i, t)) / 2
                tot = tot + (X[i + 1] - X[i]) * (Y[i] + Y[i + 1]) / 2
            return tot

        return F(b) - F(a)


def _count(n):
    """A number of points; symbolic counts fork over small values."""
    if isinstance(n, Sym) and n.op != "c":
        for k in range(1, 13):
            if n == k:
                return k
    return int(n)


class InterpolateShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.interpolate")

    def __getattr__(self, n):
        h = HOOKS.get(n)
        if h is not None:
            return h
        real = getattr(scipy.interpolate, n)
        if n in ("InterpolatedUnivariateSpline", "UnivariateSpline"):
            def make(x, y, *a, **k):
                if has_sym(x, y):
                    return SymLinSpline(x, y, *a, **k)
                return real(x, y, *a, **k)
            return make
        return real


INTERPOLATE = InterpolateShim()


class OptimizeShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.optimize")

    def __getattr__(self, n):
        h = HOOKS.get(n)
        if h is not None:
            return h
        import scipy.optimize
        return getattr(scipy.optimize, n)


OPTIMIZE = OptimizeShim()


class ScipyShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy")
        self.integrate, self.interpolate = INTEGRATE, INTERPOLATE
        self.special, self.optimize = SPECIAL, OPTIMIZE

    def __getattr__(self, n):
        import scipy
        return getattr(scipy, n)


SCIPY = ScipyShim()


# ---------------------------------------------------------------------------
# injection
# ---------------------------------------------------------------------------


def _module_map():
    import scipy
    import scipy.optimize
    return {id(np): NP, id(math): MATH, id(cmath): CMATH, id(scipy.special): SPECIAL,
            id(scipy.integrate): INTEGRATE, id(scipy.interpolate): INTERPOLATE,
            id(scipy): SCIPY, id(scipy.optimize): OPTIMIZE, id(np.random): NP.random,
            id(np.linalg): NP.linalg}


def _func_map():
    import scipy.optimize
    m = {}
    for n in dir(math):
        f = getattr(math, n)
        if callable(f) and n in _MATHMAP:
            m[id(f)] = getattr(MATH, n)
    for n in ("sqrt", "log", "exp", "sin", "cos", "tan", "sinh", "cosh", "tanh", "log10"):
        m[id(getattr(cmath, n))] = _only_sym(getattr(CMATH, n), getattr(cmath, n))
    for n in dir(NPShim):
        if n.startswith("_") or not hasattr(np, n):
            continue
        f = getattr(np, n)
        if callable(f) and not isinstance(f, type):
            m[id(f)] = getattr(NP, n)
    for n in ("quad", "trapezoid", "simpson", "dblquad", "solve_ivp", "odeint", "cumulative_trapezoid"):
        if hasattr(scipy.integrate, n):
            f = getattr(scipy.integrate, n)
            m[id(f)] = _late(INTEGRATE, n)
    for n in ("InterpolatedUnivariateSpline", "UnivariateSpline", "interp1d"):
        m[id(getattr(scipy.interpolate, n))] = _late(INTERPOLATE, n)
    for n in ("root_scalar", "minimize_scalar", "minimize", "brentq", "fsolve", "root"):
        m[id(getattr(scipy.optimize, n))] = _late(OPTIMIZE, n)
    for n in dir(scipy.special):
        f = getattr(scipy.special, n)
        if isinstance(f, np.ufunc) or (callable(f) and not isinstance(f, type) and n in ("kn", "k0", "k1", "erf", "spence", "kv", "gamma", "zeta")):
            m.setdefault(id(f), _late(SPECIAL, n))
    m[id(np.float64)] = SymNPFloat
    m[id(np.complex128)] = SymComplex
    return m


def _only_sym(g, f):
    return lambda *a: g(*a) if has_sym(*a) else f(*a)


class _late:
    """Callable looking up the shim attribute at call time."""

    def __init__(self, mod, n):
        self.mod, self.n = mod, n

    def __call__(self, *a, **k):
        return getattr(self.mod, self.n)(*a, **k)


_PARAM_EXCLUDE = {0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 1.0 / 3.0, 2.0 / 3.0, -1.0 / 3.0}


def param_constants():
    """{value: name} of the physical constants of hazma.parameters."""
    import hazma.parameters as hp
    out = {}
    for n, v in sorted(vars(hp).items()):
        if n.startswith("__"):
            continue
        if isinstance(v, float) and v not in _PARAM_EXCLUDE and not v.is_integer() and math.isfinite(v):
            out.setdefault(v, n)
    return out


def sym_constant(v, consts):
    n = consts.get(v)
    if n is None:
        return None
    return S.const_var("k_" + n, v)


def _patch_container(o, consts, depth=0):
    """Copy of a dict/list/tuple with physical constants made symbolic."""
    if depth > 3:
        return o, False
    if isinstance(o, float) and not isinstance(o, np.floating):
        c = sym_constant(o, consts)
        return (c, True) if c is not None else (o, False)
    if type(o) is dict and len(o) < 200:
        ch = False
        new = {}
        for k, v in o.items():
            nv, c = _patch_container(v, consts, depth + 1)
            ch = ch or c
            new[k] = nv
        return (new, True) if ch else (o, False)
    if type(o) in (list, tuple) and len(o) < 200:
        ch = False
        new = []
        for v in o:
            nv, c = _patch_container(v, consts, depth + 1)
            ch = ch or c
            new.append(nv)
        return (type(o)(new), True) if ch else (o, False)
    return o, False


@contextlib.contextmanager
def patched(sym_consts=True, prefix="hazma", skip=()):
    """Replace numpy/math/scipy and the physical constants in hazma's modules."""
    mm, fm = _module_map(), _func_map()
    consts = param_constants() if sym_consts else {}
    saved = []
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname == prefix or mname.startswith(prefix + ".")):
            continue
        if mname.startswith("hazma._core") or mname in skip:
            continue
        d = vars(mod)
        for n, v in list(d.items()):
            if n.startswith("__"):
                continue
            new = None
            if isinstance(v, types.ModuleType):
                new = mm.get(id(v))
            elif id(v) in fm and (callable(v)):
                new = fm[id(v)]
            elif sym_consts and type(v) is float and v == math.pi:
                new = pi_const()
            elif sym_consts and isinstance(v, (float, dict, list, tuple)):
                nv, ch = _patch_container(v, consts)
                new = nv if ch else None
            if new is not None:
                saved.append((d, n, v, True))
                d[n] = new
        for n, v in (("float", SymFloat), ("complex", SymComplex), ("int", SymInt), ("isinstance", sym_isinstance)):
            if n in d:
                continue
            saved.append((d, n, None, False))
            d[n] = v
    # parity helpers keep working: real numpy is untouched
    try:
        yield
    finally:
        for d, n, v, had in reversed(saved):
            if had:
                d[n] = v
            else:
                d.pop(n, None)
