"""Symbolic reals for executing the real Python / LLVM code of the repository.

A value is a DAG node (:class:`Sym`) over real-valued variables.  Comparisons
give :class:`SymBool`; asking for its truth value forks the current path
(:class:`Path`), after an SMT query has shown that the side taken is feasible.
Every claim is decided by an SMT query over all values of the variables on the
path (see :meth:`Path.prove`).

Arithmetic is over the reals: IEEE rounding is outside the model (stated in
every evidence file).  Transcendental functions are atoms: the same function of
the same (canonicalised) argument is the same real, plus a few axioms.
"""

from __future__ import annotations

import dis
import math
import sys

import mpmath
import os
import time
from fractions import Fraction

import z3

# ---------------------------------------------------------------------------
# polynomials: dict[monomial -> Fraction], monomial = ((var, exp), ...) sorted
# ---------------------------------------------------------------------------

ONE_M = ()
MAX_TERMS = 40000


class TooBig(Exception):
    """Expression too large for the canonical form."""


class Inconclusive(Exception):
    """The solver (or a resource cap) could not decide a needed question."""


def p_const(c):
    return {ONE_M: c} if c else {}


def p_add(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + c * k
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            e = ea + eb
            if e:
                out.append((va, e))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul_raw(a, b):
    if len(a) * len(b) > 20 * MAX_TERMS:
        raise TooBig()
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            c = r.get(m, 0) + ca * cb
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    if len(r) > MAX_TERMS:
        raise TooBig()
    return r


def p_scale(a, c):
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}


def p_key(a):
    return frozenset(a.items())


# ---------------------------------------------------------------------------
# variables / atoms
# ---------------------------------------------------------------------------


class Var:
    __slots__ = ("id", "name", "kind", "lo", "hi", "lo_s", "hi_s", "pin", "arg",
                 "fn", "args", "z", "extra")

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind  # 'in' | 'const' | 'sqrt' | 'uf' | 'abs'
        self.lo = self.hi = None
        self.lo_s = self.hi_s = False
        self.pin = None
        self.arg = None
        self.fn = None
        self.args = None
        self.extra = None
        self.z = z3.Real(name)

    def sign(self):
        """+1: >0, 2: >=0, -1: <0, -2: <=0, None."""
        if self.lo is not None:
            if self.lo > 0 or (self.lo == 0 and self.lo_s):
                return 1
            if self.lo == 0:
                return 2
        if self.hi is not None:
            if self.hi < 0 or (self.hi == 0 and self.hi_s):
                return -1
            if self.hi == 0:
                return -2
        return None


class World:
    """All variables of one symbolic run (shared by all of its paths)."""

    def __init__(self):
        self.vars: list[Var] = []
        self.by_name: dict[str, Var] = {}
        self.atoms: dict = {}
        self.reduce: dict[int, dict] = {}  # sqrt var id -> polynomial of its square

    def new(self, name, kind):
        base, k = name, 1
        while name in self.by_name:
            k += 1
            name = f"{base}!{k}"
        v = Var(len(self.vars), name, kind)
        self.vars.append(v)
        self.by_name[name] = v
        return v


W: World = World()
P = None  # current Path


def set_world(w):
    global W
    W = w


def p_reduce(a):
    """Apply r**2 = arg for square-root atoms."""
    red = W.reduce
    if not red:
        return a
    for _ in range(200):
        hit = None
        for m in a:
            for v, e in m:
                if e >= 2 and v in red:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return a
        sq = red[hit]
        powers = {}
        out = {}
        for m, c in a.items():
            e = 0
            rest = m
            for k, (v, ee) in enumerate(m):
                if v == hit:
                    e = ee
                    keep = ((v, ee % 2),) if ee % 2 else ()
                    rest = m[:k] + keep + m[k + 1:]
                    break
            h = e // 2
            if h == 0:
                c2 = out.get(m, 0) + c
                if c2:
                    out[m] = c2
                else:
                    out.pop(m, None)
                continue
            if h not in powers:
                pw = p_const(Fraction(1))
                for _k in range(h):
                    pw = p_mul_raw(pw, sq)
                powers[h] = pw
            for m2, c2 in powers[h].items():
                mm = m_mul(rest, m2)
                cc = out.get(mm, 0) + c * c2
                if cc:
                    out[mm] = cc
                else:
                    out.pop(mm, None)
        a = out
        if len(a) > MAX_TERMS:
            raise TooBig()
    raise TooBig()


def p_mul(a, b):
    return p_reduce(p_mul_raw(a, b))


def p_sign(a):
    """Structural sign of a polynomial: 1,2,-1,-2 or None; 0 if zero."""
    if not a:
        return 0
    strict = False
    tot = None
    for m, c in a.items():
        s = 1 if c > 0 else -1
        st = True
        for v, e in m:
            vs = W.vars[v].sign()
            if e % 2 == 0:
                if vs not in (1, -1):
                    st = False
                continue
            if vs is None:
                return None
            if vs < 0:
                s = -s
            if abs(vs) == 2:
                st = False
        if tot is None:
            tot = s
        elif tot != s:
            return None
        strict = strict or st
    return tot if strict else 2 * tot


# rational form: (num poly, den {key: (poly, exp)})


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


def _den_mul(d1, d2):
    if not d1:
        return dict(d2)
    r = dict(d1)
    for k, (p, e) in d2.items():
        if k in r:
            r[k] = (p, r[k][1] + e)
        else:
            r[k] = (p, e)
    return r


def _cancel(n, d):
    """Cancel common variable factors and equal polynomial factors."""
    if not d or not n:
        return n, (d if n else {})
    d = dict(d)
    for k in list(d):
        p, e = d[k]
        if len(p) == 1:
            ((m, c),) = p.items()
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                mn = None
                for mm in n:
                    ee = 0
                    for vv, x in mm:
                        if vv == v:
                            ee = x
                            break
                    mn = ee if mn is None else min(mn, ee)
                    if mn == 0:
                        break
                t = min(mn or 0, e)
                if t > 0:
                    n2 = {}
                    for mm, cc in n.items():
                        out = []
                        for vv, x in mm:
                            if vv == v:
                                if x - t:
                                    out.append((vv, x - t))
                            else:
                                out.append((vv, x))
                        n2[tuple(out)] = cc
                    n = n2
                    if e - t:
                        d[k] = (p, e - t)
                    else:
                        del d[k]
                continue
        while k in d:
            if len(n) < len(p):
                break
            q = p_exact_div(n, p)
            if q is None:
                break
            n = q
            e = d[k][1] - 1
            if e:
                d[k] = (p, e)
            else:
                del d[k]
    return n, d


def _lead(p):
    return max(p, key=lambda m: tuple((-v, e) for v, e in m))


def _morder(m):
    # lexicographic order, variables by increasing id
    return tuple((-v, e) for v, e in m)


def p_exact_div(n, p, limit=400):
    """n / p if exact (multivariate, lex order), else None."""
    if len(p) > 40 or len(n) > limit:
        return None
    key = lambda m: _lexkey(m)
    lp = max(p, key=key)
    cp = p[lp]
    r = dict(n)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > limit:
            return None
        lm = max(r, key=key)
        dm = _m_div(lm, lp)
        if dm is None:
            return None
        c = r[lm] / cp
        q[dm] = q.get(dm, 0) + c
        for m, cc in p.items():
            mm = m_mul(m, dm)
            v = r.get(mm, 0) - c * cc
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


class _LexKey:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while True:
            if i >= len(a):
                return i < len(b)
            if i >= len(b):
                return False
            va, ea = a[i]
            vb, eb = b[i]
            if va != vb:
                return va > vb  # a lacks the smaller-id variable -> smaller
            if ea != eb:
                return ea < eb
            i += 1

    def __gt__(self, o):
        return o.__lt__(self)


def _lexkey(m):
    return _LexKey(m)


def _m_div(a, b):
    da = dict(a)
    for v, e in b:
        x = da.get(v, 0) - e
        if x < 0:
            return None
        if x:
            da[v] = x
        else:
            da.pop(v, None)
    return tuple(sorted(da.items()))


def _den_poly(d, minus=None):
    r = p_const(Fraction(1))
    for k, (p, e) in d.items():
        if minus is not None and k in minus:
            e = e - minus[k][1]
        for _ in range(e):
            r = p_mul(r, p)
    return r


def rf_add(a, b, k=1):
    if not a.d and not b.d:
        return RF(p_add(a.n, b.n, k))
    # common denominator with max exponents
    d = dict(a.d)
    for key, (p, e) in b.d.items():
        if key not in d or d[key][1] < e:
            d[key] = (p, e)
    fa = _den_poly(d, a.d)
    fb = _den_poly(d, b.d)
    n = p_add(p_mul(a.n, fa), p_mul(b.n, fb), k)
    if not n:
        return RF({})
    n, d = _cancel(n, d)
    return RF(n, d)


def rf_mul(a, b):
    n = p_mul(a.n, b.n)
    d = _den_mul(a.d, b.d)
    if d:
        n, d = _cancel(n, d)
    return RF(n, d)


def _factor_den(p):
    """polynomial -> (coef, {key:(poly,exp)}) pulling out monomial content."""
    # monomial gcd
    it = iter(p)
    g = dict(next(it))
    for m in it:
        dm = dict(m)
        for v in list(g):
            e = min(g[v], dm.get(v, 0))
            if e:
                g[v] = e
            else:
                del g[v]
        if not g:
            break
    out = {}
    if g:
        gm = tuple(sorted(g.items()))
        p = {_m_div(m, gm): c for m, c in p.items()}
        for v, e in g.items():
            fp = {((v, 1),): Fraction(1)}
            out[p_key(fp)] = (fp, e)
    lc = p[max(p, key=_lexkey)]
    p = {m: c / lc for m, c in p.items()}
    if len(p) == 1 and ONE_M in p:
        return lc, out
    out[p_key(p)] = (p, 1)
    return lc, out


def rf_inv(a):
    if not a.n:
        raise ZeroDivisionError
    lc, d = _factor_den(a.n)
    n = p_scale(_den_poly(a.d), 1 / lc)
    n, d = _cancel(n, d)
    return RF(n, d)


def rf_div(a, b):
    # multiply numerators by b's denominator factors, keeping factored form
    lc, d = _factor_den(b.n)
    # cancel b.d against a.d
    ad = dict(a.d)
    left = {}
    for k, (p, e) in b.d.items():
        if k in ad:
            t = min(e, ad[k][1])
            if ad[k][1] - t:
                ad[k] = (p, ad[k][1] - t)
            else:
                del ad[k]
            e -= t
        if e:
            left[k] = (p, e)
    n = p_scale(a.n, 1 / lc)
    if left:
        # cancel left factors against d
        dd = dict(d)
        for k in list(left):
            p, e = left[k]
            if k in dd:
                t = min(e, dd[k][1])
                if dd[k][1] - t:
                    dd[k] = (p, dd[k][1] - t)
                else:
                    del dd[k]
                if e - t:
                    left[k] = (p, e - t)
                else:
                    del left[k]
        d = dd
        if left:
            n = p_mul(n, _den_poly(left))
    d = _den_mul(ad, d)
    n, d = _cancel(n, d)
    return RF(n, d)


# ---------------------------------------------------------------------------
# Sym
# ---------------------------------------------------------------------------

_SNAP: dict[float, Fraction] = {}


def snap(f: float) -> Fraction:
    """A float literal as the simplest rational that rounds to it."""
    r = _SNAP.get(f)
    if r is None:
        ex = Fraction(f)
        if ex.denominator == 1:
            r = ex
        else:
            c = ex.limit_denominator(2000)
            r = c if float(c) == f else ex
            if r is ex:
                # decimal literals such as 0.1056583745 stay exact decimals
                d = Fraction(repr(f))
                if float(d) == f:
                    r = d
        _SNAP[f] = r
    return r


class Sym:
    __slots__ = ("op", "a", "b", "_rf", "__weakref__")


    def __init__(self, op, a=None, b=None):
        self.op = op
        self.a = a
        self.b = b
        self._rf = None

    # -- canonical form -----------------------------------------------------
    @property
    def rf(self) -> RF:
        if self._rf is None:
            # iterative to avoid recursion limits
            stack = [self]
            while stack:
                s = stack[-1]
                if s._rf is not None:
                    stack.pop()
                    continue
                kids = [k for k in (s.a, s.b) if isinstance(k, Sym) and k._rf is None]
                if kids:
                    stack.extend(kids)
                    continue
                s._rf = s._mk()
                stack.pop()
        return self._rf

    def _mk(self):
        op = self.op
        if op == "c":
            return RF(p_const(self.a))
        if op == "v":
            return RF({((self.a.id, 1),): Fraction(1)})
        if op == "+":
            return rf_add(self.a._rf, self.b._rf)
        if op == "-":
            return rf_add(self.a._rf, self.b._rf, -1)
        if op == "*":
            return rf_mul(self.a._rf, self.b._rf)
        if op == "/":
            return rf_div(self.a._rf, self.b._rf)
        raise AssertionError(op)

    # -- numeric protocol ---------------------------------------------------
    def _bin(self, o, op, swap=False):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, SymC):
            a, b = SymC(self, CZERO), o
            if swap:
                a, b = b, a
            return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__, "/": a.__truediv__}[op](b)
        if isinstance(o, float):  # nan / inf
            return _nonfinite(self, o, op, swap)
        a, b = (o, self) if swap else (self, o)
        return mk(op, a, b)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __neg__(self):
        return mk("-", ZERO, self)

    def __pos__(self):
        return self

    def __abs__(self):
        s = quick_sign(self)
        if s in (1, 2, 0):
            return self
        if s in (-1, -2):
            return -self
        if self >= 0:
            return self
        return -self

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(lift(o), self)

    # comparisons
    def __lt__(self, o):
        return cmp(self, o, "<")

    def __le__(self, o):
        return cmp(self, o, "<=")

    def __gt__(self, o):
        return cmp(self, o, ">")

    def __ge__(self, o):
        return cmp(self, o, ">=")

    def __eq__(self, o):
        return cmp(self, o, "==")

    def __ne__(self, o):
        return cmp(self, o, "!=")

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(cmp(self, ZERO, "!="))

    def __float__(self):
        if self.op == "c":
            return float(self.a)
        if _formatting(sys._getframe(1)):
            return 0.0
        raise TypeError("symbolic value converted to float (concretisation)")

    def __format__(self, spec):
        return show(self)

    def __int__(self):
        if self.op == "c":
            return int(self.a)
        raise TypeError("symbolic value converted to int (concretisation)")

    def __complex__(self):
        raise TypeError("symbolic value converted to complex (concretisation)")

    def __repr__(self):
        return f"<{show(self)}>"

    # numpy object-array protocol
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log10(self):
        if self.op == "v" and self.a.fn == "pow10":
            return self.a.args[0]
        return uf("log10", self)

    def log2(self):
        return uf("log2", self)

    def log1p(self):
        return log(self + 1)

    def expm1(self):
        return exp(self) - 1

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return sin(self) / cos(self)

    def sinh(self):
        e = exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = exp(self)
        return (e + 1 / e) / 2

    def tanh(self):
        return uf("tanh", self)

    def arctanh(self):
        return uf("atanh", self)

    def arcsin(self):
        return uf("asin", self)

    def arccos(self):
        return uf("acos", self)

    def arctan(self):
        return uf("atan", self)

    def conjugate(self):
        return self

    def conj(self):
        return self

    def fabs(self):
        return abs(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def rint(self):
        return uf("rint", self)

    def floor(self):
        return uf("floor", self)

    def ceil(self):
        return uf("ceil", self)


def _nonfinite(s, o, op, swap):
    if math.isnan(o):
        return o
    if op == "+":
        return o
    if op == "-":
        return o if swap else -o
    if op == "*":
        if s > 0:
            return o
        if s < 0:
            return -o
        return math.nan
    if swap:
        return o if s > 0 else -o
    return ZERO


def mk(op, a, b):
    ca = a.op == "c"
    cb = b.op == "c"
    if ca and cb:
        if op == "+":
            return const(a.a + b.a)
        if op == "-":
            return const(a.a - b.a)
        if op == "*":
            return const(a.a * b.a)
        if op == "/":
            if b.a == 0:
                if a.a == 0:
                    return math.nan
                return math.inf if a.a > 0 else -math.inf
            return const(a.a / b.a)
    if op == "+":
        if ca and a.a == 0:
            return b
        if cb and b.a == 0:
            return a
    elif op == "-":
        if cb and b.a == 0:
            return a
    elif op == "*":
        if (ca and a.a == 0) or (cb and b.a == 0):
            return ZERO
        if ca and a.a == 1:
            return b
        if cb and b.a == 1:
            return a
    elif op == "/":
        if cb:
            if b.a == 1:
                return a
            if b.a != 0:
                return mk("*", a, const(1 / b.a))
        r = P.division(a, b) if P is not None else None
        if r is not None:
            return r
        if ca and a.a == 0:
            return ZERO
    return Sym(op, a, b)


_CONSTS = {}


def const(c: Fraction) -> Sym:
    s = _CONSTS.get(c)
    if s is None:
        if len(_CONSTS) > 100000:
            _CONSTS.clear()
        s = Sym("c", c)
        s._rf = RF(p_const(c))
        _CONSTS[c] = s
    return s


ZERO = const(Fraction(0))
CZERO = ZERO
ONE = const(Fraction(1))


def lift(o):
    """Python/numpy number -> Sym (or nan/inf float, or SymC)."""
    if isinstance(o, (Sym, SymC)):
        return o
    if isinstance(o, bool):
        return ONE if o else ZERO
    if isinstance(o, int):
        return const(Fraction(o))
    if isinstance(o, float):  # includes np.float64
        o = float(o)
        if o != o or o in (math.inf, -math.inf):
            return o
        return const(snap(o))
    if isinstance(o, Fraction):
        return const(o)
    if isinstance(o, complex):
        return SymC(lift(o.real), lift(o.imag))
    if isinstance(o, SymBool):
        return ONE if bool(o) else ZERO
    if hasattr(o, "dtype") and getattr(o, "shape", None) == ():
        return lift(o.item())
    return NotImplemented


def is_sym(o):
    return isinstance(o, (Sym, SymC, SymBool))


# ---------------------------------------------------------------------------
# complex
# ---------------------------------------------------------------------------


class SymC:
    __slots__ = ("re", "im")


    def __init__(self, re, im):
        self.re = lift(re)
        self.im = lift(im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def _c(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, SymC):
            return o
        return SymC(o, ZERO)

    def __add__(self, o):
        o = self._c(o)
        if o is NotImplemented:
            return o
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._c(o)
        if o is NotImplemented:
            return o
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        if o is NotImplemented:
            return o
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if o is NotImplemented:
            return o
        d = o.re * o.re + o.im * o.im
        return SymC((self.re * o.re + self.im * o.im) / d,
                    (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        return self._c(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pow__(self, n):
        n = int(n)
        r = SymC(ONE, ZERO)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else SymC(ONE, ZERO) / r

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def exp(self):
        e = exp(self.re) if not (self.re.op == "c" and self.re.a == 0) else ONE
        return SymC(e * cos(self.im), e * sin(self.im))

    def sqrt(self):
        a = uf("csqrt_re", self.re, self.im)
        b = uf("csqrt_im", self.re, self.im)
        return SymC(a, b)

    def __eq__(self, o):
        o = self._c(o)
        return bool(self.re == o.re) and bool(self.im == o.im)

    __hash__ = object.__hash__

    def __repr__(self):
        return f"<{show(self.re)} + i {show(self.im)}>"


# ---------------------------------------------------------------------------
# atoms
# ---------------------------------------------------------------------------


def _formatting(fr):
    """The frame is evaluating `"..." % x`: the digits of a message do not matter."""
    code, i = fr.f_code.co_code, fr.f_lasti
    return 0 <= i < len(code) - 1 and dis.opname[code[i]] == "BINARY_OP" and code[i + 1] == 6


def _rf_key(rf):
    return (p_key(rf.n), frozenset((k, e) for k, (p, e) in rf.d.items()))


def vsym(v: Var) -> Sym:
    return Sym("v", v)


def input_var(name, lo=None, hi=None, lo_s=True, hi_s=True):
    v = W.new(name, "in")
    v.lo, v.hi, v.lo_s, v.hi_s = _fr(lo), _fr(hi), lo_s, hi_s
    return vsym(v)


def const_var(name, value):
    if name in W.by_name:
        return vsym(W.by_name[name])
    v = W.new(name, "const")
    fr = Fraction(value)
    v.pin = fr
    if fr != 0:
        # box of +-0.1% with short rationals
        mag = abs(value)
        a = Fraction(f"{mag * (1 - 1e-3):.4e}")
        b = Fraction(f"{mag * (1 + 1e-3):.4e}")
        lo, hi = (a, b) if value > 0 else (-b, -a)
        v.lo, v.hi, v.lo_s, v.hi_s = lo, hi, True, True
    return vsym(v)


def _fr(x):
    if x is None:
        return None
    if isinstance(x, float):
        return snap(x)
    return Fraction(x)


def atom(fn, args, keyed=True):
    """Uninterpreted application fn(args) with canonicalised arguments."""
    try:
        key = (fn, tuple(_rf_key(a.rf) for a in args))
    except TooBig:
        key = (fn, tuple(("id", id(a)) for a in args))
    s = W.atoms.get(key)
    if s is None:
        v = W.new(f"{fn}#{len(W.atoms)}", "uf")
        v.fn, v.args = fn, tuple(args)
        s = vsym(v)
        s._rf = RF({((v.id, 1),): Fraction(1)})
        W.atoms[key] = s
        _uf_bounds(v)
    return s


_POSITIVE_UF = {"exp", "kn", "k0", "k1", "k2", "kv", "gamma", "powr"}


def _uf_bounds(v):
    if v.fn in _POSITIVE_UF:
        v.lo, v.lo_s = Fraction(0), True
    elif v.fn in ("erfc", "acos"):
        v.lo, v.lo_s = Fraction(0), False
    elif v.fn in ("sin", "cos", "tanh", "erf"):
        v.lo, v.hi, v.lo_s, v.hi_s = Fraction(-1), Fraction(1), False, False


def uf(fn, *args):
    aa = []
    for x in args:
        x = lift(x)
        if isinstance(x, float):
            return _uf_nonfinite(fn, x)
        if x.op != "c" and fn in _NUM:
            try:
                r = x.rf
                if not r.d and (not r.n or (len(r.n) == 1 and ONE_M in r.n)):
                    x = const(r.n.get(ONE_M, Fraction(0)))
            except TooBig:
                pass
        aa.append(x)
    if fn in ("floor", "ceil", "rint", "trunc") and aa[0].op == "c":
        return const(Fraction({"floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": int}[fn](aa[0].a)))
    if all(a.op == "c" for a in aa) and fn in _NUM and len(aa) == 1:
        # transcendental of a constant: still an atom, with tight numeric bounds
        val = float(aa[0].a)
        try:
            r = _NUM[fn](val)
        except (ValueError, OverflowError):
            return math.nan
        s = atom(fn, aa)
        v = s.a
        if r == 0:
            return ZERO
        w = abs(r) * 1e-12
        v.lo, v.hi, v.lo_s, v.hi_s = Fraction(r - w), Fraction(r + w), False, False
        return s
    return atom(fn, aa)


def to_int(x):
    """int(x) of a symbolic real, kept symbolic."""
    if x.op == "c":
        return int(x.a)
    if x.op == "v" and x.a.fn in ("floor", "ceil", "rint", "trunc"):
        return x
    return uf("trunc", x)


def _uf_nonfinite(fn, x):
    if fn == "exp":
        return ZERO if x == -math.inf else x
    if fn in ("sqrt", "log", "log10"):
        return x if x > 0 else math.nan
    return math.nan


_NUM = {
    "exp": math.exp, "log": math.log, "log10": math.log10, "sin": math.sin,
    "cos": math.cos, "tanh": math.tanh, "atanh": math.atanh, "erf": math.erf,
    "asin": math.asin, "acos": math.acos, "atan": math.atan, "erfc": math.erfc,
    "log2": math.log2, "floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": int,
}


def sqrt(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x > 0 else math.nan
    if isinstance(x, SymC):
        return x.sqrt()
    if x.op == "c":
        c = x.a
        if c < 0:
            return math.nan
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    if P is not None:
        r = P.sqrt_domain(x)
        if r is not None:
            return r
    try:
        rf = x.rf
    except TooBig:
        return atom("sqrt_big", (x,))
    if not rf.n:
        return ZERO
    return _sqrt_rf(rf, x)


def _sqrt_rf(rf, x):
    # sqrt(n/d) -> pull out even powers of known-sign factors, odd d to numerator
    n = rf.n
    outside_num = ONE
    outside_den = ONE
    d = rf.d
    odd = {}
    ok = True
    for k, (p, e) in d.items():
        sg = p_sign(p)
        half = (e + 1) // 2
        if sg not in (1, 2) and half % 2 == 1:
            ok = False
            break
        if e % 2:
            odd[k] = (p, 1)
        ps = _poly_sym(p)
        for _ in range(half):
            outside_den = outside_den * ps
    if not ok:
        return _sqrt_atom(rf, x)
    if odd:
        n = p_mul(n, _den_poly(odd))
        if not n:
            return ZERO
    # monomial content
    it = iter(n)
    g = dict(next(it))
    for m in it:
        dm = dict(m)
        for v in list(g):
            e = min(g[v], dm.get(v, 0))
            if e:
                g[v] = e
            else:
                del g[v]
        if not g:
            break
    pull = {}
    for v, e in g.items():
        vs = W.vars[v].sign()
        h = e // 2
        if h and (vs in (1, 2) or h % 2 == 0):
            pull[v] = 2 * h
            s = vsym(W.vars[v])
            for _ in range(h):
                outside_num = outside_num * s
    if pull:
        gm = tuple(sorted(pull.items()))
        n = {_m_div(m, gm): c for m, c in n.items()}
    # numeric content: make leading coefficient 1 up to squares
    from math import gcd
    num_g, den_l = 0, 1
    for c in n.values():
        num_g = gcd(num_g, abs(c.numerator))
        den_l = den_l * c.denominator // gcd(den_l, c.denominator)
    if num_g:
        sn, rn = _sqfree(num_g)
        sd, rd = _sqfree(den_l)
        # n = (num_g/den_l) * n'  ; sqrt = (sn/sd) sqrt(rn/rd * n') ; rn/rd = rn*rd/rd^2
        fac = Fraction(sn, sd * rd)
        scale = Fraction(rn * rd) / Fraction(num_g, den_l)
        n = p_scale(n, scale)
        outside_num = outside_num * const(fac)
    root = None
    if len(n) == 1 and ONE_M in n and n[ONE_M] == 1:
        root = ONE
    elif 1 < len(n) < 200:
        q = p_root(n)
        sg = p_sign(q) if q else None
        if sg in (1, 2):
            root = _poly_sym(q)
        elif sg in (-1, -2):
            root = _poly_sym(p_scale(q, -1))
    if root is None:
        root = _sqrt_atom(RF(n), None)
    return outside_num * root / outside_den if outside_den is not ONE else outside_num * root


def _root_fraction(c):
    if c <= 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def p_root(n):
    """q with q*q = n, or None."""
    ms = sorted(n, key=_lexkey, reverse=True)
    for m in (ms[0], ms[-1]):
        if _root_fraction(n[m]) is None or any(e % 2 for v, e in m):
            return None
    lead = tuple((v, e // 2) for v, e in ms[0])
    lc = _root_fraction(n[ms[0]])
    q = {lead: lc}
    rem = p_sub_raw(n, p_mul_raw(q, q))
    for _ in range(len(n) + 1):
        if not rem:
            return q
        m = max(rem, key=_lexkey)
        d = _m_div(m, lead)
        if d is None or d in q:
            return None
        c = rem[m] / (2 * lc)
        t = {d: c}
        # (q + t)^2 = q^2 + 2 q t + t^2
        rem = p_sub_raw(rem, p_scale(p_mul_raw(q, t), 2))
        rem = p_sub_raw(rem, p_mul_raw(t, t))
        q[d] = c
        if len(rem) > 400:
            return None
    return None


def p_sub_raw(a, b):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) - c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def _sqfree(n):
    """n = s^2 * r with small-prime squares removed."""
    s, r = 1, n
    i = math.isqrt(n)
    if i * i == n:
        return i, 1
    for q in (2, 3, 5, 7, 11, 13):
        while r % (q * q) == 0:
            r //= q * q
            s *= q
    return s, r


def _poly_sym(p):
    s = Sym("p")
    s._rf = RF(p)
    s.a = p
    return s


def _sqrt_atom(rf, x):
    key = ("sqrt", _rf_key(rf))
    s = W.atoms.get(key)
    if s is None:
        v = W.new(f"sqrt#{len(W.atoms)}", "sqrt")
        v.fn = "sqrt"
        arg = x
        if arg is None:
            arg = Sym("p")
            arg._rf = rf
            arg.a = rf.n
        v.args = (arg,)
        v.arg = rf
        sg = p_sign(rf.n) if not rf.d else None
        v.lo, v.lo_s = Fraction(0), sg == 1
        if not rf.d:
            W.reduce[v.id] = rf.n
        s = vsym(v)
        s._rf = RF({((v.id, 1),): Fraction(1)})
        W.atoms[key] = s
    return s


def euler():
    return const_var("euler", math.e)


def exp(x):
    x = lift(x)
    if isinstance(x, SymC):
        return x.exp()
    if isinstance(x, float):
        return _uf_nonfinite("exp", x)
    if x.op == "c" and x.a == 0:
        return ONE
    if x.op == "c" and abs(x.a) == 1:
        return euler() if x.a == 1 else ONE / euler()
    if x.op == "v" and x.a.fn == "log":
        return x.a.args[0]
    # canonical sign: exp(-y) = 1/exp(y)
    try:
        n = x.rf.n
        if not x.rf.d:
            # exp(k log(u) + rest) = u^k exp(rest)
            for m, c in n.items():
                if len(m) == 1 and m[0][1] == 1 and c.denominator <= 2 and abs(c) <= 8:
                    v = W.vars[m[0][0]]
                    if v.fn == "log":
                        u = v.args[0]
                        r = exp(x - const(c) * vsym(v))
                        return (u ** int(c) if c.denominator == 1 else sqrt(u) ** c.numerator) * r
        if n and n[max(n, key=_lexkey)] < 0:
            return ONE / exp(-x)
    except TooBig:
        pass
    return uf("exp", x)


def log(x):
    x = lift(x)
    if isinstance(x, float):
        return _uf_nonfinite("log", x)
    if x.op == "c":
        if x.a == 1:
            return ZERO
        if x.a <= 0:
            return math.nan
    if x.op == "v" and x.a.fn == "exp":
        return x.a.args[0]
    if x.op == "v" and x.a.name == "euler":
        return ONE
    if P is not None:
        r = P.log_domain(x)
        if r is not None:
            return r
    r = uf("log", x)
    if isinstance(r, Sym) and r.op == "v" and r.a.hi is None and _below_one(x):
        r.a.hi, r.a.hi_s = Fraction(0), True
    return r


def _below_one(x):
    """A product of variables inside (0, 1)."""
    try:
        rf = x.rf
    except TooBig:
        return False
    if rf.d or len(rf.n) != 1:
        return False
    ((m, c),) = rf.n.items()
    return 0 < c <= 1 and bool(m) and all(
        W.vars[v].lo is not None and W.vars[v].lo >= 0 and W.vars[v].hi is not None and W.vars[v].hi <= 1
        and W.vars[v].hi_s for v, e in m)


def sin(x):
    x = lift(x)
    if x.op == "c" and x.a == 0:
        return ZERO
    return _trig("sin", x)


def cos(x):
    x = lift(x)
    if x.op == "c" and x.a == 0:
        return ONE
    return _trig("cos", x)


def _quarter_turns(x):
    """k with x = k pi/2, else None."""
    v = W.by_name.get("pi")
    if v is None or x.op == "c":
        return None
    try:
        rf = x.rf
    except TooBig:
        return None
    if rf.d or len(rf.n) != 1:
        return None
    ((m, c),) = rf.n.items()
    k = 2 * c
    return int(k) if m == ((v.id, 1),) and k.denominator == 1 else None


def _trig(f, x):
    if isinstance(x, float):
        return math.nan
    k = _quarter_turns(x)
    if k is not None:
        k = (k if f == "cos" else k - 1) % 4
        return (ONE, ZERO, const(Fraction(-1)), ZERO)[k]
    try:
        n = x.rf.n
        if n and n[max(n, key=_lexkey)] < 0:
            r = uf(f, -x)
            r2 = uf("sin" if f == "cos" else "cos", -x)
            return -r if f == "sin" else r
    except TooBig:
        pass
    r = uf(f, x)
    o = uf("sin" if f == "cos" else "cos", x)
    sn, cs = (r, o) if f == "sin" else (o, r)
    if sn.op == "v" and cs.op == "v" and sn.a.id not in W.reduce:
        # sin^2 = 1 - cos^2 as a rewriting rule
        W.reduce[sn.a.id] = {ONE_M: Fraction(1), ((cs.a.id, 2),): Fraction(-1)}
    return r


def sym_pow(b, e):
    b = lift(b)
    e = lift(e)
    if e is NotImplemented or b is NotImplemented:
        return NotImplemented
    if isinstance(e, float) or isinstance(b, float):
        return math.nan
    if isinstance(b, SymC):
        if e.op != "c" or e.a.denominator != 1:
            raise TypeError("complex power")
        return b ** int(e.a)
    if e.op == "c":
        q = e.a
        if q.denominator == 1:
            n = int(q)
            if abs(n) > 64:
                return uf("powr", b, e)
            r = ONE
            base = b
            k = abs(n)
            while k:
                if k & 1:
                    r = r * base
                k >>= 1
                if k:
                    base = base * base
            return r if n >= 0 else ONE / r
        if q.denominator == 2:
            n = int(q * 2)
            k = abs(n)
            r = sqrt(b)
            if isinstance(r, float):
                return r
            out = r
            for _ in range((k - 1) // 2):
                out = out * b
            return out if n > 0 else ONE / out
        return uf("powr", b, e)
    if b.op == "c" and b.a == 10:
        return pow10(e)
    return uf("powr", b, e)


def pow10(e):
    e = lift(e)
    if isinstance(e, Sym) and e.op == "v" and e.a.fn == "log10":
        return e.a.args[0]
    return uf("pow10", e)


# ---------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------

_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


class SymBool:
    """diff OP 0, or a boolean combination."""

    __slots__ = ("op", "d", "parts", "_z")

    def __init__(self, op, d=None, parts=None):
        self.op = op
        self.d = d
        self.parts = parts
        self._z = None

    def __bool__(self):
        if P is None:
            raise TypeError("symbolic branch outside a path")
        return P.decide(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool("and", parts=(self, o))
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool("or", parts=(self, o))
        return True if o else self

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = object.__hash__

    def __mul__(self, o):
        return (ONE if bool(self) else ZERO) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if bool(self) else 0) + o

    __radd__ = __add__

    def z(self):
        if self._z is None:
            if self.op == "and":
                self._z = z3.And(*[p.z() for p in self.parts])
            elif self.op == "or":
                self._z = z3.Or(*[p.z() for p in self.parts])
            else:
                self._z = lower_cmp(self.op, self.d)
        return self._z

    def vars(self, out):
        if self.parts:
            for p in self.parts:
                p.vars(out)
        else:
            rf_vars(self.d.rf, out)
        return out

    def evalf(self, env):
        if self.op == "and":
            return all(p.evalf(env) for p in self.parts)
        if self.op == "or":
            return any(p.evalf(env) for p in self.parts)
        v = evalf(self.d, env)
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0,
                "==": v == 0, "!=": v != 0}[self.op]

    def __repr__(self):
        if self.parts:
            return f"({self.op} " + " ".join(map(repr, self.parts)) + ")"
        return f"[{show(self.d)} {self.op} 0]"


def bnot(b):
    if isinstance(b, SymBool):
        if b.op == "and":
            return SymBool("or", parts=tuple(bnot(p) for p in b.parts))
        if b.op == "or":
            return SymBool("and", parts=tuple(bnot(p) for p in b.parts))
        return SymBool(_NEG[b.op], b.d)
    return not b


def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else SymBool("and", parts=tuple(ys))


def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else SymBool("or", parts=tuple(ys))


def cmp(a, b, op):
    b = lift(b)
    if b is NotImplemented:
        return NotImplemented
    a = lift(a)
    if isinstance(a, SymC) or isinstance(b, SymC):
        if op == "==":
            return SymC(0, 0)._c(a) == b
        raise TypeError("complex ordering")
    if isinstance(a, float) or isinstance(b, float):
        # one side is +-inf or nan
        x = a if isinstance(a, float) else 0.0
        y = b if isinstance(b, float) else 0.0
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                "==": x == y, "!=": x != y}[op]
    if a is b:
        return op in ("<=", ">=", "==")
    d = mk("-", a, b)
    s = quick_sign(d)
    if s is not None:
        r = _decide_sign(s, op)
        if r is not None:
            return r
    return SymBool(op, d)


def _decide_sign(s, op):
    if s == 0:
        return op in ("<=", ">=", "==")
    if s == 1:
        return op in (">", ">=", "!=")
    if s == -1:
        return op in ("<", "<=", "!=")
    if s == 2 and op in (">=", "<"):
        return op == ">="
    if s == -2 and op in ("<=", ">"):
        return op == "<="
    return None


def quick_sign(x: Sym):
    if x.op == "c":
        return (x.a > 0) - (x.a < 0)
    try:
        rf = x.rf
    except TooBig:
        return None
    s = p_sign(rf.n)
    if s == 0:
        return 0
    if s is None:
        return None
    for k, (p, e) in rf.d.items():
        if e % 2 == 0:
            continue
        ds = p_sign(p)
        if ds not in (1, -1, 2, -2):
            return None
        if ds < 0:
            s = -s
    return s


# ---------------------------------------------------------------------------
# lowering to z3
# ---------------------------------------------------------------------------


def zc(c: Fraction):
    return z3.RealVal(f"{c.numerator}/{c.denominator}" if c.denominator != 1 else str(c.numerator))


def zpoly(p):
    if not p:
        return zc(Fraction(0))
    terms = []
    for m, c in p.items():
        fs = []
        for v, e in m:
            zv = W.vars[v].z
            fs.extend([zv] * e)
        t = None
        for f in fs:
            t = f if t is None else t * f
        if t is None:
            t = zc(c)
        elif c != 1:
            t = zc(c) * t
        terms.append(t)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(*terms)


def _clear(p):
    """Scale a polynomial to integer, content-free coefficients (positive scale)."""
    from math import gcd
    l = 1
    g = 0
    for c in p.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for c in p.values():
        g = gcd(g, abs((c * l).numerator))
    if g == 0:
        return p
    k = Fraction(l, g)
    return {m: c * k for m, c in p.items()}


def lower_cmp(op, d):
    """z3 formula of `d op 0`."""
    rf = d.rf
    if not rf.n:
        return z3.BoolVal(op in ("<=", ">=", "=="))
    n = zpoly(_clear(rf.n))
    zero = zc(Fraction(0))
    if op == "==":
        return n == zero
    if op == "!=":
        return n != zero
    flip = False
    prod = n
    for k, (p, e) in rf.d.items():
        if e % 2 == 0:
            continue
        s = p_sign(p)
        if s in (1, 2):
            continue
        if s in (-1, -2):
            flip = not flip
            continue
        prod = prod * zpoly(_clear(p))
    if flip:
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
    return {"<": prod < zero, "<=": prod <= zero, ">": prod > zero, ">=": prod >= zero}[op]


def rf_vars(rf, out):
    for m in rf.n:
        for v, _ in m:
            out.add(v)
    for p, e in rf.d.values():
        for m in p:
            for v, _ in m:
                out.add(v)
    return out


def var_axioms(v: Var, pin=False):
    """z3 facts about one variable; returns (facts, other variables used)."""
    fs = []
    used = set()
    if v.pin is not None and pin:
        fs.append(v.z == zc(v.pin))
        return fs, used
    if v.lo is not None:
        fs.append(v.z > zc(v.lo) if v.lo_s else v.z >= zc(v.lo))
    if v.hi is not None:
        fs.append(v.z < zc(v.hi) if v.hi_s else v.z <= zc(v.hi))
    if v.kind == "sqrt":
        rf = v.arg
        rf_vars(rf, used)
        if rf.d:
            den = zpoly(_den_poly(rf.d))
            fs.append(v.z * v.z * den == zpoly(rf.n))
        else:
            fs.append(v.z * v.z == zpoly(rf.n))
    elif v.kind == "uf" and v.fn in ("floor", "ceil", "trunc"):
        x = v.args[0]
        try:
            rf_vars(x.rf, used)
        except TooBig:
            return fs, used
        up = lower_cmp(">=", vsym(v) - x), lower_cmp("<", vsym(v) - x - 1)
        dn = lower_cmp("<=", vsym(v) - x), lower_cmp(">", vsym(v) - x + 1)
        pos = lower_cmp(">=", x)
        if v.fn == "floor":
            fs.extend(dn)
        elif v.fn == "ceil":
            fs.extend(up)
        else:
            fs.extend(z3.If(pos, a, b) for a, b in zip(dn, up))
    elif v.kind == "uf" and v.fn in ("exp", "log", "log10", "tanh", "pow10"):
        x = v.args[0]
        try:
            xr = x.rf
        except TooBig:
            return fs, used
        if v.fn == "exp":
            rf_vars(xr, used)
            fs.append(lower_cmp(">", x) == (v.z > 1))
            fs.append(lower_cmp("<", x) == (v.z < 1))
            fs.append(lower_cmp(">=", vsym(v) - x - 1))
        elif v.fn in ("log", "log10"):
            rf_vars(xr, used)
            fs.append(lower_cmp(">", x - 1) == (v.z > 0))
            fs.append(lower_cmp("<", x - 1) == (v.z < 0))
            if v.fn == "log":
                fs.append(lower_cmp(">=", x - 1 - vsym(v)))
                if "euler" in W.by_name:
                    e = vsym(W.by_name["euler"])
                    used.add(e.a.id)
                    fs.append(lower_cmp(">", x - e) == (v.z > 1))
                    fs.append(lower_cmp("<", x - e) == (v.z < 1))
        elif v.fn == "tanh":
            rf_vars(xr, used)
            fs.append(lower_cmp(">", x) == (v.z > 0))
        elif v.fn == "pow10":
            fs.append(v.z > 0)
            rf_vars(xr, used)
            fs.append(lower_cmp(">", x) == (v.z > 1))
    return fs, used


_MONO = {"exp": 1, "log": 1, "log10": 1, "tanh": 1, "pow10": 1, "atan": 1, "atanh": 1}


def pair_axioms(vs):
    """Monotonicity and Pythagoras between atoms of the same function."""
    out = []
    by = {}
    for v in vs:
        if v.kind == "uf":
            by.setdefault(v.fn, []).append(v)
    for fn, l in by.items():
        if fn in _MONO and 1 < len(l) <= 6:
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    try:
                        d = l[i].args[0] - l[j].args[0]
                        if isinstance(d, float):
                            continue
                        out.append(lower_cmp("<", d) == (l[i].z < l[j].z))
                        out.append(lower_cmp("==", d) == (l[i].z == l[j].z))
                    except TooBig:
                        pass
    if "sin" in by and "cos" in by:
        for s in by["sin"]:
            for c in by["cos"]:
                try:
                    if _rf_key(s.args[0].rf) == _rf_key(c.args[0].rf):
                        out.append(s.z * s.z + c.z * c.z == 1)
                except TooBig:
                    pass
    return out


# ---------------------------------------------------------------------------
# numeric evaluation
# ---------------------------------------------------------------------------


def evalf(x, env, memo=None):
    """Evaluate with floats; env maps input/const variable names to floats."""
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, SymC):
        return complex(evalf(x.re, env, memo), evalf(x.im, env, memo))
    hp = HP[0]
    if memo is None:
        memo = env.setdefault("__memo__", {}) if isinstance(env, dict) else {}
    stack = [x]
    while stack:
        s = stack[-1]
        if id(s) in memo:
            stack.pop()
            continue
        op = s.op
        if op == "c":
            memo[id(s)] = (_hpc(s.a) if hp else float(s.a), s)
        elif op == "p":
            vs = rf_vars(s._rf, set())
            need = [vsym(W.vars[v]) for v in vs]
            tot = _eval_poly(s._rf.n, env, memo)
            for p, e in s._rf.d.values():
                tot /= _eval_poly(p, env, memo) ** e
            memo[id(s)] = (tot, s)
        elif op == "v":
            memo[id(s)] = (_eval_var(s.a, env, memo), s)
        else:
            a, b = s.a, s.b
            miss = [k for k in (a, b) if id(k) not in memo]
            if miss:
                stack.extend(miss)
                continue
            va, vb = memo[id(a)][0], memo[id(b)][0]
            try:
                if op == "+":
                    r = va + vb
                elif op == "-":
                    r = va - vb
                elif op == "*":
                    r = va * vb
                else:
                    r = va / vb if vb else math.nan
            except OverflowError:
                r = math.nan
            memo[id(s)] = (r, s)
        stack.pop()
    return memo[id(x)][0]


def _eval_poly(p, env, memo):
    tot = 0.0
    for m, c in p.items():
        t = _hpc(c) if HP[0] else float(c)
        for v, e in m:
            t *= _eval_var(W.vars[v], env, memo) ** e
        tot += t
    return tot


def _eval_var(v, env, memo):
    if v.name in env:
        return env[v.name]
    if v.kind in ("in",):
        raise KeyError(v.name)
    if v.kind == "const":
        return _hpc(v.pin) if HP[0] else float(v.pin)
    key = ("var", v.id)
    if key in memo:
        return memo[key][0]
    args = [evalf(a, env, memo) for a in v.args]
    fn = v.fn
    try:
        if HP[0] and hasattr(mpmath, fn.replace("_big", "")) and fn != "powr":
            a = [mpmath.mpf(x) for x in args]
            r = mpmath.mpf(0) if fn.startswith("sqrt") and a[0] <= 0 else getattr(mpmath, fn.replace("_big", ""))(*a)
            if not isinstance(r, mpmath.mpf):
                r = math.nan
        elif fn in ("sqrt", "sqrt_big"):
            r = math.sqrt(args[0]) if args[0] > 0 else 0.0
        elif fn in _NUM:
            r = float(_NUM[fn](args[0]))
        elif fn == "pow10":
            r = 10.0 ** args[0]
        elif fn == "powr":
            r = args[0] ** args[1]
        elif fn in EXTRA_NUM:
            r = EXTRA_NUM[fn](*args)
        else:
            raise KeyError(v.name)
    except (ValueError, OverflowError, ZeroDivisionError):
        r = math.nan
    memo[key] = (r, v)
    return r


EXTRA_NUM = {}
HP = [False]  # evaluate with 60 digits (inputs have to be mpf)


def _hpc(c):
    return mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)


class high_precision:
    def __enter__(self):
        self.old = mpmath.mp.dps
        mpmath.mp.dps = 60
        HP[0] = True

    def __exit__(self, *a):
        HP[0] = False
        mpmath.mp.dps = self.old


def show(x, depth=0, lim=6):
    if not isinstance(x, Sym):
        return repr(x)
    if x.op == "c":
        return str(x.a) if x.a.denominator < 10**6 else repr(float(x.a))
    if x.op == "v":
        v = x.a
        if v.kind in ("in", "const"):
            return v.name
        if depth > lim:
            return v.name
        return f"{v.fn}({', '.join(show(a, depth + 1, lim) for a in v.args)})"
    if x.op == "p":
        return "poly"
    if depth > lim:
        return "..."
    return f"({show(x.a, depth + 1, lim)} {x.op} {show(x.b, depth + 1, lim)})"
