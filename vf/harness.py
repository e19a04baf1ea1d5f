"""Harness environment: one harness, two executions.

A harness is a function ``fn(env)``.  It runs

* symbolically (``env.sym``): ``env.real`` gives a symbolic real, branches fork,
  every claim is a solver query;
* concretely: ``env.real`` gives a float, the code under test is the unpatched
  repository code, and claims are evaluated with a tolerance.  This is how
  solver models are replayed, and how the encoding is validated on one witness
  per path.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import logging

import numpy as np
import z3

logging.disable(logging.CRITICAL)

from . import path as PT
from . import shim as SH
from . import sym as S
from .path import ST, Explorer, Infeasible, PathCap
from .sym import Inconclusive, Sym, SymBool, SymC, TooBig, band, bnot, bor

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Stop(Exception):
    """Enough violations found."""


class CaseTime(BaseException):
    """The case ran out of time (raised by a timer)."""


class Skip(Exception):
    """Concrete run left the assumptions."""


class ClaimFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


# -- uninterpreted functions: concrete counterpart ---------------------------


def _bound(x):
    return x if x is None or isinstance(x, (int, float)) else "expr"


class UFun:
    """Arbitrary function of its arguments (smooth pseudo-random when concrete)."""

    def __init__(self, env, name, lo, hi, scale):
        self.env, self.name, self.lo, self.hi, self.scale = env, name, lo, hi, scale
        h = hashlib.sha256(f"{name}|{env.seed}".encode()).digest()
        self.ph = [b / 255.0 * 6.28 for b in h]

    def num(self, *args):
        t = self.ph[0]
        for i, a in enumerate(args):
            a = float(a)
            u = math.copysign(math.log1p(abs(a) / self.scale), a)
            t += (0.6 + self.ph[(2 * i + 1) % 32] / 8) * math.sin(u * (0.7 + self.ph[(2 * i + 2) % 32] / 9) + self.ph[(2 * i + 3) % 32])
        s = math.sin(t)  # [-1, 1]
        lo, hi = self.lo, self.hi
        if lo is None and hi is None:
            return 1.5 * s + 0.31
        if hi is None:
            return float(lo) + math.exp(s)
        if lo is None:
            return float(hi) - math.exp(s)
        return float(lo) + (float(hi) - float(lo)) * (0.5 + 0.45 * s)

    def one(self, *args):
        env = self.env
        if not env.sym:
            for key, val in env.uftab.get(self.name, ()):
                if len(key) == len(args) and all(
                        abs(k - a) <= 1e-9 * max(abs(k), abs(a), 1e-300) for k, a in zip(key, args)):
                    return val
            return self.num(*args)
        a = []
        for x in args:
            x = S.lift(x)
            if isinstance(x, float):
                return S.atom("nonfinite_" + self.name, ())
            a.append(x)
        s = S.atom("F_" + self.name, tuple(a))
        v = s.a if s.op == "v" else None
        if v is not None:
            v.lo, v.hi = S._fr(self.lo), S._fr(self.hi)
            v.lo_s = v.hi_s = True
        S.EXTRA_NUM["F_" + self.name] = self.num
        return s

    def __call__(self, *args):
        arrs = [a for a in args if isinstance(a, (np.ndarray, list, tuple))]
        if not arrs:
            return self.one(*[a.item() if hasattr(a, "item") and not S.is_sym(a) else a for a in args])
        obj = self.env.sym
        bs = np.broadcast_arrays(*[SH._oarr(a) if obj else np.asarray(a, float) for a in args])
        out = np.empty(bs[0].shape, dtype=object if obj else float)
        for idx in np.ndindex(out.shape):
            out[idx] = self.one(*[b[idx] for b in bs])
        return out.view(SH.SymArray) if obj else out


class Env:
    def __init__(self, mode, inputs=None, choices=None, uftab=None, seed=0, rtol=None):
        self.sym = mode == "sym"
        self.inputs = inputs or {}
        self.choices = list(choices or ())
        self.uftab = uftab or {}
        self.seed = seed
        self.results = []      # concrete: (label, ok, a, b)
        self.records = []      # symbolic: claim records of the current path
        self.case = None
        self._ci = 0
        self._patches = []
        self.notes = set()
        self.assumed = set()

    # -- inputs --------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_s=True, hi_s=True):
        """Arbitrary real in (lo, hi); strict ends unless lo_s/hi_s is False."""
        key = (_bound(lo), _bound(hi), lo_s, hi_s)
        if self.case.bounds.setdefault(name, key) != key:
            # one variable stands for one domain: the first one would win silently
            import sys
            print("BOUNDSCLASH", self.case.name, name, self.case.bounds[name], key, file=sys.stderr)
        self.case.inputs[name] = (lo, hi)
        if self.sym:
            if name in S.W.by_name:
                return S.vsym(S.W.by_name[name])
            return S.input_var(name, lo, hi, lo_s, hi_s)
        v = self.inputs.get(name)
        if v is None:
            v = _default(lo, hi, name, self.seed)
        return float(v)

    def choose(self, name, options):
        options = list(options)
        self.case.inputs[name] = ("choice", len(options))
        if self.sym:
            return options[S.P.choose(len(options))]
        k = self.choices[self._ci] if self._ci < len(self.choices) else 0
        self._ci += 1
        return options[min(k, len(options) - 1)]

    def uf(self, name, lo=None, hi=None, scale=1.0):
        self.case.stubs.add(name)
        return UFun(self, name, lo, hi, scale)

    def rng(self, prefix="u", script=None):
        """Random draws become arbitrary values in (0, 1) (inputs of the harness).

        ``script(k)`` may give the k-th draw (None: arbitrary).
        """
        env = self
        cnt = [0]

        class Gen:
            def random(self, size=None, dtype=None, **k):
                def one():
                    cnt[0] += 1
                    v = script(cnt[0] - 1) if script else None
                    if v is not None:
                        return v
                    return env.real(f"{prefix}{cnt[0]}", 0, 1)
                if size is None:
                    return one()
                n = int(np.prod(size))
                a = env.array([one() for _ in range(n)])
                return a.reshape(size)

            random_sample = sample = ranf = random

            def rand(self, *s):
                return self.random(s or None)

            def uniform(self, low=0.0, high=1.0, size=None):
                return low + (high - low) * self.random(size)

        g = Gen()
        mods = [np.random] + ([SH.NP.random] if self.sym else [])
        for m in mods:
            env.patch(m, "default_rng", lambda *a, **k: g)
            env.patch(m, "random", g.random)
            env.patch(m, "rand", g.rand)
            env.patch(m, "uniform", g.uniform)
            env.patch(m, "random_sample", g.random)
        return g

    def hook(self, name, fn):
        """Replace a scipy routine (quad, dblquad, ...) at the library boundary."""
        if self.sym:
            self.patch(SH.HOOKS, name, fn)
            return
        import scipy.integrate
        import scipy.interpolate
        import scipy.optimize
        for lib in (scipy.integrate, scipy.interpolate, scipy.optimize):
            if hasattr(lib, name):
                old = getattr(lib, name)
                self.patch(lib, name, fn)
                for mn, mod in list(sys.modules.items()):
                    if mod is not None and mn.startswith("hazma"):
                        for k, v in list(vars(mod).items()):
                            if v is old:
                                self.patch(mod, k, fn)

    def quad(self, f, a, b):
        if self.sym:
            return SH.sym_quad(f, a, b)[0]
        import scipy.integrate
        return scipy.integrate.quad(f, a, b, limit=200)[0]

    @property
    def np(self):
        return SH.NP if self.sym else np

    @property
    def pi(self):
        return SH.pi_const() if self.sym else math.pi

    def const(self, name, value):
        """A physical constant: symbolic unless the case pins constants."""
        if self.sym and self.case.sym_consts:
            return S.const_var("k_" + name, value)
        return value

    def array(self, xs):
        if self.sym:
            return SH.to_sym_array(list(xs))
        xs = list(xs)
        return np.array(xs, dtype=complex if any(isinstance(x, complex) for x in xs) else float)

    def assume(self, c):
        if self.sym:
            if isinstance(c, SymBool):
                # cut infeasible paths
                r, _ = S.P.query([c], PT.T_FEAS)
                if r == z3.unsat:
                    raise Infeasible()
                S.P.add(c)
                S.P.know(c)
            elif not c:
                raise Infeasible()
        elif not bool(np.all(c)):
            raise Skip()

    # -- stubs ---------------------------------------------------------------
    def patch(self, obj, name, val):
        if isinstance(obj, dict):
            self._patches.append((obj, name, obj.get(name, _MISSING), "d"))
            obj[name] = val
        else:
            old = obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, name)
            self._patches.append((obj, name, old, "a"))
            setattr(obj, name, val)

    def unpatch(self):
        for obj, name, old, k in reversed(self._patches):
            if k == "d":
                if old is _MISSING:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._patches = []

    # -- claims --------------------------------------------------------------
    def eq(self, label, a, b, rtol=1e-6, atol=0.0, nan_ok=False):
        """a == b (arrays elementwise)."""
        self._each(label, a, b, lambda l, x, y: self._eq1(l, x, y, rtol, atol, nan_ok))

    def le(self, label, a, b, rtol=1e-9, atol=0.0):
        self._each(label, a, b, lambda l, x, y: self._ord1(l, x, y, "<=", rtol, atol))

    def ge(self, label, a, b, rtol=1e-9, atol=0.0):
        self.le(label, b, a, rtol, atol)

    def lt(self, label, a, b):
        self._each(label, a, b, lambda l, x, y: self._ord1(l, x, y, "<", 0, 0))

    def gt(self, label, a, b):
        self.lt(label, b, a)

    def finite(self, label, a):
        for l, x in _flat(label, a):
            if self.sym:
                ok = not (isinstance(x, float) and not math.isfinite(x))
                self._claim_sym(l, ok, x, None)
            else:
                self._res(l, bool(np.isfinite(x)), x, None)

    def claim(self, label, cond):
        """Boolean claim (SymBool or bool)."""
        if isinstance(cond, np.ndarray) and cond.dtype == object:
            for l, x in _flat(label, cond):
                self.claim(l, x)
            return
        if self.sym:
            if isinstance(cond, SymBool):
                self._claim_sym(label, cond, None, None)
            else:
                self._claim_sym(label, bool(np.all(cond)), None, None)
        else:
            self._res(label, bool(np.all(cond)), cond, None)

    def raises(self, label, excs, fn):
        try:
            fn()
        except Infeasible:
            raise
        except excs:
            self.claim(label, True)
        else:
            self.claim(label, False)

    def returns(self, label, fn):
        """fn() must not raise; returns its value or None."""
        try:
            r = fn()
        except (Inconclusive, TooBig, PathCap, Skip):
            raise
        except Exception as e:  # noqa: BLE001
            raise UnexpectedException(label, e) from e
        return r

    # -- internals -----------------------------------------------------------
    def _each(self, label, a, b, f):
        fa, fb = _flat(label, a), _flat(label, b)
        if len(fa) != len(fb):
            if len(fb) == 1 and not _isarr(b):
                fb = fb * len(fa)
            elif len(fa) == 1 and not _isarr(a):
                fa = [(l, fa[0][1]) for l, _ in fb]
            else:
                msg = f"shapes {np.shape(a)} vs {np.shape(b)}"
                if self.sym:
                    self._claim_sym(label + ":shape", False, msg, None)
                else:
                    self._res(label + ":shape", False, msg, None)
                return
        for (l, x), (_, y) in zip(fa, fb):
            f(l, x, y)

    def _eq1(self, label, x, y, rtol, atol, nan_ok):
        if not self.sym:
            x, y = _num(x), _num(y)
            if _isnan(x) or _isnan(y):
                self._res(label, nan_ok and _isnan(x) and _isnan(y), x, y)
                return
            if x == y:
                self._res(label, True, x, y)
                return
            tol = rtol * max(abs(x), abs(y)) + atol
            self._res(label, bool(abs(x - y) <= tol), x, y)
            return
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            x = x if isinstance(x, SymC) else SymC(S.lift(x).re if isinstance(x, complex) else x, S.lift(x).im if isinstance(x, complex) else 0)
            y = y if isinstance(y, SymC) else SymC(S.lift(y).re if isinstance(y, complex) else y, S.lift(y).im if isinstance(y, complex) else 0)
            self._eq1(label + ".re", x.re, y.re, rtol, atol, nan_ok)
            self._eq1(label + ".im", x.im, y.im, rtol, atol, nan_ok)
            return
        x, y = S.lift(x), S.lift(y)
        if isinstance(x, float) or isinstance(y, float):
            ok = isinstance(x, float) and isinstance(y, float) and (x == y or (nan_ok and x != x and y != y))
            self._claim_sym(label, ok, x, y)
            return
        self.records.append(("eq", label, x, y, rtol, atol))

    def _ord1(self, label, x, y, op, rtol, atol):
        if not self.sym:
            x, y = _num(x), _num(y)
            if _isnan(x) or _isnan(y):
                self._res(label, False, x, y)
                return
            tol = rtol * max(abs(x), abs(y)) + atol if op == "<=" else 0.0
            ok = (x <= y + tol) if op == "<=" else x < y
            if not math.isfinite(x) or not math.isfinite(y):
                ok = x <= y if op == "<=" else x < y
            self._res(label, bool(ok), x, y)
            return
        x, y = S.lift(x), S.lift(y)
        if isinstance(x, float) or isinstance(y, float):
            fx = x if isinstance(x, float) else 0.0
            fy = y if isinstance(y, float) else 0.0
            ok = not (fx != fx or fy != fy) and (fx <= fy if op == "<=" else fx < fy)
            self._claim_sym(label, ok, x, y)
            return
        c = S.cmp(x, y, op)
        if op == "<=" and isinstance(c, SymBool):
            self.records.append(("le", label, x, y, rtol, atol))
        else:
            self._claim_sym(label, c, x, y)

    def _claim_sym(self, label, cond, x, y):
        self.records.append(("bool", label, cond, x, y))

    def _res(self, label, ok, x, y):
        self.results.append((label, ok, x, y))


_MISSING = object()


class UnexpectedException(Exception):
    def __init__(self, label, e):
        super().__init__(f"{label}: {type(e).__name__}: {e}")
        self.label = label
        self.e = e


def _isarr(x):
    return isinstance(x, (np.ndarray, list, tuple, dict))


def _flat(label, x):
    if isinstance(x, dict):
        out = []
        for k in x:
            out.extend(_flat(f"{label}.{k}", x[k]))
        return out
    if isinstance(x, np.ndarray):
        if x.shape == ():
            return [(label, x[()])]
        return [(label, e) for e in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out.extend(_flat(label, e))
        return out
    return [(label, x)]


def _num(x):
    if isinstance(x, np.ndarray):
        x = x.item()
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    return float(x)


def _isnan(x):
    return x != x


def _default(lo, hi, name, seed):
    r = random.Random(f"{name}|{seed}")
    return _sample(r, lo, hi)


def _sample(r, lo, hi):
    flo = None if lo is None else float(lo)
    fhi = None if hi is None else float(hi)
    if flo is not None and fhi is not None:
        k = r.random()
        if flo > 0 and fhi / flo > 20 and k < 0.6:
            return math.exp(r.uniform(math.log(flo), math.log(fhi)))
        if flo == 0 and fhi > 0 and k < 0.3:
            return fhi * 10 ** r.uniform(-4, 0)
        return r.uniform(flo, fhi)
    if flo is not None:
        return flo + 10 ** r.uniform(-3, 3)
    if fhi is not None:
        return fhi - 10 ** r.uniform(-3, 3)
    return r.choice((-1, 1)) * 10 ** r.uniform(-3, 3)


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------


class Case:
    def __init__(self, name, fn, tier="quick", timeout=240, max_paths=3000, sym_consts=True,
                 undef="nan", funcs=(), bounds="", skip_patch=(), tprove=None, search=200,
                 hooks=None, exact_consts=False, claim_time=60, path_time=100):
        self.path_time = path_time
        self.claim_time = claim_time
        self.name, self.fn, self.tier = name, fn, tier
        self.timeout, self.max_paths = timeout, max_paths
        self.sym_consts, self.undef = sym_consts, undef
        self.funcs, self.bounds = tuple(funcs), bounds
        self.skip_patch = skip_patch
        self.tprove = tprove
        self.search = search
        self.hooks = hooks or {}
        self.inputs = {}
        self.bounds = {}
        self.stubs = set()


def run_concrete(case, inputs, choices=(), uftab=None, seed=0, before=()):
    """Run the harness on the real code. -> dict

    `before`: choices of runs made earlier in the same process (a history).
    """
    for b in before:
        run_concrete(case, inputs, b, None, seed)
    env = Env("conc", inputs, choices, uftab, seed)
    env.case = case
    import warnings
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            case.fn(env)
        status, detail = "ok", ""
    except Skip:
        status, detail = "skip", ""
    except UnexpectedException as e:
        tb = traceback.format_exception(e.e)
        status, detail = "exc", f"{e.label}: " + "".join(tb[-4:])
    except Exception as e:  # noqa: BLE001
        status, detail = "exc", "".join(traceback.format_exception(e)[-4:])
        if _harness_fault(e):
            status = "harness"
    finally:
        env.unpatch()
    bad = [(l, _js(x), _js(y)) for l, ok, x, y in env.results if not ok]
    vals = [(l, _js(x), _js(y)) for l, ok, x, y in env.results]
    return {"status": status, "detail": detail, "bad": bad, "vals": vals,
            "n": len(env.results)}


def _harness_fault(e):
    """The harness does not fit the tree (renamed name, changed signature)."""
    if not isinstance(e, (ImportError, AttributeError, TypeError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and os.sep + "props" + os.sep in tb[-1].filename


def _js(x):
    try:
        x = _num(x)
        if isinstance(x, complex):
            return [x.real, x.imag]
        return x
    except Exception:
        return str(x)[:200]


# -- replay server (forked before any symbolic run touches the process) ------


class Replayer:
    def __init__(self, case):
        import multiprocessing as mp
        self.case = case
        self.c, child = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            self.c.close()
            try:
                self._serve(child)
            finally:
                os._exit(0)
        child.close()
        self.pid = pid
        self.ok = True

    def _serve(self, conn):
        while True:
            try:
                job = conn.recv()
            except EOFError:
                return
            if job is None:
                return
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(int(job.pop("alarm", 60)))
                try:
                    res = run_concrete(self.case, **job)
                except BaseException as e:  # noqa: BLE001
                    res = {"status": "exc", "detail": repr(e), "bad": [], "vals": [], "n": 0}
                try:
                    conn.send(res)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                conn.send({"status": "timeout", "detail": f"status {st}", "bad": [], "vals": [], "n": 0})

    def run(self, inputs, choices=(), uftab=None, seed=0, alarm=60, before=()):
        self.c.send({"inputs": inputs, "choices": list(choices), "uftab": uftab, "seed": seed, "alarm": alarm,
                     "before": [list(b) for b in before]})
        try:
            return self.c.recv()
        except EOFError:
            return {"status": "timeout", "detail": "replayer died", "bad": [], "vals": [], "n": 0}

    def close(self):
        try:
            self.c.send(None)
            self.c.close()
        except Exception:
            pass
        try:
            os.waitpid(self.pid, 0)
        except Exception:
            pass


# -- symbolic run ------------------------------------------------------------


def _env_of_model(m):
    """Model -> (inputs, uf table)."""
    inputs, tab = {}, {}
    names = {v.name: v for v in S.W.vars}
    for v in S.W.vars:
        if v.kind == "in":
            f = PT._num(m.eval(v.z, model_completion=False))
            if f is not None:
                inputs[v.name] = f
    full = dict(inputs)
    memo = {"__memo__": {}}
    for v in S.W.vars:
        if v.kind == "uf" and v.fn.startswith("F_"):
            f = PT._num(m.eval(v.z, model_completion=False))
            if f is None:
                continue
            full[v.name] = f
    for v in S.W.vars:
        if v.kind == "uf" and v.fn.startswith("F_") and v.name in full:
            try:
                e = _with_defaults(full)
                args = tuple(S.evalf(a, e) for a in v.args)
            except Exception:
                continue
            tab.setdefault(v.fn[2:], []).append((args, full[v.name]))
    return inputs, tab


class _with_defaults(dict):
    """Missing inputs get their default concrete value."""

    def __init__(self, d, seed=0):
        super().__init__(d)
        self.seed = seed

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        v = S.W.by_name.get(k)
        if v is not None and v.kind == "in" and not k.startswith("xi"):
            self[k] = float(_default(None if v.lo is None else float(v.lo), None if v.hi is None else float(v.hi), k, self.seed))
            return True
        return False


def _on_alarm(*a):
    raise CaseTime()


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.violations = []
        self.undecided = []
        self.claims = 0
        self.proved = 0
        self.exact = 0
        self.tolerance = 0
        self.validated = 0
        self.mismatch = []
        self.paths = 0
        self.complete = False
        self.witness = False
        self.stats = {}
        self.wall = 0.0
        self.inputs = {}
        self.stubs = []

    def dict(self):
        return dict(self.__dict__)


def _input_bounds():
    return {v.name: (v.lo, v.hi) for v in S.W.vars if v.kind == "in" and not v.name.startswith(("xi", "inf!"))}


class CaseRunner:
    def __init__(self, case, replayer, deadline):
        self.case, self.rep, self.deadline = case, replayer, deadline
        self.res = CaseResult(case.name)
        self.seen_labels = set()
        self.rng = random.Random(SEED * 7919 + 13)
        self.tprove = case.tprove or PT.T_PROVE
        self.nwit = 0
        self.t_viol = 0.0
        self.earlier = []   # choices of the paths explored before
        # labels of the listed findings of this case: reported, and the exploration goes on as if they held
        self.known = set(getattr(case, "known", ()))
        self.fresh = 0      # violations that are not listed

    def run(self):
        t0 = time.time()
        case, res = self.case, self.res
        S.set_world(S.World())
        ex = Explorer(case.max_paths, self.deadline)
        saved_hooks = dict(SH.HOOKS)
        SH.HOOKS.update(case.hooks)
        try:
            with SH.patched(sym_consts=case.sym_consts, skip=case.skip_patch):
                try:
                    signal.signal(signal.SIGALRM, _on_alarm)
                    signal.setitimer(signal.ITIMER_REAL, max(1.0, self.deadline - time.time() + 15), 5.0)
                    try:
                        ex.run(self._path)
                        res.complete = True
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Stop:
                    pass
                except PathCap as e:
                    res.undecided.append(("<paths>", str(e)))
                except CaseTime:
                    res.undecided.append(("<time>", "case exceeded its time budget"))
                except Exception as e:  # noqa: BLE001
                    if os.environ.get("VF_TRACE"):
                        traceback.print_exception(e)
                    res.undecided.append(("<engine>", "".join(traceback.format_exception(e))[-1500:]))
                if res.undecided and not self.fresh:
                    self._fallback()
        finally:
            SH.HOOKS.clear()
            SH.HOOKS.update(saved_hooks)
        res.paths = ex.done
        res.stats = ST.dict()
        res.wall = time.time() - t0
        res.inputs = {k: [str(x) for x in v] for k, v in case.inputs.items()}
        res.stubs = sorted(case.stubs)
        if res.complete and (res.claims == 0 or not res.witness) and not res.violations and not res.undecided:
            res.undecided.append(("<vacuous>", "no feasible path reached a claim"))
        return res

    # one path
    def _path(self, p):
        env = Env("sym")
        env.case = self.case
        p.undef_mode = self.case.undef
        exc = None
        self._timer(min(self.case.path_time, self.deadline + 5 - time.time()))
        try:
            self.case.fn(env)
        except (Infeasible, PathCap):
            raise
        except CaseTime:
            exc = ("engine", RuntimeError("symbolic execution of the path exceeded its time budget"))
        except (Inconclusive, TooBig) as e:
            exc = ("engine", e)
        except RecursionError as e:
            exc = ("engine", e)
        except Exception as e:  # noqa: BLE001
            exc = ("exc", e)
        finally:
            env.unpatch()
            self._timer(self.deadline + 15 - time.time())
        res = self.res
        # candidate reports are settled with real code: concrete side is unpatched in the replayer
        if self.fresh >= 3:
            raise Stop()
        if exc is not None:
            self._settle_exception(p, exc)
        bad = False
        pts = self._points(p) if env.records else []
        for rec in env.records:
            res.claims += 1
            if self.fresh >= 3 or (self.fresh and time.time() - self.t_viol > 20):
                raise Stop()
            if self._refuted(p, rec, pts):
                bad = True
                continue
            self._timer(min(self.case.claim_time, self.deadline + 15 - time.time()))
            try:
                ok = self._prove(p, env, rec)
            except (CaseTime, TooBig, MemoryError, RecursionError, Inconclusive) as e:
                if isinstance(e, CaseTime) and time.time() > self.deadline + 10:
                    raise
                ok = False
                if rec[1] not in self.seen_labels:
                    self._timer(self.deadline + 15 - time.time())
                    self._search(p, rec[1], [], 30)
                if rec[1] not in self.seen_labels:
                    self.seen_labels.add(rec[1])
                    res.undecided.append((rec[1], f"claim not decided: {type(e).__name__} {e}"[:200]))
            self._timer(self.deadline + 15 - time.time())
            bad = bad or not ok
        if exc is None and env.records and not bad:
            self._witness(p, env)
        if list(p.choices) not in self.earlier:
            self.earlier.append(list(p.choices))

    @staticmethod
    def _timer(t):
        signal.setitimer(signal.ITIMER_REAL, max(1.0, t), 5.0)

    # -- refutation at concrete points of the path ------------------------------
    def _points(self, p):
        """A few input points inside the path condition."""
        bounds = _input_bounds()
        out = []
        t_end = time.time() + 3
        for k in range(200):
            if len(out) >= 3 or time.time() > t_end:
                break
            inputs = {n: _sample(self.rng, lo, hi) for n, (lo, hi) in bounds.items()}
            try:
                env = _with_defaults(dict(inputs), k)
                if all(c.evalf(env) for c in p.conds):
                    out.append((inputs, env, k))
            except Exception:
                continue
        return out

    def _refuted(self, p, rec, pts):
        """The claim is false in the encoding at a point of the path, and in the real code."""
        if rec[1] in self.seen_labels:
            return False
        for inputs, env, k in pts:
            try:
                if rec[0] == "bool":
                    if rec[2] is True or not isinstance(rec[2], SymBool):
                        return False
                    wrong = not rec[2].evalf(env)
                else:
                    a, b = float(S.evalf(rec[2], env)), float(S.evalf(rec[3], env))
                    t = 5 * rec[4] * max(abs(a), abs(b)) + 5 * rec[5]
                    wrong = (a > b + t) if rec[0] == "le" else not abs(a - b) <= t
                    if a != a or b != b:
                        wrong = False
            except Exception:
                continue
            if wrong and self._wrong_hp(rec, inputs, k):
                out = self.rep.run(inputs, p.choices, None, k)
                if self._is_bad(out, rec[1]):
                    self._violation(rec[1], inputs, p.choices, None, k, out)
                    return True
        return False

    # -- claims --------------------------------------------------------------

    def _wrong_hp(self, rec, inputs, k):
        """The same with 60 digits: rounding does not refute a claim."""
        import mpmath
        if rec[0] == "bool":
            return True
        try:
            with S.high_precision():
                env = _with_defaults({n: mpmath.mpf(v) for n, v in inputs.items()}, k)
                a, b = S.evalf(rec[2], env), S.evalf(rec[3], env)
                t = 5 * rec[4] * max(abs(a), abs(b)) + 5 * rec[5]
                return bool((a > b + t) if rec[0] == "le" else abs(a - b) > t)
        except Exception:
            return True

    def _fallback(self):
        """A case the engine could not finish: look for a concrete violation."""
        t_end = time.time() + 20
        bounds = _input_bounds()
        nch = max([v[1] for v in self.case.inputs.values() if v[0] == "choice"] or [1])
        for k in range(150):
            if time.time() > t_end:
                return
            inputs = {n: _sample(self.rng, lo, hi) for n, (lo, hi) in bounds.items()}
            ch = [self.rng.randrange(nch) for _ in range(12)]
            out = self.rep.run(inputs, ch, None, k, alarm=10)
            if out["status"] == "timeout":
                return
            if out["status"] == "exc" or (out["status"] == "ok" and self._bad(out)):
                lab = self._bad(out)[0][0] if out["bad"] else "<exception>"
                self._violation(lab, inputs, ch, None, k, out)
                return

    def _prove(self, p, env, rec):
        kind, label = rec[0], rec[1]
        res = self.res
        if kind == "bool":
            cond = rec[2]
            if cond is True:
                res.proved += 1
                return True
            if cond is False:
                return self._candidate(p, [], label, "claim is false on this path", rec)
            neg = bnot(cond)
            r, m = p.query([neg], self.tprove)
            if r == z3.unsat:
                res.proved += 1
                ST.discharged += 1
                return True
            r2, m2 = p.query([neg], self.tprove, pin=True)
            if r2 == z3.unsat:
                res.proved += 1
                ST.discharged += 1
                return True
            return self._candidate(p, [neg], label, str(r2), rec, known_sat=r2 == z3.sat)
        if kind == "eq":
            _, _, x, y, rtol, atol = rec
            try:
                d = S.mk("-", x, y)
                if not isinstance(d, Sym):
                    d = S.lift(d)
                neg = SymBool("!=", d)
                if not d.rf.n:
                    # canonical forms coincide; ask the solver for the record
                    r, _ = PT._check([neg.z()], 2000, "default")
                    if r == z3.unsat:
                        res.proved += 1
                        res.exact += 1
                        ST.discharged += 1
                        return True
            except TooBig:
                return self._candidate(p, [], label, "expression too large", rec, known_sat=False)
            r, m = p.query([neg], self.tprove)
            if r == z3.unsat:
                res.proved += 1
                res.exact += 1
                ST.discharged += 1
                return True
            # within the tolerance, constants at their values
            try:
                neg2 = self._differs(x, y, rtol, atol)
            except TooBig:
                neg2 = None
            if neg2 is not None:
                r, m = p.query([neg2], self.tprove, pin=True)
                if r == z3.unsat:
                    res.proved += 1
                    res.tolerance += 1
                    ST.discharged += 1
                    return True
            return self._candidate(p, [neg2 or neg], label, str(r), rec, known_sat=r == z3.sat)
        if kind == "le":
            _, _, x, y, rtol, atol = rec
            neg = SymBool(">", S.mk("-", x, y))
            r, m = p.query([neg], self.tprove)
            if r == z3.unsat:
                res.proved += 1
                res.exact += 1
                ST.discharged += 1
                return True
            t = self._tolsum(x, y, rtol, atol)
            neg2 = SymBool(">", S.mk("-", S.mk("-", x, y), t))
            r, m = p.query([neg2], self.tprove, pin=True)
            if r == z3.unsat:
                res.proved += 1
                res.tolerance += 1
                ST.discharged += 1
                return True
            return self._candidate(p, [neg2], label, str(r), rec, known_sat=r == z3.sat)
        raise AssertionError(kind)

    def _tolsum(self, x, y, rtol, atol):
        sx, sy = S.quick_sign(x), S.quick_sign(y)
        ax = x if sx in (1, 2, 0) else (S.mk("-", S.ZERO, x) if sx in (-1, -2) else None)
        ay = y if sy in (1, 2, 0) else (S.mk("-", S.ZERO, y) if sy in (-1, -2) else None)
        t = S.const(Fraction(atol))
        rt = S.const(S.snap(rtol / 2) if rtol else Fraction(0))
        for a in (ax, ay):
            if a is not None:
                t = S.mk("+", t, S.mk("*", rt, a))
        return t

    def _differs(self, x, y, rtol, atol):
        d = S.mk("-", x, y)
        # |d| > tol*max(|x|,|y|): a common multiple is removed by comparing
        # with x where its sign is known, else squares
        t = self._tolsum(x, y, rtol, atol)
        sx, sy = S.quick_sign(x), S.quick_sign(y)
        if sx is not None or sy is not None or atol:
            return bor(SymBool(">", S.mk("-", d, t)), SymBool("<", S.mk("+", d, t)))
        rt2 = S.const(S.snap(rtol * rtol))
        d2 = S.mk("*", d, d)
        return SymBool(">", S.mk("-", d2, S.mk("*", rt2, S.mk("*", x, x))))

    # -- candidates ----------------------------------------------------------
    def _candidate(self, p, extra, label, why, rec, known_sat=None):
        """Find concrete inputs on this path that break `label` on the real code."""
        res = self.res
        if label in self.seen_labels:
            return False
        tried = 0
        models = []
        try:
            r, m = p.query(extra, self.tprove, pin=True, full=True)
        except TooBig:
            r, m = z3.unknown, None
        if r == z3.sat:
            models.append(_env_of_model(m))
            # a "generic" second model: away from special values
        for inputs, tab in models:
            for use_tab in (tab, None):
                out = self.rep.run(inputs, p.choices, use_tab, 0)
                tried += 1
                if self._is_bad(out, label):
                    return self._violation(label, inputs, p.choices, use_tab, 0, out)
                if not tab:
                    break
        if r != z3.unsat or known_sat is True:
            tried = self._search(p, label, models, self.case.search, tried)
            if tried is None:
                return False
        if r == z3.unsat and known_sat is not True:
            # the full path condition excludes it
            self.res.proved += 1
            return True
        if self._with_history(p, label, models):
            return False
        self.seen_labels.add(label)
        self.res.undecided.append((label, f"solver: {why}; path query: {r}; no replayable input in {tried} runs"))
        return False

    def _with_history(self, p, label, models):
        """The paths share a process: does the claim fail after the runs of the paths before this one?"""
        hist = self.earlier[-40:]
        if list(p.choices) not in hist:
            hist = hist + [list(p.choices)]
        if not hist or time.time() > self.deadline:
            return False
        bounds = _input_bounds()
        sets = [inputs for inputs, _ in models[:1]]
        sets += [{n: _sample(self.rng, lo, hi) for n, (lo, hi) in bounds.items()} for _ in range(4)]
        for inputs in sets:
            out = self.rep.run(inputs, p.choices, None, 0, before=hist)
            if out["status"] == "ok" and out["bad"] and not self._is_bad(self.rep.run(inputs, p.choices, None, 0), label):
                for b in hist:   # one earlier run that is enough
                    o = self.rep.run(inputs, p.choices, None, 0, before=[b])
                    if o["status"] == "ok" and o["bad"]:
                        hist, out = [b], o
                        break
                self._violation(label, inputs, p.choices, None, 0, out, before=hist)
                return True
        return False

    def _search(self, p, label, models, limit, tried=0):
        """Replayable inputs near solver models or inside the box."""
        t_end = min(self.deadline + 5, time.time() + 60)
        bounds = _input_bounds()
        k = 0
        while tried < limit and time.time() < t_end:
            k += 1
            inputs = {}
            if models and k % 2 == 0:
                base = models[0][0]
                for n, v in base.items():
                    lo, hi = bounds.get(n, (None, None))
                    w = v * (1 + self.rng.uniform(-1, 1) * 10 ** self.rng.uniform(-4, -0.3))
                    if (lo is not None and w <= lo) or (hi is not None and w >= hi):
                        w = v
                    inputs[n] = w
            for n, (lo, hi) in bounds.items():
                if n not in inputs:
                    inputs[n] = _sample(self.rng, lo, hi)
            # prefer inputs on this path
            if k % 3 and not self._on_path(p, inputs, k):
                if k > 4000:
                    break
                continue
            out = self.rep.run(inputs, p.choices, None, k)
            tried += 1
            if self._is_bad(out, label):
                self._violation(label, inputs, p.choices, None, k, out)
                return None
            if out["status"] == "timeout":
                break
        return tried

    def _on_path(self, p, inputs, seed):
        try:
            env = _with_defaults(dict(inputs), seed)
            return all(c.evalf(env) for c in p.conds)
        except Exception:
            return True

    def _listed(self, label):
        return label.replace(" ", "_") in self.known

    def _bad(self, out, label=None):
        """The failed claims of a replay; a listed finding does not stand for another claim."""
        return [b for b in out["bad"] if b[0] == label or not self._listed(b[0])]

    def _is_bad(self, out, label):
        if out["status"] == "ok" and self._bad(out, label):
            return True
        if out["status"] == "exc":
            return True
        return False

    def _violation(self, label, inputs, choices, tab, seed, out, before=()):
        self.seen_labels.add(label)
        bad = [b for b in out["bad"] if b[0] == label] or self._bad(out) or out["bad"]
        if out["status"] == "exc":
            lab, detail = label, out["detail"][-600:]
        else:
            lab, detail = bad[0][0], f"got {bad[0][1]} expected {bad[0][2]}"
        if before:
            detail += f" (after earlier calls with choices {list(before)})"
        key = (lab,)
        if any(v["label"] == lab for v in self.res.violations):
            return False
        if not self._listed(lab):
            self.fresh += 1
            self.t_viol = time.time()
        self.res.violations.append({"label": lab, "inputs": inputs, "choices": list(choices),
                                    "uftab": tab, "seed": seed, "detail": detail,
                                    "before": [list(b) for b in before]})
        return False

    def _settle_exception(self, p, exc):
        kind, e = exc
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        label = f"<exception {type(e).__name__} at {where}>"
        if os.environ.get("VF_TRACE"):
            traceback.print_exception(e)
        if label in self.seen_labels:
            return
        r, m = (z3.unknown, None)
        if time.time() < self.deadline:
            r, m = p.query([], self.tprove, pin=True, full=True)
        if r == z3.unsat:
            return
        if r == z3.sat:
            inputs, tab = _env_of_model(m)
            for t in (tab, None):
                out = self.rep.run(inputs, p.choices, t, 0)
                if out["status"] == "exc" or out["bad"]:
                    self._violation(label, inputs, p.choices, t, 0, out)
                    return
        bounds = _input_bounds()
        t_end = min(self.deadline + 10, time.time() + 20)
        for k in range(60):
            if time.time() > t_end:
                break
            inputs = {n: _sample(self.rng, lo, hi) for n, (lo, hi) in bounds.items()}
            out = self.rep.run(inputs, p.choices, None, k)
            if out["status"] == "exc" or (out["status"] == "ok" and out["bad"]):
                self._violation(label, inputs, p.choices, None, k, out)
                return
        self.seen_labels.add(label)
        self.res.undecided.append((label, f"{e}"[:300]))

    # -- witnesses -----------------------------------------------------------
    def _robust(self, p, inputs):
        """A disagreement at a witness counts if it persists next to the witness.

        (Witnesses may sit exactly on a threshold, where rounding decides.)
        """
        for k in range(6):
            near = {n: v * (1 + self.rng.uniform(-1, 1) * 1e-6) + self.rng.uniform(-1, 1) * 1e-9
                    for n, v in inputs.items()}
            if not self._on_path(p, near, 0):
                continue
            out = self.rep.run(near, p.choices, None, 0)
            if out["status"] == "exc" or (out["status"] == "ok" and out["bad"]):
                return True
        return False

    def _witness(self, p, env):
        res = self.res
        if self.nwit >= 40 or time.time() > self.deadline - 5:
            return
        r, m = p.query([], min(self.tprove, 8000), pin=True, full=True)
        if r != z3.sat:
            if r == z3.unknown and not res.witness:
                # find a witness by evaluation
                bounds = _input_bounds()
                for k in range(300):
                    inputs = {n: _sample(self.rng, lo, hi) for n, (lo, hi) in bounds.items()}
                    if self._on_path(p, inputs, 0):
                        break
                else:
                    return
                tab = None
            else:
                return
        else:
            inputs, tab = _env_of_model(m)
        self.nwit += 1
        res.witness = True
        out = self.rep.run(inputs, p.choices, tab, 0)
        if out["status"] == "skip":
            return
        if out["status"] != "ok" or out["bad"]:
            # the real code disagrees with the encoding at a model of the path
            if out["status"] == "harness":
                res.undecided.append(("<harness>", out["detail"]))
                return
            out2 = self.rep.run(inputs, p.choices, None, 0) if tab else out
            if self._is_bad(out2, "") and self._robust(p, inputs):
                lab = (self._bad(out2) or out2["bad"])[0][0] if out2["bad"] else "<exception>"
                if not any(v["label"] == lab for v in res.violations) and out2["status"] != "timeout":
                    self._violation(lab, inputs, p.choices, None, 0, out2)
                elif out2["status"] == "timeout":
                    res.mismatch.append(("timeout", out2["detail"]))
                return
        # compare the values of the claims
        if len(out["vals"]) == len(env.records):
            n = 0
            e = _with_defaults(dict(inputs))
            for rec, val in zip(env.records, out["vals"]):
                if rec[0] == "eq" and isinstance(val[1], float):
                    try:
                        if tab:
                            for v in S.W.vars:
                                if v.kind == "uf" and v.fn.startswith("F_"):
                                    f = PT._num(m.eval(v.z, model_completion=False))
                                    if f is not None:
                                        e[v.name] = f
                        sv = S.evalf(rec[2], e)
                    except Exception:
                        continue
                    if sv == sv and abs(sv - val[1]) > 1e-4 * max(abs(sv), abs(val[1])) + 1e-12 + rec[5]:
                        res.mismatch.append((rec[1], f"encoding {sv} vs code {val[1]} at {inputs}"[:400]))
                    else:
                        n += 1
            res.validated += 1
        elif out["status"] == "ok" and {r[1] for r in env.records} == {v[0] for v in out["vals"]}:
            res.validated += 1
        elif out["status"] == "ok":
            res.mismatch.append(("<claims>", f"encoding made {len(env.records)} claims, code {len(out['vals'])}"))
