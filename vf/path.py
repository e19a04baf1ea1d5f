"""Path exploration and solver queries."""

from __future__ import annotations

import math
import os
import time
from fractions import Fraction

import z3

from . import sym as S
from .sym import Inconclusive, Sym, SymBool, TooBig


class Infeasible(BaseException):
    """Current path was cut (assumption contradicts the path)."""


class PathCap(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.discharged = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.feasibility = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

    def dict(self):
        return dict(self.__dict__)


ST = Stats()

T_FEAS = int(os.environ.get("VF_TFEAS", "2500"))
T_PROVE = int(os.environ.get("VF_TPROVE", "20000"))


def _check(facts, timeout, tactic):
    if tactic == "nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif tactic == "nra":
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout))
    for f in facts:
        s.add(f)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:  # e.g. canceled
        r = z3.unknown
    ST.solver_s += time.time() - t0
    ST.queries += 1
    return r, (s.model() if r == z3.sat else None)


def solve(facts, timeout, want_model=False):
    """(result, model) with a small portfolio."""
    plan = [("nra", timeout * 0.4), ("default", timeout * 0.2), ("nlsat", timeout * 0.4)]
    last = z3.unknown
    for tac, t in plan:
        r, m = _check(facts, max(t, 200), tac)
        if r != z3.unknown:
            return r, m
    if timeout < 4000:  # feasibility: a second opinion is not worth its price
        return last, None
    r = cvc5_check(facts, timeout * 0.5)
    if r == "unsat":
        return z3.unsat, None
    return last, None


def cvc5_check(facts, timeout):
    """Second opinion from cvc5 (only `unsat` is used)."""
    try:
        import cvc5
    except Exception:
        return "unknown"
    s = z3.Solver()
    for f in facts:
        s.add(f)
    txt = s.to_smt2()
    t0 = time.time()
    ST.queries += 1
    # its time limit is not reliable for non-linear problems: run it in a child
    import select
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = b"unknown"
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout / 1000) + 2)
            os.close(rd)
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(int(max(timeout, 200))))
            slv.setOption("nl-cov", "true")
            slv.setLogic("QF_NRA")
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = parser.getSymbolManager()
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = (cmd.invoke(slv, sm) or "").strip()
                if out in ("sat", "unsat", "unknown"):
                    res = out.encode()
                if "(error" in out:
                    res = b"unknown"
                    break
            os.write(wr, res)
        finally:
            os._exit(0)
    os.close(wr)
    res = "unknown"
    try:
        if select.select([rd], [], [], timeout / 1000 + 1.5)[0]:
            res = os.read(rd, 64).decode() or "unknown"
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        ST.solver_s += time.time() - t0
    return res


def facts_for(varids, pin=False):
    """Axioms for the transitive closure of variables."""
    seen = set()
    todo = list(varids)
    facts = []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        fs, used = S.var_axioms(S.W.vars[v], pin)
        facts.extend(fs)
        todo.extend(u for u in used if u not in seen)
    facts.extend(S.pair_axioms([S.W.vars[v] for v in sorted(seen)]))
    return facts, seen


def closure(varids):
    seen = set()
    todo = list(varids)
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        _, used = S.var_axioms(S.W.vars[v])
        todo.extend(u for u in used if u not in seen)
    return seen


def model_env(m, pin=True):
    """Model -> {name: float} for input and const variables."""
    env = {}
    for v in S.W.vars:
        if v.kind in ("in", "const", "uf"):
            if v.kind == "const" and pin:
                env[v.name] = float(v.pin)
                continue
            val = m.eval(v.z, model_completion=False)
            f = _num(val)
            if f is not None:
                env[v.name] = f
    return env


def _num(val):
    if z3.is_rational_value(val):
        return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


class Path:
    """One symbolic execution."""

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.ex = explorer
        self.i = 0
        self.taken = []      # decisions so far
        self.conds = []      # SymBool constraints (path + assumptions)
        self.cvars = []      # variable closure of each cond
        self.choices = []
        self.undef_mode = "nan"   # 'nan': fork to NaN; 'assume': assume defined
        self.undef = []
        self.bound = set()   # ids of bound (integration) variables
        self._known = {}

    # -- constraints ---------------------------------------------------------
    def add(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        try:
            vs = closure(b.vars(set()))
            b.z()
        except S.TooBig:
            return  # a weaker path condition is sound for proofs
        self.conds.append(b)
        self.cvars.append(vs)

    def slice(self, varids):
        """Indices of constraints connected to varids, and the var closure."""
        vs = closure(varids)
        use = set()
        changed = True
        while changed:
            changed = False
            for k, cv in enumerate(self.cvars):
                if k not in use and cv & vs:
                    use.add(k)
                    if not cv <= vs:
                        vs |= cv
                    changed = True
        return sorted(use), vs

    def query(self, extra, timeout, pin=False, full=False):
        """Check path constraints + extra SymBools."""
        vs = set()
        for b in extra:
            b.vars(vs)
        if full:
            for cv in self.cvars:
                vs |= cv
            use = range(len(self.conds))
            vs = closure(vs)
        else:
            use, vs = self.slice(vs)
        facts = [self.conds[k].z() for k in use]
        facts += [b.z() for b in extra]
        ax, _ = facts_for(vs, pin)
        return solve(facts + ax, timeout)

    # -- branching -----------------------------------------------------------
    def _feasible(self, b):
        ST.feasibility += 1
        r, m = self.query([b], T_FEAS)
        if r == z3.unknown:
            ST.unknown += 1
        return r != z3.unsat

    def decide(self, b):
        key = repr_key(b)
        if key is not None and key in self._known:
            return self._known[key]
        if self.bound and (b.vars(set()) & self.bound):
            return self._decide_bound(b)
        if self.i < len(self.prefix):
            c = self.prefix[self.i]
            self.i += 1
            self.taken.append(c)
            kind = c[0]
            assert kind == "b", "non-deterministic replay of a path"
            val, forced = c[1], c[2]
        else:
            nb = S.bnot(b)
            t = self._feasible(b)
            f = self._feasible(nb) if t else True
            if t and f:
                self.ex.push(self.taken + [("b", False, False)])
                val, forced = True, False
            else:
                val, forced = (True, True) if t else (False, True)
            c = ("b", val, forced)
            self.i += 1
            self.taken.append(c)
        if not forced:
            self.add(b if val else S.bnot(b))
            ST.decisions += 1
        if key is not None:
            self._known[key] = val
            nk = repr_key(S.bnot(b))
            if nk is not None:
                self._known[nk] = not val
        return val

    def know(self, b):
        """Remember a fact already on the path, so that the same test is not put to the solver."""
        for x, v in ((b, True), (S.bnot(b), False)):
            key = repr_key(x)
            if key is not None:
                self._known[key] = v

    def _decide_bound(self, b):
        t = self._feasible(b)
        f = self._feasible(S.bnot(b))
        if t and not f:
            return True
        if f and not t:
            return False
        raise BoundBranch(f"branch on an integration variable: {b!r}")

    def choose(self, n):
        """Unconstrained n-way choice."""
        if self.i < len(self.prefix):
            c = self.prefix[self.i]
            assert c[0] == "n"
            k = c[1]
            self.taken.append(c)
        else:
            for j in range(n - 1, 0, -1):
                self.ex.push(self.taken + [("n", j)])
            k = 0
            self.taken.append(("n", 0))
        self.i += 1
        self.choices.append(k)
        return k

    # -- definedness ---------------------------------------------------------
    def division(self, a, b):
        s = S.quick_sign(b)
        if s in (1, -1):
            return None
        if s == 0:
            sa = S.quick_sign(a)
            if sa == 0:
                return math.nan
            if sa is None:
                sa = 1 if a > 0 else (-1 if a < 0 else 0)
            return math.inf if sa > 0 else (-math.inf if sa < 0 else math.nan)
        z = SymBool("==", b)
        if self.undef_mode == "assume":
            k = repr_key(z)
            if k in self._known:
                return None
            self._known[k] = False
            self.undef.append(("div0", z))
            self.add(SymBool("!=", b))
            return None
        if self.decide(z):
            self.undef.append(("div0", z))
            if a > 0:
                return math.inf
            if a < 0:
                return -math.inf
            return math.nan
        return None

    def sqrt_domain(self, x):
        s = S.quick_sign(x)
        if s in (0, 1, 2):
            return None
        if s == -1:
            return math.nan
        z = SymBool("<", x)
        if self.undef_mode == "assume":
            k = repr_key(z)
            if k in self._known:
                return None
            self._known[k] = False
            self.undef.append(("sqrt<0", z))
            self.add(SymBool(">=", x))
            return None
        if self.decide(z):
            self.undef.append(("sqrt<0", z))
            return math.nan
        return None

    def log_domain(self, x):
        s = S.quick_sign(x)
        if s == 1:
            return None
        if s in (0, -1, -2):
            return math.nan
        z = SymBool("<=", x)
        if self.undef_mode == "assume":
            k = repr_key(z)
            if k in self._known:
                return None
            self._known[k] = False
            self.undef.append(("log<=0", z))
            self.add(SymBool(">", x))
            return None
        if self.decide(z):
            self.undef.append(("log<=0", z))
            return math.nan
        return None


class BoundBranch(Inconclusive):
    pass


def repr_key(b):
    """Canonical key of a comparison, for reuse of earlier decisions."""
    if b.parts is not None:
        return None
    try:
        rf = b.d.rf
    except TooBig:
        return None
    n = S._clear(rf.n)
    if not n:
        return None
    op = b.op
    lc = n[max(n, key=S._lexkey)]
    if lc < 0:
        n = {m: -c for m, c in n.items()}
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
    return (op, S.p_key(n), frozenset((k, e) for k, (p, e) in rf.d.items()))


class Explorer:
    def __init__(self, max_paths=4000, deadline=None):
        self.stack = [[]]
        self.max_paths = max_paths
        self.deadline = deadline
        self.done = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def run(self, fn):
        """fn(path) for every feasible path."""
        while self.stack:
            if self.done >= self.max_paths:
                raise PathCap(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise PathCap("time budget of the case exhausted")
            prefix = self.stack.pop()
            p = Path(prefix, self)
            S.P = p
            try:
                fn(p)
            except Infeasible:
                pass
            finally:
                S.P = None
            self.done += 1
            ST.paths += 1
