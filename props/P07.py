"""Two-body phase space and two-body kinematics."""
import numpy as np

from props._ref import kallen
from vf.harness import Case

PROPERTY = "P07"
BOUNDS = ("arbitrary real energies and masses (masses >= 0, energy > 0); squared matrix elements: arbitrary "
          "functions of the angle, and arbitrary quadratic functions of the momenta; histories of up to 3 setter calls")
ASSUMPTIONS = ["quadrature is exact (the adaptive integrator is replaced by the exact linear functional)"]
FUNCTIONS = ["hazma.utils.two_body_momentum", "hazma.utils.kallen_lambda", "hazma.utils.cross_section_prefactor",
             "hazma.phase_space.TwoBody.*", "hazma.phase_space._utils.two_body_phase_space_prefactor"]


def momentum(env):
    from hazma.utils import cross_section_prefactor, kallen_lambda, two_body_momentum

    q = env.real("q", 0, None)
    m1 = env.real("m1", 0, None, lo_s=False)
    m2 = env.real("m2", 0, None, lo_s=False)
    p = two_body_momentum(q, m1, m2)
    lam = kallen(q * q, m1 * m1, m2 * m2)
    env.eq("kallen function", kallen_lambda(q * q, m1 * m1, m2 * m2), lam, rtol=1e-6, atol=1e-9)
    if q < m1 + m2:
        env.claim("undefined below threshold", bool(np.isnan(p)) if isinstance(p, float) else False)
    else:
        env.ge("momentum non-negative", p, 0.0)
        env.eq("4 s p^2 = lambda", 4 * q * q * p * p, lam, rtol=1e-6, atol=1e-9)
        env.eq("symmetric in the masses", two_body_momentum(q, m2, m1), p)
        if q == m1 + m2:
            env.eq("zero at threshold", p * 1.0, 0.0, atol=1e-6)
        if p > 0:
            env.eq("flux factor", cross_section_prefactor(m1, m2, q) * 4 * p * q, 1.0)


def momentum_array(env):
    from hazma.utils import two_body_momentum

    qs = [env.real(f"q{i}", 0, None) for i in range(2)]
    m1 = env.real("m1", 0, None, lo_s=False)
    m2 = env.real("m2", 0, None, lo_s=False)
    for q in qs:
        env.assume(q > m1 + m2)
    ps = two_body_momentum(env.array(qs), m1, m2)
    for i in range(2):
        env.eq("array agrees with scalar", ps[i], two_body_momentum(qs[i], m1, m2))
    ps = two_body_momentum(env.array(qs), env.array([m1, m2]), env.array([m2, m1]))
    for i in range(2):
        env.eq("array masses agree with scalar", ps[i], two_body_momentum(qs[i], m1, m2))


def _qm(env, i=""):
    m1 = env.real("m1" + i, 0, None, lo_s=False)
    m2 = env.real("m2" + i, 0, None, lo_s=False)
    q = env.real("q" + i, 0, None)
    env.assume(q > m1 + m2)
    return q, m1, m2


def _p(env, q, m1, m2):
    return env.np.sqrt(kallen(q * q, m1 * m1, m2 * m2)) / (2 * q)


def flat(env):
    from hazma.phase_space._two_body import TwoBody

    q, m1, m2 = _qm(env)
    p = _p(env, q, m1, m2)
    val, err = TwoBody(q, [m1, m2]).integrate()
    env.eq("flat volume = p/(4 pi E)", val * 4 * env.pi * q, p)
    one = TwoBody(q, [m1, m2]).msqrd(env.array([0.0, 0.5]))
    env.eq("flat matrix element is one", one, [1.0, 1.0])
    val2, _ = TwoBody(q, (m2, m1)).integrate()
    env.eq("independent of the order of the masses", val2, val)


def angle(env):
    from hazma.phase_space._two_body import TwoBody

    q, m1, m2 = _qm(env)
    f = env.uf("msqrd")
    p = _p(env, q, m1, m2)
    want = env.quad(lambda z: f(z), -1.0, 1.0) * p / (8 * env.pi * q)
    env.eq("angle integral", TwoBody(q, [m1, m2], msqrd=f).integrate()[0], want, atol=1e-9)
    env.eq("angle integral, explicit signature",
           TwoBody(q, [m1, m2], msqrd=f, msqrd_signature="z").integrate()[0], want, atol=1e-9)


def momenta(env):
    from hazma.phase_space._two_body import TwoBody

    q, m1, m2 = _qm(env)
    c = [env.real(f"c{i}") for i in range(4)]
    p2 = kallen(q * q, m1 * m1, m2 * m2) / (4 * q * q)
    p = _p(env, q, m1, m2)
    e1 = (q * q + m1 * m1 - m2 * m2) / (2 * q)

    def msqrd(ps):
        env.claim("momenta shape", ps.shape == (4, 2))
        tot = ps[:, 0] + ps[:, 1]
        env.eq("total energy", tot[0], q)
        env.eq("total three-momentum", tot[1:], [0.0, 0.0, 0.0], atol=1e-9)
        for i, m in ((0, m1), (1, m2)):
            env.eq("on shell", ps[0, i] ** 2, ps[1, i] ** 2 + ps[2, i] ** 2 + ps[3, i] ** 2 + m * m, rtol=1e-8)
        return c[0] + c[1] * ps[0, 0] + c[2] * ps[3, 0] ** 2 + c[3] * ps[3, 1]

    val, _ = TwoBody(q, [m1, m2], msqrd=msqrd, msqrd_signature="momenta").integrate()
    want = (2 * c[0] + 2 * c[1] * e1 + c[2] * p2 * 2 / 3) * p / (8 * env.pi * q)
    sc = 0.0 if env.sym else abs(c[0]) + abs(c[1]) * e1 + abs(c[2]) * p2 + abs(c[3]) * p
    env.eq("momentum integral", val * 8 * env.pi * q, want * 8 * env.pi * q,
           atol=0.0 if env.sym else 1e-9 * sc * p)


def setters(env):
    from hazma.phase_space._two_body import TwoBody

    q, m1, m2 = _qm(env, "a")
    q2, n1, n2 = _qm(env, "b")
    k = env.real("k", 0, None)
    f = env.uf("msqrd")
    tb = TwoBody(q, [m1, m2])
    order = env.choose("history", ["cme,masses", "masses,cme", "msqrd,cme,masses", "read,cme,masses,read,msqrd"])
    ms = False
    for op in order.split(","):
        if op == "cme":
            tb.cme = q2
        elif op == "masses":
            tb.masses = [n1, n2]
        elif op == "msqrd":
            tb.msqrd = lambda z: k * z * z
            ms = True
        else:
            tb.integrate()
    env.eq("cme reads back", tb.cme, q2)
    env.eq("masses read back", list(tb.masses), [n1, n2])
    fresh = TwoBody(q2, [n1, n2], msqrd=(lambda z: k * z * z) if ms else None)
    env.eq("equal to a fresh object", tb.integrate()[0], fresh.integrate()[0])
    p = _p(env, q2, n1, n2)
    env.eq("value after setters", tb.integrate()[0] * 8 * env.pi * q2, p * (k * 2 / 3 if ms else 2.0))


def prefactor(env):
    from hazma.phase_space._utils import two_body_phase_space_prefactor as pre

    m1 = env.real("m1", 0, None, lo_s=False)
    m2 = env.real("m2", 0, None, lo_s=False)
    q = env.real("q", 0, None)
    env.assume(q > m1 + m2)
    env.eq("phase-space prefactor", pre(q, m1, m2) * 8 * env.pi * q * q,
           env.np.sqrt(kallen(q * q, m1 * m1, m2 * m2)))
    env.eq("prefactor on arrays", pre(env.array([q, q]), m1, m2), [pre(q, m1, m2)] * 2)


def cases(tier):
    return [Case(f.__name__, f) for f in (momentum, momentum_array, flat, angle, momenta, setters, prefactor)]
