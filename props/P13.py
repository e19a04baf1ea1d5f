"""Photon spectra from user-supplied radiative matrix elements."""
import numpy as np

from props._ref import kallen
from props.P09 import draws, volume
from vf.harness import Case

PROPERTY = "P13"
BOUNDS = ("any energy above threshold, any masses, any photon energy; two-body systems for any direction and matrix element, "
          "massless three- and four-body systems at fixed random directions; up to 3 photon energies")
ASSUMPTIONS = ["scipy's quad is the exact integral (polynomial matrix elements) or is observed at its boundary",
               "random draws are arbitrary numbers in (0, 1)"]
FUNCTIONS = ["hazma.spectra._fsr.*", "hazma.phase_space.Rambo.generate", "hazma.phase_space.ThreeBody.integrate"]


def dphi2(env, s, m1, m2):
    return env.np.sqrt(kallen(s, m1 * m1, m2 * m2)) / (8 * env.pi * s)


def inv(ps, i, j):
    return (ps[0, i] + ps[0, j]) ** 2 - sum((ps[k, i] + ps[k, j]) ** 2 for k in (1, 2, 3))


def photon(env, tot, q):
    """Photon energy below its kinematic end point: E = x (q^2 - M^2) / 2q."""
    x = env.real("x", 0, 1)
    return x * (q * q - tot * tot) / (2 * q)


def momenta(env):
    """Every momentum set handed to the radiative matrix element: on shell and with the total mass."""
    from hazma.spectra._fsr import dnde_photon_fsr

    m1, m2, k = env.real("m1", 0, 1e3), env.real("m2", 0, 1e3), env.real("k", 0, 1e3)
    q = m1 + m2 + k
    e = photon(env, m1 + m2, q)
    f, g = [], []
    seen = []

    def quad(fn, a, b, **kw):
        f.append((fn, a, b))
        return 1.0, 0.0

    env.hook("quad", quad)

    def rad(ps):
        seen.append(ps)
        return 1.0

    dnde_photon_fsr(e, q, [m1, m2], rad, lambda ps: 1.0)
    rad_calls = []
    c = env.real("c", -1, 1, lo_s=False, hi_s=False)
    for fn, a, b in f:
        n = len(seen)
        fn(c)
        if len(seen) > n:
            rad_calls.append((a, b))
    spans = sorted(rad_calls)
    env.claim("all directions", spans and spans[0][0] == -1.0 and spans[-1][1] == 1.0
              and all(x[1] == y[0] for x, y in zip(spans, spans[1:])))
    ps = seen[-1]
    env.claim("shape", np.shape(ps) == (4, 3))
    for i, m in enumerate((m1, m2, 0.0)):
        env.eq("on shell", ps[0, i] ** 2, m * m + ps[1, i] ** 2 + ps[2, i] ** 2 + ps[3, i] ** 2, atol=1e-6)
    tot = [ps[j, 0] + ps[j, 1] + ps[j, 2] for j in range(4)]
    env.eq("total mass", tot[0] ** 2 - tot[1] ** 2 - tot[2] ** 2 - tot[3] ** 2, q * q, rtol=1e-6)
    env.eq("photon energy in the total frame",
           tot[0] * ps[0, 2] - tot[1] * ps[1, 2] - tot[2] * ps[2, 2] - tot[3] * ps[3, 2], q * e, rtol=1e-6)
    env.eq("pair mass", inv(ps, 0, 1), q * q - 2 * q * e, rtol=1e-6)
    # direction cosine in the rest frame of the pair
    env.eq("angle to the photon", c * env.np.sqrt(ps[1, 0] ** 2 + ps[2, 0] ** 2 + ps[3, 0] ** 2) * ps[0, 2],
           ps[1, 0] * ps[1, 2] + ps[2, 0] * ps[2, 2] + ps[3, 0] * ps[3, 2], atol=1e-6)


def nonrad_momenta(env):
    from hazma.spectra._fsr import dnde_photon_fsr

    m1, m2, k = env.real("m1", 0, 1e3), env.real("m2", 0, 1e3), env.real("k", 0, 1e3)
    q = m1 + m2 + k
    f, seen = [], []

    def quad(fn, a, b, **kw):
        f.append((fn, a, b))
        return 1.0, 0.0

    env.hook("quad", quad)

    def non(ps):
        seen.append(ps)
        return 1.0

    dnde_photon_fsr(photon(env, m1 + m2, q), q, [m1, m2], lambda ps: 1.0, non)
    c = env.real("c", -1, 1, lo_s=False, hi_s=False)
    for fn, a, b in f:
        fn(c)
    ps = seen[-1]
    env.claim("shape", np.shape(ps) == (4, 2))
    for i, m in enumerate((m1, m2)):
        env.eq("on shell", ps[0, i] ** 2, m * m + ps[1, i] ** 2 + ps[2, i] ** 2 + ps[3, i] ** 2, atol=1e-6)
    env.eq("energy", ps[0, 0] + ps[0, 1], q)
    env.eq("momentum", [ps[j, 0] + ps[j, 1] for j in (1, 2, 3)], [0.0] * 3, atol=1e-9)


def flat(env):
    """Constant matrix elements: the ratio of phase-space volumes, for two bodies."""
    from hazma.spectra._fsr import dnde_photon_fsr

    m1, m2, k = env.real("m1", 0, 1e3), env.real("m2", 0, 1e3), env.real("k", 0, 1e3)
    a, b = env.real("a", 0, 10), env.real("b", 0, 10)
    q = m1 + m2 + k
    e = photon(env, m1 + m2, q)
    meth = env.choose("method", ["auto", "quad"])
    res = dnde_photon_fsr(e, q, [m1, m2], lambda ps: a, lambda ps: b, method=meth)
    sp = q * q - 2 * q * e
    env.eq("spectrum", res.dnde * dphi2(env, q * q, m1, m2) * b, e / (4 * env.pi**2) * dphi2(env, sp, m1, m2) * a)


def angular(env):
    """Quadratic matrix elements of the invariants: two equal masses, closed form."""
    from hazma.spectra._fsr import dnde_photon_fsr

    m, k = env.real("m", 0, 1e3), env.real("k", 0, 1e3)
    q = 2 * m + k
    e = photon(env, 2 * m, q)
    a, b, c = env.real("a", 0, 10), env.real("b", 0, 10), env.real("c", 0, 10)

    def rad(ps):
        u = inv(ps, 0, 2)
        return a + b * u + c * u * u

    res = dnde_photon_fsr(e, q, [m, m], rad, lambda ps: 1.0 + 0 * ps[0, 0])
    sp = q * q - 2 * q * e
    mean = m * m + (q * q - sp) / 2
    var = ((q * q - sp) / 2) ** 2 * (sp - 4 * m * m) / (3 * sp)
    env.eq("spectrum", res.dnde * dphi2(env, q * q, m, m),
           e / (4 * env.pi**2) * dphi2(env, sp, m, m) * (a + b * mean + c * (mean * mean + var)))


def errors(env):
    """Values and errors of the integrals propagate as an uncorrelated ratio."""
    from hazma.spectra._fsr import dnde_photon_fsr

    m, k = env.real("m", 0, 1e3), env.real("k", 0, 1e3)
    q = 2 * m + k
    e = photon(env, 2 * m, q)
    I, d = env.real("I", 0, 10), env.real("dI", 0, 1)
    J, h = env.real("J", 0, 10), env.real("dJ", 0, 1)
    seen = []

    def quad(fn, a, b, **kw):
        seen.clear()
        fn((a + b) / 2)
        w = (b - a) / 2
        return (I * w, d * w) if "rad" in seen else (J * w, h * w)

    env.hook("quad", quad)

    def rad(ps):
        seen.append("rad")
        return 1.0

    res = dnde_photon_fsr(e, q, [m, m], rad, lambda ps: 1.0)
    sp = q * q - 2 * q * e
    num = e / (4 * env.pi**2) * dphi2(env, sp, m, m) / 2
    den = dphi2(env, q * q, m, m) / 2
    env.eq("spectrum", res.dnde * den * J, num * I)
    env.eq("error squared", res.error**2 * (den * J) ** 2, num**2 * (d**2 + I**2 * h**2 / J**2))


def limits(env):
    """Zero outside the open interval of photon energies; shape follows the input."""
    from hazma.spectra._fsr import dnde_photon_fsr

    m1, m2, k = env.real("m1", 0, 1e3), env.real("m2", 0, 1e3), env.real("k", 0, 1e3)
    q = m1 + m2 + k
    emax = (q * q - (m1 + m2) ** 2) / (2 * q)
    t = env.real("t", 0, 10, lo_s=False)
    e = photon(env, m1 + m2, q)
    one = lambda ps: 1.0  # noqa: E731
    out = env.choose("where", ["above", "below"])
    bad = emax + t if out == "above" else -t
    r = dnde_photon_fsr(bad, q, [m1, m2], one, one)
    env.eq("zero outside", [r.dnde, r.error], [0.0, 0.0])
    r = dnde_photon_fsr(env.array([bad, e, bad]), q, [m1, m2], one, one)
    env.claim("shape", np.shape(r.dnde) == (3,) and np.shape(r.error) == (3,))
    env.eq("zero outside in arrays", [r.dnde[0], r.dnde[2]], [0.0, 0.0])
    env.gt("positive inside", r.dnde[1], 0.0)


def refused(env):
    from hazma.hazma_errors import RamboCMETooSmall
    from hazma.spectra._fsr import dnde_photon_fsr

    m1, m2, k = env.real("m1", 0, 1e3), env.real("m2", 0, 1e3), env.real("k", 0, 1e3)
    one = lambda ps: 1.0  # noqa: E731
    t = env.real("t", 0, 1)
    env.raises("energy below threshold", RamboCMETooSmall,
               lambda: dnde_photon_fsr(1.0, (m1 + m2) * t, [m1, m2], one, one))
    env.raises("energy at threshold", RamboCMETooSmall, lambda: dnde_photon_fsr(1.0, m1 + m2, [m1, m2], one, one))
    q = m1 + m2 + k
    env.raises("one mass", ValueError, lambda: dnde_photon_fsr(1.0, q, [m1], one, one))
    env.raises("unknown method", ValueError, lambda: dnde_photon_fsr(1.0, q, [m1, m2], one, one, method="vegas"))
    env.raises("quad needs two masses", ValueError,
               lambda: dnde_photon_fsr(1.0, q, [m1 / 2, m1 / 2, m2], one, one, method="quad"))
    env.raises("one point", ValueError, lambda: dnde_photon_fsr(1.0, q, [m1, m2], one, one, method="rambo", npts=1))
    z = env.real("z", 0, 10, lo_s=False)
    env.raises("no non-radiative process", ValueError, lambda: dnde_photon_fsr(1.0, q, [m1, m2], one, lambda ps: -z))


DIRS = [[6, 2, 3, 5], [7, 2, 5, 0]]


def monte_carlo(n, two_npts=2):
    """Monte-Carlo backend with massless particles: mean of weight times matrix element at the reduced energy."""
    def fn(env):
        from hazma.phase_space._rambo import Rambo
        from hazma.spectra._fsr import dnde_photon_fsr

        q = env.real("q", 0, 1e4)
        r = env.real("r", 0, 1)          # reduced energy over total energy
        e = q * (1 - r * r) / 2
        npts = 2
        dirs = [d[:n] for d in DIRS[:npts]] if n < 4 else [[0, 1, 2, 3], [2, 3, 4, 5]]
        h = env.uf("msqrd", 0, 10)
        seen = []

        def rad(ps):
            seen.append(ps)
            return env.array([h(ps[0, 0, b]) for b in range(npts)])

        b0 = env.real("b0", 0.1, 10)
        if n == 3:
            env.hook("dblquad", lambda f, a, b, g, hh, **k: (1.0, 0.0))
        draws(env, n, npts, dirs, [0] * n)
        non = (lambda ps: b0) if n != 4 else (lambda ps: env.array([b0] * npts))
        res = dnde_photon_fsr(e, q, [0.0] * n, rad, non, method="rambo" if n == 2 else "auto", npts=npts, seed=1)
        draws(env, n, npts, dirs, [0] * n)
        ref, w = Rambo(q * r, [0.0] * n).generate(npts)
        ps = seen[-1]
        env.claim("shape", np.shape(ps) == (4, n + 1, npts))
        for b in range(npts):
            for c in range(4):
                for i in range(n):
                    env.eq("momenta of the reduced system", ps[c, i, b], ref[c, i, b], atol=1e-6)
            env.eq("photon energy in the reduced frame", ps[0, n, b] * r, e)
            env.eq("photon momentum", ps[1, n, b] ** 2 + ps[2, n, b] ** 2 + ps[3, n, b] ** 2, ps[0, n, b] ** 2)
        vol = volume(env, n, q * r)
        mean = sum(h(ps[0, 0, b]) for b in range(npts)) / npts
        if n == 3:
            non0 = q * q / (128 * env.pi**3)
        else:
            non0 = b0 * volume(env, n, q)
        env.eq("spectrum", res.dnde * non0, e / (4 * env.pi**2) * vol * mean)
        diff = (h(ps[0, 0, 0]) - h(ps[0, 0, 1])) / 2
        env.eq("error squared", res.error**2 * non0**2, (e / (4 * env.pi**2) * vol) ** 2 * diff * diff, atol=1e-20)
    return fn


def cases(tier):
    kw = dict(undef="assume")
    out = [Case(f.__name__, f, **kw) for f in (momenta, nonrad_momenta, flat, angular, errors, limits, refused)]
    out += [Case(f"Monte Carlo {n}", monte_carlo(n), **kw) for n in (2, 3, 4)]
    return out
