"""Compiled decay spectra (the Rust core): photons, positrons and neutrinos from leptons and mesons."""
from vf import rust
from vf.harness import Case
from vf.rust import Core, Int

PROPERTY = "P29"
BOUNDS = ("any energy of the product and of the decaying particle (gamma up to 20 for the neutral pion, whose velocity is kept in "
          "single precision; energies at least 1e-6 relative away from an end point); tabulated spectra with 3 or 4 arbitrary nodes")
ASSUMPTIONS = ["real arithmetic", "the source is compiled to LLVM IR by rustc with the binding layer (pyo3) replaced by a stand-in",
               "an integral is its integrand at an arbitrary point of the window times the width of the window, on both sides of a claim",
               "the dilogarithm is an arbitrary function; tables hold arbitrary positive numbers"]
FUNCTIONS = ["hazma._core.photon.*", "hazma._core.positron.*", "hazma._core.neutrino.*", "rust: boost, interp, kernels"]

M = dict(me=0.5109989461, mmu=105.6583745, mpi0=134.9768, mpi=139.57039, mrho=775.26)
BR = dict(brmu=0.9998770, bre=1.230e-4, br0=0.98823)
RF = 1.0001870858234163
PI = 3.141592653589793
EPS = 1e-6


class Consts:
    def __init__(self, env, names):
        self.pi = pi = env.pi
        c = [(PI * k, pi * k) for k in (1, 3)]
        v = dict(M, **BR, rf=RF, ial=137.035999084, fpi=130.41, fa=0.0119, fv=0.0254, emax=69.78613044168974, emu=109.77820123634007)
        for k in names.split():
            setattr(self, k, env.const(k, v[k]))
            c += [(v[k], getattr(self, k))]
        if "ial" in names:
            self.alpha = 1 / self.ial
            c += [(1 / v["ial"], self.alpha), (1 / v["ial"] / (3 * PI), self.alpha / (3 * pi))]
        if "mmu" in names:
            self.r = self.me / self.mmu
            r = v["me"] / v["mmu"]
            e = self.r
            c += [(r ** n, e ** n) for n in (1, 2, 4, 6)] + [(1 - r, 1 - e), (1 - r * r, 1 - e * e), (1 + r * r, 1 + e * e),
                                                             (2 / v["mmu"], 2 / self.mmu), (3 + 3 * r * r, 3 + 3 * e * e),
                                                             (2 * r ** 4 * (r * r - 3), 2 * e ** 4 * (e * e - 3))]
        if "mpi " in names and "me" in names:
            m, a, b = v["mpi"], v["me"], v["mmu"]
            c += [(m * m, self.mpi ** 2)]
            for x, y in ((a, self.me), (b, self.mmu)):
                for s in (1, -1):
                    c.append(((m * m + s * x * x) / (2 * m), (self.mpi ** 2 + s * y * y) / (2 * self.mpi)))
                c.append((x * x, y * y))
                c.append((x / m, y / self.mpi))
                c.append((x * x / m / m, y * y / self.mpi ** 2))
        if "mrho" in names:
            a, b, m = v["mpi"], v["mpi0"], v["mrho"]
            for p, q, P, Q in ((a, b, self.mpi, self.mpi0), (b, a, self.mpi0, self.mpi)):
                c.append(((m * m + p * p - q * q) / (2 * m), (self.mrho ** 2 + P * P - Q * Q) / (2 * self.mrho)))
        if "fpi" in names:
            s2 = 2.0 ** 0.5
            r2 = env.np.sqrt(env.np.asarray(2.0)).item() if not env.sym else env.np.sqrt(2 + 0 * self.fpi)
            f, m = v["fpi"], v["mpi"]
            self.f = self.fpi / r2
            c += [(s2, r2), (12 * s2, 12 * r2), (f / s2, self.fpi / r2), (12 * f, 12 * self.fpi), (12 * f * m, 12 * self.fpi * self.mpi),
                  (f * f / 2, self.fpi ** 2 / 2), (PI * m, pi * self.mpi), (PI * m * f / s2, pi * self.mpi * self.f),
                  (PI * m * f * f, pi * self.mpi * self.fpi ** 2), (v["fa"] ** 2, self.fa ** 2)]
        self.table = c


def point(env):
    """An integral is a linear functional of its integrand: the one that looks at a single point of the window."""
    t = env.real("t", 0, 1, True, True)

    def quad(f, a, b):
        return (b - a) * f(a + t * (b - a))

    return quad


def spence(env):
    return lambda x: env.uf("spence", -10, 10, 1.0)(x)


def core(env, names, **kw):
    C = Consts(env, names)
    return Core(env, C.table, quad=point(env), spence=spence(env), **kw), C


def away(env, x, *edges):
    for e in edges:
        env.assume((x - e) * (x - e) > EPS * EPS * (x * x + e * e))


def parent(env, m, *states, hi=100, doppler=None):
    """The energy of the decaying particle: below its mass, at rest, in flight."""
    st = env.choose("parent", states or ["in flight", "at rest", "below"])
    if st == "at rest":
        return m, st
    if st == "below":
        return m * env.real("parent energy / mass", 0.01, 1 - EPS), st
    if doppler:                         # the same, through the largest Doppler factor gamma (1 + beta)
        D = env.real("Doppler factor", 1 + 1e-2, doppler)
        return m * (D * D + 1) / (2 * D), st
    return m * env.real("gamma", 1 + 1e-4, hi), st


def either(env, label, got, refs, scale, tol=1e-9):
    """got is one of refs (all within a known small factor of each other)."""
    p = 1
    for r in refs:
        p = p * ((got - r) / scale)
    env.eq(label, p, 0.0, atol=tol)


# --- photons

def neutral_pion(env):
    K, C = core(env, "mpi0 br0")
    np = env.np
    E, st = parent(env, C.mpi0, "in flight", "below", hi=20)
    e = env.real("E", 1e-3, 1e5)
    if st == "below":
        env.eq("below", K.call("photon", "dnde_photon_neutral_pion", e, E), 0.0)
        return
    b = np.sqrt(1 - (C.mpi0 / E) ** 2)
    lo, hi = E * (1 - b) / 2, E * (1 + b) / 2
    env.assume((e - lo) ** 2 > 1e-6 * lo * lo)
    env.assume((e - hi) ** 2 > 1e-6 * hi * hi)
    got = K.call("photon", "dnde_photon_neutral_pion", e, E)
    inside = env.choose("photon", ["inside", "outside"])
    if inside == "inside":
        env.assume(e > lo)
        env.assume(e < hi)
        env.eq("flat", got * E * b / (2 * C.br0), 1.0, rtol=1e-5)
    else:
        env.assume((e - lo) * (e - hi) > 0)
        env.eq("outside", got, 0.0)


def muon_rest(env, C, e):
    np = env.np
    y, r = 2 * e / C.mmu, C.r ** 2
    br = ((3 - 5 * y + 6 * y ** 2 - 6 * y ** 3 + 2 * y ** 4) * np.log((1 - y) / r)
          + (1 - y) / 12 * (-102 + 46 * y - 101 * y ** 2 + 55 * y ** 3))
    return 2 * C.alpha / (3 * C.pi * y * C.mmu) * br


def muon(env):
    K, C = core(env, "me mmu ial")
    np = env.np
    E, st = parent(env, C.mmu)
    r = C.r ** 2
    if st == "at rest":
        y = env.real("y", 1e-6, 2)
        away(env, y, 1 - r, 1 - C.r)
        e = y * C.mmu / 2
        got = K.call("photon", "dnde_photon_muon", e, E)
        if y > 1 - r:
            env.eq("beyond the end point", got, 0.0)
        elif y > 1 - C.r:
            env.eq("last part of the spectrum", got * C.mmu, muon_rest(env, C, e) * C.mmu, rtol=1e-9)
        else:
            env.eq("at rest", got * C.mmu, muon_rest(env, C, e) * C.mmu, rtol=1e-7, atol=1e-12)
        return
    if st == "below":
        env.eq("below", K.call("photon", "dnde_photon_muon", env.real("E", 1e-6, 1e4), E), 0.0)
        return
    x = env.real("x", 1e-6, 2)       # photon energy over the largest possible one
    b = np.sqrt(1 - (C.mmu / E) ** 2)
    e = x * E / 2
    away(env, x, (1 - r) * (1 + b), (1 - r) * (1 - b) / (C.mmu / E) ** 2)
    got = K.call("photon", "dnde_photon_muon", e, E)
    # the decay at cos theta: y' = 2 E gamma (1 - b c) / mmu between xm and xp
    y = 2 * e * E / (C.mmu * C.mmu)
    xm = y * (1 - b)
    if xm > 1 - r:
        env.eq("beyond the end point", got, 0.0)
        return
    env.assume(xm < 1 - r)
    if y * (1 + b) < 1 - r:
        xp = y * (1 + b)
    else:
        xp = 1 - r
    sp = spence(env)

    def closed(u):
        l = np.log((1 - u) / r)
        return l, np.log(u)

    lm, um = closed(xm)
    lp, up = closed(xp)
    A = (21 * (xm * xm + xm * xp + xp * xp) - 92 * (xm + xp) + 191) / 12 + 102 / (12 * xm * xp)
    ref = (xm - xp) * A
    ref = ref + lm * (9 / xm + 18 - 18 * xm + 9 * xm ** 2 - 2 * xm ** 3) / 3
    ref = ref - lp * (9 / xp + 18 - 18 * xp + 9 * xp ** 2 - 2 * xp ** 3) / 3
    ref = ref + 5 * (lm * um - lp * up) + 5 * (sp(xm) - sp(xp))
    ref = ref + 16 * np.log((1 - xp) / (1 - xm)) / 3 + 28 * np.log(xp / xm) / 3
    env.eq("in flight", got * E * 3 * C.pi / C.alpha * b, ref, rtol=1e-6, atol=1e-6)


def lnug(env, C, e, m):
    """Radiative pi -> l nu gamma: inner bremsstrahlung, structure dependent terms and their interference."""
    np = env.np
    x, r = 2 * e / C.mpi, (m / C.mpi) ** 2
    if x > 1 - r:
        return 0
    fv = C.fv * (1 + (1 - x) / 10)
    f = (r + x - 1) * (C.mpi ** 2 * x ** 4 * (C.fa ** 2 + fv ** 2) * (r * r - r * x + r - 2 * (x - 1) ** 2)
                       - 12 * C.sqrt2 * C.f * C.mpi * r * (x - 1) * x * x * (C.fa * (r - 2 * x + 1) + x * fv)
                       - 24 * C.f ** 2 * r * (x - 1) * (4 * r * (x - 1) + (x - 2) ** 2))
    g = 12 * C.sqrt2 * C.f * r * (x - 1) ** 2 * np.log(r / (1 - x)) * (
        C.mpi * x * x * (C.fa * (x - 2 * r) - x * fv) + C.sqrt2 * C.f * (2 * r * r - 2 * r * x - x * x + 2 * x - 2))
    return C.alpha * (f + g) / (24 * C.pi * C.mpi * C.f ** 2 * (r - 1) ** 2 * (x - 1) ** 2 * r * x)


def radiative(env):
    K, C = core(env, "mpi fpi ial fa fv")
    C.sqrt2 = C.fpi / C.f
    m = C.mpi * env.real("lepton / pion mass", 1e-3, 0.99)
    x = env.real("x", 1e-5, 2)
    away(env, x, 1 - (m / C.mpi) ** 2)
    e = x * C.mpi / 2
    env.eq("pi -> l nu gamma", K.raw("vf_dnde_pi_to_lnug", e, m) * C.mpi, lnug(env, C, e, m) * C.mpi, rtol=1e-6, atol=1e-9)


def charged_pion(env):
    split = "vf_dnde_pi_to_lnug" in rust.build().extra
    K, C = core(env, "me mmu mpi ial fpi fa fv brmu bre emu", opaque={"dnde_photon_muon": 1, **({"dnde_pi_to_lnug": 1} if split else {})})
    np = env.np
    C.sqrt2 = C.fpi / C.f
    E, st = parent(env, C.mpi)
    x = env.real("x", 1e-5, 3)
    e = x * C.mpi / 2
    if st == "below":
        env.eq("below", K.call("photon", "dnde_photon_charged_pion", e, E), 0.0)
        return
    g = E / C.mpi
    b = np.sqrt(1 - (C.mpi / E) ** 2)

    def integrand(c):
        d = g * (1 - b * c)
        er = e * d
        away(env, 2 * er / C.mpi, 1 - C.me ** 2 / C.mpi ** 2, 1 - C.mmu ** 2 / C.mpi ** 2)
        rad = [K.raw("vf_dnde_pi_to_lnug", er, m) if split else lnug(env, C, er, m) for m in (C.mmu, C.me)]
        s = C.brmu * (K.call("photon", "dnde_photon_muon", er, C.emu) + rad[0]) + C.bre * rad[1]
        return s / (2 * d)

    ref = point(env)(integrand, -1.0, 1.0)
    got = K.call("photon", "dnde_photon_charged_pion", e, E)
    env.eq("charged pion", got * C.mpi, ref * C.mpi, rtol=1e-7, atol=1e-12)


def rho(env):
    K, C = core(env, "mpi mpi0 mrho", opaque={"dnde_photon_charged_pion": 1, "dnde_photon_neutral_pion": 1})
    np = env.np
    E, st = parent(env, C.mrho)
    which = env.choose("rho", ["charged", "neutral"])
    e = env.real("E", 1e-2, 1e3)

    def source(q):
        if which == "neutral":
            return 2 * K.call("photon", "dnde_photon_charged_pion", q, C.mrho / 2)
        m2 = C.mpi ** 2 - C.mpi0 ** 2
        return (K.call("photon", "dnde_photon_charged_pion", q, (C.mrho ** 2 + m2) / (2 * C.mrho))
                + K.call("photon", "dnde_photon_neutral_pion", q, (C.mrho ** 2 - m2) / (2 * C.mrho)))

    got = K.call("photon", f"dnde_photon_{which}_rho", e, E)
    if st == "below":
        env.eq("below", got, 0.0)
    elif st == "at rest":
        s = source(e)
        env.eq("source", (got - s) * (got * e - s), 0.0, atol=1e-12)
        env.eq("at rest " + which, got, s, rtol=1e-9, atol=1e-15)
    else:
        g = E / C.mrho
        b = np.sqrt(1 - (C.mrho / E) ** 2)
        ref = point(env)(lambda q: source(q) / q, g * e * (1 - b), g * e * (1 + b)) / (2 * b * g)
        env.eq("in flight " + which, got, ref, rtol=1e-7, atol=1e-14)


# --- positrons

def michel(env, C, x):
    return 2 * env.np.sqrt(x * x - 4 * C.r ** 2) * (x * (3 + 3 * C.r ** 2 - 2 * x) - 4 * C.r ** 2)


def positron_muon(env):
    K, C = core(env, "me mmu rf")
    np = env.np
    E, st = parent(env, C.mmu, hi=50)
    r = C.r
    if st == "below":
        env.eq("below", K.call("positron", "dnde_positron_muon", env.real("E", 1e-3, 1e4), E), 0.0)
        return
    if st == "at rest":
        x = env.real("x", 1e-3, 2)
        away(env, x, 2 * r, 1 + r * r)
        got = K.call("positron", "dnde_positron_muon", x * C.mmu / 2, E) * C.mmu / 2
        if x < 2 * r or x > 1 + r * r:
            env.eq("outside", got, 0.0)
            return
        ref = michel(env, C, x)
    else:
        k = env.real("energy / mass", 0.5, 1e4)
        e = k * C.me
        away(env, e, C.me)
        got = K.call("positron", "dnde_positron_muon", e, E) * E / 2
        if e < C.me:
            env.eq("outside", got, 0.0)
            return
        b = np.sqrt(1 - (C.mmu / E) ** 2)
        g2 = (E / C.mmu) ** 2
        x = 2 * e / E
        q = np.sqrt(x * x - 4 * r * r / g2)
        lo, hi = g2 * (x - b * q), g2 * (x + b * q)
        away(env, lo, 2 * r, 1 + r * r)
        away(env, hi, 2 * r, 1 + r * r)
        if lo < 2 * r:
            lo = 2 * r
        if hi > 1 + r * r:
            hi = 1 + r * r
        if lo > hi:
            env.eq("outside", got, 0.0)
            return

        def P(u):
            return u * u * (3 + 3 * r * r) - 4 * u ** 3 / 3 - 8 * r * r * u

        ref = (P(hi) - P(lo)) / (2 * b)
    env.eq("Michel " + st, (got - ref * C.rf) * (got - ref / C.rf), 0.0, atol=1e-11)
    env.eq("normalisation " + st, got, ref * C.rf, rtol=1e-9, atol=1e-12)


def delta(env, e0, e, m, b):
    """A monochromatic line seen from the moving frame."""
    np = env.np
    g = 1 / np.sqrt(1 - b * b)
    k = np.sqrt(e * e - m * m)
    lo, hi = g * (e - b * k), g * (e + b * k)
    away(env, e0, lo, hi)
    if lo < e0 and e0 < hi:
        return 1 / (2 * g * b * np.sqrt(e0 * e0 - m * m))
    return 0


def positron_pion(env):
    K, C = core(env, "me mmu mpi brmu bre rf emax", opaque={"dnde_positron_muon": 1})
    np = env.np
    E, st = parent(env, C.mpi, hi=20)
    e = C.me * env.real("energy / mass", 0.5, 1e4)
    away(env, e, C.me)
    fn = "dnde_positron_charged_pion"
    if st == "below":
        env.eq("below", K.call("positron", fn, e, E), 0.0)
        return
    emu = (C.mpi ** 2 + C.mmu ** 2) / (2 * C.mpi)
    got = K.call("positron", fn, e, E)
    if e < C.me:
        env.eq("outside", got, 0.0)
        return
    if st == "at rest":
        ref = C.brmu * K.call("positron", "dnde_positron_muon", e, emu)
        env.eq("at rest is this or nothing", got * (got - ref), 0.0, atol=1e-14)
        env.eq("at rest", got, ref, rtol=1e-9, atol=1e-12)
        return
    b, g = np.sqrt(1 - (C.mpi / E) ** 2), E / C.mpi
    k = np.sqrt(e * e - C.me ** 2)
    lo, hi = g * (e - b * k), g * (e + b * k)
    away(env, lo, C.me)
    away(env, hi, C.emax)
    if lo < C.me:
        lo = C.me
    if hi > C.emax:
        hi = C.emax

    def integrand(q):
        return K.call("positron", "dnde_positron_muon", q, emu) / np.sqrt(q * q - C.me ** 2)

    ref = C.brmu * point(env)(integrand, lo, hi) / (2 * b * g)
    ref = ref + C.bre * delta(env, (C.mpi ** 2 + C.me ** 2) / (2 * C.mpi), e, C.me, b)
    env.eq("in flight", got, ref, rtol=1e-7, atol=1e-14)


# --- neutrinos

def neutrino_muon(env):
    K, C = core(env, "me mmu rf")
    np = env.np
    E, st = parent(env, C.mmu, hi=50)
    r2 = C.r ** 2
    x = env.real("x", 1e-4, 3)

    def call(e):
        return K.call("neutrino", "dnde_neutrino_muon", e, E, n=3)

    if st == "below":
        for g in call(x * C.mmu):
            env.eq("below", g, 0.0)
        return
    if st == "at rest":
        away(env, x, 1 - r2)
        g = [v * C.mmu / 2 for v in call(x * C.mmu / 2)]
        if x > 1 - r2:
            ref = [0, 0]
        else:
            c = C.rf * x * x * (1 - r2 - x) ** 2 / (1 - x)
            ref = [12 * c, 2 * c * (3 + r2 * (3 - x) - 5 * x + 2 * x * x) / (1 - x) ** 2]
    else:
        b = np.sqrt(1 - (C.mmu / E) ** 2)
        g2 = (E / C.mmu) ** 2
        lo, hi = g2 * x * (1 - b), g2 * x * (1 + b)
        away(env, lo, 1 - r2)
        away(env, hi, 1 - r2)
        g = [v * E / 2 for v in call(x * E / 2)]
        if lo > 1 - r2:
            ref = [0, 0]
        else:
            if hi > 1 - r2:
                hi = 1 - r2
            L = np.log((1 - hi) / (1 - lo))

            # integrals of the spectra at rest over x
            def S(lo, hi):
                return (lo - hi) * (2 * (lo * lo + lo * hi + hi * hi + 3 * r2 * r2 + 3 * r2 * (lo + hi)) - 3 * (lo + hi)) - 6 * r2 ** 2 * L

            def pm(u):
                return 3 * u * u - 4 * u ** 3 / 3 - 3 * r2 * u * u + 2 * r2 ** 3 * u / (1 - u) ** 2 - 6 * r2 * r2 / (1 - u)

            ref = [C.rf / b * S(lo, hi), C.rf / (2 * b) * (pm(hi) - pm(lo) + 2 * r2 * r2 * (r2 - 3) * L)]
    for n, a, v in zip(("electron", "muon"), g, ref):
        env.eq(f"{n} {st}", a, v, rtol=1e-7, atol=1e-9)
    env.eq("tau", g[2], 0.0)


def neutrino_pion(env):
    K, C = core(env, "me mmu mpi brmu bre rf", opaque={"dnde_neutrino_muon": 3})
    np = env.np
    E, st = parent(env, C.mpi, hi=20)
    e = env.real("E", 1e-2, 1e4)
    emu = (C.mpi ** 2 + C.mmu ** 2) / (2 * C.mpi)

    def mu(q):
        return K.call("neutrino", "dnde_neutrino_muon", q, emu, n=3)

    got = K.call("neutrino", "dnde_neutrino_charged_pion", e, E, n=3)
    env.eq("tau", got[2], 0.0)
    if st == "below":
        env.eq("below", got[0], 0.0)
        env.eq("below", got[1], 0.0)
        return
    if st == "at rest":
        s = mu(e)
        for k, n in enumerate(("electron", "muon")):
            env.eq(n + " at rest", got[k], C.brmu * s[k], rtol=1e-9, atol=1e-14)
        return
    b = np.sqrt(1 - (C.mpi / E) ** 2)
    g = E / C.mpi
    win = e * g * (1 - b), e * g * (1 + b)
    cont = [C.brmu * point(env)(lambda q, k=k: mu(q)[k] / q, *win) / (2 * b * g) for k in (0, 1)]
    le = C.bre * delta(env, (C.mpi ** 2 - C.me ** 2) / (2 * C.mpi), e, 0, b)
    lm = C.brmu * delta(env, (C.mpi ** 2 - C.mmu ** 2) / (2 * C.mpi), e, 0, b)
    env.eq("muon", got[1] * C.mpi, (cont[1] + lm) * C.mpi, rtol=1e-7, atol=1e-10)
    env.eq("electron shape", (got[0] - cont[0] - le) * (got[0] - cont[0] - 2 * le) * C.mpi ** 2, 0.0, atol=1e-16)
    env.eq("electron", got[0] * C.mpi, (cont[0] + le) * C.mpi, rtol=1e-7, atol=1e-10)


# --- boosts and tables

def boosts(env):
    K, C = core(env, "")
    np = env.np
    m = env.real("m", 0, 1e3)
    e = env.real("E", 1e-3, 1e4)
    e0 = env.real("E0", 1e-3, 1e4)
    b = env.real("beta", -0.5, 1.5)
    env.assume(e0 > m * (1 + EPS))
    away(env, e, m)
    away(env, b, 1)
    env.assume(b * b > 1e-6)
    got = K.raw("vf_boost_delta", e0, e, m, b)
    if b < 0 or b > 1 or e < m:
        env.eq("nothing", got, 0.0)
    else:
        env.eq("line", got * e0, delta(env, e0, e, m, b) * e0, rtol=1e-7)
    env.assume(e > m)
    env.eq("gamma", K.raw("vf_boost_gamma", e, m) * m, e)
    env.eq("beta", K.raw("vf_boost_beta", e, m) ** 2 * e * e, e * e - m * m, rtol=1e-9, atol=1e-9)


def interp(env):
    K, C = core(env, "")
    n = env.choose("nodes", [2, 3, 4])
    xs = [env.real("x0", 0.1, 10)]
    for k in range(1, n):
        xs.append(xs[-1] + env.real(f"dx{k}", 0.1, 10))
    ys = [env.real(f"y{k}", -10, 10) for k in range(n)]
    v = env.real("v", 0.01, 60)
    away(env, v, *xs)
    got = K.raw("vf_interp", v, xs, ys, Int(n))
    if v < xs[0]:
        env.eq("left", got, ys[0])
        return
    for k in range(1, n):
        if v < xs[k]:
            w = (v - xs[k - 1]) / (xs[k] - xs[k - 1])
            env.eq("between nodes", got, ys[k - 1] * (1 - w) + ys[k] * w, rtol=1e-9, atol=1e-9)
            return
    env.eq("right", got, ys[-1])


def window(env, xs, ys, E, b):
    """1 / (2 gamma beta) times the integral of f / x over the boosted window: f / x linear between nodes, f falling as 1 / x
    below the first node, zero above the last.  Returns it and the part of it that lies in the last whole cell."""
    g = 1 / env.np.sqrt(1 - b * b)
    lo, hi = E * g * (1 - b), E * g * (1 + b)
    away(env, lo, *xs)
    away(env, hi, *xs)
    pre = 1 / (2 * g * b)
    if lo > xs[-1]:
        return 0, 0, 0
    if hi < xs[0]:
        return ys[0] * xs[0] * (1 / lo - 1 / hi) * pre, 0, 0
    tot = 0
    if lo < xs[0]:
        tot = ys[0] * (xs[0] / lo - 1)
        lo = xs[0]
    if hi > xs[-1]:
        hi = xs[-1]
    dropped = twice = 0
    for k in range(1, len(xs)):
        a, c = xs[k - 1], xs[k]
        fa, fc = ys[k - 1] / a, ys[k] / c

        def part(u, v):
            return (v - u) * (fa + (fc - fa) * ((u + v) / 2 - a) / (c - a))

        if lo > c or hi < a:
            continue
        u = lo if lo > a else a
        v = hi if hi < c else c
        tot = tot + part(u, v)
        if u is a and v is c:
            dropped = part(a, c)
        elif u is not a and v is not c:
            twice = part(u, c) + part(a, v) - part(u, v)
    return tot * pre, dropped * pre, twice * pre


def table_boost(n):
    def fn(env):
        K, C = core(env, "")
        xs = [env.real("x0", 0.1, 10)]
        for k in range(1, n):
            xs.append(xs[-1] + env.real(f"dx{k}", 0.1, 10))
        ys = [env.real(f"y{k}", 1e-3, 10) for k in range(n)]
        E = env.real("E", 0.01, 100)
        b = env.real("beta", 1e-2, 0.99)
        g = 1 / env.np.sqrt(1 - b * b)
        for e in (E * g * (1 - b), E * g * (1 + b)):
            for x in xs:
                env.assume((e - x) ** 2 > 1e-11)
        got = K.raw("vf_boost_table", E, b, xs, ys, Int(n))
        ref, dropped, twice = window(env, xs, ys, E, b)
        env.eq("shape", (got - ref) * (got - ref + dropped - twice), 0.0, atol=1e-7)
        env.eq("window", got, ref, rtol=1e-7, atol=1e-9)
    return fn


FILES = {"charged_kaon": "charged_kaon", "long_kaon": "long_kaon", "short_kaon": "short_kaon", "eta": "eta", "eta_prime": "eta_prime",
         "omega": "omega", "phi": "phi"}
MASS = dict(pi0=134.9768, eta=547.862, eta_prime=957.78, charged_kaon=493.677, long_kaon=497.611, short_kaon=497.611, omega=782.66, phi=1019.461)
# photon lines: (other particle, number of photons x branching ratio)
LINES = {"charged_kaon": [], "long_kaon": [("a", 2 * 5.47e-4)], "short_kaon": [("a", 2 * 2.63e-6)], "eta": [("a", 2 * 0.3941)],
         "eta_prime": [("a", 2 * 0.02307)], "omega": [("pi0", 8.34e-2), ("eta", 4.5e-4)], "phi": [("eta", 1.303e-2), ("eta_prime", 6.22e-5)]}


def table(name):
    def fn(env):
        import os

        ids = {os.path.getsize(os.path.join(rust.build().repo, "hazma/spectra/_photon/data", f + "_photon.csv")): n for n, f in FILES.items()}
        xs = [env.real("x0", 0.1, 1e4)]
        for k in (1, 2):
            xs.append(xs[-1] + env.real(f"dx{k}", 0.1, 300))
        ys = [env.real(f"y{k}", 1e-6, 10) for k in range(3)]
        seen = []

        def tab(w, i):
            w, i = int(w), int(i)
            seen.append(ids.get(w))
            return (xs + ys)[i]

        K, C = core(env, "", table=tab)
        m = MASS[name]
        E, st = parent(env, m, doppler=40)
        e = env.real("E", 1e-2, 1e4)
        got = K.call("photon", "dnde_photon_" + name, e, E)
        env.claim("its own table", set(seen) <= {name})
        if st == "below":
            env.eq("below", got, 0.0)
            return
        if st == "at rest":
            away(env, e, xs[0], xs[2])
            if e < xs[0]:
                ref = ys[0] * xs[0] / e
            elif e > xs[2]:
                ref = 0
            else:
                ref = K.raw("vf_interp", e, xs, ys, Int(3))
            env.eq("at rest", got, ref, rtol=1e-9, atol=1e-12)
            return
        b = env.np.sqrt(1 - (m / E) ** 2)
        # where the window of the continuum lies ("table boost" looks at all of them)
        lo, hi = e * (1 - b) * E / m, e * (1 + b) * E / m
        where = env.choose("window", ["below"] if name == "phi" else ["above", "below", "across"])
        if where == "above":
            env.assume(lo > xs[2] * (1 + EPS))
        elif where == "below":
            env.assume(hi < xs[0] * (1 - EPS))
        else:
            env.assume(lo < xs[0] * (1 - EPS))
            env.assume(hi > xs[2] * (1 + EPS))
        if name == "phi":               # one line at a time: the other one lies beside its window
            mo = MASS[LINES[name][env.choose("other line", [0, 1])][0]]
            if env.choose("side", ["left", "right"]) == "left":
                env.assume(hi < (m * m - mo * mo) / (2 * m) * (1 - EPS))
            else:
                env.assume(lo > (m * m + mo * mo) / (2 * m) * (1 + EPS))
        cont = K.raw("vf_boost_table", e, b, xs, ys, Int(3))
        ref = old = 0
        for other, w in LINES[name]:
            mo = MASS.get(other, 0.0)
            d = delta(env, (m * m - mo * mo) / (2 * m), e, 0, b)
            ref = ref + w * d
            # recorded defects: one photon of the eta', phi lines at the energy of the other meson
            if name == "phi":
                old = old + w * delta(env, (m * m + mo * mo) / (2 * m), e, 0, b)
            elif name == "eta_prime":
                old = old + w / 2 * d
        line = got - cont
        if name in ("phi", "eta_prime"):
            env.eq("lines (shape)", (line - ref) * (line - old) * m * m, 0.0, atol=1e-12)
        env.eq("lines", line * m, ref * m, rtol=1e-6, atol=1e-9)
    return fn


def cases(tier):
    b = rust.build()
    k = dict(undef="assume")
    return [Case(n.replace("_", " "), f, **k) for n, f in (
        ("neutral_pion", neutral_pion), ("muon", muon), ("charged_pion", charged_pion), ("rho", rho),
        ("positron_muon", positron_muon), ("positron_pion", positron_pion), ("neutrino_muon", neutrino_muon),
        ("neutrino_pion", neutrino_pion), ("boosts", boosts), ("interp", interp))
            + ((("radiative_pion", radiative),) if "vf_dnde_pi_to_lnug" in b.extra else ())
            + tuple((f"table boost {n}", table_boost(n)) for n in ((3, 4) if tier == "quick" else (2, 3, 4, 5)))
            + (tuple(("table " + n, table(n)) for n in FILES) if b.tables else ())]
