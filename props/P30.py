"""Compiled cross sections of the MeV scalar and vector mediators (the Rust core)."""
from vf import rust
from vf.harness import Case
from vf.rust import Core

PROPERTY = "P30"
BOUNDS = ("any center of mass energy, masses, couplings and mediator width; every function and branch of "
          "kernels/scalar_xs.rs and kernels/vector_xs.rs; the thermal average through its integrand at any point")
ASSUMPTIONS = ["real arithmetic", "the source is compiled to LLVM IR by rustc with the binding layer (pyo3) replaced by a stand-in",
               "the adaptive integrator is observed at its boundary; Bessel functions are arbitrary positive functions",
               "powers of two used for rescaling a division are arbitrary positive numbers"]
FUNCTIONS = ["hazma._core.scalar_mediator.*", "hazma._core.vector_mediator.*"]

S, V = "scalar_mediator", "vector_mediator"
ME, MMU, MPI0, MPI = 0.510998928, 105.6583715, 134.9766, 139.57018
VH, B0, MQ, FPI, ALPHA = 246.22795e3, 2654.082197477761, 7.1, 92.2138, 1 / 137.04


def S_frac(env):
    from fractions import Fraction
    from vf import sym

    return sym.const(Fraction(71, 10)) if env.sym else 7.1


class Consts:
    def __init__(self, env):
        pi = env.pi
        for k, v in dict(me=ME, mmu=MMU, mpi0=MPI0, mpi=MPI, vh=VH, b0=B0, fpi=FPI).items():
            setattr(self, k, env.const(k, v))
        self.ial = env.const("inverse alpha", 137.04)
        self.alpha = 1 / self.ial
        c = [(float(v), getattr(self, k)) for k, v in dict(me=ME, mmu=MMU, mpi0=MPI0, mpi=MPI, vh=VH, b0=B0, fpi=FPI).items()]
        p = 3.141592653589793
        for k, m in (("me", ME), ("mmu", MMU), ("mpi0", MPI0), ("mpi", MPI)):
            c += [(m ** n, getattr(self, k) ** n) for n in (2, 4)]
        c += [(VH ** n, self.vh ** n) for n in (2, 4)]
        c += [(ALPHA, self.alpha), (ALPHA ** 2, self.alpha ** 2)]
        c += [(p ** n, pi ** n) for n in (1, 3, 4, 5)]
        c += [(FPI ** 2, self.fpi ** 2), (FPI ** 2 * p ** 4, self.fpi ** 2 * pi ** 4), (FPI ** 2 * p ** 5, self.fpi ** 2 * pi ** 5)]
        c += [(p * VH ** 2, pi * self.vh ** 2), (p * VH ** 4, pi * self.vh ** 4), (B0 ** 2, self.b0 ** 2)]
        self.mq = S_frac(env)
        self.table = c


def core(env, **hooks):
    C = Consts(env)
    return Core(env, C.table, **hooks), C


def kinematics(env, *thr):
    mx = env.real("mx", 1e-2, 1e4)
    med = env.real("mediator mass", 1e-2, 1e4)
    q = env.real("q", 1e-2, 5e4)
    w = env.real("width", 0, 1e4)
    env.assume((q * q - med * med) ** 2 + (med * w) ** 2 > 1e-12)
    return q, mx, med, w


def near(env, q, *thresholds):
    for t in thresholds:
        env.assume((q - t) * (q - t) > 1e-12 * t * t)


# --- scalar

def scalar_couplings(env):
    g = {k: env.real(k, -5, 5) for k in ("gsxx", "gsff", "gsGG", "gsFF")}
    g["lam"] = env.real("lam", 1e2, 1e7)
    return g


def scalar_amplitude(env, C, g, t, m):
    """Chiral Lagrangian: S -> pi pi at momentum transfer squared t."""
    return 2 * g["gsGG"] / (9 * g["lam"]) * (t - 2 * m * m) + C.b0 * C.mq * (2 * g["gsGG"] / (3 * g["lam"]) + g["gsff"] / C.vh)


def scalar(env):
    """gsxx^2 beta_x / (2 D) times the width of a mediator of mass e_cm, e_cm Gamma."""
    K, C = core(env)
    np, pi = env.np, env.pi
    q, mx, ms, w = kinematics(env)
    g = scalar_couplings(env)
    args = [q, mx, ms, g["gsxx"], g["gsff"], g["gsGG"], g["gsFF"], g["lam"], w, 0.0]
    ch = env.choose("channel", ["ff", "ff muon", "ff electron", "gg", "pipi", "pi0pi0"])
    s = q * q
    if ch.startswith("ff"):
        m = {"ff": None, "ff muon": C.mmu, "ff electron": C.me}[ch]
        if m is None:
            m = env.real("mf", 1e-3, 1e4)
        name, thr = "sigma_xx_to_s_to_ff", m
        args.append(m)
    else:
        thr = {"gg": 0, "pipi": C.mpi, "pi0pi0": C.mpi0}[ch]
        name = "sigma_xx_to_s_to_" + ch
    near(env, q, 2 * mx, *([2 * thr] if ch != "gg" else []))
    got = K.call(S, name, *args)
    if q < 2 * mx or q < 2 * thr:
        env.eq("closed", got, 0.0)
        return
    bx, b = np.sqrt(1 - 4 * mx * mx / s), np.sqrt(1 - 4 * thr * thr / s)
    if ch.startswith("ff"):
        rate = (g["gsff"] * thr / C.vh) ** 2 * s * b * b * b / (8 * pi)
    elif ch == "gg":
        rate = (C.alpha * g["gsFF"] / g["lam"]) ** 2 * s * s / (64 * pi ** 3)
    else:
        rate = scalar_amplitude(env, C, g, s, thr) ** 2 * b / (16 * pi) * (0.5 if ch == "pi0pi0" else 1)
    D = (s - ms * ms) ** 2 + ms * ms * w * w
    env.eq(ch, got, g["gsxx"] ** 2 * bx * rate / (2 * D), rtol=1e-8, atol=1e-60)


def pair(env):
    """x x -> S S (t and u channels, identical particles once) and its inverse."""
    K, C = core(env)
    np, pi = env.np, env.pi
    q, mx, ms, w = kinematics(env)
    g = scalar_couplings(env)
    near(env, q, 2 * mx, 2 * ms)
    args = [q, mx, ms, g["gsxx"], g["gsff"], g["gsGG"], g["gsFF"], g["lam"], w, 0.0]
    which = env.choose("process", ["xx_to_ss", "ss_to_xx"])
    got = K.call(S, "sigma_" + which, *args)
    if q < 2 * mx or q < 2 * ms:
        env.eq("closed", got, 0.0)
        return
    a, b = (mx / q) ** 2, (ms / q) ** 2
    bx, bs = np.sqrt(1 - 4 * a), np.sqrt(1 - 4 * b)
    if which == "ss_to_xx":
        L = np.log(1 - 2 * b + bx * bs) - np.log(1 - 2 * b - bx * bs)
    else:
        L = np.log((1 - 2 * b + bx * bs) / (1 - 2 * b - bx * bs))
    br = ((1 + 16 * a - 32 * a * a - 4 * b - 16 * a * b + 6 * b * b) / (1 - 2 * b) * L
          - bx * bs * (2 * a * (1 + 8 * a) + 3 * b * b - 16 * a * b) / (a - 4 * a * b + b * b))
    ref = br / (32 * pi) / (bx * bx)
    if which == "ss_to_xx":
        ref = 8 * (bx * bx) / (bs * bs) * ref
    env.assume(g["gsxx"] > 1e-3)
    env.eq(which, got * q * q / g["gsxx"] ** 4, ref, rtol=1e-6, atol=1e-7)


def elastic(ch):
    return lambda env: scatter(env, ch)


def scatter(env, ch):
    """Scattering of x on a target through the exchange of a mediator, integrated over the momentum transfer."""
    from scipy.integrate import quad

    K, C = core(env)
    name = {"lepton": "xl_to_xl", "pi": "xpi_to_xpi", "pi0": "xpi0_to_xpi0", "photon": "xg_to_xg"}[ch]
    m = {"lepton": MMU, "pi": MPI, "pi0": MPI0, "photon": 0.0}[ch]
    gx = env.real("gsxx", -5, 5)
    q, mx, ms, w = 400.0, 100.0, 300.0, 20.0
    g = dict(gsff=1.0, gsGG=1.0, gsFF=1.0, lam=1e4)
    args = [q, mx, ms, gx, g["gsff"], g["gsGG"], g["gsFF"], g["lam"], w, 0.0] + ([m] if ch == "lepton" else [])
    args0 = [mx + m - 1, *args[1:]]
    env.eq("closed", K.call(S, "sigma_" + name, *args0), 0.0)
    s = q * q
    lam = (s - (mx + m) ** 2) * (s - (mx - m) ** 2)

    def target(t):
        if ch == "lepton":
            return 2 * (g["gsff"] * m / VH) ** 2 * (4 * m * m - t)
        if ch == "photon":
            return (ALPHA * g["gsFF"] * t / (2 * g["lam"] * 3.141592653589793)) ** 2
        a = 2 * g["gsGG"] / (9 * g["lam"]) * (t - 2 * m * m) + B0 * MQ * (2 * g["gsGG"] / (3 * g["lam"]) + g["gsff"] / VH)
        return (2 if ch == "pi" else 1) * a * a

    I = quad(lambda t: (4 * mx * mx - t) * target(t) / ((t - ms * ms) ** 2 + ms * ms * w * w), -lam / s, 0.0)[0]
    got = K.call(S, "sigma_" + name, *args)
    env.eq("cross section", got / (I / (16 * 3.141592653589793 * lam)), gx ** 2, rtol=1e-4)


# --- vector

def vector_couplings(env):
    return {k: env.real(k, -5, 5) for k in ("gvxx", "gvuu", "gvdd", "gvss", "gvee", "gvmumu")}


def vargs(q, mx, mv, g, w):
    return [q, mx, mv, g["gvxx"], g["gvuu"], g["gvdd"], g["gvss"], g["gvee"], g["gvmumu"], w]


def vector(env):
    """gvxx^2 (1 + 2 mx^2/s) / (beta_x D) times the width of a mediator of mass e_cm, e_cm Gamma."""
    K, C = core(env)
    np, pi = env.np, env.pi
    q, mx, mv, w = kinematics(env)
    g = vector_couplings(env)
    ch = env.choose("channel", ["ff", "pipi", "pi0g", "pi0v"])
    s = q * q
    m = env.real("ml", 1e-3, 1e4)
    gl = env.real("gvll", -5, 5)
    thr = {"ff": 2 * m, "pipi": 2 * C.mpi, "pi0g": C.mpi0, "pi0v": C.mpi0 + mv}[ch]
    near(env, q, 2 * mx, thr)
    args = vargs(q, mx, mv, g, w)
    if ch == "ff":
        args = [q, mx, mv, g["gvxx"], gl, w, m]
    got = K.call(V, "sigma_xx_to_v_to_" + ch, *args)
    if q < 2 * mx or q < thr:
        env.eq("closed", got, 0.0)
        return
    if ch == "ff":
        rate = gl ** 2 * (s + 2 * m * m) * np.sqrt(1 - 4 * m * m / s) / (12 * pi)
    elif ch == "pipi":
        b = np.sqrt(1 - 4 * C.mpi * C.mpi / s)
        rate = (g["gvuu"] - g["gvdd"]) ** 2 * s * b * b * b / (48 * pi)
    elif ch == "pi0g":
        rate = C.alpha * (2 * g["gvuu"] + g["gvdd"]) ** 2 * s * s * (1 - C.mpi0 * C.mpi0 / s) ** 3 / (3456 * pi ** 4 * C.fpi * C.fpi)
    else:
        # pi0 gamma with the second vertex replaced: e (2 gu + gd) / 3 -> gu^2 - gd^2
        k = np.sqrt((s - (mv + C.mpi0) ** 2) * (s - (mv - C.mpi0) ** 2))
        rate = (g["gvuu"] ** 2 - g["gvdd"] ** 2) ** 2 * k * k * k / (1536 * pi ** 5 * s * C.fpi * C.fpi)
    D = (s - mv * mv) ** 2 + mv * mv * w * w
    bx = np.sqrt(1 - 4 * mx * mx / s)
    env.eq(ch, got, g["gvxx"] ** 2 * (1 + 2 * mx * mx / s) * rate / (bx * D), rtol=1e-8, atol=1e-60)


def threshold(env):
    """A cross section at the threshold of dark matter production is reported as a number (it diverges as 1/beta)."""
    K, C = core(env)
    mx, mv, w = env.real("mx", 300, 1e4), env.real("mediator mass", 1e-2, 1e2), env.real("width", 1, 1e4)
    g = vector_couplings(env)
    ch = env.choose("channel", ["pipi", "pi0v"])
    try:
        K.call(V, "sigma_xx_to_v_to_" + ch, *vargs(2 * mx, mx, mv, g, w))
        ok = True
    except rust.CoreError:
        ok = False
    env.claim("2 mx " + ch, ok)


def vv(env):
    K, C = core(env)
    np, pi = env.np, env.pi
    q, mx, mv, w = kinematics(env)
    g = vector_couplings(env)
    near(env, q, 2 * mx, 2 * mv)
    got = K.call(V, "sigma_xx_to_vv", *vargs(q, mx, mv, g, w))
    if q < 2 * mx or q < 2 * mv:
        env.eq("closed", got, 0.0)
        return
    a, b = (mx / q) ** 2, (mv / q) ** 2
    bx, bv = np.sqrt(1 - 4 * a), np.sqrt(1 - 4 * b)
    L = np.log((1 - 2 * b + bx * bv) / (1 - 2 * b - bx * bv))
    ref = 1 / (8 * pi * bx * bx) * (
        (1 + 4 * a - 8 * a * a - 8 * a * b + 4 * b * b) / (1 - 2 * b) * L
        - bx * bv * (2 * b * b + a + 4 * a * a) / (b * b + a - 4 * a * b))
    env.assume(g["gvxx"] > 1e-3)
    env.eq("V V", got * q * q / g["gvxx"] ** 4, ref, rtol=1e-6, atol=1e-7)


def closed(env):
    """Every annihilation is exactly zero below its threshold (a NaN there is an alarm)."""
    K, C = core(env)
    q, mx, med, w = kinematics(env)
    ch = env.choose("channel", ["ff", "gg", "pipi", "pi0pi0", "xx_to_ss", "ss_to_xx", "v ff", "v pipi", "v pi0g", "v pi0v", "xx_to_vv"])
    m = env.real("m", 1e-3, 1e4)
    thr = {"ff": 2 * m, "v ff": 2 * m, "gg": 0, "pipi": 2 * C.mpi, "pi0pi0": 2 * C.mpi0, "xx_to_ss": 2 * med, "ss_to_xx": 2 * med,
           "v pipi": 2 * C.mpi, "v pi0g": C.mpi0, "v pi0v": C.mpi0 + med, "xx_to_vv": 2 * med}[ch]
    near(env, q, 2 * mx, *([thr] if ch != "gg" else []))
    if q < 2 * mx:
        pass
    else:
        env.assume(q < thr)
    if ch in ("ff", "gg", "pipi", "pi0pi0", "xx_to_ss", "ss_to_xx"):
        g = scalar_couplings(env)
        args = [q, mx, med, g["gsxx"], g["gsff"], g["gsGG"], g["gsFF"], g["lam"], w, 0.0] + ([m] if ch == "ff" else [])
        name = "sigma_" + ch if "_to_" in ch else "sigma_xx_to_s_to_" + ch
        got = K.call(S, name, *args)
    else:
        g = vector_couplings(env)
        args = vargs(q, mx, med, g, w)
        if ch == "v ff":
            args = [q, mx, med, g["gvxx"], env.real("gvll", -5, 5), w, m]
        got = K.call(V, "sigma_" + ch if "_to_" in ch else "sigma_xx_to_v_to_" + ch[2:], *args)
    env.eq("closed " + ch, got, 0.0)


# --- thermal average

def thermal(env, which):
    """x / (2 K2(x))^2 times the integral over z = e_cm / mx of sigma z^2 (z^2 - 4) K1(x z)."""
    from props import P06

    def bessel(env, n, x):
        # the core is handed this function: replays use the scaled one, which does not underflow
        if env.sym:
            from vf import sym

            return P06.bessel(env, n, x if isinstance(x, sym.Sym) else sym.const(x))
        import scipy.special

        return float(scipy.special.kve(n, x))

    log = []
    z = env.real("z", 2.001, 200)
    I = env.real("integral", 0, 1e3)

    def quad(f, a, b):
        log.append((a, b, f(z)))
        return I

    def kn(n, x):
        return bessel(env, int(n), x)

    K, C = core(env, quad=quad, kn=kn, k1=lambda x: bessel(env, 1, x))
    np = env.np
    model = which.split()[0]
    x = env.real("x", 300, 1e3) if which == "vector cold" else env.real("x", 1e-2, 300)
    mx, med, w = env.real("mx", 1, 1e4), env.real("mediator mass", 1, 1e4), env.real("width", 1e-3, 1e3)
    q = mx * z
    if model == "scalar":
        g = scalar_couplings(env)
        rest = [g["gsxx"], g["gsff"], g["gsGG"], g["gsFF"], g["lam"], w, 0.0]
        got = K.call(S, "thermal_cross_section", x, mx, med, *rest)
        sig = [K.call(S, "sigma_xx_to_s_to_ff", q, mx, med, *rest, m) for m in (C.me, C.mmu)]
        sig += [K.call(S, n, q, mx, med, *rest) for n in ("sigma_xx_to_s_to_gg", "sigma_xx_to_s_to_pi0pi0",
                                                         "sigma_xx_to_s_to_pipi", "sigma_xx_to_ss")]
    else:
        g = vector_couplings(env)
        a = vargs(x, mx, med, g, w)
        got = K.call(V, "thermal_cross_section", *a)
        a = a[1:]
        sig = [K.call(V, "sigma_xx_to_v_to_ff", q, mx, med, g["gvxx"], gl, w, m) for gl, m in ((g["gvee"], C.me), (g["gvmumu"], C.mmu))]
        sig += [K.call(V, n, q, *a) for n in ("sigma_xx_to_v_to_pipi", "sigma_xx_to_v_to_pi0g", "sigma_xx_to_v_to_pi0v",
                                             "sigma_xx_to_vv")]
        if which == "vector cold":
            x = 300.0
    env.claim("one integral", len(log) == 1)
    lo, hi, v = log[0]
    env.eq("lower limit", lo, 2.0)
    env.ge("upper limit", hi, 50 / x)
    env.ge("upper limit (cold)", hi, 100.0)
    tot = sum(sig)
    env.eq("integrand", v, tot * z * z * (z * z - 4) * bessel(env, 1, x * z), rtol=1e-8, atol=1e-80)
    k2 = bessel(env, 2, x)
    env.eq("average", got, x * I / (4 * k2 * k2), rtol=1e-8)


def cases(tier):
    rust.build()
    k = dict(undef="assume")
    return [Case("scalar", scalar, **k), Case("pair", pair, **k), Case("vector", vector, **k), Case("vv", vv, **k),
            *[Case("thermal " + w, lambda env, w=w: thermal(env, w), max_paths=6000, **k) for w in ("scalar", "vector", "vector cold")], *[Case("elastic " + c, elastic(c), **k) for c in ("lepton", "pi", "pi0", "photon")],
            Case("threshold", threshold, **k), Case("closed", closed)]
