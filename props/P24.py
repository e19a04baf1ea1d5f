"""Vector form factors."""
import numpy as np

from props._ref import kallen
from vf.harness import Case

PROPERTY = "P24"
BOUNDS = ("any energy, masses, couplings and fit parameters; one or two energies per call; one or two resonances at a time "
          "(three for towers of resonances); any four-momenta for the four-pion currents; distributions of 2 bins")
ASSUMPTIONS = ["real arithmetic; exp, log, cosines and square roots are exact functions",
               "scipy's quad is observed at its boundary; three-body integration itself is decided in P08, RAMBO in P09",
               "the gamma function is an arbitrary positive function"]
FUNCTIONS = ["hazma.form_factors.vector._base.*", "hazma.form_factors.vector._two_body.*", "hazma.form_factors.vector._three_body.*",
             "hazma.form_factors.vector._utils.*", "hazma.form_factors.vector._alpha.*", "hazma.form_factors.vector._pi_pi.*",
             "hazma.form_factors.vector._k_k.*", "hazma.form_factors.vector._pi_gamma.*", "hazma.form_factors.vector._eta_gamma.*",
             "hazma.form_factors.vector._pi_omega.*", "hazma.form_factors.vector._pi_phi.*", "hazma.form_factors.vector._eta_omega.*",
             "hazma.form_factors.vector._eta_phi.*", "hazma.form_factors.vector._pi_k_k.*", "hazma.form_factors.vector._pi_pi_eta.*",
             "hazma.form_factors.vector._pi_pi_etap.*", "hazma.form_factors.vector._pi_pi_omega.*",
             "hazma.form_factors.vector._pi_pi_pi0.*", "hazma.form_factors.vector._pi_pi_pi_pi.*"]


def ceq(env, label, a, b, **k):
    env.eq(label + " (re)", a.real, b.real, **k)
    env.eq(label + " (im)", a.imag, b.imag, **k)


def couplings(env):
    return tuple(env.real(n, -10, 10) for n in ("gu", "gd", "gs"))


def iso(g):
    return 3 * (g[0] + g[1]), g[0] - g[1], -3 * g[2]


def phase(env, x):
    return env.np.cos(x) + 1j * env.np.sin(x)


def fw(s, m, w):
    """Breit-Wigner of constant width, one at s = 0 up to the width."""
    return m * m / (m * m - s - 1j * m * w)


def running(env, s, m, w, q=None):
    """Breit-Wigner of running width w(s)."""
    return m * m / (m * m - s - 1j * env.np.sqrt(s) * w)


# -- base class ---------------------------------------------------------------

def base(env):
    """Widths and cross sections of any integrated form factor."""
    from hazma.form_factors.vector._base import VectorFormFactor

    J = env.uf("J", 0, 10)
    seen = []

    class F(VectorFormFactor):
        def form_factor(self, *a, **k):
            return 0.0

        def integrated_form_factor(self, q, couplings, **k):
            seen.append((couplings, k))
            return env.array([J(x) for x in np.ravel(q)]).reshape(np.shape(q))

        def width(self, mv, couplings, **k):
            return self._width(mv=mv, couplings=couplings, **k)

        def cross_section(self, *, q, mx, mv, gvxx, wv, **k):
            return self._cross_section(q=q, mx=mx, mv=mv, gvxx=gvxx, wv=wv, **k)

    ms = [env.real(f"m{i}", 0, 1e3, lo_s=False) for i in range(env.choose("particles", [2, 3, 4]))]
    f = F(tuple(ms))
    a = env.real("a", 1, 1e4)
    b = env.real("b", 1, 1e4)
    q = env.choose("energies", ["one", "two"])
    qs = [a] if q == "one" else [a, b]
    arg = a if q == "one" else env.array(qs)
    out = f.width(arg, couplings=(1, 2, 3), npts=7)
    env.claim("width shape", np.shape(out) == (() if q == "one" else (2,)))
    for v, o in zip(qs, [out] if q == "one" else list(out)):
        env.eq("width", o, v * J(v) / 2 if v > sum(ms) else 0.0)
    mx = env.real("mx", 0, 1e3, lo_s=False)
    mv, g, w = env.real("mv", 1, 1e4), env.real("g", -10, 10), env.real("w", 1e-3, 1e3)
    for v in qs:
        env.assume(v > 2 * mx)
    out = f.cross_section(q=arg, mx=mx, mv=mv, gvxx=g, wv=w, couplings=(1, 2, 3), npts=7)
    env.claim("cross section shape", np.shape(out) == (() if q == "one" else (2,)))
    for v, o in zip(qs, [out] if q == "one" else list(out)):
        s = v * v
        want = g * g * (s + 2 * mx * mx) / (env.np.sqrt(s - 4 * mx * mx) * ((s - mv * mv) ** 2 + (mv * w) ** 2)) * v / 2 * J(v)
        env.eq("cross section", o, want if v > sum(ms) else 0.0)
    env.claim("arguments reach the form factor", all(c == (1, 2, 3) and k == {"npts": 7} for c, k in seen))


def lorentz2(kind):
    """Two-body phase space times the spin sum of the current times the squared form factor."""
    def fn(env):
        from hazma.form_factors.vector import _two_body as T

        R, I = env.uf("re", -10, 10), env.uf("im", -10, 10)
        one = lambda v: R(v) + 1j * I(v)  # noqa: E731

        class F(getattr(T, f"VectorFormFactor{kind}")):
            def form_factor(self, *, q, couplings):
                env.claim("couplings", couplings == (1, 2, 3))
                return env.array([one(x) for x in np.ravel(q)]).reshape(np.shape(q)) if np.ndim(q) else one(q)

            integrated_form_factor = width = cross_section = None

            def J(self, q):
                return self._integrated_form_factor(q=q, couplings=(1, 2, 3))

        F.__abstractmethods__ = frozenset()
        m1 = env.real("m1", 0, 1e3)
        m2 = {"PP": m1, "PA": 0.0, "PV": None}[kind]
        if m2 is None:
            m2 = env.real("m2", 0, 1e3)
        f = F((m1, m2))
        qs = [m1 + m2 + env.real(n, 0, 1e3) for n in "ab"]
        k = env.choose("energies", [1, 2])
        out = f.J(qs[0] if k == 1 else env.array(qs))
        env.claim("shape", np.shape(out) == (() if k == 1 else (2,)))
        for q, o in zip(qs, [out] if k == 1 else list(out)):
            s = q * q
            p1q, p2q = (s + m1 * m1 - m2 * m2) / 2, (s + m2 * m2 - m1 * m1) / 2
            p12 = (s - m1 * m1 - m2 * m2) / 2
            if kind == "PP":       # J = p1 - p2
                cur = -(m1 * m1 + m2 * m2 - 2 * p12)
            else:                  # J = eps(q, e(k), k): twice the squared area of q and k
                cur = 2 * (p2q * p2q - s * m2 * m2)
            want = cur / (3 * s) * env.np.sqrt(kallen(s, m1 * m1, m2 * m2)) / (8 * env.pi * s) * (R(q) ** 2 + I(q) ** 2)
            env.eq("integrated form factor", o, want, atol=1e-12)
            env.claim("unused", p1q is not None)
    return fn


# -- propagators ---------------------------------------------------------------

def beta_of(env, s, m1, m2):
    return env.np.sqrt((1 - (m1 + m2) ** 2 / s) * (1 - (m1 - m2) ** 2 / s))


def helpers(env):
    """Gounaris-Sakurai pieces: momentum, running width, loop function and its derivative at the resonance."""
    from hazma.form_factors.vector import _utils as U

    np_, pi = env.np, env.pi
    m = env.real("m", 0.1, 1)
    mr = 2 * m + env.real("x", 0.01, 3)
    g = env.real("g", 0.01, 1)
    s = env.real("s", 0, 10)
    b2 = U.beta2(s, m, m)
    env.eq("velocity squared", b2, 1 - 4 * m * m / s if s > 4 * m * m else 0.0, atol=1e-12)
    env.eq("velocity", U.beta(s, m, m) ** 2, b2, atol=1e-12)
    v = beta_of(env, mr * mr, m, m)
    L = np_.log((1 + v) / (1 - v))
    env.eq("running width at the resonance", U.gamma_p(mr * mr, mr, g, m, m), g)
    if s > 4 * m * m:
        vs = beta_of(env, s, m, m)
        Ls = np_.log((1 + vs) / (1 - vs))
        gs = np_.sqrt(s) / mr * (vs / v) ** 3 * g
        env.eq("running width", U.gamma_p(s, mr, g, m, m), gs)
        hs = g / (pi * mr) * s * (vs / v) ** 3 * Ls
        env.eq("loop function", U.hhat(s, mr, g, m, m), hs)
        # d/ds s v^3 L with v^2 = 1 - 4 m^2 / s: v' = 2 m^2 / (s^2 v), L' = 2 v' / (1 - v^2)
        s0 = mr * mr
        dv = 2 * m * m / (s0 * s0 * v)
        dh = g / (pi * mr) / v**3 * (v**3 * L + s0 * 3 * v * v * dv * L + s0 * v**3 * 2 * dv / (1 - v * v))
        env.eq("slope at the resonance", U.dhhatds(mr, g, m, m), dh)
        d, hr = env.real("dh", -1, 1), env.real("hres", -1, 1)
        env.eq("subtracted loop function", U.h(s, mr, g, m, m, d, hr), hs - hr - (s - mr * mr) * d)
        h0 = env.real("h0", -1, 1)
        hv, gv = U.h(s, mr, g, m, m, d, hr), U.gamma_p(s, mr, g, m, m)
        ceq(env, "Gounaris-Sakurai", U.breit_wigner_gs(s, mr, g, m, m, h0, d, hr), (mr * mr + h0) / (mr * mr - s + hv - 1j * np_.sqrt(s) * gv))
        ceq(env, "constant width", U.breit_wigner_fw(s, mr, g), mr * mr / (mr * mr - s - 1j * mr * g))
        ceq(env, "p-wave", U.breit_wigner_pwave(s, mr, g, m, m), mr * mr / (mr * mr - s - 1j * np_.sqrt(s) * gv))
    # below threshold the loop starts at -8 m^2/pi
    d, hr = env.real("dh", -1, 1), env.real("hres", -1, 1)
    env.eq("loop function at zero", U.h(0.0, mr, g, m, m, d, hr), -2 * (2 * m) ** 2 / pi * g / mr / v**3 - hr + mr * mr * d)


def tower_arrays(what):
    def fn(env):
        """With one row per energy the propagators are those of each energy and resonance on its own."""
        from hazma.form_factors.vector import _utils as U

        m = env.real("m", 0.1, 1)
        ss = [4 * m * m + env.real(n, 0.01, 3) for n in ("sa", "sb")]
        mr = [2 * m + env.real(n, 0.01, 3) for n in ("xa", "xb")]
        g = [env.real(n, 0.01, 1) for n in ("ga", "gb")]
        d = [env.real(n, -1, 1) for n in ("da", "db")]
        r = [env.real(n, -1, 1) for n in ("ra", "rb")]
        h0 = [env.real(n, -1, 1) for n in ("ha", "hb")]
        A = env.array
        x = A(ss)
        if what == "gs":
            # the loop function and the width per row are cases of their own
            F = {"h": env.uf("h", -3, 3), "w": env.uf("w", 0.01, 3)}

            def per_row(k):
                def p(s, *a, reshape=False):
                    if np.ndim(s) == 0:
                        return F[k](s, *a)
                    a = [[v] * 2 if np.ndim(v) == 0 else list(v) for v in a]
                    return A([F[k](x, *(v[j] for v in a)) for x in s for j in range(2)]).reshape((len(s), 2))
                return p

            env.patch(U, "h", per_row("h"))
            env.patch(U, "gamma_p", per_row("w"))
        f = {"gs": lambda s, i, k: U.breit_wigner_gs(s, i(mr), i(g), m, m, i(h0), i(d), i(r), **k),
             "fw": lambda s, i, k: U.breit_wigner_fw(s, i(mr), i(g), **k),
             "pwave": lambda s, i, k: U.breit_wigner_pwave(s, i(mr), i(g), m, m, **k),
             "width": lambda s, i, k: U.gamma_p(s, i(mr), i(g), m, m, **k),
             "hhat": lambda s, i, k: U.hhat(s, i(mr), i(g), m, m, **k),
             "h": lambda s, i, k: U.h(s, i(mr), i(g), m, m, i(d), i(r), **k)}[what]
        out = f(x, A, {"reshape": True})
        env.claim("shape", np.shape(out) == (2, 2))
        for a in range(2):
            for b in range(2):
                ceq(env, "element", out[a, b] + 0j, f(ss[a], lambda l: l[b], {}) + 0j)
    return fn


def towers(which):
    """Towers of resonances: given ones kept, the rest on a linear trajectory, couplings that sum to one."""
    def fn(env):
        from hazma.form_factors.vector import _k_k
        b = env.real("beta", 1.1, 1.9)
        if which == "gamma":
            G = env.uf("Gamma", 0.1, 10)
            from hazma.form_factors.vector import _utils
            env.patch(_utils, "gamma", G)
            got = list(_utils.gamma_generator(b, 4))
            w = G(2 - b)
            want = [w, w * (2 - b) / 1, w * (2 - b) * (3 - b) / 2, w * (2 - b) * (3 - b) * (4 - b) / 6]
            env.eq("gamma(2 - b + n) / n!", got, want)
            env.claim("length", len(got) == 4)
            return
        n = 4
        m = [env.real(f"m{i}", 0.5, 2) for i in range(2)]
        w = [env.real(f"w{i}", 0.1, 0.5) for i in range(2)]
        c = [env.real(f"c{i}", 0.1, 2) for i in range(3)]
        p = [env.real(f"p{i}", -3, 3) for i in range(3)]
        G = env.uf("Gamma", 0.1, 10)
        env.patch(_k_k, "gamma", G)
        env.patch(_k_k, "_find_beta", lambda c0: b)
        from hazma.form_factors.vector import _utils
        env.patch(_utils, "gamma", G)
        gam = env.choose("slope", ["own", "given"])
        gk = env.real("gam", 0.1, 1)
        out = _k_k._compute_masses_width_couplings(env.array(m), env.array(w), env.array(c), env.array(p), n,
                                                   **({} if gam == "own" else {"gam": gk}))
        M = [m[0], m[1], m[0] * env.np.sqrt(5.0), m[0] * env.np.sqrt(7.0)]
        env.eq("masses", list(out.mass), M)
        ratio = w[0] / m[0] if gam == "own" else gk
        env.eq("widths", list(out.width), [w[0], w[1], M[2] * ratio, M[3] * ratio])
        for i in range(3):
            ceq(env, "given couplings", out.coup[i], c[i] * phase(env, p[i]))
        tot = sum(out.coup[i] for i in range(4))
        ceq(env, "couplings sum to one", tot, 1.0 + 0j, atol=1e-9)
    return fn


# -- two-body form factors ------------------------------------------------------

def energies(env, thr, n):
    """Center-of-mass energies, possibly below threshold, and how they are passed."""
    a, b = env.real("qa", 300, 3000), env.real("qb", 300, 3000)
    qs = [a] if n == 1 else [a, b]
    how = env.choose("energies", ["one", "array"]) if n == 1 else "array"
    return qs, (a if how == "one" else env.array(qs)), how


def compare(env, out, qs, how, thr, want):
    env.claim("shape", np.shape(out) == (() if how == "one" else (len(qs),)))
    for q, o in zip(qs, [out] if how == "one" else list(out)):
        o = o + 0j
        if q > thr:
            env.assume(q > thr * (1 + 1e-9))
            ceq(env, "form factor", o, want(q * 1e-3), atol=1e-9)
        else:
            env.assume(q < thr * (1 - 1e-9))
            ceq(env, "closed", o, 0j, atol=0)


def tower_data(env, n, h=True):
    d = {k: env.array([env.real(f"{k}{i}", lo, hi) for i in range(n)])
         for k, lo, hi in (("masses", 0.4, 3), ("widths", 0.01, 0.5))}
    d["coup"] = env.array([env.real(f"cr{i}", -2, 2) + 1j * env.real(f"ci{i}", -2, 2) for i in range(n)])
    for k in ("h0", "dh", "hres") if h else ():
        d[k] = env.array([env.real(f"{k}{i}", -1, 1) for i in range(n)])
    return d


def pi_pi(mode, n):
    def fn(env):
        from hazma.form_factors.vector import _pi_pi as M, _utils as U

        class Data:
            pass

        d = Data()
        for k, v in tower_data(env, 2).items():
            setattr(d, k, v)
        d.omega_mass, d.omega_width = env.real("om", 0.7, 0.8), env.real("ow", 0.001, 0.1)
        d.omega_weight = env.real("wr", -0.5, 0.5) + 1j * env.real("wi", -0.5, 0.5)
        env.patch(M, "VectorFormFactorPiPiFitData", lambda n: d)
        f = (M.VectorFormFactorPiPi if mode else M.VectorFormFactorPi0Pi0)()
        m = U.MPI_GEV if mode else U.MPI0_GEV
        env.eq("masses", list(f.fsp_masses), [m * 1e3] * 2)
        G = env.uf("gs_re", -10, 10), env.uf("gs_im", -10, 10)

        def gs(s, mass, width, m1, m2, h0, dh, hres, reshape=False):
            env.claim("loop of charged pions", bool(m1 == U.MPI_GEV) and bool(m2 == U.MPI_GEV) and reshape)
            return env.array([G[0](x, mass[i], width[i], h0[i], dh[i], hres[i]) + 1j * G[1](x, mass[i], width[i], h0[i], dh[i], hres[i])
                              for x in s for i in range(2)]).reshape((len(s), 2))

        env.patch(M, "breit_wigner_gs", gs)
        g = couplings(env)
        qs, arg, how = energies(env, 2 * m, n)

        def want(q):
            s = q * q
            t = [d.coup[i] * (G[0](s, d.masses[i], d.widths[i], d.h0[i], d.dh[i], d.hres[i])
                              + 1j * G[1](s, d.masses[i], d.widths[i], d.h0[i], d.dh[i], d.hres[i])) for i in range(2)]
            w = d.omega_weight
            if mode:
                t[0] = t[0] * (1 + w * fw(s, d.omega_mass, d.omega_width)) / (1 + w)
                return (g[0] - g[1]) * (t[0] + t[1])
            return (g[0] - g[1]) * env.np.sqrt(2.0) * (t[0] + t[1])

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, 2 * m * 1e3, want)
    return fn


def k_k(mode, n):
    def fn(env):
        from hazma.form_factors.vector import _k_k as M, _utils as U

        class Data:
            pass

        d = Data()
        for r in ("rho", "omega", "phi"):
            for k, lo, hi in (("mass", 0.4, 3), ("width", 0.01, 0.5)):
                setattr(d, f"{r}_{k}", env.array([env.real(f"{r}_{k}{i}", lo, hi) for i in range(2)]))
            d.__dict__[f"{r}_coup"] = env.array([env.real(f"{r}c{i}", -2, 2) + 1j * env.real(f"{r}d{i}", -2, 2) for i in range(2)])
        for k in ("h0", "dh", "hres"):
            setattr(d, k, env.array([env.real(f"{k}{i}", -1, 1) for i in range(2)]))
        env.patch(M, "VectorFormFactorKKFitData", lambda n_max: d)
        f = (M.VectorFormFactorKK if mode else M.VectorFormFactorK0K0)()
        m = U.MK_GEV if mode else U.MK0_GEV
        env.eq("masses", list(f.fsp_masses), [m * 1e3] * 2)
        B = {k: (env.uf(f"{k}_re", -10, 10), env.uf(f"{k}_im", -10, 10)) for k in ("gs", "fw", "pw")}
        val = lambda k, *a: B[k][0](*a) + 1j * B[k][1](*a)  # noqa: E731

        def prop(k):
            def p(s, mass, width, *rest, reshape=False):
                if k != "fw":
                    want = U.MPI_GEV if k == "gs" else m
                    for x in rest[:2]:
                        env.eq("loop mass", x, want)
                more = rest[2:] if k == "gs" else ()
                return env.array([val(k, x, mass[i], width[i], *(r[i] for r in more)) for x in s for i in range(2)]).reshape((len(s), 2))
            return p

        env.patch(M, "breit_wigner_gs", prop("gs"))
        env.patch(M, "breit_wigner_fw", prop("fw"))
        env.patch(M, "breit_wigner_pwave", prop("pw"))
        g = couplings(env)
        c0, c1, cs = iso(g)
        qs, arg, how = energies(env, 2 * m, n)

        def want(q):
            s = q * q
            tot = 0
            for i in range(2):
                tot = tot + (0.5 if mode else -0.5) * c1 * d.rho_coup[i] * val("gs", s, d.rho_mass[i], d.rho_width[i], d.h0[i], d.dh[i], d.hres[i])
                tot = tot + c0 / 6 * d.omega_coup[i] * val("fw", s, d.omega_mass[i], d.omega_width[i])
                k = 1.055 if (i == 0 and not mode) else 1.0
                tot = tot + k * cs / 3 * d.phi_coup[i] * val("pw", s, d.phi_mass[i], d.phi_width[i])
            return tot

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, 2 * m * 1e3, want)
    return fn


def resonances(env, n, on=None, amps=True):
    """Fit arrays of n resonances, of which those in `on` contribute."""
    on = range(n) if on is None else on
    m = [env.real(f"mr{i}", 0.6, 3) for i in range(n)]
    w = [env.real(f"wr{i}", 0.001, 0.5) for i in range(n)]
    a = [env.real(f"ar{i}", -2, 2) if i in on else 0.0 for i in range(n)]
    p = [env.real(f"pr{i}", -3, 3) for i in range(n)]
    return m, w, a, p


def pwave_width(s, m, w, mu2):
    """w m^2/s ((s - mu^2) / (m^2 - mu^2))^(3/2)"""
    return w * m * m / s * ((s - mu2) / (m * m - mu2)) ** 1.5


def eta_gamma(n, on):
    def fn(env):
        from hazma import parameters as P
        from hazma.form_factors.vector import VectorFormFactorEtaGamma, _utils as U  # noqa: F401
        from hazma.form_factors.vector._utils import MPI_GEV

        m, w, a, p = resonances(env, 5, on)
        f = VectorFormFactorEtaGamma(masses=env.array(m), widths=env.array(w), amps=env.array(a), phases=env.array(p))
        g = couplings(env)
        c0, c1, cs = iso(g)
        c = [c1, c0, cs, c1]
        env.eq("masses", list(f.fsp_masses), [P.eta_mass, 0.0])
        qs, arg, how = energies(env, P.eta_mass, n)

        def want(q):
            s = q * q
            t = 0
            for i in on:
                wi = pwave_width(s, m[0], w[0], 4 * MPI_GEV**2) if i == 0 else w[i]
                t = t + c[i] * a[i] * phase(env, p[i]) * m[i] ** 2 / (m[i] ** 2 - s - 1j * q * wi)
            return t * 1e-3

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, P.eta_mass, want)
    return fn


def pi_gamma(n, on):
    def fn(env):
        from hazma import parameters as P
        from hazma.form_factors.vector import _pi_gamma as M

        A = env.uf("alpha", 0.005, 0.01)
        env.patch(M, "alpha_em", lambda s: env.array([A(x) for x in np.ravel(s)]).reshape(np.shape(s)) if np.ndim(s) else A(s))
        nm = ["rho", "omega", "phi"]
        m, w, a, _ = resonances(env, 3, on)
        fpi, a0 = env.real("fpi", 0.05, 0.2), env.real("a0", 0.001, 0.1)
        kw = {f"{k}_{x}": v[i] for i, x in enumerate(nm) for k, v in (("amplitude", a), ("mass", m), ("width", w))}
        f = M.VectorFormFactorPi0Gamma(fpi=fpi, amplitude0=a0, **kw)
        env.eq("masses", list(f.fsp_masses), [P.neutral_pion_mass, 0.0])
        g = couplings(env)
        c0, c1, cs = iso(g)
        c = [c1, c0, cs]
        qs, arg, how = energies(env, P.neutral_pion_mass, n)

        def want(q):
            s = q * q
            t = 0
            for i in on:
                t = t + a[i] * c[i] / (s - m[i] ** 2 + 1j * q * w[i])
            t = a0 * 4 * env.np.sqrt(2.0) * s / (3 * fpi) * t - (2 * g[0] + g[1]) / (4 * env.pi**2 * fpi)
            return env.np.sqrt(4 * env.pi * A(s)) * t * 1e-3

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, P.neutral_pion_mass, want)
    return fn


def pi_omega(n, on):
    def fn(env):
        from hazma import parameters as P
        from hazma.form_factors.vector import VectorFormFactorPi0Omega, _pi_omega as M

        MPI0_GEV, MOMEGA_GEV = P.neutral_pion_mass * 1e-3, P.omega_mass * 1e-3
        env.patch(M, "MPI0_GEV", MPI0_GEV)
        env.patch(M, "MOMEGA_GEV", MOMEGA_GEV)
        m, w, a, p = resonances(env, 3, on)
        gr, fr = env.real("g", 1, 20), env.real("frho", 1, 10)
        f = VectorFormFactorPi0Omega(g_rho_omega_pi=gr, amps=env.array(a), phases=env.array(p), rho_masses=env.array(m),
                                     rho_widths=env.array(w), frho=fr)
        thr = P.neutral_pion_mass + P.omega_mass
        env.eq("masses", list(f.fsp_masses), [P.neutral_pion_mass, P.omega_mass])
        g = couplings(env)
        qs, arg, how = energies(env, thr, n)

        def want(q):
            s = q * q
            t = 0
            for i in on:
                wi = w[i]
                if i == 0:
                    k = env.np.sqrt(kallen(s, MPI0_GEV**2, MOMEGA_GEV**2)) / (2 * q)
                    wi = pwave_width(s, m[0], w[0], 4 * MPI0_GEV**2) + gr**2 * k**3 / (12 * env.pi)
                t = t + a[i] * phase(env, p[i]) * m[i] ** 2 / (m[i] ** 2 - s - 1j * q * wi)
            return gr * (g[0] - g[1]) / fr * t * 1e-3

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, thr, want)
    return fn


def pi_phi(n, on):
    def fn(env):
        from hazma import parameters as P
        from hazma.form_factors.vector import VectorFormFactorPi0Phi
        from hazma.form_factors.vector._utils import MPI0_GEV

        m, w, a, p = resonances(env, 3, on)
        br = [env.real(f"br{i}", 0, 1, lo_s=False) for i in range(3)]
        f = VectorFormFactorPi0Phi(amps=env.array(a), phases=env.array(p), rho_masses=env.array(m), rho_widths=env.array(w),
                                   br4pi=env.array(br))
        thr = P.neutral_pion_mass + P.phi_mass
        env.eq("masses", list(f.fsp_masses), [P.neutral_pion_mass, P.phi_mass])
        g = couplings(env)
        qs, arg, how = energies(env, thr, n)

        def want(q):
            s = q * q
            t = 0
            for i in on:
                wi = (1 - br[i]) * w[i] + br[i] * pwave_width(s, m[i], w[i], 16 * MPI0_GEV**2)
                t = t + a[i] * phase(env, p[i]) * m[i] ** 2 / (m[i] ** 2 - s - 1j * q * wi)
            return (g[0] - g[1]) * t * 1e-3

        compare(env, f.form_factor(q=arg, couplings=g), qs, how, thr, want)
    return fn


def eta_v(which, n):
    def fn(env):
        from hazma import parameters as P
        from hazma.form_factors import vector as V

        m, w, a, p = resonances(env, 2)
        cls = V.VectorFormFactorEtaOmega if which == "omega" else V.VectorFormFactorEtaPhi
        # the omega's phases are given as unit complex numbers
        ph = [phase(env, x) for x in p] if which == "omega" else p
        f = cls(masses=env.array(m), widths=env.array(w), amps=env.array(a), phases=env.array(ph))
        mv = P.omega_mass if which == "omega" else P.phi_mass
        env.eq("masses", list(f.fsp_masses), [P.eta_mass, mv])
        g = couplings(env)
        c = iso(g)[0 if which == "omega" else 2]
        qs, arg, how = energies(env, P.eta_mass + mv, n)
        compare(env, f.form_factor(q=arg, couplings=g), qs, how, P.eta_mass + mv,
                lambda q: c * sum(a[i] * phase(env, p[i]) * fw(q * q, m[i], w[i]) for i in range(2)) * 1e-3)
    return fn


def alpha(env):
    """Running fine-structure constant: Thomson limit below 1e-6 GeV^2, vacuum polarisation above."""
    from hazma.form_factors.vector import _alpha as M

    s = env.real("s", 1e-9, 1e6)
    a0 = 7.2973525698e-3
    R = env.uf("pi", -20, 20)
    env.patch(M, "real_pi", lambda r: env.array([R(x) for x in np.ravel(r)]).reshape(np.shape(r)))
    had = env.choose("energies", ["one", "array"])
    out = M.alpha_em(s if had == "one" else env.array([s, 1e-7]))
    env.claim("shape", np.shape(out) == (() if had == "one" else (2,)))
    if had == "array":
        env.eq("Thomson limit", out[1], a0)
    o = out if had == "one" else out[0]
    if s < 1e-6:
        env.eq("low scales", o, a0)
        return
    a, b, c = (0.0, 0.00835, 1.0) if s < 9e-2 else (0.0, 0.00238, 3.927) if s < 9 else (0.00165, 0.00299, 1.0) if s < 1e4 else (0.00221, 0.00293, 1.0)
    pol = a + b * env.np.log(1 + c * s) + a0 / (3 * env.pi) * sum(R(m**2 / s) for m in (M.m_e, M.m_mu, M.m_tau, M.m_top))
    env.eq("running", o, a0 / (1 - pol))


def polarisation(env):
    """One-loop vacuum polarisation of a fermion, r = m^2/s."""
    from hazma.form_factors.vector import _alpha as M

    r = env.real("r", 1e-6, 1e7)
    np_ = env.np
    o = M.real_pi(env.array([r]))[0]
    if r < 1e-3:
        env.eq("light", o, -5 / 3 - np_.log(r), atol=1e-9)
    elif r > 1e6:
        env.eq("heavy", o, 0.0)
    elif 4 * r > 1:
        b = np_.sqrt(4 * r - 1)
        env.eq("below threshold", o, 1 / 3 - (1 + 2 * r) * (2 - b * np_.arccos(1 - 1 / (2 * r))), atol=1e-9)
    elif 4 * r < 1:
        b = np_.sqrt(1 - 4 * r)
        env.eq("above threshold", o, 1 / 3 - (1 + 2 * r) * (2 + b * np_.log((1 - b) / (1 + b))), atol=1e-9)


# -- three-body base classes ---------------------------------------------------

def dots(q, s, t, m1, m2, m3):
    """Scalar products of the momenta, s = (p2 + p3)^2, t = (p1 + p3)^2."""
    u = q * q + m1 * m1 + m2 * m2 + m3 * m3 - s - t
    return (u - m1 * m1 - m2 * m2) / 2, (t - m1 * m1 - m3 * m3) / 2, (s - m2 * m2 - m3 * m3) / 2


def gram(q, s, t, m1, m2, m3):
    a, b, c = dots(q, s, t, m1, m2, m3)
    x, y, z = m1 * m1, m2 * m2, m3 * m3
    return x * y * z + 2 * a * b * c - x * c * c - y * b * b - z * a * a


def vstruct(q, s, mv):
    """(2 mv^2 q^2 + (k q)^2) / (3 mv^2 q^4) with k the momentum of the vector and s = (q - k)^2."""
    kq = (q * q + mv * mv - s) / 2
    return (2 * mv * mv * q * q + kq * kq) / (3 * mv * mv * q**4)


def make3(env, kind, masses):
    from hazma.form_factors.vector import _three_body as T

    R, I = env.uf("re", 0.5, 10), env.uf("im", -10, 10)

    class F(getattr(T, f"VectorFormFactor{kind}")):
        def form_factor(self, q, *st, couplings):
            env.claim("couplings", couplings == (1, 2, 3))
            return R(q, *st) + 1j * I(q, *st)

        integrated_form_factor = energy_distributions = invariant_mass_distributions = width = cross_section = None

    F.__abstractmethods__ = frozenset()
    f = F(tuple(masses))
    return T, f, lambda *a: R(*a) ** 2 + I(*a) ** 2


def structure3(kind):
    """Contraction of the current with its conjugate, scalars and arrays."""
    def fn(env):
        ms = [env.real(f"m{i}", 0.1, 1) for i in range(3)]
        T, f, _ = make3(env, kind, ms)
        how = env.choose("arguments", ["scalars", "energies", "momenta", "both"])
        q, s, t = ([env.real(n + k, lo, 10) for k in "ab"] for n, lo in (("q", 1), ("s", 0), ("t", 0)))
        A = env.array
        qi, si = (q if how in ("energies", "both") else q[:1]), (s if how in ("momenta", "both") else s[:1])
        out = f.squared_lorentz_structure(q=A(q) if len(qi) > 1 else q[0], s=A(s) if len(si) > 1 else s[0], t=A(t) if len(si) > 1 else t[0])
        env.claim("shape", np.shape(out) == {"scalars": (), "energies": (2,), "momenta": (2,), "both": (2, 2)}[how])
        got = list(out.ravel()) if how != "scalars" else [out]
        want = [vstruct(x, y, ms[0]) if kind == "PPV" else gram(x, y, z, *ms) / (3 * x * x)
                for x in qi for y, z in zip(si, t)]
        env.eq("structure", got, want, atol=1e-9)
    return fn


def integrated3(kind):
    """Integrated form factor: open only above threshold, integrand and limits of the phase-space integral."""
    def fn(env):
        ms = [env.real(f"m{i}", 0.1, 1) for i in range(3)]
        T, f, mod2 = make3(env, kind, ms)
        n = env.choose("energies", [1, 2])
        q = [env.real(k, 0.5, 20) for k in "ab"][:n]
        val = env.uf("integral", 0.1, 10)
        seen = []
        opts = env.choose("options", [{}, {"epsrel": 1e-5}, {"epsabs": 1e-3}])
        meth = {}
        if kind == "PPP":
            meth = {"method": env.choose("method", ["quad", "rambo"]), "npts": 77}

            class Body:
                def __init__(self, cme, masses, *, msqrd=None):
                    self.a = (cme, masses, msqrd)

                def integrate(self, **k):
                    seen.append((*self.a, k))
                    return val(self.a[0]), 0.0
            env.patch(T, "ThreeBody", Body)
        else:
            def quad(g, lo, hi, **k):
                seen.append((g, lo, hi, k))
                return val(float(len(seen))), 0.0
            env.hook("quad", quad)
        out = f._integrated_form_factor(q=env.array(q) if n == 2 else q[0], couplings=(1, 2, 3), **opts, **meth)
        env.claim("shape", np.shape(out) == (() if n == 1 else (2,)))
        got = [out] if n == 1 else list(out)
        k = 0
        for x, o in zip(q, got):
            if not x > sum(ms):
                env.eq("closed", o, 0.0)
                continue
            if kind == "PPP":
                cme, masses, msq, kw = seen[k]
                env.eq("energy", cme, x)
                env.eq("masses", list(masses), ms)
                s, t = env.real("s", 0.1, 10), env.real("t", 0.1, 10)
                env.eq("squared matrix element", msq(s, t), mod2(x, s, t) * gram(x, s, t, *ms) / (3 * x * x), atol=1e-9)
                env.eq("integrated", o, val(x))
                env.claim("options", kw == {**meth, "epsabs": opts.get("epsabs"), "epsrel": opts.get("epsrel")})
            else:
                g, lo, hi, kw = seen[k]
                env.claim("options", kw == opts)
                env.eq("lower limit", lo, 2 * ms[0] / x)
                env.eq("upper limit", hi, 1 + (ms[0] * ms[0] - (ms[1] + ms[2]) ** 2) / (x * x))
                e = env.real(f"x{k}", 0, 2)
                env.assume(e > lo)
                env.assume(e < hi)
                s = x * x * (1 - e) + ms[0] ** 2
                lam = env.np.sqrt(kallen(s, x * x, ms[0] ** 2) * kallen(s, ms[1] ** 2, ms[2] ** 2))
                if kind == "PPP2":   # sum over t: s/(12 q^2) (t+ - t)(t - t-)
                    want = mod2(x, s) * lam**3 / (72 * x * x * s * s)
                else:
                    want = mod2(x) * vstruct(x, s, ms[0]) * lam / s
                # ds = q^2 dx
                env.eq("integrand", o / val(float(k + 1)) * g(e), want / (128 * env.pi**3 * x * x) * x * x)
                if kind == "PPP2":
                    env.eq("partially integrated", f._partially_integrated_form_factor(x, s, couplings=(1, 2, 3)), want / (128 * env.pi**3 * x * x))
                else:
                    env.eq("partially integrated", f._partially_integrated_form_factor(x, s, couplings=(1, 2, 3)), want / (128 * env.pi**3 * x * x))
            k += 1
        env.claim("one integral per open energy", len(seen) == k)
    return fn


def distributions3(kind):
    """Distributions are those of three bodies with the squared current as matrix element."""
    def fn(env):
        ms = [env.real(f"m{i}", 0.1, 1) for i in range(3)]
        T, f, mod2 = make3(env, kind, ms)
        q = env.real("q", 3, 20)
        which = env.choose("kind", ["energy", "mass"])
        opts = env.choose("options", [{}, {"epsrel": 1e-5}, {"epsabs": 1e-3}])
        meth = {"method": env.choose("method", ["quad", "rambo"]), "npts": 77} if kind == "PPP" else {}
        seen = []

        class Body:
            def __init__(self, cme, masses, *, msqrd=None):
                seen.append((cme, masses, msqrd))

            def energy_distributions(self, **k):
                seen.append(k)
                return "energies"

            def invariant_mass_distributions(self, **k):
                seen.append(k)
                return "masses"

        env.patch(T, "ThreeBody", Body)
        if which == "energy":
            env.claim("result", f._energy_distributions(q=q, nbins=5, couplings=(1, 2, 3), **opts, **meth) == "energies")
        else:
            env.claim("result", f._invariant_mass_distributions(q=q, nbins=5, couplings=(1, 2, 3), **opts, **meth) == "masses")
        (cme, masses, msq), kw = seen
        env.eq("energy", cme, q)
        env.eq("masses", list(masses), ms)
        s, t = env.real("s", 0.1, 10), env.real("t", 0.1, 10)
        env.eq("squared matrix element", msq(s, t), (mod2(q, s, t) if kind == "PPP" else mod2(q, s)) * gram(q, s, t, *ms) / (3 * q * q), atol=1e-9)
        env.claim("options", kw == {"nbins": 5, "method": "quad", **meth, "epsabs": opts.get("epsabs"), "epsrel": opts.get("epsrel")})
    return fn


def dist_ppv(env):
    """Two pseudoscalars and a vector: normalised energy and pair-mass distributions of two bins."""
    ms = [env.real(f"m{i}", 0.1, 1) for i in range(3)]
    T, f, mod2 = make3(env, "PPV", ms)
    q = sum(ms) + env.real("x", 0.1, 10)
    i = env.choose("particle", [0, 1, 2])
    what = env.choose("kind", ["energy", "mass"])
    a, rest = ms[i], [m for j, m in enumerate(ms) if j != i]
    np_ = env.np

    def dens(e):
        M2 = q * q + a * a - 2 * q * e
        lam = kallen(M2, q * q, a * a) * kallen(M2, rest[0] ** 2, rest[1] ** 2)
        if i == 0:
            return vstruct(q, M2, ms[0]) * np_.sqrt(lam) / M2
        b = ms[3 - i]
        mv = ms[0]
        # s = (pa + pb)^2, uniform over its range at a given energy
        mean = a * a + b * b + (q * q - M2 - a * a) * (M2 + b * b - mv * mv) / (2 * M2)
        c = (q * q + mv * mv - mean) / 2
        return (2 * mv * mv * q * q + c * c + lam / (48 * M2 * M2)) / (3 * mv * mv * q**4) * np_.sqrt(lam) / M2

    lo, hi = a, (q * q + a * a - (rest[0] + rest[1]) ** 2) / (2 * q)
    es = [lo + (hi - lo) * k / 4 for k in (1, 3)]
    if what == "energy":
        d = f._energy_distributions(q=q, nbins=2, couplings=(1, 2, 3))[i]
        env.eq("bins", list(d.bins), [lo, (lo + hi) / 2, hi])
        r = [dens(e) for e in es]
    else:
        d = f._invariant_mass_distributions(q=q, nbins=2, couplings=(1, 2, 3))[{0: (1, 2), 1: (0, 2), 2: (0, 1)}[i]]
        edge = [np_.sqrt(q * q + a * a - 2 * q * e) for e in (hi, (lo + hi) / 2, lo)]
        env.eq("bins", list(d.bins), edge)
        r = [dens(e) * (edge[k] + edge[k + 1]) for k, e in enumerate(reversed(es))]
    p = d.probabilities
    env.eq("normalised", p[0] * (d.bins[1] - d.bins[0]) + p[1] * (d.bins[2] - d.bins[1]), 1.0)
    env.eq("shape", p[0] * r[1], p[1] * r[0])


# -- three-body channels ----------------------------------------------------------

def pi_k_k(mode, on):
    def fn(env):
        from hazma.form_factors.vector import _pi_k_k as M, _utils as U

        sm, sw, sa, sp = ([env.real(f"s{k}{i}", lo, hi) for i in range(2)] for k, lo, hi in (("m", 0.6, 3), ("w", 0.001, 0.5), ("a", -2, 2), ("p", -3, 3)))
        vm, vw, va, vp = ([env.real(f"v{k}{i}", lo, hi) for i in range(2)] for k, lo, hi in (("m", 0.6, 3), ("w", 0.001, 0.5), ("a", -2, 2), ("p", -3, 3)))
        sa = [x if ("s", i) == on else 0.0 for i, x in enumerate(sa)]
        va = [x if ("v", i) == on else 0.0 for i, x in enumerate(va)]
        gk = env.real("gk", 1, 10)
        A = env.array
        f = getattr(M, f"VectorFormFactor{mode}")(iso_scalar_masses=A(sm), iso_scalar_widths=A(sw), iso_scalar_amps=A(sa), iso_scalar_phases=A(sp),
                                                  iso_vector_masses=A(vm), iso_vector_widths=A(vw), iso_vector_amps=A(va), iso_vector_phases=A(vp),
                                                  g_ks_k_pi=gk)
        ms = {"Pi0K0K0": (U.MK0_GEV, U.MK0_GEV, U.MPI0_GEV), "Pi0KpKm": (U.MK_GEV, U.MK_GEV, U.MPI0_GEV), "PiKK0": (U.MK0_GEV, U.MK_GEV, U.MPI_GEV)}[mode]
        env.eq("masses", list(f.fsp_masses), [m * 1e3 for m in ms])
        g = couplings(env)
        Q, S, T = env.real("q", 1500, 5000), env.real("s", 0.5e6, 1e7), env.real("t", 0.5e6, 1e7)
        q, s, t = Q * 1e-3, S * 1e-6, T * 1e-6
        kr, ki = env.uf("ks_re", -10, 10), env.uf("ks_im", -10, 10)
        ks, kw = M.KS_MASS_GEV, M.KS_WIDTH_GEV

        near = lambda m: float(min((0, 1, 2, 3), key=lambda i: abs((U.MK_GEV, U.MK0_GEV, U.MPI_GEV, U.MPI0_GEV)[i] - m)))  # noqa: E731

        def pw(x, m, w, m1, m2, **k):
            env.eq("K* mass", m, ks)
            env.eq("K* width", w, kw)
            for a in (m1, m2):
                env.eq("loop mass", a, (U.MK_GEV, U.MK0_GEV, U.MPI_GEV, U.MPI0_GEV)[int(near(a))])
            return kr(x, near(m1), near(m2)) + 1j * ki(x, near(m1), near(m2))

        env.patch(U, "breit_wigner_pwave", pw)
        c0, c1, cs = iso(g)
        out = f.form_factor(Q, S, T, g)
        a0 = cs * sum(sa[i] * phase(env, sp[i]) * fw(q * q, sm[i], sw[i]) for i in range(2))
        a1 = c1 * sum(va[i] * phase(env, vp[i]) * fw(q * q, vm[i], vw[i]) for i in range(2))
        prop = lambda x, a, b: (kr(x, near(a), near(b)) + 1j * ki(x, near(a), near(b))) / ks**2  # noqa: E731
        P, N = a0 + a1, a0 - a1
        ps, pt = prop(s, ms[1], ms[2]), prop(t, ms[0], ms[2])
        want = {"Pi0K0K0": P * (ps + pt), "Pi0KpKm": N * (ps + pt), "PiKK0": N * ps + P * pt}[mode] * 2 * gk / env.np.sqrt(6.0) * 1e-9
        ceq(env, "form factor", out, want, atol=1e-14)
    return fn


def pi_pi_eta(which):
    def fn(env):
        from hazma.form_factors import vector as V
        from hazma.form_factors.vector import _utils as U

        n = 2
        m, w, a, p = resonances(env, n)
        env.assume(a[0] > 0.5)
        env.assume(a[1] > 0)
        env.assume(a[1] < 0.4)
        A = env.array
        cls = V.VectorFormFactorPiPiEta if which == "eta" else V.VectorFormFactorPiPiEtaPrime
        p = [0.0, 0.0] if env.choose("phases", ["none", "one"]) == "none" else [0.0, p[1]]
        f = cls(masses=A(m), widths=A(w), amps=A(a), phases=A(p))
        me = U.META_GEV if which == "eta" else U.METAP_GEV
        env.eq("masses", list(f.fsp_masses), [me * 1e3, U.MPI_GEV * 1e3, U.MPI_GEV * 1e3])
        g = couplings(env)
        Q, S = (me + 2 * U.MPI_GEV) * 1e3 + env.real("x", 10, 5e3), 4e6 * U.MPI_GEV**2 + env.real("y", 0.1, 5e6)
        q, s = Q * 1e-3, S * 1e-6
        out = f.form_factor(Q, S, g)

        def bw(x, i):
            wi = pwave_width(x, m[i], w[i], 4 * U.MPI_GEV**2) if i == 0 else w[i] * x / m[i] ** 2
            return m[i] ** 2 / (m[i] ** 2 - x - 1j * env.np.sqrt(x) * wi)

        ph = [phase(env, x) if x is not 0.0 else 1.0 for x in p]  # noqa: F632
        tot = a[0] * ph[0] + a[1] * ph[1]
        k = 1.0 if which == "eta" else env.np.sqrt(2.0)
        want = k * (g[0] - g[1]) / (4 * env.np.sqrt(3.0) * env.pi**2 * U.FPI_GEV**3) * bw(s, 0)
        ceq(env, "form factor", out * tot, want * (a[0] * ph[0] * bw(q * q, 0) + a[1] * ph[1] * bw(q * q, 1)) * 1e-9, atol=1e-14)
    return fn


def pi_pi_omega(env):
    from hazma.form_factors import vector as V
    from hazma.form_factors.vector import _utils as U

    mode = env.choose("mode", ["charged", "neutral"])
    m, w, a, p = resonances(env, 2)
    A = env.array
    cls = V.VectorFormFactorPiPiOmega if mode == "charged" else V.VectorFormFactorPi0Pi0Omega
    f = cls(masses=A(m), widths=A(w), amps=A(a), phases=A(p))
    mp = U.MPI_GEV if mode == "charged" else U.MPI0_GEV
    env.eq("masses", list(f.fsp_masses), [x * 1e3 for x in (U.MOMEGA_GEV, mp, mp)])
    g = couplings(env)
    Q = env.real("q", 1100, 5000)
    q = Q * 1e-3
    out = f.form_factor(Q, g)
    ceq(env, "form factor", out, 3 * (g[0] + g[1]) * sum(a[i] * phase(env, p[i]) * m[i] ** 2 / (m[i] ** 2 - q * q - 1j * q * w[i]) for i in range(2)),
        atol=1e-12)
    J = env.uf("J", 0, 10)
    env.patch(f, "_integrated_form_factor", lambda *, q, couplings: J(q))
    env.eq("identical pions", f.integrated_form_factor(q, g), J(q) if mode == "charged" else J(q) / 2)


def pi_pi_pi0(which):
    def fn(env):
        from hazma.form_factors import vector as V
        from hazma.form_factors.vector import _utils as U

        A = env.array
        on = which
        m = [env.real(f"m{i}", 0.6, 3) for i in range(4)]
        w = [env.real(f"w{i}", 0.001, 0.5) for i in range(4)]
        c = [env.real(f"c{i}", -20, 20) if on == f"sum{i}" else 0.0 for i in range(4)]
        m0 = [env.real(f"r{i}", 0.6, 3) for i in range(3)]
        w0 = [env.real(f"v{i}", 0.001, 0.5) for i in range(3)]
        c0 = [0.0] + [env.real(f"d{i}", -2, 2) if on == i else 0.0 for i in (1, 2)]
        m1 = [env.real(f"p{i}", 0.6, 3) for i in range(2)]
        w1 = [env.real(f"o{i}", 0.001, 0.5) for i in range(2)]
        mo, wo, po, pp, sg = (env.real(k, lo, hi) for k, lo, hi in (("mo", 0.7, 0.8), ("wo", 0.001, 0.1), ("po", 1, 5), ("pp", 0.1, 1), ("sg", -1, 1)))
        f = V.VectorFormFactorPiPiPi0(masses=A(m), widths=A(w), couplings=A(c), masses_rho_i0=A(m0), widths_rho_i0=A(w0), couplings_rho_i0=A(c0),
                                      masses_rho_i1=A(m1), widths_rho_i1=A(w1), mass_omega_i1=mo, width_omega_i1=wo,
                                      coupling_omega_pre=po if on == "one" else 0.0, coupling_omega_pi_pi=pp, sigma=sg)
        mp, mz = U.MPI_GEV, U.MPI0_GEV
        env.eq("masses", list(f.fsp_masses), [mz * 1e3, mp * 1e3, mp * 1e3])
        g = couplings(env)
        Q = (mz + 2 * mp) * 1e3 + env.real("x", 10, 5e3)
        S = 4e6 * mp**2 + env.real("y", 1e4, 5e6)
        T = 1e6 * (mp + mz) ** 2 + env.real("z", 1e4, 5e6)
        q, s, t = Q * 1e-3, S * 1e-6, T * 1e-6
        u = Q * Q * 1e-6 + mz**2 + 2 * mp**2 - s - t
        env.assume(u > (mp + mz) ** 2)
        out = f.form_factor(Q, S, T, g)

        def rho(x, mr, wr, a, b):
            gam = wr * mr * mr / x * ((x - (a + b) ** 2) / (mr * mr - (a + b) ** 2)) ** 1.5
            return mr * mr / (x - mr * mr + 1j * env.np.sqrt(x) * gam)

        def H(i):
            return rho(s, m0[i], w0[i], mp, mp) + rho(t, m0[i], w0[i], mz, mp) + rho(u, m0[i], w0[i], mz, mp)

        C0, C1, CS = iso(g)
        F = lambda i: fw(q * q, m[i], w[i])  # noqa: E731
        if str(on).startswith("sum"):
            want = (C0 * (c[0] * F(0) + c[2] * F(2) + c[3] * F(3)) + CS * c[1] * F(1)) * H(0)
        elif on == 1:
            want = CS * c0[1] * F(1) * H(1)
        elif on == 2:
            want = C0 * c0[2] * F(3) * H(2)
        else:
            want = C1 * po * pp * m1[0] ** 2 * fw(q * q, mo, wo) / mo**2 * (rho(s, m1[0], w1[0], mp, mp) / m1[0] ** 2
                                                                       + sg * rho(s, m1[1], w1[1], mp, mp) / m1[1] ** 2)
        ceq(env, "form factor", out, want * 1e-9, atol=1e-14)
    return fn


# -- four pions -----------------------------------------------------------------------

def four(env, mode=None):
    from hazma.form_factors import vector as V
    from hazma.form_factors.vector import _pi_pi_pi_pi as M

    R = lambda n, lo, hi, k=3: tuple(env.real(f"{n}{i}", lo, hi) for i in range(k))  # noqa: E731
    d = dict(mass_rho_bars=R("mr", 1, 2), width_rho_bars=R("wr", 0.1, 0.5), beta_a1s=R("ba", 0.1, 0.5), beta_f0s=R("bf", 0.1, 0.5),
             beta_omegas=R("bo", 0.1, 0.5), beta_b_rhos=R("bb", 0.1, 0.5),
             **{f"coupling_{k}": env.real("k" + k, 1, 5) for k in ("f0", "a1", "rho", "omega", "rho_gamma", "rho_pi_pi", "omega_pi_rho")})
    mode = env.choose("mode", ["neutral", "charged"]) if mode is None else mode
    cls = V.VectorFormFactorPiPiPi0Pi0 if mode == "neutral" else V.VectorFormFactorPiPiPiPi
    return M, cls(**d), d, mode


def four_props(env):
    """Propagators of the four-pion currents."""
    M, f, d, _ = four(env, "neutral")
    np_ = env.np
    s = env.real("s", 0.01, 10)
    mp = M.MPI_GEV
    env.eq("charged pion mass", mp * 1e3, 139.57061, rtol=1e-3)
    env.eq("neutral pion mass", M.MPI0_GEV * 1e3, 134.977, rtol=1e-3)
    m, w = env.real("m", 0.5, 3), env.real("w", 0.01, 0.5)
    ceq(env, "Breit-Wigner", f._breit_wigner(s, m, w), fw(s, m, w))

    def bw3(x, m, w):
        if x > 4 * mp**2:
            w = w * np_.sqrt(m * m / x * ((x - 4 * mp**2) / (m * m - 4 * mp**2)) ** 3)
        else:
            w = 0.0
        return m * m / (m * m - x - 1j * m * w)

    ceq(env, "p-wave", f._breit_wigner3(s, m, w), bw3(s, m, w))
    r0, r1, r2 = (M.MRHO_GEV, M.GRHO_GEV), (M.M_RHO1, M.G_RHO1), (M.M_RHO2, M.G_RHO2)
    B = env.uf("b_re", -10, 10), env.uf("b_im", -10, 10)
    env.patch(M._VectorFormFactorPiPiPiPiBase, "_breit_wigner3", staticmethod(lambda s, mass, width: B[0](s, mass, width) + 1j * B[1](s, mass, width)))
    b = lambda x, r: B[0](x, *r) + 1j * B[1](x, *r)  # noqa: E731
    ceq(env, "rho pair", f._propagator_rho_double(s), b(s, r0) / r0[0] ** 2 - b(s, r1) / r1[0] ** 2)
    x1, x2, x3 = d["beta_b_rhos"]
    ceq(env, "rho B", f._propagator_rho_b(s), (b(s, r0) + x1 * b(s, r1)) / (1 + x1))
    ceq(env, "rho T", f._propagator_rho_t(s), (b(s, r0) + x2 * b(s, r1) + x3 * b(s, r2)) / (1 + x2 + x3))
    bs = d["beta_a1s"]
    bars = list(zip(d["mass_rho_bars"], d["width_rho_bars"]))
    ceq(env, "rho F", f._propagator_rho_f(s, *bs), (b(s, r0) + sum(x * b(s, r) for x, r in zip(bs, bars))) / (1 + sum(bs)))
    s2, s3 = env.real("s2", 0.01, 10), env.real("s3", 0.01, 10)
    ceq(env, "rho H", f._propagator_rho_h(s, s2, s3), b(s, r0) + b(s2, r0) + b(s3, r0))
    mf = M.M_F0
    wf = np_.sqrt(mf**2 / s * (s - 4 * mp**2) / (mf**2 - 4 * mp**2)) if s > 4 * mp**2 else 0.0
    ceq(env, "f0", f._propagator_f0(s), fw(s, mf, M.G_F0 * wf))
    ceq(env, "omega", f._propagator_omega(s), fw(s, M.M_OMEGA, M.G_OMEGA))

    def ga(x):
        y = x - 9 * mp**2
        if x > 0.838968432668:
            return 1.623 * x + 10.38 - 9.32 / x + 0.65 / x**2
        return 4.1 * y**3 * (1 - 3.3 * y + 5.8 * y * y)

    ceq(env, "a1", f._propagator_a1(s), fw(s, M.M_A1, M.G_A1 * ga(s) / ga(M.M_A1**2)))


def momenta4(env, free=(0, 1, 2, 3)):
    """Four four-momenta; those of the free particles are arbitrary, the others fixed and generic."""
    fix = [[1.5, 0.25, -0.125, 0.5], [2.0, -0.5, 0.375, 0.125], [1.25, 0.125, 0.5, -0.25], [1.75, 0.375, -0.25, -0.5]]
    ps = []
    for i in range(4):
        if i in free:
            ps.append([env.real(f"e{i}", 1 + i, 1.9 + i)] + [env.real(f"{k}{i}", -0.5, 0.5) for k in "xyz"])
        else:
            ps.append(fix[i])
    return ps


def stub_props(env, M, f):
    """Every propagator becomes an arbitrary complex function."""
    def mk(name, k):
        R, I = env.uf(name + "_re", -10, 10), env.uf(name + "_im", -10, 10)

        def g(*a):
            a = [x for x in a if x is not f]
            flat = [np.ravel(x)[0] if isinstance(x, np.ndarray) else x for x in a]
            v = R(*flat) + 1j * I(*flat)
            return env.array([v]) if isinstance(a[0], np.ndarray) else v
        return g

    P = {}
    for n, k in (("rho_f", 4), ("a1", 1), ("rho_b", 1), ("rho_t", 1), ("f0", 1), ("omega", 1), ("rho_h", 3), ("rho_double", 1)):
        P[n] = mk(n, k)
        env.patch(M._VectorFormFactorPiPiPiPiBase, f"_propagator_{n}", staticmethod(P[n]))
    return P


def vec(a, b=None, k=1):
    return [x + k * y for x, y in zip(a, b)] if b is not None else a


def mdot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def scale(v, k):
    return [k * x for x in v]


def four_current(part, free=(0, 1, 2, 3)):
    """Each piece of the current of two charged and two neutral pions (arXiv:0804.0359, appendix A)."""
    def fn(env):
        M, f, d, _ = four(env, "neutral")
        P = stub_props(env, M, f)
        n1, n2, c1, c2 = momenta4(env, free)
        Q = [sum(x) for x in zip(n1, n2, c1, c2)]
        Q2 = mdot(Q, Q)
        env.assume(Q2 > 1)  # always so: energies add up to at least 10, momenta to at most 2
        for a in (n1, n2, c1, c2) if part in ("a1", "omega") else ():
            A = vec(Q, a, -1)
            env.assume(mdot(A, A) > 1)
        col = lambda v: env.array(v).reshape((4, 1))  # noqa: E731
        out = getattr(f, f"_current_{part}")(col(Q), env.array([Q2]), col(n1), col(n2), col(c1), col(c2))
        sq = lambda *v: mdot([sum(x) for x in zip(*v)], [sum(x) for x in zip(*v)])  # noqa: E731
        trans = lambda v: vec(v, Q, -mdot(Q, v) / Q2)  # noqa: E731
        tot = [0, 0, 0, 0]

        def add(k, v):
            for j in range(4):
                tot[j] = tot[j] + k * v[j]

        if part == "f0":
            k = d["coupling_f0"] * P["rho_f"](Q2, *d["beta_f0s"]) * P["rho_t"](sq(c1, c2)) * P["f0"](sq(n1, n2))
            add(k, trans(vec(c1, c2, -1)))
        elif part == "a1":
            for sign, a, b, c, e in ((1, c1, n2, n1, c2), (1, c1, n1, n2, c2), (-1, c2, n2, n1, c1), (-1, c2, n1, n2, c1)):
                A = vec(Q, a, -1)
                k = d["coupling_a1"] * P["rho_f"](Q2, *d["beta_a1s"]) * P["a1"](mdot(A, A)) * P["rho_b"](sq(c, e))
                v = vec(vec(c, e, -1), a, mdot(b, vec(c, e, -1)) / mdot(A, A))
                add(sign * k, trans(v))
        elif part == "omega":
            for a, b in ((n1, n2), (n2, n1)):
                A = vec(Q, a, -1)
                k = 2 * d["coupling_omega"] * d["coupling_omega_pi_rho"] * d["coupling_rho_pi_pi"] * P["rho_f"](Q2, *d["beta_omegas"]) \
                    * P["omega"](mdot(A, A)) * P["rho_h"](sq(b, c1), sq(b, c2), sq(c1, c2))
                D = lambda x, y: mdot(x, y)  # noqa: E731
                v = scale(b, D(a, c2) * D(c1, Q) - D(a, c1) * D(c2, Q))
                v = vec(v, scale(c1, D(a, b) * D(c2, Q) - D(a, c2) * D(b, Q)))
                v = vec(v, scale(c2, D(a, c1) * D(b, Q) - D(a, b) * D(c1, Q)))
                add(k, v)
                env.eq("conserved", D(v, Q), 0.0, atol=1e-8)
        else:
            k = d["coupling_rho"] * d["coupling_rho_pi_pi"] ** 3 * d["coupling_rho_gamma"] * P["rho_double"](Q2)
            re, im = [0] * 4, [0] * 4
            for sign, a, b, c, e in ((1, n1, n2, c1, c2), (1, c2, n1, n2, c1), (-1, n1, n2, c2, c1), (-1, c1, n1, n2, c2),
                                     (1, n2, n1, c1, c2), (1, c2, n2, n1, c1), (-1, n2, n1, c2, c1), (-1, c1, n2, n1, c2)):
                x, y = P["rho_double"](sq(a, c)), P["rho_double"](sq(b, e))
                z = sign * x * (y * mdot(vec(vec(vec(a, b), c, 3), e), vec(b, e, -1)) + 2)
                re = [u + z.real * v for u, v in zip(re, a)]
                im = [u + z.imag * v for u, v in zip(im, a)]
            re, im = trans(re), trans(im)
            tot = [k * (u + 1j * v) for u, v in zip(re, im)]
        for j in range(4):
            ceq(env, f"component {j}", out[j, 0] + 0j, tot[j] + 0j, atol=1e-9)
    return fn


def four_sum(env):
    """Pieces add up; the squared current uses the right pions, has the symmetry factor and the flux."""
    M, f, d, mode = four(env)
    n = {}
    ps = momenta4(env)

    def label(v):
        e = v[0, 0] if np.ndim(v) == 2 else v[0]
        return sum(bool(e > k + 0.95) for k in (1, 2, 3))  # the energies lie in ranges of their own

    amp = [(env.real(f"jr{k}", -3, 3), env.real(f"ji{k}", -3, 3)) for k in range(4)]
    calls = []

    def neutral(Q, Q2, q1, q2, q3, q4):
        calls.append(tuple(label(x) for x in (q1, q2, q3, q4)))
        for j in range(4):
            env.eq("total momentum", Q[j, 0], sum(p[j] for p in ps))
        env.eq("energy squared", np.ravel(Q2)[0], mdot([sum(x) for x in zip(*ps)], [sum(x) for x in zip(*ps)]))
        k = (len(calls) - 1) % 4
        return env.array([amp[k][0] * (j + 1) + 1j * amp[k][1] * (3 - j) for j in range(4)]).reshape((4, 1))

    env.patch(f, "_current_neutral", neutral)
    mom = env.array([ps[i][j] for j in range(4) for i in range(4)]).reshape((4, 4, 1))
    gu, gd = env.real("gu", -5, 5), env.real("gd", -5, 5)
    out = f._msqrd(mom, gu, gd)
    env.claim("shape", np.shape(out) == (1,))
    if mode == "neutral":
        # neutral pions are the last two of the final state
        env.claim("pions", calls == [(2, 3, 0, 1)])
    else:
        want = [(2, 3, 0, 1), (0, 3, 2, 1), (2, 1, 0, 3), (0, 1, 2, 3)]
        env.claim("pions", sorted(calls) == sorted(want))
    k = len(calls)
    J = [sum(amp[i][0] for i in range(k)) * (j + 1) for j in range(4)], [sum(amp[i][1] for i in range(k)) * (3 - j) for j in range(4)]
    Q = [sum(x) for x in zip(*ps)]
    sq = -(mdot(J[0], J[0]) + mdot(J[1], J[1]))
    env.eq("squared matrix element", out[0], (gu - gd) ** 2 / (2 if mode == "neutral" else 4) * sq / (3 * mdot(Q, Q)), atol=1e-9)
    calls.clear()
    ff = f.form_factor(mom * 1e3)
    for j in range(4):
        ceq(env, "current", ff[j, 0], J[0][j] + 1j * J[1][j], atol=1e-9)
    n.clear()


def four_total(env):
    """The current of two charged and two neutral pions is the sum of its four pieces."""
    M, f, d, _ = four(env, "neutral")
    amp = {p: (env.real(f"{p}r", -3, 3), env.real(f"{p}i", -3, 3)) for p in ("a1", "f0", "omega", "rho")}
    args = [env.array([float(i + k) for i in range(4)]).reshape((4, 1)) for k in range(6)]
    for p in amp:
        def cur(*a, p=p):
            env.claim("arguments", len(a) == 6 and all(x is y for x, y in zip(a, args)))
            return env.array([(amp[p][0] + 1j * amp[p][1]) * (j + 1) for j in range(4)]).reshape((4, 1))
        env.patch(f, f"_current_{p}", cur)
    out = f._current_neutral(*args)
    for j in range(4):
        ceq(env, "sum", out[j, 0], sum((a + 1j * b) for a, b in amp.values()) * (j + 1), atol=1e-9)


def four_integral(env):
    """Integrated four-pion form factor, width, cross section and distributions."""
    M, f, d, mode = four(env)
    seen = []
    V = env.uf("w", 0.1, 10)
    msq = env.uf("m2", 0.1, 10)

    class Box:
        def __init__(self, cme, masses, msqrd=None):
            self.cme, self.m = cme, msqrd
            seen.append((cme, masses))

        def generate(self, n):
            seen.append(n)
            return env.array([0.0] * 32).reshape((4, 4, 2)), env.array([V(self.cme, 0.0), V(self.cme, 1.0)])

        def energy_distributions(self, n, nbins):
            return [Dist(self, n, nbins, i) for i in range(4)]

        def invariant_mass_distributions(self, n, nbins):
            return {(0, 1): Dist(self, n, nbins, 0), (2, 3): Dist(self, n, nbins, 1)}

    class Dist:
        def __init__(self, box, n, nbins, i):
            env.claim("points and bins", n == 7 and nbins == 2)
            env.eq("matrix element", box.m("momenta")[0], msq(0.0))
            self.bins = env.array([1.0 + i, 2.0, 3.0])
            self.probabilities = env.array([0.25 / (1 - i if i != 1 else 1), 0.5])

    env.patch(M, "Rambo", Box)
    gu, gd, gs = couplings(env)

    def m2(momenta, gvuu, gvdd):
        env.eq("couplings", [gvuu, gvdd], [gu, gd])
        return env.array([msq(0.0), msq(1.0)])

    env.patch(f, "_msqrd", m2)
    mp, mz = M.MPI_GEV, M.MPI0_GEV
    ms = [mp, mp, mz, mz] if mode == "neutral" else [mp] * 4
    env.eq("masses", list(f.fsp_masses), [x * 1e3 for x in ms])
    q = env.real("q", 200, 5000)
    Jr = (V(q * 1e-3, 0.0) * msq(0.0) + V(q * 1e-3, 1.0) * msq(1.0)) / 2
    J = 0.0 if q * 1e-3 < sum(ms) else Jr
    what = env.choose("what", ["integrated", "array", "width", "cross section", "energies", "masses"])
    if what == "integrated":
        env.eq("integrated", f.integrated_form_factor(q, (gu, gd, gs), npts=7), J)
    elif what == "array":
        out = f.integrated_form_factor(env.array([q, 100.0]), (gu, gd, gs), npts=7)
        env.eq("integrated", list(out), [J, 0.0])
    elif what == "width":
        env.eq("width", f.width(q, (gu, gd, gs), npts=7), q * J / 2)
    elif what == "cross section":
        mx, mv, g, w = env.real("mx", 0, 90), env.real("mv", 1, 1e4), env.real("g", -10, 10), env.real("w", 1e-3, 1e3)
        s = q * q
        want = g * g * (s + 2 * mx * mx) / (env.np.sqrt(s - 4 * mx * mx) * ((s - mv * mv) ** 2 + (mv * w) ** 2)) * q / 2 * J
        env.eq("cross section", f.cross_section(q, mx, mv, g, w, (gu, gd, gs), npts=7), want)
    elif what == "energies":
        out = f.energy_distributions(q, 2, (gu, gd, gs), npts=7)
        env.eq("bins", list(out[0].bins), [1e3, 2e3, 3e3])
        env.eq("probabilities", list(out[0].probabilities), [0.25e-3 / 0.75, 0.5e-3 / 0.75])
        env.claim("particles", len(out) == 4)
    else:
        out = f.invariant_mass_distributions(q, 2, (gu, gd, gs), npts=7)
        env.eq("bins", list(out[(0, 1)].bins), [1e3, 2e3, 3e3])
        env.claim("pairs", sorted(out) == [(0, 1), (2, 3)])
    for x in seen:
        if isinstance(x, tuple):
            if not (what == "array" and not env.sym and float(x[0]) < 0.2):
                env.eq("masses of the phase space", list(x[1]), ms)
        else:
            env.claim("points", x == 7)


def cases(tier):
    C = lambda name, fn, **k: Case(name, fn, **{"sym_consts": True, **k})  # noqa: E731
    out = [C("base", base), C("helpers", helpers), *[C(f"rows {k}", tower_arrays(k)) for k in ("gs", "fw", "pwave", "width", "hhat", "h")], C("gamma", towers("gamma")), C("towers", towers("k")),
           C("alpha", alpha, sym_consts=False), C("polarisation", polarisation, sym_consts=False)]
    out += [C(f"lorentz {k}", lorentz2(k)) for k in ("PP", "PA", "PV")]
    for n in (1, 2):
        out += [C(f"pi pi {n}", pi_pi(1, n)), C(f"pi0 pi0 {n}", pi_pi(0, n)), C(f"k k {n}", k_k(1, n)), C(f"k0 k0 {n}", k_k(0, n)),
                C(f"eta omega {n}", eta_v("omega", n)), C(f"eta phi {n}", eta_v("phi", n))]
        prs = [(0, 1), (2, 3)] if n == 1 else [(0,), (2,)]
        out += [C(f"eta gamma {n} {on}", eta_gamma(n, on)) for on in prs]
        prs = [(0, 1), (1, 2)] if n == 1 else [(0,), (2,)]
        out += [C(f"{nm} {n} {on}", f(n, on)) for on in prs for nm, f in (("pi0 gamma", pi_gamma), ("pi0 phi", pi_phi))]
        out += [C(f"pi0 omega {n} {on}", pi_omega(n, on)) for on in prs]
    out += [C(f"structure {k}", structure3(k)) for k in ("PPP", "PPP2", "PPV")]
    out += [C(f"integrated {k}", integrated3(k)) for k in ("PPP", "PPP2", "PPV")]
    out += [C(f"distributions {k}", distributions3(k)) for k in ("PPP", "PPP2")]
    out += [C("distributions PPV", dist_ppv), C("pi pi omega", pi_pi_omega)]
    out += [C(f"pi pi {k}", pi_pi_eta(k)) for k in ("eta", "etap")]
    out += [C(f"pi k k {m} {o}", pi_k_k(m, o), sym_consts=False) for m in ("Pi0K0K0", "Pi0KpKm", "PiKK0") for o in (("s", 0), ("s", 1), ("v", 0), ("v", 1))]
    out += [C(f"pi pi pi0 {k}", pi_pi_pi0(k)) for k in ("sum0", "sum1", "sum2", "sum3", 1, 2, "one")]
    out += [C("four propagators", four_props)] + [C(f"four {k}", four_current(k)) for k in ("f0", "omega")]
    out += [C(f"four {k} {i}", four_current(k, (i,))) for k in ("a1", "rho") for i in range(4)]
    out += [C("four pions", four_sum), C("four total", four_total), C("four integral", four_integral)]
    return out
