"""Limits from the cosmic microwave background."""
import numpy as np

from vf.harness import Case

PROPERTY = "P04"
BOUNDS = ("any dark matter mass from 0.1 MeV, any spectra, branching fractions, up to 2 lines of any energy, any decoupling temperature "
          "and any allowed power")
ASSUMPTIONS = ["real arithmetic", "scipy's quad is the exact integral", "the efficiency tables are arbitrary functions above their first energy"]
FUNCTIONS = ["hazma.theory._theory_cmb.TheoryCMB.*", "hazma.limits.CMBLimit.*", "hazma.cmb.vx_cmb"]


def tables(env):
    """The tabulated efficiencies become arbitrary functions of the energy."""
    from scipy.interpolate import interp1d

    from hazma import cmb

    F = {"g": env.uf("F_g", 0.01, 1), "e": env.uf("F_e", 0.01, 1)}
    ref = {"g": cmb.f_eff_g, "e": cmb.f_eff_ep}
    real = interp1d.__call__

    def value(self, x):
        for k, t in ref.items():
            if self is t or (np.shape(self.y) == np.shape(t.y) and np.array_equal(self.y, t.y)):
                return env.array([F[k](v) for v in np.ravel(x)]).reshape(np.shape(x)) if np.ndim(x) else F[k](x)
        return real(self, x)

    env.patch(interp1d, "__call__", value)
    return F, {k: float(t.x[0]) for k, t in ref.items()}


def theory(env, glines, plines):
    from hazma import theory as T

    w = {"a": env.real("wa", 0.1, 1), "b": env.real("wb", 0.1, 1)}
    chans = sorted({"a", "b", *glines, *plines})
    for c in chans:
        w.setdefault(c, env.real(f"w{c}", 0.1, 1))
    f = {(p, fs): env.uf(f"{p}_{fs}", 0, 10) for p in "gp" for fs in "ab"}

    def cont(p):
        out = {fs: (lambda es, q: es * 0.0) for fs in chans}
        return out | {fs: (lambda es, q, fs=fs: env.array([f[p, fs](e, q) for e in es]) if np.ndim(es) else f[p, fs](es, q)) for fs in "ab"}

    class M(T.TheoryAnn):
        def annihilation_cross_section_funcs(self):
            return {k: (lambda e, k=k: w[k]) for k in w}

        def _spectrum_funcs(self):
            return cont("g")

        def _positron_spectrum_funcs(self):
            return cont("p")

        def _gamma_ray_line_energies(self, e):
            return {k: v * e for k, v in glines.items()}

        def _positron_line_energies(self, e):
            return {k: v * e for k, v in plines.items()}

    for n in list(getattr(M, "__abstractmethods__", ())):
        setattr(M, n, None)
    m = M()
    m.w = w
    m.mx = env.real("mx", 0.1, 1e4)
    tot = sum(w.values())
    bf = {k: v / tot for k, v in w.items()}
    return m, bf, f


def efficiency(lines):
    def fn(env):
        """Energy injected into photons and into electrons and positrons, weighted by the efficiencies."""
        from hazma import limits
        from hazma.cmb import p_ann_planck_temp_pol, vx_cmb

        F, emin = tables(env)
        which, xs = lines
        gl = {n: env.real(f"xg_{i}", 0, 0.5) for i, n in enumerate(xs)} if which == "photon" else {}
        pl = {n: env.real(f"xp_{i}", 0, 0.5) for i, n in enumerate(xs)} if which == "positron" else {}
        m, bf, f = theory(env, gl, pl)
        way = env.choose("way", ["theory", "limit"])
        if env.choose("history", ["construct", "change"]) == "change":
            # what was asked for another mass and other rates does not matter
            L0 = limits.CMBLimit()
            now, mx = dict(m.w), m.mx
            m.w.update({k: 0.5 + i for i, k in enumerate(m.w)})
            m.mx = 150.0
            m.f_eff_g(), m.f_eff_ep(), m.f_eff(), m.cmb_limit(), L0.f_eff_g(m), L0.f_eff_ep(m), L0.f_eff(m), L0.constrain([m])
            m.w.update(now)
            m.mx = mx
        dflt = env.choose("arguments", ["default", "given"])
        xkd, pann = (env.real("xkd", 1e-6, 1e-2), env.real("pann", 1e-3, 10)) if dflt == "given" else (1e-4, p_ann_planck_temp_pol)
        v = vx_cmb(m.mx, xkd)
        q = 2 * m.mx * (1 + v * v / 2)
        if way == "theory":
            a = (xkd,) if dflt == "given" else ()
            fg, fe, ft = m.f_eff_g(*a), m.f_eff_ep(*a), m.f_eff(*a)
            lim = m.cmb_limit(**(dict(x_kd=xkd, p_ann=pann) if dflt == "given" else {}))
        else:
            L = limits.CMBLimit(**(dict(x_kd=xkd, p_ann=pann) if dflt == "given" else {}))
            env.eq("settings", [L.x_kd, L.p_ann], [xkd, pann])
            env.eq("same velocity", L.vx_cmb(m.mx, xkd), v)
            fg, fe, ft = L.f_eff_g(m), L.f_eff_ep(m), L.f_eff(m)
            lim = L.constrain([m])[0]

        def inject(p, k, mult, ls, own):
            def integrand(e):
                return e * mult * sum(bf[c] * f[p, c](e, q) for c in "ab") * F[k](e)
            tot = env.quad(integrand, emin[k], q / 2) / q
            for n, x in ls.items():
                if x * q > emin[k]:
                    tot = tot + x * q * bf[n] * F[k](x * q) * (2 if n == own else 1) / q
            return tot

        rg, re = inject("g", "g", 1.0, gl, "g g"), inject("p", "e", 2.0, pl, "e e")
        env.eq("photons", np.ravel(fg)[0] if np.ndim(fg) else fg, rg, rtol=1e-3)
        env.eq("electrons and positrons", np.ravel(fe)[0] if np.ndim(fe) else fe, re, rtol=1e-3)
        env.eq("sum", np.ravel(ft)[0] if np.ndim(ft) else ft, rg + re, rtol=1e-3)
        env.eq("limit", (np.ravel(lim)[0] if np.ndim(lim) else lim) * (rg + re), pann * m.mx, rtol=1e-3)
    return fn


def velocity(env):
    """Slower for heavier and for later decoupled dark matter."""
    from hazma.cmb import vx_cmb

    m, r = env.real("mx", 0.1, 1e4), env.real("r", 1, 10)
    x = env.real("xkd", 1e-6, 1e-2)
    v = vx_cmb(m, x)
    env.gt("positive", v, 0.0)
    env.eq("inverse mass", vx_cmb(m * r, x) * r, v)
    env.eq("inverse root of the decoupling temperature", vx_cmb(m, x * r * r) * r, v)


def models(env):
    """One entry per model, in order."""
    from hazma import limits

    n = env.choose("models", [1, 2, 3])
    f = env.uf("f_eff", 0.01, 1)
    L = limits.CMBLimit()

    class M:
        def __init__(self, i):
            self.mx = env.real(f"m{i}", 0.1, 100)

    ms = [M(i) for i in range(n)]
    env.patch(limits.CMBLimit, "f_eff", lambda self, model: f(model.mx))
    out = L.constrain(ms)
    env.claim("shape", np.shape(out) == (n,))
    env.eq("each model", list(out), [L.p_ann * m.mx / f(m.mx) for m in ms], atol=1e-40)


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("velocity", velocity, **kw), Case("models", models, **kw)]
    for which, xs in (("photon", []), ("photon", ["g g"]), ("photon", ["pi0 g"]), ("photon", ["a", "g g"]),
                      ("positron", ["e e"]), ("positron", ["k e"]), ("positron", ["b", "e e"])):
        out.append(Case(f"efficiency {which} lines: {', '.join(xs) or 'none'}", efficiency((which, xs)), **kw))
    return out
