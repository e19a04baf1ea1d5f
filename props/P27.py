"""GeV-scale vector mediator: photon, positron and neutrino spectra of every final state."""
import sys

from vf.harness import Case
from props.P23 import FF, STATES, cls, M

PROPERTY = "P27"
BOUNDS = ("any masses and couplings, any centre-of-mass energy, one energy or a list of two; two bins per "
          "distribution; decay spectra and splitting functions are arbitrary in the energy of the product and "
          "quadratic in that of the parent")
ASSUMPTIONS = ["real arithmetic", "decay spectra, splitting functions and boosts are arbitrary in the energy of the product and "
               "polynomials of their other arguments",
               "distributions of the form factors are arbitrary functions of energy, couplings and binning"]
FUNCTIONS = ["hazma.vector_mediator._gev.spectra.*", "hazma.vector_mediator._gev.positron.*",
             "hazma.vector_mediator._gev.neutrino.*", "hazma.vector_mediator._gev.model.VectorMediatorGeV.*neutrino*"]

KERNEL = {"mu": "muon", "pi": "charged_pion", "pi0": "neutral_pion", "k": "charged_kaon", "kl": "long_kaon",
          "ks": "short_kaon", "eta": "eta", "etap": "eta_prime", "omega": "omega", "phi": "phi"}
NONE = {"photon": ["e", "gamma"], "positron": ["e", "gamma", "pi0"], "neutrino": ["e", "gamma", "pi0"]}
# products in the order of the form factor
BODIES = {"e e": ["e", "e"], "mu mu": ["mu", "mu"], "pi pi": ["pi", "pi"], "k k": ["k", "k"], "k0 k0": ["kl", "ks"],
          "pi0 gamma": ["pi0", "gamma"], "eta gamma": ["eta", "gamma"], "pi0 phi": ["pi0", "phi"],
          "eta phi": ["eta", "phi"], "eta omega": ["eta", "omega"], "pi pi pi0": ["pi0", "pi", "pi"],
          "pi pi eta": ["eta", "pi", "pi"], "pi pi etap": ["etap", "pi", "pi"], "pi pi omega": ["omega", "pi", "pi"],
          "pi0 pi0 omega": ["omega", "pi0", "pi0"], "pi0 k0 k0": ["kl", "ks", "pi0"], "pi0 k k": ["k", "k", "pi0"],
          "pi k k0": ["k0", "k", "pi"], "pi pi pi pi": ["pi"] * 4, "pi pi pi0 pi0": ["pi", "pi", "pi0", "pi0"],
          "pi0 pi0 gamma": ["pi0", "omega"]}
PAIRS = {"pi pi pi0": [((1, 2), 1.0)], "pi pi pi0 pi0": [((0, 1), 1.0)],
         "pi pi pi pi": [((0, 1), 0.5), ((1, 2), 0.5), ((2, 3), 0.5), ((0, 3), 0.5)]}
FLAVORS = ["e", "mu", "tau"]
WIDE = ["e e", "mu mu", "pi pi", "pi0 gamma", "eta gamma", "pi pi pi0", "pi0 pi0 gamma", "pi pi pi0 pi0"]


def masses():
    from hazma import parameters as P
    return {"e": P.electron_mass, "mu": P.muon_mass, "pi": P.charged_pion_mass, "pi0": P.neutral_pion_mass,
            "k": P.charged_kaon_mass, "k0": P.neutral_kaon_mass, "kl": P.neutral_kaon_mass, "ks": P.neutral_kaon_mass,
            "eta": P.eta_mass, "etap": P.eta_prime_mass, "omega": P.omega_mass, "phi": P.phi_mass, "gamma": 0.0}


def threshold(fs):
    m = masses()
    return sum(m[p] for p in BODIES[fs])


def everywhere(env, real, new):
    """Replace a function wherever the package has imported it."""
    for name, mod in list(sys.modules.items()):
        if name.startswith("hazma") and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is real:
                    env.patch(mod, k, new)


class World:
    """Arbitrary decay spectra, splitting functions, boosts and distributions."""

    def __init__(self, env, product):
        import hazma.spectra as sp
        from hazma.spectra import altarelli_parisi as ap, boost
        from hazma.phase_space import PhaseSpaceDistribution1D as PD

        self.env, self.product, self.PD = env, product, PD
        for k, nm in KERNEL.items():
            real = getattr(sp, f"dnde_{product}_{nm}", None)
            if real is None or k in NONE[product]:
                continue
            if product == "neutrino":
                everywhere(env, real, lambda x, parent, flavor=None, k=k: self.decay(k, x, parent, flavor))
            else:
                everywhere(env, real, lambda x, parent, k=k: self.decay(k, x, parent))
        for kind in ("fermion", "scalar"):
            everywhere(env, getattr(ap, f"dnde_photon_ap_{kind}"),
                       lambda e, s, mass, charge=1.0, kind=kind: self.fsr(kind, e, s, mass, charge))
        everywhere(env, boost.boost_delta_function,
                   lambda product_energy, e0, m, beta: self.delta(product_energy, e0, m, beta))
        everywhere(env, boost.double_boost_delta_function,
                   lambda product_energy, e0, m, beta1, beta2: self.delta2(product_energy, e0, m, beta1, beta2))
        everywhere(env, boost.dnde_boost_array,
                   lambda dnde, energies, beta, mass=0.0: self.boost(dnde, energies, beta, mass))
        for name in list(FF.values()) + ["Pi0Omega"]:
            c = cls(name)
            env.patch(c, "__init__", lambda self: None)
            if hasattr(c, "energy_distributions"):
                env.patch(c, "energy_distributions", self.bound(name, c.energy_distributions, self.edist))
                env.patch(c, "invariant_mass_distributions", self.bound(name, c.invariant_mass_distributions, self.mdist))

    def u(self, name, *x):
        return self.env.uf(name, scale=100)(*x)

    def decay(self, k, x, parent, flavor=None):
        k = f"{k}_{flavor}"
        return self.u(k + "a", x) + self.u(k + "b", x) * parent + self.u(k + "c", x) * parent * parent

    def fsr(self, kind, e, s, m, charge=1.0):
        return charge * charge * (self.u(kind + "a", e) + self.u(kind + "b", e) * s + self.u(kind + "c", e) * m)

    def delta(self, e, e0, m, beta):
        b = beta * beta
        return self.u("da", e) + self.u("db", e) * e0 + self.u("dc", e) * m + b * self.u("dd", e) + b * e0 * self.u("de", e)

    def delta2(self, e, e0, m, b1, b2):
        return (self.u("Da", e) + self.u("Db", e) * e0 + self.u("Dc", e) * m + b1 * b1 * self.u("Dd", e)
                + b2 * b2 * self.u("De", e))

    def boost(self, dnde, e, beta, mass):
        return dnde * (self.u("Ba", e) + self.u("Bb", e) * beta * beta + self.u("Bc", e) * mass)

    def bound(self, name, real, fn):
        import inspect
        sig = inspect.signature(real)

        def fake(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            v = b.arguments
            key = [v["q"], *v["couplings"], v["nbins"]]
            if name.count("Pi") == 4:
                key.append(v["npts"])
            elif "method" in v:
                self.env.claim("distributions by quadrature", v["method"] == "quad")
            return fn(name, key)

        return fake

    def dist(self, name, key):
        d = object.__new__(self.PD)
        d._bin_centers = self.env.array([self.env.uf(f"{name}_x{i}", 1, 1e4)(*key) for i in range(2)])
        d._probabilities = self.env.array([self.env.uf(f"{name}_p{i}", 0, 1)(*key) for i in range(2)])
        d._bins = None
        return d

    def edist(self, name, key):
        n = 4 if name.count("Pi") == 4 else 3
        return [self.dist(f"E_{name}_{i}", key) for i in range(n)]

    def mdist(self, name, key):
        n = 4 if name.count("Pi") == 4 else 3
        return {(i, j): self.dist(f"M_{name}_{i}{j}", key) for i in range(n) for j in range(i + 1, n)}

    # -- the reference --------------------------------------------------------
    def one(self, p, x, parent, flavor):
        if p in NONE[self.product]:
            return 0.0
        if p == "k0":
            return 0.5 * (self.decay("kl", x, parent, flavor) + self.decay("ks", x, parent, flavor))
        return self.decay(p, x, parent, flavor)

    def average(self, d, f):
        c, w = d._bin_centers, d._probabilities
        return 0.5 * (c[1] - c[0]) * (w[0] * f(c[0]) + w[1] * f(c[1]))

    def spectrum(self, fs, x, q, coup, nbins, npts, flavor=None):
        """Spectrum at one energy x from the products of the final state at centre-of-mass energy q."""
        m, ps = masses(), BODIES[fs]
        if not q > threshold(fs):
            return 0.0
        out = 0.0
        if fs == "pi0 pi0 gamma":
            if self.product != "photon":
                return 0.0
            a, b = m["pi0"], m["omega"]
            ew = (q * q - a * a + b * b) / (2 * q)
            b2 = self.env.np.sqrt(1 - (b / ew) ** 2)
            ep = (b * b + a * a) / (2 * b)
            b1 = self.env.np.sqrt(1 - (a / ep) ** 2)
            return (self.decay("pi0", x, (q * q + a * a - b * b) / (2 * q)) + self.delta(x, (b * b - a * a) / (2 * b), 0.0, b2)
                    + 2 * 0.98823 * self.delta2(x, a / 2, 0.0, b1, b2))
        if len(ps) == 2:
            for p, o in ((ps[0], ps[1]), (ps[1], ps[0])):
                out = out + self.one(p, x, (q * q + m[p] ** 2 - m[o] ** 2) / (2 * q), flavor)
            if self.product == "photon" and fs in ("e e", "mu mu", "pi pi", "k k"):
                out = out + 2 * self.fsr("fermion" if ps[0] in ("e", "mu") else "scalar", x, q * q, m[ps[0]])
            return out
        key = [q, *coup, nbins] + ([npts] if len(ps) == 4 else [])
        for i, p in enumerate(ps):
            out = out + self.average(self.dist(f"E_{FF[fs]}_{i}", key), lambda e: self.one(p, x, e, flavor))
        if self.product == "photon":
            for (i, j), w in PAIRS.get(fs, []):
                out = out + w * self.average(self.dist(f"M_{FF[fs]}_{i}{j}", key),
                                             lambda e: 2 * self.fsr("scalar", x, e * e, m["pi"]))
        return out


def model(env, **kw):
    p = dict(mx=env.real("mx", 1e-3, 1e4), mv=env.real("mv", 1e-2, 1e4), gvxx=env.real("gvxx", -3, 3))
    p.update({k: env.real(k, -2, 2) for k in ("gvuu", "gvdd", "gvss")})
    p.update({k: 0.5 for k in ("gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt")})
    p.update(kw)
    return M().VectorMediatorGeV(**p), [p[k] for k in ("gvuu", "gvdd", "gvss")]


def functions(v, product):
    return {"photon": v._spectrum_funcs, "positron": v._positron_spectrum_funcs,
            "neutrino": v._neutrino_spectrum_funcs}[product]()


def call(f, product, x, q, flavor, **kw):
    return f(x, q, flavor=flavor, **kw) if product == "neutrino" else f(x, q, **kw)


def binning(fs, env, f=None):
    """Keyword arguments and the binning that they ask for."""
    if len(BODIES[fs]) < 3 or fs == "pi0 pi0 gamma":
        return {}, None, None
    import inspect
    sig = inspect.signature(f).parameters
    if env.choose("binning", ["default", "given"]) == "default":
        return {}, sig["nbins"].default, sig["npts"].default if "npts" in sig else None
    return ({"nbins": 7, "npts": 512} if "npts" in sig else {"nbins": 7}), 7, 512


def state(product, fs):
    def fn(env):
        """The spectrum is the sum over the products of this final state at their own energies."""
        w = World(env, product)
        v, coup = model(env)
        q = env.real("q", 1e-2, 1e5)
        fl = env.choose("flavor", FLAVORS) if product == "neutrino" else None
        fns = functions(v, product)
        env.claim("states", sorted(fns) == sorted(STATES + ["v v"]))
        env.assume(abs(q - threshold(fs)) > 1e-6)
        kw, nb, npt = binning(fs, env, fns[fs])
        xs = [env.real("x0", 1e-3, 1e5), env.real("x1", 1e-3, 1e5)]
        one = env.choose("form", ["one", "list"]) == "one"
        got = call(fns[fs], product, xs[0] if one else env.array(xs), q, fl, **kw)
        got = [got] if one else list(got)
        env.claim("shape", len(got) == (1 if one else 2))
        for g, x in zip(got, xs):
            env.eq(fs, g, w.spectrum(fs, x, q, coup, nb, npt, fl), atol=1e-9)
    return fn


def invisible(product):
    def fn(env):
        """Neutrino final states have no continuum."""
        World(env, product)
        v, _ = model(env)
        q, xs = env.real("q", 1e-2, 1e5), [env.real("x0", 1e-3, 1e5), env.real("x1", 1e-3, 1e5)]
        for fs in ("ve ve", "vm vm", "vt vt"):
            got = call(functions(v, product)[fs], product, env.array(xs), q, "e")
            env.eq(fs, list(got), [0.0, 0.0])
    return fn


def pair(product):
    def fn(env):
        """V V: both mediators decay at rest with their branching fractions, boosted to half the energy each."""
        w = World(env, product)
        v, coup = model(env)
        mv, q = v.mv, env.real("q", 1e-2, 1e5)
        fl = env.choose("flavor", FLAVORS[:2]) if product == "neutrino" else None
        xs = [env.real("x0", 1e-3, 1e5), env.real("x1", 1e-3, 1e5)]
        inv = env.real("w_inv", 0, 10)
        env.assume(q != 2 * mv)
        ws = {}
        for fs in BODIES:
            env.assume(abs(mv - threshold(fs)) > 1e-6)
            ws[fs] = env.real("w_" + fs, 0, 10) if mv > threshold(fs) else 0.0
        pws = dict(ws, **{"ve ve": inv, "vm vm": 0.0, "vt vt": 0.0, "x x": env.real("w_xx", 0, 10)})
        env.patch(type(v), "partial_widths", lambda self, **k: dict(pws))
        env.patch(type(v), "width_v", lambda self, **k: sum(pws.values()))
        tot = sum(pws.values())
        got = call(functions(v, product)["v v"], product, env.array(xs), q, fl, npts=512, nbins=7)
        from hazma import parameters as P
        for g, x in zip(list(got), xs):
            if not q > 2 * mv:
                env.eq("closed", g, 0.0)
                continue
            b = env.np.sqrt(1 - (2 * mv / q) ** 2)
            rest = sum(ws[fs] * w.spectrum(fs, x, mv, coup, 7, 512, fl) for fs in BODIES if mv > threshold(fs))
            want = 2 / tot * w.boost(rest, x, b, P.electron_mass if product == "positron" else 0.0)
            if product == "photon":
                for fs, m in (("pi0 gamma", P.neutral_pion_mass), ("eta gamma", P.eta_mass)):
                    want = want + 2 * ws[fs] / tot * w.delta(x, (mv * mv - m * m) / (2 * mv), 0.0, b)
            env.eq("V V", g, want, atol=1e-9)
    return fn


def lines(env):
    """Monochromatic products."""
    from hazma import parameters as P
    World(env, "photon")
    v, _ = model(env)
    q = env.real("q", 1e-2, 1e5)
    g = v._gamma_ray_line_energies(q)
    env.claim("photon lines", sorted(g) == ["eta gamma", "pi0 gamma"])
    for fs, m in (("pi0 gamma", P.neutral_pion_mass), ("eta gamma", P.eta_mass)):
        env.eq(fs, g[fs], (q * q - m * m) / (2 * q), atol=1e-9)
    p = v._positron_line_energies(q)
    env.claim("positron lines", list(p) == ["e e"])
    env.eq("e e", p["e e"], q / 2)
    sig = {fs: env.real("s_" + fs, 0, 1) for fs in ("ve ve", "vm vm", "vt vt", "e e")}
    env.assume(sum(sig.values()) > 0)
    env.patch(type(v), "annihilation_cross_section_funcs", lambda self: {fs: (lambda e, fs=fs: sig[fs]) for fs in sig})
    for fl, fs in zip(FLAVORS, ("ve ve", "vm vm", "vt vt")):
        n = v._neutrino_line_energies(q, fl)
        env.claim("neutrino lines", list(n) == [fs])
        env.eq(fs, n[fs], q / 2)
        n = v.neutrino_lines(q, fl)
        env.claim("neutrino lines", list(n) == [fs])
        env.eq(fs, n[fs]["energy"], q / 2)
        env.eq(fs, n[fs]["bf"], sig[fs] / sum(sig.values()))
    env.raises("flavor", ValueError, lambda: v._neutrino_line_energies(q, "nu"))


def totals(env):
    """Neutrino spectra: branching fraction times spectrum of every open final state, and their sum."""
    World(env, "neutrino")
    v, _ = model(env)
    q, xs = env.real("q", 1e-2, 1e5), [env.real("x0", 1e-3, 1e5), env.real("x1", 1e-3, 1e5)]
    fl = env.choose("flavor", FLAVORS)
    fss = ["mu mu", "pi pi", "v v"]
    sig = {fs: env.real("s_" + fs, 0, 1, lo_s=False) for fs in fss}
    sp = {fs: env.uf(f"spec_{fs}_{fl}") for fs in fss}
    tot = sum(sig.values())
    env.assume(tot > 0)
    env.patch(type(v), "annihilation_cross_section_funcs", lambda self: {fs: (lambda e, fs=fs: sig[fs]) for fs in fss})
    bad = env.uf("wrong flavor")
    env.patch(type(v), "_neutrino_spectrum_funcs", lambda self: {
        fs: (lambda e, cme, flavor, fs=fs: sp[fs](e, cme) if flavor == fl else bad(e, cme)) for fs in fss})
    if env.choose("history", ["construct", "change"]) == "change":
        now, mx = dict(sig), v.mx
        sig.update({fs: 0.5 for fs in sig})
        v.mx = 123.0
        v.neutrino_spectra(env.array(xs), q, fl), v.total_neutrino_spectrum(env.array(xs), q, fl), v.total_neutrino_spectrum(xs[0], q, fl)
        sig.update(now)
        v.mx = mx
    got = v.neutrino_spectra(env.array(xs), q, fl)
    env.claim("states", sorted(got) == sorted(fss + ["total"]))
    want = {fs: [sig[fs] / tot * sp[fs](x, q) for x in xs] for fs in fss}
    for fs in fss:
        env.eq(fs, list(got[fs]), want[fs])
    all_ = [sum(want[fs][i] for fs in fss) for i in range(2)]
    env.eq("sum", list(got["total"]), all_, atol=1e-12)
    env.eq("total", list(v.total_neutrino_spectrum(env.array(xs), q, fl)), all_, atol=1e-12)
    env.eq("total of one energy", v.total_neutrino_spectrum(xs[0], q, fl), all_[0], atol=1e-12)


def cases(tier):
    C = Case
    out = []
    for p in ("photon", "positron", "neutrino"):
        for fs in BODIES:
            out.append(C(f"{p} {fs}", state(p, fs), sym_consts=False))
        out.append(C(f"{p} invisible", invisible(p), sym_consts=False))
        out.append(C(f"{p} v v", pair(p), sym_consts=False, timeout=300, path_time=150))
    out += [C("lines", lines), C("totals", totals)]
    return out
