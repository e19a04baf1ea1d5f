"""Tabulated positron and neutrino spectra of mesons and the wrappers of the kernels."""
import numpy as np

from props._tables import reference, stub_tables
from vf.harness import Case

PROPERTY = "P16"
BOUNDS = ("any parent energy (velocity above 1e-3 c, at rest, below its mass), any product energy; 1 to 3 energies per call; "
          "all ten parents")
ASSUMPTIONS = ["scipy splines are observed at their boundary: which table they interpolate, where they are evaluated and "
               "between which limits they are integrated",
               "the tables on disk are data"]
FUNCTIONS = ["hazma.spectra._positron.*", "hazma.spectra._neutrino.*", "hazma.spectra._positron._utils.*",
             "hazma.spectra._neutrino._utils.*"]

# particle: (function suffix, mass in hazma.parameters, positron table, neutrino table)
PARENTS = {
    "charged_kaon": ("charged_kaon_mass", "charged_kaon", "charged_kaon"),
    "long_kaon": ("long_kaon_mass", "long_kaon", "long_kaon"),
    "short_kaon": ("short_kaon_mass", "short_kaon", "short_kaon"),
    "eta": ("eta_mass", "eta", "eta"),
    "eta_prime": ("eta_prime_mass", "eta_prime", "eta_prime"),
    "omega": ("omega_mass", "omega", "omega"),
    "phi": ("phi_mass", "phi", "phi"),
    "neutral_rho": ("rho_mass", "rho", "neutral_rho"),
    "charged_rho": ("rho_mass", "rho", "charged_rho"),
}
CORE = {"photon": ["muon", "neutral_pion", "charged_pion", "charged_kaon", "short_kaon", "long_kaon", "neutral_rho",
                   "charged_rho", "eta", "omega", "eta_prime", "phi"],
        "positron": ["muon", "charged_pion"], "neutrino": ["muon", "charged_pion"]}


def cosh_sinh(env, name, lo=0):
    r = 1 + env.real(name, lo, 20)
    return (r * r + 1) / (2 * r), (r * r - 1) / (2 * r)


def mass_of(parent):
    from hazma import parameters

    return getattr(parameters, PARENTS[parent][0])


def product_energy(env, product, i):
    from hazma import parameters

    if product == "positron":
        c, s = cosh_sinh(env, f"x{i}")
        return parameters.electron_mass * c, parameters.electron_mass * s
    e = env.real(f"e{i}", 0, 1e4)
    return e, e


def call(env, product, parent, es, energy, **kw):
    import hazma.spectra as sp

    return getattr(sp, f"dnde_{product}_{parent}")(es, energy, **kw)


def tables(product, parent):
    if product == "positron":
        return [f"{PARENTS[parent][1]}_positron"]
    return [f"{PARENTS[parent][2]}_neutrino_e", f"{PARENTS[parent][2]}_neutrino_mu"]


def boosted(parent, product):
    """1/(2 beta gamma) times the integral of (rest spectrum / momentum) over the boost window."""
    def fn(env):
        M = mass_of(parent)
        g, sh = cosh_sinh(env, "r", 1e-3)
        n = env.choose("energies", [0, 1, 2])
        prods = [product_energy(env, product, i) for i in range(max(n, 1))]
        lims = stub_tables(env)
        arg = env.array([e for e, _ in prods]) if n else prods[0][0]
        out = call(env, product, parent, arg, M * g)
        rows = [out] if product == "positron" else out
        tabs = tables(product, parent)
        if product != "positron":
            env.claim("three flavors", np.shape(out) == ((3, n) if n else (3,)))
            env.eq("no tau neutrinos", rows[2], env.np.zeros(n) if n else 0.0)
        elif n:
            env.claim("shape", np.shape(out) == (n,))
        for row, t in zip(rows, tabs):
            vals = row if n else [row]
            for i, (v, (e, k)) in enumerate(zip(vals, prods)):
                lo, hi = g * e - sh * k, g * e + sh * k
                mine = [(a, b) for m, a, b in lims if m == t]
                env.claim(f"integrates {t}", bool(mine))
                if not mine:
                    continue
                if len(mine) == len(prods):
                    a, b = mine[i]
                    env.eq(f"lower limit {t}", a, lo)
                    env.eq(f"upper limit {t}", b, hi)
                    lo, hi = a, b
                ref = env.uf("I_" + t, scale=10)(lo) + 2 * env.uf("J_" + t, scale=10)(hi)
                env.eq(f"boosted {t}", v * 2 * sh, ref)
    return fn


def rest(parent, product):
    def fn(env):
        M = mass_of(parent)
        n = env.choose("energies", [0, 2])
        prods = [product_energy(env, product, i) for i in range(max(n, 1))]
        stub_tables(env)
        below = product == "positron" and env.choose("below the electron mass", [False, True])
        if below:
            from hazma import parameters
            prods[0] = (parameters.electron_mass * env.real("b", 0, 1), 0.0)
        arg = env.array([e for e, _ in prods]) if n else prods[0][0]
        out = call(env, product, parent, arg, M)
        rows = [out] if product == "positron" else out
        for row, t in zip(rows, tables(product, parent)):
            vals = row if n else [row]
            for i, (v, (e, k)) in enumerate(zip(vals, prods)):
                env.eq(f"at rest {t}", v, 0.0 if below and i == 0 else k * env.uf("T_" + t, scale=10)(e))
    return fn


def limits(parent, product):
    """Nothing below the parent's mass or the electron's mass."""
    def fn(env):
        M = mass_of(parent)
        f = env.real("f", 0, 1)
        n = env.choose("energies", [0, 2])
        prods = [product_energy(env, product, i) for i in range(max(n, 1))]
        stub_tables(env)
        arg = env.array([e for e, _ in prods]) if n else prods[0][0]
        out = call(env, product, parent, arg, M * f)
        env.eq("below the parent mass", list(np.ravel(out)), [0.0] * np.size(out))
        if product == "positron":
            from hazma import parameters
            g, sh = cosh_sinh(env, "r", 1e-3)
            e = parameters.electron_mass * env.real("b", 0, 1)
            o = call(env, product, parent, env.array([e, prods[0][0]]) if n else e, M * g)
            env.eq("below the electron mass", o[0] if n else o, 0.0)
    return fn


def flavors(parent):
    """A single flavor is that row of the full result."""
    def fn(env):
        n = env.choose("energies", [0, 2])
        M = mass_of(parent)
        where = env.choose("where", ["boosted", "rest", "below"])
        g = {"boosted": lambda: cosh_sinh(env, "r", 1e-3)[0], "rest": lambda: 1.0, "below": lambda: env.real("f", 0, 1)}[where]()
        es = [env.real(f"e{i}", 0, 1e4) for i in range(max(n, 1))]
        stub_tables(env)
        arg = env.array(es) if n else es[0]
        full = call(env, "neutrino", parent, arg, M * g)
        fl = env.choose("flavor", ["e", "mu", "tau"])
        one = call(env, "neutrino", parent, arg, M * g, flavor=fl)
        env.claim("shape", np.shape(one) == ((n,) if n else ()))
        row = full[["e", "mu", "tau"].index(fl)]
        env.eq("row", list(np.ravel(one)), list(np.ravel(row)), atol=1e-30)
    return fn


def outside(env):
    """Rest spectra are zero outside their tables."""
    from scipy.interpolate import UnivariateSpline

    bad = []
    real = UnivariateSpline.__call__
    seen = []

    def value(self, x, *a, **k):
        t = self.get_knots()
        seen.append(1)
        v = real(self, np.array([t[0] * 0.5, t[-1] * 1.01, t[-1] * 3.0]), *a, **k)
        if np.any(v != 0):
            bad.append(v)
        return env.uf("T")(x)

    env.patch(UnivariateSpline, "__call__", value)
    e = env.real("e", 1, 1e4)
    for p in PARENTS:
        for product in ("positron", "neutrino"):
            call(env, product, p, e, mass_of(p))
    env.claim("evaluated", len(seen) >= 3 * len(PARENTS))
    env.claim("zero outside the table", not bad)


def wrappers(env):
    """Public names hand their arguments to the kernel of the same particle, and flavors pick its rows."""
    from vf import load

    e, p = env.real("e", 0, 1e4), env.real("p", 0, 1e4)
    kind = env.choose("kind", list(CORE))
    name = env.choose("name", CORE[kind])
    for k, names in CORE.items():
        for nm in names:
            f = env.uf(f"{k}_{nm}")
            if k == "neutrino":
                def stub(x, q, f=f):
                    return env.array([f(x, q), 2 * f(x, q) + 1, f(x, q) - 3])
            else:
                def stub(x, q, f=f):
                    return f(x, q)
            env.patch(load.STUBS, (k, f"dnde_{k}_{nm}"), stub)
    f = env.uf(f"{kind}_{name}")(e, p)
    out = call(env, kind, name, e, p)
    if kind != "neutrino":
        env.eq("kernel", out, f)
        return
    rows = [f, 2 * f + 1, f - 3]
    env.eq("kernel", list(out), rows)
    for i, fl in enumerate(("e", "mu", "tau")):
        env.eq("flavor", call(env, kind, name, e, p, flavor=fl), rows[i])
    env.raises("unknown flavor", ValueError, lambda: call(env, kind, name, e, p, flavor="sterile"))


def cases(tier):
    reference()
    kw = dict(undef="assume")
    out = [Case("wrappers", wrappers, **kw), Case("outside", outside, **kw)]
    for p in PARENTS:
        for q in ("positron", "neutrino"):
            out += [Case(f"boosted {q} {p}", boosted(p, q), sym_consts=False, **kw), Case(f"rest {q} {p}", rest(p, q), **kw),
                    Case(f"limits {q} {p}", limits(p, q), **kw)]
        out.append(Case(f"flavors {p}", flavors(p), **kw))
    return out
