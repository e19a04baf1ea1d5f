"""GeV-scale vector mediator: widths, their cache, cross sections, thermal average."""
import inspect

import numpy as np

from vf.harness import Case
from vf import sym as S
from props.P06 import bessel

PROPERTY = "P23"
BOUNDS = ("any masses, couplings and energies (one energy or a list of two); histories of up to two reads and "
          "three changes of parameters")
ASSUMPTIONS = ["real arithmetic; square roots, logarithms and arctanh are exact functions",
               "form factors, their widths and their cross sections are arbitrary functions of their arguments",
               "scipy's quad is observed at its boundary (integrand and limits); Bessel functions are arbitrary positive functions"]
FUNCTIONS = ["hazma.vector_mediator._gev.model.*", "hazma.vector_mediator._gev.cross_sections.*",
             "hazma.vector_mediator._gev.thermal_cross_section.*"]

# final state -> attribute of the form factor
FF = {
    "pi pi": "PiPi", "pi0 pi0": "Pi0Pi0", "k k": "KK", "k0 k0": "K0K0", "pi0 gamma": "Pi0Gamma", "eta gamma": "EtaGamma",
    "pi0 phi": "Pi0Phi", "eta phi": "EtaPhi", "eta omega": "EtaOmega", "pi pi pi0": "PiPiPi0", "pi pi eta": "PiPiEta",
    "pi pi etap": "PiPiEtaPrime", "pi pi omega": "PiPiOmega", "pi0 pi0 omega": "Pi0Pi0Omega", "pi0 k0 k0": "Pi0K0K0",
    "pi0 k k": "Pi0KpKm", "pi k k0": "PiKK0", "pi pi pi pi": "PiPiPiPi", "pi pi pi0 pi0": "PiPiPi0Pi0"}
LEPTONS = ["e e", "mu mu", "ve ve", "vm vm", "vt vt"]
COUP = ["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"]
OF = dict(zip(LEPTONS, COUP[3:]))
STATES = LEPTONS + [k for k in FF if k != "pi0 pi0"] + ["pi0 pi0 gamma"]
NPTS = ["pi pi pi0", "pi0 k0 k0", "pi0 k k", "pi k k0", "pi pi pi pi", "pi pi pi0 pi0"]


def M():
    from hazma.vector_mediator._gev import model
    return model


def mass(fs):
    from hazma import parameters as P
    return {"e": P.electron_mass, "mu": P.muon_mass}.get(fs.split()[0], 0.0)


def cls(name):
    import hazma.form_factors.vector as vff
    return getattr(vff, "VectorFormFactor" + name)


def stub(env, methods=("width",), lo=0, hi=10):
    """Replace the form factors by arbitrary functions of everything they are given."""
    for name in list(FF.values()) + ["Pi0Omega"]:
        c = cls(name)
        env.patch(c, "__init__", lambda self: None)
        for m in methods:
            sig = inspect.signature(getattr(c, m))
            f = env.uf(f"{m}_{name}", lo, hi)

            def fake(*args, _sig=sig, _f=f, **kw):
                b = _sig.bind(*args, **kw)
                b.apply_defaults()
                a = []
                for k, v in b.arguments.items():
                    if k in ("self", "method", "epsrel", "epsabs"):
                        continue
                    a += list(v) if k == "couplings" else [v]
                return _f(*a)

            env.patch(c, m, fake)


def ref_ff(env, name, method, args, npts, lo=0, hi=10):
    f = env.uf(f"{method}_{name}", lo, hi)
    return f(*args, *([] if npts is None else [npts]))


def general(env, pre=""):
    c = {k: env.real(pre + k, -2, 2) for k in COUP}
    mx, mv, g = env.real(pre + "mx", 1e-3, 1e4), env.real(pre + "mv", 1e-3, 1e4), env.real(pre + "gvxx", -3, 3)
    return dict(mx=mx, mv=mv, gvxx=g, **c)


def wff(env, p, fs, npts):
    """Width of a hadronic final state."""
    a = [p["mv"], p["gvuu"], p["gvdd"], p["gvss"]]
    if fs == "pi0 pi0 gamma":
        return env.sym_br * ref_ff(env, "Pi0Omega", "width", a, None)
    from hazma import parameters as P
    n = fs.split()
    if len(n) == 4 and p["mv"] < n.count("pi") * P.charged_pion_mass + n.count("pi0") * P.neutral_pion_mass:
        return 0.0
    return ref_ff(env, FF[fs], "width", a, npts if fs in NPTS else None)


def wlep(env, p, g, m):
    mv = p["mv"]
    d = mv ** 2 - 4 * m ** 2
    if not d > 0:
        return 0.0
    return g ** 2 / (12 * env.pi) * (1 + 2 * m ** 2 / mv ** 2) * env.np.sqrt(d)


def width(env, p, fs, npts=None):
    if fs == "x x":
        return wlep(env, p, p["gvxx"], p["mx"])
    if fs in OF:
        w = wlep(env, p, p[OF[fs]], mass(fs))
        return w / 2 if fs[0] == "v" else w
    return wff(env, p, fs, npts)


def default(f, name="npts"):
    return inspect.signature(f).parameters[name].default


def widths(env):
    """Every partial width is that of its own final state, and the total is their sum."""
    stub(env)
    env.sym_br = 8.34e-2
    m = M()
    p = general(env)
    v = m.VectorMediatorGeV(**p)
    n = env.choose("npts", [50_000, 77])
    got = v.partial_widths(npts=n)
    env.claim("states", sorted(got) == sorted(STATES + ["x x"]))
    for fs in got:
        env.eq(fs, got[fs], width(env, p, fs, n), atol=1e-18)
    env.eq("pi0 pi0", v.width_v_to_pi0_pi0(), width(env, p, "pi0 pi0"))
    env.claim("annihilation states", sorted(v.list_annihilation_final_states()) == sorted(STATES))


def total(env):
    """The total width is the sum of the partial widths."""
    stub(env)
    m = M()
    p = general(env)
    U = {fs: env.uf("w_" + fs, 0, 10) for fs in STATES + ["x x"]}
    names = list(p)
    for fs in U:
        env.patch(m.VectorMediatorGeV, "width_v_to_" + fs.replace(" ", "_"),
                  lambda self, fs=fs, npts=None: U[fs](*(getattr(self, k) for k in names)))
    if env.choose("history", ["construct", "change"]) == "construct":
        v = m.VectorMediatorGeV(**p)
    else:
        v = m.VectorMediatorGeV(**{k: 0.3 for k in p})
        v.partial_widths(), v.width_v()
        for k, val in p.items():
            setattr(v, k, val)
    w = {fs: U[fs](*(p[k] for k in names)) for fs in U}
    env.eq("total", v.width_v(), sum(w.values()))
    got = v.partial_widths()
    for fs in w:
        env.eq(fs, got[fs], w[fs])


# -- histories ---------------------------------------------------------------


def build(env, kind, pre=""):
    """(model, its parameters, what its couplings are)."""
    m = M()
    from hazma import parameters as P
    if kind == "general":
        p = general(env, pre)
        return m.VectorMediatorGeV(**p), p
    p = dict(mx=env.real(pre + "mx", 1e-3, 1e4), mv=env.real(pre + "mv", 1e-3, 1e4), gvxx=env.real(pre + "gvxx", -3, 3))
    if kind == "mixing":
        p["eps"] = env.real(pre + "eps", -1, 1)
        return m.KineticMixingGeV(**p), p
    p["g"] = env.real(pre + "g", -1, 1)
    return m.BLGeV(**p), p


def couplings(kind, p):
    from hazma import parameters as P
    if kind == "general":
        return p
    q = dict(p)
    if kind == "mixing":
        e = p["eps"] * P.qe
        q.update(gvuu=-P.Qu * e, gvdd=-P.Qd * e, gvss=-P.Qd * e, gvee=-P.Qe * e, gvmumu=-P.Qe * e,
                 gvveve=0.0, gvvmvm=0.0, gvvtvt=0.0)
    else:
        q.update({k: p["g"] / 3 for k in COUP[:3]})
        q.update({k: -p["g"] for k in COUP[3:]})
    return q


def charges(kind):
    def fn(env):
        """The couplings follow from the parameter of the model, when it is built and when it changes."""
        stub(env)
        v, p = build(env, kind)
        free = {"mixing": "eps", "bl": "g"}[kind]

        def check(t, p):
            q = couplings(kind, p)
            for k in COUP + ["mx", "mv", "gvxx"]:
                env.eq(f"{t} {k}", getattr(v, k), q[k], atol=1e-15)
            for i, k in enumerate(COUP[:3]):
                env.eq(f"{t} form factor {k}", v._couplings[i], q[k], atol=1e-15)
            env.eq(f"{t} {free}", getattr(v, free), p[free])

        check("built", p)
        for k in COUP:
            env.raises(f"{k} is derived", AttributeError, lambda: setattr(v, k, 0.5))
        check("after refusals", p)
        k = env.choose("change", [free, "mx", "mv", "gvxx"])
        p = dict(p, **{k: env.real("new_" + k, 1e-3, 1)})
        setattr(v, k, p[k])
        check("changed", p)
    return fn


def history(kind):
    def fn(env):
        """Whatever was read before, after changes every width is that of the current parameters."""
        stub(env)
        env.sym_br = 8.34e-2
        v, p = build(env, kind)
        free = {"general": COUP, "mixing": ["eps"], "bl": ["g"]}[kind]
        q = couplings(kind, p)
        fs = env.choose("width", STATES + ["x x", "pi0 pi0"])
        if kind != "general" and fs in ("eta phi", "eta omega", "pi0 phi", "pi pi eta", "pi pi etap", "k k", "eta gamma"):
            return
        f = getattr(v, "width_v_to_" + fs.replace(" ", "_"))
        kw = {"npts": 321} if fs in NPTS else {}
        n = 321 if kw else None
        env.eq("first", f(**kw), width(env, q, fs, n), atol=1e-18)
        env.eq("again", f(**kw), width(env, q, fs, n), atol=1e-18)
        if kw:
            env.eq("other points", f(npts=99), width(env, q, fs, 99), atol=1e-18)
        names = env.choose("changes", [(k,) for k in ["mx", "mv", "gvxx"] + free]
                           + ([("mv", "mx", "mv"), ("gvuu", "gvss", "gvdd")] if kind == "general" else [("mv", free[0])]))
        for i, k in enumerate(names):
            p = dict(p, **{k: env.real(f"new{i}_{k}", 1e-3, 1)})
            setattr(v, k, p[k])
            if i == 0 and len(names) > 1:
                env.eq("between", f(**kw), width(env, couplings(kind, p), fs, n), atol=1e-18)
        env.eq("after", f(**kw), width(env, couplings(kind, p), fs, n), atol=1e-18)
    return fn


# -- cross sections ----------------------------------------------------------


def used(env, v, p, ask):
    """Optionally ask the model before its parameters become the ones under study."""
    if env.choose("history", ["construct", "change"]) == "construct":
        return
    for k in p:
        setattr(v, k, 450.0 if k == "mx" else 800.0 if k == "mv" else 0.3)
    ask()
    for k, val in p.items():
        setattr(v, k, val)


def setup(env):
    stub(env, ("width", "cross_section"))
    m = M()
    p = general(env)
    p["mx"] = env.real("mx", 1e-3, 1e4)
    w = env.real("w", 0, 1e3, hi_s=False)
    env.patch(m.VectorMediatorGeV, "width_v", lambda self: w)
    return m.VectorMediatorGeV(**p), p, w


def energies(env):
    q = env.real("q", 1e-2, 5e4)
    if env.choose("form", ["one", "list"]) == "one":
        return q, [q], lambda r: [r]
    q1 = env.real("q1", 1e-2, 5e4)
    return env.array([q, q1]), [q, q1], lambda r: [r[0], r[1]]


def sff(env, p, w, q, g, m):
    if not (q > 2 * m) or not (q > 2 * p["mx"]):
        return 0.0
    s, mx, mv = q * q, p["mx"], p["mv"]
    np_ = env.np
    return (g * p["gvxx"]) ** 2 * np_.sqrt(1 - 4 * m * m / s) / np_.sqrt(1 - 4 * mx * mx / s) * (s + 2 * m * m) * (
        s + 2 * mx * mx) / (12 * env.pi * s * ((s - mv * mv) ** 2 + (mv * w) ** 2))


def leptons(env):
    """Annihilation into leptons: through the mediator, above both thresholds; neutrinos have one helicity."""
    v, p, w = setup(env)
    fs = env.choose("state", LEPTONS)
    x, qs, out = energies(env)
    m = mass(fs)
    for q in qs:
        env.assume(q != 2 * p["mx"])
        env.assume((q * q - p["mv"] ** 2) ** 2 + (p["mv"] * w) ** 2 > 1e-12)
        for l in ("e e", "mu mu"):
            env.assume(q != 2 * mass(l))
    used(env, v, p, lambda: getattr(v, "sigma_xx_to_" + fs.replace(" ", "_"))(x))
    got = out(getattr(v, "sigma_xx_to_" + fs.replace(" ", "_"))(x))
    for g, q in zip(got, qs):
        ref = sff(env, p, w, q, p[OF[fs]], m)
        env.eq(fs, g, ref / 2 if fs[0] == "v" else ref, atol=1e-25)


def hadrons(env):
    """Annihilation into hadrons is computed by the form factor with the parameters of this model."""
    v, p, w = setup(env)
    fs = env.choose("state", [k for k in FF if k != "pi0 pi0"])
    x, qs, out = energies(env)
    f = getattr(v, "sigma_xx_to_" + fs.replace(" ", "_"))
    kw, n = {}, None
    if fs in NPTS:
        n = default(f)
        if env.choose("points", [0, 1]):
            kw, n = {"npts": 55}, 55
    used(env, v, p, lambda: f(x, **kw))
    got = out(f(x, **kw))
    for g, q in zip(got, qs):
        env.eq(fs, g, ref_ff(env, FF[fs], "cross_section",
                             [q, p["mx"], p["mv"], p["gvxx"], w, p["gvuu"], p["gvdd"], p["gvss"]], n))


def pi0pi0gamma(env):
    """pi0 pi0 gamma: pi0 omega followed by omega -> pi0 gamma, through the mediator."""
    from hazma import parameters as P
    v, p, w = setup(env)
    x, qs, out = energies(env)
    for q in qs:
        env.assume((q * q - p["mv"] ** 2) ** 2 + (p["mv"] * w) ** 2 > 1e-12)
        env.assume(q != 2 * p["mx"])
    got = out(v.sigma_xx_to_pi0_pi0_gamma(x))
    mx, mv = p["mx"], p["mv"]
    for g, q in zip(got, qs):
        if not q > 2 * mx or not q > 2 * P.neutral_pion_mass:
            ref = 0.0
        else:
            s = q * q
            wd = 8.34e-2 * ref_ff(env, "Pi0Omega", "width", [q, p["gvuu"], p["gvdd"], p["gvss"]], None)
            ref = wd * p["gvxx"] ** 2 * (s + 2 * mx * mx) / (
                q * env.np.sqrt(1 - 4 * mx * mx / s) * ((s - mv * mv) ** 2 + (mv * w) ** 2))
        env.eq("pi0 pi0 gamma", g, ref, atol=1e-25)


def vv(env):
    """Annihilation into two mediators: t and u channels, identical particles counted once."""
    v, p, w = setup(env)
    x, qs, out = energies(env)
    mx, mv = p["mx"], p["mv"]
    used(env, v, p, lambda: v.sigma_xx_to_v_v(x))
    got = out(v.sigma_xx_to_v_v(x))
    for g, q in zip(got, qs):
        if not q > 2 * mx or not q > 2 * mv:
            env.eq("closed", g, 0.0)
            continue
        np_ = env.np
        bx, bv = np_.sqrt(1 - 4 * (mx / q) ** 2), np_.sqrt(1 - 4 * (mv / q) ** 2)
        a, b = (mx / q) ** 2, (mv / q) ** 2
        L = 2 * np_.arctanh(bx * bv / (1 - 2 * b))
        ref = p["gvxx"] ** 4 / (8 * env.pi * q * q * bx * bx) * (
            (1 + 4 * a - 8 * a * a - 8 * a * b + 4 * b * b) / (1 - 2 * b) * L
            - bx * bv * (2 * b * b + a + 4 * a * a) / (b * b + a - 4 * a * b))
        env.eq("V V", g, ref, rtol=1e-6, atol=1e-25)


def table(env):
    """Every final state is listed with its own cross section."""
    v, p, w = setup(env)
    q = env.real("q", 1e-2, 5e4)
    fs = env.choose("state", STATES + ["v v"])
    name = "sigma_xx_to_" + fs.replace(" ", "_")
    f = env.uf("s")
    env.patch(type(v), name, lambda self, e, **k: f(e))
    fns = v.annihilation_cross_section_funcs()
    env.claim("states", sorted(fns) == sorted(STATES + ["v v"]))
    env.eq(fs, fns[fs](q), f(q))


def form_factors(env):
    """form_factor_* evaluates the form factor of that final state with the couplings of the model."""
    fs = env.choose("state", list(FF)[:-2] + ["pi0 omega"])
    name = dict(FF, **{"pi0 omega": "Pi0Omega"})[fs]
    stub(env, ("width", "form_factor"), None, None)
    v = M().VectorMediatorGeV(**(p := general(env)))
    f = getattr(v, "form_factor_" + fs.replace(" ", "_"))
    k = len(inspect.signature(f).parameters)
    a = [env.real(f"a{i}", 1e-2, 1e4) for i in range(k)]
    if env.choose("changed", [0, 1]):
        p = dict(p, gvdd=env.real("new", -2, 2))
        v.gvdd = p["gvdd"]
    env.eq(fs, f(*a), ref_ff(env, name, "form_factor", a + [p["gvuu"], p["gvdd"], p["gvss"]], None, None, None))


def thermal(env):
    """The relic density is computed from the thermal average of the cross sections of the selected final states."""
    import hazma.relic_density as R
    from hazma.vector_mediator._gev import thermal_cross_section as T
    stub(env)
    v = M().VectorMediatorGeV(**(p := general(env)))
    s = {fs: env.uf("s_" + fs, 0, 1) for fs in STATES + ["v v"]}
    for fs in s:
        env.patch(type(v), "sigma_xx_to_" + fs.replace(" ", "_"), lambda self, e, fs=fs, **k: s[fs](e))
    seen = []

    def capture(*a, **k):
        b = inspect.signature(real).bind(*a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
        return 0.123

    real = R.relic_density
    for mod in (T, R):
        for k, val in list(vars(mod).items()):
            if val is real:
                env.patch(mod, k, capture)
    three, four = env.choose("bodies", [(False, False), (True, False), (False, True), (True, True)])
    x = env.real("x", 1e-2, 600)
    opts = dict(semi_analytic=env.choose("semi", [True, False]), delta=0.5, x0=2.0, xf=40.0, method="BDF", rtol=1e-4,
                atol=1e-7)
    env.eq("result", v.relic_density(three_body=three, four_body=four, **opts), 0.123)
    env.claim("called once", len(seen) == 1)
    got = seen[0]
    for k, val in opts.items():
        env.claim(f"option {k}", got[k] == val)
    env.eq("mass", got["model"].mx, p["mx"])
    use = [fs for fs in s if len(fs.split()) == 2 or (len(fs.split()) == 3 and three) or (len(fs.split()) == 4 and four)]
    tcs = got["model"].thermal_cross_section(x)
    if x > 300:
        env.eq("far below", tcs, 0.0)
        return
    k2 = bessel(env, 2, x)
    env.assume(k2 > 0)

    def f(z):
        return sum(s[fs](p["mx"] * z) for fs in use) * z ** 2 * (z ** 2 - 4) * bessel(env, 1, x * z)

    env.eq("thermal average", tcs, x / (4 * k2 ** 2) * env.quad(lambda z: f(z), 2.0, 2.0 + 50.0 / x), rtol=1e-5)


def cases(tier):
    C = Case
    out = [C("widths", widths, sym_consts=False), C("total", total), C("leptons", leptons), C("hadrons", hadrons),
           C("pi0 pi0 gamma", pi0pi0gamma, sym_consts=False), C("v v", vv), C("table", table), C("form factors", form_factors),
           C("thermal", thermal, sym_consts=False), C("charges mixing", charges("mixing"), sym_consts=False),
           C("charges bl", charges("bl"), sym_consts=False)]
    out += [C(f"history {k}", history(k), sym_consts=False) for k in ("general", "mixing", "bl")]
    return out
