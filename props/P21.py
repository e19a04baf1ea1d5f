"""Vector mediator models."""
from vf import load
from vf.harness import Case

from props._mediator import change, fsr, recorder, same_args, self_interaction

PROPERTY = "P21"
BOUNDS = ("any masses, couplings and energies; every parameter of the three models set one or two at a time; "
          "1 to 2 energies per call")
ASSUMPTIONS = ["real arithmetic; exp, log and square roots are exact functions",
               "log((1+b)/(1-b)) >= 2b + 2b^3/3 for 0 < b < 1",
               "compiled cross sections and boosted decay spectra are arbitrary functions of their arguments"]
FUNCTIONS = ["hazma.vector_mediator.VectorMediator.*", "hazma.vector_mediator.KineticMixing.*", "hazma.vector_mediator.QuarksOnly.*",
             "hazma.vector_mediator._vector_mediator_widths.VectorMediatorWidths.*",
             "hazma.vector_mediator._vector_mediator_fsr.VectorMediatorFSR.*",
             "hazma.vector_mediator._vector_mediator_spectra.VectorMediatorSpectra.*",
             "hazma.vector_mediator._vector_mediator_positron_spectra.VectorMediatorPositronSpectra.*",
             "hazma.vector_mediator._vector_mediator_cross_sections.VectorMediatorCrossSections.*"]

NAMES = ["mx", "mv", "gvxx", "gvuu", "gvdd", "gvss", "gvee", "gvmumu"]


def params(env, tag=""):
    p = dict(mx=env.real("mx" + tag, 0.1, 1e4), mv=env.real("mv" + tag, 0.1, 1e4))
    p.update({n: env.real(n + tag, -10, 10) for n in NAMES[2:]})
    return p


def widths(env):
    """Coupling squared times phase space for every channel, zero when closed."""
    from hazma import parameters as P
    from hazma.vector_mediator import VectorMediator

    np, pi = env.np, env.pi
    p = params(env)
    mv = p["mv"]

    def fermion(g, m):
        return g * g * np.sqrt(mv * mv - 4 * m * m) * (mv * mv + 2 * m * m) / (12 * pi * mv * mv) if mv > 2 * m else 0.0

    mpi, mpi0 = P.charged_pion_mass, P.neutral_pion_mass
    k = np.sqrt(mv * mv - 4 * mpi * mpi) if mv > 2 * mpi else 0.0
    want = {"pi pi": (p["gvuu"] - p["gvdd"]) ** 2 * k * k * k / (48 * pi * mv * mv),
            "pi0 g": (P.alpha_em * (2 * p["gvuu"] + p["gvdd"]) ** 2 * (mv * mv - mpi0 * mpi0) ** 3
                      / (384 * P.fpi**2 * pi**4 * mv**3)) if mv > mpi0 else 0.0,
            "x x": fermion(p["gvxx"], p["mx"]), "e e": fermion(p["gvee"], P.electron_mass), "mu mu": fermion(p["gvmumu"], P.muon_mass)}
    if env.choose("history", ["construct", "change"]) == "construct":
        th = VectorMediator(**p)
    else:
        # the widths were asked for before the parameters changed
        th = VectorMediator(250.0, 900.0, 0.5, 0.7, -0.3, 0.2, 0.4, 0.1)
        th.partial_widths()
        for k in ("pipi", "pi0g", "xx"):
            getattr(th, f"width_v_to_{k}")()
        for k in ("e", "mu"):
            th.width_v_to_ff(k)
        for k, v in p.items():
            setattr(th, k, v)
        th.partial_widths()
    got = th.partial_widths()
    env.claim("channels", sorted(got) == sorted([*want, "total"]))
    for c, w in want.items():
        env.eq(c, got[c], w, rtol=1e-9)
    env.eq("total", got["total"], sum(got[c] for c in want))
    env.eq("stored width", th.width_v, got["total"])


def build(env, model, tag):
    from hazma.parameters import Qd, Qe, Qu, qe
    from hazma.vector_mediator import KineticMixing, QuarksOnly, VectorMediator

    p = params(env, tag)
    if model == "general":
        return VectorMediator, p, p, []
    if model == "quarks only":
        new = {k: p[k] for k in NAMES[:6]}
        return QuarksOnly, new, dict(new, gvee=0.0, gvmumu=0.0), ["gvee", "gvmumu"]
    new = {k: p[k] for k in NAMES[:3]}
    new["eps"] = env.real("eps" + tag, -1, 1)
    g = -new["eps"] * qe  # the sign is a convention of the mixing parameter
    full = dict({k: new[k] for k in NAMES[:3]}, gvuu=g * Qu, gvdd=g * Qd, gvss=g * Qd, gvee=g * Qe, gvmumu=g * Qe)
    return KineticMixing, new, full, NAMES[3:]


KERNELS = ["sigma_xx_to_v_to_ff", "sigma_xx_to_v_to_pi0g", "sigma_xx_to_v_to_pi0v", "sigma_xx_to_v_to_pipi", "sigma_xx_to_vv",
           "thermal_cross_section"]


LEPTONS = ["sigma_xl_to_xl", "sigma_xx_to_s_to_ff", "sigma_xx_to_v_to_ff"]
METHODS = KERNELS


def model_state(model):
    def fn(env):
        """Setting parameters one after the other ends in the constructed model, as its kernels see it."""
        from hazma.parameters import electron_mass as me
        from hazma.parameters import muon_mass as mmu
        import hazma.vector_mediator as vm

        W = env.uf("width", 0, 1)
        env.patch(vm.VectorMediator, "partial_widths", lambda self: {"total": W(*(getattr(self, n) for n in NAMES))})
        log = []
        for k in KERNELS:
            env.patch(load.STUBS, ("vector_mediator", k), recorder(log, k, env.real("out " + k, 0, 1)))
        cls, new, full, fixed = build(env, model, "")
        _, old, _, _ = build(env, model, " old")
        def ask(th):
            """Everything that is asked again after the change."""
            q = env.real("q", 0.1, 1e5)
            for name in dir(cls):
                if name.startswith("sigma_") and name in METHODS or name == "thermal_cross_section":
                    for a in (("e",), ("mu",)) if name in LEPTONS else ((),):
                        getattr(th, name)(q, *a)
            for g in th.annihilation_cross_section_funcs().values():
                g(q)
            th.annihilation_cross_sections(q)
            if hasattr(th, "elastic_scattering_cross_sections"):
                th.elastic_scattering_cross_sections(q)
            th.partial_widths()

        n1 = env.choose("set", ["construct", *new])
        if n1 == "construct":
            th = cls(**new)
        else:
            n2 = env.choose("then", [n for n in new if n > n1] + ["none"])
            start = dict(new)
            start[n1] = old[n1]
            if n2 != "none":
                start[n2] = old[n2]
            th = cls(**start)
            ask(th)
            setattr(th, n1, new[n1])
            if n2 != "none":
                setattr(th, n2, new[n2])
        for n in NAMES:
            env.eq(n, getattr(th, n), full[n])
        for n, v in new.items():
            env.eq(n, getattr(th, n), v)
        width = W(*(full[n] for n in NAMES))
        env.eq("width", th.width_v, width)
        q = env.real("q", 0.1, 1e5)
        common = [q, *(full[n] for n in NAMES), width]

        def lepton(f):
            return [q, full["mx"], full["mv"], full["gvxx"], full["gvee" if f == "e" else "gvmumu"], width, me if f == "e" else mmu]

        calls = [("sigma_xx_to_v_to_pipi", th.sigma_xx_to_v_to_pipi, (), common), ("sigma_xx_to_v_to_pi0g", th.sigma_xx_to_v_to_pi0g, (), common),
                 ("sigma_xx_to_v_to_pi0v", th.sigma_xx_to_v_to_pi0v, (), common), ("sigma_xx_to_vv", th.sigma_xx_to_vv, (), common),
                 ("thermal_cross_section", th.thermal_cross_section, (), common),
                 ("sigma_xx_to_v_to_ff", th.sigma_xx_to_v_to_ff, ("e",), lepton("e")),
                 ("sigma_xx_to_v_to_ff", th.sigma_xx_to_v_to_ff, ("mu",), lepton("mu"))]
        funcs = th.annihilation_cross_section_funcs()
        env.claim("channels", sorted(funcs) == sorted(["mu mu", "e e", "pi pi", "pi0 g", "pi0 v", "v v"]))
        env.claim("listed channels", set(th.list_annihilation_final_states()) <= set(funcs))
        for c, k, a in (("mu mu", "sigma_xx_to_v_to_ff", lepton("mu")), ("e e", "sigma_xx_to_v_to_ff", lepton("e")),
                        ("pi pi", "sigma_xx_to_v_to_pipi", common), ("pi0 g", "sigma_xx_to_v_to_pi0g", common),
                        ("pi0 v", "sigma_xx_to_v_to_pi0v", common), ("v v", "sigma_xx_to_vv", common)):
            calls.append((k, funcs[c], (), a))
        for k, meth, extra, want in calls:
            log.clear()
            out = meth(q, *extra)
            env.claim(f"{k} kernel", [n for n, _ in log] == [k])
            same_args(env, f"{k} {extra}", log[0][1], want)
            env.eq(f"{k} value", out, env.real("out " + k, 0, 1))
        for n in fixed:
            env.raises(f"derived {n}", AttributeError, lambda: setattr(th, n, 0.1))
    return fn


OLD = dict(mx=250.0, mv=900.0, gvxx=0.5, gvuu=0.7, gvdd=-0.3, gvss=0.2, gvee=0.4, gvmumu=0.1)


def make(env, stable=False):
    """A model whose widths are arbitrary."""
    import hazma.vector_mediator as vm

    keys = ["pi pi", "pi0 g", "x x", "e e", "mu mu"]
    w = {k: env.real("w " + k, 0, 10) for k in keys}
    if stable and env.choose("mediator", ["decays", "stable"]) == "stable":
        w = {k: 0.0 for k in keys}
    w["total"] = sum(w.values())
    env.patch(vm.VectorMediator, "partial_widths", lambda self: dict(w))
    mx, mv = env.real("mx", 0.1, 1e4), env.real("mv", 0.1, 1e4)
    return vm.VectorMediator(mx, mv, *(env.real(n, -10, 10) for n in NAMES[2:])), w, mx, mv


def radiation(kind):
    def fn(env):
        """Final-state radiation of leptons and pions, only while photon, pair and dark matter are kinematically allowed."""
        from hazma.parameters import alpha_em, charged_pion_mass as mpi, electron_mass as me, muon_mass as mmu

        th, _, mx, _ = make(env)
        m = {"e": me, "mu": mmu, "pi": mpi}[kind]
        q = env.real("q", 0.1, 1e5)
        n = env.choose("energies", ["scalar", 2])
        es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
        env.assume(q != 2 * mx)
        want = []
        for e in es:
            s = q * q - 2 * q * e
            env.assume(s != 4 * m * m)
            if s > 4 * m * m and q > 2 * mx and q > 2 * m:
                want.append(fsr(env, "vector pipi" if kind == "pi" else "vector ff", e, q, m, alpha_em))
            else:
                want.append(0.0)
        arg = es[0] if n == "scalar" else env.array(es)
        out = th.dnde_xx_to_v_to_pipig(arg, q) if kind == "pi" else th.dnde_xx_to_v_to_ffg(arg, q, kind)
        out = [out] if n == "scalar" else list(out)
        env.claim("shape", len(out) == len(es))
        for o, v in zip(out, want):
            env.eq("radiation", o, v, rtol=1e-6)
    return fn


def vector(env, f):
    return lambda es: env.array([f(e) for e in es]) if hasattr(es, "__len__") and getattr(es, "shape", 1) != () else f(es)


def photons(env):
    """Every channel's photons: its own radiation plus its own decay products at their two-body energies."""
    import hazma.vector_mediator as vm
    from hazma import spectra as sp
    from hazma.parameters import neutral_pion_mass as mpi0

    th, w, mx, mv = make(env, stable=True)
    D = {k: env.uf("decay " + k, 0, 1) for k in ("muon", "neutral_pion", "charged_pion", "vector")}
    R = {k: env.uf("fsr " + k, 0, 1) for k in ("e", "mu", "pi")}
    for k in ("muon", "neutral_pion", "charged_pion"):
        env.patch(sp, "dnde_photon_" + k, lambda es, ep, k=k: vector(env, lambda e: D[k](e, ep))(es))
    seen = []

    def boosted(es, e, m, pws, fs):
        seen.append((e, m, list(pws), fs))
        return vector(env, lambda v: D["vector"](v, e))(es)

    for k in ("dnde_decay_v", "dnde_decay_v_pt"):
        env.patch(load.STUBS, ("vector_mediator_decay_spectrum", k), boosted)
    env.patch(vm.VectorMediator, "dnde_xx_to_v_to_ffg", lambda self, es, q, f: vector(env, lambda e: R[f](e, q))(es))
    env.patch(vm.VectorMediator, "dnde_xx_to_v_to_pipig", lambda self, es, q: vector(env, lambda e: R["pi"](e, q))(es))
    q = env.real("q", 0.1, 1e5)
    n = env.choose("energies", ["scalar", 2])
    es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
    arg = es[0] if n == "scalar" else env.array(es)
    # a number and a zero-dimensional array are both accepted for a scalar
    items = lambda o: list(env.np.ravel(o)) if hasattr(o, "shape") else ([o] if n == "scalar" else list(o))  # noqa: E731
    change(env, th, w, lambda th: [f(arg, q) for f in th.spectrum_funcs().values()], OLD)
    seen.clear()
    funcs = th.spectrum_funcs()
    fsr_ = {"e e": lambda e: R["e"](e, q), "mu mu": lambda e: R["mu"](e, q), "pi0 g": lambda e: 0.0, "pi pi": lambda e: R["pi"](e, q)}
    dec = {"e e": lambda e: 0.0, "mu mu": lambda e: 2 * D["muon"](e, q / 2),
           "pi0 g": lambda e: D["neutral_pion"](e, (q * q + mpi0 * mpi0) / (2 * q)),
           "pi pi": lambda e: 2 * D["charged_pion"](e, q / 2)}
    env.claim("channels", sorted(funcs) == sorted([*fsr_, "pi0 v", "v v"]))
    for k in fsr_:
        f = funcs[k]
        for kind in ("all", "fsr", "decay"):
            out = items(f(arg, q) if kind == "all" else f(arg, q, kind))
            env.claim("shape", len(out) == len(es))
            for e, o in zip(es, out):
                env.eq(f"{k} {kind}", o, (fsr_[k](e) if kind != "decay" else 0.0) + (dec[k](e) if kind != "fsr" else 0.0))
        env.raises(f"{k} type", ValueError, lambda: f(arg, q, "other"))
    on = w["total"] != 0
    ep, ev = (q * q + mpi0 * mpi0 - mv * mv) / (2 * q), (q * q - mpi0 * mpi0 + mv * mv) / (2 * q)
    for k, energy in (("v v", q / 2), ("pi0 v", ev)):
        seen.clear()
        out = items(funcs[k](arg, q))
        for e, o in zip(es, out):
            v = D["vector"](e, energy) if on else 0.0
            env.eq(k, o, 2 * v if k == "v v" else v + D["neutral_pion"](e, ep))
        env.claim("decay called", bool(seen) == bool(on))
        if seen:
            e, m, pws, fs = seen[0]
            env.eq("mediator energy", e, energy)
            env.eq("mediator mass", m, mv)
            env.claim("selection", fs == "total")
            for c, v in zip(("e e", "mu mu", "pi0 g", "pi pi"), pws):
                env.eq(f"branching fraction {c}", v * w["total"], w[c])


def positrons(env):
    """Positrons of every channel and the lines' positions and branching fractions."""
    import hazma.vector_mediator as vm
    from hazma import spectra as sp
    from hazma.parameters import neutral_pion_mass as mpi0

    th, w, mx, mv = make(env, stable=True)
    D = {k: env.uf("decay " + k, 0, 1) for k in ("muon", "charged_pion", "vector")}
    for k in ("muon", "charged_pion"):
        env.patch(sp, "dnde_positron_" + k, lambda es, ep, k=k: vector(env, lambda e: D[k](e, ep))(es))
    seen = []

    def boosted(es, e, m, pws, fs):
        seen.append((e, m, list(pws), fs))
        return vector(env, lambda v: D["vector"](v))(es)

    env.patch(load.STUBS, ("vector_mediator_positron_spec", "dnde_decay_v"), boosted)
    q = env.real("q", 0.1, 1e5)
    n = env.choose("energies", ["scalar", 2])
    es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
    arg = es[0] if n == "scalar" else env.array(es)
    items = lambda o: list(env.np.ravel(o)) if hasattr(o, "shape") else ([o] if n == "scalar" else list(o))  # noqa: E731
    change(env, th, w, lambda th: [f(arg, q) for f in th.positron_spectrum_funcs().values()], OLD)
    seen.clear()
    funcs = th.positron_spectrum_funcs()
    env.claim("channels", sorted(funcs) == ["mu mu", "pi pi", "v v"])
    for k, d in (("mu mu", "muon"), ("pi pi", "charged_pion")):
        for e, o in zip(es, items(funcs[k](arg, q))):
            env.eq(k, o, D[d](e, q / 2))
    on = w["total"] != 0
    for e, o in zip(es, items(funcs["v v"](arg, q))):
        env.eq("two mediators", o, 2 * D["vector"](e) if on else 0.0)
    if on:
        e, m, pws, fs = seen[0]
        env.eq("mediator energy", e, q / 2)
        env.eq("mediator mass", m, mv)
        env.claim("selection", fs == "total" and len(pws) == 3)
        for k, v in zip(("e e", "mu mu", "pi pi"), pws):
            env.eq(f"branching fraction {k}", v * w["total"], w[k])
    bf = {k: env.real("bf " + k, 0, 1) for k in ("mu mu", "e e", "pi pi", "pi0 g", "pi0 v", "v v")}
    env.patch(vm.VectorMediator, "annihilation_branching_fractions", lambda self, e: {k: (v if e is q else 9.0) for k, v in bf.items()})
    for name, k, lines, e in (("positron", "e e", th.positron_lines(q), q / 2),
                              ("photon", "pi0 g", th.gamma_ray_lines(q), (q * q - mpi0 * mpi0) / (2 * q))):
        env.claim(f"{name} lines", list(lines) == [k])
        env.eq(f"{name} line energy", lines[k]["energy"], e)
        env.eq(f"{name} line branching fraction", lines[k]["bf"], bf[k])


def scatter(env):
    """x xbar -> x xbar from the traces of both channels."""
    from hazma.vector_mediator import _vector_mediator_cross_sections as cs

    th, w, mx, mv = make(env)
    env.assume(w["total"] >= 1e-3)
    self_interaction(env, "vector", cs, th.sigma_xx_to_v_to_xx, mv, w["total"], mx, th.gvxx)


def three_pions(env):
    """Where it is open the differential cross section is a number, not negative and not an error."""
    from hazma import parameters as P

    th, w, mx, mv = make(env)
    mpi, mpi0 = P.charged_pion_mass, P.neutral_pion_mass
    q = env.real("q", 2 * mpi + mpi0 + 1, 2000)
    s = env.real("s", 4 * mpi * mpi + 1, None)
    env.assume(s < (q - mpi0) ** 2 - 1)
    env.assume(q > 2 * mx + 1)
    env.assume(w["total"] >= 1e-3)
    try:
        x = th.dsigma_ds_xx_to_v_to_pi0pipi(s, q)
    except AssertionError:
        env.claim("three pions", False)
        return
    env.ge("three pions", x, 0.0)


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("widths", widths, **dict(kw, sym_consts=True))]
    out += [Case(f"state {m}", model_state(m), **kw) for m in ("general", "kinetic mixing", "quarks only")]
    out += [Case(f"radiation {k}", radiation(k), **dict(kw, sym_consts=True)) for k in ("e", "mu", "pi")]
    out += [Case("photons", photons, **kw), Case("positrons and lines", positrons, **kw),
            Case("self interaction", scatter, **kw), Case("three pions", three_pions, **kw)]
    return out
