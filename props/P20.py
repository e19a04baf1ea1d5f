"""Scalar mediator models."""
from vf import load
from vf.harness import Case

from props._mediator import change, fsr, recorder, same_args, self_interaction

PROPERTY = "P20"
BOUNDS = ("any masses, couplings, scale and energies; every parameter of the three models set one or two at a time; "
          "1 to 2 energies per call")
ASSUMPTIONS = ["real arithmetic; exp, log and square roots are exact functions",
               "log((1+b)/(1-b)) >= 2b + 2b^3/3 for 0 < b < 1",
               "compiled cross sections and boosted decay spectra are arbitrary functions of their arguments"]
FUNCTIONS = ["hazma.scalar_mediator.ScalarMediator.*", "hazma.scalar_mediator.HiggsPortal.*", "hazma.scalar_mediator.HeavyQuark.*",
             "hazma.scalar_mediator._scalar_mediator_widths.*", "hazma.scalar_mediator._scalar_mediator_fsr.*",
             "hazma.scalar_mediator._scalar_mediator_spectra.*", "hazma.scalar_mediator._scalar_mediator_positron_spectra.*",
             "hazma.scalar_mediator._scalar_mediator_constraints.*",
             "hazma.scalar_mediator._scalar_mediator_cross_sections.*"]

NAMES = ["mx", "ms", "gsxx", "gsff", "gsGG", "gsFF", "lam"]


def params(env, tag=""):
    g = lambda n: env.real(n + tag, -10, 10)  # noqa: E731
    return dict(mx=env.real("mx" + tag, 0.1, 1e4), ms=env.real("ms" + tag, 0.1, 1e4), gsxx=g("gsxx"), gsff=g("gsff"), gsGG=g("gsGG"),
                gsFF=g("gsFF"), lam=env.real("lam" + tag, 1e2, 1e7))


def want_widths(env, p):
    """Squared amplitude times two-body phase space for every channel."""
    from hazma import parameters as P

    np, pi = env.np, env.pi
    ms = p["ms"]
    mq = P.up_quark_mass + P.down_quark_mass

    def pion(m, sym):
        if not ms > 2 * m:
            return 0.0
        a = 2 * p["gsGG"] / (9 * p["lam"]) * (ms * ms - 2 * m * m) + P.b0 * mq * (2 * p["gsGG"] / (3 * p["lam"]) + p["gsff"] / P.vh)
        return sym * a * a * np.sqrt(ms * ms - 4 * m * m) / (16 * pi * ms * ms)

    def fermion(g, m):
        if not ms > 2 * m:
            return 0.0
        k = np.sqrt(ms * ms - 4 * m * m)
        return g * g * k * k * k / (8 * pi * ms * ms)

    w = {"g g": P.alpha_em**2 * p["gsFF"] ** 2 * ms**3 / (64 * p["lam"] ** 2 * pi**3),
         "pi0 pi0": pion(P.neutral_pion_mass, 0.5), "pi pi": pion(P.charged_pion_mass, 1.0),
         "x x": fermion(p["gsxx"], p["mx"]),
         "e e": fermion(p["gsff"] * P.electron_mass / P.vh, P.electron_mass),
         "mu mu": fermion(p["gsff"] * P.muon_mass / P.vh, P.muon_mass)}
    return w


def widths(env):
    from hazma.scalar_mediator import ScalarMediator

    p = params(env)
    if env.choose("history", ["construct", "change"]) == "construct":
        th = ScalarMediator(**p)
    else:
        # the widths were asked for before the parameters changed
        th = ScalarMediator(250.0, 900.0, 0.5, 0.7, -0.3, 0.2, 5e4)
        th.partial_widths()
        for k in ("gg", "pi0pi0", "pipi", "xx"):
            getattr(th, f"width_s_to_{k}")()
        for k in ("e", "mu"):
            th.width_s_to_ff(k)
        for k, v in p.items():
            setattr(th, k, v)
        th.partial_widths()
    got, want = th.partial_widths(), want_widths(env, p)
    env.claim("channels", sorted(got) == sorted([*want, "total"]))
    for k, w in want.items():
        env.eq(k, got[k], w, rtol=1e-9)
    env.eq("total", got["total"], sum(got[k] for k in want))
    env.eq("stored width", th.width_s, got["total"])


def build(env, model, tag):
    from hazma.parameters import vh
    from hazma.scalar_mediator import HeavyQuark, HiggsPortal, ScalarMediator

    if model == "general":
        p = params(env, tag)
        return ScalarMediator, p, p
    mx, ms, gsxx = env.real("mx" + tag, 0.1, 1e4), env.real("ms" + tag, 0.1, 1e4), env.real("gsxx" + tag, -10, 10)
    if model == "higgs":
        s = env.real("stheta" + tag, -0.99, 0.99)
        return (HiggsPortal, dict(mx=mx, ms=ms, gsxx=gsxx, stheta=s),
                dict(mx=mx, ms=ms, gsxx=gsxx, gsff=s, gsGG=3 * s, gsFF=-5 * s / 6, lam=vh))
    g, m, q = env.real("gsQ" + tag, -10, 10), env.real("mQ" + tag, 1e2, 1e7), env.real("QQ" + tag, -2, 2)
    return (HeavyQuark, dict(mx=mx, ms=ms, gsxx=gsxx, gsQ=g, mQ=m, QQ=q),
            dict(mx=mx, ms=ms, gsxx=gsxx, gsff=0.0, gsGG=g, gsFF=2 * g * q * q, lam=m))


KERNELS = ["sigma_ss_to_xx", "sigma_xg_to_xg", "sigma_xl_to_xl", "sigma_xpi0_to_xpi0", "sigma_xpi_to_xpi", "sigma_xs_to_xs",
           "sigma_xx_to_s_to_ff", "sigma_xx_to_s_to_gg", "sigma_xx_to_s_to_pi0pi0", "sigma_xx_to_s_to_pipi", "sigma_xx_to_ss",
           "thermal_cross_section"]


def stub_kernels(env):
    log = []
    for k in KERNELS:
        env.patch(load.STUBS, ("scalar_mediator", k), recorder(log, k, env.real("out " + k, 0, 1)))
    return log


LEPTONS = ["sigma_xl_to_xl", "sigma_xx_to_s_to_ff", "sigma_xx_to_v_to_ff"]
METHODS = KERNELS


def model_state(model):
    def fn(env):
        """Setting parameters one after the other ends in the constructed model, as its kernels see it."""
        from hazma.parameters import electron_mass as me
        from hazma.parameters import muon_mass as mmu

        w = {}

        def pw(self):
            # any width function of the seven parameters
            a = tuple(getattr(self, n) for n in NAMES)
            return {"total": env.uf("width", 0, 1)(*a), "a": a}

        import hazma.scalar_mediator as sm
        env.patch(sm.ScalarMediator, "partial_widths", pw)
        log = stub_kernels(env)
        cls, new, full = build(env, model, "")
        _, old, _ = build(env, model, " old")
        def ask(th):
            """Everything that is asked again after the change."""
            q = env.real("q", 0.1, 1e5)
            for name in dir(cls):
                if name.startswith("sigma_") and name in METHODS or name == "thermal_cross_section":
                    for a in (("e",), ("mu",)) if name in LEPTONS else ((),):
                        getattr(th, name)(q, *a)
            for g in th.annihilation_cross_section_funcs().values():
                g(q)
            th.annihilation_cross_sections(q)
            if hasattr(th, "elastic_scattering_cross_sections"):
                th.elastic_scattering_cross_sections(q)
            th.partial_widths()

        n1 = env.choose("set", ["construct", *new])
        th = cls(**new)
        if n1 != "construct":
            n2 = env.choose("then", [n for n in new if n > n1] + ["none"])
            start = dict(new)
            start[n1] = old[n1]
            if n2 != "none":
                start[n2] = old[n2]
            th = cls(**start)
            ask(th)
            setattr(th, n1, new[n1])
            if n2 != "none":
                setattr(th, n2, new[n2])
        for n in NAMES:
            env.eq(n, getattr(th, n), full[n])
        for n, v in new.items():
            env.eq(n, getattr(th, n), v)
        width = env.uf("width", 0, 1)(*(full[n] for n in NAMES))
        env.eq("width", th.width_s, width)
        env.eq("vev", th.vs, 0.0)
        q = env.real("q", 0.1, 1e5)
        common = [q, *(full[n] for n in NAMES), width, 0.0]
        calls = [("sigma_xx_to_s_to_gg", th.sigma_xx_to_s_to_gg, (), ()), ("sigma_xx_to_s_to_pi0pi0", th.sigma_xx_to_s_to_pi0pi0, (), ()),
                 ("sigma_xx_to_s_to_pipi", th.sigma_xx_to_s_to_pipi, (), ()), ("sigma_xx_to_ss", th.sigma_xx_to_ss, (), ()),
                 ("sigma_xpi_to_xpi", th.sigma_xpi_to_xpi, (), ()), ("sigma_xpi0_to_xpi0", th.sigma_xpi0_to_xpi0, (), ()),
                 ("sigma_xg_to_xg", th.sigma_xg_to_xg, (), ()), ("sigma_xs_to_xs", th.sigma_xs_to_xs, (), ()),
                 ("sigma_ss_to_xx", th.sigma_ss_to_xx, (), ()), ("thermal_cross_section", th.thermal_cross_section, (), ())]
        for f, m in (("e", me), ("mu", mmu)):
            calls += [("sigma_xx_to_s_to_ff", th.sigma_xx_to_s_to_ff, (f,), (m,)), ("sigma_xl_to_xl", th.sigma_xl_to_xl, (f,), (m,))]
        for k, meth, extra, tail in calls:
            log.clear()
            out = meth(q, *extra)
            env.claim(f"{k} kernel", [n for n, _ in log] == [k])
            same_args(env, f"{k} {extra}", log[0][1], [*common, *tail])
            env.eq(f"{k} value", out, env.real("out " + k, 0, 1))
        funcs = th.annihilation_cross_section_funcs()
        fs = {"mu mu": ("sigma_xx_to_s_to_ff", mmu), "e e": ("sigma_xx_to_s_to_ff", me), "g g": ("sigma_xx_to_s_to_gg", None),
              "pi0 pi0": ("sigma_xx_to_s_to_pi0pi0", None), "pi pi": ("sigma_xx_to_s_to_pipi", None), "s s": ("sigma_xx_to_ss", None)}
        env.claim("listed channels", set(th.list_annihilation_final_states()) <= set(fs) and set(funcs) == set(fs))
        for k, (kern, m) in fs.items():
            log.clear()
            funcs[k](q)
            env.claim(f"{k} kernel", [n for n, _ in log] == [kern])
            same_args(env, k, log[0][1], common + ([m] if m is not None else []))
        log.clear()
        el = th.elastic_scattering_cross_sections(q)
        for k, kern in (("pi", "sigma_xpi_to_xpi"), ("pi0", "sigma_xpi0_to_xpi0"), ("e", "sigma_xl_to_xl"), ("mu", "sigma_xl_to_xl"),
                        ("g", "sigma_xg_to_xg"), ("s", "sigma_xs_to_xs")):
            env.eq(f"elastic {k}", el[k], env.real("out " + kern, 0, 1))
        env.claim("elastic masses", [a[-1] for n, a in log if n == "sigma_xl_to_xl"] == [me, mmu])
        for n in ("gsff", "gsGG", "gsFF"):
            if model != "general":
                env.raises(f"derived {n}", AttributeError, lambda: setattr(th, n, 0.1))
    return fn


OLD = dict(mx=250.0, ms=900.0, gsxx=0.5, stheta=0.3)


def make(env, ms=None, mx=None, stable=False):
    """A model whose widths are arbitrary."""
    import hazma.scalar_mediator as sm

    keys = ["g g", "pi0 pi0", "pi pi", "x x", "e e", "mu mu"]
    w = {k: env.real("w " + k, 0, 10) for k in keys}
    if stable and env.choose("mediator", ["decays", "stable"]) == "stable":
        w = {k: 0.0 for k in keys}
    w["total"] = sum(w.values())
    env.patch(sm.ScalarMediator, "partial_widths", lambda self: dict(w))
    ms = env.real("ms", 0.1, 1e4) if ms is None else ms
    mx = env.real("mx", 0.1, 1e4) if mx is None else mx
    s = env.real("stheta", 1e-6, 0.99)
    return sm.HiggsPortal(mx, ms, env.real("gsxx", -10, 10), s), w, ms, mx, s


def radiation(kind):
    def fn(env):
        """Final-state radiation of fermions and pions, only while photon, pair and dark matter are kinematically allowed."""
        from hazma.parameters import alpha_em, charged_pion_mass as mpi, electron_mass as me, muon_mass as mmu

        th, _, _, mx, _ = make(env)
        m = {"e": me, "mu": mmu, "pi": mpi}[kind]
        q = env.real("q", 0.1, 1e5)
        n = env.choose("energies", ["scalar", 2])
        es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
        want = []
        for e in es:
            s = q * q - 2 * q * e
            env.assume(s != 4 * m * m)
            if s > 4 * m * m and q >= 2 * mx and q > 2 * m:
                env.assume(q != 2 * mx)
                want.append(fsr(env, "scalar pipi" if kind == "pi" else "scalar ff", e, q, m, alpha_em))
            else:
                want.append(0.0)
        arg = es[0] if n == "scalar" else env.array(es)
        out = th.dnde_xx_to_s_to_pipig(arg, q) if kind == "pi" else th.dnde_xx_to_s_to_ffg(arg, q, m)
        out = [out] if n == "scalar" else list(out)
        env.claim("shape", len(out) == len(es))
        for o, v in zip(out, want):
            env.eq("radiation", o, v, rtol=1e-6)
    return fn


def photons(env):
    """Every channel's photons: its own radiation plus its own decay products at half the energy."""
    import hazma.scalar_mediator as sm
    from hazma import spectra as sp
    from hazma.parameters import electron_mass as me, muon_mass as mmu

    th, w, ms, mx, _ = make(env, stable=True)
    D = {k: env.uf("decay " + k, 0, 1) for k in ("muon", "neutral_pion", "charged_pion", "scalar")}
    R = {k: env.uf("fsr " + k, 0, 1) for k in ("ff", "pi")}
    vec = lambda f, es: env.array([f(e) for e in es]) if hasattr(es, "__len__") else f(es)  # noqa: E731
    for k in ("muon", "neutral_pion", "charged_pion"):
        env.patch(sp, "dnde_photon_" + k, lambda es, ep, k=k: vec(lambda e: D[k](e, ep), es))
    seen = []

    def boosted(es, e, m, pws, modes):
        seen.append((e, m, list(pws), list(modes)))
        return vec(lambda v: D["scalar"](v), es)

    env.patch(load.STUBS, ("hazma.scalar_mediator.scalar_mediator_decay_spectrum".split(".")[-1], "scalar_mediator_decay_spectrum"), boosted)
    env.patch(sm.ScalarMediator, "dnde_xx_to_s_to_ffg", lambda self, es, q, m: vec(lambda e: R["ff"](e, q, m), es))
    env.patch(sm.ScalarMediator, "dnde_xx_to_s_to_pipig", lambda self, es, q: vec(lambda e: R["pi"](e, q), es))
    q = env.real("q", 0.1, 1e5)
    n = env.choose("energies", ["scalar", 2])
    es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
    arg = es[0] if n == "scalar" else env.array(es)
    change(env, th, w, lambda th: [f(arg, q) for f in th.spectrum_funcs().values()], OLD)
    seen.clear()
    funcs = th.spectrum_funcs()
    fsr_ = {"e e": lambda e: R["ff"](e, q, me), "mu mu": lambda e: R["ff"](e, q, mmu), "pi0 pi0": lambda e: 0.0,
            "pi pi": lambda e: R["pi"](e, q)}
    dec = {"e e": lambda e: 0.0, "mu mu": lambda e: 2 * D["muon"](e, q / 2), "pi0 pi0": lambda e: 2 * D["neutral_pion"](e, q / 2),
           "pi pi": lambda e: 2 * D["charged_pion"](e, q / 2)}
    env.claim("channels", sorted(funcs) == sorted([*fsr_, "s s"]))
    for k, f in funcs.items():
        if k == "s s":
            continue
        for kind in ("all", "fsr", "decay"):
            out = f(arg, q) if kind == "all" else f(arg, q, kind)
            out = [out] if n == "scalar" else list(out)
            for e, o in zip(es, out):
                env.eq(f"{k} {kind}", o, (fsr_[k](e) if kind != "decay" else 0.0) + (dec[k](e) if kind != "fsr" else 0.0))
        env.raises(f"{k} type", ValueError, lambda: f(arg, q, "other"))
    out = funcs["s s"](arg, q)
    out = [out] if n == "scalar" else list(out)
    on = w["total"] != 0
    for e, o in zip(es, out):
        env.eq("two mediators", o, 2 * D["scalar"](e) if on else 0.0)
    if on:
        e, m, pws, modes = seen[0]
        env.eq("mediator energy", e, q / 2)
        env.eq("mediator mass", m, ms)
        for k, v in zip(("e e", "mu mu", "pi0 pi0", "pi pi", "g g"), pws):
            env.eq(f"branching fraction {k}", v * w["total"], w[k])
        env.claim("all modes", sorted(modes) == sorted(["pi pi", "mu mu", "pi0 pi0", "g g", "e e g", "pi pi g", "mu mu g"]))


def positrons(env):
    """Positrons of every channel and the lines' positions and branching fractions."""
    import hazma.scalar_mediator as sm
    from hazma import spectra as sp

    th, w, ms, mx, _ = make(env, stable=True)
    D = {k: env.uf("decay " + k, 0, 1) for k in ("muon", "charged_pion", "scalar")}
    vec = lambda f, es: env.array([f(e) for e in es]) if hasattr(es, "__len__") else f(es)  # noqa: E731
    for k in ("muon", "charged_pion"):
        env.patch(sp, "dnde_positron_" + k, lambda es, ep, k=k: vec(lambda e: D[k](e, ep), es))
    seen = []

    def boosted(es, e, m, pws, fs):
        seen.append((e, m, list(pws), fs))
        return vec(lambda v: D["scalar"](v), es)

    env.patch(load.STUBS, ("scalar_mediator_positron_spec", "dnde_decay_s"), boosted)
    q = env.real("q", 0.1, 1e5)
    n = env.choose("energies", ["scalar", 2])
    es = [env.real(f"e{i}", 1e-3, 1e5) for i in range(1 if n == "scalar" else n)]
    arg = es[0] if n == "scalar" else env.array(es)
    change(env, th, w, lambda th: [f(arg, q) for f in th.positron_spectrum_funcs().values()], OLD)
    seen.clear()
    funcs = th.positron_spectrum_funcs()
    env.claim("channels", sorted(funcs) == ["mu mu", "pi pi", "s s"])
    for k, d in (("mu mu", "muon"), ("pi pi", "charged_pion")):
        out = funcs[k](arg, q)
        for e, o in zip(es, [out] if n == "scalar" else list(out)):
            env.eq(k, o, D[d](e, q / 2))
    out = funcs["s s"](arg, q)
    on = w["total"] != 0
    for e, o in zip(es, [out] if n == "scalar" else list(out)):
        env.eq("two mediators", o, 2 * D["scalar"](e) if on else 0.0)
    if on:
        e, m, pws, fs = seen[0]
        env.eq("mediator energy", e, q / 2)
        env.eq("mediator mass", m, ms)
        env.claim("selection", fs == "total" and len(pws) == 3)
        for k, v in zip(("e e", "mu mu", "pi pi"), pws):
            env.eq(f"branching fraction {k}", v * w["total"], w[k])
    bf = {k: env.real("bf " + k, 0, 1) for k in ("e e", "g g", "mu mu", "pi pi", "pi0 pi0", "s s")}
    env.patch(sm.ScalarMediator, "annihilation_branching_fractions", lambda self, e: {k: (v if e is q else 9.0) for k, v in bf.items()})
    for name, k, lines in (("positron", "e e", th.positron_lines(q)), ("photon", "g g", th.gamma_ray_lines(q))):
        env.claim(f"{name} lines", list(lines) == [k])
        env.eq(f"{name} line energy", lines[k]["energy"], q / 2)
        env.eq(f"{name} line branching fraction", lines[k]["bf"], bf[k])


def rates(env, th, ms, s):
    """Widths of mesons into the mediator."""
    from hazma import parameters as P

    np, pi = env.np, env.pi
    m2 = ms * ms

    def p2(m, d):
        return (m * m - (d + ms) ** 2) * (m * m - (d - ms) ** 2)

    def h(mq, v):
        return 3 * 2 ** 0.5 * mq * P.GF * P.top_quark_mass**2 * v / (32 * 3.141592653589793**2 * P.vh)

    msq, mbq, mdq, mB, mk, mpi, mkl, mpi0 = (P.strange_quark_mass, P.bottom_quark_mass, P.down_quark_mass, P.charged_B_mass,
                                             P.charged_kaon_mass, P.charged_pion_mass, P.long_kaon_mass, P.neutral_pion_mass)
    hb = h(msq + mbq, complex(P.Vts).conjugate() * P.Vtb)
    hd = h(msq + mdq, complex(P.Vts).conjugate() * P.Vtd)
    w = dict(bk=0.0, bxs=0.0, k=0.0, kl=0.0)
    if ms <= mB - mk:
        f0 = 0.33 / (1 - m2 / 38e6)
        w["bk"] = abs(hb) ** 2 * s * s * f0**2 * ((mB**2 - mk**2) / (mbq - msq)) ** 2 * np.sqrt(p2(mB, mk)) / (16 * pi * mB**3)
        w["bxs"] = abs(hb) ** 2 * s * s * (mbq**2 - m2) ** 2 / (8 * pi * mbq**3)
    if ms < mk - mpi:
        w["k"] = abs(hd) ** 2 * s * s * ((mk**2 - mpi**2) / (msq - mdq)) ** 2 * np.sqrt(p2(mk, mpi)) / (16 * pi * mk**3)
    if ms < mkl - mpi0:
        w["kl"] = hd.imag**2 * s * s * ((mkl**2 - mpi0**2) / (msq - mdq)) ** 2 * np.sqrt(p2(mkl, mpi0)) / (16 * pi * mkl**3)
    return w


def meson_widths(env):
    """Rare meson decays into the mediator and invisible Higgs decays: coupling squared times phase space, zero when closed."""
    from hazma import parameters as P

    th, _, ms, mx, s = make(env)
    for m, d in ((P.charged_B_mass, P.charged_kaon_mass), (P.charged_kaon_mass, P.charged_pion_mass),
                 (P.long_kaon_mass, P.neutral_pion_mass)):
        env.assume((ms - (m - d)) ** 2 > 1)  # rounding cancels the momentum closer to threshold
    w = rates(env, th, ms, s)
    env.eq("B -> K S", th.width_B_k_s(), w["bk"], rtol=1e-8)
    env.eq("B -> Xs S", th.width_B_xs_s(), w["bxs"], rtol=1e-8)
    env.eq("K -> pi S", th.width_k_pi_s(), w["k"], rtol=1e-8)
    env.eq("KL -> pi0 S", th.width_kl_pi0_s(), w["kl"], rtol=1e-8)


def higgs(env):
    from hazma import constraint_parameters as C
    from hazma.parameters import higgs_mass as mh

    np = env.np
    th, _, ms, mx, s = make(env, mx=env.real("mx", 0.1, 1e5))
    change(env, th, {"total": 0.0}, lambda th: (th.width_h_invis(), th.constraint_higgs_invis()), OLD)
    want = 0.0
    if mh > 2 * mx:
        want = th.gsxx**2 * s * s / (1 - s * s) * (mh**2 - 4 * mx * mx) * np.sqrt(mh**2 - 4 * mx * mx) / (8 * env.pi * mh**2)
    env.eq("h -> x x", th.width_h_invis(), want, rtol=1e-8)
    env.eq("limit", th.constraint_higgs_invis(), C.higgs_width * C.br_higgs_invis - want, rtol=1e-6, atol=1e-12)


def searches(which):
    def fn(env):
        """Limit minus predicted rate: production times the chance that the mediator decays as the search requires."""
        from hazma import constraint_parameters as C
        from hazma import parameters as P
        import hazma.scalar_mediator as sm

        np = env.np
        th, w, ms, mx, s = make(env)
        env.assume(w["total"] > 0)
        prod = {k: env.real("rate " + k, 0, 1) for k in ("bk", "bxs", "k", "kl")}
        for k, n in (("bk", "width_B_k_s"), ("bxs", "width_B_xs_s"), ("k", "width_k_pi_s"), ("kl", "width_kl_pi0_s")):
            env.patch(sm.ScalarMediator, n, lambda self, k=k: prod[k])
        if which == "B -> k invis":
            change(env, th, w, lambda th: [g() for g in th.constraints().values()], OLD)
        c = th.constraints()
        env.claim("searches", sorted(c) == sorted(["B -> k invis", "B -> k mu mu", "k -> pi invis", "kl -> pi0 mu mu", "kl -> pi0 e e",
                                                  "higgs -> invis", "CHARM"]))
        if which == "CHARM":
            bd = C.bd_charm
            env.assume(ms < bd.mediator_energy)
            gb = np.sqrt((bd.mediator_energy / ms) ** 2 - 1)
            m = 100 * P.cm_to_inv_MeV
            made = bd.br_pN_k * (0.5 * prod["k"] / P.k_width + 0.25 * prod["kl"] / P.kl_width) + bd.br_pN_B * prod["bxs"] / P.B_width
            at = np.exp(-bd.dist * m * w["total"] / gb) * (1 - np.exp(-bd.length * m * w["total"] / gb))
            vis = sum(w[k] for k in bd.visible_fss) / w["total"]
            env.claim("visible channels", all(k in w for k in bd.visible_fss))
            a, b = c[which](), bd.n_dec - bd.n_pot * made * at * vis
            env.eq("limit minus events", a, b, rtol=1e-6, atol=1e-9)
            return
        mm, d, obs, k, fs = {"B -> k invis": (P.charged_B_mass, P.charged_kaon_mass, C.B_k_invis_obs, "bk", None),
                             "B -> k mu mu": (P.charged_B_mass, P.charged_kaon_mass, C.B_k_mu_mu_obs, "bk", "mu mu"),
                             "B -> k e e": (P.charged_B_mass, P.charged_kaon_mass, C.B_k_e_e_obs, "bk", "e e"),
                             "k -> pi invis": (P.charged_kaon_mass, P.charged_pion_mass, C.k_pi_invis_obs, "k", None),
                             "kl -> pi0 mu mu": (P.long_kaon_mass, P.neutral_pion_mass, C.kl_pi0_mu_mu_obs, "kl", "mu mu"),
                             "kl -> pi0 e e": (P.long_kaon_mass, P.neutral_pion_mass, C.kl_pi0_e_e_obs, "kl", "e e")}[which]
        env.assume(ms < (mm - d) * (1 - 1e-6))
        f = c[which] if which in c else th.constraint_B_k_e_e
        got = f()
        want = obs.width_bound
        if any(lo <= ms * ms and ms * ms <= hi for lo, hi in obs.s_bounds):
            # distance travelled on average: momentum / (mass * width)
            p = np.sqrt((mm * mm - (d + ms) ** 2) * (mm * mm - (d - ms) ** 2)) / (2 * mm)
            out = np.exp(-obs.r_max * P.cm_to_inv_MeV * w["total"] * ms / p)
            if fs is None:
                sm_ = w["total"] - w["x x"]
                want = want - prod[k] * (w["x x"] + out * sm_) / w["total"]
            else:
                want = want - prod[k] * w[fs] / w["total"] * (1 - out)
        env.eq("limit minus rate", got, want, rtol=1e-6, atol=1e-20)
    return fn


def scatter(env):
    """x xbar -> x xbar from the traces of both channels."""
    from hazma.scalar_mediator import _scalar_mediator_cross_sections as cs

    th, w, ms, mx, _ = make(env)
    env.assume(w["total"] >= 1e-3)
    self_interaction(env, "scalar", cs, th.sigma_xx_to_s_to_xx, ms, w["total"], mx, th.gsxx)


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("widths", widths, **dict(kw, sym_consts=True))]
    out += [Case(f"state {m}", model_state(m), **kw) for m in ("general", "higgs", "heavy quark")]
    out += [Case(f"radiation {k}", radiation(k), **dict(kw, sym_consts=True)) for k in ("e", "mu", "pi")]
    out += [Case("photons", photons, **kw), Case("positrons and lines", positrons, **kw), Case("meson widths", meson_widths, **kw),
            Case("higgs", higgs, **kw), Case("self interaction", scatter, **kw)]
    kw = dict(kw, sym_consts=True)
    out += [Case(f"search {k}", searches(k), **kw) for k in ("B -> k invis", "B -> k mu mu", "B -> k e e", "k -> pi invis",
                                                            "kl -> pi0 mu mu", "kl -> pi0 e e", "CHARM")]
    return out
