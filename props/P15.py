"""Spectra of arbitrary final states."""
import numpy as np

from vf.harness import Case

PROPERTY = "P15"
BOUNDS = ("any energy above threshold, any product energy (1 or 2 per call); all single particles, every pair with one of six "
          "partners, twelve three-body and six larger states with energy and pair-mass distributions of 2 or 3 bins of any "
          "content; 2 or 3 sample energies for marginal spectra")
ASSUMPTIONS = ["decay spectra of single particles are arbitrary functions of the product energy and the particle's energy "
               "(the compiled kernels and tables are replaced at their boundary)",
               "phase-space distributions are arbitrary normalised histograms (their computation is P08-P10)"]
FUNCTIONS = ["hazma.spectra.dnde_photon", "hazma.spectra.dnde_positron", "hazma.spectra.dnde_neutrino",
             "hazma.spectra._nbody.*", "hazma.spectra.convolve.*"]

LONG = {"mu": "muon", "pi": "charged_pion", "pi0": "neutral_pion", "k": "charged_kaon", "kl": "long_kaon",
        "ks": "short_kaon", "eta": "eta", "etap": "eta_prime", "rho": "charged_rho", "rho0": "neutral_rho",
        "omega": "omega", "phi": "phi"}
MASS = {"e": "electron_mass", "ve": None, "vm": None, "vt": None, "mu": "muon_mass", "pi": "charged_pion_mass",
        "pi0": "neutral_pion_mass", "k": "charged_kaon_mass", "kl": "long_kaon_mass", "ks": "short_kaon_mass",
        "eta": "eta_mass", "etap": "eta_prime_mass", "rho": "rho_mass", "rho0": "rho_mass", "omega": "omega_mass",
        "phi": "phi_mass"}
STATES = list(MASS)
NONE = {"photon": ["e", "ve", "vm", "vt"], "positron": ["e", "ve", "vm", "vt", "pi0"],
        "neutrino": ["e", "ve", "vm", "vt", "pi0"]}
FLAVORS = ["e", "mu", "tau"]


def mass(s):
    from hazma import parameters

    return getattr(parameters, MASS[s]) if MASS[s] else 0.0


def stub(env):
    """Kernels and tables become arbitrary functions."""
    from vf import load

    from props._tables import stub_tables

    for k in ("photon", "positron"):
        for nm in LONG.values():
            def kern(x, q, f=env.uf(f"{k}_{nm}", scale=100)):
                return env.array([f(v, q) for v in x])
            env.patch(load.STUBS, (k, f"dnde_{k}_{nm}"), kern)
    for nm in LONG.values():
        def nu(x, q, f=env.uf(f"nu_{nm}", scale=100)):
            return env.array([(i + 1) * f(v, q) + i for i in range(3) for v in x]).reshape(3, len(x))
        env.patch(load.STUBS, ("neutrino", f"dnde_neutrino_{nm}"), nu)
    stub_tables(env)


def decay(product, s, es, parent, row=None):
    """Decay spectrum of one particle (list over es), zero for stable ones."""
    import hazma.spectra as sp

    if s in NONE[product]:
        return [0.0] * len(es)
    out = getattr(sp, f"dnde_{product}_{LONG[s]}")(es, parent)
    return list(out if row is None else out[row])


def radiation(s, es, q):
    from hazma.spectra import altarelli_parisi as ap

    if s in ("e", "mu"):
        return list(ap.dnde_photon_ap_fermion(es, q * q, mass(s), charge=-1.0))
    if s in ("pi", "k"):
        return list(ap.dnde_photon_ap_scalar(es, q * q, mass(s), charge=1.0))
    return [0.0] * len(es)


def rows_of(product, flavor):
    """(product, row index) of every row of the result."""
    if product != "neutrino":
        return [None]
    return [0, 1, 2] if flavor is None else [FLAVORS.index(flavor)]


def run(env, product, es, q, states, flavor=None, **kw):
    import hazma.spectra as sp

    if product == "neutrino" and flavor is not None:
        kw["flavor"] = flavor
    return getattr(sp, f"dnde_{product}")(es, q, states, **kw)


def compare(env, label, out, product, flavor, ref, n, scalar):
    """ref(row) gives the expected list over energies."""
    rows = rows_of(product, flavor)
    shape = (() if scalar else (n,))
    if product == "neutrino" and flavor is None:
        shape = (3,) + shape
    env.claim(f"{label}: shape", np.shape(out) == shape)
    for r in rows:
        got = out[r] if product == "neutrino" and flavor is None else out
        env.eq(label, [got] if scalar else list(got), ref(r), atol=1e-20)


def energies(env, q):
    """One or two product energies, as a number or an array."""
    scalar = env.choose("scalar", [True, False])
    es = [env.real("x0", 0, 2e3)] + ([] if scalar else [env.real("x1", 0, 2e3)])
    return es, (es[0] if scalar else env.array(es)), scalar


def singles(product):
    def fn(env):
        s = env.choose("state", STATES)
        k = env.real("k", 0, 1e3)
        q = mass(s) + k
        stub(env)
        fl = env.choose("flavor", [None] + FLAVORS) if product == "neutrino" else None
        es, arg, scalar = energies(env, q)
        for states in (s, [s]):
            out = run(env, product, arg, q, states, fl)
            compare(env, "one particle", out, product, fl, lambda r: decay(product, s, env.array(es), q, r), len(es), scalar)
        env.raises("below threshold", ValueError, lambda: run(env, product, arg, mass(s) - env.real("d", 0, 10), [s], fl))
    return fn


def pairs(product, s2):
    def fn(env):
        s1 = env.choose("state", STATES)
        swap = env.choose("swap", [False, True])
        m1, m2 = mass(s1), mass(s2)
        q = m1 + m2 + env.real("k", 1, 1e3)
        stub(env)
        fl = env.choose("flavor", [None, "e"]) if product == "neutrino" else None
        es, arg, scalar = energies(env, q)
        fsr = product == "photon" and env.choose("radiation", ["default", True, False])
        kw = dict(include_fsr=fsr) if fsr in (True, False) and product == "photon" else {}
        out = run(env, product, arg, q, [s2, s1] if swap else (s1, s2), fl, **kw)
        e1 = (q**2 + m1**2 - m2**2) / (2.0 * q)
        e2 = (q**2 - m1**2 + m2**2) / (2.0 * q)
        if swap and s1 == s2:
            e1, e2 = e2, e1
        xs = env.array(es)

        def ref(r):
            a, b = decay(product, s1, xs, e1, r), decay(product, s2, xs, e2, r)
            tot = [u + v for u, v in zip(a, b)]
            if fsr:
                tot = [t + u + v for t, u, v in zip(tot, radiation(s1, xs, q), radiation(s2, xs, q))]
            return tot

        compare(env, "two particles", out, product, fl, ref, len(es), scalar)
        if not (s1 in NONE["neutrino"][1:4] and s2 in NONE["neutrino"][1:4]):
            env.raises("below threshold", ValueError,
                   lambda: run(env, product, arg, (m1 + m2) * env.real("d", 0, 1), [s1, s2], fl))
    return fn


def histogram(env, name, lo, n, fixed=False):
    """Distribution with arbitrary content and arbitrary (or fixed) bins above lo."""
    from hazma.phase_space import PhaseSpaceDistribution1D

    e = [lo]
    for i in range(n):
        e.append(e[-1] + (100.0 + 50 * i if fixed else env.real(f"{name}w{i}", 0, 100)))
    return PhaseSpaceDistribution1D(env.array(e), env.array([env.real(f"{name}y{i}", 0, 10) for i in range(n)]))


def trapezoid(xs, ys):
    return sum((b - a) * (u + v) / 2 for a, b, u, v in zip(xs, xs[1:], ys, ys[1:]))


def interp(env, x, xs, ys):
    """Linear interpolation, zero outside."""
    if not (x >= xs[0]) or not (x <= xs[-1]):
        return 0.0
    for a, b, u, v in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            return u + (v - u) * (x - a) / (b - a)


def many(product, states, nb=2, fsr_nb=2, rad=False):
    """Three or more particles: sum over particles of the average over its energy distribution.

    rad: radiation included, at photon energies low enough for every pair to radiate.
    """
    def fn(env):
        from hazma.phase_space import Rambo, ThreeBody

        ms = [mass(s) for s in states]
        q = sum(ms) + env.real("k", 1, 1e3)
        fl = env.choose("flavor", [None] + FLAVORS) if product == "neutrino" else None
        three = len(states) == 3
        tbi = env.choose("integrator", [None, "rambo"] if rad else [None, "quad", "rambo"]) if three else None
        stub(env)
        h = env.uf("msqrd", 0, 10)
        seen = []
        edists = [histogram(env, f"e{i}", ms[i] + 1, nb, rad) for i in range(len(states))]
        rads = rad and any(s in ("e", "mu", "pi", "k") for s in states)
        prs = [(i, j) for i in range(len(states)) for j in range(i + 1, len(states))]
        mdists = {}
        if rads:
            mdists = {p: histogram(env, f"m{p[0]}{p[1]}", 2 * (ms[p[0]] + ms[p[1]]) + 1, fsr_nb, True) for p in prs}

        def check(self):
            seen.append(1)
            env.eq("energy", self.cme, q)
            env.eq("masses", list(self.masses), ms, atol=1e-12)
            s, t = 3.0, 5.0
            if isinstance(self, ThreeBody):
                env.eq("matrix element", self.msqrd(s, t), h(s, t))
            else:
                env.eq("matrix element", self.msqrd(env.array([s, t])), h(s, t))

        def edist(self, *a, **k):
            check(self)
            return list(edists)

        def mdist(self, *a, **k):
            check(self)
            return dict(mdists)

        for c in (Rambo, ThreeBody):
            env.patch(c, "energy_distributions", edist)
            env.patch(c, "invariant_mass_distributions", mdist)
        use_rambo = not three or tbi == "rambo"
        kw = dict(msqrd=(lambda ps: h(ps[0], ps[1])) if use_rambo else (lambda s, t: h(s, t)))
        if tbi is not None:
            kw["three_body_integrator"] = tbi
        fsr = False
        avg = True
        if product == "photon":
            fsr = rad
            if not rad:
                kw["include_fsr"] = False
            avg = env.choose("average", [None, True, False]) if rads else None
            if avg is not None:
                kw["average_fsr"] = avg
        x = env.real("x", 0, 0.1 if rad else 2e3)
        out = run(env, product, env.array([x]), q, list(states), fl, **kw)
        env.claim("distributions used", bool(seen))
        xs = env.array([x])

        def ref(r):
            tot = 0.0
            for s, d in zip(states, edists):
                cs, ps = list(d.bin_centers), list(d.probabilities)
                tot = tot + trapezoid(cs, [p * decay(product, s, xs, c, r)[0] for p, c in zip(ps, cs)])
                prim = {"positron": ["e"], "photon": []}.get(product)
                if prim is None:
                    prim = [["ve", "vm", "vt"][r]]
                if s in prim:
                    tot = tot + interp(env, x, cs, ps)
            if fsr and rads:
                for s in set(states) & {"e", "mu", "pi", "k"}:
                    vals = [trapezoid(list(d.bin_centers), [p * radiation(s, xs, c)[0]
                                                            for p, c in zip(d.probabilities, d.bin_centers)])
                            for pr in prs for d in [mdists[pr]] for i in pr if states[i] == s]
                    if avg is False:
                        vals = vals[:1]
                    tot = tot + list(states).count(s) * sum(vals) / len(vals)
            return [tot]

        compare(env, "n particles", out, product, fl, ref, 1, False)
    return fn


def refused(env):
    import hazma.spectra as sp

    q = env.real("q", 1500, 1e4)
    stub(env)
    env.raises("unknown particle", ValueError, lambda: sp.dnde_photon(1.0, q, ["mu", "higgs"]))
    env.raises("unknown flavor", ValueError, lambda: sp.dnde_neutrino(1.0, q, ["mu", "mu"], flavor="sterile"))
    m = [mass("mu"), mass("pi"), mass("pi0")]
    below = sum(m) * env.real("d", 0, 1)
    for f in (sp.dnde_photon, sp.dnde_positron, sp.dnde_neutrino):
        env.raises("below threshold", ValueError, lambda: f(1.0, below, ["mu", "pi", "pi0"]))
        env.raises("unknown integrator", AssertionError,
                   lambda: f(1.0, q, ["mu", "pi", "pi0"], three_body_integrator="vegas"))
        env.claim("available final states", set(f.availible_final_states) == set(STATES))


def marginal(env):
    """Marginal spectra: average over the centre-of-mass energy with the given weights."""
    from hazma.spectra import convolve

    meth = env.choose("method", ["default", "trapz", "simpson"])
    n = env.choose("samples", [2, 3]) if meth != "simpson" else 3
    vec = env.choose("vectorized", [False, True])
    arg = env.choose("args", [(), (3.0,)])
    way = env.choose("way", ["maker", "direct"])
    c = [env.real("c", 0, 100)]
    w = env.real("w", 0, 10)
    for i in range(n - 1):
        c.append(c[-1] + (w if meth == "simpson" else env.real(f"w{i}", 0, 10)))
    p = [env.real(f"p{i}", 0, 1) for i in range(n)]
    f = env.uf("f", scale=10)
    xs = [env.real("x0", 0, 100), env.real("x1", 0, 100)]

    def one(x, q, *a):
        return (a[0] if a else 1.0) * f(x, q)

    def many_(x, q, *a):
        return env.array([one(v, q, *a) for v in x])

    kw = dict(vectorized=vec)
    if meth != "default":
        kw["method"] = meth
    if arg:
        kw["args"] = arg
    fun = many_ if vec else one
    if way == "maker":
        out = convolve.make_marginal_fn(fun, env.array(c), env.array(p), **kw)(env.array(xs))
    else:
        out = convolve.marginalize(fun, env.array(xs), env.array(c), env.array(p), **kw)
    env.claim("shape", np.shape(out) == (2,))
    for x, o in zip(xs, out):
        ys = [pi * one(x, ci, *arg) for pi, ci in zip(p, c)]
        if meth == "simpson" and n == 3:
            ref = w / 3 * (ys[0] + 4 * ys[1] + ys[2])
        else:
            ref = trapezoid(c, ys)
        env.eq("average", o, ref)
    env.raises("unknown method", AssertionError, lambda: convolve.make_marginal_fn(fun, c, p, method="romberg"))


THREE = [("pi", "pi", "pi0"), ("mu", "ve", "pi"), ("e", "e", "vm"), ("k", "pi", "kl"), ("pi0", "pi0", "eta"),
         ("ve", "ve", "vt"), ("mu", "mu", "vm"), ("rho0", "pi", "e"), ("rho", "ks", "vt"), ("etap", "omega", "phi")]
MORE = [("pi", "pi", "pi0", "pi0"), ("mu", "e", "ve", "vm"), ("pi", "pi", "pi", "k")]


def cases(tier):
    from props._tables import reference

    reference()
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("refused", refused, **kw), Case("marginal", marginal, **kw)]
    for p in ("photon", "positron", "neutrino"):
        out.append(Case(f"singles {p}", singles(p), **kw))
        for s2 in ("pi", "mu", "e", "vm", "eta", "rho0"):
            out.append(Case(f"pairs {p} {s2}", pairs(p, s2), **kw))
        for st in THREE + MORE:
            if p == "photon":
                out.append(Case(f"radiation {' '.join(st)}", many(p, st, rad=True), **kw))
            out.append(Case(f"many {p} {' '.join(st)}", many(p, st), **kw))
    return out
