"""Right-handed neutrino model."""
from vf.harness import Case

PROPERTY = "P22"
BOUNDS = "any mass, mixing and flavour; any energies, invariant masses and form factor; one or two changes of parameters"
ASSUMPTIONS = ["real arithmetic; tan, log and square roots are exact functions",
               "the pion form factor and the spectra of final states are arbitrary functions of their arguments",
               "scipy's quad is observed at its boundary (integrand and limits)"]
FUNCTIONS = ["hazma.rh_neutrino.RHNeutrino.*", "hazma.rh_neutrino._widths.*", "hazma.rh_neutrino._spectra.*",
             "hazma.rh_neutrino._configure.configure", "hazma.rh_neutrino._utils.three_lepton_fs_generations"]

FLAVORS = ["e", "mu", "tau"]
NUS = ["ve", "vm", "vt"]

def masses():
    from hazma import parameters as P
    return P.standard_model_masses


def parts(n):
    """Three-lepton final states of a neutrino mixing with flavour n: (neutrino, lepton, lepton)."""
    o = [k for k in range(3) if k != n]
    out = [(n, k, k) for k in range(3)]
    for k in o:
        out += [(k, n, k), (k, k, n)]
    return out


def final_states(n):
    v, l = NUS[n], FLAVORS[n]
    two = [f"{v} {x}" for x in ("a", "pi0", "eta", "rho", "omega", "phi")] + [f"{l} {x}" for x in ("k", "pi", "rho")]
    three = [f"{v} pi pi", f"{l} pi pi0"] + [f"{NUS[a]} {FLAVORS[b]} {FLAVORS[c]}" for a, b, c in parts(n)]
    return two, three, [f"{v} {NUS[k]} {NUS[k]}" for k in range(3)]


class NoFormFactor:
    pass


def no_form_factor(env):
    """The pion form factor of the package is not looked at here."""
    from hazma.rh_neutrino import _model
    env.patch(_model, "VectorFormFactorPiPi", NoFormFactor)


def model(env, n=None, mx=None):
    from hazma.rh_neutrino import RHNeutrino, _widths as W
    from hazma import parameters as P
    no_form_factor(env)
    # any weak mixing angle: the numbers of the amplitudes are exact
    sw = env.real("sw", 0.3, 0.6)
    env.patch(W, "SW", sw)
    env.patch(P, "sin_theta_weak", sw)
    n = FLAVORS.index(env.choose("flavor", FLAVORS)) if n is None else n
    mx = env.real("mx", 0.1, 1e5) if mx is None else mx
    th = env.real("theta", 1e-9, 0.7)
    return RHNeutrino(mx, th, FLAVORS[n]), n, mx, th


def setters(a):
    def fn(env):
        """After any change of parameters the model is the one built with them."""
        from hazma.rh_neutrino import RHNeutrino
        from hazma.rh_neutrino import _widths as W

        no_form_factor(env)
        m0, m1 = env.real("m0", 0.1, 1e5), env.real("m1", 0.1, 1e5)
        t0, t1 = env.real("t0", 1e-9, 0.7), env.real("t1", 1e-9, 0.7)
        U = env.uf("width", 0, 1)
        names = [f for f in dir(W) if f.startswith("width_")]
        for i, f in enumerate(names):
            env.patch(W, f, lambda model, *r, i=i, **k: U(float(i), model.mx, model.theta, float(model.gen),
                                                          *(float(k[g]) for g in ("genv", "genl1", "genl2") if g in k)))

        def ask(m):
            w = m.decay_widths()
            fss = sorted(m.list_decay_final_states())
            one = m.decay_width(fss)
            bf = m.decay_branching_fractions()
            return ([w[k] for k in fss] + [w["total"]] + [one[k] for k in fss] + [bf[k] for k in fss]
                    + [v["bf"] for v in m.gamma_ray_lines().values()] + [v["bf"] for v in m.positron_lines().values()])

        got = RHNeutrino(m0, t0, a)
        ask(got)
        for f in ("_gamma_ray_line_energies", "_neutrino_line_energies", "_positron_line_energies"):
            getattr(got, f)()
        x = (m0, t0, a)
        for k in env.choose("changes", [("mx",), ("theta",), ("flavor",), ("flavor", "flavor"), ("theta", "flavor", "mx")]):
            if k == "flavor":
                x = (x[0], x[1], env.choose("flavor", FLAVORS))
            else:
                x = (m1 if k == "mx" else x[0], t1 if k == "theta" else x[1], x[2])
            setattr(got, k, x[("mx", "theta", "flavor").index(k)])
        want = RHNeutrino(*x)

        def wrong():
            got.flavor = "nu"

        env.raises("unknown flavour", ValueError, wrong)
        env.eq("mass", got.mx, x[0])
        env.eq("mixing", got.theta, x[1])
        env.claim("flavour", got.flavor == x[2] and got.gen == FLAVORS.index(x[2]))
        env.eq("lepton mass", got.ml, masses()[x[2]])
        env.claim("final states", sorted(got.list_decay_final_states()) == sorted(want.list_decay_final_states()))
        for f in ("_gamma_ray_line_energies", "_neutrino_line_energies", "_positron_line_energies"):
            u, v = getattr(got, f)(), getattr(want, f)()
            env.claim(f"{f} states", sorted(u) == sorted(v))
            env.eq(f, [u[k] for k in sorted(u)], [v[k] for k in sorted(u)])
        u, v = ask(got), ask(want)
        env.claim("number of rates", len(u) == len(v))
        for g, h in zip(u, v):
            env.eq("rates", g, h)
        # the widths are computed for the parameters of the model
        seen = []
        for f in ("width_v_a", "width_l_pi", "width_v_v_v", "width_v_l_l"):
            env.patch(W, f, lambda model, f=f, **k: seen.append((f, model.mx, model.theta, model.gen)) or 1.0)
        env.patch(W, "width_v_pi_pi", lambda *a, **k: 1.0)
        env.patch(W, "width_l_pi0_pi", lambda *a, **k: 1.0)
        from hazma.rh_neutrino import _configure
        got.flavor = x[2]
        got._decay_widths()
        env.claim("parameters reach the widths", bool(seen))
        for f, m, t, g in seen[:3]:
            env.eq("width mass", m, x[0])
            env.eq("width mixing", t, x[1])
            env.claim("width flavour", g == FLAVORS.index(x[2]))
    return fn


def lines(env):
    """Monochromatic products belong to two-body final states and carry the two-body energy."""
    m, n, mx, th = model(env)
    sm = masses()
    fss = m.list_decay_final_states()
    two, three, nus = final_states(n)
    env.claim("final states", sorted(fss) == sorted(two + three + nus))
    v, l = NUS[n], FLAVORS[n]

    def energy(a, b):
        """Energy of a in N -> a b."""
        return (mx * mx + sm[a] ** 2 - sm[b] ** 2) / (2 * mx)

    g = m._gamma_ray_line_energies()
    env.claim("photon line", list(g) == [f"{v} a"])
    env.eq("photon energy", list(g.values())[0], mx / 2)
    nu = m._neutrino_line_energies()
    want = {f"{v} a": mx / 2}
    for k in ("pi0", "eta"):
        if mx > sm[k]:
            want[f"{v} {k}"] = energy(v, k)
    env.claim("neutrino lines", sorted(nu) == sorted(want))
    for k in want:
        if k in nu:
            env.eq("neutrino energy", nu[k], want[k])
    ps = m._positron_line_energies()
    if n:
        env.claim("no positron line", not ps)
    else:
        env.claim("positron lines", sorted(ps) == ["e k", "e pi"])
        for k in ("pi", "k"):
            if mx > sm[k] + sm["e"]:
                env.eq("positron energy", ps.get(f"e {k}", -1.0), energy("e", k))


def bookkeeping(env):
    """Every final state counts with its charge conjugate; the total is the sum."""
    from hazma.rh_neutrino import _widths as W, _configure

    m, n, mx, th = model(env)
    vals, log = {}, []
    names = {"width_v_a": "v a", "width_v_pi0": "v pi0", "width_v_eta": "v eta", "width_v_rho": "v rho", "width_v_omega": "v omega",
             "width_v_phi": "v phi", "width_l_k": "l k", "width_l_pi": "l pi", "width_l_rho": "l rho",
             "width_v_pi_pi": "v pi pi", "width_l_pi0_pi": "l pi pi0", "width_v_l_l": "", "width_v_v_v": ""}
    G = env.uf("width", 0, 1)

    def stub(f):
        def fn(model, **k):
            if f == "width_v_l_l":
                s = f"{NUS[k['genv']]} {FLAVORS[k['genl1']]} {FLAVORS[k['genl2']]}"
            elif f == "width_v_v_v":
                s = f"{NUS[model.gen]} {NUS[k['genv']]} {NUS[k['genv']]}"
            else:
                a, *b = names[f].split()
                s = " ".join([(NUS if a == "v" else FLAVORS)[model.gen]] + b)
            log.append(s)
            return G(float(sorted(sum(final_states(n), [])).index(s)))
        return fn

    for f in names:
        env.patch(W, f, stub(f))
    m.flavor = FLAVORS[n]
    two, three, nus = final_states(n)
    fss = sorted(two + three + nus)
    w = m.decay_widths()
    env.claim("all final states", sorted(w) == sorted(fss + ["total"]) and sorted(log) == fss)
    tot = 0.0
    for i, s in enumerate(fss):
        a, *rest = s.split()
        # lepton pairs of two flavours are listed with either assignment of the charges
        one = a in NUS
        want = (1 if one else 2) * G(float(i))
        env.eq("charge conjugates", w[s], want)
        tot = tot + want
    env.eq("total", w["total"], tot)
    s = env.choose("state", [0, 7, 11, 14])
    s = fss[s]
    part = m.decay_width([s])
    env.claim("one state", list(part) == [s])
    env.eq("partial width", part[s], w[s])
    env.raises("unknown state", KeyError, lambda: m.decay_width(["nu g"]))
    bf = m.decay_branching_fractions()
    env.eq("branching fraction", bf[s] * tot, w[s])
    # the lines are weighted with the branching fraction of their own final state
    g = m.gamma_ray_lines()
    env.claim("photon line", list(g) == [f"{NUS[n]} a"])
    env.eq("photon line fraction", g[f"{NUS[n]} a"]["bf"] * tot, G(float(fss.index(f"{NUS[n]} a"))))
    ps = env.returns("positron lines", m.positron_lines)
    env.claim("positron lines", sorted(ps) == ([] if n else ["e k", "e pi"]))


def two_body(env):
    """Two-body widths."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W

    np, pi = env.np, env.pi
    m, n, mx, th = model(env)
    sm = masses()
    ml = sm[FLAVORS[n]]
    t = np.tan(2 * th) / 2
    G = P.GF
    sw2 = 0.22290
    k = env.choose("state", ["v pi0", "v eta", "v a", "l pi", "l k", "v rho", "v omega", "v phi", "l rho"])
    got = getattr(W, "width_" + k.replace(" ", "_"))(m)
    a, h = k.split()
    mh = sm[h]
    if k == "v a":
        env.eq("width", got * 256 * pi ** 4, 9 * P.alpha_em * (G * t) ** 2 * mx ** 5, rtol=1e-9)
        return
    thr = mh + (ml if a == "l" else 0.0)
    if mx < thr:
        env.eq("closed", got, 0.0)
        return
    env.assume(mx > 1.001 * thr)
    x, y = mh * mh / (mx * mx), ml * ml / (mx * mx)
    # form factors of neutral and charged currents; arXiv:1805.08567
    if h in ("pi0", "eta"):
        f = {"pi0": P.fpi0, "eta": P.feta}[h]
        want = (G * t * f) ** 2 * mx ** 3 * (1 - x) ** 2 / (16 * pi)
    elif a == "v":
        f, kk = {"rho": (0.162e6, 1 - 2 * sw2), "omega": (0.153e6, 4 * sw2 / 3), "phi": (0.234e6, 4 * sw2 / 3 - 1)}[h]
        want = (G * t * f * kk) ** 2 * mx ** 3 * (1 + 2 * x) * (1 - x) ** 2 / (32 * pi * mh * mh)
    else:
        lam = np.sqrt((1 - x - y) ** 2 - 4 * x * y)
        poly = (1 - y) ** 2 + x * (1 + y) - 2 * x * x
        if h == "rho":
            want = (G * t * 0.162e6 * P.Vud) ** 2 * mx ** 3 * poly * lam / (16 * pi * mh * mh)
        else:
            f, ckm = {"pi": (P.fpi, P.Vud), "k": (P.fk, P.Vus)}[h]
            poly = (1 - y) ** 2 - x * (1 + y)
            want = (G * t * f) ** 2 * abs(ckm) ** 2 * mx ** 3 * poly * lam / (8 * pi)
    env.eq("width", got, want, rtol=1e-9)
    env.claim("not negative", got >= 0)


def _capture(env):
    """Integrals are observed at their boundary."""
    seen = []

    def quad(f, a, b, *args, **kw):
        J = env.uf("integral")(float(len(seen)))
        seen.append((f, a, b, J))
        return J, 0.0

    env.hook("quad", quad)
    return seen


class FF:
    """Arbitrary complex form factor."""

    def __init__(self, env):
        self.re, self.im, self.calls = env.uf("re"), env.uf("im"), []

    def form_factor(self, q, couplings):
        self.calls.append(couplings)
        return self.re(q) + 1j * self.im(q)

    def sq(self, q):
        return self.re(q) ** 2 + self.im(q) ** 2


def _hadronic(env, k):
    """Integrand of the width against the squared matrix element integrated over the other invariant mass."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W

    np, pi = env.np, env.pi
    m, n, mx, th = model(env)
    ff = FF(env)
    seen = _capture(env)
    mp = P.charged_pion_mass
    ml = masses()[FLAVORS[n]] if k == "l_pi0_pi" else 0.0
    got = getattr(W, "width_" + k)(m, ff, epsabs=0.0, epsrel=1e-3)
    if mx < ml + 2 * mp:
        env.eq("closed", got, 0.0)
        return
    env.claim("one integral", len(seen) == 1)
    f, a, b, J = seen[0]
    env.eq("lower limit", a, 4 * mp * mp)
    env.eq("upper limit", b, (mx - ml) ** 2)
    if not mx > ml + 2 * mp:
        return
    s = a + (b - a) * env.real("z", 0, 1)
    lam = np.sqrt(((mx - ml) ** 2 - s) * ((mx + ml) ** 2 - s))
    bpi = np.sqrt(1 - 4 * mp * mp / s)
    mid = (mx * mx + ml * ml + 2 * mp * mp - s) / 2
    half = lam * bpi / 2
    msq = getattr(W, "msqrd_" + k)
    # quadratic in the invariant mass of lepton and pion: Simpson's rule is exact
    area = 2 * half / 6 * (msq(s, mid - half, m, ff) + 4 * msq(s, mid, m, ff) + msq(s, mid + half, m, ff))
    # got = J * prefactor, so that the rate is got / J * integrand
    env.eq("rate in the invariant mass of the pions", got * f(s) * (256 * pi ** 3 * mx ** 3), J * area, rtol=1e-9)
    # V - A current with a conserved vector current of the pions
    t = env.choose("t", [-0.7, 0.0, 0.4]) * half + mid
    # invariants of the momenta: N, l, p2 - p3
    nl = (mx * mx + ml * ml - s) / 2
    q2 = 4 * mp * mp - s
    lq = t - mid
    nq = lq  # N = l + P and P.(p2 - p3) = 0
    # (l.p3 - l.p2) from t = (l + p3)^2
    cc = abs(P.Vud) ** 2 * 2 if k == "l_pi0_pi" else (1 - 2 * P.sin_theta_weak ** 2) ** 2
    u = np.tan(2 * th) / 2
    # 4 [2 (N.q)(l.q) - q^2 N.l]
    want = cc * (u * P.GF) ** 2 * ff.sq(np.sqrt(s)) * 2 * (2 * nq * lq - q2 * nl)
    env.eq("squared amplitude", msq(s, t, m, ff), want, rtol=1e-9)
    env.claim("couplings of the current", all(tuple(c) == (2.0 / 3.0, -1.0 / 3.0) for c in ff.calls))


def l_pi_pi0(env):
    """Charged current to two pions."""
    _hadronic(env, "l_pi0_pi")


def v_pi_pi(env):
    """Neutral current to two pions."""
    _hadronic(env, "v_pi_pi")


def _dots(env, mx, m1, m2, m3, s, t):
    """Products of momenta of N -> 1 2 3 from s = (p2 + p3)^2, t = (p1 + p3)^2."""
    w = mx * mx + m1 * m1 + m2 * m2 + m3 * m3 - s - t
    d12, d13, d23 = (w - m1 * m1 - m2 * m2) / 2, (t - m1 * m1 - m3 * m3) / 2, (s - m2 * m2 - m3 * m3) / 2
    return d12, d13, d23, m1 * m1 + d12 + d13, m2 * m2 + d12 + d23, m3 * m3 + d13 + d23


def leptons(env):
    """V - A amplitudes of the three-lepton decays, in the order of the final state."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W, _spectra as SP

    np = env.np
    m, n, mx, th = model(env)
    sm = masses()
    a, b, c = env.choose("state", parts(0))
    # generations relative to that of the neutrino
    perm = [n] + [k for k in range(3) if k != n]
    a, b, c = perm[a], perm[b], perm[c]
    m2, m3 = sm[FLAVORS[b]], sm[FLAVORS[c]]
    env.assume(mx > m2 + m3)
    s, t = env.real("s", 0, 1e10), env.real("t", 0, 1e10)
    rec = []
    env.patch(SP, "_dnde_three_body", lambda **k: rec.append(k) or 0.0)
    SP.dnde_v_l_l(m, 1.0, "photon", a, b, c, nbins=17, three_body_integrator="x")
    env.claim("one call", len(rec) == 1)
    k = rec[0]
    env.claim("states", tuple(k["states"]) == (NUS[a], FLAVORS[b], FLAVORS[c]))
    env.claim("options", (k["nbins"], k["three_body_integrator"], k["product"]) == (17, "x", "photon") and k["model"] is m)
    u = np.tan(2 * th) / 2
    g2 = (u * P.GF) ** 2
    d12, d13, d23, n1, n2, n3 = _dots(env, mx, 0.0, m2, m3, s, t)
    if a == n:
        x = P.sin_theta_weak ** 2
        gl, gr = (0.5 + x if b == n else -0.5 + x), x
        want = 32 * g2 * ((gl * gl + gr * gr) * (n3 * d12 + n2 * d13) + 2 * gl * gr * m2 * m2 * n1)
    elif b == n:
        # N -> l2 W, W -> nu l3: the antilepton l3 goes with N
        want = 64 * g2 * n3 * d12
    else:
        want = 64 * g2 * n2 * d13
    env.eq("squared amplitude", k["msqrd"](s, t), want, rtol=1e-9)
    # the distributions use the same amplitude and order
    tb = []

    class Three:
        def __init__(self, q, ms, msqrd=None):
            tb.append((q, tuple(ms), msqrd))

        def energy_distributions(self, nbins, method="quad"):
            return "e", nbins, method

        def invariant_mass_distributions(self, nbins, method="quad"):
            return "m", nbins, method

    env.patch(W, "ThreeBody", Three)
    env.claim("energy distributions", W.energy_distributions_v_l_l(m, a, b, c, 11, "w") == ("e", 11, "w"))
    env.claim("invariant mass distributions", W.invariant_mass_distributions_v_l_l(m, a, b, c, 12, "z") == ("m", 12, "z"))
    for q, ms, msq in tb:
        env.eq("mass of the neutrino", q, mx)
        env.eq("masses in the order of the final state", list(ms), [0.0, m2, m3])
        env.eq("squared amplitude of the distributions", msq(s, t), want, rtol=1e-9)


def lepton_widths(env):
    """Rates of the three-lepton decays."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W

    np, pi = env.np, env.pi
    m, n, mx, th = model(env)
    sm = masses()
    perm = [n] + [k for k in range(3) if k != n]
    a, b, c = [perm[k] for k in env.choose("state", parts(0))]
    m2, m3 = sm[FLAVORS[b]], sm[FLAVORS[c]]
    u = np.tan(2 * th) / 2
    G0 = (u * P.GF) ** 2 * mx ** 5 / (192 * pi ** 3)
    seen = _capture(env)
    if mx < m2 + m3:
        env.eq("closed", W.width_v_l_l(m, a, b, c), 0.0)
        return
    if a == n:
        # arXiv:1805.08567
        x = P.sin_theta_weak ** 2
        c1 = (1 + (4 if b == n else -4) * x + 8 * x * x) / 4
        c2 = x * (2 * x + (1 if b == n else -1)) / 2
        y = (m2 / mx) ** 2
        S = np.sqrt(1 - 4 * y)
        num = 1 - 3 * y - (1 - y) * S
        # below, the code expands in y
        env.assume(num > 1.1e-10)
        got = W.width_v_l_l(m, a, b, c)
        L = np.log(num / (y * (1 + S)))
        want = (c1 * ((1 - 14 * y - 2 * y ** 2 - 12 * y ** 3) * S + 12 * y ** 2 * (y ** 2 - 1) * L)
                     + 4 * c2 * (y * (2 + 10 * y - 12 * y ** 2) * S + 6 * y ** 2 * (1 - 2 * y + 2 * y ** 2) * L))
        # near threshold the closed form is a small difference of numbers of order one
        env.eq("rate", got / G0, want, rtol=1e-9, atol=1e-10)
        return
    got = W.width_v_l_l(m, a, b, c)
    env.claim("one integral", len(seen) == 1)
    f, lo, hi, J = seen[0]
    ml, md = ((m2, m3) if b == n else (m3, m2))
    yl, yd = (ml / mx) ** 2, (md / mx) ** 2
    # the invariant mass of any pair gives the same rate: the charged leptons here
    env.eq("lower limit", lo, ((ml + md) / mx) ** 2)
    env.eq("upper limit", hi, 1.0)
    x = lo + (hi - lo) * env.real("z", 0, 1)
    lam = np.sqrt(((x - yl - yd) ** 2 - 4 * yl * yd) * (1 - x) ** 2)
    env.eq("rate", got * f(x), J * G0 * 12 / x * (x - yl - yd) * (1 - x) * lam, rtol=1e-9)


def three_neutrinos(env):
    """Three neutrinos: one of each of two kinds, or all alike."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W, _spectra as SP

    np, pi = env.np, env.pi
    m, n, mx, th = model(env)
    g = env.choose("pair", [0, 1, 2])
    u = np.tan(2 * th) / 2
    G0 = (u * P.GF) ** 2 * mx ** 5 / (768 * pi ** 3)
    env.eq("rate", W.width_v_v_v(m, g), (2 if g == n else 1) * G0)
    rec = []
    env.patch(SP, "_dnde_three_body", lambda **k: rec.append(k) or 0.0)
    SP.dnde_v_v_v(m, 1.0, "neutrino", g)
    k = rec[0]
    env.claim("states", tuple(k["states"]) == (NUS[n], NUS[g], NUS[g]))
    s, t = env.real("s", 0, 1e10), env.real("t", 0, 1e10)
    d12, d13, d23, n1, n2, n3 = _dots(env, mx, 0.0, 0.0, 0.0, s, t)
    # any of the three is the antineutrino; 1/3! of the symmetric sum
    want = (2 if g == n else 1) * 16 * (u * P.GF) ** 2 * 2 * (n1 * d23 + n2 * d13 + n3 * d12)
    env.eq("squared amplitude", k["msqrd"](s, t), want, rtol=1e-9)


def spectra_two(env):
    """Spectra of two-body final states are those of the final state at the neutrino's mass."""
    from hazma.rh_neutrino import _spectra as SP

    m, n, mx, th = model(env)
    sm = masses()
    two = final_states(n)[0]
    fs = env.choose("state", range(len(two)))
    fs = two[fs]
    product = env.choose("product", ["photon", "positron", "neutrino"])
    e = env.real("e", 0, 1e5)
    F = env.uf("dnde")
    rec = []

    def spec(p):
        def fn(energies=None, cme=None, final_states=None, **k):
            key = f"{p}_energies"
            rec.append((p, k.pop(key) if energies is None else energies, cme, final_states, k))
            return F(1.0)
        return fn

    for p in ("photon", "positron", "neutrino"):
        env.patch(SP.spectra, f"dnde_{p}", spec(p))
    dnde = m._config[fs].dnde
    out = dnde(product_energies=e, product=product)
    states = fs.split()
    if states[-1] == "a":
        env.claim("a line has no continuum", not rec and (out == 0.0 if product != "neutrino" else not any(out)))
        return
    states = [{"rho": "rho0"}.get(x, x) if states[0] in NUS else x for x in states]
    if mx < sum(sm[x] for x in states):
        env.claim("closed", not rec and out == 0.0)
        return
    env.claim("one spectrum", len(rec) == 1)
    p, es, cme, sts, k = rec[0]
    env.claim("product", p == product)
    env.eq("energies", es, e)
    env.eq("energy of the decay", cme, mx)
    env.claim("final state", list(sts) == states)
    env.claim("radiation", k == (dict(include_fsr=True, average_fsr=True) if p == "photon" else {}))
    env.eq("value", out, F(1.0))


def spectra_three(env):
    """Spectra of three-body final states."""
    from hazma.rh_neutrino import _spectra as SP, _widths as W

    m, n, mx, th = model(env)
    sm = masses()
    two, three, nus = final_states(n)
    all3 = three + nus
    fs = all3[env.choose("state", range(len(all3)))]
    product = env.choose("product", ["photon", "positron", "neutrino"])
    opts = env.choose("options", [{}, dict(nbins=7), dict(nbins=9, three_body_integrator="trapz")])
    e = env.real("e", 0, 1e5)
    F = env.uf("dnde")
    rec = []

    def spec(p):
        def fn(**k):
            rec.append((p, k.pop(f"{p}_energies"), k))
            return F(1.0)
        return fn

    for p in ("photon", "positron", "neutrino"):
        env.patch(SP.spectra, f"dnde_{p}", spec(p))
    # the amplitude used for pions
    A = env.uf("amplitude")
    env.patch(W, "msqrd_l_pi0_pi", lambda s, t, mod, ff: A(s + 3 * t) if ff is m._ff_pi and mod is m else 0.0)
    env.patch(W, "msqrd_v_pi_pi", lambda s, t, mod, ff: A(s + 5 * t) if ff is m._ff_pi and mod is m else 0.0)
    out = m._config[fs].dnde(e, product, **opts)
    states = fs.split()
    if mx < sum(sm[x] for x in states):
        env.claim("closed", not rec and out == 0.0)
        return
    env.claim("one spectrum", len(rec) == 1)
    p, es, k = rec[0]
    env.claim("product", p == product)
    env.eq("energies", es, e)
    env.eq("energy of the decay", k["cme"], mx)
    env.claim("final state", k["final_states"][0] == states[0] and sorted(k["final_states"]) == sorted(states))
    env.claim("order of the invariant masses", k["msqrd_signature"] == "st")
    env.claim("options", k["nbins"] == opts.get("nbins", 30)
              and k["three_body_integrator"] == opts.get("three_body_integrator", "quad"))
    env.claim("radiation", p != "photon" or (k["include_fsr"] and k["average_fsr"]))
    env.eq("value", out, F(1.0))
    if "pi" in states:
        s, t = env.real("s", 0, 1e10), env.real("t", 0, 1e10)
        env.eq("amplitude", k["msqrd"](s, t), A(s + (5 if states[0] in NUS else 3) * t))


def _spectrum_stubs(env):
    """Spectra of the package: arbitrary functions of the product, the final state and the energy."""
    from hazma.rh_neutrino import _spectra as SP

    def spec(p):
        F = env.uf(f"dnde_{p}", 0, 1)

        def key(states):
            return float(sum((k + 1) * 31 ** i for i, k in enumerate(sorted(list(masses()).index(s) for s in states))))

        def fn(energies=None, final_states=None, cme=None, **k):
            e = k.pop(f"{p}_energies") if energies is None else energies
            if hasattr(e, "__len__"):
                return env.array([F(x, cme, key(final_states)) for x in e])
            return F(e, cme, key(final_states))

        env.patch(SP.spectra, f"dnde_{p}", fn)
        return lambda e, cme, states: F(e, cme, key(states))

    return {p: spec(p) for p in ("photon", "positron", "neutrino")}


def _states(fs):
    st = fs.split()
    return [{"rho": "rho0"}.get(x, x) if st[0] in NUS else x for x in st]


def _stub_widths(env, fss):
    from hazma.rh_neutrino import _widths as W
    G = {fs: env.real("w_" + fs, 1e-3, 1) for fs in fss}

    def two(f, h):
        env.patch(W, f, lambda model, **k: G[f"{(NUS if f[6] == 'v' else FLAVORS)[model.gen]} {h}"])

    for h in ("a", "pi0", "eta", "rho", "omega", "phi"):
        two(f"width_v_{h}", h)
    for h in ("k", "pi", "rho"):
        two(f"width_l_{h}", h)
    env.patch(W, "width_v_pi_pi", lambda model, form_factor, **k: G[f"{NUS[model.gen]} pi pi"])
    env.patch(W, "width_l_pi0_pi", lambda model, form_factor, **k: G[f"{FLAVORS[model.gen]} pi pi0"])
    env.patch(W, "width_v_l_l", lambda model, genv, genl1, genl2: G[f"{NUS[genv]} {FLAVORS[genl1]} {FLAVORS[genl2]}"])
    env.patch(W, "width_v_v_v", lambda model, genv: G[f"{NUS[model.gen]} {NUS[genv]} {NUS[genv]}"])
    return G


def one_decay(env):
    """The spectrum of a final state is that of one decay, for every product."""
    F = _spectrum_stubs(env)
    m, n, mx, th = model(env)
    sm = masses()
    fss = sum(final_states(n), [])
    p = env.choose("product", ["photon", "positron", "neutrino"])
    fns = {"photon": m._spectrum_funcs, "positron": m._positron_spectrum_funcs, "neutrino": m._neutrino_spectrum_funcs}[p]()
    env.claim("final states", sorted(fns) == sorted(fss))
    fs = fss[env.choose("state", range(len(fss)))]
    e = env.real("e", 0, 1e5)
    got = fns[fs](e)
    st = _states(fs)
    if fs.endswith(" a"):
        env.claim("a line has no continuum", np_all_zero(got))
    elif mx < sum(sm[x] for x in st):
        env.claim("closed", np_all_zero(got))
    else:
        env.eq("one decay", got, F[p](e, mx, st))


def np_all_zero(x):
    import numpy as np
    return all(v == 0.0 for v in np.ravel(x))


def totals(env):
    """Every spectrum of a final state counts with the share of that final state among all decays."""
    F = _spectrum_stubs(env)
    m, n, mx, th = model(env, mx=env.real("mx", 3600, 1e5))
    fss = sum(final_states(n), [])
    G = _stub_widths(env, fss)
    m.flavor = FLAVORS[n]
    p = env.choose("product", ["photon", "positron"])
    e = env.real("e", 0, 1e5)
    x, es, out = (e, [e], lambda r: [r])
    if env.choose("form", ["one", "list"]) == "list":
        e1 = env.real("e1", 0, 1e5)
        x, es, out = env.array([e, e1]), [e, e1], lambda r: [r[0], r[1]]
    # charged currents have a conjugate, unless it is in the list
    w = {fs: (2 if fs.split()[0] in FLAVORS else 1) * G[fs] for fs in fss}
    tot = sum(w.values())
    got = out((m.total_spectrum if p == "photon" else m.total_positron_spectrum)(x))
    for g, e in zip(got, es):
        want = sum(w[fs] * F[p](e, mx, _states(fs)) for fs in fss if not fs.endswith(" a"))
        env.eq(p, g * tot, want)


def distributions(env):
    """Distributions of the hadronic and invisible decays use the amplitude and masses of the decay."""
    from hazma import parameters as P
    from hazma.rh_neutrino import _widths as W, _spectra as SP

    np = env.np
    m, n, mx, th = model(env)
    k = env.choose("state", ["l_pi0_pi", "v_pi_pi", "v_v_v"])
    kind = env.choose("kind", ["energy", "invariant_mass"])
    tb, ff = [], FF(env)

    class Three:
        def __init__(self, q, ms, msqrd=None):
            tb.append((q, tuple(ms), msqrd))

        def energy_distributions(self, nbins, method="quad"):
            return "energy", nbins, method

        def invariant_mass_distributions(self, nbins, method="quad"):
            return "invariant_mass", nbins, method

    env.patch(W, "ThreeBody", Three)
    f = getattr(W, f"{kind}_distributions_{k}")
    if k == "v_v_v":
        g = env.choose("pair", [0, 1, 2])
        got = f(m, g, 13)
        env.claim("options", got == (kind, 13, "quad"))
    else:
        meth = env.choose("method", ["quad", "rambo"])
        got = f(m, ff, 13, meth)
        env.claim("options", got == (kind, 13, meth))
    env.claim("one phase space", len(tb) == 1)
    q, ms, msq = tb[0]
    mp = P.charged_pion_mass
    ml = masses()[FLAVORS[n]]
    env.eq("mass of the neutrino", q, mx)
    want = {"l_pi0_pi": [ml, mp, mp], "v_pi_pi": [0.0, mp, mp], "v_v_v": [0.0] * 3}[k]
    env.eq("masses", list(ms), want)
    s, t = env.real("s", 1, 1e10), env.real("t", 0, 1e10)
    u = np.tan(2 * th) / 2
    d12, d13, d23, n1, n2, n3 = _dots(env, mx, *want, s, t)
    if k == "v_v_v":
        ref = (2 if g == n else 1) * 16 * (u * P.GF) ** 2 * 2 * (n1 * d23 + n2 * d13 + n3 * d12)
    else:
        cc = abs(P.Vud) ** 2 * 2 if ml and k == "l_pi0_pi" else (1 - 2 * P.sin_theta_weak ** 2) ** 2
        nq, lq, q2 = n2 - n3, d12 - d13, 4 * mp * mp - s
        ref = cc * (u * P.GF) ** 2 * ff.sq(np.sqrt(s)) * 2 * (2 * nq * lq - q2 * n1)
    env.eq("squared amplitude", msq(s, t), ref, rtol=1e-9)


def cases(tier):
    kw = dict(undef="assume", sym_consts=True)
    return [Case(f"setters {a}", setters(a), **kw) for a in FLAVORS] + [Case("lines", lines, **kw), Case("bookkeeping", bookkeeping, **kw),
            Case("two-body widths", two_body, **kw), Case("charged current to two pions", l_pi_pi0, **kw),
            Case("neutral current to two pions", v_pi_pi, **kw), Case("lepton amplitudes", leptons, **kw),
            Case("lepton widths", lepton_widths, **kw), Case("three neutrinos", three_neutrinos, **kw),
            Case("two-body spectra", spectra_two, **kw), Case("three-body spectra", spectra_three, **kw),
            Case("one decay", one_decay, **kw), Case("totals", totals, **kw), Case("distributions", distributions, **kw)]
