"""Three-body phase space: integration region, integrand, spectra, setters."""
from props._ref import kallen
from vf.harness import Case

PROPERTY = "P08"
BOUNDS = ("arbitrary masses >= 0 and any energy above threshold; arbitrary matrix elements of the two invariant "
          "masses, arbitrary linear ones of the momenta; energy / invariant-mass histograms of 2 bins; "
          "histories of up to 4 setter calls")
ASSUMPTIONS = ["scipy's dblquad/quad integrate the function they are given over the region they are given "
               "(their arguments are captured at the library boundary)"]
FUNCTIONS = ["hazma.phase_space.ThreeBody.*", "hazma.phase_space._utils.energy_limits",
             "hazma.phase_space._utils.invariant_mass_limits", "hazma.phase_space.PhaseSpaceDistribution1D"]


def _point(env, sfx=""):
    """Masses, energy and an interior value of the (2,3) invariant mass."""
    ms = [env.real(f"m{i}{sfx}", 0, 1e5) for i in (1, 2, 3)]
    a = env.real("a" + sfx, 0, 1e5)
    b = env.real("b" + sfx, 0, 1e5)
    return ms, a, b, sum(ms) + a + b


class Capture:
    def __init__(self, env):
        self.env, self.calls = env, []
        self.val = env.real("integral")

    def __call__(self, func, a, b, gfun, hfun, args=(), **k):
        self.calls.append((func, a, b, gfun, hfun))
        return self.val, 0.0 * self.val


def _val(f, x):
    return f(x) if callable(f) else f


def _region(env, cap, q, ms, a):
    m1, m2, m3 = ms
    func, xa, xb, g, h = cap.calls[-1]
    env.eq("lower limit of scaled energy 1", xa * q, 2 * m1)
    env.eq("upper limit of scaled energy 1", xb * q * q, q * q + m1 * m1 - (m2 + m3) ** 2)
    m23 = m2 + m3 + a
    s = m23 * m23
    e1 = (q * q + m1 * m1 - s) / (2 * q)
    x = 2 * e1 / q
    yl, yu = _val(g, x), _val(h, x)
    e23 = q - e1
    p23sq = kallen(q * q, s, m1 * m1) / (4 * q * q)
    e2s = (s + m2 * m2 - m3 * m3) / (2 * m23)
    p2ssq = kallen(s, m2 * m2, m3 * m3) / (4 * s)
    env.eq("Dalitz region: centre", (yl + yu) * q / 4 * m23, e23 * e2s)
    env.eq("Dalitz region: width", ((yu - yl) * q / 4 * m23) ** 2, p23sq * p2ssq)
    env.le("Dalitz region: order", yl, yu)
    return func, x, e1, s


def quad_region(env):
    from hazma.phase_space._three_body import ThreeBody

    ms, a, b, q = _point(env)
    cap = Capture(env)
    env.hook("dblquad", cap)
    f = env.uf("msqrd")
    tb = ThreeBody(q, ms, msqrd=f)
    val, err = tb.integrate()
    func, x, e1, s = _region(env, cap, q, ms, a)
    y = env.real("y")
    t = q * q * (1 - y) + ms[1] ** 2
    # total weight of the integrand at (x, y) against q^2/(128 pi^3) |M|^2
    env.eq("normalisation and integrand", val * func(y, x) * 128 * env.pi**3, cap.val * q * q * f(s, t), atol=1e-9)


def flat_and_bounds(env):
    from hazma.phase_space._three_body import ThreeBody

    ms, a, b, q = _point(env)
    cap = Capture(env)
    env.hook("dblquad", cap)
    tb = ThreeBody(q, ms)
    val, _ = tb.integrate()
    func, x, e1, s = _region(env, cap, q, ms, a)
    env.eq("flat integrand", val * func(x, x) * 128 * env.pi**3, cap.val * q * q)
    below = env.real("below", 0, 1)
    got = ThreeBody(below * sum(ms), ms).integrate()
    env.eq("zero below threshold", list(got), [0.0, 0.0])
    env.eq("flat matrix element on arrays", tb.msqrd(env.array([s, s]), env.array([s, s])), [1.0, 1.0])


def t_bounds(env):
    """Bounds of the second invariant mass at fixed first one."""
    from hazma.phase_space._three_body import ThreeBody

    ms, a, b, q = _point(env)
    tb = ThreeBody(q, ms)
    fn = getattr(tb, "_integration_bounds_t", None)
    fs = getattr(tb, "_integration_bounds_s", None)
    if fn is None or fs is None:
        env.claim("not applicable", True)
        return
    m1, m2, m3 = ms
    sl, su = fs()
    env.eq("s lower", sl, (m2 + m3) ** 2)
    env.eq("s upper", su, (q - m1) ** 2)
    s = (m2 + m3 + a) ** 2
    tl, tu = fn(s)
    e1 = (q * q - s - m1 * m1)
    e3 = (s + m3 * m3 - m2 * m2)
    env.eq("t centre", (tl + tu) * 2 * s, 4 * s * (m1 * m1 + m3 * m3) + 2 * e1 * e3)
    env.eq("t width", ((tu - tl) * s) ** 2, kallen(q * q, s, m1 * m1) * kallen(s, m2 * m2, m3 * m3))


def momenta(env):
    from hazma.phase_space._three_body import ThreeBody

    # any configuration, by the momenta of particles 1 and 2 (rapidity factors)
    # and the energy of particle 3; outside |cos| < 1 there is none
    m1, m2, m3 = ms = [env.real(f"m{i}", 0, 1e5) for i in (1, 2, 3)]
    r1, r2 = 1 + env.real("a1", 0, 1e3), 1 + env.real("a2", 0, 1e3)
    e3 = m3 + env.real("a3", 0, 1e6)
    e1, p1 = m1 * (r1 * r1 + 1) / (2 * r1), m1 * (r1 * r1 - 1) / (2 * r1)
    e2, p2 = m2 * (r2 * r2 + 1) / (2 * r2), m2 * (r2 * r2 - 1) / (2 * r2)
    q = e1 + e2 + e3
    d = e3 * e3 - m3 * m3 - p1 * p1 - p2 * p2
    env.assume(d < 2 * p1 * p2)
    env.assume(d > -2 * p1 * p2)
    s, t = q * q + m1 * m1 - 2 * q * e1, q * q + m2 * m2 - 2 * q * e2
    seen = []

    def msqrd(ps):
        seen.append(ps)
        return ps[0, 0]

    tb = ThreeBody(q, ms, msqrd=msqrd, msqrd_signature="momenta")
    out = tb.msqrd(s, t)
    ps = seen[-1]
    tot = [ps[k, 0] + ps[k, 1] + ps[k, 2] for k in range(4)]
    env.eq("total energy", tot[0], q)
    env.eq("total three-momentum", tot[1:], [0.0, 0.0, 0.0], atol=1e-6)
    env.eq("energy of particle 1", ps[0, 0], (q * q + m1 * m1 - s) / (2 * q))
    env.eq("energy of particle 2", ps[0, 1], (q * q + m2 * m2 - t) / (2 * q))
    env.eq("particle 1 on shell", ps[0, 0] ** 2 - m1**2, ps[1, 0] ** 2 + ps[2, 0] ** 2 + ps[3, 0] ** 2, atol=1e-6)
    env.eq("particle 2 on shell", ps[0, 1] ** 2 - m2**2, ps[1, 1] ** 2 + ps[2, 1] ** 2 + ps[3, 1] ** 2, atol=1e-6)
    env.eq("value passed through", out, ps[0, 0])


def spectrum(i, flat, used=False):
    def fn(env):
        from hazma.phase_space._three_body import ThreeBody

        ms = [env.real(f"m{j}", 0, 1e5) for j in (1, 2, 3)]
        k = env.real("k", 0, 1e5)
        q = sum(ms) + k
        m = ms[i]
        mj, mk = [ms[j] for j in range(3) if j != i]
        c = [1.0, 0.0, 0.0] if flat else [env.real(f"c{j}", 0, 10) for j in range(3)]
        new = None if flat else (lambda s, t: c[0] + c[1] * s + c[2] * t)
        if used:
            # the same object, used before with other parameters
            tb = ThreeBody(300.0, [10.0, 20.0, 30.0], msqrd=lambda s, t: s)
            tb.energy_distributions(nbins=3)
            tb.masses, tb.cme, tb.msqrd = ms, q, new
        else:
            tb = ThreeBody(q, ms, msqrd=new)
        dist = tb.energy_distributions(nbins=3)[i]
        emax = (q * q + m * m - (mj + mk) ** 2) / (2 * q)
        lo, hi = dist.limits()
        env.eq("lower end", lo, m)
        env.eq("upper end", hi, emax)
        w = (emax - m) / 2
        p = dist.probabilities
        env.claim("number of bins", len(p) == 2)
        env.eq("normalised", (p[0] + p[1]) * w, 1.0)
        ref = []
        for n in (0, 1):
            e = m + w * (n + 0.5)
            s = q * q + m * m - 2 * q * e
            # second invariant mass averages to its centre over the Dalitz strip
            e23 = q - e
            e2c = e23 * (s + mj * mj - mk * mk) / (2 * s)
            strip = env.np.sqrt(kallen(q * q, s, m * m)) * env.np.sqrt(kallen(s, mj * mj, mk * mk)) / s
            e3c = q - e - e2c
            if flat:
                ref.append(strip)
                continue
            en = {i: e}
            js = [j for j in range(3) if j != i]
            en[js[0]], en[js[1]] = e2c, e3c
            s23 = q * q + ms[0] ** 2 - 2 * q * en[0]
            t13 = q * q + ms[1] ** 2 - 2 * q * en[1]
            ref.append((c[0] + c[1] * s23 + c[2] * t13) * strip)
        env.eq("shape", p[0] * ref[1], p[1] * ref[0], rtol=1e-5)

    return fn


def used_invmass(env):
    invmass(env, True)


def invmass(env, used=False):
    from hazma.phase_space._three_body import ThreeBody

    ms = [env.real(f"m{j}", 0, 1e5) for j in (1, 2, 3)]
    k = env.real("k", 0, 1e5)
    q = sum(ms) + k
    if used:
        tb = ThreeBody(300.0, [10.0, 20.0, 30.0])
        tb.invariant_mass_distributions(nbins=3)
        tb.cme, tb.masses = q, ms
    else:
        tb = ThreeBody(q, ms)
    ds = tb.invariant_mass_distributions(nbins=3)
    env.claim("pairs", sorted(ds) == [(0, 1), (0, 2), (1, 2)])
    for (j, l), d in ds.items():
        (i,) = [n for n in range(3) if n not in (j, l)]
        lo, hi = d.limits()
        env.eq("lower end", lo, ms[j] + ms[l])
        env.eq("upper end", hi, q - ms[i])
        w = k / 2
        p = d.probabilities
        env.eq("normalised", (p[0] + p[1]) * w, 1.0)
        ref = []
        for n in (0, 1):
            M = ms[j] + ms[l] + w * (n + 0.5)
            s = M * M
            ref.append(env.np.sqrt(kallen(q * q, s, ms[i] ** 2)) * env.np.sqrt(kallen(s, ms[j] ** 2, ms[l] ** 2)) / M)
        env.eq("shape", p[0] * ref[1], p[1] * ref[0], rtol=1e-5)


def limits(env):
    from hazma.phase_space._utils import energy_limits, invariant_mass_limits

    n = env.choose("n", [2, 3, 4])
    ms = [env.real(f"m{j}", 0, 1e5, lo_s=False) for j in range(n)]
    k = env.real("k", 0, 1e5)
    q = sum(ms) + k
    el = energy_limits(q, ms)
    for j in range(n):
        rest = sum(ms[i] for i in range(n) if i != j)
        env.eq("least energy", el[j][0], ms[j])
        env.eq("largest energy", el[j][1] * 2 * q, q * q + ms[j] ** 2 - rest**2)
    il = invariant_mass_limits(q, ms)
    env.claim("pairs", sorted(il) == [(i, j) for i in range(n) for j in range(i + 1, n)])
    for (i, j), (lo, hi) in il.items():
        env.eq("least pair mass", lo, ms[i] + ms[j])
        env.eq("largest pair mass", hi, q - sum(ms[l] for l in range(n) if l not in (i, j)))


def setters(sig, order):
    return lambda env: _setters(env, sig, order)


def _setters(env, sig, order):
    from hazma.phase_space._three_body import ThreeBody

    ms, a, b, q = _point(env)
    ns, a2, b2, q2 = _point(env, "'")
    cap = Capture(env)
    env.hook("dblquad", cap)
    k1, k2 = env.real("k1", 0, 100), env.real("k2", 0, 100)
    if sig == "st":
        m0, m1 = (lambda s, t: k1 * s), (lambda s, t: k2 * t)
    else:
        m0, m1 = (lambda ps: k1 * ps[0, 0]), (lambda ps: k2 * ps[0, 1])
    tb = ThreeBody(q, ms, msqrd=m0, msqrd_signature=sig)
    cur = m0
    for op in order.split(","):
        if op == "cme":
            tb.cme = q2
        elif op == "masses":
            tb.masses = list(ns)
        elif op == "msqrd":
            tb.msqrd = m1
            cur = m1
        else:
            tb.integrate()
    env.eq("cme reads back", tb.cme, q2)
    env.eq("masses read back", list(tb.masses), list(ns))
    tb.integrate()
    f1, xa, xb, g1, h1 = cap.calls[-1]
    _region(env, cap, q2, ns, a2)
    s = (ns[1] + ns[2] + a2) ** 2
    x = (q2 * q2 + ns[0] ** 2 - s) / (q2 * q2)
    yl, yu = _val(g1, x), _val(h1, x)
    y = env.real("y", 0, 2)
    got = f1(y, x)
    t = q2 * q2 * (1 - y) + ns[1] ** 2
    if sig == "st":
        want = k2 * t if cur is m1 else k1 * s
    else:
        want = k2 * y * q2 / 2 if cur is m1 else k1 * x * q2 / 2
    env.eq("integrand after setters", got, want)


def cases(tier):
    out = [Case(f.__name__, f) for f in (quad_region, flat_and_bounds, t_bounds, momenta, invmass, limits)]
    for i in range(3):
        out.append(Case(f"energy spectrum {i} flat", spectrum(i, True)))
        out.append(Case(f"energy spectrum {i}", spectrum(i, False)))
    out.append(Case("energy spectrum after changes", spectrum(0, False, True)))
    out.append(Case("pair masses after changes", used_invmass))
    for sig in ("st", "momenta"):
        for h in ("cme,masses,msqrd", "msqrd,masses,cme", "masses,use,cme", "use,msqrd,use,cme,masses"):
            out.append(Case(f"setters {sig} {h}", setters(sig, h)))
    return out
