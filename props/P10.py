"""One-dimensional phase-space distributions and Monte-Carlo histograms."""
import numpy as np

from props.P09 import draws, volume
from vf.harness import Case

PROPERTY = "P10"
BOUNDS = ("up to 4 bins with arbitrary edges and values; expectation values of arbitrary functions; histograms of up to 3 "
          "points with arbitrary momenta and weights, in one batch or several; 2 to 4 particles")
ASSUMPTIONS = ["scipy's quad is the exact integral: its integrand and limits are what is checked",
               "the Monte-Carlo points themselves are the business of P09"]
FUNCTIONS = ["hazma.phase_space.PhaseSpaceDistribution1D.*", "hazma.phase_space._dist.normalize_distribution",
             "hazma.phase_space.Rambo.energy_distributions", "hazma.phase_space.Rambo.invariant_mass_distributions",
             "hazma.phase_space.ThreeBody.* (rambo method)"]


def edges_of(env, n, uniform=False):
    a = env.real("a", -10, 10)
    ws = [env.real("w", 0, 10)] * n if uniform else [env.real(f"w{i}", 0, 10) for i in range(n)]
    e = [a]
    for w in ws:
        e.append(e[-1] + w)
    return e, ws


def make(env, n, uniform=False, lo_s=False):
    from hazma.phase_space._dist import PhaseSpaceDistribution1D

    e, ws = edges_of(env, n, uniform)
    y = [env.real(f"y{i}", 0, 10, lo_s=(i == 0) or lo_s) for i in range(n)]
    return PhaseSpaceDistribution1D(env.array(e), env.array(y)), e, ws, y


def normalised(env):
    n = env.choose("bins", [1, 2, 3, 4])
    d, e, ws, y = make(env, n)
    tot = sum(a * b for a, b in zip(y, ws))
    env.eq("probabilities", list(d.probabilities), [v / tot for v in y])
    env.eq("integrates to one", sum(p * w for p, w in zip(d.probabilities, ws)), 1.0)
    env.eq("bins", list(d.bins), e)
    env.eq("centres", list(d.bin_centers), [(a + b) / 2 for a, b in zip(e, e[1:])])
    env.claim("length", len(d) == n)
    lo, hi = d.limits()
    env.eq("limits", [lo, hi], [e[0], e[-1]])


def empty(env):
    """All-zero histograms stay zero; a histogram with negative content does not become a density."""
    from hazma.phase_space._dist import PhaseSpaceDistribution1D, normalize_distribution

    e, ws = edges_of(env, 2)
    d = PhaseSpaceDistribution1D(env.array(e), env.array([0.0, 0.0]))
    env.eq("zero stays zero", list(d.probabilities), [0.0, 0.0])
    b = env.real("b", 0, 10)
    p = normalize_distribution(env.array([0.0, -b]), env.array(e))
    env.claim("not a density", all(_isnan(env, v) for v in p))


def _isnan(env, v):
    r = env.np.isnan(v)
    return bool(r)


def shapes(env):
    from hazma.phase_space._dist import PhaseSpaceDistribution1D as D

    e, _ = edges_of(env, 2)
    y = env.real("y", 0, 1)
    env.raises("as many values as edges", AssertionError, lambda: D(env.array(e), env.array([y, y, y])))
    env.raises("too few values", AssertionError, lambda: D(env.array(e), env.array([y])))


def density(env):
    """Linear between bin centres, zero outside the first and last centre."""
    n = env.choose("bins", [2, 3])
    d, e, ws, y = make(env, n)
    c = [(a + b) / 2 for a, b in zip(e, e[1:])]
    tot = sum(a * b for a, b in zip(y, ws))
    p = [v / tot for v in y]
    t = env.real("t", 0, 1)
    where = env.choose("where", ["below", "above", "at"] + list(range(n - 1)))
    form = env.choose("form", ["scalar", "array"])
    f = (lambda x: d(x)) if form == "scalar" else (lambda x: d(env.array([x]))[0])
    if where == "below":
        env.eq("zero below", f(c[0] - t), 0.0)
    elif where == "above":
        env.eq("zero above", f(c[-1] + t), 0.0)
    elif where == "at":
        env.eq("value at the centres", [f(x) for x in c], p)
    else:
        i = where
        env.eq("linear between centres", f(c[i] + t * (c[i + 1] - c[i])), p[i] + t * (p[i + 1] - p[i]))


def expect(env):
    """Expectation values by the trapezoid and Simpson rules."""
    d, e, ws, y = make(env, 3, uniform=True)
    h = ws[0]
    c = [(a + b) / 2 for a, b in zip(e, e[1:])]
    p = list(d.probabilities)
    f, g = env.uf("f"), env.uf("g")
    k = env.real("k", -5, 5)
    meth = env.choose("method", ["default", "trapz", "simps"])
    kw = {} if meth == "default" else dict(method=meth)
    w = [h / 3, 4 * h / 3, h / 3] if meth == "simps" else [h / 2, h, h / 2]
    ref = lambda fn: sum(wi * pi * fn(x) for wi, pi, x in zip(w, p, c))  # noqa: E731
    kind = env.choose("function", ["scalar", "args", "vector"])
    if kind == "scalar":
        env.eq("expectation value", d.expect(lambda x: f(x), **kw), ref(lambda x: f(x)))
    elif kind == "args":
        env.eq("expectation value with arguments", d.expect(lambda x, a, b: a * f(x) + b, args=(k, 2.0), **kw),
               ref(lambda x: k * f(x) + 2.0))
    else:
        got = d.expect(lambda x: env.array([f(x), g(x)]), **kw)
        env.eq("expectation value of a vector", list(got), [ref(lambda x: f(x)), ref(lambda x: g(x))])


def expect_quad(env):
    d, e, ws, y = make(env, 2)
    f = env.uf("f")
    calls = []

    def quad(fn, a, b, *ar, **kw):
        calls.append((fn, a, b))
        return (0.5, 0.0)

    env.hook("quad", quad)
    k = env.real("k", -5, 5)
    args = env.choose("args", [(), (k,)])
    fn = (lambda x: f(x)) if not args else (lambda x, s: s * f(x))
    r = d.expect(fn, method="quad", args=args)
    env.claim("one integral", len(calls) == 1)
    g, a, b = calls[0]
    env.eq("range", [a, b], [e[0], e[-1]])
    env.eq("value is the integral", r, 0.5)
    x = env.real("x", -10, 40)
    env.eq("integrand is density times function", g(x), d(x) * fn(x, *args))


def bad_method(env):
    d, *_ = make(env, 2)
    env.raises("unknown rule", ValueError, lambda: d.expect(lambda x: x, method="romberg"))


def _points(env, n, npts, q):
    """Arbitrary momenta along z-x with arbitrary energies."""
    cols = [[[env.real(f"{c}{i}_{b}", 0 if c == "e" else -50, 50) for b in range(npts)] for i in range(n)] for c in "exz"]
    zero = [[0.0] * npts for _ in range(n)]
    return [cols[0], cols[1], zero, cols[2]]


def _install(env, ps, ws, batches):
    """Stand-in for the generator: the given points, in batches."""
    from hazma.phase_space._rambo import Rambo

    n, npts = len(ps[0]), len(ws)

    def block(sel):
        flat = [ps[c][i][b] for c in range(4) for i in range(n) for b in sel]
        return env.array(flat).reshape((4, n, len(sel))), env.array([ws[b] for b in sel])

    env.patch(Rambo, "generate", lambda self, *a, **k: block(list(range(npts))))

    def generator(self, *a, **k):
        for sel in batches:
            yield block(sel)

    env.patch(Rambo, "generator", generator)


def _bin(env, v, lo, hi, nb):
    """Index of the bin, as the documentation of numpy has it (last bin closed)."""
    if v < lo or v > hi:
        return None
    for k in range(nb - 1):
        if v < lo + (hi - lo) * (k + 1) / nb:
            return k
    return nb - 1


def _check(env, tag, d, lo, hi, nb, vals, ws):
    a, b = d.limits()
    env.eq(tag + " limits", [a, b], [lo, hi])
    env.claim(tag + " number of bins", len(d) == nb)
    cnt = [0.0] * nb
    for v, w in zip(vals, ws):
        k = _bin(env, v, lo, hi, nb)
        if k is not None:
            cnt[k] = cnt[k] + w
    tot = sum(cnt)
    p = list(d.probabilities)
    h = (hi - lo) / nb
    if all(isinstance(c, float) and c == 0.0 for c in cnt):
        env.eq(tag + " empty", p, [0.0] * nb)
        return
    env.eq(tag + " content", [pk * tot * h for pk in p], cnt, atol=1e-9)


def histogram(kind, n, npts, nb, which, batched, used=False):
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        ms = [env.real(f"m{j}", 0, 10) for j in range(n)]
        k = env.real("k", 0, 30)
        q = sum(ms) + k
        ps = _points(env, n, npts, q)
        ws = [env.real(f"wt{b}", 0, 1) for b in range(npts)]
        # particles other than the one under study sit at fixed points, so that only its bins fork
        keep = {which} if kind == "energy" else set(which)
        for i in range(n):
            if i not in keep:
                for b in range(npts):
                    # outside every range, so that only the bins under study fork
                    ps[0][i][b] = -1.0 if kind == "energy" else 1e6 * (i + 1)
                    ps[1][i][b] = ps[3][i][b] = 0.0
        vals = []
        if kind == "mass":
            # pair momentum of mass M, rapidity factor r, along (0.6, 0, 0.8); split arbitrarily
            i, j = which
            ps[2] = [[0.0] * npts for _ in range(n)]
            for b in range(npts):
                M, rr, u = env.real(f"M_{b}", 0, 50), [2.0, 0.5, 4.0][b], env.real(f"u_{b}", -10, 10)
                tot = [M * (rr * rr + 1) / (2 * rr), 0.6 * M * (rr * rr - 1) / (2 * rr), 0.0,
                       0.8 * M * (rr * rr - 1) / (2 * rr)]
                ps[2][i][b] = u
                for c in range(4):
                    ps[c][j][b] = tot[c] - ps[c][i][b]
                vals.append(M)
        kw = dict(batch_size=1) if batched else env.choose("batch", [{}, dict(batch_size=npts)])
        if used:
            # the same object, used before for other points, masses and energy
            _install(env, [[[5.0 + i] * npts for i in range(n)]] + [[[0.25] * npts for i in range(n)]] * 3, [1.0] * npts, [[b] for b in range(npts)])
            r = Rambo(30.0, [0.5] * n)
            (r.energy_distributions if kind == "energy" else r.invariant_mass_distributions)(npts, nb, **kw)
            r.cme, r.masses = q, ms
        else:
            r = Rambo(q, ms)
        _install(env, ps, ws, [[b] for b in range(npts)])
        if kind == "energy":
            ds = r.energy_distributions(npts, nb, **kw)
            env.claim("one per particle", len(ds) == n)
            rest = sum(m for j, m in enumerate(ms) if j != which)
            hi = (q * q + ms[which] ** 2 - rest**2) / (2 * q)
            _check(env, f"particle {which}", ds[which], ms[which], hi, nb, ps[0][which], ws)
        else:
            ds = r.invariant_mass_distributions(npts, nb, **kw)
            env.claim("one per pair", sorted(ds) == [(i, j) for i in range(n) for j in range(i + 1, n)])
            i, j = which
            lo, hi = ms[i] + ms[j], q - sum(m for l, m in enumerate(ms) if l not in (i, j))
            _check(env, f"pair {which}", ds[which], lo, hi, nb, vals, ws)
    return fn


DIRS3 = [[6, 2, 3], [7, 2, 5], [6, 7, 1]]


def _three_points(env, q, npts):
    """Points of the three-body generator for the given draws, without a matrix element."""
    from hazma.phase_space._rambo import Rambo

    draws(env, 3, npts, DIRS3[:npts], [0, 0, 0])
    return Rambo(q, [0.0] * 3).generate(npts)


def three_body_integral(env):
    """Monte-Carlo integration of a matrix element of (s, t)."""
    from hazma.phase_space._three_body import ThreeBody

    q = env.real("q", 0, 1e5)
    npts = 2
    f, g = env.uf("msqrd"), env.uf("msqrd2")
    ps, ws = _three_points(env, q, npts)
    draws(env, 3, npts, DIRS3[:npts], [0, 0, 0])
    seen = []

    def ms(s, t):
        seen.append((s, t))
        return env.array([f(a) * g(b) for a, b in zip(s, t)])

    tb = ThreeBody(q, [0.0] * 3, msqrd=ms)
    val, err = tb.integrate(method="rambo", npts=npts)
    s, t = seen[-1]
    for b in range(npts):
        env.eq("first invariant is the mass of particles 2 and 3", s[b], q * q - 2 * q * ps[0, 0, b], atol=1e-6)
        env.eq("second invariant is the mass of particles 1 and 3", t[b], q * q - 2 * q * ps[0, 1, b], atol=1e-6)
    env.eq("integral", val, volume(env, 3, q) * sum(f(s[b]) * g(t[b]) for b in range(npts)) / npts)
    env.raises("unknown method", ValueError, lambda: tb.integrate(method="vegas"))


def three_body_histograms(env):
    """Histograms of the Monte-Carlo method weigh each point with the matrix element at its invariants."""
    from hazma.phase_space._three_body import ThreeBody

    q = env.real("q", 0, 1e5)
    npts = 3
    f, g = env.uf("msqrd", 0, 10), env.uf("msqrd2", 0, 10)
    ps, ws = _three_points(env, q, npts)
    draws(env, 3, npts, DIRS3, [0, 0, 0])
    seen = []

    def ms(s, t):
        seen.append((s, t))
        return env.array([f(a) * g(b) for a, b in zip(s, t)])

    tb = ThreeBody(q, [0.0] * 3, msqrd=ms)
    kind = env.choose("kind", ["energy", "mass"])
    nb = 2
    if kind == "energy":
        ds = tb.energy_distributions(nb, method="rambo", npts=npts)
    else:
        ds = tb.invariant_mass_distributions(nb, method="rambo", npts=npts)
    s, t = seen[-1]
    for b in range(npts):
        env.eq("first invariant is the mass of particles 2 and 3", s[b], q * q - 2 * q * ps[0, 0, b], atol=1e-6)
        env.eq("second invariant is the mass of particles 1 and 3", t[b], q * q - 2 * q * ps[0, 1, b], atol=1e-6)
    wts = [f(s[b]) * g(t[b]) for b in range(npts)]
    if kind == "energy":
        for i in range(3):
            _check(env, f"particle {i}", ds[i], 0.0, q / 2, nb, [ps[0, i, b] for b in range(npts)], wts)
    else:
        for (i, j), d in ds.items():
            (l,) = [n for n in range(3) if n not in (i, j)]
            vals = [env.np.sqrt(q * q - 2 * q * ps[0, l, b]) for b in range(npts)]
            _check(env, f"pair {i}{j}", d, 0.0, q, nb, vals, wts)


def cases(tier):
    kw = dict(undef="assume")
    out = [Case(f.__name__, f, **kw) for f in (normalised, empty, shapes, density, expect, expect_quad, bad_method,
                                               three_body_integral, three_body_histograms)]
    out += [Case("energies after changes", histogram("energy", 3, 2, 2, 1, False, True), **kw),
            Case("masses after changes", histogram("mass", 3, 1, 2, (0, 2), False, True), **kw)]
    big = tier == "thorough"
    for b in (False, True):
        t = " in batches" if b else ""
        for n, w in [(3, 0), (3, 1), (3, 2), (2, 0), (4, 3)]:
            out.append(Case(f"energies {n}:{w}{t}", histogram("energy", n, 3 if big else 2, 2, w, b), **kw))
        out.append(Case(f"masses 2:(0, 1){t}", histogram("mass", 2, 2, 2, (0, 1), b), **kw))
        for n, w in [(3, (0, 1)), (3, (0, 2)), (3, (1, 2)), (4, (1, 3)), (4, (0, 2))]:
            out.append(Case(f"masses {n}:{w}{t}", histogram("mass", n, 1, 2, w, b), **kw))
    return out
