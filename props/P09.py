"""RAMBO phase-space generator."""
from math import factorial

import numpy as np

from props._ref import kallen
from vf.harness import Case

PROPERTY = "P09"
BOUNDS = ("2 to 7 particles; arbitrary energies of the massless seeds along fixed directions (all stages), arbitrary "
          "directions for the stages on their own; arbitrary centre-of-mass energy and masses; up to 3 points per call; "
          "setter histories of up to 4 steps")
ASSUMPTIONS = ["random draws are arbitrary numbers in (0, 1)",
               "for unequal masses the momentum scale is any root of the energy-conservation condition "
               "(the Newton step towards it is checked separately; its numerical convergence is not)"]
FUNCTIONS = ["hazma.phase_space.Rambo.*", "hazma.utils.cross_section_prefactor"]

# direction = (cos theta, azimuth in turns); sines of these are rational
DIRS = [(1.0, 0.0), (-1.0, 0.0), (0.0, 0.0), (0.0, 0.5), (0.0, 0.25), (0.0, 0.75), (0.6, 0.0), (-0.28, 0.25)]


def draws(env, n, npts, dirs, groups=None):
    """Fixed directions; arbitrary energies, equal within a group."""
    groups = groups or list(range(n))

    def script(k):
        k %= 4 * n * npts
        which, j = divmod(k, n * npts)
        i, b = divmod(j, npts)
        c, phi = DIRS[dirs[b][i]]
        if which == 0:
            return (c + 1.0) / 2.0
        if which == 1:
            return phi
        return env.real(f"u{groups[i]}_{b}", 0, 1) if which == 2 else 0.5

    env.rng(script=script)


def conserved(env, ps, q, masses, b=0, tag=""):
    n = len(masses)
    env.eq("energy conserved" + tag, sum(ps[0, i, b] for i in range(n)), q)
    env.eq("momentum conserved" + tag, [sum(ps[k, i, b] for i in range(n)) for k in (1, 2, 3)], [0.0] * 3, atol=1e-6)
    for i in range(n):
        env.eq("on shell" + tag, ps[0, i, b] ** 2, masses[i] ** 2 + ps[1, i, b] ** 2 + ps[2, i, b] ** 2 + ps[3, i, b] ** 2,
               atol=1e-6)
        env.ge("energy at least the mass" + tag, ps[0, i, b], masses[i])


def volume(env, n, q):
    """Massless n-body phase-space volume."""
    return (env.pi / 2) ** (n - 1) * q ** (2 * n - 4) / (factorial(n - 1) * factorial(n - 2)) / (2 * env.pi) ** (3 * n - 4)


def weight(env, ps, q, n, b=0):
    mods = [env.np.sqrt(ps[1, i, b] ** 2 + ps[2, i, b] ** 2 + ps[3, i, b] ** 2) for i in range(n)]
    t1 = sum(mods) ** (2 * n - 3)
    t2 = sum(m * m / ps[0, i, b] for i, m in enumerate(mods))
    t3 = 1.0
    for i, m in enumerate(mods):
        t3 = t3 * m / ps[0, i, b]
    return volume(env, n, q) * t1 * t3 / t2 / q ** (2 * n - 4)


def massless(n, dirs, groups=None, w=True):
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        q = env.real("q", 0, 1e5)
        draws(env, n, 1, [dirs], groups)
        ps, ws = Rambo(q, [0.0] * n).generate(1)
        env.claim("shape", np.shape(ps) == (4, n, 1) and np.shape(ws) == (1,))
        conserved(env, ps, q, [0.0] * n)
        if w:
            env.eq("weight is the massless volume", ws[0], volume(env, n, q))
    return fn


def equal_masses(n, dirs):
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        m, k = env.real("m", 0, 1e4), env.real("k", 0, 1e4)
        q = n * m + k
        draws(env, n, 1, [dirs], [0] * n)
        f = env.uf("msqrd")
        seen = []

        def msqrd(ps):
            seen.append(ps)
            return f(ps[0, 0])

        ps, ws = Rambo(q, [m] * n, msqrd=msqrd).generate(1)
        conserved(env, ps, q, [m] * n)
        env.eq("weight", ws[0], weight(env, ps, q, n) * f(ps[0, 0, 0]))
        env.eq("matrix element sees the momenta", seen[-1][0, 0, 0], ps[0, 0, 0])
    return fn


def _private(env, obj, name):
    f = getattr(obj, name, None)
    if f is None:
        env.claim("stage is not a method of its own", True)
    return f


def boost_stage(n):
    """Arbitrary massless momenta go to the rest frame of total energy q."""
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        q = env.real("q", 0, 1e5)
        r = Rambo(q, [0.0] * n)
        f = _private(env, r, "_boost")
        if f is None:
            return
        cols = []
        for i in range(n):
            a, u, v = env.real(f"a{i}", 0, 10), env.real(f"s{i}", -3, 3), env.real(f"t{i}", -3, 3)
            cols.append([a * (1 + u * u + v * v), 2 * a * u, 2 * a * v, a * (1 - u * u - v * v)])
        e = [sum(c[k] for c in cols) for k in range(4)]
        env.assume(e[0] * e[0] > e[1] * e[1] + e[2] * e[2] + e[3] * e[3])
        arr = env.array([cols[i][k] for k in range(4) for i in range(n)]).reshape((4, n, 1))
        ps = f(arr)
        env.eq("energy conserved", sum(ps[0, i, 0] for i in range(n)), q)
        env.eq("momentum conserved", [sum(ps[k, i, 0] for i in range(n)) for k in (1, 2, 3)], [0.0] * 3, atol=1e-6)
        for i in range(n):
            env.eq("massless", ps[0, i, 0] ** 2, ps[1, i, 0] ** 2 + ps[2, i, 0] ** 2 + ps[3, i, 0] ** 2, atol=1e-6)
        # invariants are preserved up to the overall scale
        dot = lambda p, s: p[0] * s[0] - p[1] * s[1] - p[2] * s[2] - p[3] * s[3]  # noqa: E731
        tot = dot(e, e)
        d0 = dot(cols[0], cols[1])
        d1 = dot([ps[k, 0, 0] for k in range(4)], [ps[k, 1, 0] for k in range(4)])
        env.eq("invariant masses scale together", d1 * tot, d0 * q * q, atol=1e-6)
    return fn


def mass_stage(n):
    """Massive momenta from massless ones, with any root of the energy condition."""
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        ms = [env.real(f"m{i}", 0, 1e4) for i in range(n)]
        k = env.real("k", 0, 1e4)
        q = sum(ms) + k
        r = Rambo(q, ms)
        f = _private(env, r, "_correct_masses")
        if f is None or getattr(r, "_compute_scale_factor", None) is None:
            env.claim("stage is not a method of its own", True)
            return
        xi = env.real("xi", 0, 1)
        env.patch(Rambo, "_compute_scale_factor", lambda self, ps, *a, **kw: env.array([xi]))
        vec = [[env.real(f"p{i}{c}", -1e4, 1e4) for c in "xyz"] for i in range(n - 1)]
        vec.append([-sum(v[c] for v in vec) for c in range(3)])
        es = [env.np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2) for v in vec]
        arr = env.array(es + [v[c] for c in range(3) for v in vec]).reshape((4, n, 1))
        ps = f(arr)
        env.eq("momentum conserved", [sum(ps[c, i, 0] for i in range(n)) for c in (1, 2, 3)], [0.0] * 3, atol=1e-6)
        for i in range(n):
            env.eq("on shell", ps[0, i, 0] ** 2, ms[i] ** 2 + ps[1, i, 0] ** 2 + ps[2, i, 0] ** 2 + ps[3, i, 0] ** 2,
                   atol=1e-6)
            env.gt("positive energy", ps[0, i, 0], 0.0)
            env.eq("direction kept", ps[1, i, 0] * vec[i][1], ps[2, i, 0] * vec[i][0], atol=1e-6)
    return fn


def newton_step(n):
    """One step of the scale-factor iteration is Newton's step from the stated start."""
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        ms = [env.real(f"m{i}", 0, 1e4) for i in range(n)]
        k = env.real("k", 0, 1e4)
        q = sum(ms) + k
        r = Rambo(q, ms)
        f = _private(env, r, "_compute_scale_factor")
        if f is None:
            return
        es = [env.real(f"e{i}", 0, 1e4) for i in range(n - 1)]
        es.append(q - sum(es))
        env.assume(es[-1] > 0)
        zero = [0.0] * n
        arr = env.array(es + zero * 3).reshape((4, n, 1))
        try:
            xi = f(arr, 1)[0]
        except TypeError:
            env.claim("other signature", True)
            return
        x0 = env.np.sqrt(1 - (sum(ms) / q) ** 2)
        h = [env.np.sqrt((e * x0) ** 2 + m * m) for e, m in zip(es, ms)]
        val = sum(h) - q
        slope = sum(x0 * e * e / hh for e, hh in zip(es, h))
        env.eq("Newton step", (x0 - xi) * slope, val, atol=1e-9)
    return fn


def weights_stage(n, same=False):
    """Weight of arbitrary momenta (same: one common momentum)."""
    def fn(env):
        from hazma.phase_space._rambo import Rambo

        ms = [env.real(f"m{i}", 0, 1e4) for i in range(n)]
        k = env.real("k", 0, 1e4)
        q = sum(ms) + k
        r = Rambo(q, ms)
        f = _private(env, r, "_compute_weights")
        if f is None:
            return
        es = [env.real(f"e{i}", 0, 1e4) for i in range(n)]
        p = [env.real(f"p{0 if same else i}", 0, 1e4) for i in range(n)]
        if same:
            es = [es[0], es[1]] + [es[1]] * (n - 2)
        zero = [0.0] * n
        ps = env.array(es + zero + zero + p).reshape((4, n, 1))
        w = f(ps)[0]
        env.eq("weight", w, weight(env, ps, q, n))
    return fn


class FixedPoints:
    """Stands for the generator: fixed points with arbitrary weights."""

    def __init__(self, env, npts, masses):
        self.env, self.npts = env, npts
        self.ws = [env.real(f"w{b}", 0, 10) for b in range(npts)]
        self.calls = []


def integrals(env):
    """Averages over the points, their error, widths and cross sections (2 massless particles)."""
    from hazma.phase_space._rambo import Rambo

    q = env.real("q", 0, 1e5)
    npts = env.choose("points", [2, 3])
    batch = env.choose("batch", [None, 1, 2, "n"])
    if batch == 2 and npts == 3 or batch == 1:
        env.claim("uneven batches are padded", True)
        return
    dirs = [[0, 2], [2, 3], [0, 4]][:npts]
    draws(env, 2, npts if batch is None or batch == "n" else batch, dirs)
    fs = [env.real(f"f{b}", 0, 10) for b in range(npts)]
    cnt = [0]

    def msqrd(ps):
        k = np.shape(ps)[2]
        out = env.array(fs[cnt[0]:cnt[0] + k])
        cnt[0] += k
        return out

    kind = env.choose("quantity", ["integral", "width", "cross section"])
    r = Rambo(q, [0.0, 0.0], msqrd=msqrd)
    b = npts if batch == "n" else batch
    pre = 1.0
    if kind == "integral":
        val, err = r.integrate(npts, batch_size=b)
    elif kind == "width":
        val, err = r.decay_width(npts, batch_size=b)
        pre = 1 / (2 * q)
    else:
        x = env.real("x", 0, 1)
        m1, m2 = env.choose("incoming", [(0.0, x * q), (x * q, 0.0), (x * q / 2, x * q / 2)])
        val, err = r.cross_section(m1, m2, npts, batch_size=b)
        pre = 1 / (2 * q * q * ((1 - x * x) if m1 is not m2 and (m1 == 0.0 or m2 == 0.0) else env.np.sqrt(1 - x * x)))
    vol = 1 / (8 * env.pi)
    mean = sum(fs) / npts
    env.eq("value", val, pre * vol * mean)
    if batch is None or batch == "n":
        var = sum((f - mean) ** 2 for f in fs) / (npts - 1)
        env.eq("error estimate squared", err * err, (pre * vol) ** 2 * var / npts, atol=1e-12)


def setters(env):
    from hazma.phase_space._rambo import Rambo

    q, q2 = env.real("q", 0, 1e5), env.real("k'", 0, 1e4)
    m = env.real("m", 0, 1e4)
    q2 = 2 * m + q2
    hist = env.choose("history", ["cme,masses", "masses,cme", "cme,use,masses", "masses,use,cme", "use,masses,use,cme"])
    big = 2 * m + q
    draws(env, 2, 1, [[0, 4]], [0, 0])
    r = Rambo(big, [0.0, 0.0])
    for op in hist.split(","):
        if op == "cme":
            r.cme = q2
        elif op == "masses":
            r.masses = [m, m]
        else:
            r.generate(1)
    env.eq("cme reads back", r.cme, q2)
    env.eq("masses read back", list(r.masses), [m, m])
    ps, ws = r.generate(1)
    conserved(env, ps, q2, [m, m])
    env.eq("weight", ws[0], weight(env, ps, q2, 2))


def setter_number(env):
    """Changing the number of particles."""
    from hazma.phase_space._rambo import Rambo

    q = env.real("q", 0, 1e5)
    r = Rambo(q, [0.0, 0.0, 0.0])
    r.masses = [0.0, 0.0]
    draws(env, 2, 1, [[0, 4]])
    ps, ws = r.generate(1)
    env.claim("shape", np.shape(ps) == (4, 2, 1))
    conserved(env, ps, q, [0.0, 0.0])
    env.eq("weight", ws[0], volume(env, 2, q))


def batches(env):
    """The generator yields every batch, with the same points as one call."""
    from hazma.phase_space._rambo import Rambo

    q = env.real("q", 0, 1e5)
    n, b = env.choose("sizes", [(2, 1), (3, 2), (4, 2), (1, 1), (2, 2), (1, 2), (2, 3)])
    draws(env, 2, b, [[0, 2], [2, 3], [0, 3]])
    f = env.choose("matrix element", [None, env.uf("msqrd")])
    ms = None if f is None else lambda ps: env.array([f(ps[0, 0, j]) for j in range(np.shape(ps)[2])])
    got = list(Rambo(q, [0.0, 0.0], msqrd=ms).generator(n, b))
    env.claim("number of batches", len(got) == -(-n // b))
    for ps, ws in got:
        env.claim("shape", np.shape(ps) == (4, 2, b) and np.shape(ws) == (b,))
        for j in range(b):
            conserved(env, ps, q, [0.0, 0.0], j)
            env.eq("weight", ws[j], volume(env, 2, q) * (1.0 if f is None else f(ps[0, 0, j])))


def cases(tier):
    kw = dict(undef="assume")
    out = [Case("massless 2", massless(2, [0, 2]), **kw), Case("massless 2 tilted", massless(2, [6, 7]), **kw),
           Case("massless 3", massless(3, [0, 2, 7], w=False), **kw),
           Case("massless 3 weight", massless(3, [0, 2, 3], [0, 0, 0]), **kw),
           Case("massless 4", massless(4, [0, 3, 5, 1], [0, 1, 1, 0]), **kw),
           Case("massless 5", massless(5, [0, 1, 2, 3, 4], [0] * 5), **kw),
           Case("massless 6", massless(6, [0, 1, 2, 3, 4, 5], [0] * 6), **kw),
           Case("massless 7", massless(7, [0, 1, 2, 3, 4, 5, 0], [0] * 7, w=False), **kw),
           Case("equal masses 2", equal_masses(2, [0, 1]), **kw),
           Case("equal masses 2 boosted", equal_masses(2, [0, 4]), **kw),
           Case("equal masses 4", equal_masses(4, [2, 3, 4, 5]), **kw)]
    for n in (2, 3):
        out += [Case(f"boost {n}", boost_stage(n), **kw), Case(f"masses {n}", mass_stage(n), **kw),
                Case(f"Newton step {n}", newton_step(n), **kw), Case(f"weights {n}", weights_stage(n), **kw)]
    out.append(Case("weights 4", weights_stage(4), **kw))
    out += [Case(f"weights {n}, one momentum", weights_stage(n, True), **kw) for n in ((5, 6) if tier == "thorough" else (5,))]
    out += [Case(f.__name__, f, **kw) for f in (integrals, setters, setter_number, batches)]
    return out
