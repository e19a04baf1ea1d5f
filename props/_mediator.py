"""Reference formulas shared by the mediator models."""


def fsr(env, kind, e, q, m, alpha):
    """Photons per energy radiated by a pair of mass m produced at energy q, from tree-level matrix elements.

    b is the pair's velocity in its own frame after emission, b0 before.
    """
    np, pi = env.np, env.pi
    x = 2 * e / q
    r = m * m / (q * q)
    b, b0 = np.sqrt(1 - 4 * r / (1 - x)), np.sqrt(1 - 4 * r)
    L = np.log((1 + b) / (1 - b))
    env.assume(L >= 2 * b)  # atanh b >= b
    env.assume(L >= 2 * b + 2 * b * b * b / 3)
    y = 1 - x
    if kind == "scalar ff":
        v, d = (-2 * y * b0 * b0 * b + (y * y + 1 - 8 * r * y - 4 * r * (1 - 4 * r)) * L), b0 ** 3
    elif kind == "scalar pipi":
        v, d = 2 * (-y * b + (y - 2 * r) * L), b0
    elif kind == "vector ff":
        v, d = (-b * (1 + y * y + 4 * r * y) + (1 + y * y - 4 * r * x - 8 * r * r) * L), b0 * (1 + 2 * r)
    elif kind == "vector pipi":
        v, d = 2 * (-b * (y - x * x - 4 * r * y) + (y - 2 * r) * (1 - 4 * r) * L), b0 ** 3
    else:
        raise KeyError(kind)
    rate = 2 * alpha * v / (pi * q * x * d)
    env.assume(rate >= 0)  # a squared matrix element
    return rate


def recorder(log, name, out):
    def f(*a):
        log.append((name, a))
        return out
    return f


def same_args(env, label, got, want):
    env.claim(f"{label} argument count", len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        env.eq(f"{label} argument {i}", g, w)


def scattering(kind, q, m, med, width, g, z):
    """Spin-averaged |M|^2 of x xbar -> x xbar (s and t channel, Dirac x) at cosine z; explicit traces in s, t."""
    s, mm = q * q, m * m
    t = -(s - 4 * mm) * (1 - z) / 2
    if kind == "scalar":
        ss, tt, st = 4 * (s - 4 * mm) ** 2, 4 * (4 * mm - t) ** 2, -2 * s * t - 8 * mm * (s + t) + 32 * mm * mm
    else:
        ss = 4 * (2 * s * s + 4 * t * t + 4 * s * t - 16 * mm * t + 16 * mm * mm)
        tt = 4 * (4 * s * s + 2 * t * t + 4 * s * t - 16 * mm * s + 16 * mm * mm)
        st = -8 * (s + t) ** 2 + 32 * mm * mm
    a, b, w = s - med * med, t - med * med, med * width
    return g**4 / 4 * (ss / (a * a + w * w) + tt / (b * b + w * w) - 2 * (a * b + w * w) * st / ((a * a + w * w) * (b * b + w * w)))


def self_interaction(env, kind, module, call, med_mass, width, m, g):
    """Cross section is the angular average over 32 pi s: the quadrature's nodes and weights are arbitrary."""
    np, pi = env.np, env.pi
    z, wt = env.real("cosine", -1, 1), env.real("weight", 0, 2)
    env.patch(module, "leggauss", lambda n: (np.array([z] + [0.0] * (n - 1)), np.array([wt] + [0.0] * (n - 1))))
    q = env.real("q", 0.1, 1e4)
    n = env.choose("energies", [0, 2])
    got = call(np.array([q, 2.5 * q]) if n else q)
    for i, e in enumerate((q, 2.5 * q) if n else (q,)):
        x = got[i] if n else (got[0] if hasattr(got, "__len__") else got)
        if e > 2 * m:
            env.eq("cross section", x, wt * scattering(kind, e, m, med_mass, width, g, z) / (32 * pi * e * e), rtol=1e-7)
        else:
            env.eq("closed", x, 0.0)


def change(env, th, w, ask, old):
    """Optionally ask the model something before its parameters (and widths) become the ones under study."""
    if env.choose("history", ["construct", "change"]) == "construct":
        return
    now, keep = {n: getattr(th, n) for n in old}, dict(w)
    w.update({k: 0.25 for k in w if k != "total"})
    w["total"] = 0.25 * (len(w) - 1)
    for n, v in old.items():
        setattr(th, n, v)
    ask(th)
    w.update(keep)
    for n, v in now.items():
        setattr(th, n, v)
