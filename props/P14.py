"""Boosted spectra."""
import numpy as np

from vf.harness import Case

PROPERTY = "P14"
BOUNDS = ("any line energy, product mass, velocity and energy; any spectrum; up to 3 energies per call; 3 or 5 sample points "
          "for the fixed rules")
ASSUMPTIONS = ["scipy's quad is observed at its boundary (integrand and limits), as is its interpolating spline "
               "(nodes, order, extrapolation mode, integration limits)"]
FUNCTIONS = ["hazma.spectra.boost.*"]


def rap(env, name, hi=20):
    """cosh, sinh of an arbitrary positive rapidity log(r)."""
    r = 1 + env.real(name, 0, hi)
    return (r * r + 1) / (2 * r), (r * r - 1) / (2 * r), r


def velocity(env, name="b"):
    r = 1 + env.real(name, 1e-3, 20)
    c, s = (r * r + 1) / (2 * r), (r * r - 1) / (2 * r)
    return s / c, c, r


def delta(massive):
    def fn(env):
        from hazma.spectra.boost import boost_delta_function

        beta, gamma, b = velocity(env)
        sh = gamma * beta
        if massive:
            m = env.real("m", 0, 1e3)
            c0, s0, r0 = rap(env, "r0")
            c, s, r = rap(env, "r")
            e0, k0, e, k = m * c0, m * s0, m * c, m * s
        else:
            m = 0.0
            e0 = k0 = env.real("e0", 0, 1e3)
            e = k = env.real("e", 0, 1e4)
        form = env.choose("form", ["scalar", "array"])
        v = boost_delta_function(e, e0, m, beta) if form == "scalar" else boost_delta_function(env.array([e, e]), e0, m, beta)
        if form == "array":
            env.claim("shape", np.shape(v) == (2,))
            env.eq("elementwise", v[0], v[1])
            v = v[0]
        lo, hi = gamma * e0 - sh * k0, gamma * e0 + sh * k0
        if massive:
            # E in (m cosh(y0-eta), m cosh(y0+eta)) is |y - y0| < eta or, for a slow product, y < eta - y0 excluded
            inside = env.choose("inside", [True, False])
            if inside:
                env.assume(e > lo)
                env.assume(e < hi)
                env.eq("height of the box", v * 2 * sh * k0, 1.0)
            else:
                env.assume(env.choose("side", ["l", "h"]) == "l" and e < lo or e > hi)
                env.eq("nothing outside the box", v, 0.0)
        else:
            if e > lo and e < hi:
                env.eq("height of the box", v * 2 * sh * k0, 1.0)
                env.eq("one product in all", v * (hi - lo), 1.0)
            elif e < lo or e > hi:
                env.eq("nothing outside the box", v, 0.0)
    return fn


def delta_limits(env):
    from hazma.spectra.boost import boost_delta_function

    e0, e = env.real("e0", 0, 1e3), env.real("e", 0, 1e3)
    w = env.choose("which", ["beta<=0", "beta>=1", "e<m"])
    b = env.real("b", 0, 3, lo_s=False)
    if w == "beta<=0":
        env.eq("no boost, no box", boost_delta_function(e, e0, 0.0, -b), 0.0)
    elif w == "beta>=1":
        env.eq("unphysical velocity", boost_delta_function(e, e0, 0.0, 1 + b), 0.0)
    else:
        beta, gamma, _ = velocity(env, "v")
        m = e * (1 + b)
        env.assume(b > 0)
        env.eq("below the mass", boost_delta_function(env.array([e]), m + e0, m, beta)[0], 0.0)


def _may(env, cond):
    """Assumes a condition; False when it is plainly false."""
    if isinstance(cond, (bool, np.bool_)):
        return bool(cond)
    env.assume(cond)
    return True


def double(massive, vary=None):
    def fn(env):
        from hazma.spectra.boost import double_boost_delta_function

        if massive:
            r1, r2 = env.array(env.choose("velocities", [(2.0, 4.0), (4.0, 2.0)]))
            (g1, b1), (g2, b2) = [((r * r + 1) / (2 * r), (r * r - 1) / (r * r + 1)) for r in (r1, r2)]
        else:
            b1, g1, r1 = velocity(env, "b1")
            b2, g2, r2 = velocity(env, "b2")
        form = env.choose("form", ["scalar", "array"])

        def call(e, e0, m):
            if form == "scalar":
                return double_boost_delta_function(e, e0, m, b1, b2)
            return double_boost_delta_function(env.array([e, e]), e0, m, b1, b2)[1]

        if massive:
            m = env.real("m", 0, 1e3)
            fix = [1.5, 3.0, 6.0]
            r0 = 1 + env.real("r0", 0, 20) if vary == "line" else env.array([env.choose("r0", fix)])[0]
            r = 1 + env.real("r", 0, 20) if vary == "product" else env.array([env.choose("r", fix)])[0]
            (c0, s0), (c, s) = [((x * x + 1) / (2 * x), (x * x - 1) / (2 * x)) for x in (r0, r)]
            # interval ends as exponentials of rapidities, slow/fast product
            fast0, fast = env.choose("line", [True, False]), env.choose("product", [True, False])
            if not _may(env, r0 > r1 if fast0 else r0 < r1) or not _may(env, r > r2 if fast else r < r2):
                env.claim("no such case", True)
                return
            lo1, hi1 = (r0 / r1 if fast0 else r1 / r0), r0 * r1
            lo2, hi2 = (r / r2 if fast else r2 / r), r * r2
            args = (m * c, m * c0, m)
            k0 = m * s0
        else:
            e0, e = env.real("e0", 0, 1e3), env.real("e", 0, 1e3)
            lo1, hi1, lo2, hi2 = e0 / r1, e0 * r1, e / r2, e * r2
            args = (e, e0, 0.0)
            k0 = e0
        order = env.choose("order", ["none below", "none above", "overlap low", "overlap high", "inner", "outer"])
        norm = 4 * g1 * g2 * b1 * b2 * k0
        a, b = lo1, hi1
        if order == "none below":
            env.assume(hi2 < lo1)
        elif order == "none above":
            env.assume(lo2 > hi1)
        else:
            env.assume(hi2 > lo1)
            env.assume(lo2 < hi1)
            if order == "overlap low":
                env.assume(lo2 < lo1)
                env.assume(hi2 < hi1)
                b = hi2
            elif order == "overlap high":
                env.assume(lo2 > lo1)
                env.assume(hi2 > hi1)
                a = lo2
            elif order == "inner":
                env.assume(lo2 > lo1)
                env.assume(hi2 < hi1)
                a, b = lo2, hi2
            else:
                env.assume(lo2 < lo1)
                env.assume(hi2 > hi1)
        v = call(*args)
        if order.startswith("none"):
            env.eq("no overlap", v, 0.0)
            return
        ref = env.np.log(b / a) if not massive else 0.5 * env.np.log((b / a) ** 2)
        env.eq("length of the overlap", v * norm, ref)
    return fn


def array_boost(env):
    """Tabulated spectra."""
    from hazma.spectra.boost import dnde_boost_array

    beta, gamma, b = velocity(env)
    I = env.uf("integral")
    J = env.uf("upper")
    made, lims = [], []

    class Spline:
        def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
            made.append((list(x), list(y), k, ext))

        def integral(self, a, b):
            lims.append((a, b))
            return I(a) + 3 * J(b)

    env.hook("InterpolatedUnivariateSpline", Spline)
    kind = env.choose("product", ["massless", "massive"])
    if kind == "massless":
        m = 0.0
        es = [env.real(f"e{i}", 0, 1e3) for i in range(3)]
        ks = es
    else:
        m = env.real("m", 0, 1e3)
        cs = [rap(env, f"r{i}") for i in range(2)]
        es = [m * 0.5] + [m * c[0] for c in cs]
        ks = [None] + [m * c[1] for c in cs]
    f = [env.real(f"f{i}", 0, 10) for i in range(3)]
    out = dnde_boost_array(env.array(f), env.array(es), beta, **({} if m is 0.0 else dict(mass=m)))  # noqa: F632
    env.claim("shape", np.shape(out) == (3,))
    env.claim("one spline", len(made) == 1)
    x, y, k, ext = made[0]
    sel = [i for i in range(3) if ks[i] is not None]
    env.claim("linear interpolation, zero outside the table", k == 1 and ext in (1, "zeros"))
    env.eq("nodes", x, [es[i] for i in sel])
    env.eq("node values", [yy * ks[i] for yy, i in zip(y, sel)], [f[i] for i in sel])
    n = 0
    for i in range(3):
        if ks[i] is None:
            env.eq("zero below the mass", out[i], 0.0)
            continue
        a, b_ = gamma * es[i] - gamma * beta * ks[i], gamma * es[i] + gamma * beta * ks[i]
        ga, gb = lims[n]
        n += 1
        env.eq("limits", [ga, gb], [a, b_])
        env.eq("boosted value", out[i] * 2 * beta * gamma, I(ga) + 3 * J(gb))


def array_limits(env):
    from hazma.spectra.boost import dnde_boost_array

    f = env.array([env.real("f0", 0, 1), env.real("f1", 0, 1)])
    es = env.array([1.0, 2.0])
    b = env.real("b", 0, 3, lo_s=False)
    w = env.choose("which", ["rest", "negative", "one and more"])
    if w == "rest":
        env.eq("no boost", list(dnde_boost_array(f, es, 0.0)), list(f))
    elif w == "negative":
        env.assume(b > 0)
        env.eq("negative velocity gives zero", list(dnde_boost_array(f, es, -b)), [0.0, 0.0])
    else:
        env.eq("velocity of one or more gives zero", list(dnde_boost_array(f, es, 1 + b)), [0.0, 0.0])


def _call(env, way, fn, es, beta, mass, vec, **kw):
    from hazma.spectra import boost as B

    if way == "maker":
        return B.make_boost_function(fn, mass, vectorized=vec)(es, beta, **kw)
    if not vec:
        kw["vectorized"] = False
    if mass is 0.0:  # noqa: F632
        return B.dnde_boost(fn, es, beta, **kw)
    return B.dnde_boost(fn, es, beta, mass=mass, **kw)


def function_quad(massive):
    def fn(env):
        beta, gamma, b = velocity(env)
        f = env.uf("f")
        G, H = env.uf("G"), env.uf("H")
        calls = []

        def quad(g, lo, hi, *a, **k):
            calls.append((g, lo, hi, k))
            return G(lo) + 2 * H(hi), 0.0

        env.hook("quad", quad)
        way = env.choose("way", ["maker", "direct"])
        meth = env.choose("method", ["default", "quad", "quadrature"])
        arg = env.choose("args", [(), (3.0,)])
        fun = (lambda e: f(e)) if not arg else (lambda e, s: s * f(e))
        kw = {} if meth == "default" else dict(method=meth)
        if arg:
            kw["args"] = arg
        if massive:
            m = env.real("m", 0, 1e3)
            c, s, r = rap(env, "r")
            es, ks = [m * 0.5, m * c], [None, m * s]
        else:
            m = 0.0
            es = ks = [env.real("e0", 0, 1e3), env.real("e1", 0, 1e3)]
        out = _call(env, way, fun, env.array(es), beta, m, True, **kw)
        env.claim("shape", np.shape(out) == (2,))
        n = 0
        for i in range(2):
            if ks[i] is None:
                env.eq("zero below the mass", out[i], 0.0)
                continue
            g, lo, hi, _ = calls[n]
            n += 1
            env.eq("lower limit", lo, gamma * es[i] - gamma * beta * ks[i])
            env.eq("upper limit", hi, gamma * es[i] + gamma * beta * ks[i])
            if massive:
                c2, s2, _ = rap(env, "x")
                x, kx = m * c2, m * s2
            else:
                x = kx = env.real("x", 0, 1e3)
            env.eq("integrand", g(x) * kx, (arg[0] if arg else 1.0) * f(x))
            env.eq("value", out[i] * 2 * beta * gamma, G(lo) + 2 * H(hi))
        env.claim("one integral per energy", len(calls) == n)
    return fn


def function_fixed(env):
    """Trapezoid and Simpson rules, massless product."""
    beta, gamma, b = velocity(env)
    f = env.uf("f")
    seen = []
    meth = env.choose("method", ["trapz", "simps"])
    way = env.choose("way", ["maker", "direct"])
    n = env.choose("npts", [3, 5])
    vec = env.choose("vectorized", [True, False])
    e = env.real("e", 0, 1e3)

    def fun(x):
        seen.extend(x if vec else [x])
        return env.array([f(v) for v in x]) if vec else f(x)

    out = _call(env, way, fun, env.array([e]), beta, 0.0, vec, method=meth, npts=n)
    lo, hi = gamma * e * (1 - beta), gamma * e * (1 + beta)
    h = (hi - lo) / (n - 1)
    xs = seen[-n:]
    env.eq("sample points", xs, [lo + h * i for i in range(n)])
    if meth == "trapz":
        w = [0.5] + [1.0] * (n - 2) + [0.5]
    else:
        w = [1 / 3] + [4 / 3 if i % 2 else 2 / 3 for i in range(1, n - 1)] + [1 / 3]
    env.eq("value", out[0] * 2 * beta * gamma, sum(wi * h * f(x) / x for wi, x in zip(w, xs)))


def function_limits(env):
    import warnings

    f = env.uf("f")
    arg = env.choose("args", [(), (3.0,)])
    vec = env.choose("vectorized", [True, False])
    way = env.choose("way", ["maker", "direct"])
    e = [env.real("e0", 0, 1e3), env.real("e1", 0, 1e3)]

    def fun(x, s=1.0):
        return s * env.array([f(v) for v in x]) if vec else s * f(x)

    b = env.real("b", 0, 3, lo_s=False)
    w = env.choose("which", ["rest", "negative", "one and more"])
    kw = dict(args=arg) if arg else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if w == "rest":
            out = env.returns("value at rest", lambda: _call(env, way, fun, env.array(e), 0.0, 0.0, vec, **kw))
            env.eq("no boost", list(out), [(arg[0] if arg else 1.0) * f(x) for x in e])
        elif w == "negative":
            env.assume(b > 0)
            env.eq("negative velocity gives zero", list(_call(env, way, fun, env.array(e), -b, 0.0, vec, **kw)), [0.0, 0.0])
        else:
            env.eq("velocity of one or more gives zero", list(_call(env, way, fun, env.array(e), 1 + b, 0.0, vec, **kw)),
                   [0.0, 0.0])
    env.raises("unknown method", ValueError,
               lambda: _call(env, way, fun, env.array(e), 0.5, 0.0, vec, method="romberg"))


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    return [Case("line massless", delta(False), **kw), Case("line massive", delta(True), **kw),
            Case("line limits", delta_limits, **kw),
            Case("double massless", double(False), **kw), Case("double massive product", double(True, "product"), **kw),
            Case("double massive line", double(True, "line"), **kw),
            Case("array", array_boost, **kw), Case("array limits", array_limits, **kw),
            Case("function massless", function_quad(False), **kw), Case("function massive", function_quad(True), **kw),
            Case("function fixed rules", function_fixed, **kw), Case("function limits", function_limits, **kw)]
