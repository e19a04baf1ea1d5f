"""Thermal relic density."""
import os

import numpy as np

from vf.harness import Case

PROPERTY = "P06"
BOUNDS = ("any temperature, mass, degrees of freedom, cross section and freeze-out point; scalars and arrays of 1 to 3 "
          "temperatures; the first five terms of the Bessel sums")
ASSUMPTIONS = ["real arithmetic", "scipy's quad is observed at its boundary, its root finder and ODE solver return arbitrary results",
               "Bessel functions and the tabulated degrees of freedom are arbitrary positive functions"]
FUNCTIONS = ["hazma.relic_density._thermal_functions.*", "hazma.relic_density._approx.*", "hazma.relic_density._diffeq.*",
             "hazma.relic_density._rd.relic_density"]


def tables(env):
    """The tabulated degrees of freedom become arbitrary functions of the temperature in MeV."""
    from scipy.interpolate import UnivariateSpline

    from hazma import relic_density

    d = np.genfromtxt(os.path.join(os.path.dirname(relic_density.__file__), "smdof.dat"), delimiter=",", skip_header=1).T
    h = UnivariateSpline(d[0] * 1e3, d[2], s=0, ext=3)
    ref = {"sqrt_gstar": UnivariateSpline(d[0] * 1e3, d[1], s=0, ext=3), "heff": h, "heff_deriv": h.derivative(n=1)}
    F = {"sqrt_gstar": env.uf("sqrt_gstar", 1, 12), "heff": env.uf("heff", 3, 110), "heff_deriv": env.uf("heff_deriv", 0.01, 1),
         "other": env.uf("other", 1, 2)}

    def tck(s):
        return [np.asarray(v, float) for v in s._eval_args]

    refs = {k: tck(s) for k, s in ref.items()}

    def value(self, x, nu=0, ext=None):
        t = tck(self)
        name = "other"
        for k, r in refs.items():
            if nu == 0 and all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(t, r)):
                name = k
            elif nu == 1 and k == "heff" and all(np.shape(a) == np.shape(b) and np.allclose(a, b) for a, b in zip(t, r)):
                name = "heff_deriv"
        if np.ndim(x):
            return env.array([F[name](v) for v in np.ravel(x)]).reshape(np.shape(x))
        return F[name](x)

    env.patch(UnivariateSpline, "__call__", value)
    return F


def bessel(env, n, x):
    from vf.shim import SPECIAL

    if env.sym:
        return SPECIAL.kn(n, x) if n == 2 else SPECIAL.k1(x)
    import scipy.special

    return float(scipy.special.kn(n, float(x)) if n == 2 else scipy.special.k1(float(x)))


def density(env, T, m, g, fermion):
    """(n, dn/dT) of an ideal gas: sum over n of (+-1)^(n+1) / n K2(n m / T) m^2 T / 2 pi^2."""
    s = -1.0 if fermion else 1.0
    if isinstance(m, (int, float)) and m == 0:
        z3 = 1.2020569031595942
        nb = z3 / env.pi ** 2 * (0.75 if fermion else 1.0)
        return g * nb * T ** 3, 3 * g * nb * T ** 2
    c = g / (2 * env.pi ** 2)
    k2 = [s ** (n + 1) / n * bessel(env, 2, n * (m / T)) for n in range(1, 6)]
    k1 = [s ** (n + 1) * bessel(env, 1, n * (m / T)) for n in range(1, 6)]
    n = c * m * m * T * sum(k2)
    # d/dx (x^2 K2(n x)) = -n x^2 K1(n x)
    return n, 3 * n / T + c * m ** 3 / T * sum(k1)


def entropy(env, F, T):
    k = 2 * env.pi ** 2 / 45
    return k * F["heff"](T) * T ** 3, k * (F["heff_deriv"](T) * T ** 3 + 3 * F["heff"](T) * T ** 2)


def gas(what, massless):
    def fn(env):
        """Densities and comoving densities with their temperature derivatives."""
        from hazma.relic_density import _thermal_functions as tf

        F = tables(env)
        fermion = env.choose("statistics", ["fermion", "boson", "default"])
        shape = env.choose("shape", ["scalar", 1, 2]) if what != "weq" else "scalar"
        ts = [env.real(f"T{i}", 0.1, 1e3) for i in range(1 if shape == "scalar" else shape)]
        m = 0 if massless else env.real("m", 0.1, 1e4)
        kw, g = {}, 2.0
        if fermion != "default":
            kw["is_fermion"] = fermion == "fermion"
        if env.choose("dof", ["default", "given"]) == "given":
            g = kw["g"] = env.real("g", 1, 10)
        T = ts[0] if shape == "scalar" else env.array(ts)
        n, s = [], []
        for t in ts:
            n.append(density(env, t, m, g, fermion != "boson"))
            s.append(entropy(env, F, t))
        tol = dict(rtol=1e-9)
        if what != "entropy" and not massless and env.choose("history", ["first", "second"]) == "second":
            # the same temperature for another mass
            for f in (tf.neq, tf.neq_deriv, tf.yeq, tf.yeq_deriv) + ((tf.weq,) if shape == "scalar" else ()):
                f(T, 2 * m, **kw)
        if what == "weq":
            w = tf.weq(T, m, **kw)
            if n[0][0] > 0:
                env.eq("logarithm", env.np.exp(w) * s[0][0], n[0][0], **tol)
            else:
                env.claim("no particles", w == -np.inf)
            return
        fns = {"neq": (tf.neq, tf.neq_deriv), "entropy": (tf.sm_entropy_density, tf.sm_entropy_density_deriv),
               "yeq": (tf.yeq, tf.yeq_deriv)}[what]
        args = () if what == "entropy" else (m,)
        if what == "entropy":
            kw = {}
        v, dv = fns[0](T, *args, **kw), fns[1](T, *args, **kw)
        env.claim("shape", np.shape(v) == np.shape(T) and np.shape(dv) == np.shape(T))
        v, dv = (np.ravel(v), np.ravel(dv)) if np.ndim(T) else ([v], [dv])
        for i, t in enumerate(ts):
            if what == "neq":
                env.eq("density", v[i], n[i][0], **tol)
                env.eq("derivative", dv[i], n[i][1], **tol)
            elif what == "entropy":
                env.eq("entropy", v[i], s[i][0], **tol)
                env.eq("derivative", dv[i], s[i][1], **tol)
            else:
                env.eq("comoving density", v[i] * s[i][0], n[i][0], **tol)
                env.eq("derivative", dv[i] * s[i][0] ** 2, n[i][1] * s[i][0] - n[i][0] * s[i][1], **tol)
        if what == "yeq" and not massless:
            x = m / ts[0]
            dx = tf.yeq_derivx(x, m, **kw)
            env.eq("derivative in m / T", dx * x * x * s[0][0] ** 2, -m * (n[0][1] * s[0][0] - n[0][0] * s[0][1]), **tol)
    return fn


def average(env):
    """Gondolo-Gelmini: x / 4 K2^2 times the integral of sigma z^2 (z^2 - 4) K1(x z) from threshold."""
    from hazma.relic_density import _thermal_functions as tf

    x, mx = env.real("x", 0.01, 300), env.real("mx", 0.1, 1e4)
    sig = env.uf("sigma", 0, 10)
    got = []
    val = env.real("integral", 0, 1)

    def quad(f, a, b, args=(), **k):
        got.append((lambda z: f(z, *args), a, b))
        return val, 0.0

    env.hook("quad", quad)

    class M:
        pass

    m = M()
    m.mx = mx
    m.annihilation_cross_sections = lambda e: {"a": 7.0, "total": sig(e)}
    if env.choose("history", ["first", "second"]) == "second":
        # another model of the same kind and mass, then other couplings of this one
        o = M()
        o.mx, o.annihilation_cross_sections = mx, lambda e: {"total": 3.0}
        tf.thermal_cross_section(x, o)
        keep, m.annihilation_cross_sections = m.annihilation_cross_sections, o.annihilation_cross_sections
        tf.thermal_cross_section(x, m)
        m.annihilation_cross_sections = keep
        got.clear()
    out = tf.thermal_cross_section(x, m)
    env.claim("one integral", len(got) == 1)
    f, a, b = got[0]
    env.eq("from threshold", a, 2.0)
    env.ge("covers the thermal range", (b - 2) * x, 20.0)
    z = env.real("z", 2, 50)
    # value at an arbitrary energy, prefactor apart
    k2 = bessel(env, 2, x)
    env.eq("integrand and prefactor", out * f(z) * 4 * k2 * k2,
           x * val * sig(mx * z) * z * z * (z * z - 4) * bessel(env, 1, x * z), rtol=1e-9)


def own_average(env):
    """A model's own thermal average is used as it is."""
    from hazma.relic_density import _thermal_functions as tf

    F = env.uf("own", 0, 10)

    class M:
        mx = 1.0

        def thermal_cross_section(self, x):
            return F(x)

        def annihilation_cross_sections(self, e):
            raise AssertionError

    x = env.real("x", 0.01, 1e4)
    env.eq("own average", tf.thermal_cross_section(x, M()), F(x))


def model(env):
    F = env.uf("sv", 0.01, 10)

    class M:
        def thermal_cross_section(self, x):
            return self.F(x)

    m = M()
    m.F = F
    m.mx = env.real("mx", 0.1, 1e4)
    return m, F


def hubble(env, mx):
    from hazma.parameters import plank_mass

    return env.np.sqrt(env.pi / 45) * mx * plank_mass


def freeze_out(semi):
    def fn(env):
        """Freeze-out: where the departure from equilibrium is delta; then annihilation without production."""
        from hazma import parameters
        from hazma.relic_density import relic_density
        from hazma.relic_density import _approx, _rd

        F = tables(env)
        m, sv = model(env)
        mx = m.mx
        xs = env.real("xstar", 1, 50)
        d = env.choose("delta", ["default", "given"])
        delta = env.real("delta", 0.1, 3) if d == "given" else None
        roots, ints = [], []

        class Root:
            root, converged, flag = xs, True, ""

        def solve(f, args=(), bracket=None, **k):
            roots.append((lambda x: f(x, *args), bracket))
            return Root

        def brentq(f, a, b, args=(), **k):
            roots.append((lambda x: f(x, *args), (a, b)))
            return xs

        env.hook("root_scalar", solve)
        env.hook("brentq", brentq)
        A = env.real("integral", 0, 1e3)

        def quad(f, a, b, args=(), **k):
            ints.append((lambda x: f(x, *args), a, b))
            return A, 0.0

        env.hook("quad", quad)
        kw = {"delta": delta} if d == "given" else {}
        if env.choose("history", ["first", "second"]) == "second":
            # the same object with another mass and cross section
            m.mx, m.F = 77.0, lambda x: 1.5
            relic_density(m, **kw), _approx.compute_xstar(m, **kw), _approx.compute_alpha(m, xs)
            m.mx, m.F = mx, sv
            roots.clear(), ints.clear()
        if semi == "relic":
            om = relic_density(m, **kw)
        else:
            env.eq("root", _approx.compute_xstar(m, **kw), xs)
            al = _approx.compute_alpha(m, xs)
        env.claim("one root, one integral", len(roots) == 1 and len(ints) == 1)
        res, br = roots[0]
        env.claim("bracket", br is not None and br[0] <= 1.0 and br[1] >= 50.0 and br[0] > 0)
        f, a, b = ints[0]
        env.eq("from freeze-out", a, xs)
        env.ge("until annihilation ends", b, 20 * xs)
        x = env.real("x", 0.1, 100)
        T = mx / x
        if semi == "relic":
            n, _ = density(env, mx / xs, mx, 2.0, True)
            s, _ = entropy(env, F, mx / xs)
            y = n / s
            Om = mx * parameters.sm_entropy_density_today / parameters.rho_crit
            al = hubble(env, mx) * A
            env.eq("relic density", om * (1 + y * al), Om * y, rtol=1e-9)
        else:
            env.eq("annihilation after freeze-out", al * f(x) * x * x,
                   hubble(env, mx) * F["sqrt_gstar"](T) * sv(x) * A, rtol=1e-9)
            n, dn = density(env, T, mx, 2.0, True)
            s, ds = entropy(env, F, T)
            db = 1.0 if delta is None else delta * (2 + delta) / (1 + delta)
            env.eq("departure from equilibrium", res(x) * s * s,
                   -mx * (dn * s - n * ds) + hubble(env, mx) * F["sqrt_gstar"](T) * db * sv(x) * n * n, rtol=1e-9)
    return fn


def boltzmann(env):
    """d ln Y / d ln x = -sqrt(pi / 45) Mpl m sqrt(g*) <sv> / x (Y - Yeq^2 / Y), and its derivative in ln Y."""
    from hazma.relic_density import _diffeq

    F = tables(env)
    m, sv = model(env)
    x = env.real("x", 0.1, 100)
    Y = env.real("Y", 1e-6, 10)
    lx, w = env.np.log(x), env.np.log(Y)
    W = env.array([w])
    from hazma.relic_density._thermal_functions import weq

    q = weq(m.mx / x, m.mx, g=2.0)  # decided in the cases above
    env.assume(not (isinstance(q, float) and q == -np.inf))
    ye = env.np.exp(q)
    C = hubble(env, m.mx) * F["sqrt_gstar"](m.mx / x) * sv(x)
    r, j = _diffeq.boltzmann_eqn(lx, W, m), _diffeq.jacobian_boltzmann_eqn(lx, W, m)
    env.claim("shape", np.shape(r) == (1,) and np.shape(j) == (1, 1))
    env.eq("rate", r[0] * x * Y, -C * (Y * Y - ye * ye), rtol=1e-9, atol=1e-9)
    env.eq("derivative", j[0][0] * x * Y, -C * (Y * Y + ye * ye), rtol=1e-9)


def numerical(env):
    """The numerical solution starts in equilibrium and ends at the requested temperature."""
    from hazma import parameters
    from hazma.relic_density import _diffeq, relic_density

    F = tables(env)
    m, sv = model(env)
    got = []
    w1, w2 = env.real("w1", -10, 2), env.real("w2", -10, 2)

    class Sol:
        pass

    sol = Sol()
    sol.y = env.array([w1, w2]).reshape(1, 2)

    def ivp(f, span, y0, **k):
        got.append((f, span, y0, k))
        return sol

    env.hook("solve_ivp", ivp)
    kw = {}
    x0 = 1.0
    if env.choose("start", ["default", "given"]) == "given":
        x0 = kw["x0"] = env.real("x0", 0.5, 20)
    if env.choose("end", ["default", "given"]) == "given":
        xf = kw["xf"] = env.real("xf", 30, 1e4)
    else:
        xf = None
    kw |= env.choose("solver", [{}, {"method": "BDF", "rtol": 1e-7, "atol": 1e-9}])
    n, _ = density(env, m.mx / x0, m.mx, 2.0, True)
    s, _ = entropy(env, F, m.mx / x0)
    env.assume(n > 0)
    om = relic_density(m, semi_analytic=False, **kw)
    env.claim("one solution", len(got) == 1)
    f, span, y0, k = got[0]
    env.claim("solver", k.get("method") == kw.get("method", "Radau") and k.get("rtol") == kw.get("rtol", 1e-5)
              and k.get("atol") == kw.get("atol", 1e-3))
    env.eq("start", env.np.exp(span[0]), x0, rtol=1e-9)
    if xf is None:
        env.ge("end", span[1], span[0] + 6)
    else:
        env.eq("end", env.np.exp(span[1]), xf, rtol=1e-9)
    env.claim("one equation", len(y0) == 1)
    env.eq("equilibrium", env.np.exp(y0[0]) * s, n, rtol=1e-9)
    x, Y = env.real("x", 0.1, 100), env.real("Y", 1e-6, 10)
    lx, W = env.np.log(x), env.array([env.np.log(Y)])
    n2, _ = density(env, m.mx / x, m.mx, 2.0, True)
    env.assume(n2 > 0)
    env.eq("equation", f(lx, W), _diffeq.boltzmann_eqn(lx, W, m))
    if callable(k.get("jac")):
        env.eq("jacobian", k["jac"](lx, W), _diffeq.jacobian_boltzmann_eqn(lx, W, m))
    env.eq("relic density", om, env.np.exp(w2) * m.mx * parameters.sm_entropy_density_today / parameters.rho_crit, rtol=1e-9)


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = []
    for what in ("neq", "entropy", "yeq", "weq"):
        for massless in (False, True):
            if what == "entropy" and massless:
                continue
            out.append(Case(f"{what}{' massless' if massless else ''}", gas(what, massless), **kw))
    out += [Case("thermal average", average, **kw), Case("model's own average", own_average, **kw),
            Case("freeze-out", freeze_out("parts"), **kw), Case("semi-analytic relic density", freeze_out("relic"), **kw),
            Case("boltzmann equation", boltzmann, **kw), Case("numerical relic density", numerical, **kw)]
    return out
