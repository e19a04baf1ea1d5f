"""Limits from gamma-ray observations."""
import numpy as np

from vf.harness import Case

PROPERTY = "P03"
BOUNDS = ("any spectrum linear between 3 to 5 energies, any masses, targets, fluxes and errors; 1 to 3 bins; 3 window edges; "
          "1 or 2 background parameters on 3 energies")
ASSUMPTIONS = ["real arithmetic", "linear scipy splines are exact piecewise-linear functions",
               "scipy.stats quantiles are arbitrary positive functions"]
FUNCTIONS = ["hazma.theory._theory_gamma_ray_limits.*", "hazma.flux_measurement.FluxMeasurement"]


def linear(env, x, y, ext="raise"):
    from scipy.interpolate import InterpolatedUnivariateSpline

    if env.sym:
        from vf.shim import SymLinSpline

        return SymLinSpline(x, y, k=1, ext=ext)
    return InterpolatedUnivariateSpline(x, y, k=1, ext=ext)


def target(env, vx=True):
    from hazma.target_params import TargetParams

    v = env.real("vx", 0, 0.9) if vx else 1e-3
    return TargetParams(J=env.real("J", 1, 100), D=env.real("D", 1, 100), dOmega=env.real("dOmega", 0.1, 12), vx=v)


def theory(env, kind, spl, record=None):
    """A theory whose convolved spectrum is the given spline."""
    from hazma import theory as T

    mx = env.real("mx", 1, 100)
    seen = [] if record is None else record

    if kind == "ann":
        class M(T.TheoryAnn):
            def total_conv_spectrum_fn(self, lo, hi, e_cm, res, n_pts=1000):
                seen.append((lo, hi, e_cm, res))
                return spl
    else:
        class M(T.TheoryDec):
            def total_conv_spectrum_fn(self, lo, hi, res, n_pts=1000):
                seen.append((lo, hi, None, res))
                return spl
    for n in list(getattr(M, "__abstractmethods__", ())):
        setattr(M, n, None)
    m = M()
    m.mx = mx
    return m, mx, seen


def per_rate(env, kind, mx, t, jd=True):
    """Flux in the target per unit rate and unit spectrum: annihilation of two species, or decay."""
    if kind == "ann":
        return t.J * t.dOmega / (4 * env.pi) / (4 * mx * mx)
    return t.D * t.dOmega / (4 * env.pi) / mx


def energy(kind, mx, vx):
    return 2 * mx * (1 + vx * vx / 2) if kind == "ann" else None


def flux_measurement(env):
    """Files hold E^p times the flux and the end points of its error bars; the input arrays are left alone."""
    from hazma.flux_measurement import FluxMeasurement

    n = env.choose("bins", [1, 2])
    p = env.choose("power", [None, 1, 2, 3])
    lo = [env.real(f"lo{i}", 0.1, 10) for i in range(n)]
    hi = [a + env.real(f"w{i}", 0.1, 10) for i, a in enumerate(lo)]
    f, u, d = ([env.real(f"{q}{i}", 0, 10) for i in range(n)] for q in "fud")
    args = [env.array(x) for x in (lo, hi, f, u, d)]
    res, t = object(), object()
    way = env.choose("way", ["arrays", "file"])
    kw = {} if p is None else dict(power=p)
    if way == "file":
        from hazma import flux_measurement as FM

        env.patch(np if not env.sym else env.np, "loadtxt", lambda fn, delimiter=None, **k: env.array(
            [x[i] for i in range(n) for x in (lo, hi, f, u, d)]).reshape(n, 5))
        assert FM is not None
        m = FluxMeasurement.from_file("x.dat", res, t, **kw)
    else:
        m = FluxMeasurement(*args, res, t, **kw)
        for a, x in zip(args, (lo, hi, f, u, d)):
            env.eq("input arrays", list(a), x)
        # a second measurement from the same arrays is the same
        m2 = FluxMeasurement(*args, res, t, **kw)
        env.eq("again", list(m2.fluxes), list(m.fluxes))
        env.eq("again", list(m2.upper_errors), list(m.upper_errors), atol=1e-9)
    p = 2 if p is None else p
    for i in range(n):
        e = (lo[i] + hi[i]) / 2
        env.eq("flux", m.fluxes[i] * e**p, f[i])
        env.eq("upper", (m.fluxes[i] + m.upper_errors[i]) * e**p, u[i], atol=1e-9)
        env.eq("lower", (m.fluxes[i] - m.lower_errors[i]) * e**p, d[i], atol=1e-9)
    env.eq("edges", list(m.e_lows) + list(m.e_highs), lo + hi)
    env.claim("resolution and target", m.energy_res is res and m.target is t)


def measurement(env, edges, t, res):
    from hazma.flux_measurement import FluxMeasurement

    n = len(edges) - 1
    m = FluxMeasurement(env.array(edges[:-1]), env.array(edges[1:]), env.array([0.0] * n), env.array([1.0] * n),
                        env.array([0.0] * n), res, t)
    m.fluxes = env.array([env.real(f"obs{i}", 0, 10) for i in range(n)])
    m.upper_errors = env.array([env.real(f"err{i}", 0.01, 10) for i in range(n)])
    m.lower_errors = env.array([env.real(f"erl{i}", 0.01, 10) for i in range(n)])
    return m


def binned(kind, method, n):
    def fn(env):
        """The limit is the rate at which the first bin (or the chi squared) reaches its allowance."""
        import scipy.stats

        edges = [env.real("e0", 0.1, 10)]
        for i in range(n):
            edges.append(edges[-1] + env.real(f"w{i}", 0.5, 10))
        xs, ys = [edges[0]], [env.real("y0", 0, 10, lo_s=False)]
        for i in range(n):
            xs += [(edges[i] + edges[i + 1]) / 2, edges[i + 1]]
            ys += [env.real(f"ym{i}", 0, 10, lo_s=False), env.real(f"y{i + 1}", 0, 10, lo_s=False)]
        empty = env.choose("empty bin", [False, True])
        if empty:
            ys[0] = ys[1] = ys[2] = 0.0
        t = target(env)
        m, mx, seen = theory(env, kind, linear(env, env.array(xs), env.array(ys)))
        res = object()
        ms = measurement(env, edges, t, res)
        ns = env.choose("significance given", [True, False])
        sig = env.real("sigma", 0.1, 10) if ns else 2.0
        if method == "chi2":
            cdf, ppf = env.uf("cdf", 0.5, 1), env.uf("ppf", 0.1, 100)
            env.patch(scipy.stats.norm, "cdf", lambda x, *a, **k: cdf(x))
            env.patch(scipy.stats.chi2, "ppf", lambda q, df, *a, **k: ppf(q, df))
        out = m.binned_limit(ms, *([sig] if ns else []), **({} if method == "default" else dict(method=method)))
        lo, hi, q, r = seen[0]
        env.eq("energy range", [lo, hi], [edges[0], edges[-1]])
        if kind == "ann":
            env.eq("centre-of-mass energy", q, energy(kind, mx, t.vx))
        env.claim("resolution", r is res)
        a = per_rate(env, kind, mx, t)
        phi = []
        for i in range(n):
            h = (edges[i + 1] - edges[i]) / 2
            phi.append(a * h * (ys[2 * i] + 2 * ys[2 * i + 1] + ys[2 * i + 2]) / 2)
        w = [t.dOmega * (edges[i + 1] - edges[i]) for i in range(n)]
        if method != "chi2":
            ok = [w[i] * (ms.fluxes[i] + sig * ms.upper_errors[i]) for i in range(n)]
            hit = False
            any_ = False
            for i in range(n):
                if phi[i] > 0:
                    any_ = True
                    env.le("allowed in every bin", out * phi[i], ok[i], rtol=1e-7)
                    hit = hit | (out * phi[i] >= ok[i] * (1 - 1e-7))
            if any_:
                env.claim("reaches one bin", hit)
            else:
                env.claim("no limit without signal", out == np.inf)
        else:
            c = 0.0
            for i in range(n):
                d = phi[i] - w[i] * ms.fluxes[i]
                if d > 0:
                    c = c + (d / (w[i] * ms.upper_errors[i])) ** 2
            if isinstance(c, float) and c == 0.0:
                env.claim("no limit without excess", out == np.inf)
            else:
                env.eq("critical value", out * out * c, ppf(cdf(sig), n), rtol=1e-5)
                env.ge("positive", out, 0.0)
        if method == "default":
            env.raises("unknown method", NotImplementedError, lambda: m.binned_limit(ms, method="bins"))
    return fn


def unbinned(kind, way):
    def fn(env):
        """Smallest detectable rate: n_sigma over the best signal to root background of all windows of the grid."""
        e0 = env.real("e0", 0.1, 10)
        ks = [e0, e0 * 2, e0 * 4]
        if way == "default":
            kw = dict(n_grid=3)
            grid = ks
        elif way == "grid":
            grid = [e0, e0 * 2, e0 * 4]
            kw = dict(e_grid=env.array(grid))
        else:
            grid = [e0 * 1.5, e0 * 2.5]
            kw = dict(e_grid=env.array(grid))
        ys = [env.real(f"y{i}", 0, 10) for i in range(3)]
        aes = [env.real(f"a{i}", 0.1, 10) for i in range(3)]
        bg = env.uf("bg", 0.1, 10)
        t = target(env)

        class Area:
            x = env.array([ks[0], ks[1], ks[2]])

            def __call__(self, e):
                return linear(env, env.array(ks), env.array(aes))(e)

        class Bg:
            def dPhi_dEdOmega(self, es):
                return env.array([bg(e) for e in es]) if np.ndim(es) else bg(es)

        m, mx, seen = theory(env, kind, linear(env, env.array(ks), env.array(ys)))
        res = object()
        tobs = env.real("tobs", 1, 100)
        ns = env.choose("significance given", [True, False])
        sig = env.real("sigma", 0.1, 10) if ns else 5.0
        if ns:
            kw["n_sigma"] = sig
        out = m.unbinned_limit(Area(), res, tobs, t, Bg(), **kw)
        lo, hi, q, r = seen[0]
        env.eq("energy range", [lo, hi], [ks[0], ks[-1]])
        if kind == "ann":
            env.eq("centre-of-mass energy", q, energy(kind, mx, t.vx))
        env.claim("resolution", r is res)
        a = per_rate(env, kind, mx, t)
        S_ = linear(env, env.array(ks), env.array([y * ae for y, ae in zip(ys, aes)]))
        B_ = linear(env, env.array(ks), env.array([bg(k) * ae for k, ae in zip(ks, aes)]))
        hit = False
        for i in range(len(grid)):
            for j in range(i + 1, len(grid)):
                s = a * tobs * S_.integral(grid[i], grid[j])
                b = t.dOmega * tobs * B_.integral(grid[i], grid[j])
                # out * s / sqrt(b) <= sig in every window, with equality in one
                env.le("not detectable below", out * s, sig * b**0.5, rtol=1e-6)
                hit = hit | (out * s >= sig * b**0.5 * (1 - 1e-6))
        env.claim("detectable in one window", hit)
    return fn


def fisher(kind, nb, way):
    def fn(env):
        """Information matrix of the rate and the background parameters, and its inverse."""
        import scipy.stats

        from hazma.background_model import ParametricBackgroundModel
        from hazma.theory._theory_gamma_ray_limits import fisher as fisher_fn

        e0 = env.real("e0", 0.1, 10)
        ks = [e0, e0 * 2, e0 * 4]
        ys = [env.real(f"y{i}", 0.1, 10) for i in range(3)]
        aes = [env.real(f"a{i}", 0.1, 10) for i in range(3)]
        bs = [env.real(f"b{i}", 0.1, 10) for i in range(3)]
        names = ["amp", "index"][:nb]
        ds = {k: [env.real(f"d{k}{i}", 0.1, 5) for i in range(3)] for k in names}
        vals = {k: env.real(f"v{k}", -5, 5) for k in names}

        def at(es, v):
            f = linear(env, env.array(ks), env.array(v))
            return env.array([f(e) for e in es]) if np.ndim(es) else f(es)

        class Bg(ParametricBackgroundModel):
            def dPhi_dEdOmega(self, es):
                return at(es, bs)

            def derivatives(self, es):
                return {k: at(es, ds[k]) for k in names}

            @property
            def params(self):
                return dict(vals)

        class Area:
            x = env.array(ks)

            def __call__(self, e):
                return at(e, aes)

        t = target(env, vx=False)
        m, mx, seen = theory(env, kind, linear(env, env.array(ks), env.array(ys)))
        res = object()
        tobs = env.real("tobs", 1, 100)
        kw = dict(n_grid=3) if way == "default" else dict(e_grid=env.array(ks))
        v = env.real("vx", 0, 0.9)
        if env.choose("velocity given", [True, False]):
            kw["vx"] = v
        else:
            v = 1e-3
        cdf, ppf = env.uf("cdf", 0.5, 1), env.uf("ppf", 0.1, 10)
        env.patch(scipy.stats.norm, "cdf", lambda x, *a, **k: cdf(x))
        env.patch(scipy.stats.norm, "ppf", lambda x, *a, **k: ppf(x))
        a = per_rate(env, kind, mx, t)
        d = [[a * y for y in ys]] + [[t.dOmega * x for x in ds[k]] for k in names]
        F = [[None] * (nb + 1) for _ in range(nb + 1)]
        for i in range(nb + 1):
            for j in range(nb + 1):
                f = [d[i][k] * d[j][k] / (t.dOmega * bs[k]) * aes[k] * tobs for k in range(3)]
                F[i][j] = sum((ks[k + 1] - ks[k]) * (f[k] + f[k + 1]) / 2 for k in range(2))
        out = fisher_fn(m, Area(), res, t, Bg(), tobs, **kw)
        lo, hi, q, r = seen[0]
        env.eq("energy range", [lo, hi], [ks[0], ks[-1]])
        if kind == "ann":
            env.eq("centre-of-mass energy", q, energy(kind, mx, v))
        env.claim("resolution", r is res)
        keys = list(out.params)
        env.claim("parameters", keys[0] == "rate" and set(keys) == {"rate", *names})
        pos = {k: i for i, k in enumerate(["rate"] + names)}
        M = np.asarray(out.fisher_matrix)
        env.claim("shape", M.shape == (nb + 1, nb + 1))
        for i, k1 in enumerate(keys):
            for j, k2 in enumerate(keys):
                env.eq("information", M[i, j], F[pos[k1]][pos[k2]])
        env.eq("fiducial rate", out.params["rate"], 0.0)
        for k in names:
            env.eq("fiducial parameters", out.params[k], vals[k])
    return fn


def fisher_limit(kind):
    def fn(env):
        """The limit on a parameter is its marginal error times the number of standard deviations."""
        import scipy.stats

        import hazma.theory._theory_gamma_ray_limits as G

        n = env.choose("parameters", [1, 2, 3])
        names = ["rate", "amp", "index"][:n]
        low = [[env.real(f"L{i}{j}", 0.5, 3) if i >= j else 0.0 for j in range(n)] for i in range(n)]
        # any positive definite matrix is L L^T
        F = [[sum(low[i][k] * low[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
        M = env.array([x for r in F for x in r]).reshape(n, n)
        from collections import OrderedDict

        r = G.FisherResults(fisher_matrix=np.matrix(M), params=OrderedDict((k, 0.0) for k in names))
        cdf, ppf = env.uf("cdf", 0.5, 1), env.uf("ppf", 0.1, 10)
        env.patch(scipy.stats.norm, "cdf", lambda x, *a, **k: cdf(x))
        env.patch(scipy.stats.norm, "ppf", lambda x, *a, **k: ppf(x))
        sig = env.real("sigma", 0.1, 10)
        det = 1.0
        for i in range(n):
            det = det * low[i][i] ** 2
        for i, k in enumerate(names):
            q = [x for x in range(n) if x != i]
            if n == 1:
                cof = 1.0
            elif n == 2:
                cof = F[q[0]][q[0]]
            else:
                cof = F[q[0]][q[0]] * F[q[1]][q[1]] - F[q[0]][q[1]] ** 2
            v = r.limit(sig, key=k)
            env.eq("marginal error", v * v * det, ppf(cdf(sig)) ** 2 * cof, rtol=1e-5)
            env.ge("positive", v, 0.0)
        env.eq("default parameter", r.limit(sig), r.limit(sig, key="rate"))
        # the method of a theory asks for the rate at every level
        m, mx, seen = theory(env, kind, None)
        got = []
        env.patch(G, "fisher", lambda *a, **k: got.append((a, k)) or r)
        parts = [object() for _ in range(4)]
        tobs, vx, grid = env.real("tobs", 1, 100), env.real("vx", 0, 0.9), env.array([1.0, 2.0])
        s2 = env.real("sigma2", 0.1, 10)
        ls = m.fisher_limit(*parts, tobs, vx=vx, sigma_levels=[sig, s2], e_grid=grid)
        env.eq("limit on the rate", list(ls), [r.limit(sig), r.limit(s2)])
        import inspect

        a, k = got[0]
        b = inspect.signature(FISHER).bind(*a, **k).arguments
        env.claim("same setup", [b[x] for x in ("effective_area", "energy_res", "target", "background_model")] == parts)
        env.claim("model and grid", b["model"] is m and b["e_grid"] is grid)
        env.eq("time and velocity", [b["tobs"], b["vx"]], [tobs, vx])
    return fn


def cases(tier):
    import hazma.theory._theory_gamma_ray_limits as G

    global FISHER
    FISHER = G.fisher
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("flux measurement", flux_measurement, **kw)]
    for kind in ("ann", "dec"):
        for meth in ("default", "1bin", "chi2"):
            for n in (1, 2) + ((3,) if tier == "thorough" else ()):
                out.append(Case(f"binned {kind} {meth} {n}", binned(kind, meth, n), **kw))
        for way in ("default", "grid", "inner window"):
            out.append(Case(f"unbinned {kind} {way}", unbinned(kind, way), **kw))
        for nb in (1, 2):
            for way in ("default", "grid"):
                out.append(Case(f"fisher {kind} {nb} {way}", fisher(kind, nb, way), **kw))
        out.append(Case(f"fisher limit {kind}", fisher_limit(kind), **kw))
    return out
