"""Constraint images and limits on parameter grids."""
import numpy as np

from vf.harness import Case

PROPERTY = "P05"
BOUNDS = "grids of 1 to 3 by 1 to 3 points, 1 or 2 constraints of any dependence on the parameters; 1 to 3 bins; 0 to 3 models"
ASSUMPTIONS = ["real arithmetic", "scipy's root finder returns an arbitrary point of its bracket", "relic density is an arbitrary "
               "function of the model (decided in P06)", "linear scipy splines are exact piecewise-linear functions"]
FUNCTIONS = ["hazma.theory._theory_constrain.TheoryConstrain.*", "hazma.limits.*"]


def grid_theory(env, keys):
    from hazma.theory._theory_constrain import TheoryConstrain

    fs = {k: env.uf(f"c_{k}", -10, 10) for k in keys}

    class T(TheoryConstrain):
        def __init__(self):
            self.a = env.real("a0", 0, 10)
            self.b = env.real("b0", 0, 10)
            self.c = env.real("c0", 0, 10)

        def constraints(self):
            return {k: (lambda k=k: fs[k](self.a, self.b, self.c)) for k in keys}

    return T(), fs


def images(n1, n2, keys):
    def fn(env):
        """I[j, i] is the constraint at (p1_i, p2_j), every other parameter as it was."""
        t, fs = grid_theory(env, keys)
        c = t.c
        x = [env.real(f"x{i}", 0, 10) for i in range(n1)]
        y = [env.real(f"y{i}", 0, 10) for i in range(n2)]
        swap = env.choose("parameters", ["a, b", "b, a"]) == "b, a"
        p1, p2 = ("b", "a") if swap else ("a", "b")
        how = env.choose("result", ["default", "image"])
        kw = {} if how == "default" else {"ls_or_img": "image"}
        out = t.constrain(p1, env.array(x), p2, env.array(y), **kw)
        env.claim("keys", sorted(out) == sorted(keys))
        for k in keys:
            env.claim("shape", np.shape(out[k]) == (n2, n1))
            for i in range(n1):
                for j in range(n2):
                    a, b = (y[j], x[i]) if swap else (x[i], y[j])
                    env.eq("value", out[k][j, i], fs[k](a, b, c))
        env.raises("same parameter twice", ValueError, lambda: t.constrain(p1, env.array(x), p1, env.array(y)))
    return fn


def custom(n1, n2, keys):
    def fn(env):
        """A grid of theories gives an image of the same shape."""
        t, fs = grid_theory(env, keys)

        class P:
            pass

        g = np.empty((n1, n2), dtype=object)
        for i in range(n1):
            for j in range(n2):
                g[i, j] = P()
                g[i, j].a, g[i, j].b = env.real(f"a{i}{j}", 0, 10), env.real(f"b{i}{j}", 0, 10)
                g[i, j].c = env.real(f"c{i}{j}", 0, 10)
        out = t.custom_constrain(g)
        env.claim("keys", sorted(out) == sorted(keys))
        for k in keys:
            env.claim("shape", np.shape(out[k]) == (n1, n2))
            for i in range(n1):
                for j in range(n2):
                    env.eq("value", out[k][i, j], fs[k](g[i, j].a, g[i, j].b, g[i, j].c))
    return fn


def gamma(n):
    def fn(env):
        """Smallest room for dark matter in any bin: allowed minus predicted number of photons."""
        from props.P03 import linear, target
        from hazma import theory as T
        from hazma.parameters import sv_inv_MeV_to_cm3_per_s as conv

        edges = [env.real("e0", 1, 10)]
        for i in range(n):
            edges.append(edges[-1] + env.real(f"d{i}", 0.1, 10))
        t = target(env)
        mx = env.real("mx", 0.1, 1e4)
        m2 = [env.real(f"p{i}", 0.1, 10) for i in range(2 if n < 3 else 1)]
        q = [env.real("q0", 0.1, 10)]
        sig = env.uf("sigma", 0, 10)
        kn = edges
        ys = [env.real(f"y{i}", 0, 10) for i in range(len(kn))]
        rec = []

        class M:
            energy_res = staticmethod(lambda e: 0.1)
            e_lows, e_highs = env.array(edges[:-1]), env.array(edges[1:])

        M.target = t
        flux = [env.real(f"f{i}", 0.1, 10) for i in range(n)]
        up = [env.real(f"u{i}", 0.1, 10) for i in range(n)]
        M.fluxes, M.upper_errors = env.array(flux), env.array(up)
        M.lower_errors = env.array([env.real(f"l{i}", 0.1, 10) for i in range(n)])

        class Th(T.TheoryAnn):
            kind = "ann"

            def annihilation_cross_sections(self, e):
                return {"a": 99.0, "total": sig(e, self.g)}

            def total_conv_spectrum_fn(self, lo, hi, e, res, *a, **k):
                rec.append((lo, hi, e, res))
                return linear(env, env.array(kn), env.array([v * self.g for v in ys]))

        for k in list(getattr(Th, "__abstractmethods__", ())):
            setattr(Th, k, None)
        Th.__abstractmethods__ = frozenset()
        th = Th()
        th.mx, th.g = mx, 1.0
        kw, ns = {}, 2
        if env.choose("n_sigma", ["default", "given"]) == "given":
            ns = kw["n_sigma"] = env.real("n_sigma", 0.5, 5)
        out = th.constrain_binned_gamma("g", env.array(m2), "unused", env.array(q), M, **kw)
        env.claim("shape", np.shape(out) == (1, len(m2)))
        e_cm = 2 * mx * (1 + t.vx * t.vx / 2)
        env.claim("convolutions", len(rec) == len(m2))
        for (lo, hi, e, res) in rec:
            env.eq("window and energy", [lo, hi, e], [edges[0], edges[-1], e_cm])
            env.claim("resolution", res is M.energy_res or res(1.0) == 0.1)
        for i, g in enumerate(m2):
            # two photon-producing species: <sv> / (4 m^2), J over 4 pi
            rate = sig(e_cm, g) * t.vx * conv * t.J * t.dOmega / (16 * env.pi * mx * mx)
            room = []
            for b in range(n):
                w = edges[b + 1] - edges[b]
                dm = rate * g * (ys[b] + ys[b + 1]) / 2 * w
                if dm > 0:
                    room.append(t.dOmega * w * (ns * up[b] + flux[b]) - dm)
            if not room:
                env.claim("nothing to constrain", out[0, i] == np.inf)
                continue
            for r in room:
                env.le("smallest", out[0, i], r, rtol=1e-9, atol=1e-9)
            gap = 1.0
            for r in room:
                gap = gap * (out[0, i] - r)
            env.eq("one of the bins", gap, 0.0, atol=1e-3)
    return fn


def unsupported(env):
    """Decaying theories, level sets and other methods are refused rather than answered."""
    t, fs = grid_theory(env, ["k"])
    x, y = env.array([env.real("x", 0, 1)]), env.array([env.real("y", 0, 1)])
    env.raises("level sets", NotImplementedError, lambda: t.constrain("a", x, "b", y, ls_or_img="ls"))
    g = np.empty((1, 1), dtype=object)

    class P:
        pass

    g[0, 0] = P()
    env.raises("custom level sets", NotImplementedError, lambda: t.custom_constrain(g, ls_or_img="ls"))


def telescopes(env):
    """Existing telescopes limit every model with their own measurement, and keep the given settings."""
    from hazma import gamma_ray_parameters as grp
    from hazma import limits

    cls, meas = env.choose("telescope", [("ComptelLimit", "comptel_diffuse"), ("EgretLimit", "egret_diffuse"),
                                         ("FermiLimit", "fermi_diffuse"), ("IntegralLimit", "integral_diffuse")])
    kw, want = {}, (2.0, "chi2")
    if env.choose("settings", ["default", "given"]) == "given":
        s = env.real("sigma", 0.5, 5)
        kw, want = dict(sigma=s, method="1bin"), (s, "1bin")
    L = getattr(limits, cls)(**kw)
    n = env.choose("models", [0, 1, 3])
    f = env.uf("limit", 0, 10)
    got = []

    class M:
        def __init__(self, i):
            self.k = env.real(f"k{i}", 0, 1)

        def binned_limit(self, measurement, n_sigma=2.0, method="1bin"):
            got.append((measurement, n_sigma, method))
            return f(self.k)

    ms = [M(i) for i in range(n)]
    out = L.constrain(ms)
    env.claim("shape", np.shape(out) == (n,))
    env.claim("measurement", all(g[0] is getattr(grp, meas) for g in got) and len(got) == n)
    for m, o, g in zip(ms, out, got):
        env.eq("model's own limit", o, f(m.k))
        env.eq("sigma", g[1], want[0])
        env.claim("method", g[2] == want[1])
    other = {"ComptelLimit", "EgretLimit", "FermiLimit", "IntegralLimit"} - {cls}
    env.claim("name of its own", L.name not in {getattr(limits, c)().name for c in other})


def relic(env):
    """The cross section at which varying one property gives the observed abundance; models are left alone."""
    from hazma import limits, parameters
    from hazma.limits import _relic_density as mod

    rd, sg = env.uf("relic", 0.001, 10), env.uf("sigma", 0.1, 10)
    log = env.choose("log", ["default", True, False])
    lo, hi = env.real("lo", 0.01, 1), env.real("hi", 2, 100)
    kw = {} if log == "default" else {"log": log}
    vx = 1e-3
    if env.choose("velocity", ["default", "given"]) == "given":
        vx = kw["vx"] = env.real("vx", 1e-4, 0.5)
    L = limits.RelicDensityLimit("g", lo, hi, **kw)
    calls = []

    def relic_density(model, *a, **k):
        calls.append(model)
        return rd(model.g, model.mx)

    env.patch(mod, "relic_density", relic_density)
    eqs = []
    pts = env.choose("models", [1, 2])
    rs = [env.real(f"root{i}", 0.02, 0.9) for i in range(pts)]
    fail = env.choose("root", ["found", "none"])

    def solve(f, args=(), bracket=None, **k):
        eqs.append((lambda x: f(x, *args), bracket))
        if fail == "none":
            raise ValueError("f(a) and f(b) must have different signs")

        class R:
            root, converged, flag = rs[len(eqs) - 1], True, ""
        return R

    def brentq(f, a, b, args=(), **k):
        return solve(f, args, (a, b)).root

    env.hook("root_scalar", solve)
    env.hook("brentq", brentq)

    class M:
        def annihilation_cross_sections(self, e):
            return {"a": 99.0, "total": sg(e, self.g)}

    ms = []
    for i in range(pts):
        m = M()
        m.g, m.mx = env.real(f"g{i}", 0.1, 10), env.real(f"m{i}", 0.1, 1e3)
        ms.append(m)
    before = [(m.g, m.mx) for m in ms]
    out = L.constrain(ms)
    env.claim("one equation per model", len(eqs) == pts and np.shape(out) == (pts,))
    for m, b in zip(ms, before):
        env.eq("models left alone", [m.g, m.mx], list(b))
    for i, (f, br) in enumerate(eqs):
        m = ms[i]
        up = (lambda v: v) if log is False else (lambda v: 10 ** v)
        env.eq("bracket", [up(br[0]), up(br[1])], [lo, hi], rtol=1e-9)
        if fail == "none":
            env.claim("no solution", np.isnan(out[i]))
            continue
        x = env.real("x", 0.1, 1)
        env.eq("equation", f(x), rd(up(x), m.mx) - parameters.omega_h2_cdm)
        g = up(rs[i])
        e = 2 * m.mx * (1 + vx * vx / 2)
        env.eq("cross section", out[i], sg(e, g) * vx * parameters.sv_inv_MeV_to_cm3_per_s, rtol=1e-9)


def composite(env):
    """Composite constraints hold the results of their own parts only, whenever the parts were added."""
    from hazma.limits._abstract import CompositeConstrainer

    class C(CompositeConstrainer):
        description = "d"

        def constrain(self, ms):
            return self._constrain(ms)

    class Part:
        def __init__(self, name, v):
            self.name, self.v = name, v

        def constrain(self, ms):
            return [self.v * m for m in ms]

    vs = {k: env.real(k, 0, 10) for k in "pqr"}
    ms = [env.real("m0", 0, 10), env.real("m1", 0, 10)]
    start = env.choose("start", ["nothing", "list"])
    a = C() if start == "nothing" else C([Part("p", vs["p"])])
    have = [] if start == "nothing" else ["p"]
    steps = env.choose("steps", [("q",), ("q", "r"), ("reset", "r"), ("q", "reset", "p")])
    for s in steps:
        if s == "reset":
            a.reset_constrainers()
            have = []
        else:
            a.add_constrainer(Part(s, vs[s]))
            have.append(s)
    b = C()
    env.claim("independent", len(b) == 0)
    env.claim("number", len(a) == len(have))
    out = a.constrain(ms)
    env.claim("names", sorted(out) == sorted(have))
    for k in have:
        env.eq("own result", list(out[k]), [vs[k] * m for m in ms])


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("refusals", unsupported, **kw), Case("telescopes", telescopes, **kw), Case("relic density", relic, **kw),
           Case("composite", composite, **kw)]
    top = 3 if tier == "quick" else 4
    for n1 in range(1, top + 1):
        for n2 in range(1, top + 1):
            out.append(Case(f"image {n1}x{n2}", images(n1, n2, ["k", "l"] if n1 != n2 else ["k"]), **kw))
            out.append(Case(f"custom {n1}x{n2}", custom(n1, n2, ["k", "l"] if n1 != n2 else ["k"]), **kw))
    for n in (1, 2, 3):
        out.append(Case(f"binned gamma {n}", gamma(n), **kw))
    return out
