"""Units, detector responses and background models."""
import os
import warnings

import numpy as np

from vf.harness import Case

PROPERTY = "P25"
BOUNDS = "any energy, any parameters; scalars and arrays of 1 to 3 energies; every instrument in the module"
ASSUMPTIONS = ["real arithmetic; exp, log and real powers are exact functions", "tabulated responses are arbitrary functions "
               "identified by their data file"]
FUNCTIONS = ["hazma.gamma_ray_parameters.*", "hazma.background_model.*", "hazma.parameters.convert_sigmav",
             "hazma.parameters.load_interp", "hazma.target_params.TargetParams"]

AREAS = ["adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi", "gecco", "grams", "grams_upgrade",
         "mast", "pangu"]
# instrument -> (data file or constant, conversion of FWHM to a standard deviation)
RESOLUTIONS = {"adept": (0.3, True), "amego": ("amego", False), "comptel": (0.05, True), "all_sky_astrogam": ("e_astrogam", False),
               "e_astrogam": ("e_astrogam", False), "egret": (0.18, True), "fermi": (0.075, False), "gecco": ("gecco", True),
               "gecco_large": ("gecco_large", False), "grams_upgrade": (0.05, False), "grams": (0.05, False),
               "integral": ("integral", False), "mast": ("mast", False), "pangu": (0.4, False)}


def tables(env, files):
    """Every tabulated response becomes an arbitrary function named after its data file."""
    from scipy.interpolate import interp1d

    from hazma import gamma_ray_parameters as grp

    ref = {}
    for sub, name in files:
        d = np.genfromtxt(os.path.join(os.path.dirname(grp.__file__), "gamma_ray_data", sub, name + ".dat"), delimiter=",")
        ref[sub, name] = d.T
    F = {k: env.uf("_".join(k), 0.01, 1) for k in ref}
    F["other"] = env.uf("other", 2, 3)
    outside = {}

    def value(self, x):
        # the same data in the other directory (for example astrogam) decides by name only if the numbers differ
        k = next((k for k, d in ref.items() if np.shape(self.x) == np.shape(d[0]) and np.array_equal(self.x, d[0])
                  and np.array_equal(self.y, d[1])), "other")
        outside[k] = (self.bounds_error, self.fill_value)
        if np.ndim(x):
            return env.array([F[k](v) for v in np.ravel(x)]).reshape(np.shape(x))
        return F[k](x)

    env.patch(interp1d, "__call__", value)
    return F, outside


def energies(env, lo, hi):
    n = env.choose("energies", ["scalar", 1, 3])
    es = [env.real(f"e{i}", lo, hi) for i in range(1 if n == "scalar" else n)]
    return es, (es[0] if n == "scalar" else env.array(es))


def flat(x):
    return list(np.ravel(x)) if np.ndim(x) else [x if not isinstance(x, np.ndarray) else x.item()]


def areas(env):
    """Effective areas come from the instrument's own table and vanish outside it."""
    from hazma import gamma_ray_parameters as grp

    name = env.choose("instrument", AREAS)
    F, outside = tables(env, [("A_eff", name)])
    es, E = energies(env, 1e-3, 1e6)
    out = flat(getattr(grp, f"effective_area_{name}")(E))
    env.claim("number", len(out) == len(es))
    for o, e in zip(out, es):
        env.eq("own table", o, F["A_eff", name](e))
    be, fv = outside.get(("A_eff", name), (True, None))
    env.claim("no area outside the table", not be and np.all(np.asarray(fv) == 0))
    tab = getattr(grp, f"effective_area_{name}").x
    d = np.genfromtxt(os.path.join(os.path.dirname(grp.__file__), "gamma_ray_data", "A_eff", name + ".dat"), delimiter=",").T
    env.claim("energies of the table", np.array_equal(tab, d[0]))


def resolutions(env):
    """Energy resolutions come from the instrument's own table or constant, as a standard deviation."""
    from hazma import gamma_ray_parameters as grp

    name = env.choose("instrument", sorted(RESOLUTIONS))
    src, fwhm = RESOLUTIONS[name]
    F, outside = tables(env, [("energy_res", src)] if isinstance(src, str) else [])
    es, E = energies(env, 1e-3, 1e6)
    out = flat(getattr(grp, f"energy_res_{name}")(E))
    env.claim("number", len(out) == len(es))
    k = 1 / (2 * np.sqrt(2 * np.log(2))) if fwhm else 1.0
    for o, e in zip(out, es):
        env.eq("own resolution", o, k * (F["energy_res", src](e) if isinstance(src, str) else src))


def galactic(env):
    """A E^-a exp(-(E / Ec)^g) + A' E^-a', its parameters in their places and the derivative of each."""
    from hazma.gamma_ray_parameters import GalacticCenterBackgroundModel

    names = ["galactic_amplitude", "galactic_power_law_index", "galactic_exponential_cutoff", "galactic_exponential_index",
             "extra_galactic_amplitude", "extra_galactic_power_law_index"]
    dflt = [0.013, 1.8, 2.0, 2.0, 0.004135, 2.8956]
    how = env.choose("parameters", ["default", "keywords", "order"])
    v = dict(zip(names, dflt)) if how == "default" else {n: env.real(n, 0.1, 5) for n in names}
    B = GalacticCenterBackgroundModel(**({} if how != "keywords" else v)) if how != "order" else \
        GalacticCenterBackgroundModel(*[v[n] for n in names])
    env.claim("names", list(B.params) == names and B.n_params() == 6)
    for n in names:
        env.eq(n, getattr(B, n), v[n])
        env.eq(f"{n} in params", B.params[n], v[n])
    es, E = energies(env, 0.15, 5)
    f, d = flat(B.dPhi_dEdOmega(E)), B.derivatives(E)
    env.claim("derivatives", sorted(d) == sorted(names))
    d = {k: flat(x) for k, x in d.items()}
    np_ = env.np
    A, a, ec, g, A2, a2 = [v[n] for n in names]
    for i, e in enumerate(es):
        p = (e / ec) ** g
        G, X = e ** (-a) * np_.exp(-p), e ** (-a2)
        env.eq("flux", f[i], A * G + A2 * X)
        env.eq("derivative in A", d[names[0]][i], G)
        env.eq("derivative in a", d[names[1]][i], -A * G * np_.log(e))
        env.eq("derivative in Ec", d[names[2]][i] * ec, A * G * p * g)
        env.eq("derivative in g", d[names[3]][i], -A * G * p * np_.log(e / ec))
        env.eq("derivative in A'", d[names[4]][i], X)
        env.eq("derivative in a'", d[names[5]][i], -A2 * X * np_.log(e))
    env.claim("bounds", tuple(B.energy_bounds) == (0.15, 5.0) and tuple(B.e_bounds) == (0.15, 5.0))


def gecco(env):
    """A E^-a with its derivatives."""
    from hazma.gamma_ray_parameters import GeccoBackgroundModel, gecco_bg_model

    how = env.choose("parameters", ["default", "keywords", "order"])
    A, a = (2 * 4e-3, 2.0) if how == "default" else (env.real("A", 0.1, 5), env.real("a", 0.1, 5))
    B = GeccoBackgroundModel(*((A, a) if how == "order" else ()), **(dict(amplitude=A, power_law_index=a) if how == "keywords" else {}))
    env.claim("names", list(B.params) == ["amplitude", "power_law_index"])
    env.eq("parameters", [B.amplitude, B.power_law_index, B.params["amplitude"], B.params["power_law_index"]], [A, a, A, a])
    es, E = energies(env, 0.2, 4e3)
    f, d = flat(B.dPhi_dEdOmega(E)), {k: flat(x) for k, x in B.derivatives(E).items()}
    env.claim("derivatives", sorted(d) == ["amplitude", "power_law_index"])
    for i, e in enumerate(es):
        env.eq("flux", f[i], A * e ** (-a))
        env.eq("derivative in A", d["amplitude"][i], e ** (-a))
        env.eq("derivative in a", d["power_law_index"][i], -A * e ** (-a) * env.np.log(e))
        if how == "default":
            env.eq("fiducial model", flat(gecco_bg_model.dPhi_dEdOmega(E))[i] * e * e, 8e-3)


def background(env):
    """The given flux at every energy, with a warning exactly when some energy is outside the range."""
    from hazma import background_model
    from hazma.background_model import BackgroundModel

    lo = env.real("lo", 0.1, 10)
    hi = lo + env.real("width", 0.1, 100)
    F = env.uf("flux", 0, 10)
    said = []

    def warn(*a, **k):
        said.append(a)

    env.patch(warnings, "warn", warn)

    def flux(x):
        return env.array([F(v) for v in x]) if np.ndim(x) else F(x)

    if env.choose("source", ["function", "interpolator"]) == "function":
        B = BackgroundModel([lo, hi], flux)
    else:
        class I:
            x = env.array([lo, (lo + hi) / 2, hi])
            def __call__(self, x):
                return flux(x)
        B = BackgroundModel.from_interp(I())
    es, E = energies(env, 0.01, 1e3)
    env.eq("range", list(B.e_range), [lo, hi])
    out = flat(B.dPhi_dEdOmega(E))
    env.eq("flux", out, [F(e) for e in es])
    bad = False
    for e in es:
        bad = bool(e < lo) or bool(e > hi) or bad
    env.claim("warning", bool(said) == bad)


def default_model(env):
    """2.74e-3 / E^2 up to 10 GeV."""
    from hazma.gamma_ray_parameters import default_bg_model

    e = env.real("e", 0.01, 1e4)
    env.eq("flux", default_bg_model.dPhi_dEdOmega(e) * e * e, 2.74e-3)
    env.eq("range", list(default_bg_model.e_range), [0.0, 1e4])


def units(env):
    """<sigma v> converts back and forth, in agreement with the constants; the constants agree with each other."""
    from hazma import parameters as P

    sv = env.real("sv", 0, 1e6)
    cm3 = env.choose("unit", ["cm^3/s", "cm^3 / s"])
    out = P.convert_sigmav(sv, cm3)
    env.eq("round trip", P.convert_sigmav(out, "MeV^-2"), sv)
    env.eq("constant", out, sv * P.sv_inv_MeV_to_cm3_per_s, rtol=2e-3)
    hbar, c = 6.582119569e-22, 2.99792458e10
    m = env.real("m", 0, 1e6)
    env.eq("time", m * P.s_to_inv_MeV * hbar, m, rtol=1e-6)
    env.eq("length", m * P.cm_to_inv_MeV * hbar * c, m, rtol=1e-6)
    env.eq("metre", m * P.m_to_inv_MeV, m * P.cm_to_inv_MeV * 100, rtol=1e-9)
    env.eq("cross section times velocity", m * P.sv_inv_MeV_to_cm3_per_s, m * (hbar * c) ** 2 * c, rtol=1e-6)
    env.eq("mass", m * P.g_to_MeV * 1.78266192e-27, m, rtol=1e-6)
    env.eq("mass back", m * P.g_to_MeV * P.MeV_to_g, m, rtol=1e-9)
    env.eq("solar mass", m * P.Msun_to_g * P.g_to_Msun, m, rtol=1e-9)
    env.eq("barn", m * P.barn_to_inv_MeV2, m * 1e-24 / (hbar * c) ** 2, rtol=1e-3)


def cone(env):
    """2 pi (1 - cos r), with r in degrees."""
    from hazma.gamma_ray_parameters import solid_angle_cone

    h = env.real("half", 0, 90)
    s = env.np.sin(h * env.pi / 180)
    env.eq("solid angle", solid_angle_cone(2 * h), 4 * env.pi * s * s)
    env.eq("nothing", solid_angle_cone(0.0), 0.0)
    r = env.real("r", 0, 180)
    w = solid_angle_cone(r)
    env.ge("positive", w, 0.0)
    env.le("within the sphere", w, 4 * env.pi)


def interpolator(env):
    """First column against second, zero outside unless told otherwise."""
    from hazma.parameters import load_interp

    n = env.choose("rows", [2, 3])
    data = env.array([env.real(f"{c}{i}", 0, 10) for i in range(n) for c in "xy"]).reshape(n, 2)
    env.patch(np, "loadtxt", lambda f, **k: data)
    got = []

    def interp1d(x, y, *a, **k):
        got.append((x, y, k))
        return "interp"

    env.hook("interp1d", interp1d)
    kw = env.choose("outside", [{}, {"bounds_error": True, "fill_value": np.nan}])
    out = load_interp("somewhere", **kw)
    env.claim("interpolator", out == "interp" and len(got) == 1)
    x, y, k = got[0]
    env.eq("columns", [*x, *y], [*data[:, 0], *data[:, 1]])
    env.claim("outside", k.get("bounds_error") == kw.get("bounds_error", False)
              and (k.get("fill_value") == 0.0 if not kw else np.isnan(k.get("fill_value"))))


def target(env):
    """Targets hold the numbers they are given."""
    from hazma.target_params import TargetParams

    v = {k: env.real(k, 0, 10) for k in ("J", "D", "dOmega", "vx")}
    t = TargetParams(**v)
    num = lambda o: [getattr(o, n, float("nan")) for n in ("J", "D", "dOmega", "vx")]  # noqa: E731
    env.eq("numbers", num(t), [v["J"], v["D"], v["dOmega"], v["vx"]])
    t = TargetParams(v["J"], v["D"], v["dOmega"])
    env.eq("default velocity", num(t), [v["J"], v["D"], v["dOmega"], 1e-3])


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    return [Case(f.__name__.replace("_", " "), f, **kw) for f in
            (areas, resolutions, galactic, gecco, background, default_model, units, cone, interpolator, target)]
