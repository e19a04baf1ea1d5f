"""Altarelli-Parisi final-state radiation."""
import numpy as np

from vf.harness import Case

PROPERTY = "P12"
BOUNDS = "any energies, masses, charges and photon energies; up to 3 photon energies per call"
ASSUMPTIONS = ["log and exp are exact"]
FUNCTIONS = ["hazma.spectra.altarelli_parisi.*", "hazma.utils.dnde_altarelli_parisi_fermion",
             "hazma.utils.dnde_altarelli_parisi_scalar"]


def split(kind, x):
    return (1 + (1 - x) ** 2) / x if kind == "fermion" else 2 * (1 - x) / x


def _alpha(env):
    from hazma import parameters

    return parameters.alpha_em


def single(kind, var):
    """One radiating particle."""
    def fn(env):
        from hazma.spectra import altarelli_parisi as ap

        f = getattr(ap, f"dnd{var}_photon_ap_{kind}")
        Q, m = env.real("Q", 0, 1e5), env.real("m", 0, 1e4)
        s = Q * Q
        c = env.real("c", -3, 3)
        kw, q2 = env.choose("charge", [({}, 1.0), (dict(charge=c), c * c)])
        x = env.real("x", 0, 2)
        y = env.real("y", 0, 2)
        jac = 1.0 if var == "x" else 2 / Q
        arg = (lambda v: v) if var == "x" else (lambda v: v * Q / 2)
        out = f(env.array([arg(x), arg(y)]), s, m, **kw)
        env.claim("shape", np.shape(out) == (2,))
        for v, o in ((x, out[0]), (y, out[1])):
            one = s * (1 - v)
            if one > env.np.e * m * m:
                pre = q2 * _alpha(env) / (2 * env.pi)
                env.eq("spectrum", o, pre * split(kind, v) * (env.np.log(one / (m * m)) - 1) * jac)
            elif one < env.np.e * m * m:
                env.eq("closed", o, 0.0)
    return fn


def sign(kind):
    def fn(env):
        from hazma.spectra import altarelli_parisi as ap

        f = getattr(ap, f"dndx_photon_ap_{kind}")
        Q, m, x = env.real("Q", 0, 1e5), env.real("m", 0, 1e4), env.real("x", 0, 2)
        out = f(env.array([x]), Q * Q, m)
        env.ge("never negative", out[0], 0.0)
    return fn


def pair(kind):
    """Deprecated pair version: twice the single one."""
    def fn(env):
        from hazma import utils as U
        from hazma.spectra import altarelli_parisi as ap

        f = getattr(U, f"dnde_altarelli_parisi_{kind}")
        g = getattr(ap, f"dnde_photon_ap_{kind}")
        Q, m = env.real("Q", 0, 1e5), env.real("m", 0, 1e4)
        x, y = env.real("x", 0, 2), env.real("y", 0, 2)
        es = [x * Q / 2, y * Q / 2]
        form = env.choose("form", ["scalar", "array"])
        if hasattr(U, "_force_deprecation_warning"):
            env.patch(U, "_force_deprecation_warning", lambda message: None)
        out = f(env.array(es), Q, m) if form == "array" else [f(es[0], Q, m), f(es[1], Q, m)]
        env.claim("length", len(out) == 2)
        for v, o in ((x, out[0]), (y, out[1])):
            w = (1 - v) * Q * Q
            if w > env.np.e * m * m:
                env.eq("spectrum", o, 2 * _alpha(env) / (env.pi * Q) * split(kind, v) * (env.np.log(w / (m * m)) - 1))
            elif w < env.np.e * m * m:
                env.eq("closed", o, 0.0)
    return fn


def cases(tier):
    kw = dict(undef="assume")
    out = []
    for k in ("fermion", "scalar"):
        out += [Case(f"dN/dx {k}", single(k, "x"), **kw), Case(f"dN/dE {k}", single(k, "e"), **kw),
                Case(f"sign {k}", sign(k), **kw), Case(f"pair {k}", pair(k), **kw)]
    return out
