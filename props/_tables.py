"""Tabulated spectra: every spline object is recognised by its content and replaced by arbitrary functions."""
import os

import numpy as np

_REF = {}


def _dirs():
    import hazma.spectra

    root = os.path.dirname(hazma.spectra.__file__)
    return [os.path.join(root, d, "data") for d in ("_neutrino", "_positron")]


def reference():
    """name -> spline through (sum of the channels) / momentum of each table."""
    if _REF:
        return _REF
    from scipy.interpolate import InterpolatedUnivariateSpline

    from hazma.parameters import electron_mass as me

    for d in _dirs():
        pos = "_positron" in d
        for f in sorted(os.listdir(d)):
            if f.endswith(".csv"):
                t = np.loadtxt(os.path.join(d, f), delimiter=",").T
                e = t[0]
                y = np.sum(t[1:], axis=0) / (np.sqrt(e**2 - me**2) if pos else e)
                ok = np.isfinite(y)
                if not ok.all():
                    continue
                _REF[f[:-4]] = InterpolatedUnivariateSpline(e, y, k=1 if pos else 2, ext=1)
    return _REF


def _probe(call, spl):
    x = np.geomspace(3.0, 200.0, 17)
    return np.asarray(call(spl, x), float)


def identify(call, spl, cache={}):
    k = id(spl)
    if k not in cache:
        v = _probe(call, spl)
        hit = [n for n, r in reference().items()
               if np.allclose(v, _probe(call, r), rtol=1e-9, atol=0) and (r.get_knots()[0], r.get_knots()[-1])
               == (spl.get_knots()[0], spl.get_knots()[-1])]
        cache[k] = (hit[0] if len(hit) == 1 else "unknown table", spl)
    return cache[k][0]


def stub_tables(env):
    """Splines evaluate to T_<table>(E) and integrate to I_<table>(lower) + 2 J_<table>(upper)."""
    from scipy.interpolate import UnivariateSpline

    call = UnivariateSpline.__call__
    reference()
    limits = []

    def value(self, x, *a, **k):
        return env.uf("T_" + identify(call, self), scale=10)(x)

    def integral(self, a, b):
        n = identify(call, self)
        limits.append((n, a, b))
        return env.uf("I_" + n, scale=10)(a) + 2 * env.uf("J_" + n, scale=10)(b)

    env.patch(UnivariateSpline, "__call__", value)
    env.patch(UnivariateSpline, "integral", integral)
    return limits
