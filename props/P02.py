"""Spectra convolved with a detector's energy resolution."""
import numpy as np

from vf.harness import Case

PROPERTY = "P02"
BOUNDS = ("any energy window, any continuum spectrum, up to 2 lines, any positive (or vanishing) energy resolution: number, "
          "vectorized or scalar-only callback; 3 output energies and at least 3 true energies per convolution")
ASSUMPTIONS = ["real arithmetic; exp and sqrt exact", "linear scipy splines are exact piecewise-linear functions"]
FUNCTIONS = ["hazma.parameters.spec_res_fn", "hazma.parameters._eval_energy_res", "hazma.parameters._true_energy_grid",
             "hazma.parameters.convolved_spectrum_fn", "hazma.theory.TheoryAnn.total_conv_spectrum_fn",
             "hazma.theory.TheoryAnn.total_conv_positron_spectrum_fn", "hazma.theory.TheoryDec.total_conv_spectrum_fn",
             "hazma.theory.TheoryDec.total_conv_positron_spectrum_fn"]


def resolution(env, lo, hi, zero=False):
    """(callback, value at an energy): arrays and plain floats, one value for all, scalar-only callbacks."""
    kind = env.choose("resolution", ["vectorized", "scalar", "constant"] + (["zero"] if zero else []))
    if kind == "zero":
        return (lambda e: 0.0 * e), (lambda e: 0.0)
    if kind == "constant":
        k = env.real("res", lo, hi)
        return (lambda e: k), (lambda e: k)
    f = env.uf("res", lo, hi)
    if kind == "scalar":
        def one(e):
            if np.ndim(e) > 0:
                raise env.choose("error", [ValueError, TypeError])("only scalars")
            return f(e)
        return one, f
    return (lambda e: env.array([f(x) for x in np.ravel(e)]).reshape(np.shape(e)) if np.ndim(e) else f(e)), f


def gauss(env, ep, e, res):
    s = e * res(e)
    return 1.0 / (2.0 * env.pi * s**2)**0.5 * env.np.exp(-((ep - e) ** 2) / (2.0 * s**2))


def response(env):
    """Normal density of the reconstructed energy, with the width of the true energy."""
    from hazma.parameters import spec_res_fn

    fun, res = resolution(env, 0.01, 2)
    t = [env.real("t0", 0.1, 1e3), env.real("t1", 0.1, 1e3)]
    m = [env.real("m0", 0.1, 1e3), env.real("m1", 0.1, 1e3)]
    kind = env.choose("layout", ["numbers", "true energies", "reconstructed energies", "both"])
    if kind == "numbers":
        env.eq("density", spec_res_fn(m[0], t[0], fun), gauss(env, m[0], t[0], res), atol=1e-12)
        return
    if kind == "true energies":
        out = spec_res_fn(m[0], env.array(t), fun)
        ref = [gauss(env, m[0], x, res) for x in t]
    elif kind == "both":
        out = spec_res_fn(env.array(m), env.array(t), fun)
        ref = [gauss(env, y, x, res) for y, x in zip(m, t)]
    else:
        out = spec_res_fn(env.array(m), t[0], fun)
        ref = [gauss(env, y, t[0], res) for y in m]
    env.claim("shape", np.shape(out) == (2,))
    env.eq("density", list(out), ref, atol=1e-12)


def sharp(env):
    """A vanishing width carries no photons, next to one that does."""
    from hazma.parameters import spec_res_fn

    t, m = env.real("t", 0.1, 1e3), env.real("m", 0.1, 1e3)
    r = env.real("r", 0.01, 2)
    env.eq("no photons", spec_res_fn(m, t, lambda e: 0.0 * e), 0.0)
    env.eq("no photons", list(spec_res_fn(env.array([m, t]), t, lambda e: 0.0 * e)), [0.0, 0.0])
    out = spec_res_fn(m, env.array([t, 2 * t]), lambda e: env.array([0.0, r]) if np.ndim(e) else r)
    env.eq("first", out[0], 0.0)
    env.eq("second", out[1], gauss(env, m, 2 * t, lambda e: r), atol=1e-12)


def grid(env):
    """The true-energy grid spans the range, uniformly in the logarithm, finely enough for the best resolution."""
    import hazma.parameters as P

    lo, x = env.real("lo", 1e-3, 1e3), env.real("x", 150, 1e4)
    hi = lo * x
    n_pts = env.choose("points", [2, 3])
    fun, res = resolution(env, 1e-4, 100, zero=True)
    made = []
    real = P.np

    class Np:
        def __getattr__(self, n):
            return getattr(real, n)

        def geomspace(self, a, b, num=50, **k):
            made.append((a, b, num))
            return real.geomspace(a, b, n_pts)

    env.patch(P, "np", Np())

    class Enough(Exception):
        pass

    def src(es):
        made.append(es)
        raise Enough

    try:
        P.convolved_spectrum_fn(10 * lo, hi / 10, fun, src, None, n_pts)
    except Enough:
        pass
    out = made.pop()
    a, b, n = made[-1]
    env.eq("first energy", a, lo)
    env.eq("last energy", b, hi)
    env.eq("grid returned", [out[0], out[-1]], [lo, hi])
    env.ge("at least as many points as asked for", n, n_pts)
    env.le("bounded", n, max(n_pts, 200_000))
    x0 = list(real.geomspace(lo, hi, n_pts))
    rs = [res(e) for e in x0]
    pos = [r for r in rs if not (r is 0.0 or r == 0.0)]  # noqa: F632
    if pos:
        r = env.np.min(env.array(pos))
        env.claim("resolved", (n >= 200_000) | (n * r * (1 + 1e-9) >= 4.0 * env.np.log(hi / lo) * (1 - 1e-9)))
    else:
        env.eq("coarse grid", n, n_pts)


def convolve(cont, kind):
    def fn(env):
        """Values at the output energies: response-weighted integral over true energies plus the lines."""
        from hazma.parameters import convolved_spectrum_fn

        e0 = env.real("e0", 0.1, 100)
        r = env.choose("window", [1.44, 2.25])
        e1 = e0 * r
        n_pts = 3
        h = e0 * r**0.5
        f = env.uf("dnde", 0, 10)
        res = env.uf("res", 50, 100)

        def fun(e):
            return env.array([res(v) for v in np.ravel(e)]).reshape(np.shape(e)) if np.ndim(e) else res(e)

        calls = []

        def src(es):
            calls.append(list(np.ravel(es)))
            if cont == "zero":
                return 0.0 * es
            return env.array([f(e) for e in es]) if np.ndim(es) else f(es)

        lines = None
        if kind != "none":
            names = {"one": ["g g"], "other": ["pi0 g"], "two": ["eta g", "g g"]}[kind]
            lines = {n: dict(energy=env.real(f"le{i}", 0.1, 300), bf=env.real(f"bf{i}", 0, 1)) for i, n in enumerate(names)}
        args = [e0, e1, fun]
        kw = dict(n_pts=n_pts)
        if cont != "none":
            kw["spec_fn"] = src
        if lines is not None:
            kw["lines"] = lines
        out = convolved_spectrum_fn(*args, **kw)
        # the grid of true energies
        ts = []
        if cont != "none":
            ts = calls[0]
            env.eq("covers a decade below", ts[0], 0.1 * e0)
            env.eq("and above", ts[-1], 10 * e1)
            env.claim("points", len(ts) >= n_pts)

        def ref(e):
            tot = 0.0
            if cont == "some":
                ys = [f(t) * gauss(env, e, t, res) for t in ts]
                tot = sum((b - a) * (u + v) / 2 for a, b, u, v in zip(ts, ts[1:], ys, ys[1:]))
            for n, ln in (lines or {}).items():
                tot = tot + ln["bf"] * gauss(env, e, ln["energy"], res) * (2 if n == "g g" else 1)
            return tot

        vals = [ref(e) for e in (e0, h, e1)]
        env.eq("nodes", [out(e0), out(h), out(e1)], vals, atol=1e-14)
        w = env.real("w", 0, 1)
        m = e0 + w * (h - e0)
        env.eq("linear between", out(m), vals[0] + w * (vals[1] - vals[0]), atol=1e-14)
        env.eq("integral", out.integral(e0, e1), (h - e0) * (vals[0] + vals[1]) / 2 + (e1 - h) * (vals[1] + vals[2]) / 2,
               atol=1e-13)
        for e in (e0 * 0.9, e1 * 1.1):
            env.raises("outside the window", ValueError, lambda: out(e))
    return fn


def theories(env):
    """Theories convolve their own total spectrum and lines at the given energy."""
    import hazma.theory as T

    seen = []
    env.patch(T, "convolved_spectrum_fn", lambda *a, **k: seen.append((a, k)) or "result")
    kind = env.choose("kind", ["ann", "dec"])
    what = env.choose("what", ["gamma", "positron"])
    lo, hi, q, x = env.real("lo", 0.1, 10), env.real("hi", 11, 100), env.real("q", 1, 100), env.real("x", 0, 10)
    f = {(p, fs): env.uf(f"{p}_{fs}", 0, 10) for p in "gp" for fs in "ab"}
    w = {"a": env.real("wa", 0.1, 1), "b": env.real("wb", 0.1, 1)}
    le = {"g": {"a": env.real("ga", 0, 10)}, "p": {"b": env.real("pb", 0, 10)}}
    res = object()
    p = what[0]

    def vec(g, *a):
        def one(es, *b):
            return env.array([g(e, *(b or (q,))) for e in es]) if np.ndim(es) else g(es, *(b or (q,)))
        return one

    if kind == "ann":
        class M(T.TheoryAnn):
            def list_annihilation_final_states(self):
                return ["a", "b"]

            def annihilation_cross_section_funcs(self):
                return {k: (lambda e, k=k: w[k]) for k in w}

            def _spectrum_funcs(self):
                return {k: vec(f["g", k]) for k in w}

            def _positron_spectrum_funcs(self):
                return {k: vec(f["p", k]) for k in w}

            def _gamma_ray_line_energies(self, e):
                return {k: v + e for k, v in le["g"].items()}

            def _positron_line_energies(self, e):
                return {k: v + e for k, v in le["p"].items()}
        lines = {k: v + q for k, v in le[p].items()}
        cm = (q,)
    else:
        class M(T.TheoryDec):
            def list_decay_final_states(self):
                return ["a", "b"]

            def _decay_widths(self):
                return dict(w)

            def _spectrum_funcs(self):
                return {k: vec(f["g", k]) for k in w}

            def _positron_spectrum_funcs(self):
                return {k: vec(f["p", k]) for k in w}

            def _gamma_ray_line_energies(self):
                return dict(le["g"])

            def _positron_line_energies(self):
                return dict(le["p"])
        lines = le[p]
        cm = ()
    m = M()
    go = getattr(m, "total_conv_spectrum_fn" if p == "g" else "total_conv_positron_spectrum_fn")
    n = env.choose("points", [None, 7])
    if env.choose("history", ["construct", "change"]) == "change":
        now, ln = dict(w), {k: dict(d) for k, d in le.items()}
        w.update(a=0.5, b=0.25)
        le["g"]["a"], le["p"]["b"] = 3.0, 4.0
        go(lo, hi, *cm, res, *([] if n is None else [n]))
        w.update(now)
        for k in le:
            le[k].update(ln[k])
        seen.clear()
    out = go(lo, hi, *cm, res, *([] if n is None else [n]))
    env.claim("result", out == "result" and len(seen) == 1)
    a, k = seen[0]
    import inspect

    sig = ["e_min", "e_max", "energy_res", "spec_fn", "lines", "n_pts"]
    got = dict(zip(sig, a), **k)
    env.eq("window", [got["e_min"], got["e_max"]], [lo, hi])
    env.claim("resolution", got["energy_res"] is res)
    env.claim("points", got.get("n_pts", 1000) == (n or 1000))
    bf = {c: w[c] / (w["a"] + w["b"]) for c in w}
    ref = sum(bf[c] * f[p, c](x, q) for c in w)
    env.eq("spectrum", got["spec_fn"](env.array([x]))[0], ref)
    env.claim("lines", set(got["lines"]) == set(lines))
    for c, e in lines.items():
        env.eq("line energy", got["lines"][c]["energy"], e)
        env.eq("line branching fraction", got["lines"][c]["bf"], bf[c])


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    out = [Case("response", response, **kw), Case("sharp", sharp, **kw), Case("grid", grid, **kw),
           Case("theories", theories, **kw)]
    for cont in ("some", "zero", "none"):
        for kind in ("none", "one", "other", "two"):
            out.append(Case(f"convolve {cont} continuum, lines: {kind}", convolve(cont, kind), **kw))
    return out
