"""Single-channel theories."""
import numpy as np

from vf.harness import Case

PROPERTY = "P26"
BOUNDS = ("any energies, masses, cross sections and widths; the listed final states and setter histories of up to 3 steps")
ASSUMPTIONS = ["real arithmetic", "spectra of final states are arbitrary functions (decided in P15)"]
FUNCTIONS = ["hazma.single_channel.SingleChannelAnn.*", "hazma.single_channel.SingleChannelDec.*"]

STATES = ["e e", "mu mu", "e mu", "pi e", "pi pi", "pi0", "ve vm", "e pi pi0", "k k"]


def spectra(env):
    from hazma import single_channel as sc
    from hazma import spectra as sp

    F = {k: env.uf(k, 0, 10) for k in ("photon", "positron")}
    seen = []

    def make(product):
        def dnde(es, cme, final_states, *a, **k):
            seen.append((product, list(final_states) if not isinstance(final_states, str) else [final_states], a, k))
            return env.array([F[product](e, cme) for e in es]) if np.ndim(es) else F[product](es, cme)
        return dnde

    for p in F:
        env.patch(sp, f"dnde_{p}", make(p))
        if hasattr(sc, f"dnde_{p}"):
            env.patch(sc, f"dnde_{p}", make(p))
    return F, seen


def line(env, fs, q, masses):
    """Energy of the electron recoiling against the other particle."""
    parts = fs.split(" ")
    if len(parts) != 2 or "e" not in parts:
        return None
    i = parts.index("e")
    m, o = masses[parts[i]], masses[parts[1 - i]]
    return (q * q + m * m - o * o) / (2 * q)


def use(th, q):
    """Nothing that was asked of the theory before matters after a change."""
    args = (q,) if hasattr(th, "list_annihilation_final_states") else ()
    for f in ("list_annihilation_final_states", "annihilation_cross_section_funcs", "list_decay_final_states", "decay_widths",
              "decay_branching_fractions", "spectrum_funcs", "positron_spectrum_funcs"):
        if hasattr(th, f):
            getattr(th, f)()
    for f in ("annihilation_cross_sections", "annihilation_branching_fractions", "gamma_ray_lines", "positron_lines"):
        if hasattr(th, f):
            getattr(th, f)(*args)


def history(env, t, rate):
    """Build directly or reach the same state through setters."""
    fs = env.choose("state", STATES)
    how = env.choose("history", ["direct", "state set", "all set"])
    mx, s, q = env.real("mx", 0.01, 1e4), env.real(rate, 0, 10), env.real("q", 0.01, 1e5)
    if how == "direct":
        th = t(mx, fs, s)
    elif how == "state set":
        th = t(mx, "mu mu" if fs != "mu mu" else "e e", s)
        use(th, q)
        th.fs = fs
    else:
        th = t(env.real("m_old", 0.01, 1e4), "pi0 pi0", env.real("s_old", 0, 1))
        use(th, q)
        th.mx, th.fs = mx, fs
        setattr(th, rate, s)
    env.claim("state", th.fs == fs)
    env.eq("mass", th.mx, mx)
    return th, fs, mx, s


def annihilation(env):
    """The whole cross section above both thresholds, spectra and lines of the current final state only."""
    from hazma.parameters import standard_model_masses as masses
    from hazma.single_channel import SingleChannelAnn

    F, seen = spectra(env)
    th, fs, mx, s = history(env, SingleChannelAnn, "sigma")
    tot = sum(masses[p] for p in fs.split(" "))
    env.eq("threshold", th.fs_mass, tot)
    env.claim("states", th.list_annihilation_final_states() == [fs])
    q = env.real("q", 0.01, 1e5)
    cs = th.annihilation_cross_sections(q)
    env.claim("channels", sorted(cs) == sorted([fs, "total"]))
    op = q >= 2 * mx and q >= tot
    env.eq("cross section", cs[fs], s if op else 0.0)
    env.eq("total", cs["total"], s if op else 0.0)
    es = [env.real(f"e{i}", 0.01, 1e4) for i in range(2)]
    for product, fn in (("photon", th.spectra), ("positron", th.positron_spectra)):
        seen.clear()
        out = fn(env.array(es), q)
        on = op and s > 0
        for e, v in zip(es, out["total"]):
            env.eq(f"{product} spectrum", v, F[product](e, q) if on else 0.0)
        if on:
            env.claim(f"{product} final state", len(seen) == 1 and seen[0][0] == product and seen[0][1] == fs.split(" "))
    env.claim("no photon lines", th.gamma_ray_lines(q) == {})
    ln, want = th.positron_lines(q), line(env, fs, q, masses)
    env.claim("positron lines", sorted(ln) == ([fs] if want is not None else []))
    if want is not None:
        env.eq("line energy", ln[fs]["energy"], want)
        env.eq("line branching fraction", ln[fs]["bf"], 1.0 if op and s > 0 else 0.0)


def decay(env):
    """The whole width, spectra at the mass and lines of the current final state only."""
    from hazma.parameters import standard_model_masses as masses
    from hazma.single_channel import SingleChannelDec

    F, seen = spectra(env)
    th, fs, mx, s = history(env, SingleChannelDec, "width")
    tot = sum(masses[p] for p in fs.split(" "))
    env.assume(mx >= tot)
    env.assume(s > 0)
    env.eq("threshold", th.fs_mass, tot)
    env.claim("states", th.list_decay_final_states() == [fs])
    w = th.decay_widths()
    env.claim("channels", sorted(w) == sorted([fs, "total"]))
    env.eq("width", [w[fs], w["total"]], [s, s])
    es = [env.real(f"e{i}", 0.01, 1e4) for i in range(2)]
    for product, fn in (("photon", th.spectra), ("positron", th.positron_spectra)):
        seen.clear()
        out = fn(env.array(es))
        for e, v in zip(es, out["total"]):
            env.eq(f"{product} spectrum", v, F[product](e, mx))
        env.claim(f"{product} final state", len(seen) == 1 and seen[0][0] == product and seen[0][1] == fs.split(" "))
    env.claim("no photon lines", th.gamma_ray_lines() == {})
    ln, want = th.positron_lines(), line(env, fs, mx, masses)
    env.claim("positron lines", sorted(ln) == ([fs] if want is not None else []))
    if want is not None:
        env.eq("line energy", ln[fs]["energy"], want)
        env.eq("line branching fraction", ln[fs]["bf"], 1.0)


def cases(tier):
    kw = dict(undef="assume", sym_consts=False)
    return [Case("annihilation", annihilation, **kw), Case("decay", decay, **kw)]
