"""Theory aggregation: totals, branching fractions, spectra, lines."""
import numpy as np

from vf.harness import Case

PROPERTY = "P01"
BOUNDS = ("1 to 3 final states; every cross section / width an arbitrary real >= 0 (zero included); "
          "channel spectra arbitrary functions; photon/positron grids of 1 or 2 points and scalar energies")
ASSUMPTIONS = ["cross sections and widths are finite and non-negative",
               "channel functions are pure functions of their arguments"]
FUNCTIONS = ["hazma.theory.TheoryAnn.*", "hazma.theory.TheoryDec.*"]

NAMES = ["e e", "mu mu", "pi pi", "g g"]


def _ann(env, n, lines):
    from hazma.theory import TheoryAnn

    fss = NAMES[:n]
    sig = {fs: env.real(f"sig{i}", 0, None, lo_s=False) for i, fs in enumerate(fss)}
    gam = {fs: env.uf(f"dnde_g{i}") for i, fs in enumerate(fss)}
    pos = {fs: env.uf(f"dnde_p{i}") for i, fs in enumerate(fss)}
    eg = {fs: env.uf(f"line_g{i}", 0, None) for i, fs in enumerate(fss)}
    ep = {fs: env.uf(f"line_p{i}", 0, None) for i, fs in enumerate(fss)}

    class T(TheoryAnn):
        @staticmethod
        def list_annihilation_final_states():
            return list(fss)

        def annihilation_cross_section_funcs(self):
            return {fs: (lambda e_cm, s=sig[fs]: s) for fs in fss}

        def partial_widths(self):
            return {}

        def _spectrum_funcs(self):
            return dict(gam)

        def _positron_spectrum_funcs(self):
            return dict(pos)

        def _gamma_ray_line_energies(self, e_cm):
            return {fs: eg[fs](e_cm) for fs in fss[:lines]}

        def _positron_line_energies(self, e_cm):
            return {fs: ep[fs](e_cm) for fs in fss[:lines]}

        @classmethod
        def constraints(cls):
            return {}

        @classmethod
        def constrain(cls, *a, **k):
            return {}

    return T(), fss, sig, gam, pos, eg, ep


def _dec(env, n, lines):
    from hazma.theory import TheoryDec

    fss = NAMES[:n]
    wid = {fs: env.real(f"w{i}", 0, None, lo_s=False) for i, fs in enumerate(fss)}
    gam = {fs: env.uf(f"dnde_g{i}") for i, fs in enumerate(fss)}
    pos = {fs: env.uf(f"dnde_p{i}") for i, fs in enumerate(fss)}
    eg = {fs: env.real(f"line_g{i}", 0, None) for i, fs in enumerate(fss)}
    ep = {fs: env.real(f"line_p{i}", 0, None) for i, fs in enumerate(fss)}

    class T(TheoryDec):
        @staticmethod
        def list_decay_final_states():
            return list(fss)

        def _decay_widths(self):
            return dict(wid)

        def _spectrum_funcs(self):
            return dict(gam)

        def _positron_spectrum_funcs(self):
            return dict(pos)

        def _gamma_ray_line_energies(self):
            return {fs: eg[fs] for fs in fss[:lines]}

        def _positron_line_energies(self):
            return {fs: ep[fs] for fs in fss[:lines]}

        @classmethod
        def constraints(cls):
            return {}

        @classmethod
        def constrain(cls, *a, **k):
            return {}

    return T(), fss, wid, gam, pos, eg, ep


def _check_bfs(env, tag, bfs, rates, fss):
    tot = sum(rates[fs] for fs in fss)
    env.claim(f"{tag} keys", sorted(bfs) == sorted(fss))
    if tot == 0:
        for fs in fss:
            env.eq(f"{tag} bf with no open channel", bfs[fs], 0.0)
    else:
        for fs in fss:
            env.eq(f"{tag} bf*total = rate", bfs[fs] * tot, rates[fs])
            env.ge(f"{tag} bf >= 0", bfs[fs], 0.0)
        env.eq(f"{tag} bfs sum to one", sum(bfs.values()), 1.0)


def _want(env, rates, funcs, fss, args):
    tot = sum(rates[fs] for fs in fss)
    out = {}
    for fs in fss:
        if rates[fs] > 0:
            out[fs] = rates[fs] / tot * funcs[fs](*args)
        else:
            out[fs] = args[0] * 0.0
    return out


def _use(env, t, rates, dicts, es, q):
    """Ask the theory everything while its rates, spectra and lines are other ones."""
    keep = [dict(d) for d in (rates, *dicts)]
    for i, k in enumerate(rates):
        rates[k] = 1.0 + i
        for d in dicts:
            d[k] = (lambda *a: a[0] * 0.0 + 3.0) if callable(d[k]) else 3.0
    for f in ("annihilation_cross_sections", "annihilation_branching_fractions", "decay_widths", "decay_branching_fractions",
              "gamma_ray_lines", "positron_lines"):
        if hasattr(t, f):
            getattr(t, f)(*q)
    arr = env.array(es)
    for f in (t.spectra, t.positron_spectra, t.total_spectrum, t.total_positron_spectrum):
        for e in (arr, es[0]):
            f(e, *q)
    for f in (t.spectrum_funcs(), t.positron_spectrum_funcs()):
        for g in f.values():
            g(arr, *q)
    for d, k in zip((rates, *dicts), keep):
        d.update(k)


def ann(n, lines, shape, used=False):
    def fn(env):
        t, fss, sig, gam, pos, eg, ep = _ann(env, n, lines)
        e_cm = env.real("e_cm", 0, None)
        es = [env.real(f"e{i}", 0, None) for i in range(max(1, shape))]
        if used:
            _use(env, t, sig, (gam, pos, eg, ep), es, (e_cm,))
        cs = t.annihilation_cross_sections(e_cm)
        env.claim("cross section keys", sorted(cs) == sorted(fss + ["total"]))
        for fs in fss:
            env.eq("cross section passed through", cs[fs], sig[fs])
        env.eq("total cross section", cs["total"], sum(sig.values()))
        _check_bfs(env, "ann", t.annihilation_branching_fractions(e_cm), sig, fss)
        arr = env.array(es)
        for tag, spec, total, funcs in (
            ("photon", t.spectra, t.total_spectrum, gam),
            ("positron", t.positron_spectra, t.total_positron_spectrum, pos),
        ):
            want = _want(env, sig, funcs, fss, (arr, e_cm))
            got = spec(arr, e_cm)
            env.claim(f"{tag} spectra keys", sorted(got) == sorted(fss + ["total"]))
            for fs in fss:
                env.eq(f"{tag} channel spectrum", got[fs], want[fs])
                env.claim(f"{tag} channel spectrum has the shape of the grid", np.shape(got[fs]) == np.shape(arr))
            env.eq(f"{tag} total = sum of channels", got["total"], sum(want.values()))
            for e in (es[0], 12.5):
                one = spec(e, e_cm)
                for fs in fss:
                    env.eq(f"{tag} channel spectrum (scalar energy)", one[fs], _want(env, sig, funcs, fss, (e, e_cm))[fs])
            env.eq(f"{tag} total spectrum", total(arr, e_cm), sum(want.values()))
            env.eq(f"{tag} total spectrum (scalar energy)", total(es[0], e_cm), sum(want.values())[0])
        gf = t.spectrum_funcs()
        pf = t.positron_spectrum_funcs()
        for fs in fss:
            op = sig[fs] > 0
            env.eq("photon spectrum function", gf[fs](arr, e_cm), gam[fs](arr, e_cm) if op else arr * 0.0)
            env.eq("positron spectrum function", pf[fs](arr, e_cm), pos[fs](arr, e_cm) if op else arr * 0.0)
        _lines(env, "photon", t.gamma_ray_lines(e_cm), {fs: eg[fs](e_cm) for fs in fss[:lines]}, sig, fss)
        _lines(env, "positron", t.positron_lines(e_cm), {fs: ep[fs](e_cm) for fs in fss[:lines]}, sig, fss)

    return fn


def _lines(env, tag, got, want, rates, fss):
    tot = sum(rates[fs] for fs in fss)
    zero = bool(tot == 0)
    env.claim(f"{tag} line keys", sorted(got) == sorted(want))
    for fs in want:
        env.eq(f"{tag} line energy", got[fs]["energy"], want[fs])
        env.eq(f"{tag} line bf", got[fs]["bf"], 0.0 if zero else rates[fs] / tot)


def dec(n, lines, shape, used=False):
    def fn(env):
        t, fss, wid, gam, pos, eg, ep = _dec(env, n, lines)
        es = [env.real(f"e{i}", 0, None) for i in range(max(1, shape))]
        if used:
            _use(env, t, wid, (gam, pos, eg, ep), es, ())
        w = t.decay_widths()
        env.claim("width keys", sorted(w) == sorted(fss + ["total"]))
        for fs in fss:
            env.eq("width passed through", w[fs], wid[fs])
        env.eq("total width", w["total"], sum(wid.values()))
        _check_bfs(env, "dec", t.decay_branching_fractions(), wid, fss)
        arr = env.array(es)
        for tag, spec, total, funcs in (
            ("photon", t.spectra, t.total_spectrum, gam),
            ("positron", t.positron_spectra, t.total_positron_spectrum, pos),
        ):
            want = _want(env, wid, funcs, fss, (arr,))
            got = spec(arr)
            env.claim(f"{tag} spectra keys", sorted(got) == sorted(fss + ["total"]))
            for fs in fss:
                env.eq(f"{tag} channel spectrum", got[fs], want[fs])
                env.claim(f"{tag} channel spectrum has the shape of the grid", np.shape(got[fs]) == np.shape(arr))
            env.eq(f"{tag} total = sum of channels", got["total"], sum(want.values()))
            for e in (es[0], 12.5):
                one = spec(e)
                for fs in fss:
                    env.eq(f"{tag} channel spectrum (scalar energy)", one[fs], _want(env, wid, funcs, fss, (e,))[fs])
            env.eq(f"{tag} total spectrum", total(arr), sum(want.values()))
            env.eq(f"{tag} total spectrum (scalar energy)", total(es[0]), sum(want.values())[0])
        gf = t.spectrum_funcs()
        pf = t.positron_spectrum_funcs()
        for fs in fss:
            op = wid[fs] > 0
            env.eq("photon spectrum function", gf[fs](arr), gam[fs](arr) if op else arr * 0.0)
            env.eq("positron spectrum function", pf[fs](arr), pos[fs](arr) if op else arr * 0.0)
        _lines(env, "photon", t.gamma_ray_lines(), {fs: eg[fs] for fs in fss[:lines]}, wid, fss)
        _lines(env, "positron", t.positron_lines(), {fs: ep[fs] for fs in fss[:lines]}, wid, fss)

    return fn


def cases(tier):
    out = []
    for n, lines, shape in ((1, 1, 1), (2, 1, 2), (3, 2, 1)):
        out.append(Case(f"ann n={n}", ann(n, lines, shape)))
        out.append(Case(f"dec n={n}", dec(n, lines, shape)))
    out += [Case("ann after changes", ann(2, 1, 1, True)), Case("dec after changes", dec(2, 1, 1, True))]
    if tier == "thorough":
        out.append(Case("ann n=4", ann(4, 2, 2), timeout=1500))
        out.append(Case("dec n=4", dec(4, 2, 2), timeout=1500))
    return out
