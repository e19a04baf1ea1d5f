"""CKM matrix: unitary, and the Wolfenstein parameters are the ones asked for."""
import numpy as np

from vf.harness import Case

PROPERTY = "P28"
BOUNDS = "0 < lambda <= 1/2, |A| <= 2, |rho-bar|, |eta-bar| <= 1 (A != 0 for the apex)"
ASSUMPTIONS = ["the sines of the angles stay below one (|s13| < 1), which these ranges imply"]
FUNCTIONS = ["hazma.parameters._ckm_wolfenstein", "hazma.parameters.CKM", "hazma.parameters.V*"]


def _v(env):
    from hazma import parameters as p

    lam = env.real("lam", 0.01, 0.5)
    a = env.real("a", 0.01, 2)
    rho = env.real("rho", -1, 1)
    eta = env.real("eta", -1, 1)
    return p._ckm_wolfenstein(lam, a, rho, eta), lam, a, rho, eta


def ceq(env, label, x, y, **kw):
    for part, f in (("re", np.real), ("im", np.imag)):
        env.eq(f"{label} ({part})", f(x), f(y), **kw)


def unitary(env):
    v, lam, a, rho, eta = _v(env)
    for i in range(3):
        for j in range(i, 3):
            row = sum(v[i, k] * np.conj(v[j, k]) for k in range(3))
            col = sum(v[k, i] * np.conj(v[k, j]) for k in range(3))
            ceq(env, f"rows {i},{j}", row, 1.0 + 0j if i == j else 0j, atol=1e-12)
            ceq(env, f"columns {i},{j}", col, 1.0 + 0j if i == j else 0j, atol=1e-12)


def wolfenstein(env):
    v, lam, a, rho, eta = _v(env)
    us, ud, cb, cd, ub, tb = v[0, 1], v[0, 0], v[1, 2], v[1, 0], v[0, 2], v[2, 2]
    n = abs(ud) ** 2 + abs(us) ** 2
    env.eq("lambda^2 = |Vus|^2 / (|Vud|^2 + |Vus|^2)", abs(us) ** 2, lam**2 * n, rtol=1e-9)
    env.eq("A lambda^2 = lambda |Vcb / Vus|", abs(cb) ** 2, (a * lam) ** 2 * abs(us) ** 2, rtol=1e-9)
    z = -ud * np.conj(ub)
    w = cd * np.conj(cb)
    ceq(env, "apex of the unitarity triangle", z, (rho + 1j * eta) * w, rtol=1e-9, atol=1e-12)
    for x in (ud, us, cb, tb):
        env.eq("phase convention", np.imag(x), 0.0, atol=1e-15)
        env.ge("phase convention", np.real(x), 0.0)


def constants(env):
    from hazma import parameters as p

    names = [["Vud", "Vus", "Vub"], ["Vcd", "Vcs", "Vcb"], ["Vtd", "Vts", "Vtb"]]
    for i in range(3):
        for j in range(3):
            ceq(env, names[i][j], getattr(p, names[i][j]), p.CKM[i, j], rtol=1e-12)
            ceq(env, f"CKM rows {i},{j}", sum(p.CKM[i, k] * np.conj(p.CKM[j, k]) for k in range(3)), complex(i == j), atol=1e-12)


def cases(tier):
    kw = dict(timeout=240, undef="assume")
    return [Case("unitary", unitary, **kw), Case("wolfenstein", wolfenstein, **kw), Case("constants", constants, sym_consts=False, **kw)]
