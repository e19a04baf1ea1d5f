"""Kinematic helpers and four-vector products."""
import numpy as np

from vf.harness import Case

PROPERTY = "P11"
BOUNDS = "any four-vectors, velocities below c along any axis, masses and energies; batches of 2x3 vectors on any axis of arrays with up to 3 axes"
ASSUMPTIONS = ["real arithmetic"]
FUNCTIONS = ["hazma.utils.ldot", "hazma.utils.lnorm_sqr", "hazma.utils.minkowski_dot", "hazma.utils.kallen_lambda",
             "hazma.utils.two_body_momentum", "hazma.utils.cross_section_prefactor", "hazma.utils.kinematically_accessable"]


def vec(env, n):
    return [env.real(f"{n}{i}", -1e3, 1e3) for i in range(4)]


def dot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def products(env):
    """Single vectors: (+,-,-,-), symmetric, bilinear, norm = square."""
    from hazma import utils as U

    a, b, c = vec(env, "a"), vec(env, "b"), vec(env, "c")
    k = env.real("k", -10, 10)
    A, B = env.array(a), env.array(b)
    env.eq("ldot", U.ldot(A, B), dot(a, b), atol=1e-7)
    env.eq("minkowski_dot", U.minkowski_dot(a, b), dot(a, b), atol=1e-7)
    env.eq("minkowski_dot of arrays", U.minkowski_dot(A, B), dot(a, b), atol=1e-7)
    env.eq("norm", U.lnorm_sqr(A), dot(a, a), atol=1e-7)
    env.eq("symmetric", U.ldot(B, A), U.ldot(A, B), atol=1e-7)
    env.eq("bilinear", U.ldot(A + k * env.array(c), B), dot(a, b) + k * dot(c, b), atol=1e-6)
    env.eq("polarisation", U.lnorm_sqr(A + B), U.lnorm_sqr(A) + 2 * U.ldot(A, B) + U.lnorm_sqr(B), atol=1e-6)


def invariant(env):
    """Products do not change under boosts along an axis nor rotations about one."""
    from hazma import utils as U

    a, b = vec(env, "a"), vec(env, "b")
    ax = env.choose("axis", [1, 2, 3])
    r = env.real("r", 0.1, 10)
    kind = env.choose("transformation", ["boost", "rotation"])
    if kind == "boost":
        c, s = (r + 1 / r) / 2, (r - 1 / r) / 2
        i, j, sg = 0, ax, 1
    else:
        c, s = (1 - r * r) / (1 + r * r), 2 * r / (1 + r * r)
        i, j, sg = [(2, 3), (3, 1), (1, 2)][ax - 1] + (-1,)

    def tr(v):
        w = list(v)
        w[i], w[j] = c * v[i] + s * v[j], sg * s * v[i] + c * v[j]
        return w

    A, B = env.array(tr(a)), env.array(tr(b))
    env.eq("ldot invariant", U.ldot(A, B), dot(a, b), atol=1e-3)
    env.eq("minkowski_dot invariant", U.minkowski_dot(tr(a), tr(b)), dot(a, b), atol=1e-3)
    env.eq("norm invariant", U.lnorm_sqr(A), dot(a, a), atol=1e-3)


def batches(env):
    """Batched vectors: products over the requested axis, one per batch entry."""
    from hazma import utils as U

    shape, axis = env.choose("layout", [((4, 2), 0), ((2, 4), 1), ((2, 4), -1), ((4, 2, 3), 0), ((2, 4, 3), 1),
                                        ((2, 3, 4), 2), ((2, 3, 4), -1), ((4, 4), 0), ((4, 4), 1)])
    n = int(np.prod(shape))
    A = env.array([env.real(f"a{i}", -10, 10) for i in range(n)]).reshape(shape)
    B = env.array([env.real(f"b{i}", -10, 10) for i in range(n)]).reshape(shape)
    kw = {} if axis == 0 and env.choose("default axis", [False, True]) else dict(axis=axis)
    d, q = U.ldot(A, B, **kw), U.lnorm_sqr(A, **kw)
    ma, mb = np.moveaxis(A, axis, 0), np.moveaxis(B, axis, 0)
    env.claim("shape", np.shape(d) == ma.shape[1:] and np.shape(q) == ma.shape[1:])
    for i in np.ndindex(ma.shape[1:]):
        a = [ma[(c,) + i] for c in range(4)]
        b = [mb[(c,) + i] for c in range(4)]
        env.eq("product", d[i], dot(a, b), atol=1e-9)
        env.eq("norm", q[i], dot(a, a), atol=1e-9)


def shapes(env):
    from hazma import utils as U

    a = env.real("a", -1, 1)
    A, B = env.array([a] * 6).reshape(2, 3), env.array([a] * 8).reshape(2, 4)
    env.raises("three components", AssertionError, lambda: U.ldot(A, A, axis=1))
    env.raises("three components", AssertionError, lambda: U.lnorm_sqr(A, axis=1))
    env.raises("wrong axis", AssertionError, lambda: U.ldot(B, B, axis=0))
    env.raises("wrong axis", AssertionError, lambda: U.lnorm_sqr(B, axis=0))


def kallen(env):
    """Symmetric, homogeneous, factorises, vanishes exactly at its two roots, negative only between them."""
    from hazma import utils as U

    f = U.kallen_lambda
    x, y, z = (env.real(n, -1e3, 1e3) for n in "xyz")
    env.eq("definition", f(x, y, z), x * x + y * y + z * z - 2 * x * y - 2 * y * z - 2 * z * x, atol=1e-6)
    env.eq("symmetric", [f(y, x, z), f(x, z, y), f(z, y, x)], [f(x, y, z)] * 3, atol=1e-6)
    k = env.real("k", -10, 10)
    env.eq("homogeneous", f(k * x, k * y, k * z), k * k * f(x, y, z), atol=1e-4)
    e, m1, m2 = env.real("e", 0, 100), env.real("m1", 0, 100, lo_s=False), env.real("m2", 0, 100, lo_s=False)
    env.eq("factors", f(e * e, m1 * m1, m2 * m2),
           (e - m1 - m2) * (e + m1 + m2) * (e - m1 + m2) * (e + m1 - m2), atol=1e-5)
    arr = f(env.array([x, y]), env.array([y, z]), env.array([z, x]))
    env.eq("arrays", list(arr), [f(x, y, z), f(y, z, x)], atol=1e-6)


def momentum(env):
    """On shell: the two energies of the common momentum add up to the total energy."""
    from hazma import utils as U

    m1, m2 = env.real("m1", 0, 1e3, lo_s=False), env.real("m2", 0, 1e3, lo_s=False)
    k = env.real("k", 0, 1e3)
    e = m1 + m2 + k
    p = U.two_body_momentum(e, m1, m2)
    env.ge("not negative", p, 0.0)
    e1, e2 = (e * e + m1 * m1 - m2 * m2) / (2 * e), (e * e - m1 * m1 + m2 * m2) / (2 * e)
    env.eq("first mass shell", e1 * e1 - p * p, m1 * m1, atol=1e-5)
    env.eq("second mass shell", e2 * e2 - p * p, m2 * m2, atol=1e-5)
    env.eq("symmetric", U.two_body_momentum(e, m2, m1), p)
    env.eq("flux", U.cross_section_prefactor(m1, m2, e) * 4 * p * e, 1.0)
    # Moller flux: 2E1 2E2 |v1 - v2| = 4 sqrt((p1.p2)^2 - m1^2 m2^2)
    pp = e1 * e2 + p * p
    env.eq("invariant flux", (4 * p * e) ** 2, 16 * (pp * pp - m1 * m1 * m2 * m2), rtol=1e-5, atol=1e-3)
    env.eq("arrays", list(U.two_body_momentum(env.array([e, 2 * e]), m1, m2)), [p, U.two_body_momentum(2 * e, m1, m2)])


def accessible(env):
    from hazma import utils as U

    n = env.choose("particles", [1, 2, 3])
    ms = [env.real(f"m{i}", 0, 1e3, lo_s=False) for i in range(n)]
    k = env.real("k", 0, 1e3)
    env.claim("above threshold", U.kinematically_accessable(sum(ms) + k, ms))
    r = U.kinematically_accessable(sum(ms) - k, ms)
    env.claim("below threshold", _not(env, r))
    env.claim("array of masses", U.kinematically_accessable(sum(ms) + k, env.array(ms)))


def _not(env, r):
    return ~r if hasattr(r, "__invert__") and not isinstance(r, (bool, int)) else not r


def cases(tier):
    kw = dict(undef="assume")
    return [Case(f.__name__, f, **kw) for f in (products, invariant, batches, shapes, kallen, momentum, accessible)]
