"""Reference formulas used as oracles."""


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * a * b - 2 * b * c - 2 * a * c


def pcm(env, q, m1, m2):
    """Two-body momentum above threshold."""
    return env.np.sqrt((q - m1 - m2) * (q + m1 + m2)) * env.np.sqrt((q - m1 + m2) * (q + m1 - m2)) / (2 * q)
