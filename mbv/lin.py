"""Small exact / floating helpers used by the generators (never by the verdicts)."""
from fractions import Fraction


def matmul(a, b):
    n = len(b)
    return [[sum(r[k] * b[k][j] for k in range(n)) for j in range(len(b[0]) if b else 0)] for r in a]


def transpose(a):
    return [list(x) for x in zip(*a)]


def inverse(a):
    """floating inverse or None"""
    n = len(a)
    m = [[float(x) for x in r] + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(a)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(m[i][k]))
        if abs(m[p][k]) < 1e-9:
            return None
        m[k], m[p] = m[p], m[k]
        d = m[k][k]
        m[k] = [x / d for x in m[k]]
        for i in range(n):
            if i != k and m[i][k]:
                f = m[i][k]
                m[i] = [x - f * y for x, y in zip(m[i], m[k])]
    return [r[n:] for r in m]


def maxabs(a):
    return max([abs(x) for r in a for x in r] or [0])


def nice(a, bound=8.0):
    """well conditioned: inverse exists and its entries are moderate"""
    i = inverse(a)
    return i is not None and maxabs(i) <= bound
