"""Exact rational vector arithmetic (the values are exactly those the library is given)."""
import math
from fractions import Fraction

import numpy as np


def F(x):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, np.ndarray):
        x = x.item()
    if isinstance(x, (np.integer, np.bool_)):
        return Fraction(int(x))
    return Fraction(float(x))


def fv(v):
    return [F(x) for x in v]


def fm(m):
    return [fv(r) for r in m]


def add(a, b):
    return [x + y for x, y in zip(a, b, strict=True)]


def sub(a, b):
    return [x - y for x, y in zip(a, b, strict=True)]


def mul(t, a):
    return [t * x for x in a]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b, strict=True)), Fraction(0))


def pad(a, n=3):
    return list(a) + [Fraction(0)] * (n - len(a))


def cross(a, b):
    a, b = pad(a), pad(b)
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def n2(a):
    return dot(a, a)


def sqrt(q):
    """Square root of a non-negative rational, correct to an ulp or so."""
    q = Fraction(q)
    if q == 0:
        return 0.0
    n, d = q.numerator, q.denominator
    # scale so that the integer root has at least 64 bits
    k = max(0, 140 - (n.bit_length() - d.bit_length()))
    k += k & 1
    r = math.isqrt((n << k) // d) if k else math.isqrt(n // d)
    return float(Fraction(r, 1 << (k // 2)))


def norm(a):
    return sqrt(n2(a))


def dist(a, b):
    return norm(sub(a, b))


def fl(v):
    return [float(x) for x in v]


def foot_line(p, d, x):
    """Foot of x on the line p + t d, and t."""
    t = dot(sub(x, p), d) / n2(d)
    return add(p, mul(t, d)), t


def gram2(a, b):
    """|a|^2 |b|^2 - (a.b)^2: zero exactly if a and b are linearly dependent."""
    return n2(a) * n2(b) - dot(a, b) ** 2


def sin2(a, b):
    return gram2(a, b) / (n2(a) * n2(b))


def rank(rows):
    """Exact rank of a rational matrix."""
    m = [list(r) for r in rows]
    rk, cols = 0, len(m[0]) if m else 0
    for c in range(cols):
        piv = next((i for i in range(rk, len(m)) if m[i][c] != 0), None)
        if piv is None:
            continue
        m[rk], m[piv] = m[piv], m[rk]
        for i in range(rk + 1, len(m)):
            if m[i][c] != 0:
                f = m[i][c] / m[rk][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[rk])]
        rk += 1
    return rk


def affine_rank(points):
    return rank([sub(p, points[0]) for p in points[1:]]) if len(points) > 1 else 0


def angle(a, b):
    """Angle between two exact vectors in [0, pi]."""
    return math.atan2(sqrt(gram2(a, b)), float(dot(a, b)))


def mag(*vs):
    """Largest absolute coordinate, as a float."""
    m = 0.0
    for v in vs:
        for x in v:
            m = max(m, abs(float(x)))
    return m


def det3(a, b, c):
    return dot(a, cross(b, c))


def _ulp2(q):
    """Exponent of the lowest set bit of a non-zero dyadic rational."""
    n = abs(q.numerator)
    return (n & -n).bit_length() - 1 - (q.denominator.bit_length() - 1)


def dot_is_exact(a, b):
    """True if the dot product is free of rounding in doubles, in any order of summation."""
    ps = [x * y for x, y in zip(a, b) if x and y]
    if not ps:
        return True
    return sum(map(abs, ps)) < Fraction(2) ** (53 + min(map(_ulp2, ps)))
