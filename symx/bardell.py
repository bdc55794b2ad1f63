"""The Bardell basis and its integrals, exactly: cubic Hermite functions, then Legendre polynomials integrated twice with
zero value and slope at both ends. Written from the definition, independently of the code's tables."""
from fractions import Fraction
from functools import lru_cache

H = Fraction(1, 2)
Q4 = Fraction(1, 4)
HERMITE = [                      # coefficients of 1, x, x^2, x^3: (value, slope) at -1 then at +1
    [H, -3 * Q4, 0, Q4],         # value 1 at -1
    [Q4 * H * 1, -Q4 * H, -Q4 * H, Q4 * H],
    [H, 3 * Q4, 0, -Q4],         # value 1 at +1
    [-Q4 * H, -Q4 * H, Q4 * H, Q4 * H],
]


@lru_cache(None)
def legendre(n):
    if n == 0:
        return (Fraction(1),)
    if n == 1:
        return (Fraction(0), Fraction(1))
    a, b = legendre(n - 1), legendre(n - 2)
    out = [Fraction(0)] * (n + 1)
    for i, c in enumerate(a):
        out[i + 1] += Fraction(2 * n - 1, n) * c
    for i, c in enumerate(b):
        out[i] -= Fraction(n - 1, n) * c
    return tuple(out)


def integral(p):
    """Antiderivative that vanishes at -1."""
    q = [Fraction(0)] + [c / (i + 1) for i, c in enumerate(p)]
    q[0] = -sum(c * (-1) ** i for i, c in enumerate(q))
    return tuple(q)


@lru_cache(None)
def poly(i, d=0):
    """Coefficients of the d-th derivative of function i."""
    if d:
        p = poly(i, d - 1)
        return tuple(c * k for k, c in enumerate(p))[1:]
    if i < 4:
        return tuple(Fraction(c) for c in HERMITE[i])
    return integral(integral(legendre(i - 2)))


@lru_cache(None)
def inner(i, di, k, dk):
    """Integral over [-1, 1] of f_i^(di) f_k^(dk)."""
    a, b = poly(i, di), poly(k, dk)
    s = Fraction(0)
    for p, x in enumerate(a):
        if not x:
            continue
        for q, y in enumerate(b):
            if y and (p + q) % 2 == 0:
                s += x * y * Fraction(2, p + q + 1)
    return s


def value(i, x, d=0):
    r = 0
    for c in reversed(poly(i, d)):
        r = r * x + c
    return r
