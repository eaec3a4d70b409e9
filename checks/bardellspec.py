"""Bardell's hierarchical functions from their definition (Rodrigues form), exactly; no solver and no numpy needed."""
import math
from fractions import Fraction as F

NUM = 30


def _dfact(n):
    r = F(1)
    while n > 1:
        r *= n
        n -= 2
    k = n
    while k < -1:
        k += 2
        r /= k
    return r


def _coefs():
    out = [[F(1, 2), F(-3, 4), F(0), F(1, 4)], [F(1, 8), F(-1, 8), F(-1, 8), F(1, 8)],
           [F(1, 2), F(3, 4), F(0), F(-1, 4)], [F(-1, 8), F(-1, 8), F(1, 8), F(1, 8)]]
    for r in range(5, NUM + 1):
        c = [F(0)] * r
        for n in range((r - 1) // 2 + 1):
            p = r - 2 * n - 1
            c[p] += F((-1)**n) * _dfact(2 * r - 2 * n - 7) / (2**n * math.factorial(n) * math.factorial(p))
        out.append(c)
    return out


COEF = _coefs()


def deriv(c):
    return [n * c[n] for n in range(1, len(c))] or [F(0)]


def dcoef(p, i):
    c = COEF[i]
    for _ in range(p):
        c = deriv(c)
    return c


def evalp(c, x):
    t = F(0)
    for k in reversed(c):
        t = t * x + k
    return t


def integral(p, q, i, j):
    t = F(0)
    for m, x in enumerate(dcoef(p, i)):
        if x:
            for n, y in enumerate(dcoef(q, j)):
                if y and (m + n) % 2 == 0:
                    t += x * y * F(2, m + n + 1)
    return t


# the definition itself is tied down by its defining facts (checked once at import, exactly)
for _i in range(NUM):
    _e = [evalp(dcoef(_p, _i), _x) for _x in (F(-1), F(1)) for _p in (0, 1)]
    assert _e == ([F(1), 0, 0, 0], [0, F(1, 2), 0, 0], [0, 0, F(1), 0], [0, 0, 0, F(1, 2)])[_i] if _i < 4 else _e == [0] * 4, _i
for _i in range(4, NUM):
    for _j in range(4, NUM):
        if _i != _j:
            assert integral(2, 2, _i, _j) == 0
