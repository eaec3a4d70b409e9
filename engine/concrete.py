"""Concrete side: runs the same harnesses on the really built package (replay of counterexamples, and validation of the
encoding at generic points). Runs under the project's own interpreter."""
import importlib
import json
import math
import os
import sys
import traceback
from fractions import Fraction

import numpy as np

from . import mplshim
from .common import default_value

RTOL, GTOL = 1e-7, 1e-9


def _bardell_coefs():
    """Exact coefficients (ascending powers) of the 30 Bardell functions, without their edge flags."""
    F = Fraction
    out = [[F(1, 2), F(-3, 4), 0, F(1, 4)], [F(1, 8), F(-1, 8), F(-1, 8), F(1, 8)],
           [F(1, 2), F(3, 4), 0, F(-1, 4)], [F(-1, 8), F(-1, 8), F(1, 8), F(1, 8)]]

    def dfact(n):
        r = F(1)
        while n > 1:
            r *= n
            n -= 2
        if n < -1:       # (-3)!! = -1, (-1)!! = 1
            k = n
            while k < -1:
                k += 2
                r /= k
        return r
    for r in range(5, 31):
        c = [F(0)] * r
        for n in range((r - 1) // 2 + 1):
            p = r - 2 * n - 1
            c[p] += F((-1)**n) * dfact(2 * r - 2 * n - 7) / (2**n * math.factorial(n) * math.factorial(p))
        out.append(c)
    return [[F(x) for x in c] for c in out]


COEF = _bardell_coefs()
_DC = {}


def dcoef(p, i):
    k = (p, i)
    if k not in _DC:
        c = COEF[i]
        for _ in range(p):
            c = [n * c[n] for n in range(1, len(c))] or [Fraction(0)]
        _DC[k] = c
    return _DC[k]


_II = {}


def exact_integral(p, q, i, j):
    return float(exact_integral_frac(p, q, i, j))


def exact_integral_frac(p, q, i, j):
    k = (p, q, i, j)
    if k not in _II:
        a, b = dcoef(p, i), dcoef(q, j)
        t = Fraction(0)
        for m, x in enumerate(a):
            if x:
                for n, y in enumerate(b):
                    if y and (m + n) % 2 == 0:
                        t += x * y * Fraction(2, m + n + 1)
        _II[k] = t
    return _II[k]


def basis(p, i, xi):
    t = Fraction(0) if False else 0.
    c = dcoef(p, i)
    for x in reversed(c):
        t = t * xi + float(x)
    return t


class Stop(Exception):
    pass


class Infeasible(Exception):
    pass


class ConcreteBackend:
    symbolic = False

    def __init__(self, inputs, seed, devs=()):
        self.inputs, self.seed, self.devs = inputs, seed, devs
        self.np = self.realnp = np
        self.used = {}
        self.groups = {}
        self.violated = {}
        self.reached = set()

    def real(self, name, lo=0.5, hi=2.0):
        v = self.inputs.get(name)
        if v is None:
            v = default_value(name, float(lo), float(hi), self.seed)
        self.used[name] = v
        return v

    def integer(self, name, lo, hi, default=None):
        v = self.inputs.get(name)
        if v is None:
            v = default if default is not None else lo
        v = int(v)
        self.used[name] = v
        return v

    def sized(self, *shape):
        return np.zeros(shape)

    def some(self, v):
        return v

    def all(self, *conds):
        return all(conds)

    def any(self, *conds):
        return any(conds)

    def no(self, c):
        return not c

    def accepts(self, label, valid, fn, invalid=None):
        try:
            v = fn()
        except Exception as e:
            if isinstance(e, IndexError) and 'on buffer access' in str(e):
                self.fail('overrun: %s: %s' % (label, e))
            elif valid:
                self.fail('%s: refused although it fits: %s: %s' % (label, type(e).__name__, str(e)[:200]))
            return False, None
        if (not valid) if invalid is None else invalid:
            self.fail('%s: accepted although it does not fit' % label)
        return True, v

    def pick(self, sym, conc):
        return conc

    def dev(self, name):
        return name in self.devs

    def mod(self, name):
        return importlib.import_module(name)

    def plots(self):
        return mplshim.concrete()

    def axes(self):
        from matplotlib.figure import Figure
        return Figure().add_subplot(111)

    def const(self, x):
        return x if isinstance(x, complex) else float(x)

    frac = const

    def sqrt(self, x):
        return math.sqrt(x)

    def f(self, p, i, xi, flags):
        v = basis(p, i, xi)
        return v * flags[i] if i < 4 else v

    def I(self, p, q, i, j, fA, fB):
        v = exact_integral(p, q, i, j)
        if i < 4:
            v *= fA[i]
        if j < 4:
            v *= fB[j]
        return v

    def quad(self, n):
        x, w = np.polynomial.legendre.leggauss(n)
        return list(x), list(w)

    def vec(self, items):
        return np.array([float(x) for x in items], dtype=np.float64)

    def arr(self, nested):
        return np.array(nested, dtype=np.float64)

    def laminate(self, **k):
        from composites import laminated_plate
        return np.array(laminated_plate(**k).ABD, dtype=np.float64)

    def ply(self, angle, prop, h):
        from composites import laminated_plate
        return laminated_plate([angle], plyts=[h], laminaprops=[prop]).plies[0]

    def _g(self, label):
        return label.split('[')[0].split(':')[0].strip()

    def eq(self, label, code, spec):
        try:
            c = complex(code) if isinstance(code, (complex, np.complexfloating)) else float(code)
        except (TypeError, ValueError):
            self.violated.setdefault(self._g(label), '%s: not a number: %r' % (label, code))
            return
        self.groups.setdefault(self._g(label), []).append((label, c, spec))

    eq_exact = eq

    def true(self, label, cond):
        if not cond:
            self.violated.setdefault(self._g(label), label)

    def fail(self, label):
        self.violated.setdefault(self._g(label), label)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def reach(self, tag):
        self.reached.add(tag)

    def dense(self, M):
        if hasattr(M, 'toarray'):
            return M.toarray()
        return np.asarray(M)

    def call(self, label, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Stop:
            raise
        except Exception as e:
            self.fail('%s: raises %s: %s' % (label, type(e).__name__, str(e)[:200]))
        raise Stop()

    def raises(self, label, fn, *a, **k):
        try:
            fn(*a, **k)
        except Stop:
            raise
        except Exception:
            return
        self.fail(label + ': accepted')

    def dot(self, a, b):
        return sum(float(x) * float(y) for x, y in zip(a, b))

    def finish(self):
        for g, items in self.groups.items():
            big = max([abs(s) for _, _, s in items] + [0.])
            for label, c, s in items:
                if not (abs(c - s) <= RTOL * abs(s) + GTOL * max(big, 1e-12)):
                    self.violated.setdefault(g, '%s: code gives %r, property requires %r' % (label, c, s))
                    break


def run(fn, params, inputs, seed, devs=()):
    be = ConcreteBackend(inputs, seed, devs)
    status = 'ok'
    name = params.pop('_name', 'harness')
    try:
        fn(be, **params)
    except Stop:
        pass
    except Infeasible:
        status = 'infeasible'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/panels/' in f.filename for f in tb):
            be.fail('%s: raises %s: %s' % (name, type(e).__name__, str(e)[:300]))
        else:
            return {'status': 'error', 'error': traceback.format_exc(), 'violated': {}}
    be.finish()
    return {'status': status, 'violated': be.violated, 'inputs': be.used, 'obligations': sum(len(v) for v in be.groups.values())}


def main():
    root, job = sys.argv[1], sys.argv[2]
    sys.path.insert(0, root)
    sys.stdout.flush()
    keep = os.dup(1)
    os.dup2(2, 1)
    jobs = json.load(open(job))
    res = []
    os.chdir(root)
    import warnings
    warnings.simplefilter('ignore')
    for j in jobs:
        mod = importlib.import_module('checks.' + j['check'])
        hs = {h['name']: h for h in mod.harnesses(j['tier'])}
        h = hs[j['harness']]
        params = dict(h['params'])
        params['_name'] = h['name']
        res.append(run(h['fn'], params, j['inputs'], j['seed'], j.get('devs', ())))
    with os.fdopen(keep, 'w') as fh:
        json.dump(res, fh)


if __name__ == '__main__':
    main()
