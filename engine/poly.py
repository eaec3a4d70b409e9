"""Exact symbolic reals: Laurent polynomials over named atoms with rational coefficients.

Every float that enters (a literal of the code under test, a Python float) enters as the exact rational it denotes, so
the only approximation of this encoding is "C doubles are reals"; no rounding of the engine's own is involved.
"""
from fractions import Fraction
import math

_MONO = []            # id -> tuple of (atom id, exponent), sorted
_MONO_ID = {}
_MUL = {}
ATOMS = []            # id -> Atom
_ATOM_BY_KEY = {}


class Unencodable(Exception):
    """The code under test did something this encoding has no meaning for: the check stops with an error, never quiet."""


def _intern(m):
    i = _MONO_ID.get(m)
    if i is None:
        i = len(_MONO)
        _MONO.append(m)
        _MONO_ID[m] = i
    return i


ONE = _intern(())


def _mmul(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _MUL.get(k)
    if r is None:
        d = dict(_MONO[a])
        for at, e in _MONO[b]:
            e2 = d.get(at, 0) + e
            if e2:
                d[at] = e2
            else:
                d.pop(at, None)
        r = _intern(tuple(sorted(d.items())))
        _MUL[k] = r
    return r


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'data')

    def __init__(self, name, lo, hi, kind, data=None):
        self.id = len(ATOMS)
        self.name = name
        self.lo = Fraction(lo)
        self.hi = Fraction(hi)
        self.kind = kind
        self.data = data
        ATOMS.append(self)


def atom(key, name, lo=-1, hi=1, kind='in', data=None):
    """The Poly of the atom with this key; the same key always gives the same atom."""
    a = _ATOM_BY_KEY.get(key)
    if a is None:
        a = Atom(name, lo, hi, kind, data)
        _ATOM_BY_KEY[key] = a
        _ATOM_BY_KEY[('id', a.id)] = Poly({_intern(((a.id, 1),)): 1})
    return _ATOM_BY_KEY[('id', a.id)]


def atom_of(p):
    (m,) = p.t
    ((i, e),) = _MONO[m]
    return ATOMS[i]


def reset():
    del _MONO[1:]
    _MONO_ID.clear()
    _MONO_ID[()] = 0
    _MUL.clear()
    del ATOMS[:]
    _ATOM_BY_KEY.clear()


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def num(x):
    """Exact rational of a Python/numpy number, as int or Fraction; None when x is not a number."""
    t = type(x)
    if t is int:
        return x
    if t is float:
        if not math.isfinite(x):
            raise Unencodable('non-finite number %r' % x)
        if x.is_integer():
            return int(x)
        return Fraction(x)
    if t is Fraction:
        return _norm(x)
    if t is bool:
        return int(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return num(x.item())
    return None


class Poly:
    __slots__ = ('t',)
    __array_priority__ = 1000
    __array_ufunc__ = None     # numpy scalars and arrays defer to the reflected operators below

    def __init__(self, t):
        self.t = t

    # ---- construction
    @staticmethod
    def const(c):
        return Poly({0: c} if c else {})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def constval(self):
        return self.t.get(0, 0)

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is not Poly:
            if _is_arr(o):
                return _arr_op(o, lambda e: self + e)
            c = num(o)
            if c is None:
                return NotImplemented
            if not c:
                return self
            o = Poly({0: c})
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = _norm(s)
            else:
                r.pop(m, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Poly:
            if _is_arr(o):
                return _arr_op(o, lambda e: self - e)
            c = num(o)
            if c is None:
                return NotImplemented
            o = Poly.const(c)
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) - c
            if s:
                r[m] = _norm(s)
            else:
                r.pop(m, None)
        return Poly(r)

    def __rsub__(self, o):
        if _is_arr(o):
            return _arr_op(o, lambda e: e - self)
        return (-self) + o

    def __mul__(self, o):
        if type(o) is not Poly:
            if _is_arr(o):
                return _arr_op(o, lambda e: self * e)
            c = num(o)
            if c is None:
                if isinstance(o, complex):
                    return self * D(o)
                return NotImplemented
            if not c:
                return Poly({})
            if c == 1:
                return self
            return Poly({m: _norm(k * c) for m, k in self.t.items()})
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                s = get(m, 0) + c1 * c2
                r[m] = s
        return Poly({m: _norm(c) for m, c in r.items() if c})
    __rmul__ = __mul__

    def inv(self):
        t = self.t
        if not t:
            raise ZeroDivisionError('symbolic division by zero')
        if len(t) == 1:
            ((m, c),) = t.items()
            return Poly({_intern(tuple((a, -e) for a, e in _MONO[m])): _norm(Fraction(1) / c)})
        return _general_inverse(self)

    def __truediv__(self, o):
        if type(o) is not Poly:
            if _is_arr(o):
                return _arr_op(o, lambda e: self / e)
            c = num(o)
            if c is None:
                return NotImplemented
            if not c:
                raise ZeroDivisionError('division by zero')
            return self * (Fraction(1) / c)
        return self * o.inv()

    def __rtruediv__(self, o):
        if _is_arr(o):
            return _arr_op(o, lambda e: e / self)
        c = num(o)
        if c is None:
            return NotImplemented
        return self.inv() * c

    def __pow__(self, e):
        if type(e) is Poly:
            if not e.is_const():
                raise Unencodable('symbolic exponent')
            e = e.constval()
        c = num(e)
        if c is None:
            return NotImplemented
        if type(c) is Fraction:
            if c == Fraction(1, 2):
                return sqrt(self)
            if c == Fraction(-1, 2):
                return sqrt(self).inv()
            if c.denominator == 2:
                return sqrt(self) ** c.numerator
            raise Unencodable('power %s' % c)
        if c < 0:
            return (self.inv()) ** (-c)
        r = Poly({0: 1})
        b = self
        while c:
            if c & 1:
                r = r * b
            c >>= 1
            if c:
                b = b * b
        return r

    def __rpow__(self, b):
        if self.is_const():
            return num(b) ** self.constval()
        raise Unencodable('symbolic exponent')

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return float(self.constval())
        raise Unencodable('float() of a symbolic value %s' % self)

    def __int__(self):
        if self.is_const():
            return int(self.constval())
        raise Unencodable('int() of a symbolic value %s' % self)

    def __index__(self):
        if self.is_const() and type(self.constval()) is int:
            return self.constval()
        raise Unencodable('index from a symbolic value %s' % self)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    # ---- comparisons
    def _cmp(self, o, op):
        if type(o) is not Poly:
            if o is None or isinstance(o, str):
                return NotImplemented
            if _is_arr(o):
                return _arr_op(o, lambda e: self._cmp(e, op))
            if isinstance(o, float) and math.isinf(o):
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
            c = num(o)
            if c is None:
                return NotImplemented
            o = Poly.const(c)
        d = self - o
        if d.is_const():
            v = d.constval()
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        return SymBool(('cmp', op, d))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __abs__(self):
        if self.is_const():
            return Poly.const(abs(self.constval()))
        return self if bool(self >= 0) else -self

    # numpy object-array ufuncs call these
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return 'Poly(%s)' % self

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in list(self.t.items())[:12]:
            fac = '*'.join(ATOMS[a].name + ('' if e == 1 else '^%d' % e) for a, e in _MONO[m])
            cs = str(c) if type(c) is int else '%.12g' % float(c)
            out.append(cs + ('*' + fac if fac else ''))
        if len(self.t) > 12:
            out.append('... (%d terms)' % len(self.t))
        return ' + '.join(out)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unencodable('pickling a symbolic value')

    # ---- analysis
    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in _MONO[m]:
                s.add(a)
        return s

    def evaluate(self, val):
        """Exact value for a map atom id -> Fraction."""
        tot = Fraction(0)
        for m, c in self.t.items():
            v = Fraction(c)
            for a, e in _MONO[m]:
                v *= Fraction(val(a)) ** e
            tot += v
        return tot

    def evaluate_f(self, val):
        tot = 0.
        for m, c in self.t.items():
            v = float(c)
            for a, e in _MONO[m]:
                v *= val(a) ** e
            tot += v
        return tot

    def subs(self, amap):
        """Substitute Polys for atoms (atom id -> Poly)."""
        tot = Poly({})
        cache = {}
        for m, c in self.t.items():
            key = []
            r = None
            for a, e in _MONO[m]:
                if a in amap:
                    k = (a, e)
                    pw = cache.get(k)
                    if pw is None:
                        pw = cache[k] = amap[a] ** e
                    r = pw if r is None else r * pw
                else:
                    key.append((a, e))
            base = Poly({_intern(tuple(key)): c})
            tot = tot + (base if r is None else base * r)
        return tot

    def diff(self, a):
        """Partial derivative with respect to the atom (a Poly that is one atom)."""
        i = atom_of(a).id
        r = {}
        for m, c in self.t.items():
            d = dict(_MONO[m])
            e = d.get(i)
            if e is None:
                continue
            if e == 1:
                del d[i]
            else:
                d[i] = e - 1
            k = _intern(tuple(sorted(d.items())))
            s = r.get(k, 0) + c * e
            r[k] = _norm(s)
        return Poly({m: c for m, c in r.items() if c})

    def canon(self, digits=11):
        """Hashable key, equal for polynomials equal up to the last bits of their coefficients."""
        return tuple(sorted((_MONO[m], _round(c, digits)) for m, c in self.t.items() if abs(c) > 1e-13))


def _round(c, digits):
    if type(c) is int:
        return c
    f = float(c)
    r = float('%.*g' % (digits, f))
    return int(r) if r == int(r) else r


def _is_arr(o):
    return hasattr(o, 'ndim') and hasattr(o, 'shape') and o.shape != ()


def _arr_op(arr, fn):
    import numpy as np
    if hasattr(arr, 'sized'):
        return arr      # known by its shape only
    a = np.asarray(arr, dtype=object)
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = fn(af[i])
    return out


# ---------------------------------------------------------------- derived atoms
DEFS = {}    # atom id -> ('inv', Poly) or ('sqrt', Poly)


def _bound_mono(m):
    lo = hi = Fraction(1)
    for a, e in _MONO[m]:
        A = ATOMS[a]
        l, h = A.lo, A.hi
        if e < 0:
            if l <= 0 <= h:
                return None
            l, h = 1 / h, 1 / l
        k = abs(e)
        if k % 2 == 0 and l < 0 < h:
            pl, ph = Fraction(0), max(abs(l), abs(h)) ** k
        else:
            x, y = l ** k, h ** k
            pl, ph = min(x, y), max(x, y)
        c = (lo * pl, lo * ph, hi * pl, hi * ph)
        lo, hi = min(c), max(c)
    return lo, hi


def bounds(p):
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        b = _bound_mono(m)
        if b is None:
            return None
        x, y = c * b[0], c * b[1]
        lo += min(x, y)
        hi += max(x, y)
    return lo, hi


def _general_inverse(p):
    # pull out the common monomial, and make the rest's leading coefficient 1
    mins = {}
    monos = [dict(_MONO[m]) for m in p.t]
    allatoms = set(a for d in monos for a in d)
    for a in allatoms:
        mins[a] = min(d.get(a, 0) for d in monos)
    common = _intern(tuple(sorted((a, e) for a, e in mins.items() if e)))
    cinv = _intern(tuple((a, -e) for a, e in _MONO[common]))
    q = p * Poly({cinv: 1})
    lead = min(q.t.items(), key=lambda kv: _MONO[kv[0]])
    lc = lead[1]
    q = q * (Fraction(1) / lc)
    key = ('inv', q.canon(15))
    if key not in _ATOM_BY_KEY:
        b = bounds(q)
        if b is not None and (b[0] > 0 or b[1] < 0):
            lo, hi = sorted((1 / b[0], 1 / b[1]))
        else:
            lo, hi = -10**6, 10**6
        x = atom(key, '1/(%s)' % q, lo, hi, 'inv', q)
        DEFS[atom_of(x).id] = ('inv', q)
    x = _ATOM_BY_KEY[('id', _ATOM_BY_KEY[key].id)]
    return x * Poly({cinv: 1}) * (Fraction(1) / lc)


def sqrt(p):
    if type(p) is not Poly:
        c = num(p)
        p = Poly.const(c)
    if p.is_const():
        v = p.constval()
        if v < 0:
            raise Unencodable('sqrt of a negative number')
        f = Fraction(v)
        rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if rn * rn == f.numerator and rd * rd == f.denominator:
            return Poly.const(_norm(Fraction(rn, rd)))
        return Poly.const(num(math.sqrt(f)))
    key = ('sqrt', p.canon(15))
    if key not in _ATOM_BY_KEY:
        b = bounds(p)
        if b is not None and b[0] > 0:
            lo, hi = Fraction(math.sqrt(b[0])) * Fraction(999, 1000), Fraction(math.sqrt(b[1])) * Fraction(1001, 1000)
        elif b is not None:
            lo, hi = 0, Fraction(math.sqrt(max(b[1], 0)) * 1.001)
        else:
            lo, hi = 0, 10**6
        x = atom(key, 'sqrt(%s)' % p, lo, hi, 'sqrt', p)
        DEFS[atom_of(x).id] = ('sqrt', p)
    return _ATOM_BY_KEY[('id', _ATOM_BY_KEY[key].id)]


def eliminate(p):
    """Rewrite p, modulo the defining equations of 1/q and sqrt atoms: multiply out inverses (so the result is p times a
    non-zero factor), reduce even powers of square roots. Zero iff p is zero wherever the defining equations hold, for the
    identities that arise here; the factor is returned too."""
    factor = Poly({0: 1})
    for _ in range(20):
        ids = [a for a in p.atoms() if a in DEFS]
        if not ids:
            break
        i = max(ids)
        kind, q = DEFS[i]
        exps = [dict(_MONO[m]).get(i, 0) for m in p.t]
        if kind == 'inv':
            K = max(exps)
            if K <= 0:
                # negative powers of 1/q are powers of q
                p = p.subs({i: q.inv()}) if False else _split(p, i, lambda e: q ** (-e))
            else:
                p = _split(p, i, lambda e: q ** (K - e))
                factor = factor * q ** K
        else:
            lo = min(exps)
            if lo < 0:
                sh = -lo + (lo % 2)
                s = Poly({_intern(((i, sh),)): 1})
                p = p * s
                factor = factor * q ** (sh // 2)
            before = p
            p = _split(p, i, lambda e: (q ** (e // 2)) * (Poly({_intern(((i, 1),)): 1}) if e % 2 else 1))
            if p.t == before.t or all(dict(_MONO[m]).get(i, 0) in (0, 1) for m in p.t):
                # sqrt occurs linearly: p = A + B*s. Leave it to the solver unless it vanishes.
                rest = [a for a in p.atoms() if a in DEFS and a != i]
                if not rest:
                    break
                # move on to the others by treating s as plain
                q2, f2 = _elim_others(p, {i})
                return q2, factor * f2
    return p, factor


def _elim_others(p, skip):
    factor = Poly({0: 1})
    for _ in range(20):
        ids = [a for a in p.atoms() if a in DEFS and a not in skip]
        if not ids:
            break
        i = max(ids)
        kind, q = DEFS[i]
        if kind == 'sqrt':
            skip = skip | {i}
            p = _split(p, i, lambda e: (q ** (e // 2)) * (Poly({_intern(((i, 1),)): 1}) if e % 2 else 1)) \
                if all(dict(_MONO[m]).get(i, 0) >= 0 for m in p.t) else p
            continue
        K = max(dict(_MONO[m]).get(i, 0) for m in p.t)
        p = _split(p, i, lambda e: q ** (K - e))
        factor = factor * q ** K
    return p, factor


def _split(p, i, fn):
    groups = {}
    for m, c in p.t.items():
        d = dict(_MONO[m])
        e = d.pop(i, 0)
        groups.setdefault(e, {})[_intern(tuple(sorted(d.items())))] = c
    tot = Poly({})
    for e, t in groups.items():
        tot = tot + Poly(t) * fn(e)
    return tot


# ---------------------------------------------------------------- symbolic booleans
class PathControl:
    """Set by engine.paths: decides a symbolic condition on the current path."""
    decide = None


class SymBool:
    __slots__ = ('f',)
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if PathControl.decide is None:
            raise Unencodable('branch on a symbolic condition outside a path exploration')
        return PathControl.decide(self.f)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(('and', self.f, o.f))
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(('or', self.f, o.f))
        return True if o else self
    __ror__ = __or__

    def __invert__(self):
        return SymBool(('not', self.f))

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return ~self
        raise Unencodable('comparison of symbolic conditions')

    def __ne__(self, o):
        if o is True:
            return ~self
        if o is False:
            return self
        raise Unencodable('comparison of symbolic conditions')

    def __hash__(self):
        return id(self)


def D(x):
    """Value of a C double: exact rational constants and Polys as Poly."""
    if type(x) is Poly:
        return x
    c = num(x)
    if c is None:
        if isinstance(x, SymBool):
            return Poly.const(1 if x else 0)
        if isinstance(x, complex):
            # the imaginary unit is one more independent symbol: equal real and imaginary parts are what an equality then says
            return Poly.const(num(x.real)) + imag() * num(x.imag)
        raise TypeError('must be real number, not %s' % type(x).__name__)
    return Poly.const(c)


def imag():
    return atom('imaginary unit', 'imag', Fraction(1, 2), 2, 'imag')


def terms(p):
    return p.t.items()


def mono(m):
    return _MONO[m]
