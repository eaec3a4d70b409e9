"""Symbolic machine integers (sizes, counts, offsets) and arrays known by their shape only, for checks of what fits where.

An IntSym wraps a z3 integer term; branches on it are decided by z3 on the current path. A Sized stands for a float array of which only
the shape matters: everything calculated with it is unknown, only shapes are followed.
"""
import numpy as np
import z3
from . import poly
from .poly import Unencodable, SymBool, PathControl


def term(x):
    if type(x) is IntSym:
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if type(x) is poly.Poly and x.is_const() and x.constval() == int(x.constval()):
        return z3.IntVal(int(x.constval()))
    if isinstance(x, z3.ArithRef):
        return x
    return None


def wrap(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return IntSym(t)


def cond(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(('z3', t))


def _bin(fn):
    def op(self, o):
        b = term(o)
        if b is None:
            return NotImplemented
        return wrap(fn(self.t, b))
    return op


def _rbin(fn):
    def op(self, o):
        b = term(o)
        if b is None:
            return NotImplemented
        return wrap(fn(b, self.t))
    return op


def _cmp(fn):
    def op(self, o):
        b = term(o)
        if b is None:
            if isinstance(o, (str, type(None), tuple, list)):
                return NotImplemented
            raise Unencodable('comparison of a symbolic integer with %s' % type(o).__name__)
        return cond(fn(self.t, b))
    return op


def _pos(b):
    # Python's // and % are z3's for a positive divisor
    s = z3.simplify(b)
    if z3.is_int_value(s):
        if s.as_long() <= 0:
            raise Unencodable('integer division by %s' % s)
        return
    if not PathControl.decide(('z3', b > 0)):
        raise Unencodable('integer division by a symbol that may not be positive')


def _div(a, b):
    _pos(b)
    return a / b


def _mod(a, b):
    _pos(b)
    return a % b


class IntSym:
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin(lambda a, b: a + b), _rbin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b), _rbin(lambda a, b: a - b)
    __mul__, __rmul__ = _bin(lambda a, b: a * b), _rbin(lambda a, b: a * b)
    __floordiv__, __rfloordiv__ = _bin(_div), _rbin(_div)
    __mod__, __rmod__ = _bin(_mod), _rbin(_mod)
    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    __eq__, __ne__ = _cmp(lambda a, b: a == b), _cmp(lambda a, b: a != b)

    def __pow__(self, k):
        if k == 2:
            return self * self
        return NotImplemented

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t < 0, -self.t, self.t))

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(cond(self.t != 0))

    def __index__(self):
        raise Unencodable('a symbolic integer where a number is needed')
    __float__ = __int__ = __index__

    def __repr__(self):
        return '<%s>' % self.t

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _any():
    from .bounds import Ctx
    return Ctx.name(z3.Bool, 'any')


class Opaque:
    """A number nothing is known about."""
    __array_ufunc__ = None

    def _same(self, *a, **k):
        return a[0] if a and isinstance(a[0], Sized) else self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pos__ = __abs__ = _same
    __pow__ = __rpow__ = _same

    def _free(self, o):
        return cond(_any())
    __lt__ = __le__ = __gt__ = __ge__ = _free

    def __eq__(self, o):
        return False if o is None or isinstance(o, str) else self._free(o)

    def __ne__(self, o):
        return True if o is None or isinstance(o, str) else self._free(o)
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(cond(_any()))

    def __getattr__(self, name):
        if name in ('real', 'imag', 'T'):
            return self
        raise AttributeError(name)


OP = Opaque()


def minimum(a, b):
    return wrap(z3.If(term(a) <= term(b), term(a), term(b)))


def maximum(a, b):
    return wrap(z3.If(term(a) >= term(b), term(a), term(b)))


def size_of(shape):
    t = 1
    for d in shape:
        t = t * d
    return t


def is_sym(x):
    return type(x) is IntSym


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, Sized))

    def __call__(cls, *a, **k):
        return np.ndarray(*a, **k)


class ndarray(metaclass=_NdMeta):
    """np.ndarray as the modules under test see it."""


class Sized:
    __array_ufunc__ = None
    sized = True
    flags = type('Flags', (), {'c_contiguous': True, 'writeable': True, '__getitem__': lambda s, k: True})()

    def __init__(self, *shape, base=None):
        self.shape = tuple(wrap(term(d)) for d in shape)
        self.base = base

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: size_of(s.shape))
    dtype = property(lambda s: np.dtype('float64'))
    T = property(lambda s: Sized(*s.shape[::-1]))

    def __len__(self):
        n = self.shape[0]
        if is_sym(n):
            raise Unencodable('len() of an array of symbolic length')
        return n

    def __iter__(self):
        # the content does not matter: one generic element stands for them all
        n = self.shape[0]
        for _ in range(1 if is_sym(n) else n):
            yield Sized(*self.shape[1:]) if self.ndim > 1 else OP

    def copy(self, *a, **k):
        return Sized(*self.shape)
    astype = copy

    def fill(self, v):
        pass

    def ravel(self, *a):
        return Sized(self.size)
    flatten = ravel

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if any(type(d) is int and d == -1 for d in shape):
            rest = size_of([d for d in shape if not (type(d) is int and d == -1)])
            n = self.size
            if isinstance(rest, int) and isinstance(n, int):
                q = n // rest
            else:
                if not bool(cond(term(n) % term(rest) == 0)):
                    raise ValueError('cannot reshape array')
                q = wrap(term(n) / term(rest))
            shape = tuple(q if type(d) is int and d == -1 else d for d in shape)
        elif not bool(cond(term(size_of(shape)) == term(self.size))):
            raise ValueError('cannot reshape array')
        return Sized(*shape)

    def dot(self, o):
        return matmul(self, o)
    __matmul__ = dot

    def sum(self, *a, **k):
        return OP
    min = max = mean = sum

    def _index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = len([k for k in key if k is not None and k is not Ellipsis])
        if Ellipsis in key:
            p = key.index(Ellipsis)
            key = key[:p] + (slice(None),) * (self.ndim - n) + key[p + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - n)
        out, d = [], 0
        for k in key:
            if k is None:
                out.append(1)
                continue
            n = self.shape[d]
            d += 1
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unencodable('slice with a step of an array of symbolic length')
                out.append(_slice(n, k.start, k.stop))
            elif term(k) is not None:
                if not bool(cond(z3.And(term(k) >= -term(n), term(k) < term(n)))):
                    raise IndexError('index out of bounds')
            else:
                raise Unencodable('index %r of an array of symbolic length' % (k,))
        return out

    def __getitem__(self, key):
        shape = self._index(key)
        return Sized(*shape) if shape else OP

    def __setitem__(self, key, v):
        fits(self._index(key), getattr(v, 'shape', ()))

    def _with(self, o, inplace=False):
        a, b = self.shape, tuple(getattr(o, 'shape', ()))
        if inplace:
            fits(a, b)
            return self
        return type(self)(*broadcast(a, b))

    def _op(self, o):
        return self._with(o)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = _op

    def _iop(self, o):
        return self._with(o, True)
    __iadd__ = __isub__ = __imul__ = __itruediv__ = _iop

    def __neg__(self):
        return self

    def toarray(self):
        return self

    def tocsr(self):
        return self
    tocoo = tocsc = tocsr


class Matrix(Sized):
    """A sparse matrix: * is the product of matrices."""
    data = property(lambda s: Sized(s.size))

    def _mul(self, o):
        return matmul(self, o) if isinstance(o, Sized) else self
    __mul__ = dot = __matmul__ = _mul

    def _sum(self, o):
        if isinstance(o, Sized) and not bool(cond(z3.And([term(a) == term(b) for a, b in zip(self.shape, o.shape)]))):
            raise ValueError('inconsistent shapes')
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __iadd__ = __isub__ = _sum


def _slice(n, start, stop):
    if start is not None and stop is not None and bool(cond(z3.And(term(start) >= 0, term(start) <= term(stop), term(stop) <= term(n)))):
        return wrap(term(stop) - term(start))
    def clip(v):
        v = term(v)
        v = z3.If(v < 0, v + term(n), v)
        return z3.If(v < 0, z3.IntVal(0), z3.If(v > term(n), term(n), v))
    a = z3.IntVal(0) if start is None else clip(start)
    b = term(n) if stop is None else clip(stop)
    return wrap(z3.If(b > a, b - a, z3.IntVal(0)))


def broadcast(a, b):
    out = []
    for k in range(max(len(a), len(b))):
        x = a[-1 - k] if k < len(a) else 1
        y = b[-1 - k] if k < len(b) else 1
        if bool(cond(term(x) == term(y))):
            out.append(x)
        elif bool(cond(term(x) == 1)):
            out.append(y)
        elif bool(cond(term(y) == 1)):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together')
    return out[::-1]


def fits(a, b):
    """b can be assigned to a place of shape a."""
    b = tuple(b)
    while len(b) > len(a) and bool(cond(term(b[0]) == 1)):
        b = b[1:]
    if len(b) > len(a):
        raise ValueError('could not broadcast')
    for x, y in zip(a[len(a) - len(b):], b):
        if not bool(cond(z3.Or(term(x) == term(y), term(y) == 1))):
            raise ValueError('could not broadcast')


def matmul(a, b):
    if not bool(cond(term(a.shape[-1]) == term(b.shape[0] if b.ndim == 1 else b.shape[-2]))):
        raise ValueError('shapes not aligned')
    if b.ndim == 1:
        return Sized(*a.shape[:-1]) if a.ndim > 1 else OP
    return Sized(*(a.shape[:-1] + b.shape[:-2] + b.shape[-1:]))


# ---------------------------------------------------------------- numpy and sparse functions that meet a Sized
def _any_sized(xs):
    for x in xs:
        if isinstance(x, (Sized, IntSym, Opaque)):
            return True
        if isinstance(x, (tuple, list)) and len(x) < 50 and _any_sized(x):
            return True
    return False


def _nested(x):
    if isinstance(x, (list, tuple)):
        inner = [_nested(v) for v in x]
        if any(v != inner[0] for v in inner):
            raise Unencodable('ragged array')
        return (len(x),) + (inner[0] if inner else ())
    if isinstance(x, Sized):
        return x.shape
    return ()


def install(loader):
    m = loader.ext['numpy']

    def patch(name, fn, always=False):
        old = getattr(m, name)

        def f(*a, **k):
            if always or _any_sized(a) or _any_sized(k.values()):
                return fn(*a, **k)
            return old(*a, **k)
        f.__name__ = name
        setattr(m, name, f)

    def make(shape, *a, **k):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        for d in shape:
            if not bool(cond(term(d) >= 0)):
                raise ValueError('negative dimensions are not allowed')
        return Sized(*shape)

    def same(x, *a, **k):
        if isinstance(x, Sized):
            return x
        if isinstance(x, (list, tuple)) and x and all(isinstance(v, Sized) for v in x):
            return Sized(len(x), *x[0].shape)
        if isinstance(x, (list, tuple)):
            return Sized(*_nested(x))
        if isinstance(x, Opaque):
            return x
        raise Unencodable('array of %r' % (x,))

    def concat(xs, axis=0, **k):
        shape = list(xs[0].shape)
        if axis < 0:
            axis += len(shape)
        for x in xs[1:]:
            for d in range(len(shape)):
                if d != axis and not bool(cond(term(shape[d]) == term(x.shape[d]))):
                    raise ValueError('dimensions must match')
            shape[axis] = shape[axis] + x.shape[axis]
        return Sized(*shape)

    def stack(xs, axis=0, **k):
        shape = list(xs[0].shape)
        for x in xs[1:]:
            for p, q in zip(shape, x.shape):
                if not bool(cond(term(p) == term(q))):
                    raise ValueError('all input arrays must have the same shape')
        if axis < 0:
            axis += len(shape) + 1
        return Sized(*(shape[:axis] + [len(xs)] + shape[axis:]))
    for n in ('zeros', 'ones', 'empty', 'full'):
        patch(n, make)
    for n in ('asarray', 'ascontiguousarray', 'array', 'asanyarray', 'atleast_1d', 'copy', 'nan_to_num'):
        patch(n, same)
    for n in ('zeros_like', 'ones_like', 'empty_like'):
        patch(n, lambda x, *a, **k: Sized(*x.shape))
    patch('concatenate', concat)
    patch('hstack', lambda xs, **k: concat(xs, 0 if xs[0].ndim == 1 else 1))
    patch('vstack', lambda xs, **k: concat([x if x.ndim > 1 else x[None] for x in xs]))
    patch('stack', stack)
    patch('reshape', lambda x, *s, **k: x.reshape(*s))
    patch('ravel', lambda x, *a, **k: x.ravel())
    patch('dot', lambda a, b: matmul(a, b))
    patch('shape', lambda x: x.shape)
    patch('size', lambda x: x.size)
    patch('ndim', lambda x: x.ndim)
    patch('outer', lambda a, b: Sized(a.size, b.size))
    patch('any', lambda x: OP)
    # values are numbers
    patch('isnan', lambda x: np.zeros(1, bool))
    patch('isinf', lambda x: np.zeros(1, bool))
    patch('isfinite', lambda x: np.ones(1, bool))
    patch('all', lambda x: OP)
    patch('meshgrid', lambda x, y, **k: (Sized(y.size, x.size), Sized(y.size, x.size)))
    patch('linspace', lambda a, b, n=50, **k: make(n))
    patch('broadcast_to', lambda x, s, **k: Sized(*broadcast(x.shape, s)))
    patch('einsum', lambda *a, **k: (_ for _ in ()).throw(Unencodable('einsum of arrays of symbolic length')))
    m.ndarray = ndarray
    for ext in ('structsolve.sparseutils',):
        for n in ('make_symmetric', 'make_skew_symmetric', 'finalize_symmetric_matrix', 'remove_null_cols'):
            old = getattr(loader.ext[ext], n)
            setattr(loader.ext[ext], n, lambda x, *a, _old=old, **k: x if isinstance(x, Sized) else _old(x, *a, **k))
    sp = loader.ext['scipy.sparse']
    for n in ('csr_matrix', 'coo_matrix', 'csc_matrix'):
        old = getattr(sp, n)

        def mk(*a, _old=old, **k):
            sh = k.get('shape') or (a[0] if a and isinstance(a[0], tuple) and len(a[0]) == 2 else None)
            if a and isinstance(a[0], Sized):
                return Matrix(*a[0].shape)
            if sh is not None and _any_sized(sh):
                return Matrix(*sh)
            return _old(*a, **k)
        mk.__name__ = n
        if isinstance(old, type):
            pass
        setattr(sp, n, mk)
