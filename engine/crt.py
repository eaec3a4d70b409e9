"""Run-time support of translated Cython: C scalars, arrays, pointers, memoryviews, malloc/free, prange."""
import numpy as np
from fractions import Fraction
from . import poly
from .poly import Poly, D, Unencodable, num


class MemoryError_(Exception):
    """The code under test accessed memory it does not own (out of bounds, freed, or never initialised)."""


class Uninit:
    """Content of memory never written."""
    def _bad(self, *a, **k):
        raise MemoryError_('read of uninitialised memory')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = _bad
    __float__ = __int__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __pow__ = __iadd__ = __index__ = _bad

    def __repr__(self):
        return '<uninitialised>'


UNINIT = Uninit()


def I(x):
    if type(x) is int:
        return x
    if type(x) is Poly:
        if x.is_const():
            c = x.constval()
            return int(c)          # C truncation
        raise Unencodable('C int from a symbolic value')
    c = num(x)
    if c is None:
        if isinstance(x, poly.SymBool):
            return 1 if x else 0
        raise TypeError('an integer is required, got %s' % type(x).__name__)
    if type(c) is Fraction:
        # Cython converts Python floats to C int only through an explicit cast: from Python objects this raises
        raise TypeError("'float' object cannot be interpreted as an integer")
    return c


def F(text):
    return Poly.const(num(float(text)))


def div(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Poly.const(poly._norm(Fraction(a, b)))
    return a / b


def cidiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cimod(a, b):
    return a - b * cidiv(a, b)


class Ptr:
    """double *: a flat object array, an offset, the life of the block."""
    __slots__ = ('a', 'o', 'blk')

    def __init__(self, a, o=0, blk=None):
        self.a, self.o, self.blk = a, o, blk

    def _i(self, i):
        if self.blk is not None and self.blk[0]:
            raise MemoryError_('access to freed memory')
        if type(i) is not int:
            i = I(i)
        i += self.o
        if i < 0 or i >= self.a.shape[0]:
            raise MemoryError_('access at %d of a block of %d' % (i, self.a.shape[0]))
        return i

    def __getitem__(self, i):
        i = self._i(i)
        if Race.log is not None:
            Race.touch(self.a, i, False)
        v = self.a[i]
        if v is UNINIT:
            raise MemoryError_('read of uninitialised memory')
        return v

    def __setitem__(self, i, v):
        i = self._i(i)
        if Race.log is not None:
            Race.touch(self.a, i, True)
        if self.a.dtype == object:
            self.a[i] = D(v)
        else:
            self.a[i] = I(v)

    def __add__(self, k):
        return Ptr(self.a, self.o + I(k), self.blk)


class Box:
    __slots__ = ('v',)

    def __init__(self, v=UNINIT):
        self.v = np.empty(1, dtype=object)
        self.v[0] = v

    def __getitem__(self, i):
        if self.v[0] is UNINIT:
            raise MemoryError_('read of uninitialised memory')
        return self.v[0]

    def __setitem__(self, i, v):
        self.v[0] = v


def box(v=UNINIT):
    return Box(v)


def carr(n, kind):
    a = np.empty(I(n), dtype=object)
    a[:] = UNINIT
    return Ptr(a)


def carr_init(n, vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = D(v)
    return Ptr(a)


def addr(base, idx):
    if isinstance(base, Box):
        return Ptr(base.v)
    if isinstance(base, Ptr):
        (i,) = idx
        return base + i
    arr = base.a if isinstance(base, MV) else base
    if not arr.flags.c_contiguous:
        raise Unencodable('address of an element of a strided array')
    off = 0
    if len(idx) != arr.ndim:
        raise Unencodable('address of a sub-array')
    for i, n in zip(idx, arr.shape):
        i = I(i)
        if i < 0 or i >= n:
            raise MemoryError_('address of element %s of shape %s' % (idx, arr.shape))
        off = off * n + i
    return Ptr(arr.reshape(-1), off)


def malloc(nbytes):
    return ('malloc', I(nbytes))


def castptr(x, kind):
    if isinstance(x, tuple) and x[0] == 'malloc':
        n = x[1] // (8 if kind == 'double' else 4)
        a = np.empty(n, dtype=object)
        a[:] = UNINIT
        return Ptr(a, 0, [False])
    return x


def free(p):
    if p is None:
        return
    if p.blk is None or p.o != 0:
        raise MemoryError_('free of memory not obtained from malloc')
    if p.blk[0]:
        raise MemoryError_('double free')
    p.blk[0] = True


class MV:
    """A typed memoryview: the array's storage, bounds checked, no negative indices (wraparound=False)."""
    __slots__ = ('a', 'kind', 'ro', 'n1')

    def __init__(self, a, kind, ro):
        self.a, self.kind, self.ro = a, kind, ro
        self.n1 = a.shape[0] if a.ndim == 1 else None

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def base(self):
        return self.a

    @property
    def T(self):
        return MV(self.a.T, self.kind, self.ro)

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        return iter(self.a)

    def __array__(self, dtype=None, copy=None):
        return self.a

    def _ix(self, i):
        if self.n1 is not None:
            if type(i) is not int:
                if isinstance(i, slice):
                    return i
                i = I(i)
            if i < 0 or i >= self.n1:
                raise MemoryError_('index %d out of bounds of a buffer of %d' % (i, self.n1))
            return i
        if not isinstance(i, tuple):
            i = (i,)
        out = []
        for k, n in zip(i, self.a.shape):
            if isinstance(k, slice):
                out.append(k)
                continue
            k = I(k)
            if k < 0 or k >= n:
                raise MemoryError_('index %s out of bounds of a buffer of shape %s' % (i, self.a.shape))
            out.append(k)
        return tuple(out)

    def __getitem__(self, i):
        k = self._ix(i)
        v = self.a[k]
        if isinstance(v, np.ndarray):
            return MV(v, self.kind, self.ro)
        if Race.log is not None:
            Race.touch(self.a, k, False)
        if v is UNINIT:
            raise MemoryError_('read of uninitialised memory')
        if self.kind == 'int':
            return int(v)
        return v

    def __setitem__(self, i, v):
        if self.ro:
            raise Unencodable('write through a view of a converted array')
        k = self._ix(i)
        if self.kind == 'int':
            if isinstance(k, slice) or isinstance(k, tuple) and any(isinstance(x, slice) for x in k):
                self.a[k] = v
            else:
                self.a[k] = I(v)
            return
        if isinstance(v, (MV, np.ndarray)):
            self.a[k] = np.asarray(v)
            return
        if Race.log is not None:
            Race.touch(self.a, k, True)
        self.a[k] = D(v)


def mv(x, ndim, kind, contig):
    if isinstance(x, MV):
        if x.a.ndim != ndim:
            raise ValueError('Buffer has wrong number of dimensions')
        return x
    if x is None:
        return None
    if not isinstance(x, np.ndarray):
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    if x.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, x.ndim))
    if contig and not x.flags.c_contiguous:
        raise ValueError('ndarray is not C-contiguous')
    ro = False
    if kind == 'double':
        if x.dtype != object:
            if x.dtype != np.float64:
                raise ValueError("Buffer dtype mismatch, expected 'double' but got %s" % x.dtype)
            y = np.empty(x.shape, dtype=object)
            yf, xf = y.reshape(-1), x.reshape(-1)
            for i in range(xf.shape[0]):
                yf[i] = D(float(xf[i]))
            x, ro = y, True
    else:
        if x.dtype == object or x.dtype.kind != 'i':
            raise ValueError("Buffer dtype mismatch, expected an integer but got %s" % x.dtype)
    return MV(x, kind, ro)


class Race:
    """Which iteration of the parallel loop being executed last touched each memory cell, and how."""
    log = None
    it = None
    keep = None

    @classmethod
    def touch(cls, arr, i, write):
        k = arr.__array_interface__['data'][0] + sum(int(a) * b for a, b in zip(i if isinstance(i, tuple) else (i,), arr.strides))
        o = cls.log.get(k)
        if o is None:
            cls.log[k] = [cls.it, write]
            cls.keep[id(arr)] = arr          # an address is not reused while it is in the log
        elif o[0] != cls.it:
            if write or o[1]:
                raise MemoryError_('two iterations of a parallel loop use the same memory, one of them writing')
        elif write:
            o[1] = True


def prange(*a):
    r = range(*[I(x) for x in a])
    if Race.log is not None:
        yield from r
        return
    Race.log, Race.keep = {}, {}
    try:
        for Race.it in r:
            yield Race.it
    finally:
        Race.log = Race.keep = None


def unpack(v, n):
    v = tuple(v)
    if len(v) != n:
        raise ValueError('unpack')
    return v


def cimport(mod, name):
    if mod in ('libc.stdlib', 'cython.parallel', 'libc.math', 'libc.string'):
        import math
        table = {'malloc': malloc, 'free': free, 'prange': prange, 'sqrt': poly.sqrt, 'pow': lambda a, b: D(a) ** b,
                 'fabs': abs, 'M_PI': D(math.pi)}
        if name in table:
            return table[name]
    raise Unencodable('cimport of %s.%s' % (mod, name))


def namespace():
    return {'_D': D, '_I': I, '_F': F, '_div': div, '_cidiv': cidiv, '_cimod': cimod, '_MV': mv, '_carr': carr,
            '_carr_init': carr_init, '_box': box, '_addr': addr, '_castptr': castptr, '_prange': prange,
            '_unpack': unpack, '_cimport': cimport, 'long': int, 'unicode': str}
