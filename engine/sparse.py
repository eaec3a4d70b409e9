"""Symbolic scipy.sparse: exact dictionaries of entries, with scipy's checks of indices and shapes."""
import numpy as np
from .poly import Poly, D, Unencodable, num


class spmatrix:
    fmt = 'csr'
    __array_priority__ = 20000
    __array_ufunc__ = None

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        self.d = {}
        self.dtype = dtype if dtype is not None else float
        if isinstance(arg, spmatrix):
            self.shape = arg.shape
            self.d = dict(arg.d)
            if shape is not None and tuple(shape) != self.shape:
                raise ValueError('inconsistent shapes')
        elif isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], tuple) and not hasattr(arg[0], '__len__'):
            self.shape = (int(arg[0]), int(arg[1]))
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            v, (r, c) = arg
            v, r, c = (x.a if hasattr(x, 'ro') else x for x in (v, r, c))
            r, c = np.asarray(r), np.asarray(c)
            n = len(v)
            if len(r) != n or len(c) != n:
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            self.shape = (int(shape[0]), int(shape[1]))
            d = self.d
            R, C = self.shape
            for k in range(n):
                i, j = int(r[k]), int(c[k])
                if i < 0 or j < 0:
                    raise ValueError('negative row or column index found')
                if i >= R or j >= C:
                    raise ValueError('row or column index exceeds matrix dimensions')
                x = v[k]
                if type(x) is not Poly:
                    x = D(x)
                # scipy keeps explicit zeros: keep the pattern position
                o = d.get((i, j))
                d[i, j] = x if o is None else o + x
        else:
            a = np.asarray(arg)
            if a.ndim == 1:
                a = a[None, :]
            self.shape = a.shape
            for (i, j), x in np.ndenumerate(a):
                x = D(x)
                if x.t:
                    self.d[i, j] = x
            if shape is not None and tuple(shape) != self.shape:
                raise ValueError('inconsistent shapes')

    @classmethod
    def _new(cls, shape, d):
        m = cls.__new__(cls)
        m.shape, m.d, m.dtype = tuple(shape), d, float
        return m

    # -- views
    def _keys(self):
        return sorted(self.d)

    @property
    def row(self):
        return np.array([k[0] for k in self._keys()], dtype=np.int64)

    @property
    def col(self):
        return np.array([k[1] for k in self._keys()], dtype=np.int64)

    @property
    def data(self):
        out = np.empty(len(self.d), dtype=object)
        for i, k in enumerate(self._keys()):
            out[i] = self.d[k]
        return out

    @property
    def nnz(self):
        return len(self.d)

    def count_nonzero(self):
        return sum(1 for v in self.d.values() if v.t)

    @property
    def ndim(self):
        return 2

    def get_shape(self):
        return self.shape

    def toarray(self):
        a = np.empty(self.shape, dtype=object)
        a.reshape(-1)[:] = [D(0)] * a.size
        for k, v in self.d.items():
            a[k] = v
        return a
    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsr(self, copy=False):
        return csr_matrix._new(self.shape, dict(self.d))

    def tocoo(self, copy=False):
        return coo_matrix._new(self.shape, dict(self.d))

    def tocsc(self, copy=False):
        return csc_matrix._new(self.shape, dict(self.d))

    def copy(self):
        return self._new(self.shape, dict(self.d))

    @property
    def T(self):
        return self._new(self.shape[::-1], {(j, i): v for (i, j), v in self.d.items()})

    def transpose(self, *a, **k):
        return self.T

    def astype(self, dt):
        return self.copy()

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        self.d = {k: v for k, v in self.d.items() if v.t}

    def diagonal(self):
        out = np.empty(min(self.shape), dtype=object)
        for i in range(len(out)):
            out[i] = self.d.get((i, i), D(0))
        return out

    def sum(self, axis=None):
        if axis is None:
            t = D(0)
            for v in self.d.values():
                t = t + v
            return t
        raise Unencodable('sparse sum over an axis')

    def nonzero(self):
        ks = [k for k in self._keys() if self.d[k].t]
        return np.array([k[0] for k in ks], dtype=np.int64), np.array([k[1] for k in ks], dtype=np.int64)

    def __getitem__(self, ij):
        if self.fmt == 'coo':
            raise TypeError("'coo_matrix' object is not subscriptable")
        a = self.toarray()[ij]
        if isinstance(a, np.ndarray):
            if a.ndim == 2:
                return self.__class__(a)
            raise Unencodable('sparse indexing %r' % (ij,))
        return a

    def __setitem__(self, ij, v):
        i, j = ij
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
            self.d[int(i), int(j)] = D(v)
            return
        raise Unencodable('sparse assignment %r' % (ij,))

    # -- arithmetic
    def _bin(self, o, f):
        if self.shape != o.shape:
            raise ValueError('inconsistent shapes')
        d = dict(self.d)
        for k, v in o.d.items():
            if k in d:
                d[k] = f(d[k], v)
            else:
                d[k] = f(D(0), v)
        return csr_matrix._new(self.shape, d)

    def __add__(self, o):
        if isinstance(o, spmatrix):
            return self._bin(o, lambda a, b: a + b)
        if isinstance(o, np.ndarray):
            return self.toarray() + o
        if num(o) == 0:
            return self.copy()
        raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, spmatrix):
            return self._bin(o, lambda a, b: a - b)
        if isinstance(o, np.ndarray):
            return self.toarray() - o
        if num(o) == 0:
            return self.copy()
        raise NotImplementedError('subtracting a nonzero scalar from a sparse array is not supported')

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return o - self.toarray()
        if num(o) == 0:
            return -self
        raise NotImplementedError()

    def __neg__(self):
        return self._new(self.shape, {k: -v for k, v in self.d.items()})

    def _scale(self, s):
        return self._new(self.shape, {k: v * s for k, v in self.d.items()})

    def __mul__(self, o):
        if isinstance(o, (Poly, int, float, complex, np.generic)):
            return self._scale(o)
        return self.dot(o)
    __matmul__ = lambda self, o: self.dot(o)

    def __rmul__(self, o):
        if isinstance(o, (Poly, int, float, complex, np.generic)):
            return self._scale(o)
        raise Unencodable('array * sparse')

    def __truediv__(self, o):
        return self._new(self.shape, {k: v / o for k, v in self.d.items()})

    def multiply(self, o):
        if isinstance(o, (Poly, int, float)):
            return self._scale(o)
        raise Unencodable('sparse.multiply')

    def dot(self, o):
        if isinstance(o, (Poly, int, float)):
            return self._scale(o)
        if isinstance(o, spmatrix):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            rows = {}
            for (i, j), v in o.d.items():
                rows.setdefault(i, []).append((j, v))
            d = {}
            for (i, k), v in self.d.items():
                for j, w in rows.get(k, ()):
                    d[i, j] = d[i, j] + v * w if (i, j) in d else v * w
            return csr_matrix._new((self.shape[0], o.shape[1]), d)
        o = np.asarray(o)
        if o.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        if o.ndim == 1:
            out = np.empty(self.shape[0], dtype=object)
            out[:] = [D(0)] * self.shape[0]
            for (i, j), v in self.d.items():
                out[i] = out[i] + v * o[j]
            return out
        return self.toarray().dot(o)

    def __len__(self):
        raise TypeError('sparse array length is ambiguous')


class csr_matrix(spmatrix):
    fmt = 'csr'


class csc_matrix(spmatrix):
    fmt = 'csc'


class coo_matrix(spmatrix):
    fmt = 'coo'


class lil_matrix(spmatrix):
    fmt = 'lil'


def triu(A, k=0, format=None):
    A = A if isinstance(A, spmatrix) else coo_matrix(A)
    return coo_matrix._new(A.shape, {(i, j): v for (i, j), v in A.d.items() if j - i >= k})


def tril(A, k=0, format=None):
    A = A if isinstance(A, spmatrix) else coo_matrix(A)
    return coo_matrix._new(A.shape, {(i, j): v for (i, j), v in A.d.items() if j - i <= k})


def bmat(blocks, format=None, dtype=None):
    hs = [next(b.shape[0] for b in row if b is not None) for row in blocks]
    ws = [next(row[k].shape[1] for row in blocks if row[k] is not None) for k in range(len(blocks[0]))]
    d, r = {}, 0
    for h, row in zip(hs, blocks):
        c = 0
        for w, b in zip(ws, row):
            if b is not None:
                b = b if isinstance(b, spmatrix) else coo_matrix(b)
                if b.shape != (h, w):
                    raise ValueError('incompatible block dimensions')
                for (i, j), v in b.d.items():
                    d[r + i, c + j] = v
            c += w
        r += h
    return coo_matrix._new((sum(hs), sum(ws)), d)


def hstack(bs, format=None, dtype=None):
    return bmat([list(bs)])


def vstack(bs, format=None, dtype=None):
    return bmat([[b] for b in bs])


def block_diag(mats, format=None, dtype=None):
    mats = list(mats)
    return bmat([[m if i == j else coo_matrix._new((n.shape[0], m.shape[1]), {}) for j, m in enumerate(mats)] for i, n in enumerate(mats)])


def eye(m, n=None, k=0, dtype=None, format=None):
    n = m if n is None else n
    return csr_matrix._new((m, n), {(i, i + k): D(1) for i in range(m) if 0 <= i + k < n})


def identity(n, dtype=None, format=None):
    return eye(n)


def isspmatrix(x):
    return isinstance(x, spmatrix)


def issparse(x):
    return isinstance(x, spmatrix)


def _mirror(m, sign):
    if not isinstance(m, spmatrix):
        m = coo_matrix(m)
    if m.shape[0] != m.shape[1]:
        raise ValueError('m must be a square matrix')
    d = {}
    for (r, c), v in m.d.items():
        if c >= r:
            d[r, c] = v
            if c > r:
                d[c, r] = v * sign
    return coo_matrix._new(m.shape, d)


def make_symmetric(m):
    return _mirror(m, 1)


def make_skew_symmetric(m):
    return _mirror(m, -1)


def finalize_symmetric_matrix(M):
    return csr_matrix(_mirror(M, 1))


def is_symmetric(m):
    raise Unencodable('is_symmetric of a symbolic matrix')


def remove_null_cols(*a, **k):
    raise Unencodable('remove_null_cols of a symbolic matrix')
