"""The numpy that symbolically executed modules see: float arrays are object arrays of exact symbolic reals, integer
arrays are numpy's own, everything not listed is numpy's own function."""
import types
import numpy as np
from . import poly
from .poly import Poly, D, num, Unencodable, SymBool, atom


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Poly))


class float64(metaclass=_F64Meta):
    """Stands for np.float64, as a dtype and as a constructor."""
    def __new__(cls, x=0):
        return D(x)


def is_float_dtype(dt):
    if dt is None or dt is float64 or dt is float:
        return True
    if isinstance(dt, type) and getattr(dt, '_is_float_shim', False):
        return True
    if isinstance(dt, str):
        return dt in ('float', 'float64', 'd', 'double')
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def is_obj(dt):
    try:
        return np.dtype(dt).kind == 'O'
    except TypeError:
        return False


def fill(shape, v):
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = [v] * a.size if a.size else []
    return a


def obj(x):
    """Object array (copy) of the values, floats as exact Polys."""
    a = np.array(x, dtype=object, copy=True)
    f = a.reshape(-1)
    for i in range(f.shape[0]):
        v = f[i]
        if v is None:          # numpy makes this a NaN: a value nothing is known about
            f[i] = atom(('nan',), 'nan', -1, 1, 'unset')
        elif type(v) is not Poly:
            f[i] = D(v)
    return a


def _unwrap(x):
    return x.a if hasattr(x, 'kind') and hasattr(x, 'ro') else x


def _mk(name, value):
    def make(shape, dtype=None, order=None, **kw):
        if is_float_dtype(dtype):
            return fill(_shape(shape), D(value))
        return getattr(np, name)(_shape(shape), dtype=dtype)
    return make


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def empty(shape, dtype=None, order=None, **kw):
    if is_float_dtype(dtype):
        from .crt import UNINIT
        return fill(_shape(shape), UNINIT)
    return np.empty(_shape(shape), dtype=dtype)


def full(shape, v, dtype=None, **kw):
    if is_float_dtype(dtype) and not (dtype is None and isinstance(v, (int, bool)) and type(v) is not Poly):
        return fill(_shape(shape), D(v))
    return np.full(_shape(shape), v, dtype=dtype)


def _like(a, v, dtype):
    a = _unwrap(a)
    a = np.asarray(a)
    if dtype is None and a.dtype != object and a.dtype.kind != 'f' or dtype is not None and not is_float_dtype(dtype):
        return np.full_like(a, v, dtype=dtype)
    return fill(a.shape, D(v))


def zeros_like(a, dtype=None, **kw):
    return _like(a, 0, dtype)


def ones_like(a, dtype=None, **kw):
    return _like(a, 1, dtype)


def empty_like(a, dtype=None, **kw):
    return _like(a, 0, dtype)


def array(x, dtype=None, copy=True, order=None, ndmin=0, **kw):
    x = _unwrap(x)
    if dtype is not None and is_float_dtype(dtype):
        r = obj(x)
    elif dtype is None or is_obj(dtype):
        r = np.array(x) if dtype is None else np.array(x, dtype=object)
        if r.dtype.kind == 'f' or r.dtype == object and r.size and all(_isnum(v) for v in r.reshape(-1)):
            r = obj(r)
    else:
        x2 = np.array(x)
        r = np.array(x2, dtype=dtype) if x2.dtype != object else np.array([int(v) for v in x2.reshape(-1)], dtype=dtype).reshape(x2.shape)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _isnum(v):
    return type(v) is Poly or num(v) is not None if not isinstance(v, (str, bytes, list, tuple, dict, type(None))) else False


def asarray(x, dtype=None, order=None, **kw):
    x = _unwrap(x)
    if isinstance(x, np.ndarray):
        if dtype is None:
            return x
        if is_float_dtype(dtype):
            if x.dtype == object:
                return x
            return obj(x)
        return np.asarray(x, dtype=dtype)
    return array(x, dtype=dtype)


def ascontiguousarray(x, dtype=None, **kw):
    r = asarray(x, dtype)
    if r.ndim == 0:
        r = r.reshape(1)
    if not r.flags.c_contiguous:
        r = np.ascontiguousarray(r)
    return r


def isnan(x):
    x = _unwrap(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.zeros(x.shape, dtype=bool)
    if isinstance(x, Poly):
        return False
    return np.isnan(x)


def isfinite(x):
    r = isnan(x)
    return ~r if isinstance(r, np.ndarray) else not r


def isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    def one(x, y):
        return abs(D(x) - D(y)) <= atol + rtol * abs(D(y))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            out[i] = bool(one(a[i], b[i]))
        return out
    return one(a, b)


def allclose(a, b, **kw):
    return bool(np.all(isclose(np.asarray(a, dtype=object), b, **kw)))


def linspace(start, stop, n=50, endpoint=True, **kw):
    n = int(n)
    start, stop = D(start), D(stop)
    d = n - 1 if endpoint else n
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = start + (stop - start) * poly._norm(poly.Fraction(i, d)) if d else start
    return out


def arange(*a, **kw):
    if any(isinstance(x, (float, Poly)) for x in a):
        if all(num(x) is not None or x.is_const() for x in a):
            v = np.arange(*[float(x) for x in a])
            return obj(v)
        raise Unencodable('arange with symbolic bounds')
    return np.arange(*a, **kw)


def sqrt(x):
    if isinstance(x, np.ndarray):
        return poly._arr_op(x, poly.sqrt)
    return poly.sqrt(D(x))


def nan_to_num(x, **kw):
    return x


def pad_any(fn):
    def f(x, *a, **kw):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = np.array([bool(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
        elif isinstance(x, (Poly, SymBool)):
            x = bool(x)
        elif isinstance(x, (list, tuple)):
            x = [bool(v) if isinstance(v, (Poly, SymBool)) else v for v in x]
        return fn(x, *a, **kw)
    return f


def where(cond, *a):
    if isinstance(cond, np.ndarray) and cond.dtype == object:
        cond = np.array([bool(v) for v in cond.reshape(-1)], dtype=bool).reshape(cond.shape)
    return np.where(cond, *a)


def meshgrid(*a, **kw):
    return np.meshgrid(*[_unwrap(x) for x in a], **kw)


def average(a, axis=None, weights=None):
    a = np.asarray(a)
    if weights is None:
        return np.mean(a, axis=axis)
    raise Unencodable('np.average with weights')


def deg2rad(x):
    import math
    return D(x) * (math.pi / 180) if not isinstance(x, np.ndarray) else poly._arr_op(x, lambda v: D(v) * (math.pi / 180))


def _trig(name):
    import math
    def f(x):
        if isinstance(x, np.ndarray):
            return poly._arr_op(x, f)
        x = D(x)
        if x.is_const():
            return D(getattr(math, name)(float(x)))
        return poly.atom((name, x.canon()), '%s(%s)' % (name, x), -1, 1, name, x)
    return f


def module():
    m = types.ModuleType('numpy')
    m.__getattr__ = lambda name: getattr(np, name)
    for fn in (empty, full, zeros_like, ones_like, empty_like, array, asarray, ascontiguousarray, isnan, isfinite, isclose,
               allclose, linspace, arange, sqrt, nan_to_num, where, meshgrid, average, deg2rad):
        setattr(m, fn.__name__, fn)
    m.zeros, m.ones = _mk('zeros', 0), _mk('ones', 1)
    m.isinf = isnan
    m.any, m.all = pad_any(np.any), pad_any(np.all)
    m.asanyarray = asarray
    m.float64 = m.double = m.float_ = float64
    m.sin, m.cos = _trig('sin'), _trig('cos')
    m.radians = deg2rad
    m.abs = m.absolute = lambda x: poly._arr_op(x, abs) if isinstance(x, np.ndarray) else abs(x)
    m.pi = np.pi
    m.ndarray = np.ndarray
    m.copy = lambda x: _unwrap(x).copy()
    return m
