"""Load the package under test, symbolically: every module of /repo/panels is executed from its current source (.py as it
is, .pyx through cy2py), with numpy, scipy.sparse, structsolve and composites replaced by their symbolic counterparts and
the C kernels replaced by their contracts (established on the real C++ by P1, P2 and P3)."""
import ast
import builtins
import math
import os
import re
import types
from . import poly, npshim, sparse, crt, cy2py, mplshim
from .poly import Poly, D, Unencodable, atom, num

REPO = os.environ.get('VERIF_REPO', '/repo')
NUM = 30


class Contracts:
    """What the C kernels compute, as uninterpreted values of their arguments."""
    log = set()

    @staticmethod
    def f(p, i, xi, fl):
        i = crt.I(i)
        if i < 0 or i >= NUM:
            raise crt.MemoryError_('Bardell function %d of %d' % (i, NUM))
        xi, fl = D(xi), tuple(D(x) for x in fl)
        key = ('f', p, i, xi.canon(), tuple(x.canon() for x in fl))
        return atom(key, "f%s_%d(%s|%s)" % ("'" * p, i, xi, ','.join(str(x) for x in fl)), -2, 2, 'f', (p, i, xi, fl))

    @staticmethod
    def integral(p, q, i, j, fA, fB):
        i, j = crt.I(i), crt.I(j)
        if not (0 <= i < NUM and 0 <= j < NUM):
            raise crt.MemoryError_('Bardell integral %d, %d of %d' % (i, j, NUM))
        fA, fB = tuple(D(x) for x in fA), tuple(D(x) for x in fB)
        A = (p, i, tuple(x.canon() for x in fA))
        B = (q, j, tuple(x.canon() for x in fB))
        if A == B:
            lo = 0
        else:
            lo = -2
        a, b = (A, B) if repr(A) <= repr(B) else (B, A)
        dA, dB = (p, i, fA), (q, j, fB)
        if a is B:
            dA, dB = dB, dA
        return atom(('I', a, b), 'I<%d:%s|%d:%s>' % (a[1], "'" * a[0], b[1], "'" * b[0]), lo, 2, 'I', (dA, dB))

    @staticmethod
    def quad(n):
        n = crt.I(n)
        if not 1 <= n <= 64:
            raise Unencodable('leggauss_quad(%d): no table' % n)
        xs = [atom(('xq', n, k), 'xq%d_%d' % (n, k), -1, 1, 'xq', (n, k)) for k in range(n)]
        ws = [atom(('wq', n, k), 'wq%d_%d' % (n, k), 0, 2, 'wq', (n, k)) for k in range(n)]
        return xs, ws


def _vec(p):
    def vec(ptr, xi, a, b, c, d):
        for i in range(NUM):
            ptr[i] = Contracts.f(p, i, xi, (a, b, c, d))
    return vec


def _int(p, q):
    def integral(i, j, *fl):
        return Contracts.integral(p, q, i, j, fl[:4], fl[4:])
    return integral


def _leggauss(n, pts, wts):
    n = crt.I(n)
    if n < 1 or n > 64:
        return D(0)          # the C switch has no such case and writes nothing
    xs, ws = Contracts.quad(n)
    for k in range(n):
        pts[k] = xs[k]
        wts[k] = ws[k]
    return D(0)


EXTERN = {'leggauss_quad': _leggauss}
for _p, _n in enumerate(('f', 'fp', 'fpp')):
    EXTERN[_n] = (lambda p: lambda i, xi, a, b, c, d: Contracts.f(p, i, xi, (a, b, c, d)))(_p)
    EXTERN['vec_' + _n] = _vec(_p)
for _p in range(3):
    for _q in range(_p, 3):
        EXTERN['integral_f%sf%s' % ('p' * _p, 'p' * _q)] = _int(_p, _q)


def extern(name):
    if name not in EXTERN:
        raise Unencodable('no contract for the C function %s' % name)
    return EXTERN[name]


for _n, _f in EXTERN.items():
    _f.extern_name = _n


# ---------------------------------------------------------------- external packages
class Laminate:
    """Any laminate: symmetric, otherwise arbitrary ABD, a function of what the laminate is made of."""
    def __init__(self, key, h, intrho, offset, **kw):
        import numpy as np
        self.h, self.intrho, self.offset = D(h), D(intrho), D(offset)
        self.__dict__.update(kw)
        M = np.empty((6, 6), dtype=object)
        for i in range(6):
            for j in range(i, 6):
                lo, hi = (1, 3) if i == j else (-1, 1)
                ii, jj = (j - 3, i + 3) if i < 3 <= j and j - 3 < i else (i, j)      # the coupling block B is symmetric itself
                M[i, j] = M[j, i] = atom(('ABD', ii, jj) + key, 'ABD%d%d%s' % (ii + 1, jj + 1, _tag(key)), lo, hi, 'ABD', (ii, jj))
        self._M = M
        self._key = key

    # the real package assembles a fresh array on every access
    ABD = property(lambda s: s._M.copy())

    A = property(lambda s: s.ABD[:3, :3])
    B = property(lambda s: s.ABD[:3, 3:])
    D = property(lambda s: s.ABD[3:, 3:])

    def __getattr__(self, name):
        if name.startswith('calc_'):
            return lambda *a, **k: None
        m = re.fullmatch(r'([ABD])([126])([126])', name)
        if m:
            ix = {'1': 0, '2': 1, '6': 2}
            return getattr(self, m[1])[ix[m[2]], ix[m[3]]]
        if name in ('e1', 'e2', 'g12', 'nu12', 'nu21'):
            lo, hi = (1, 3) if name in ('e1', 'e2', 'g12') else (0, 1)
            return atom((name,) + self._key, name + _tag(self._key), lo, hi, 'lamprop', name)
        raise AttributeError(name)


_TAGS = {}


def _tag(key):
    return '#%d' % _TAGS.setdefault(key, len(_TAGS)) if key else ''


def _ckey(x):
    if isinstance(x, (list, tuple)) or hasattr(x, 'ndim') and not isinstance(x, Poly):
        return tuple(_ckey(y) for y in x)
    if isinstance(x, str) or x is None:
        return x
    return D(x).canon()


class Ply:
    """Reduced stiffness of a ply in laminate coordinates: any, a function of its angle and material."""
    def __init__(self, angle, prop, h):
        self.thetadeg, self.h = angle, D(h)
        key = (_ckey(angle), _ckey(prop))
        for i, j in ((1, 1), (1, 2), (2, 2), (1, 6), (2, 6), (6, 6)):
            lo, hi = (1, 3) if i == j else (-1, 1)
            setattr(self, 'q%d%dL' % (i, j), atom(('Q', i, j) + key, 'Q%d%d%s' % (i, j, _tag(('ply',) + key)), lo, hi, 'ply', (i, j)))


def laminated_plate(stack, plyt=None, laminaprop=None, rho=0., plyts=None, laminaprops=None, rhos=None, offset=0.,
                    calc_scf=None, shear_correction='rohwer'):
    n = len(stack)
    if plyts is None:
        if plyt is None:
            raise ValueError('plyt or plyts must be supplied')
        plyts = [plyt] * n
    if laminaprops is None:
        if laminaprop is None:
            raise ValueError('laminaprop or laminaprops must be supplied')
        laminaprops = [laminaprop] * n
    if rhos is None:
        rhos = [rho] * n
    h = sum((D(t) for t in plyts), D(0))
    intrho = sum((D(r) * D(t) for r, t in zip(rhos, plyts)), D(0))
    key = (_ckey(stack), _ckey(plyts), _ckey(laminaprops), _ckey(offset))
    return Laminate(key, h, intrho, offset, stack=stack, plyts=plyts, laminaprops=laminaprops, rhos=rhos,
                    plies=[Ply(*x) for x in zip(stack, laminaprops, plyts)])


def isotropic_plate(thickness=None, E=None, nu=None, offset=0., rho=0., **kw):
    return laminated_plate([0], plyt=thickness, laminaprop=(E, E, nu), rho=rho, offset=offset)


def _needs(name):
    def f(*a, **k):
        raise Unencodable('call of %s' % name)
    f.__name__ = name.split('.')[-1]
    return f


class _StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _needs(self.__name__ + '.' + name)


def _math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})
    m.sqrt = lambda x: poly.sqrt(D(x))
    m.pow = lambda a, b: D(a) ** b
    m.fabs = abs
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(D(a) - D(b)) <= abs_tol + rel_tol * abs(D(b)))
    m.isnan = m.isinf = lambda x: False
    m.isfinite = lambda x: True
    for n in ('sin', 'cos'):
        setattr(m, n, npshim._trig(n))
    return m


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Poly))

    def __eq__(cls, o):
        return o is float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(float)


class _float(metaclass=_FloatMeta):
    _is_float_shim = True

    def __new__(cls, x=0.):
        return D(float(x)) if isinstance(x, str) else D(x)
    fromhex = float.fromhex


def _format(text, values):
    try:
        return text % values
    except Unencodable:
        return text


class _Messages(ast.NodeTransformer):
    """'...%d...' % symbols is a message like any other."""
    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('_format', ast.Load()), [e.left, e.right], []), e)
        return e


class Loader:
    after = None        # called with (module, Python source, translation) after a Cython module has been executed

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.functions = {}          # module -> functions translated
        self.sources = []
        self.ext = self._externals()
        self.printed = []

    def _externals(self):
        np = npshim.module()
        scipy = types.ModuleType('scipy')
        scipy.__path__ = []
        sp = _StubModule('scipy.sparse')
        sp.__path__ = []
        for n in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'lil_matrix', 'isspmatrix', 'issparse', 'spmatrix', 'triu', 'tril', 'bmat', 'hstack',
                  'vstack', 'block_diag', 'eye', 'identity'):
            setattr(sp, n, getattr(sparse, n))
        sp.coo_array, sp.csr_array = sparse.coo_matrix, sparse.csr_matrix
        scipy.sparse = sp
        sp.linalg = _StubModule('scipy.sparse.linalg')
        scipy.linalg = _StubModule('scipy.linalg')
        ss = _StubModule('structsolve')
        ss.__path__ = []
        su = _StubModule('structsolve.sparseutils')
        for n in ('make_symmetric', 'make_skew_symmetric', 'finalize_symmetric_matrix', 'is_symmetric', 'remove_null_cols'):
            setattr(su, n, getattr(sparse, n))
        ss.sparseutils = su
        co = _StubModule('composites')
        co.laminated_plate, co.isotropic_plate = laminated_plate, isotropic_plate
        out = {'numpy': np, 'scipy': scipy, 'scipy.sparse': sp, 'scipy.sparse.linalg': sp.linalg, 'scipy.linalg': scipy.linalg,
               'structsolve': ss, 'structsolve.sparseutils': su, 'composites': co, 'math': _math()}
        for n in ('sympy',
                  'composites.utils', 'composites.laminate', 'composites.core'):
            m = _StubModule(n)
            m.__path__ = []
            out[n] = m
            if '.' in n:
                setattr(out[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], m)
        mplshim.install(out)
        for k in ('composites.utils', 'composites.core'):
            out[k].laminated_plate, out[k].isotropic_plate = laminated_plate, isotropic_plate
        return out

    def _find(self, name):
        base = os.path.join(self.root, *name.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False), (base + '.pyx', False)):
            if os.path.isfile(p):
                return p, pkg
        return None, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'panels.version':
            m = types.ModuleType(name)
            m.__version__ = m.version = 'x'
            self.mods[name] = m
            return m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rpartition('.')[0]
        self.mods[name] = m
        with open(path, encoding='utf-8') as fh:
            text = fh.read()
        self.sources.append(path)
        if path.endswith('.pyx'):
            src, tr = cy2py.translate(text, name)
            self.functions[name] = tr.functions
            m.__dict__.update(crt.namespace())
            m.__dict__['_extern'] = extern
        else:
            src = text
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b['float'] = _float
        m.__dict__['__builtins__'] = b
        try:
            if not path.endswith('.pyx'):
                m.__dict__['_format'] = _format
                src = ast.fix_missing_locations(_Messages().visit(ast.parse(src, path)))
            exec(compile(src, path, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if self.after is not None and path.endswith('.pyx'):
            self.after(m, src, tr)
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _resolve(self, name):
        if name in self.ext:
            return self.ext[name]
        if name == 'panels' or name.startswith('panels.'):
            return self.load(name)
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        top = full.split('.')[0]
        if top != 'panels' and top not in self.ext:
            return builtins.__import__(name, globals, locals, fromlist, level)
        mod = self._resolve(full)
        if mod is None:
            if top == 'numpy' and full.startswith('numpy._core.'):
                # numpy itself, from within a method of an array
                return builtins.__import__(name, globals, locals, fromlist, level)
            if top in self.ext:
                raise Unencodable('import of %s' % full)
            raise ModuleNotFoundError('No module named %r' % full)
        if not fromlist:
            return self._resolve(top) if not level else mod
        for n in fromlist:
            if n == '*' or n in mod.__dict__:
                continue
            if hasattr(mod, '__path__') and top == 'panels':
                sub = full + '.' + n
                if self._find(sub)[0] or sub == 'panels.version':
                    self.load(sub)
        return mod


_LOADERS = {}


def fresh(root=None):
    """A fresh symbolic import of the package (module state included)."""
    return Loader(root)
