"""C19: saving keeps what is defined: what is loaded gives what the saved object gave."""
import builtins
import copy
import os
import shutil
import tempfile
from .C17 import (BAY, CALCS, Args, Def, air, anew, bay_calc, bay_def, calc, flat, forces, kept, own, same, stress, unchanged, values)

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.stiffener', 'panels.stiffpanelbay']
FUNCTIONS = ['Shell.save, Shell._clear_matrices, shell.load', 'StiffPanelBay.save, StiffPanelBay._clear_matrices, stiffpanelbay.load',
             'the calc_ methods and fields of both, and the kernels behind them']
BOUNDS = ('one or two objects saved, before and after up to four calculations, loaded by name with and without extension; shells of (2,1) and (1,2) terms, bays with '
          'one to three stiffeners of both kinds (replayed with up to (4,3)); every geometry, edge flag, laminate, load, airflow and vector; every entry of every result')
OUTSIDE = ('rounding of IEEE doubles; the byte format of the files (modelled as a copy of every attribute, replayed with the real one); loads given by functions '
           'that pickle refuses (lambdas); lists of plies derived by the package and then changed in place; names that contain the extension themselves; other versions of the package')
EXPLANATION = ('save and load are executed symbolically with a file system and a pickle that copy every attribute of every object reached; z3 decides that every entry of '
               'every matrix, vector and field of the loaded object and of the saved one is that of a new object with the same definition.')
ASSUMPTIONS = ['doubles are reals', 'pickle copies the attributes of the objects it reaches, keeping which are the same object']

ATOMIC = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))


class PicklingError(Exception):
    pass


def clone(x, memo):
    """What pickle writes and reads: every attribute of every object reached; numbers are new objects."""
    if isinstance(x, ATOMIC) or isinstance(x, type):
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    mod = type(x).__module__
    if callable(x) and hasattr(x, '__name__'):
        if '<' in getattr(x, '__qualname__', x.__name__):
            raise PicklingError(repr(x))
        return x
    if isinstance(x, (list, set)):
        y = type(x)()
        memo[id(x)] = y, x
        for v in x:
            (y.append if isinstance(x, list) else y.add)(clone(v, memo))
        return y
    if isinstance(x, tuple):
        y = tuple(clone(v, memo) for v in x)
    elif isinstance(x, dict):
        y = type(x)()
        memo[id(x)] = y, x
        for k, v in x.items():
            y[clone(k, memo)] = clone(v, memo)
        return y
    elif mod.startswith('panels') or hasattr(type(x), 'panels_'):
        state = {}
        if hasattr(type(x), '__getstate__') and type(x).__getstate__ is not getattr(object, '__getstate__', None):
            state = x.__getstate__()
            if not isinstance(state, dict):
                raise NotImplementedError('state of %r' % type(x))
        else:
            for c in type(x).__mro__:
                slots = c.__dict__.get('__slots__', ())
                for k in (slots,) if isinstance(slots, str) else slots:
                    if hasattr(x, k):
                        state[k] = getattr(x, k)
            state.update(getattr(x, '__dict__', {}))
        y = type(x).__new__(type(x))
        memo[id(x)] = y, x
        state = {k: clone(v, memo) for k, v in state.items()}
        if hasattr(y, '__setstate__'):
            y.__setstate__(state)
        else:
            for k, v in state.items():
                setattr(y, k, v)
        return y
    else:
        # numbers, arrays, matrices, laminates: never changed in place by the package
        y = x.copy() if hasattr(x, 'shape') and hasattr(x, 'copy') else copy.copy(x)
    memo[id(x)] = y, x
    return y


class Disk:
    """A scratch directory; symbolically, one in memory."""
    def __init__(self, be, *mods):
        self.be, self.files, self.mods = be, {}, [be.mod(m) for m in mods]

    def __enter__(self):
        if not self.be.symbolic:
            self.old, self.dir = os.getcwd(), tempfile.mkdtemp(prefix='c19')
            os.chdir(self.dir)
            return self
        disk = self

        class File:
            def __init__(self, name, mode='r', *a, **k):
                self.name, self.mode = name, mode
                if 'w' in mode:
                    disk.files[name] = None
                elif name not in disk.files:
                    raise FileNotFoundError(name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
            close = flush = lambda self: None

        class pickle:
            HIGHEST_PROTOCOL = 5
            PicklingError = PicklingError

            @staticmethod
            def dump(x, f, protocol=None, **k):
                if 'b' not in f.mode or 'w' not in f.mode:
                    raise TypeError('a binary file is needed')
                disk.files[f.name] = clone(x, {})

            @staticmethod
            def load(f, **k):
                if 'b' not in f.mode or 'r' not in f.mode:
                    raise TypeError('a binary file is needed')
                if disk.files[f.name] is None:
                    raise EOFError
                return clone(disk.files[f.name], {})
        self.saved = [(m, n, m.__dict__.get(n)) for m in self.mods for n in ('open', 'pickle')]
        for m in self.mods:
            m.open, m.pickle = File, pickle
        return self

    def __exit__(self, *a):
        if not self.be.symbolic:
            os.chdir(self.old)
            shutil.rmtree(self.dir)
            return
        for m, n, v in self.saved:
            if v is None:
                delattr(m, n)
            else:
                setattr(m, n, v)

    def names(self):
        return sorted(self.files) if self.be.symbolic else sorted(os.listdir('.'))


def no_functions(D):
    D.parts['loads'] = {k: v for k, v in D.parts['loads'].items() if k != 'distr_loads'}
    return D


def shell(be, what, first, A, change=(), B=None, again=False):
    A = no_functions(Def(be, '_A', **A))
    B = no_functions(Def(be, '_B', **B)) if B else None
    mod = be.mod('panels.shell')
    v = Args(be, '_a', A.dom.size)
    s = A.new()
    s.name = 'first panel'
    state = dict(A.parts)
    with Disk(be, 'panels.shell') as disk:
        if again:
            # another definition saved before under the same name, and one under another
            o = B.new()
            o.name = s.name
            be.call('save', o.save)
            o.name = 'other.v2'
            be.call('save', o.save)
        old = []
        for op in first:
            old += [(k, x, flat(be, x)) for k, x in calc(be, op, s, v)]
        for g in change:
            B.set(s, [g])
            state[g] = B.parts[g]
        attrs = {}
        for g in state.values():
            attrs.update(g)
        be.call('save', s.save)
        be.true('files written', disk.names() == sorted(['first panel.Shell'] + ['other.v2.Shell'] * again))
        kept(be, 'result kept', old)
        loaded = [be.call('load', mod.load, 'first panel'), be.call('load', mod.load, 'first panel.Shell')]
        if again:
            o = be.call('load', mod.load, 'other.v2')
            want = values(be, calc(be, what, B.new(), v))
            same(be, 'the other one: ' + what, values(be, calc(be, what, o, v)), want)
        be.raises('a file that is not there', mod.load, 'nothing')
    new = mod.Shell(out_num_cores=2)
    for k, x in attrs.items():
        setattr(new, k, own(x))
    want = values(be, calc(be, what, new, v))
    for nm, t in (('loaded', loaded[0]), ('loaded with extension', loaded[1]), ('saved', s)):
        be.true(nm + ': a shell', isinstance(t, mod.Shell) and t.name == 'first panel' and (t is s) == (nm == 'saved'))
        unchanged(be, nm + ': definition', t, attrs)
        same(be, '%s: %s' % (nm, what), values(be, calc(be, what, t, v)), want)
        unchanged(be, nm + ': definition', t, attrs)
    # they share nothing
    t = loaded[0]
    be.true('loads are copies', t.point_loads is not s.point_loads and (t.stack is not s.stack))


def bay(be, what, first, layout, curved=False):
    B = bay_def(be, layout, curved)
    s = B.bay
    mod = be.mod('panels.stiffpanelbay.stiffpanelbay')
    v = Args(be, '_a', B.size)
    air(be, s, '_0')
    forces(be, s, '_0')
    stress(be, s, '_0')
    s.name = 'first bay'
    new = anew(be, B)
    keep = {k: own(getattr(s, k)) for k in ('a', 'b', 'r', 'm', 'n', 'Mach', 'V', 'rho_air', 'speed_sound', 'flow', 'beta', 'gamma', 'aeromu', 'rho', 'forces_skin') + tuple(B.dom.kw)}
    point = [own(st.forces_flange) for st in s.bladestiff2ds]
    old = []
    for op in first:
        old += [(k, x, flat(be, x)) for k, x in bay_calc(be, op, s, v)]
    with Disk(be, 'panels.stiffpanelbay.stiffpanelbay') as disk:
        be.call('save', s.save)
        be.true('files written', disk.names() == ['first bay.StiffPanelBay'])
        kept(be, 'result kept', old)
        loaded = [be.call('load', mod.load, 'first bay'), be.call('load', mod.load, 'first bay.StiffPanelBay')]
        be.raises('a file that is not there', mod.load, 'nothing')
    want = values(be, bay_calc(be, what, new, v))
    size = B.size
    for nm, t in (('loaded', loaded[0]), ('loaded with extension', loaded[1]), ('saved', s)):
        be.true(nm + ': a bay', type(t) is type(s) and t.name == 'first bay' and (t is s) == (nm == 'saved'))
        be.true(nm + ': its parts', [len(getattr(t, q)) for q in ('panels', 'stiffeners', 'bladestiff1ds', 'bladestiff2ds')]
                == [len(getattr(s, q)) for q in ('panels', 'stiffeners', 'bladestiff1ds', 'bladestiff2ds')])
        be.true(nm + ': the same parts', all(st.bay is t and any(st.panel1 is p for p in t.panels) and any(st.panel2 is p for p in t.panels) for st in t.stiffeners))
        same(be, '%s: %s' % (nm, what), values(be, bay_calc(be, what, t, v)), want)
        be.true(nm + ': size', be.call('size', t.get_size) == size)
        unchanged(be, nm + ': definition', t, keep)
        for st, f in zip(t.bladestiff2ds, point):
            unchanged(be, nm + ': flange', st, {'forces_flange': f})
    be.true('parts are copies', all(p is not q for p, q in zip(loaded[0].panels, s.panels)))


def harnesses(tier):
    hs = []
    quick = tier == 'quick'

    def h(name, fn, cost=3, **k):
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 200, 'max_paths': 64})

    def d(m, n, curved, **k):
        return dict(m=m, n=n, curved=curved, **k)
    for q, what in enumerate(CALCS):
        cur = q % 2 == 0
        m, n = 2 - q % 2, 1 + q % 2
        before = [x for x in CALCS if x != what]
        before = before[q:] + before[:q]
        h('shell-' + what, shell, what=what, first=before[:3] + [what] if q % 3 else [], A=d(m, n, cur, lists=q % 4 < 2, mach=q % 3 > 0, flow='xy'[q % 2]))
        h('shell-%s-again' % what, shell, what=what, first=[what], change=(['laminate'], ['radius'], ['loads', 'stress', 'air'], ['part', 'geometry', 'edges'])[q % 4], again=True,
          A=d(m, n, cur, lists=False), B=d(m, n, not cur, lists=False, partial=True, flow='yx'[q % 2]))
        if not quick:
            h('shell-%s-all' % what, shell, what=what, first=before, A=d(2, 2, not cur), change=['laminate', 'loads', 'stress'], B=d(2, 2, cur))
    for q, what in enumerate(BAY):
        before = [x for x in BAY if x != what]
        for layout in ('b2d-flange', 'b1d-both', 'b2d-both', 'mixed'):
            one = layout.startswith('b1d')
            if one and what in ('flange', 'kG-state') or layout == 'mixed' and what == 'kG-state':
                continue
            if quick and layout in ('b2d-both', 'mixed') and (q + len(layout)) % 3:
                continue
            b = [x for x in before if not (x == 'flange' and one or x == 'kG-state' and layout != 'b2d-flange')]
            h('bay-%s-%s' % (what, layout), bay, 4, what=what, first=b[:3] + [what] if q % 2 else [], layout=layout, curved=q % 2 == 0)
    return hs
