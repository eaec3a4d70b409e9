"""C09: external force vectors and point supports do the work the loads do."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.add_point_load, add_distr_load_fixed_x/y, add_point_pd, add_distr_pd_fixed_x/y, calc_fext, calc_stiffness_point_constraint',
             'shell_fext.shell_fext', 'clpt_bardell_field.fg', 'legendre_gauss_quadrature.get_points_weights']
BOUNDS = ('m, n in {2..4} terms, and 9x3, 3x10, 7x2, 2x8 for lines; one or two loads of every kind with symbolic positions and components; distributed loads varying up to '
          'linearly along the line; any load multiplier, geometry and flags; every entry of the vector')
OUTSIDE = 'rounding of IEEE doubles; distributed loads of a degree the shell\'s own quadrature (m or n points) does not integrate exactly'
EXPLANATION = ('Loads are added through the public API and calc_fext is executed symbolically; z3 decides each entry against the virtual work of '
               'the load on that degree of freedom: component times basis function at the point, or the exact line integral (the quadrature sums '
               'the code forms are reduced with the moment identities C03 establishes), constant parts unscaled, incremental parts scaled by inc. '
               'A point support is decided against the sum of penalty * g g^T.')
ASSUMPTIONS = ['doubles are reals', 'C01, C02, C03 (kernels)']


def point(dom, x, y, f, v, inc=1):
    xi, eta = 2 * x / dom.a - 1, 2 * y / dom.b - 1
    for k, fld, i, j in dom.dofs():
        S.add(v, k, dom.d(fld, 0, 0, i, j, xi, eta) * f['uvw'.index(fld)] * inc)


def line(be, dom, axis, at, co, v, inc=1):
    """int f(s) g ds along x = at (axis 'x') or y = at; co[field] = [c0, c1, ...] power coefficients of f in the coordinate s."""
    one = [be.const(1.)] * 4
    for k, fld, i, j in dom.dofs():
        cs = co['uvw'.index(fld)]
        if not cs:
            continue
        if axis == 'x':
            fix, L, idx, fl = dom.X(0, fld, i, 2 * at / dom.a - 1), dom.b, j, dom.fy[fld]
        else:
            fix, L, idx, fl = dom.Y(0, fld, j, 2 * at / dom.b - 1), dom.a, i, dom.fx[fld]
        # s = L (1 + t)/2 ; f = c0 + c1 s ; int g dt and int g t dt
        g0 = lin_integral(be, idx, fl, 0)
        g1 = lin_integral(be, idx, fl, 1)
        t = cs[0] * g0
        if len(cs) > 1:
            t = t + cs[1] * L / 2 * (g0 + g1)
        S.add(v, k, t * fix * L / 2 * inc)


def lin_integral(be, i, fl, p):
    """Exact integral over [-1, 1] of t^p times the i-th function."""
    from engine.concrete import dcoef
    from fractions import Fraction as F
    q = sum((c * F(2, n + p + 1) for n, c in enumerate(dcoef(0, i)) if (n + p) % 2 == 0), F(0))
    q = be.frac(q)
    return q * fl[i] if i < 4 else q


def funcs(be, tag, sel, terms):
    """Load components, up to linear (constant where the rule of one or two points is not exact for more), as functions the API takes and as coefficients."""
    fs, co = [], []
    for d in 'xyz':
        if d not in sel:
            fs.append(None)
            co.append([])
            continue
        c0 = be.real('c0%s%s' % (d, tag), -1.5, 2.)
        if sel[d] == 1 and terms > 2:
            c1 = be.real('c1%s%s' % (d, tag), -1.5, 2.)
            fs.append(lambda s, c0=c0, c1=c1: c0 + c1 * s)
            co.append([c0, c1])
        else:
            fs.append(lambda s, c0=c0: c0)
            co.append([c0])
    return fs, co


def close(be, f, v, size, col0=0, total=None):
    f = be.np.array(f)
    be.true('fext: length', len(f) == (size if total is None else total))
    for k in range(len(f)):
        be.eq_exact('fext[%d]' % k, f[k], v.get(k - col0, 0) if 0 <= k - col0 < size else 0)


def loads(be, m, n, M, N, curved, kind, extra=None):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be))
    v = {}
    R = lambda nm, lo=-1.5, hi=2.: be.real(nm, lo, hi)
    inc = R('inc')
    if kind in ('point', 'all'):
        for t, cte in (('a', True), ('b', False)):
            x, y, f = R('x' + t, 0, .5), R('y' + t, 0, .5), [R('f%s%s' % (d, t)) for d in 'xyz']
            s.add_point_load(x, y, *f, cte=cte)
            point(dom, x, y, f, v, 1 if cte else inc)
    if kind in ('pd', 'all'):
        for t, cte in (('c', True), ('d', False)):
            x, y = R('x' + t, 0, .5), R('y' + t, 0, .5)
            k, p = [R('k%s%s' % (d, t)) for d in 'uvw'], [R('p%s%s' % (d, t)) for d in 'uvw']
            s.add_point_pd(x, y, k[0], p[0], k[1], p[1], k[2], p[2], cte=cte)
            point(dom, x, y, [a * b for a, b in zip(k, p)], v, 1 if cte else inc)
    if kind in ('line', 'all'):
        for t, axis, cte, sel in (('e', 'x', True, dict(x=1, z=0)), ('g', 'x', False, dict(y=1)), ('h', 'y', True, dict(y=1, z=1)),
                                  ('i', 'y', False, dict(x=1, z=0))):
            at = R('at' + t, 0, .5)
            fs, co = funcs(be, t, sel, dom.n if axis == 'x' else dom.m)
            getattr(s, 'add_distr_load_fixed_' + axis)(at, funcx=fs[0], funcy=fs[1], funcz=fs[2], cte=cte)
            line(be, dom, axis, at, co, v, 1 if cte else inc)
    if kind in ('linepd', 'all'):
        for t, axis, cte, sel in (('j', 'x', True, dict(x=1, z=0)), ('k', 'x', False, dict(y=1)), ('l', 'y', True, dict(y=1, x=0)),
                                  ('m', 'y', False, dict(z=1))):
            at = R('at' + t, 0, .5)
            fs, co = funcs(be, t, sel, dom.n if axis == 'x' else dom.m)
            ks = [R('k%s%s' % (d, t), .5, 2.) if f is not None else None for d, f in zip('uvw', fs)]
            getattr(s, 'add_distr_pd_fixed_' + axis)(at, ku=ks[0], kv=ks[1], kw=ks[2], funcu=fs[0], funcv=fs[1], funcw=fs[2], cte=cte)
            line(be, dom, axis, at, [[c * k for c in cs] if cs else [] for cs, k in zip(co, ks)], v, 1 if cte else inc)
    if kind in ('single', 'singlepd'):
        for q, axis in enumerate('xy'):
            for cte in (True, False):
                for sel in (dict(x=1), dict(y=0), dict(z=1), dict(x=0, y=0), dict(y=1, z=0), dict(x=0, y=0, z=0)):
                    t = '_%s%d%s' % (axis, cte, ''.join(sel))
                    at = R('at' + t, 0, .5)
                    fs, co = funcs(be, t, sel, dom.n if axis == 'x' else dom.m)
                    if kind == 'single':
                        getattr(s, 'add_distr_load_fixed_' + axis)(at, funcx=fs[0], funcy=fs[1], funcz=fs[2], cte=cte)
                    else:
                        ks = [R('k%s%s' % (d, t), .5, 2.) if f is not None else None for d, f in zip('uvw', fs)]
                        getattr(s, 'add_distr_pd_fixed_' + axis)(at, ku=ks[0], kv=ks[1], kw=ks[2], funcu=fs[0], funcv=fs[1], funcw=fs[2], cte=cte)
                        co = [[c * k for c in cs] if cs else [] for cs, k in zip(co, ks)]
                    line(be, dom, axis, at, co, v, 1 if cte else inc)
    if extra == 'assembly':
        close(be, be.call('fext', s.calc_fext, inc=inc, size=dom.size + 7, col0=4), v, dom.size, 4, dom.size + 7)
    elif extra == 'string':
        close(be, be.call('fext', s.calc_fext, inc=inc, size='+2'), v, dom.size, 0, dom.size + 2)
    elif extra == 'default':
        w = {}
        # without a multiplier the incremental loads count fully
        f1 = be.np.array(be.call('fext', s.calc_fext))
        f2 = be.np.array(be.call('fext', s.calc_fext, inc=1.))
        for k in range(dom.size):
            be.eq('default multiplier[%d]' % k, f1[k], f2[k])
        close(be, be.call('fext', s.calc_fext, inc=inc), v, dom.size)
    else:
        close(be, be.call('fext', s.calc_fext, inc=inc), v, dom.size)


def support(be, m, n, M, N, curved, flags):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be))
    s._rebuild()
    x, y = be.real('x', 0, .5), be.real('y', 0, .5)
    ku, kp = be.real('kuvw', .5, 2.), be.real('kphi', .5, 2.)
    names = ['u', 'v', 'w', 'phix', 'phiy']
    K = be.call('support', s.calc_stiffness_point_constraint, x, y, kuvw=ku, kphi=kp, **{k: bool(f) for k, f in zip(names, flags)})
    ops = [[('u', 1, 0, 0)], [('v', 1, 0, 0)], [('w', 1, 0, 0)], [('w', -1, 1, 0)], [('w', -1, 0, 1)]]
    H = {}
    rows = dom.rows(ops, 2 * x / dom.a - 1, 2 * y / dom.b - 1)
    for r, f, k in zip(rows, flags, [ku] * 3 + [kp] * 2):
        if f:
            for a, va in r.items():
                for b, vb in r.items():
                    S.add(H, (a, b), va * vb * k)
    S.compare(be, 'support', K, H, dom.size)


def rejected(be):
    s = be.mod('panels.shell').Shell(a=be.real('a'), b=be.real('b'), m=2, n=2)
    f = lambda t: t
    for ax in 'xy':
        ld, pd = getattr(s, 'add_distr_load_fixed_' + ax), getattr(s, 'add_distr_pd_fixed_' + ax)
        be.raises('incomplete load', ld, 0.5)
        be.raises('incomplete load', pd, 0.5, ku=1.)
        be.raises('incomplete load', pd, 0.5, funcu=f)
        for k, g in (('ku', 'funcv'), ('kv', 'funcw'), ('kw', 'funcu')):
            be.raises('incomplete load', pd, 0.5, **{k: 1., g: f})
    be.true('incomplete load: nothing kept', not (s.distr_loads or s.distr_loads_inc or s.distr_pds or s.distr_pds_inc))


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'

        def h(name, fn=loads, **k):
            p = dict(m=3, n=3, M=5, N=6, curved=curved)
            p.update(k)
            hs.append({'name': nm + '-' + name, 'fn': fn, 'params': p, 'max_paths': 64, 'timeout': 200})
        h('point', kind='point', m=2, n=3)
        h('prescribed-point', kind='pd', m=3, n=2)
        h('line', kind='line', m=3, n=4)
        h('prescribed-line', kind='linepd', m=4, n=3)
        h('line-components', kind='single', m=3, n=3)
        h('prescribed-line-components', kind='singlepd', m=3, n=3)
        h('all-in-assembly', kind='all', extra='assembly')
        h('all-default', kind='all', extra='default')
        h('point-extra-rows', kind='point', extra='string', m=2, n=2)
        for k, fl in enumerate(((1, 1, 1, 0, 0), (0, 1, 0, 1, 0), (1, 0, 1, 0, 1), (0, 0, 0, 1, 1))):
            h('support-%d' % k, fn=support, flags=fl, m=2 + k % 2, n=3 - k % 2)
        for a, b in ((9, 3), (3, 10), (7, 2), (2, 8)):
            h('line-%dx%d' % (a, b), kind='line', m=a, n=b, M=a, N=b)
            h('prescribed-line-%dx%d' % (a, b), kind='linepd', m=a, n=b, M=a, N=b)
        if tier != 'quick':
            h('line-4x4', kind='line', m=4, n=4)
            h('all-4x4', kind='all', m=4, n=4)
            h('line-10x3', kind='line', m=10, n=3)
            h('prescribed-line-3x10', kind='linepd', m=3, n=10)
            h('support-all', fn=support, flags=(1, 1, 1, 1, 1), m=3, n=3)
    hs.append({'name': 'rejected', 'fn': rejected, 'params': {}})
    return hs
