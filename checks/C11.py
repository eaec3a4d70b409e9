"""C11: assemblies of domains: every panel in its own rows and columns, plus the connections."""
from . import spec as S
from .C12 import setup, offsets, connect

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.multidomain']
FUNCTIONS = ['MultiDomain.__init__, get_size, calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext',
             'MultiDomain.uvw, strain, stress, uvw_gauss_points, strain_gauss_points, stress_gauss_points, default_field',
             'Shell.calc_kC, calc_kG, calc_kM, calc_kT, calc_kA, calc_cA, calc_fint, calc_fext with row0, col0 and size', 'the kernels of plates and cylinders behind them']
BOUNDS = ('two and three panels of (1,2), (2,1), (2,2), (3,1), (1,3) terms in every order of listing (replayed with up to (3,4)), flat and curved; every displacement '
          'vector, geometry, edge flag, laminate, load and connecting line; every entry of every matrix and vector; grids of up to 2 by 3 points')
OUTSIDE = 'rounding of IEEE doubles; more terms and points than the bound; plotting'
EXPLANATION = ('The assembly methods are executed symbolically, and the same panels once more alone, at row and column zero; z3 decides that every entry '
               'of the assembled matrix or vector is that of the panel alone, at its place, zero between panels, plus the connection matrix (C12), with the '
               'part of the displacement vector that belongs to the panel, and that the fields of a group are, panel by panel, in the order of the list, '
               'those of the panel alone.')
ASSUMPTIONS = ['doubles are reals', 'C04 to C10, C13, C14 (what a panel alone gives)', 'C12 (connection matrix)']


def block(be, H, M, off, n):
    M = be.dense(M)
    for r in range(n):
        for c in range(n):
            S.add(H, (off + r, off + c), M[r, c])


def part(be, c, off, n):
    return be.vec([c[off + k] for k in range(n)])


def build(be, sizes, Sizes, curved=(), nxy=2):
    """Shells for the assembly and the same ones again to be used alone."""
    doms, asm, alone = [], [], []
    for k, ((m, n), (M, N)) in enumerate(zip(sizes, Sizes)):
        d = S.Dom(be, be.pick(m, M), be.pick(n, N), tag='_%d' % k, curved=k in curved, b=doms[0].b if k else None)
        lam = S.Lam(be, tag='_%d' % k, stack=(0, 45)[:2 - k % 2], offset=k == 1, rho=True)
        for out in (asm, alone):
            s = S.make_shell(be, d, lam, nx=nxy, ny=nxy)
            s.group = 'g%d' % (k % 2)
            s.Nxx, s.Nyy, s.Nxy = (be.real('N%s_%d' % (x, k), -1.5, 2.) for x in ('xx', 'yy', 'xy'))
            out.append(s)
        doms.append(d)
    return doms, asm, alone


def assembled(be, doms, asm, order, conns):
    MD = be.mod('panels.multidomain').MultiDomain
    cs = [connect(be, f, doms, asm, a, b, '_c%d' % q)[0] for q, (f, a, b) in enumerate(conns)]
    A = MD([asm[k] for k in order], cs)
    offs, size = offsets(doms, order)
    be.true('size: sum of the sizes', A.get_size() == size)
    for k in order:
        be.true('size: place of a panel', asm[k].row_start == offs[k] and asm[k].col_start == offs[k] and asm[k].row_end == offs[k] + doms[k].size)
    return A, offs, size


def matrix(be, what, sizes, Sizes, order, with_c=False, curved=(), conns=(('SSxcte', 0, 1),), given=False, how=None):
    doms, asm, alone = build(be, sizes, Sizes, curved)
    A, offs, size = assembled(be, doms, asm, order, conns)
    c = S.bshape(be, 'c', size) if with_c else None
    H = {}
    for k in order:
        s, n = alone[k], doms[k].size
        ck = part(be, c, offs[k], n) if with_c else None
        nl = {'NLgeom': True} if how == 'nl' else {}
        if what == 'kC':
            M = s.calc_kC(c=ck, **nl)
        elif what == 'kG':
            M = s.calc_kG(c=ck, **nl)
        elif what == 'kM':
            M = s.calc_kM()
        else:
            block(be, H, s.calc_kC(c=ck, NLgeom=True), offs[k], n)
            M = s.calc_kG(c=ck, NLgeom=True)
        block(be, H, M, offs[k], n)
    kw = {} if what == 'kM' else {'c': c}
    if how == 'nl':
        kw['NLgeom'] = True
    cs = A.conn
    if given and what == 'kC':
        A.conn = None
        kw['conn'] = cs
    K = be.call(what, getattr(A, 'calc_' + what), **kw)
    if what in ('kC', 'kT'):
        B = be.mod('panels.multidomain').MultiDomain([asm[k] for k in order], cs)
        block(be, H, B.get_kC_conn(), 0, size)
    S.compare(be, 'assembled %s' % what, K, H, size)
    be.true('%s: kept' % what, getattr(A, what) is K)


def vectors(be, sizes, Sizes, order, curved=(), conns=(('SSxcte', 0, 1),), after=False):
    doms, asm, alone = build(be, sizes, Sizes, curved)
    A, offs, size = assembled(be, doms, asm, order, conns)
    c = S.bshape(be, 'c', size)
    inc = be.real('inc', .2, .8)
    for k in order:
        for s in (asm[k], alone[k]):
            s.point_loads = [[be.real('%s%d' % (p, k), 0, .5) for p in 'xy'] + [be.real('f%s%d' % (p, k), -1.5, 2.) for p in 'xyz']]
            s.point_loads_inc = [[be.real('%si%d' % (p, k), 0, .5) for p in 'xy'] + [be.real('fi%s%d' % (p, k), -1.5, 2.) for p in 'xyz']]
    if after:
        be.call('kC', A.calc_kC)
    f = be.call('fint', A.calc_fint, c)
    K = be.dense(be.mod('panels.multidomain').MultiDomain([asm[k] for k in order], A.conn).get_kC_conn())
    E, X = {}, {}
    for k in order:
        n = doms[k].size
        e = alone[k].calc_fint(part(be, c, offs[k], n))
        x = alone[k].calc_fext(inc=inc)
        for q in range(n):
            E[offs[k] + q] = e[q]
            X[offs[k] + q] = x[q]
    for r in range(size):
        t = 0
        for q in range(size):
            t = t + K[r, q] * c[q]
        E[r] = E[r] + t
    S.compare_vec(be, 'assembled fint', f, E, size)
    S.compare_vec(be, 'assembled fext', be.call('fext', A.calc_fext, inc=inc), X, size)


LOADS = [(kind, cte) for cte in (False, True) for kind in ('point', 'pd', 'line-x', 'line-y', 'linepd-x', 'linepd-y')]


def load(be, shells, kind, cte, t):
    R = be.real
    x, y = R('lx' + t, 0, .5), R('ly' + t, 0, .5)
    f, k = [R('l%s%s' % (d, t), -1.5, 2.) for d in 'uvw'], [R('k%s%s' % (d, t), .5, 2.) for d in 'uvw']
    line = lambda q: lambda z: f[q] + 0 * z
    for s in shells:
        if kind == 'point':
            s.add_point_load(x, y, *f, cte=cte)
        elif kind == 'pd':
            s.add_point_pd(x, y, k[0], f[0], k[1], f[1], k[2], f[2], cte=cte)
        elif kind.startswith('line-'):
            getattr(s, 'add_distr_load_fixed_' + kind[-1])(x if kind[-1] == 'x' else y, funcx=line(0), funcy=line(1), funcz=line(2), cte=cte)
        else:
            getattr(s, 'add_distr_pd_fixed_' + kind[-1])(x if kind[-1] == 'x' else y, ku=k[0], kv=k[1], kw=k[2], funcu=line(0), funcv=line(1), funcw=line(2), cte=cte)


def external(be, kinds, order, curved=()):
    """Every panel with loads of its own kind."""
    doms, asm, alone = build(be, [(1, 2), (2, 1), (1, 1)], [(3, 2), (2, 3), (3, 4)], curved)
    A, offs, size = assembled(be, doms, asm, order, (('SSxcte', 0, 1),))
    inc = be.real('inc', .2, .8)
    for k, q in enumerate(kinds):
        for i, (kind, cte) in enumerate(q):
            load(be, (asm[k], alone[k]), kind, cte, '_%d%d' % (k, i))
    for nm, kw, v in (('', {'inc': inc}, inc), (' in full', {}, 1.)):
        X = {}
        for k in order:
            for q, x in enumerate(alone[k].calc_fext(inc=v)):
                X[offs[k] + q] = x
        S.compare_vec(be, 'assembled fext' + nm, be.call('fext', A.calc_fext, **kw), X, size)


def fields(be, what, sizes, Sizes, order, grid, group, curved=(), nl=None, gauss=None):
    doms, asm, alone = build(be, sizes, Sizes, curved)
    for s in asm + alone:
        s._rebuild()
    A, offs, size = assembled(be, doms, asm, order, ())
    A.out_num_cores = 2
    c = S.bshape(be, 'c', size)
    kw = {} if nl is None else {'NLterms': nl}
    if gauss is None:
        res = be.call(what, getattr(A, what), c, group, gridx=grid[0], gridy=grid[1], **kw)
    else:
        px = None if gauss == 'y' else [be.real('px%d' % q, 0, .5) for q in range(grid[0])]
        py = None if gauss == 'x' else [be.real('py%d' % q, 0, .5) for q in range(grid[1])]
        res = be.call(what, getattr(A, what + '_gauss_points'), c, group, x_gauss=px if px is None else be.vec(px), y_gauss=py if py is None else be.vec(py), **kw)
    mine = [k for k in order if asm[k].group == group]
    for v in res.values():
        be.true('%s: one field per panel of the group' % what, len(v) == len(mine))
    for q, k in enumerate(mine):
        s, d = alone[k], doms[k]
        if gauss is None:
            gx, gy = be.np.linspace(0, d.a, grid[0]), be.np.linspace(0, d.b, grid[1])
        else:
            gx = be.np.linspace(0, d.a, 50) if px is None else be.vec(px)
            gy = be.np.linspace(0, d.b, 50) if py is None else be.vec(py)
        X, Y = be.np.meshgrid(gx, gy)
        kk = {} if nl is None else {'NLgeom': nl}
        mesh, ref = getattr(s, what)(part(be, c, offs[k], d.size), xs=X, ys=Y, **kk)
        ref = dict(ref, x=X, y=Y)
        for name, vals in res.items():
            got, want = vals[q], ref[name]
            be.true('%s: shape' % name, tuple(got.shape) == tuple(X.shape))
            got, want = got.reshape(-1), want.reshape(-1)
            for z in range(0, len(want), 1 if len(want) < 20 else 7):
                be.eq('%s of a group[%d,%d]' % (name, q, z), got[z], want[z])
    if gauss == 'both':
        be.raises('no points given', getattr(A, what + '_gauss_points'), c, group, x_gauss=None, y_gauss=None)


def placed(be, what, m, n, M, N, curved, how):
    """A panel in a bigger matrix: its own entries at row0, col0; nothing elsewhere."""
    d = S.Dom(be, be.pick(m, M), be.pick(n, N), curved=curved)
    lam = S.Lam(be, stack=(0, 45), offset=True, rho=True)
    s, t = (S.make_shell(be, d, lam, nx=2, ny=2) for _ in range(2))
    row0, more = 3 * 2, 3 * 3 + 1
    size = d.size + more
    c = be.vec([0.] * row0 + [be.real('c%d' % k, -1., 1.) for k in range(d.size)] + [be.real('other', 1., 2.)] * (more - row0))
    c1 = part(be, c, row0, d.size)
    for x in (s, t):
        x.Nxx, x.Nyy, x.Nxy = (be.real('N' + q, -1.5, 2.) for q in ('xx', 'yy', 'xy'))
        x.beta = be.real('beta', .5, 2.)
        x.flow = 'x'
        x.point_loads = [[be.real(q, 0, .5) for q in 'xy'] + [be.real('f' + q, -1.5, 2.) for q in 'xyz']]
    # with a state and a stress state held constant
    kw = {'kC': {}, 'kCc': {'NLgeom': True, 'c': True}, 'kCcte': {'NLgeom': True, 'c_cte': True}, 'kG': {}, 'kGc': {'c': True}, 'kT': {'c': True}, 'kM': {},
          'kMnum': {}, 'kA': {}, 'cA': {}, 'fint': {'c': True}, 'fext': {}}[what]
    fn = 'calc_' + {'kCc': 'kC', 'kCcte': 'kC', 'kGc': 'kG', 'kMnum': 'kM'}.get(what, what)
    kp, ka = dict(kw), dict(kw)
    for q in ('c', 'c_cte'):
        if q in kw:
            kp[q], ka[q] = c, c1
    if what == 'kCcte':
        s.Nxx_cte = t.Nxx_cte = be.real('Nc', -1.5, 2.)
    if what == 'kMnum':
        nq = max(2, d.m), max(2, d.n)
        for x in (s, t):
            x.nx, x.ny = nq
        h = be.arr([[be.real('h%d%d' % (i, j), .5, 1.) for j in range(nq[1])] for i in range(nq[0])])
        for q in (kp, ka):
            q['h_nxny'] = q['rho_nxny'] = h
    kp['size'] = size if how == 'number' or what in ('fint', 'fext') else '+%d' % more
    kp['col0'] = row0
    if what not in ('fint', 'fext'):
        kp['row0'] = row0
    if what == 'cA':
        kp['aeromu'] = ka['aeromu'] = be.real('mu', .5, 2.)
    got = be.call(what, getattr(s, fn), **kp)
    ref = getattr(t, fn)(**ka)
    if what in ('fint', 'fext'):
        S.compare_vec(be, 'placed ' + what, got, {row0 + k: ref[k] for k in range(d.size)}, size)
    else:
        H = {}
        block(be, H, ref, row0, d.size)
        S.compare(be, 'placed ' + what, got, H, size)
    if 'c' in kw and 'kC' in what:
        be.raises('vector of another size', getattr(s, fn), size=size, c=c1, row0=row0, col0=row0)


def refused(be):
    MD = be.mod('panels.multidomain').MultiDomain
    doms, asm, alone = build(be, [(1, 2), (2, 1)], [(1, 2), (2, 1)])
    A, offs, size = assembled(be, doms, asm, (0, 1), (('SSxcte', 0, 1),))
    c = S.bshape(be, 'c', size - 1)
    be.raises('vector of another size', A.calc_kC, c=c)
    be.raises('vector of another size', A.calc_kG, c=c)
    be.raises('vector of another size', A.calc_kT, c=c)
    be.raises('assembly without connections', MD(asm).calc_kC)


def harnesses(tier):
    hs = []

    def h(name, fn, cost=2, **k):
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 200})
    two, Two = [(2, 1), (1, 2)], [(2, 3), (3, 2)]
    three, Three = [(1, 2), (2, 1), (2, 2)], [(3, 2), (2, 3), (3, 4)]
    chain = (('SSxcte', 0, 1), ('SSxcte', 1, 2))
    for q, (what, c) in enumerate((('kC', False), ('kC', True), ('kG', False), ('kG', True), ('kM', False), ('kT', True))):
        nm = what + ('-state' if c and what != 'kT' else '')
        h(nm + '-two', matrix, what=what, sizes=two, Sizes=Two, order=(0, 1) if q % 2 else (1, 0), with_c=c, given=q % 2 == 0)
        h(nm + '-three', matrix, 4, what=what, sizes=three if not c or tier != 'quick' else [(1, 2), (2, 1), (1, 1)], Sizes=Three,
          order=((2, 0, 1), (1, 2, 0), (0, 2, 1))[q % 3], with_c=c, curved=(1,), conns=chain)
    for q, what in enumerate(('kC', 'kG')):
        h(what + '-nonlinear', matrix, what=what, sizes=two, Sizes=Two, order=(q, 1 - q), with_c=True, how='nl', curved=(q,))
    for order in ((0, 1), (1, 0)):
        h('vectors-two-%d%d' % order, vectors, sizes=two, Sizes=Two, order=order, after=order[0])
    for q in range(len(LOADS)):
        one, other, rest = LOADS[q], LOADS[(q + 7) % 12], LOADS[(q + 3) % 12]
        h('loads-%d' % q, external, kinds=([one], [other], [rest, one] if q % 2 else []), order=((2, 0, 1), (1, 2, 0), (0, 1, 2))[q % 3], curved=(1,) if q % 2 else ())
    h('vectors-three', vectors, 4, sizes=[(1, 2), (2, 1), (1, 1)], Sizes=Three, order=(2, 0, 1), curved=(0,), conns=chain)
    for q, (what, nl) in enumerate((('uvw', None), ('strain', True), ('strain', False), ('stress', True), ('stress', False))):
        nm = what + {None: '', True: '-nl', False: '-lin'}[nl]
        h(nm, fields, what=what, sizes=three, Sizes=Three, order=((2, 0, 1), (0, 1, 2))[q % 2], grid=((2, 3), (3, 2))[q % 2], group='g0', nl=nl, curved=(0, 1) if q % 2 else ())
        h(nm + '-given', fields, what=what, sizes=three, Sizes=Three, order=((2, 0, 1), (0, 1, 2))[q % 2], grid=((2, 1), (1, 2))[q % 2], group='g0', nl=nl, gauss='both')
        h(nm + '-given-' + 'xy'[q % 2], fields, 4, what=what, sizes=[(1, 2), (2, 1), (1, 1)], Sizes=Three, order=(2, 1, 0), grid=(1, 1), group='g0', nl=nl, gauss='xy'[q % 2])
    for curved in (False, True):
        for q, what in enumerate(('kC', 'kCc', 'kCcte', 'kG', 'kGc', 'kT', 'kM', 'kMnum', 'kA', 'cA', 'fint', 'fext')):
            h('placed-%s-%s' % (what, 'cylinder' if curved else 'plate'), placed, what=what, m=2, n=1 if 'c' in what or what == 'kT' else 2, M=4, N=3, curved=curved,
              how='number' if (q + curved) % 2 else 'string')
    h('refused', refused)
    return hs
