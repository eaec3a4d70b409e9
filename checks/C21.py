"""What does not fit is refused, and nothing is read or written outside an array."""
MODULES = ['panels.shell', 'panels.multidomain', 'panels.stiffpanelbay', 'panels.bardell', 'panels.legendre_gauss_quadrature', 'panels.modelDB']
LEVEL = 'other'
CHECKED = ASAN = True
PLATE, CYL = 'plate_clpt_donnell_bardell', 'cylshell_clpt_donnell_bardell'
STACK = dict(stack=[0, 45], plyt=.01, laminaprop=(140., 9., .3, 5., 5., 3.), rho=1.2)


def PREPARE(loader):
    from engine import bounds
    bounds.prepare(loader)


def plain(be, model, m, n, part=False, **k):
    s = be.mod('panels.shell').Shell(a=1.3, b=.7, m=m, n=n, r=2. if model == CYL else None, **STACK)
    if part:
        s.x1, s.x2, s.y1, s.y2 = .1, .6, .2, .5
    for q, v in k.items():
        setattr(s, q, v)
    return s


def terms(be, tag='', hi=40, default=(3, 2)):
    return be.integer('m' + tag, 1, hi, default[0]), be.integer('n' + tag, 1, hi, default[1])


def place(be, own):
    """Size of the global matrix and where the shell starts in it."""
    return be.integer('size', 0, 20000, 30), be.integer('start', -5, 10000, 6)


def room(size, start, own):
    return [start >= 0, start + own <= size]


def points(be):
    return be.integer('nx', -2, 80, 4), be.integer('ny', -2, 80, 5)


def good(*ns):
    return [c for n in ns for c in (n >= 1, n <= 64)]


def field(be, shape, tag, default):
    return [be.integer('%s%d' % (tag, k), 0, 90, d) for k, d in enumerate(default)] + list(shape)


def matrices(be, model, what, given, part=False, NLgeom=False):
    """Every matrix of a shell."""
    m, n = terms(be)
    own = 3 * m * n
    if 'loads' in given:
        s = plain(be, model, m, n, part, Nxx=1., Nyy=2., Nxy=3., Nxx_cte=1., Nyy_cte=.5, Nxy_cte=.2)
    else:
        s = plain(be, model, m, n, part)
    kw = {}
    ok = [m <= 30, n <= 30]
    if 'place' in given:
        size, start = place(be, own)
        kw.update(size=size, row0=start, col0=start)
        ok += room(size, start, own)
    else:
        size = own
    vectors = what in ('kC', 'kG')
    if 'c' in given:
        N = be.integer('terms of c', 0, 20000, 30 if 'place' in given else 18)
        kw['c'] = be.sized(N)
        ok.append(N == size)
    if 'c_cte' in given:
        N = be.integer('terms of c_cte', 0, 20000, 30 if 'place' in given else 18)
        kw['c_cte'] = be.sized(N)
        ok.append(N == size)
    if NLgeom:
        kw['NLgeom'] = True
    if 'pd' in given:
        s.add_point_pd(.3, .2, 1., 2., 3., .1, .2, .3)
        s.add_distr_pd_fixed_x(.3, ku=1., kv=None, kw=None, funcu=lambda y: 1.)
        s.add_distr_pd_fixed_y(.3, ku=None, kv=None, kw=3., funcw=lambda y: 1.)
    numeric = part or NLgeom or what == 'kT' or 'c' in given or 'c_cte' in given
    nx, ny = None, None
    if 'points' in given:
        nx, ny = points(be)
        kw.update(nx=nx, ny=ny)
    if 'ABD' in given:
        shape = field(be, (6, 6), 'laminates', (4, 5))
        kw['ABDnxny'] = be.sized(*shape)
        ok += [shape[0] == nx, shape[1] == ny]
        numeric = True
    for key in ('h', 'rho'):
        if key in given:
            shape = field(be, (), key, (4, 5))
            kw[key + '_nxny'] = be.sized(*shape)
            ok += [shape[0] == nx, shape[1] == ny]
            numeric = True
    if numeric and nx is not None:
        ok += good(nx, ny)
    # where a mass matrix does not fit is found by the sparse matrices
    be.accepts(what, be.all(*ok), lambda: getattr(s, 'calc_' + what)(silent=True, finalize=False, **kw), False if what == 'kM' and 'place' in given else None)
    be.reach('done')


def constraint(be, model):
    m, n = terms(be)
    s = plain(be, model, m, n)
    be.accepts('constraint', be.all(m <= 30, n <= 30), lambda: s.calc_stiffness_point_constraint(.3, .2, phix=True, phiy=True))
    be.reach('done')


def rule(be):
    n, P, W = be.integer('n', -70, 200, 5), be.integer('points', 0, 100, 5), be.integer('weights', 0, 100, 6)
    fn = be.mod('panels.legendre_gauss_quadrature').get_points_weights
    be.accepts('rule', be.all(n >= 1, n <= 64, P >= n, W >= n), lambda: fn(n, be.sized(P), be.sized(W)))
    be.reach('done')


def flow(be, model, direction, part=False, given=()):
    m, n = terms(be)
    s = plain(be, model, m, n, part, flow=direction, beta=1., gamma=.5)
    s.nx, s.ny = points(be)
    ok = [m <= 30, n <= 30]
    kw, bad = {}, None
    if 'place' in given:
        size, start = place(be, 3 * m * n)
        kw.update(size=size, row0=start, col0=start)
        ok += room(size, start, 3 * m * n)
        bad = False     # found by the sparse matrices
    be.accepts('kA', be.all(s.nx <= 64, s.ny <= 64, *ok), lambda: s.calc_kA(silent=True, finalize=False, **kw), bad)
    be.accepts('cA', be.all(*ok), lambda: s.calc_cA(1., silent=True, finalize=False, **kw), bad)
    be.reach('done')


def fint(be, model, given, part=False):
    m, n = terms(be)
    own = 3 * m * n
    s = plain(be, model, m, n, part)
    size, start = place(be, own)
    N = be.integer('terms of c', 0, 20000, 30)
    nx, ny = points(be)
    kw = dict(size=size, col0=start, nx=nx, ny=ny)
    ok = [m <= 30, n <= 30, N == size] + room(size, start, own) + good(nx, ny)
    if 'ABD' in given:
        shape = field(be, (6, 6), 'laminates', (4, 5))
        kw['ABDnxny'] = be.sized(*shape)
        ok += [shape[0] == nx, shape[1] == ny]
    be.accepts('fint', be.all(*ok), lambda: s.calc_fint(be.sized(N), silent=True, **kw))
    be.reach('done')


def fext(be, model, loads):
    m, n = terms(be)
    own = 3 * m * n
    s = plain(be, model, m, n)
    size, start = place(be, own)
    P, Q, R = be.some(1.), be.some(2.), be.some(3.)
    if loads == 'points':
        s.add_point_load(.3, .2, P, Q, R)
        s.add_point_load(.3, .2, P, Q, R, cte=False)
        s.add_point_pd(.3, .2, P, Q, R, P, Q, R)
    elif loads == 'lines of x':
        s.add_distr_load_fixed_x(.3, funcx=lambda y: P, funcy=lambda y: P, funcz=lambda y: Q)
        s.add_distr_pd_fixed_x(.3, ku=1., kv=2., kw=3., funcu=lambda y: P, funcv=lambda y: P, funcw=lambda y: P)
    else:
        s.add_distr_load_fixed_y(.3, funcx=lambda y: P, funcy=lambda y: P, funcz=lambda y: Q)
        s.add_distr_pd_fixed_y(.3, ku=1., kv=2., kw=3., funcu=lambda y: P, funcv=lambda y: P, funcw=lambda y: P)
    ok = [m <= 30, n <= 30] + room(size, start, own)
    be.accepts('fext', be.all(*ok), lambda: s.calc_fext(size=size, col0=start, silent=True))
    be.reach('done')


def fields(be, model, what, shape):
    m, n = terms(be)
    own = 3 * m * n
    s = plain(be, model, m, n)
    s.out_num_cores = be.integer('cores', 1, 200, 3)
    N = be.integer('terms of c', 0, 20000, 18)
    kw = {}
    ok = [m <= 30, n <= 30, N == own]
    if shape == 'grid':
        kw.update(gridx=be.integer('gridx', 1, 400, 3), gridy=be.integer('gridy', 1, 400, 4))
    elif shape == 'line':
        X, Y = be.integer('xs', 0, 2000, 7), be.integer('ys', 0, 2000, 7)
        kw.update(xs=be.sized(X), ys=be.sized(Y))
        ok.append(X == Y)
        be.assume(X >= 1)
    else:
        X, Y = field(be, (), 'xs', (2, 3)), field(be, (), 'ys', (2, 3))
        kw.update(xs=be.sized(*X), ys=be.sized(*Y))
        ok += [X[0] == Y[0], X[1] == Y[1]]
        be.assume(be.all(*[k >= 1 for k in X]))
    if what == 'stress':
        be.assume(be.all(m <= 30, n <= 30))
        s._rebuild()    # the laminate is that of a shell already calculated with
    bad = be.any(be.no(be.all(*ok[:2], *ok[3:])), N < own)
    be.accepts(what, be.all(*ok), lambda: getattr(s, what)(be.sized(N), **kw), bad)
    be.reach('done')


def kernel_fields(be, model, what):
    """The compiled fields, as an assembly or a bay calls them."""
    m, n = terms(be)
    s = plain(be, model, m, n)
    N, X, Y, cores = be.integer('terms of c', 0, 20000, 18), be.integer('xs', 1, 2000, 7), be.integer('ys', 0, 2000, 7), be.integer('cores', 1, 200, 3)
    ok = [m <= 30, n <= 30, N == 3 * m * n, X == Y]
    fn = getattr(be.mod('panels.modelDB').db[model]['field'], what)
    a = (be.sized(N), s, be.sized(X), be.sized(Y), cores) + ((1,) if what == 'fstrain' else ())
    bad = be.any(be.no(be.all(*ok[:2])), N < 3 * m * n, be.no(ok[3]))
    be.accepts(what, be.all(*ok), lambda: fn(*a), bad)
    be.reach('done')


def two(be, model, third=False, group='g'):
    shells = []
    for k in '123'[:3 if third else 2]:
        m, n = terms(be, k, 40, dict(zip('123', ((3, 2), (2, 4), (2, 2))))[k])
        s = plain(be, model, m, n)
        s.group = group
        shells.append(s)
    return shells


def limits(shells):
    return [c for s in shells for c in (s.m <= 30, s.n <= 30)]


CONN = {'SSycte': dict(ycte1=.7, ycte2=0.), 'SSxcte': dict(xcte1=1.3, xcte2=0.), 'SB': {}, 'BFycte': dict(ycte1=.7, ycte2=0.),
        'BFxcte': dict(xcte1=1.3, xcte2=0.), 'SB_TSL': dict(tsl_type='linear')}


def assembly(be, shells):
    return be.mod('panels.multidomain').MultiDomain(shells)


def connection(be, kind, model=PLATE, order=(0, 1)):
    shells = two(be, model, third=True)
    ok = limits([shells[k] for k in order])
    md = assembly(be, shells)
    conn = [dict(p1=shells[order[0]], p2=shells[order[1]], func=kind, **CONN[kind])]
    be.accepts('connection', be.all(*ok), lambda: md.get_kC_conn(conn=conn, finalize=False))
    be.reach('done')


def joined(be, what, given=(), model=PLATE):
    shells = two(be, model)
    ok = limits(shells)
    md = assembly(be, shells)
    conn = [dict(p1=shells[0], p2=shells[1], func='SSycte', **CONN['SSycte'])]
    size = 3 * (shells[0].m * shells[0].n + shells[1].m * shells[1].n)
    a, kw = (), {}
    if 'c' in given:
        N = be.integer('terms of c', 0, 20000, 42)
        kw['c'] = be.sized(N)
        ok.append(N == size)
    if 'NLgeom' in given:
        kw['NLgeom'] = True
    if what == 'fext':
        for s in shells:
            s.add_point_load(.3, .2, be.some(1.), be.some(2.), be.some(3.))
    if what in ('kC', 'kT', 'fint'):
        md.conn = conn
    if what != 'fint' and what != 'fext':
        kw['finalize'] = False
    be.accepts(what, be.all(*ok), lambda: getattr(md, 'calc_' + what)(silent=True, **kw))
    be.reach('done')


def joined_fields(be, what, model=PLATE):
    shells = two(be, model)
    ok = limits(shells)
    md = assembly(be, shells)
    md.out_num_cores = 4    # any number of cores: see the fields of one shell
    size = 3 * (shells[0].m * shells[0].n + shells[1].m * shells[1].n)
    N = be.integer('terms of c', 0, 20000, 42)
    if 'gauss' in what:
        g = dict(x_gauss=be.sized(be.integer('xs', 1, 400, 3)), y_gauss=be.sized(be.integer('ys', 1, 400, 4)))
    else:
        g = dict(gridx=be.integer('gridx', 1, 400, 3), gridy=be.integer('gridy', 1, 400, 4))
    if 'stress' in what:
        be.assume(be.all(*ok))
        for s in shells:
            s._rebuild()
    be.accepts(what, be.all(N == size, *ok), lambda: getattr(md, what)(be.sized(N), 'g', **g), be.any(be.no(be.all(*ok)), N < size))
    be.reach('done')


def bay(be, what, kind, curved=False, given=(), region=None):
    m, n = terms(be)
    b = be.mod('panels.stiffpanelbay').StiffPanelBay()
    b.a, b.b, b.r, b.m, b.n = 1.3, .7, 2. if curved else None, m, n
    b.stack, b.plyt, b.laminaprop, b.rho = [0, 45], .01, (140., 9., .3, 5., 5., 3.), 1.2
    b.model = CYL if curved else PLATE
    panels = [b.add_panel(0., .3), b.add_panel(.3, .7)]
    for p in panels:
        p.Nxx = 1.
    ok = [m <= 30, n <= 30]
    size = skin = 3 * m * n
    kw = dict(bb=.1, bstack=[0], bplyt=.01, blaminaprop=(140., 9., .3, 5., 5., 3.))
    if kind == '2d':
        own = []
        for k, ys in enumerate((.3, 0.)):
            mf, nf = terms(be, 'f%d' % k, 40, ((2, 3), (4, 2))[k])
            st = b.add_bladestiff2d(ys, bf=.2, fstack=[0], fplyt=.01, flaminaprop=(140., 9., .3, 5., 5., 3.), mf=mf, nf=nf, **kw)
            st.flange.Nxx = 1.
            ok += [mf <= 30, nf <= 30]
            own.append(3 * mf * nf)
            size = size + 3 * mf * nf
    else:
        b.add_bladestiff1d(.3, bf=.2, fstack=[0], fplyt=.01, flaminaprop=(140., 9., .3, 5., 5., 3.), Fx=1., **kw)
    k, bad = {}, None
    if 'points' in given:
        for p in panels:
            p.nx, p.ny = points(be)
        ok += [p.nx <= 64, p.ny <= 64]
    if 'c' in given:
        N = be.integer('terms of c', 0, 20000, 18 if kind == '1d' else 60)
        k['c'] = be.sized(N)
        ok.append(N == size)
    if what == 'fext':
        P = be.some(1.)
        b.forces_skin.append([.1, .2, P, P, P])
        if kind == '2d':
            b.bladestiff2ds[1].forces_flange.append([.1, .2, P, P, P])
    if what == 'uvw':
        b.out_num_cores = 4
        grid = dict(gridx=be.integer('gridx', 1, 400, 3), gridy=be.integer('gridy', 1, 400, 4))
        c = k.pop('c')
        fn = (lambda: b.uvw_skin(c, **grid)) if region is None else (lambda: b.uvw_stiffener(c, region, 'flange', **grid))
        at = 0 if region is None else 2 * region + 2
        bad = be.no(be.all(ok[at], ok[at + 1], N == size))
    elif what == 'kA':
        b.beta, b.gamma = 1., .5
        fn = lambda: b.calc_kA(silent=True)
    elif what == 'cA':
        fn = lambda: b.calc_cA(silent=True)
        b.Mach, b.rho_air, b.V, b.speed_sound = 2., 1., 700., 340.
    else:
        fn = lambda: getattr(b, 'calc_' + what)(silent=True, **k)
    be.accepts(what, be.all(*ok), fn, bad)
    be.reach('done')


EXPLANATION = ('The Python layer is executed, and every compiled kernel it calls interpreted from its current Cython source, with all sizes as symbolic integers and arrays known by their '
               'shape only; a loop is executed once for an arbitrary iteration. z3 decides, for all sizes at once, that every element read or written lies inside its array, every '
               'index of a series or rule inside what exists and no C int overflows, and that a call returns exactly when everything given fits (sizes, offset, lengths and shapes, terms, '
               'points) and raises otherwise. Counterexamples are replayed on a build with address sanitizer and bound checks.')
BOUNDS = ('1 to 40 terms along each direction (of each of up to three shells), -2 to 80 points of a rule, vectors and matrices of up to 20000, offsets from -5 to 10000, laminate and thickness fields of up to 90 by 90, '
          'up to 2000 scattered points, 90 by 90 tables or 400 by 400 grids, 1 to 200 cores (4 for assemblies and bays): every combination, not a selection')
OUTSIDE = ('the values of what is calculated (C04 to C16); 0 or fewer terms; the inside of numpy, scipy and of the C++ sources of the shape functions and rules, which C01 to C03 execute for every index; '
           'an index outside 0..29 given to the Python-level shape functions; the refusal of a mass or aerodynamic matrix without room, left to scipy (what they read and write is decided); '
           'one laminate, geometry and set of loads each (values do not decide what is accessed); memory that cannot be allocated')
FUNCTIONS = ['Shell.calc_kC, calc_kG, calc_kT, calc_kM, calc_kA, calc_cA, calc_fint, calc_fext, calc_stiffness_point_constraint, uvw, strain, stress, get_size', 'check_c, check_room, check_points', 'shell_fext',
             'fk0, fkG0, fkM, fcA and fkC_num, fkG_num, fkM_num, fkAx_num, fkAy_num, calc_fint of both models', 'clpt_bardell_field.fuvw, fstrain, fg and the functions below them',
             'connections.kCpd, kCSSxcte, kCSSycte, kCBFxcte, kCBFycte, kCSB', 'MultiDomain.get_kC_conn, calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext, uvw, strain, stress and their _gauss_points',
             'StiffPanelBay.calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fext, uvw_skin, uvw_stiffener', 'bladestiff1d_clt_donnell_bardell, bladestiff2d_clt_donnell_bardell', 'get_points_weights']
ASSUMPTIONS = ['array contents do not decide which elements are accessed, or do so through a free choice', 'numpy functions follow their documented shapes', 'structsolve takes and gives matrices of the same shape',
               'shape functions exist for indices 0..29 and rules for 1..64 points (C01, C03)']


def harnesses(tier):
    out = []

    def add(name, fn, **params):
        out.append(dict(name=name, fn=fn, params=params, max_paths=400, reach=('done',)))
    for model, t in ((PLATE, 'plate'), (CYL, 'cyl')):
        add('kC-' + t, matrices, model=model, what='kC', given=('place',))
        add('kC-loads-' + t, matrices, model=model, what='kC', given=('place', 'loads'))
        add('kC-c-' + t, matrices, model=model, what='kC', given=('place', 'c', 'points'))
        add('kC-NLgeom-' + t, matrices, model=model, what='kC', given=('c', 'points'), NLgeom=True)
        add('kC-c_cte-' + t, matrices, model=model, what='kC', given=('place', 'c_cte', 'points'))
        add('kC-ABD-' + t, matrices, model=model, what='kC', given=('points', 'ABD'))
        add('kC-part-' + t, matrices, model=model, what='kC', given=('points',), part=True)
        add('kG-' + t, matrices, model=model, what='kG', given=('place', 'loads'))
        add('kG-c-' + t, matrices, model=model, what='kG', given=('place', 'c', 'points'))
        add('kG-ABD-' + t, matrices, model=model, what='kG', given=('c', 'points', 'ABD'), NLgeom=True)
        add('kM-' + t, matrices, model=model, what='kM', given=())
        add('kM-h-' + t, matrices, model=model, what='kM', given=('points', 'h'))
        add('kM-rho-' + t, matrices, model=model, what='kM', given=('points', 'h', 'rho'))
        add('kM-part-' + t, matrices, model=model, what='kM', given=('points',), part=True)
        add('kM-place-' + t, matrices, model=model, what='kM', given=('place',))
        add('kC-pd-' + t, matrices, model=model, what='kC', given=('place', 'pd'))
        add('kT-' + t, matrices, model=model, what='kT', given=('place', 'c', 'points'))
        for d in 'xy':
            add('flow-%s-%s' % (d, t), flow, model=model, direction=d)
        add('fint-' + t, fint, model=model, given=())
        add('fint-ABD-' + t, fint, model=model, given=('ABD',))
    add('flow-place', flow, model=CYL, direction='x', given=('place',))
    add('constraint', constraint, model=PLATE)
    add('rule', rule)
    for l in ('points', 'lines of x', 'lines of y'):
        add('fext-' + l.replace(' ', '-'), fext, model=PLATE, loads=l)
    for what in ('uvw', 'strain', 'stress'):
        for shape in ('grid', 'line', 'table'):
            add('%s-%s' % (what, shape), fields, model=PLATE if shape == 'line' else CYL, what=what, shape=shape)
    for what in ('fuvw', 'fstrain'):
        add(what, kernel_fields, model=PLATE, what=what)
    for kind in CONN:
        add('connect-' + kind, connection, kind=kind)
    add('connect-back', connection, kind='SSxcte', order=(2, 0))
    for what, given in (('kC', ()), ('kC', ('c', 'NLgeom')), ('kG', ()), ('kG', ('c',)), ('kM', ()), ('kT', ('c',)), ('fint', ('c',)), ('fext', ())):
        add('-'.join(('joined', what) + given), joined, what=what, given=given)
    for what in ('uvw', 'strain', 'stress', 'uvw_gauss_points', 'strain_gauss_points', 'stress_gauss_points'):
        add('joined-' + what.replace('_gauss_points', '-gauss'), joined_fields, what=what)
    for kind in ('1d', '2d'):
        for what, given in (('kC', ()), ('kC', ('points',)), ('kG', ()), ('kG', ('c',)), ('kM', ()), ('kA', ()), ('cA', ()), ('fext', ()), ('uvw', ('c',))):
            if kind == '1d' and what == 'kG' and given:
                continue
            add('-'.join(('bay', kind, what) + given), bay, what=what, kind=kind, given=given, curved=what in ('kG', 'uvw'))
    for q in range(2):
        add('bay-flange-uvw-%d' % q, bay, what='uvw', kind='2d', given=('c',), region=q)
    return out
