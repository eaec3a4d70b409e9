"""C20: contour plots draw the requested field where it is, and leave what was calculated before as it was."""
from . import spec as S
from .C10 import KEYS
from .C11 import assembled, build, part
from .C15 import make as make_bay

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.plot_shell', 'panels.multidomain', 'panels.stiffpanelbay']
FUNCTIONS = ['plot_shell', 'MultiDomain.plot', 'StiffPanelBay.plot_skin, plot_stiffener', 'the methods and kernels of the fields behind them']
BOUNDS = ('2 by 2 to 2 by 3 points on the default grid or anywhere, up to three panels in two groups, bays with two stiffeners, (1,2) and (2,1) terms (replayed with up to (4,3)); '
          'every displacement vector, geometry, edge flag, laminate, offset, scaling factor and colour limits; every drawn coordinate and value, every level')
OUTSIDE = ('how matplotlib turns coordinates, values and levels into an image (recorded where it is asked to; replayed with the real one); colours, fonts and ticks; '
           'rounding of IEEE doubles; more points, panels and terms than the bound')
EXPLANATION = ('The plotting functions are executed symbolically with recorders in the place of matplotlib; z3 decides that every drawn coordinate is the place of its point in the '
               'shell plus the offsets of the panel, and the scaled displacements when asked for, every drawn value the requested component there, the levels evenly spaced between the given limits or '
               'those of the field over everything drawn (on every order of the values), and that the fields calculated before, with their points, are the same afterwards.')
ASSUMPTIONS = ['doubles are reals', 'C10, C11, C15 (fields at given points)']


def of(log, kind):
    return [r for r in log if r.kind == kind]


def equal(be, label, got, want):
    be.true(label + ': shape', tuple(got.shape) == tuple(want.shape))
    for k, (g, w) in enumerate(zip(got.reshape(-1), want.reshape(-1))):
        be.eq('%s[%d]' % (label, k), g, w)


def levels(be, label, rec, lo, hi, num):
    lv = rec.kw.get('levels', rec.args[3] if len(rec.args) > 3 else None)
    be.true(label + ': levels', lv is not None and len(lv) == num)
    want = be.np.linspace(lo, hi, num)
    for k in range(num):
        be.eq('%s: level[%d]' % (label, k), lv[k], want[k])


def limits(be, limited, fields):
    """Arguments, and the limits to be used."""
    kw = {}
    if 'min' in limited:
        kw['vecmin'] = be.real('vecmin', -90., -80.)
    if 'max' in limited:
        kw['vecmax'] = be.real('vecmax', 80., 90.)

    def find():
        vals = [v for f in fields() for v in f.reshape(-1)]
        lo, hi = kw.get('vecmin'), kw.get('vecmax')
        if lo is None:
            lo = vals[0]
            for v in vals[1:]:
                lo = lo if lo <= v else v
        if hi is None:
            hi = vals[0]
            for v in vals[1:]:
                hi = hi if hi >= v else v
        return lo, hi
    return kw, find


def component(vec):
    return 'uvw' if vec in KEYS['uvw'] else 'strain' if vec in KEYS['strain'] else 'stress'


def points(be, dom, tag=''):
    X = be.arr([[be.real('px%s%d' % (tag, q), lo, lo + .1) for q, lo in enumerate(r)] for r in ((.05, .05), (.25, .25))]).T
    Y = be.arr([[be.real('py%s%d%d' % (tag, p, q), lo, lo + .1) for q, lo in enumerate((.05, .25))] for p in (0, 1)]).T
    return X, Y


def orientation(be, log, ax, invert_y):
    be.true('horizontal axis inverted once', len([r for r in of(log, 'invert_xaxis') if r.on is ax]) == 1)
    be.true('vertical axis inverted when asked for', len([r for r in of(log, 'invert_yaxis') if r.on is ax]) == (1 if invert_y else 0))


def saved(be, log, given, filename):
    files = [r.args[0] for r in of(log, 'savefig')]
    be.true('one file written unless axes are given', len(files) == (0 if given is not None else 1))
    if files and filename:
        be.true('file of the given name', files == [filename])


def drawn(be, log, out, given, invert_y, filename):
    rec = of(log, 'contourf')
    be.true('one contour', len(rec) == 1)
    ax = rec[0].on
    be.true('axes returned', out is ax and (given is None or ax is given))
    orientation(be, log, ax, invert_y)
    saved(be, log, given, filename)
    return rec[0]


FIELDS = ['u', 'v', 'w', 'phix', 'phiy', 'exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy', 'Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy']


def shell(be, m, n, M, N, curved, vec, at='grid', deform=False, limited=('min', 'max'), offset=True, axes=False, filename='', invert_y=False, nl=None, before=(), colorbar=False, many=3):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    new = lambda: S.make_shell(be, dom, lam, out_num_cores=2)
    s, t = new(), new()
    s.name = 'panel seven'
    c, c0 = S.bshape(be, 'c', dom.size), S.bshape(be, 'c0', dom.size)
    what = component(vec)
    for x in (s, t):
        x._rebuild()
    kw = {}
    if at == 'grid':
        pts = dict(gridx=2, gridy=many)
    else:
        X, Y = points(be, dom)
        pts = dict(xs=X, ys=Y)
        keep = list(X.reshape(-1)) + list(Y.reshape(-1))
    old = []
    if before:
        X0, Y0 = points(be, dom, 'b')
        for op in before:
            mesh, res = be.call(op, getattr(s, op), c0, xs=X0, ys=Y0)
        old = [(k, s.fields[k].copy()) for op in before for k in KEYS[op]] + [(k, s.plot_mesh[k].copy()) for k in ('Xs', 'Ys')]
    kw.update(pts)
    nlkw = {} if nl is None else {'NLgeom': nl}
    kw.update(nlkw)
    mesh, res = be.call(what, getattr(t, what), c, **(dict(pts, **nlkw) if what != 'uvw' else pts))
    field, Xs, Ys = res[vec], mesh['Xs'], mesh['Ys']
    x, y = Ys, Xs
    if offset:
        kw.update(plot_offset_x=be.real('ox', -2., 2.), plot_offset_y=be.real('oy', -2., 2.))
        x, y = x + kw['plot_offset_y'], y + kw['plot_offset_x']
    if deform:
        kw.update(deform_u=True)
        sf = 100.
        if deform != 'default':
            kw['deform_u_sf'] = sf = be.real('sf', .01, .02)
        _, r2 = be.call('uvw', new().uvw, c, **pts)
        x, y = x + sf * r2['v'], y + sf * r2['u']
    lkw, find = limits(be, limited, lambda: [field])
    kw.update(lkw)
    with be.plots() as log:
        given = be.axes() if axes else None
        out = be.call('plot', be.mod('panels.plot_shell').plot_shell, s, c, vec=vec, ax=given, filename=filename, invert_y=invert_y, num_levels=3, colorbar=colorbar, **kw)
    rec = drawn(be, log, out, given, invert_y, filename)
    equal(be, 'horizontal place', rec.args[0], x)
    equal(be, 'vertical place', rec.args[1], y)
    equal(be, 'drawn ' + vec, rec.args[2], field)
    lo, hi = find()
    levels(be, 'drawn', rec, lo, hi, 3)
    bars = of(log, 'colorbar')
    be.true('colour bar', len(bars) == (1 if colorbar else 0))
    if colorbar:
        tk = bars[0].kw['ticks']
        be.true('colour bar: two ticks', len(tk) == 2)
        be.eq('colour bar: lowest', tk[0], lo)
        be.eq('colour bar: highest', tk[1], hi)
    for k, v in old:
        equal(be, 'kept ' + k, s.plot_mesh[k] if k in ('Xs', 'Ys') else s.fields[k], v)
    if at != 'grid':
        for k, (v, w) in enumerate(zip(list(X.reshape(-1)) + list(Y.reshape(-1)), keep)):
            be.eq('given points unchanged[%d]' % k, v, w)


def assembly(be, vec, group='g0', at='grid', limited=('min', 'max'), curved=(), axes=False, filename='', invert_y=False, identify=False, boundaries=False, only=False,
             order=(0, 1, 2), ny=2):
    sizes, Sizes = [(2, 1), (1, 2), (1, 1)], [(4, 3), (3, 4), (3, 3)]
    doms, asm, alone = build(be, sizes, Sizes, curved)
    for k, s in enumerate(asm):
        s.x0, s.y0 = be.real('x0_%d' % k, -2., 2.), be.real('y0_%d' % k, -2., 2.)
    A, offs, size = assembled(be, doms, asm, order, ())
    c = S.bshape(be, 'c', size)
    for s in asm + alone:
        s._rebuild()
    what = component(vec)
    kw = {}
    if at == 'grid':
        kw.update(gridx=2, gridy=ny)
    elif at == 'points':
        kw.update(zip(('xs', 'ys'), points(be, doms[0])))
        if be.dev('plot-points'):
            kw.update(gridx=2, gridy=ny)
    elif at == 'gauss':
        kw.update(use_gauss_points=True, x_gauss=be.vec([be.real('gx%d' % q, lo, lo + .1) for q, lo in enumerate((.05, .25))]),
                  y_gauss=be.vec([be.real('gy%d' % q, lo, lo + .1) for q, lo in enumerate((.05, .25))]))
    parts = []
    for k in order:
        if asm[k].group != group:
            continue
        t = alone[k]
        if at == 'points' and not be.dev('plot-points'):
            pts = dict(xs=kw['xs'], ys=kw['ys'])
        elif at == 'gauss':
            X, Y = be.np.meshgrid(kw['x_gauss'], kw['y_gauss'])
            pts = dict(xs=X, ys=Y)
        else:
            pts = dict(gridx=kw['gridx'], gridy=kw['gridy'])
        mesh, res = be.call(what, getattr(t, what), part(be, c, offs[k], doms[k].size), **pts)
        parts.append((k, mesh['Xs'] + asm[k].x0, mesh['Ys'] + asm[k].y0, res[vec]))
    lkw, find = limits(be, limited, lambda: [p[3] for p in parts])
    kw.update(lkw)
    before = [(s, dict(s.fields), dict(s.plot_mesh)) for s in asm]
    with be.plots() as log:
        given = be.axes() if axes else None
        out, data = be.call('plot', A.plot, c, group, vec=vec, ax=given, filename=filename, invert_y=invert_y, num_levels=3, identify=identify, show_boundaries=boundaries,
                            calc_data_only=only, **kw)
    lo, hi = find()
    be.true('data: two limits', sorted(data) == ['vecmax', 'vecmin'])
    be.eq('data: lowest', data['vecmin'], lo)
    be.eq('data: highest', data['vecmax'], hi)
    if only:
        be.true('nothing drawn', out is None and not log)
        return
    rec = of(log, 'contourf')
    be.true('one contour for every panel of the group', len(rec) == len(parts))
    be.true('axes returned', all(r.on is out for r in rec) and (given is None or out is given))
    orientation(be, log, out, invert_y)
    saved(be, log, given, filename)
    for r, (k, y, x, f) in zip(rec, parts):
        equal(be, 'panel %d: horizontal place' % k, r.args[0], x)
        equal(be, 'panel %d: vertical place' % k, r.args[1], y)
        equal(be, 'panel %d: drawn %s' % (k, vec), r.args[2], f)
        levels(be, 'panel %d' % k, r, lo, hi, 3)
    names = [r for r in of(log, 'text') if r.on is out]
    be.true('panels identified when asked for', len(names) == (len(parts) if identify else 0))
    for r, (k, y, x, f) in zip(names, parts):
        be.eq('name of panel %d: horizontal place' % k, r.args[0], asm[k].y0 + doms[k].b / 2)
        be.eq('name of panel %d: vertical place' % k, r.args[1], asm[k].x0 + doms[k].a / 2)
        be.true('name of panel %d' % k, r.args[2] == 'P %02d' % (list(order).index(k) + 1))
    lines = [r for r in of(log, 'plot') if r.on is out]
    be.true('four borders for every panel when asked for', len(lines) == (4 * len(parts) if boundaries else 0))
    for q, (k, y, x, f) in enumerate(parts if boundaries else ()):
        y1, x1 = asm[k].y0, asm[k].x0
        y2, x2 = y1 + doms[k].b, x1 + doms[k].a
        want = [((y1, y2), (x1, x1)), ((y1, y2), (x2, x2)), ((y1, y1), (x1, x2)), ((y2, y2), (x1, x2))]
        for z, (r, (h, v)) in enumerate(zip(lines[4 * q:], want)):
            for w in (0, 1):
                be.eq('border %d of panel %d: horizontal' % (z, k), r.args[0][w], h[w])
                be.eq('border %d of panel %d: vertical' % (z, k), r.args[1][w], v[w])
    for s, f, mesh in before:
        be.true('panels as they were', all(s.fields[k] is f[k] for k in f) and all(s.plot_mesh[k] is mesh[k] for k in mesh))


def bay(be, vec, where, layout='b2d-flange', at='grid', deform=False, limited=('min', 'max'), axes=False, filename='', invert_y=False, before=False, curved=False, name='bay two', ny=3):
    B = make_bay(be, layout, 1, 2, 3, 4, curved=curved)
    T = make_bay(be, layout, 1, 2, 3, 4, curved=curved)
    b, t = B.bay, T.bay
    b.name = name
    c, c0 = S.bshape(be, 'c', B.size), S.bshape(be, 'c0', B.size)
    for x in (b, t):
        x._rebuild()
    flanges = [k for k, st in enumerate(b.stiffeners) if st in b.bladestiff2ds and st.flange is not None]
    si = flanges[where - 1] if where else None

    def uvw(x, c, si=si, **kw):
        return be.call('uvw', x.uvw_skin, c, **kw) if si is None else be.call('uvw', x.uvw_stiffener, c, si, **kw)
    a, w = B.dom.a, B.dom.b if si is None else b.stiffeners[si].flange.b
    if at == 'grid':
        kw = dict(gridx=2, gridy=ny)
        X, Y = be.np.meshgrid(be.np.linspace(0, a, 2), be.np.linspace(0, w, ny))
    else:
        X, Y = points(be, None)
        kw = dict(xs=X, ys=Y)
    keep = list(X.reshape(-1)) + list(Y.reshape(-1))
    old = []
    if before:
        X0, Y0 = points(be, None, 'b')
        uvw(b, c0, si=flanges[0] if before == 'flange' else None, xs=X0, ys=Y0)
        old = [(k, getattr(b, k).copy()) for k in ('u', 'v', 'w', 'phix', 'phiy', 'Xs', 'Ys')]
    res = dict(zip(('u', 'v', 'w', 'phix', 'phiy'), uvw(t, c, xs=X, ys=Y)))
    field = res[vec]
    x, y = Y, X
    if deform:
        sf = 100.
        kw['deform_u'] = True
        if deform != 'default':
            kw['deform_u_sf'] = sf = be.real('sf', .01, .02)
        x, y = x + sf * res['v'], y + sf * res['u']
    lkw, find = limits(be, limited, lambda: [field])
    kw.update(lkw)
    with be.plots() as log:
        given = be.axes() if axes else None
        kw.update(vec=vec, ax=given, filename=filename, invert_y=invert_y, num_levels=3, silent=True)
        out = be.call('plot', b.plot_skin, c, **kw) if si is None else be.call('plot', b.plot_stiffener, c, si, **kw)
    rec = drawn(be, log, out, given, invert_y, filename)
    equal(be, 'horizontal place', rec.args[0], x)
    equal(be, 'vertical place', rec.args[1], y)
    equal(be, 'drawn ' + vec, rec.args[2], field)
    lo, hi = find()
    levels(be, 'drawn', rec, lo, hi, 3)
    for k, v in old:
        equal(be, 'kept ' + k, getattr(b, k), v)
    if not before:
        # the fields left behind are at the points left behind
        equal(be, 'points of the fields: x', b.Xs, X)
        equal(be, 'points of the fields: y', b.Ys, Y)
    if at != 'grid':
        for k, (v, w) in enumerate(zip(list(X.reshape(-1)) + list(Y.reshape(-1)), keep)):
            be.eq('given points unchanged[%d]' % k, v, w)


def refused(be):
    dom = S.Dom(be, 1, 2)
    s = S.make_shell(be, dom, S.Lam(be), out_num_cores=2)
    s._rebuild()
    c = S.bshape(be, 'c', dom.size)
    B = make_bay(be, 'b2d-flange', 1, 2, 1, 2)
    cb = S.bshape(be, 'cb', B.size)
    B.bay._rebuild()
    kw = dict(gridx=2, gridy=2, save=False, vecmin=-1., vecmax=1.)
    ps = be.mod('panels.plot_shell').plot_shell
    with be.plots() as log:
        for vec in ('q', 'W', 'wxx'):
            be.raises('no such field', ps, s, c, vec=vec, **kw)
            be.raises('no such field', B.bay.plot_skin, cb, vec=vec, **kw)
            be.raises('no such field', B.bay.plot_stiffener, cb, 0, vec=vec, **kw)
        be.raises('not axes', ps, s, c, ax='here', **kw)
        be.raises('not axes', B.bay.plot_skin, cb, ax='here', **kw)
        be.raises('not axes', B.bay.plot_stiffener, cb, 0, ax='here', **kw)
        be.true('nothing drawn', not of(log, 'contourf') and not of(log, 'savefig'))


def harnesses(tier):
    hs = []
    quick = tier == 'quick'

    def h(label, fn, cost=3, **k):
        hs.append({'name': label, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 200, 'max_paths': 400})
    for q, vec in enumerate(FIELDS):
        cur = q % 2 == 0
        mn = dict(m=1 + q % 2, n=2 - q % 2, M=4, N=3)
        h('shell-' + vec, shell, vec=vec, curved=cur, at=('grid', 'points')[q % 2], deform=(False, True, 'default')[q % 3], offset=q % 2 == 0, axes=q % 4 == 1,
          filename='' if q % 3 else 'there.png', invert_y=q % 2 == 1, before=((), ('uvw',), ('strain', 'uvw'), ('uvw', 'stress'))[q % 4], colorbar=q % 5 == 0,
          nl=None if component(vec) == 'uvw' else (None, True, False)[q % 3], **mn)
        h('shell-%s-2' % vec, shell, vec=vec, curved=not cur, at=('points', 'grid')[q % 2], deform=(True, False)[q % 2], offset=q % 2 == 1, before=(component(vec),), nl=q % 2 == 0 if component(vec) != 'uvw' else None, **mn)
        h('assembly-' + vec, assembly, vec=vec, group=('g0', 'g1')[q % 2], at=('grid', 'gauss')[q // 2 % 2], curved=((), (0,), (0, 1, 2))[q % 3], axes=q % 4 == 1, filename='' if q % 3 else 'there.png',
          invert_y=q % 2 == 1, identify=q % 2 == 0 and q // 2 % 2 == 0, boundaries=q % 3 == 1 and q // 2 % 2 == 0, order=((0, 1, 2), (2, 0, 1))[q % 2])
    # limits taken from the field
    for vec in ('w', 'exx') if quick else ('w', 'u', 'exx', 'Mxy'):
        for z, lim in enumerate(((), ('min',), ('max',))):
            h('shell-%s-limits-%d' % (vec, z), shell, vec=vec, curved=True, m=1, n=1, M=4, N=3, limited=lim, many=2, at=('points', 'grid')[z % 2], nl=None if vec in 'uw' else False)
            h('assembly-%s-limits-%d' % (vec, z), assembly, 60, vec=vec, group='g1' if not z else 'g0', limited=lim, at=('gauss', 'grid')[z % 2], only=z == 1)
    for z, lim in enumerate(((), ('min',), ('max',))):
        h('bay-limits-%d' % z, bay, 20, vec='w', where=z % 2, limited=lim, ny=2)
    h('assembly-points', assembly, vec='w', at='points')
    h('assembly-borders', assembly, vec='w', boundaries=True, identify=True, order=(2, 1, 0))
    for q, vec in enumerate(FIELDS[:5]):
        for z, (where, layout) in enumerate(((0, 'b1d-both'), (0, 'b2d-both'), (1, 'b2d-flange'), (1, 'two-2d'), (2, 'two-2d'))):
            if quick and (q + z) % 2 and z != 4:
                continue
            one = layout == 'b1d-both'
            h('bay-%s-%s-%d' % (vec, layout, where), bay, vec=vec, where=where, layout=layout, at=('grid', 'points')[(q + z // 2) % 2], deform=(False, True, 'default')[(q + z) % 3], axes=q == 1,
              filename='' if q % 2 else 'there.png', invert_y=z == 2, before=(False, 'skin', 'skin' if one else 'flange')[(q + z) % 3], curved=(q + z) % 4 == 0, name='bay two' if q else '')
    h('refused', refused)
    if not quick:
        for q, vec in enumerate(FIELDS):
            h('shell-%s-2x2' % vec, shell, 6, vec=vec, curved=q % 2 == 1, deform=True, m=2, n=2, M=4, N=3, many=4, before=('stress',))
    return hs
