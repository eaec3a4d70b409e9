"""C10: displacement, rotation, strain and stress fields are those of the Ritz series, wherever and however they are evaluated."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.uvw, strain, stress, _default_field', 'clpt_bardell_field.fuvw, fstrain, cfuvw, cfwx, cfwy, cfstrain (with prange)']
BOUNDS = ('m, n in {2, 3} terms, 1 to 6 points anywhere in the domain, 1 to 4 worker threads (every remainder of points by threads); all Ritz '
          'vectors, geometry, flags, laminates; scalar, 1-D and 2-D coordinate arrays and the default grid')
OUTSIDE = 'rounding of IEEE doubles; more points or threads than the bound (replayed with 3000 points on 4 threads); plotting'
EXPLANATION = ('The field kernels are executed symbolically over every split of the points among the threads; z3 decides each returned value '
               'against the series (displacements, rotations -w,x and -w,y, Donnell strains and curvatures, ABD times strains). Two iterations of '
               'the parallel loop touching the same memory, one of them writing, is a violation (no schedule may change the result).')
ASSUMPTIONS = ['doubles are reals', 'C01 (kernels)']
KEYS = {'uvw': ('u', 'v', 'w', 'phix', 'phiy'), 'strain': ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'),
        'stress': ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')}


def expected(be, dom, c, x, y, what, nl, F):
    xi, eta = 2 * x / dom.a - 1, 2 * y / dom.b - 1
    if what == 'uvw':
        rows = dom.rows([[('u', 1, 0, 0)], [('v', 1, 0, 0)], [('w', 1, 0, 0)], [('w', -1, 1, 0)], [('w', -1, 0, 1)]], xi, eta)
        return [dom.lin(r, c) for r in rows]
    eps = S.strains(dom, c, xi, eta, nl)[0]
    return eps if what == 'strain' else S.matvec(F, eps)


def fields(be, m, n, M, N, curved, what, npts, cores, shape=None, nl=False, abd=None, many=0):
    m, n = be.pick(m, M), be.pick(n, N)
    if many and not be.symbolic:
        npts, shape = many, None
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    s = S.make_shell(be, dom, lam, out_num_cores=cores)
    if abd == 'orthotropic':
        s.force_orthotropic_laminate = True
    s._rebuild()
    F = lam.ABD()
    kw = {}
    if abd == 'given':
        F = S.sym66(be, 'F')
        kw['ABD'] = be.arr(F)
    elif abd == 'orthotropic':
        F = be.np.array(F)
        for i in (0, 1, 3, 4):
            for j in (2, 5):
                F[i, j] = F[j, i] = be.const(0.)
    if what != 'uvw':
        kw['NLgeom'] = nl
    c = S.bshape(be, 'c', dom.size)
    if shape == 'grid':
        gx, gy = npts
        mesh, res = be.call('field', getattr(s, what), c, gridx=gx, gridy=gy, **kw)
        pts = [(dom.a * be.frac(F_(i, gx - 1)), dom.b * be.frac(F_(j, gy - 1))) for j in range(gy) for i in range(gx)]
        shp = (gy, gx)
    else:
        if many and not be.symbolic:
            px = [.1 + .3 * ((k * 7919) % 1000) / 1000 for k in range(npts)]
            py = [.1 + .3 * ((k * 104729) % 997) / 997 for k in range(npts)]
        else:
            px = [be.real('x%d' % k, 0, .5) for k in range(npts)]
            py = [be.real('y%d' % k, 0, .5) for k in range(npts)]
        pts = list(zip(px, py))
        xs, ys = be.vec(px), be.vec(py)
        shp = shape or (npts,)
        if shape:
            xs, ys = xs.reshape(shape), ys.reshape(shape)
        if shape == 'scalar':
            xs, ys, shp = px[0], py[0], (1,)
        mesh, res = be.call('field', getattr(s, what), c, xs=xs, ys=ys, **kw)
    pick = range(len(pts)) if len(pts) < 50 else range(0, len(pts), 37)
    got = {}
    for name in KEYS[what]:
        v = res[name]
        be.true('%s: shape' % name, tuple(v.shape) == tuple(shp))
        got[name] = v.reshape(-1)
    X, Y = mesh['Xs'], mesh['Ys']
    be.true('mesh: shape', tuple(X.shape) == tuple(Y.shape) == tuple(shp))
    X, Y = X.reshape(-1), Y.reshape(-1)
    for k in pick:
        x, y = pts[k]
        be.eq('mesh[%d].x' % k, X[k], x)
        be.eq('mesh[%d].y' % k, Y[k], y)
        for name, e in zip(KEYS[what], expected(be, dom, c, x, y, what, nl, F)):
            be.eq('%s[%d]' % (name, k), got[name][k], e)
    for name in KEYS[what]:
        be.true('%s: stored' % name, s.fields[name] is res[name])


def scalar(be, **k):
    dom = S.Dom(be, 2, 3)
    s = S.make_shell(be, dom, S.Lam(be), out_num_cores=2)
    s._rebuild()
    c = S.bshape(be, 'c', dom.size)
    x, y = be.real('x', 0, .5), be.real('y', 0, .5)
    mesh, res = be.call('field', s.uvw, c, xs=x, ys=y)
    for name, e in zip(KEYS['uvw'], expected(be, dom, c, x, y, 'uvw', False, None)):
        be.true(name + ': shape', tuple(res[name].shape) == (1,))
        be.eq(name + '[0]', res[name][0], e)
    be.raises('different shapes', s.uvw, c, xs=be.vec([x, y]), ys=be.vec([y]))
    be.raises('different shapes', s.strain, c, xs=be.vec([x, y]), ys=be.vec([y, x, y]))


def F_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def harnesses(tier):
    hs = [{'name': 'scalar', 'fn': scalar, 'params': {}}]
    split = [(3, 2), (1, 4), (4, 2), (5, 4), (2, 1), (6, 4)]
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'

        def h(name, **k):
            p = dict(m=2, n=2, M=4, N=5, curved=curved)
            p.update(k)
            hs.append({'name': nm + '-' + name, 'fn': fields, 'params': p, 'cost': 2, 'timeout': 200})
        for k, (p, t) in enumerate(split):
            h('uvw-%dpts-%dthreads' % (p, t), what='uvw', npts=p, cores=t, m=2 + k % 2, n=3 - k % 2, many=3000 + k)
            for nl in (False, True):
                if tier == 'quick' and (k + nl) % 2:
                    continue
                h('strain%s-%dpts-%dthreads' % ('-nl' if nl else '', p, t), what='strain', npts=p, cores=t, m=2 + k % 2, n=3 - k % 2, nl=nl,
                  many=3000 + k)
        for k, abd in enumerate((None, 'given', 'orthotropic')):
            for nl in (False, True):
                h('stress-%s%s' % (abd or 'own', '-nl' if nl else ''), what='stress', npts=2, cores=1 + k, abd=abd, nl=nl)
        h('uvw-2x2', what='uvw', npts=4, shape=(2, 2), cores=3)
        h('strain-2x3', what='strain', npts=6, shape=(2, 3), cores=4, nl=True)
        h('uvw-grid', what='uvw', npts=(2, 3), shape='grid', cores=4)
        h('stress-grid', what='stress', npts=(3, 2), shape='grid', cores=4, nl=False)
        if tier != 'quick':
            h('strain-nl-3x3-terms', what='strain', npts=7, cores=3, m=3, n=3, nl=True)
            h('uvw-4x4-terms', what='uvw', npts=9, cores=4, m=4, n=4)
            h('strain-4x3-terms', what='strain', npts=7, cores=4, m=4, n=3, nl=False)
    return hs
