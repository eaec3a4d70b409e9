"""C18: ready-made assemblies: what they hand to the solver is the structure their documentation draws."""
import inspect
from . import spec as S

LEVEL = 'other'
PK = 'panels.multidomain.'
MODULES = ['panels', 'panels.shell', 'panels.multidomain']
FUNCTIONS = ['create_cylinder_assy, cylinder_compression_lb_Nxx_cte, cylinder_compression_lb_Nxx_from_static, cylinder_spla',
             'create_cylinder_blade_stiffened, cylinder_blade_stiffened_compression_lb_Nxx_cte, ..._from_static',
             'tstiff2d_1stiff_compression, tstiff2d_1stiff_freq, tstiff2d_1stiff_flutter', 'MultiDomain and Shell methods behind them']
BOUNDS = ('cylinders of two to four panels, 1 to 2 by 1 to 2 terms per part (replayed with up to (4,3)), flat and curved stiffened panels, with and without defect, '
          'with and without a static run; every length, radius, stiffener position and width, defect length, ply, load, density and airflow; every entry of '
          'every matrix and vector handed to the solver, for every displacement vector the solver may return')
OUTSIDE = 'the solvers themselves; rounding of IEEE doubles; more terms and panels than the bound; plotting'
EXPLANATION = ('The functions are executed symbolically with recorders in the place of the linear and eigenvalue solvers, the static one returning an '
               'arbitrary displacement vector; z3 decides that every entry of every matrix and vector handed over is that of an assembly written out from '
               'the drawings: places and sizes of the parts, laminates, terms, edge supports, connections and loads.')
ASSUMPTIONS = ['doubles are reals', 'C04 to C16 (matrices and vectors of a given assembly)']

EDGES = [(e, f) for e in ('x1', 'x2', 'y1', 'y2') for f in 'uvw']


class Solver:
    """Stand-ins for the solvers of structsolve, wherever the module under test finds them."""
    SIG = {'lb': ('K', 'KG'), 'freq': ('K', 'M'), 'static': ('K', 'fext'), 'Analysis': ('calc_fext', 'calc_fint', 'calc_kC', 'calc_kG')}

    def __init__(self, be, name, c=None):
        self.be, self.c, self.calls = be, c, []
        self.mod = be.mod(PK + name)
        self.ss = None
        for x in vars(self.mod).values():
            if inspect.ismodule(x) and x.__name__ == 'structsolve':
                self.ss = x
        self.saved = []

    def fake(self, name):
        def run(*a, **k):
            v = dict(zip(self.SIG[name], a))
            v.update({q: k[q] for q in self.SIG[name] if q in k})
            self.calls.append((name, v))
            if name == 'static':
                return [1.], [self.c]
            return ('vals', len(self.calls)), ('vecs', len(self.calls))
        return run

    def __enter__(self):
        me = self

        class Analysis:
            def __init__(self, *a, **k):
                self.given = dict(zip(me.SIG['Analysis'], a), **k)
                me.analysis = self

            def static(self, NLgeom=False, silent=False):
                me.calls.append(('nonlinear', {'NLgeom': NLgeom}))
                return ('incs',), ('cs',)
        for n in self.SIG:
            for where in (self.mod, self.ss):
                if where is not None and n in vars(where):
                    self.saved.append((where, n, vars(where)[n]))
                    setattr(where, n, Analysis if n == 'Analysis' else self.fake(n))
        return self

    def __exit__(self, *a):
        for where, n, v in reversed(self.saved):
            setattr(where, n, v)

    def only(self, *names):
        self.be.true('solvers called: ' + ', '.join(names), [c[0] for c in self.calls] == list(names))


def material(be):
    E1, E2, nu, G = (be.real(x, lo, hi) for x, lo, hi in (('E1', 2., 3.), ('E2', .8, 1.2), ('nu12', .2, .35), ('G12', .4, .6)))
    return be.real('plyt', .05, .1), (E1, E2, nu, G, G, G)


def part(be, group, x0, y0, a, b, m, n, r, stack, plyt, prop, fixed, **kw):
    """A panel as it should be; fixed: the edge displacements that are zero."""
    s = be.mod('panels.shell').Shell(group=group, x0=x0, y0=y0, a=a, b=b, r=r, m=m, n=n, stack=list(stack), plyt=plyt, laminaprop=prop, **kw)
    for e, f in EDGES:
        setattr(s, e + f, 0. if e + f in fixed else 1.)
        setattr(s, e + f + 'r', 1.)
    return s


def same_panels(be, assy, parts):
    """The assembly has these parts, in these places (listed in the same order)."""
    got = list(assy.panels)
    be.true('number of panels', len(got) == len(parts))
    for k, (p, q) in enumerate(zip(got, parts)):
        be.true('panel %d: group' % k, p.group == q.group)
        be.true('panel %d: terms' % k, (p.m, p.n) == (q.m, q.n))
        for at in ('x0', 'y0', 'a', 'b'):
            be.eq('panel %d: %s' % (k, at), getattr(p, at), getattr(q, at))
        for e, f in EDGES:
            for r in ('', 'r'):
                be.eq('panel %d: edge %s' % (k, e + f + r), getattr(p, e + f + r), getattr(q, e + f + r))


def matrix(be, label, K, R):
    K, R = be.dense(K), be.dense(R)
    be.true(label + ': shape', tuple(K.shape) == tuple(R.shape))
    n = R.shape[0]
    for i in range(n):
        for j in range(n):
            be.eq('%s[%d,%d]' % (label, i, j), K[i, j], R[i, j])


def vector(be, label, f, g):
    be.true(label + ': length', len(f) == len(g))
    for k in range(len(g)):
        be.eq('%s[%d]' % (label, k), f[k], g[k])


def multi(be, parts):
    return be.mod('panels.multidomain').MultiDomain(parts)


# ------------------------------------------------------------------ cylinders

def cyl_parts(be, np_, m, n, blades, free_top):
    """Parts and connections of a (blade-stiffened) cylinder; free_top: the top edge may move axially."""
    plyt, prop = material(be)
    H, r = be.real('height', .5, 2.), be.real('r', .5, 1.)
    stack = [0, 45]
    bs = 2 * be.const(be.np.pi) * r / np_
    fixed = {'x%d%s' % (e, f) for e in (1, 2) for f in 'uvw'}
    if free_top:
        fixed.discard('x2u')
    kw = dict(height=H, r=r, stack=stack, plyt=plyt, laminaprop=prop, npanels=np_, m=m, n=n)
    skin = [part(be, 'skin', 0., k * bs, H, bs, m, n, r, stack, plyt, prop, fixed) for k in range(np_)]
    parts = list(skin)
    conns = [dict(p1=skin[k], p2=skin[k + 1], func='SSycte', ycte1=bs, ycte2=0.) for k in range(np_ - 1)]
    conns.append(dict(p1=skin[-1], p2=skin[0], func='SSycte', ycte1=bs, ycte2=0.))
    if blades:
        kw['stack_blades'] = [[90, 0, 45][:1 + k % 3] for k in range(np_)]
        kw['width_blades'] = [be.real('wb%d' % k, .1, .3) for k in range(np_)]
        for k in range(np_):
            s = part(be, 'blade_%02d' % k, 0., k * bs, H, kw['width_blades'][k], m, n, None, kw['stack_blades'][k], plyt, prop, fixed)
            parts.append(s)
            conns.append(dict(p1=skin[k], p2=s, func='BFycte', ycte1=0., ycte2=0.))
    return kw, parts, conns


def cylinder(be, what, np_, m, n, M, N, blades=False):
    m, n = be.pick(m, M), be.pick(n, N)
    kw, parts, conns = cyl_parts(be, np_, m, n, blades, what != 'create')
    name = 'cylinder_blade_stiffened' if blades else 'cylinder'
    ref = multi(be, parts)
    loads = [be.real('Nxx%d' % k, .5, 2.) for k in range(len(parts))]
    c = S.bshape(be, 'c', ref.get_size()) if what == 'static' else None
    lk = dict(Nxxs_skin=loads[:np_], Nxxs_blade=loads[np_:]) if blades else dict(Nxxs=loads)
    mod = be.mod(PK + name)
    pre = 'cylinder_blade_stiffened_compression_lb_Nxx_' if blades else 'cylinder_compression_lb_Nxx_'
    with Solver(be, name, c) as sv:
        if what == 'create':
            A, cs = be.call('create', mod.create_cylinder_blade_stiffened if blades else mod.create_cylinder_assy, **kw)
            same_panels(be, A, parts)
            matrix(be, 'stiffness', be.call('kC', A.calc_kC, cs), ref.calc_kC(conns))
            return
        if what == 'cte':
            A, vals, vecs = be.call('Nxx_cte', getattr(mod, pre + 'cte'), **kw, **lk)
            sv.only('lb')
            for p, v in zip(parts, loads):
                p.Nxx = v
        else:
            A, c_, vals, vecs = be.call('Nxx_from_static', getattr(mod, pre + 'from_static'), **kw, **lk)
            sv.only('static', 'lb')
            be.true('displacements returned', c_ is c)
            for p, v in zip(parts, loads):
                p.add_distr_load_fixed_x(p.a, lambda y, v=v: v, None, None)
        same_panels(be, A, parts)
        K = ref.calc_kC(conns)
        if what == 'static':
            st = sv.calls[0][1]
            matrix(be, 'static stiffness', st['K'], K)
            vector(be, 'static load', st['fext'], ref.calc_fext())
        lb = sv.calls[-1][1]
        matrix(be, 'stiffness', lb['K'], K)
        matrix(be, 'geometric stiffness', lb['KG'], ref.calc_kG(c=c))
        be.true('results returned', vals == ('vals', len(sv.calls)) and vecs == ('vecs', len(sv.calls)))


def spla(be, np_, m, n, M, N):
    m, n = be.pick(m, M), be.pick(n, N)
    kw, parts, conns = cyl_parts(be, np_, m, n, False, True)
    ref = multi(be, parts)
    ref.conn = conns
    F, P = be.real('Nxx', .5, 2.), be.real('SPLA', .5, 2.)
    c = S.bshape(be, 'c', ref.get_size())
    for p in parts:
        p.add_distr_load_fixed_x(p.a, lambda y: F, None, None)
    parts[0].add_point_load(parts[0].a / 2, parts[0].b / 2, 0, 0, -P)
    with Solver(be, 'cylinder') as sv:
        A, incs, cs = be.call('spla', be.mod(PK + 'cylinder').cylinder_spla, Nxx=F, SPLA=P, **kw)
        sv.only('nonlinear')
        be.true('nonlinear', sv.calls[0][1]['NLgeom'] is True)
        be.true('results returned', incs == ('incs',) and cs == ('cs',))
        g = sv.analysis.given
        same_panels(be, A, parts)
        vector(be, 'external force', be.call('fext', g['calc_fext'], inc=1., silent=True), ref.calc_fext())
        vector(be, 'internal force', be.call('fint', g['calc_fint'], c=c, silent=True), ref.calc_fint(c))
        matrix(be, 'linear stiffness', be.call('kC', g['calc_kC'], silent=True), ref.calc_kC())
        kT = be.dense(be.call('kC', g['calc_kC'], c=c, NLgeom=True, silent=True)) + be.dense(be.call('kG', g['calc_kG'], c=c, NLgeom=True, silent=True))
        R = be.dense(ref.calc_kT(c))
        for i in range(R.shape[0]):
            for j in range(R.shape[1]):
                be.eq('tangent stiffness[%d,%d]' % (i, j), kT[i, j], R[i, j])


def refused(be):
    kw, parts, conns = cyl_parts(be, 2, 1, 1, True, True)
    C, B = be.mod(PK + 'cylinder'), be.mod(PK + 'cylinder_blade_stiffened')
    skin = {k: v for k, v in kw.items() if not k.endswith('blades')}
    N = [be.real('N%d' % k, .5, 2.) for k in range(3)]
    be.raises('a single panel', C.create_cylinder_assy, **dict(skin, npanels=1))
    be.raises('a single panel', B.create_cylinder_blade_stiffened, **dict(kw, npanels=1, stack_blades=[[0]], width_blades=kw['width_blades'][:1]))
    for q in ('stack_blades', 'width_blades'):
        be.raises('wrong number: ' + q, B.create_cylinder_blade_stiffened, **dict(kw, **{q: kw[q][:1]}))
        be.raises('wrong number: ' + q, B.create_cylinder_blade_stiffened, **dict(kw, **{q: list(kw[q]) + [kw[q][0]]}))
    c = S.bshape(be, 'c', 12)
    for how in ('cte', 'from_static'):
        for k in (1, 3):
            with Solver(be, 'cylinder', c):
                be.raises('wrong number of loads', getattr(C, 'cylinder_compression_lb_Nxx_' + how), Nxxs=N[:k], **skin)
            with Solver(be, 'cylinder_blade_stiffened', c):
                f = getattr(B, 'cylinder_blade_stiffened_compression_lb_Nxx_' + how)
                be.raises('wrong number of loads', f, Nxxs_skin=N[:k], Nxxs_blade=N[:2], **kw)
                be.raises('wrong number of loads', f, Nxxs_skin=N[:2], Nxxs_blade=N[:k], **kw)


# ------------------------------------------------------- T-stiffened panel

def tstiff(be, what, mn, MN, defect=True, static=False, curved=False, given_n=False, loads='all', flow='x'):
    (m, n), (mb, nb), (mf, nf) = be.pick(mn, MN)
    plyt, prop = material(be)
    a, b, ys, bb, bf = (be.real(x, lo, hi) for x, lo, hi in (('a', 1., 2.), ('b', 1., 2.), ('ys', .4, .6), ('bb', .1, .2), ('bf', .1, .3)))
    da = be.real('defect_a', .05, .95) if defect else 0
    rho = be.real('rho', .5, 2.)
    r = be.real('r', 1., 3.) if curved else None
    stacks = {'skin': [0, 45], 'base': [90, 0, 45], 'flange': [45]}
    N = {g: be.real('Nxx_' + g, .5, 2.) if loads == 'all' or g == loads else None for g in stacks}
    kw = dict(a=a, b=b, ys=ys, bb=bb, bf=bf, defect_a=da, rho=rho, plyt=plyt, laminaprop=prop, stack_skin=stacks['skin'], stack_base=stacks['base'],
              stack_flange=stacks['flange'], r=r, m=m, n=n)
    if (mb, nb, mf, nf) != (m, n, m, n):
        kw.update(mb=mb, nb=nb, mf=mf, nf=nf)
    if what != 'freq':
        kw['run_static_case'] = static
        kw.update({'Nxx_' + g: v for g, v in N.items() if v is not None})
    pts = {'skin': (m, n), 'base': (mb, nb), 'flange': (mf, nf)} if what == 'compression' else {g: (None, None) for g in stacks}
    if given_n:
        pts = {'skin': (m + 1, n), 'base': (mb, nb + 1), 'flange': (mf + 1, nf + 1)}
        kw.update(nx=m + 1, ny=n, nxb=mb, nyb=nb + 1, nxf=mf + 1, nyf=nf + 1)
    air = {}
    if what == 'flutter':
        air = dict(rho_air=be.real('rho_air', .5, 2.), speed_sound=be.real('speed_sound', .5, 2.), Mach=be.real('Mach', 1.5, 2.5), V=be.real('V', .5, 2.), flow=flow)
        kw.update({'air_speed' if k == 'V' else k: v for k, v in air.items()})
    d = da * a if defect else .33 * a
    low = (a - d) / 2
    xs = [(0., low), (low, d), (low + d, low)]
    ys_ = [(0., ys - bb / 2), (ys - bb / 2, bb), (ys + bb / 2, b - ys - bb / 2)]
    terms = {'skin': (m, n), 'base': (mb, nb), 'flange': (mf, nf)}
    moving = what == 'flutter' or static          # the loaded edge may move axially
    if what == 'freq':
        moving = True

    def piece(group, ix, iy):
        fixed = set()
        if group != 'base':
            if ix == 0:
                fixed |= {'x1v', 'x1w'} | (set() if moving else {'x1u'})
            if ix == 2:
                fixed |= {'x2u', 'x2v', 'x2w'}
        if group == 'skin':
            if iy == 0:
                fixed |= {'y1v', 'y1w'}
            if iy == 2:
                fixed |= {'y2v', 'y2w'}
        y0, w = ys_[1] if group == 'base' else (0., bf) if group == 'flange' else ys_[iy]
        x = dict(air) if group == 'skin' else {}
        if pts[group][0] is not None:
            x.update(nx=pts[group][0], ny=pts[group][1])
        return part(be, group, xs[ix][0], y0, xs[ix][1], w, *terms[group], r if group != 'flange' else None, stacks[group], plyt, prop, fixed, rho=rho,
                    Nxx=0. if N[group] is None or what == 'freq' else N[group], **x)
    sk = {(ix, iy): piece('skin', ix, iy) for ix in (2, 1, 0) for iy in (2, 1, 0)}
    ba = {ix: piece('base', ix, 1) for ix in (2, 1, 0)}
    fl = {ix: piece('flange', ix, 1) for ix in (2, 1, 0)}
    parts = list(sk.values())
    for ix in (2, 1, 0):
        parts += [ba[ix], fl[ix]]
    conns = []
    for ix in (0, 1, 2):
        for iy in (0, 1):
            conns.append(dict(p1=sk[ix, iy + 1], p2=sk[ix, iy], func='SSycte', ycte1=0., ycte2=sk[ix, iy].b))
    for ix in (0, 1):
        for iy in (0, 1, 2):
            conns.append(dict(p1=sk[ix + 1, iy], p2=sk[ix, iy], func='SSxcte', xcte1=0., xcte2=sk[ix, iy].a))
        conns.append(dict(p1=ba[ix + 1], p2=ba[ix], func='SSxcte', xcte1=0., xcte2=ba[ix].a))
        conns.append(dict(p1=fl[ix + 1], p2=fl[ix], func='SSxcte', xcte1=0., xcte2=fl[ix].a))
    for ix in (0, 1, 2):
        if ix != 1 or not defect:
            conns.append(dict(p1=sk[ix, 1], p2=ba[ix], func='SB'))
        conns.append(dict(p1=ba[ix], p2=fl[ix], func='BFycte', ycte1=bb / 2, ycte2=0.))
    ref = multi(be, parts)
    size = ref.get_size()
    loaded = static and what != 'freq' and loads != 'none'
    c = S.bshape(be, 'c', size) if loaded else None
    name = 'tstiff2d_1stiff_' + what
    with Solver(be, name, c) as sv:
        out = be.call(what, getattr(be.mod(PK + name), name), **kw)
        sv.only(*((['static'] if loaded else []) + ['lb' if what == 'compression' else 'freq']))
        vals, vecs = out[-2:]
        be.true('results returned', vals == ('vals', len(sv.calls)) and vecs == ('vecs', len(sv.calls)))
        be.true('number of results', len(out) == (4 if what != 'freq' and static else 3))
        if len(out) == 4:
            be.true('displacements returned', out[1] is c)
        same_panels(be, out[0], parts)
        K = ref.calc_kC(conns)
        if loaded:
            st = sv.calls[0][1]
            matrix(be, 'static stiffness', st['K'], K)
            edge = [sk[0, iy] for iy in (0, 1, 2)] + [ba[0], fl[0]]
            for p in edge:
                v = p.Nxx
                p.add_distr_load_fixed_x(0., lambda y, v=v: -v, None, None)
            vector(be, 'static load', st['fext'], ref.calc_fext())
        if static:
            for p in parts:
                p.Nxx = 0.
        last = sv.calls[-1][1]
        if what == 'compression':
            matrix(be, 'stiffness', last['K'], K)
            matrix(be, 'geometric stiffness', last['KG'], ref.calc_kG(c=c))
            return
        matrix(be, 'mass', last['M'], ref.calc_kM())
        R = be.dense(K)
        if what == 'flutter':
            R = R + be.dense(ref.calc_kG(c=c))
            o = 0
            for k, p in enumerate(parts):
                w = 3 * p.m * p.n
                if p.group == 'skin':
                    kA = be.dense(p.calc_kA())
                    for i in range(w):
                        for j in range(w):
                            R[o + i, o + j] = R[o + i, o + j] + kA[i, j]
                o += w
        matrix(be, 'stiffness', last['K'], R)


def harnesses(tier):
    hs = []

    def h(name, fn, cost=3, **k):
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 400})
    for blades in (False, True):
        b = 'blades-' if blades else ''
        for q, np_ in enumerate((2, 3, 4)):
            mn = dict(m=1 + q % 2, n=2 - q % 2, M=3 + q % 2, N=4 - q % 2)
            h('cylinder-%screate-%d' % (b, np_), cylinder, what='create', np_=np_, blades=blades, **mn)
            if q < 2 or tier != 'quick':
                h('cylinder-%scte-%d' % (b, np_), cylinder, what='cte', np_=np_, blades=blades, **mn)
        h('cylinder-%sstatic' % b, cylinder, what='static', np_=2 if blades else 3, m=1, n=1, M=3, N=3, blades=blades)
    h('cylinder-spla', spla, np_=2, m=1, n=1, M=3, N=3)
    h('refused', refused, 2)
    one, two, mix = [(1, 1)] * 3, [(2, 2)] * 3, [(1, 2), (2, 1), (1, 1)]
    Big = [(4, 3), (3, 4), (4, 2)]
    h('tstiff-freq-defect', tstiff, 5, what='freq', mn=mix, MN=Big)
    h('tstiff-freq', tstiff, 5, what='freq', mn=[(2, 1)] * 3, MN=[(4, 3)] * 3, defect=False, curved=True)
    h('tstiff-compression-cte', tstiff, 5, what='compression', mn=mix, MN=Big)
    h('tstiff-compression-static', tstiff, 5, what='compression', mn=one, MN=[(3, 3)] * 3, static=True)
    h('tstiff-compression-static-sound', tstiff, 5, what='compression', mn=one, MN=[(3, 3), (3, 2), (4, 3)], static=True, defect=False, given_n=True, curved=True)
    h('tstiff-flutter-cte', tstiff, 5, what='flutter', mn=mix, MN=Big, curved=False)
    h('tstiff-flutter-unloaded', tstiff, 5, what='flutter', mn=[(1, 2)] * 3, MN=[(3, 4)] * 3, loads='none', flow='y')
    h('tstiff-flutter-unloaded-static', tstiff, 5, what='flutter', mn=[(2, 1)] * 3, MN=[(4, 3)] * 3, loads='none', defect=False, static=True)
    h('tstiff-flutter-static', tstiff, 5, what='flutter', mn=one, MN=[(3, 3)] * 3, static=True, loads='base')
    if tier != 'quick':
        for blades in (False, True):
            b = 'blades-' if blades else ''
            h('cylinder-%sstatic-2x2' % b, cylinder, 9, what='static', np_=3, m=2, n=2, M=4, N=3, blades=blades)
            h('cylinder-%scte-5' % b, cylinder, 9, what='cte', np_=5, m=2, n=3, M=4, N=3, blades=blades)
            h('cylinder-%screate-9' % b, cylinder, 9, what='create', np_=9, m=2, n=2, M=4, N=3, blades=blades)
        h('cylinder-spla-2x2', spla, 9, np_=3, m=2, n=2, M=3, N=4)
        h('tstiff-freq-2x2', tstiff, 9, what='freq', mn=two, MN=Big)
        h('tstiff-compression-cte-2x2', tstiff, 9, what='compression', mn=two, MN=Big, curved=True)
        h('tstiff-compression-static-2x1', tstiff, 9, what='compression', mn=[(2, 1)] * 3, MN=Big, static=True)
        h('tstiff-compression-static-mix', tstiff, 9, what='compression', mn=mix, MN=Big, static=True, defect=False, given_n=True)
        h('tstiff-flutter-static-mix', tstiff, 9, what='flutter', mn=mix, MN=Big, static=True, curved=True)
        h('tstiff-flutter-cte-2x2', tstiff, 9, what='flutter', mn=two, MN=Big, flow='y')
    return hs
