"""C17: a calculation answers for what is defined when it is asked for, whatever was calculated before, and changes nothing else."""
from . import spec as S
from .C12 import connect
from .C15 import make as make_bay

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.multidomain', 'panels.stiffener', 'panels.stiffpanelbay']
FUNCTIONS = ['every calc_ method of Shell, calc_stiffness_point_constraint, uvw, strain, stress, get_size, _rebuild, _derive, _get_model, _get_current_ABD',
             'MultiDomain.get_kC_conn, calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext, uvw, strain, stress',
             'StiffPanelBay.calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fext, uvw_skin, uvw_stiffener', 'the kernels behind them']
BOUNDS = ('histories of up to eighteen calculations (each of the kinds the package offers, at given and at no displaced state) on the same shell and on another one, between one or two changes '
          'of definition; (2,1) and (1,2) terms, up to (2,2) after a change (replayed with up to (4,3)), 2 by 2 integration points; two panels in an assembly; '
          'bays with one or two stiffeners; every geometry, edge flag, laminate, load, airflow and vector on both sides of a change; every entry of every result')
OUTSIDE = ('rounding of IEEE doubles; longer histories; terms changed after a panel has been placed in an assembly; panels placed in two assemblies; '
           'the number of integration points, which is raised to the number of terms and stays raised; the dictionary the fields are kept in, which is documented to be that of the last calculation')
EXPLANATION = ('A shell (assembly, bay) is taken symbolically through a history of calculations, its definition is changed, and a further calculation is made; a new object with the same '
               'definition makes the same calculation alone. z3 decides that every entry of both results is the same, also for a second time, that the '
               'results returned earlier have kept their values, and that neither the arguments nor the definition have changed.')
ASSUMPTIONS = ['doubles are reals', 'the properties before decide what the calculation made alone gives']

CALCS = ['kC', 'kC-state', 'kC-cte', 'kC-laminates', 'kG', 'kG-state', 'kT', 'kM', 'kM-given', 'kA', 'cA', 'fint', 'fext', 'support', 'uvw', 'strain', 'stress', 'stress-given']


class Def:
    """A definition of a shell, complete, and in parts that can be changed one by one."""
    def __init__(self, be, tag, m, n, curved, lists=True, flow='x', partial=False, mach=True, ortho=False, nq=2):
        R = be.real
        self.be = be
        self.dom = d = S.Dom(be, m, n, tag=tag, curved=curved)
        self.parts = p = {}
        p['geometry'] = dict(a=d.a, b=d.b)
        p['radius'] = dict(r=d.r)
        p['terms'] = dict(m=m, n=n, nx=nq, ny=nq)
        p['edges'] = dict(d.kw)
        if partial:
            p['part'] = dict(x1=R('x1' + tag, .05, .1), x2=R('x2' + tag, .3, .45), y1=R('y1' + tag, .05, .1), y2=R('y2' + tag, .3, .45))
        lam = S.Lam(be, tag=tag, stack=(0, 30) if lists else (45,), offset=True, rho=True)
        if lists:
            p['laminate'] = dict(stack=lam.stack, plyts=lam.plyts, laminaprops=[lam.prop for _ in lam.stack], rhos=lam.rhos, offset=lam.offset)
        else:
            p['laminate'] = dict(stack=lam.stack, plyt=lam.plyts[0], laminaprop=lam.prop, rho=lam.rhos[0], offset=lam.offset)
        p['orthotropic'] = dict(force_orthotropic_laminate=ortho)
        p['stress'] = {'N' + q: R('N%s%s' % (q, tag), .5, 2.) for q in ('xx', 'yy', 'xy')}
        p['constant stress'] = {'N%s_cte' % q: R('N%sc%s' % (q, tag), .5, 2.) for q in ('xx', 'yy', 'xy')}
        p['loads'] = dict(point_loads=[[R(q + tag, .05, .45) for q in 'xy'] + [R('f' + q + tag, .5, 2.) for q in 'xyz']],
                          point_loads_inc=[[R(q + 'i' + tag, .05, .45) for q in 'xy'] + [R('fi' + q + tag, .5, 2.) for q in 'xyz']],
                          distr_loads=[[R('xl' + tag, .05, .45), None, lambda s, k=R('fl' + tag, .5, 2.): k, None, None]],
                          point_pds_inc=[[R(q + 'p' + tag, .05, .45) for q in 'xy'] + [R('fp' + q + tag, .5, 2.) for q in 'xyz']])
        if mach:
            p['air'] = dict(flow=flow, beta=None, gamma=None, Mach=R('Mach' + tag, 1.05, 4.), V=R('V' + tag, .5, 2.), rho_air=R('rho_air' + tag, .5, 2.))
        else:
            p['air'] = dict(flow=flow, beta=R('beta' + tag, .5, 2.), gamma=R('gamma' + tag, .2, .8), Mach=None, V=None, rho_air=None)

    def new(self):
        return self.set(self.be.mod('panels.shell').Shell(out_num_cores=2), self.parts)

    def set(self, s, parts):
        for name in parts:
            for k, v in self.parts[name].items():
                setattr(s, k, own(v))
        return s


def own(v):
    """Lists of its own for every object."""
    return [own(x) for x in v] if isinstance(v, list) else v


class Args:
    """What a calculation is given besides the object."""
    def __init__(self, be, tag, size, nx=2, ny=2):
        R = be.real
        self.c = be.vec([R('c%s%d' % (tag, k), -1., 1.) for k in range(size)])
        self.c0 = be.vec([R('d%s%d' % (tag, k), -1., 1.) for k in range(size)])
        self.F = S.laminate_field(be, nx, ny, 'F' + tag)[1]
        self.h = be.arr([[R('h%s%d%d' % (tag, p, q), .5, 1.) for q in range(ny)] for p in range(nx)])
        self.rho = be.arr([[R('q%s%d%d' % (tag, p, q), .5, 1.) for q in range(ny)] for p in range(nx)])
        self.A = be.arr(S.sym66(be, 'A' + tag))
        self.mu, self.inc, self.x, self.y = R('mu' + tag, .5, 2.), R('inc' + tag, .2, .8), R('xq' + tag, .05, .45), R('yq' + tag, .05, .45)
        self.xs, self.ys = be.vec([self.x, R('xr' + tag, .05, .45)]), be.vec([self.y, R('yr' + tag, .05, .45)])

    def arrays(self):
        return [(k, getattr(self, k)) for k in ('c', 'c0', 'F', 'h', 'rho', 'A', 'xs', 'ys')]


def calc(be, what, s, v):
    """Results of one calculation, as named arrays."""
    call = lambda fn, *a, **k: be.call(what, fn, *a, **k)
    if what in ('uvw', 'strain', 'stress', 'stress-given'):
        kw = dict(xs=v.xs, ys=v.ys)
        if what == 'stress' and s.ABD is None:
            # refused until a matrix has been calculated
            be.raises('stress before any matrix', s.stress, v.c, **kw)
            call(s.calc_kM)
        if what == 'stress-given':
            kw['ABD'] = v.A
        mesh, res = call(getattr(s, what.split('-')[0]), v.c, **kw)
        keys = {'uvw': ('u', 'v', 'w', 'phix', 'phiy'), 'strain': ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')}.get(what, ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))
        return [(k, res[k]) for k in keys] + [(k, mesh[k]) for k in ('Xs', 'Ys')]
    if what == 'support':
        return [(what, call(s.calc_stiffness_point_constraint, v.x, v.y, phix=True, kuvw=v.mu, kphi=v.inc))]
    if what == 'cA':
        return [(what, call(s.calc_cA, v.mu))]
    if what == 'fint':
        return [(what, call(s.calc_fint, v.c))]
    if what == 'fext':
        return [(what, call(s.calc_fext, inc=v.inc))]
    kw = {'kC-state': dict(c=v.c, NLgeom=True), 'kC-cte': dict(c_cte=v.c0), 'kC-laminates': dict(ABDnxny=v.F), 'kG-state': dict(c=v.c), 'kT': dict(c=v.c),
          'kM-given': dict(h_nxny=v.h, rho_nxny=v.rho)}.get(what, {})
    return [(what, call(getattr(s, 'calc_' + what.split('-')[0]), **kw))]


def flat(be, x):
    return list(be.dense(x).reshape(-1))


def values(be, res):
    return [(k, flat(be, x)) for k, x in res]


def same(be, label, got, want):
    be.true(label + ': as many results', [k for k, _ in got] == [k for k, _ in want])
    for (k, g), (_, w) in zip(got, want):
        be.true('%s: size of %s' % (label, k), len(g) == len(w))
        for q, (x, y) in enumerate(zip(g, w)):
            be.eq('%s[%s %d]' % (label, k, q), x, y)


def kept(be, label, old):
    """Results returned earlier have kept their values."""
    for k, x, vals in old:
        same(be, label, [(k, flat(be, x))], [(k, vals)])


def unchanged(be, label, s, want):
    for k, v in want.items():
        g = getattr(s, k)
        deep(be, '%s[%s]' % (label, k), g, v)


def deep(be, label, g, v):
    if isinstance(v, (list, tuple)):
        be.true(label + ': length', isinstance(g, (list, tuple)) and len(g) == len(v))
        for x, y in zip(g, v):
            deep(be, label, x, y)
    elif v is None or isinstance(v, (str, bool)) or callable(v):
        be.true(label, g is v or g == v)
    else:
        be.true(label + ': a number', g is not None)
        be.eq(label, g, v)


def history(be, what, first, changes, A, B, other=False, again=True):
    """first: calculations before; changes: groups of parts of the definition that are changed one after the other."""
    A, B = dict(A), dict(B)
    for D in (A, B):
        D['m'], D['n'] = be.pick(*D['m']), be.pick(*D['n'])
    # the points are never fewer than the terms, before and after
    nq = max(2, A['m'], A['n'], B['m'], B['n'])
    A, B = Def(be, '_A', nq=nq, **A), Def(be, '_B', nq=nq, **B)
    s = A.new()
    state = dict(A.parts)
    old = []
    u = None
    if other:
        u = B.new()
        vu = Args(be, '_u', B.dom.size, nq, nq)
    va = Args(be, '_a', A.dom.size, nq, nq)
    given = [(k, x, flat(be, x)) for k, x in va.arrays()]
    for k, op in enumerate(first):
        r = calc(be, op, s, va)
        old += [(nm, x, flat(be, x)) for nm, x in r]
        if u is not None:
            calc(be, first[-1 - k], u, vu)
    for group in changes:
        group = [g for g in (B.parts if group == 'all' else group) if g in B.parts]
        B.set(s, group)
        for g in group:
            state[g] = B.parts[g]
    attrs = {}
    for g in state.values():
        attrs.update(g)
    size = 3 * attrs['m'] * attrs['n']
    vb = Args(be, '_b', size, nq, nq)
    given += [(k, x, flat(be, x)) for k, x in vb.arrays()]
    t = be.mod('panels.shell').Shell(out_num_cores=2)
    for k, v in attrs.items():
        setattr(t, k, own(v))
    want = values(be, calc(be, what, t, vb))
    res = calc(be, what, s, vb)
    got = values(be, res)
    same(be, '%s after a history' % what, got, want)
    be.true('size after a history', s.get_size() == size == s.size)
    if again:
        same(be, '%s a second time' % what, values(be, calc(be, what, s, vb)), want)
        same(be, 'result kept', values(be, res), want)
    kept(be, 'result kept', old)
    for k, x, vals in given:
        same(be, 'argument unchanged', [(k, flat(be, x))], [(k, vals)])
    unchanged(be, 'definition unchanged', s, attrs)


class Assembly:
    def __init__(self, be, defs, func):
        self.be, self.defs = be, defs
        self.panels = [d.new() for d in defs]
        for k, s in enumerate(self.panels):
            s.group = 'g'
        self.conn = [connect(be, func, [d.dom for d in defs], self.panels, 0, 1, '_k')[0]]
        self.A = be.mod('panels.multidomain').MultiDomain(self.panels, self.conn)
        self.A.out_num_cores = 2


MULTI = ['kC', 'kC-state', 'kG', 'kG-state', 'kM', 'kT', 'fint', 'fext', 'conn', 'uvw', 'strain', 'stress']


def multi_calc(be, what, A, v):
    call = lambda fn, *a, **k: be.call('assembly ' + what, fn, *a, **k)
    if what in ('uvw', 'strain', 'stress'):
        if what == 'stress' and any(s.ABD is None for s in A.panels):
            be.raises('stress before any matrix', A.stress, v.c, 'g', gridx=2, gridy=1)
            call(A.calc_kM)
        res = call(getattr(A, what), v.c, 'g', gridx=2, gridy=1)
        return [('%s of panel %d' % (k, q), x) for k in sorted(res) for q, x in enumerate(res[k])]
    if what == 'conn':
        return [(what, call(A.get_kC_conn))]
    if what == 'fint':
        return [(what, call(A.calc_fint, v.c))]
    if what == 'fext':
        return [(what, call(A.calc_fext, inc=v.inc))]
    kw = {'kC-state': dict(c=v.c, NLgeom=True), 'kG-state': dict(c=v.c), 'kT': dict(c=v.c)}.get(what, {})
    return [(what, call(getattr(A, 'calc_' + what.split('-')[0]), **kw))]


def assembly(be, what, first, change, func='SSxcte', curved=(False, False)):
    d = [Def(be, '_%d' % k, m, n, curved[k]) for k, (m, n) in enumerate(((2, 1), (1, 2)))]
    e = [Def(be, '_%dB' % k, m, n, curved[k]) for k, (m, n) in enumerate(((2, 1), (1, 2)))]
    X = Assembly(be, d, func)
    size = sum(x.dom.size for x in d)
    v = Args(be, '_a', size)
    old = []
    for op in first:
        old += [(k, x, flat(be, x)) for k, x in multi_calc(be, op, X.A, v)]
    groups = {'laminate': ('laminate',), 'geometry': ('geometry', 'edges'), 'loads': ('loads', 'stress', 'constant stress'), 'connection': (), 'none': (), 'list': ()}[change]
    doms = [x.dom for x in d]
    states = []
    for k in (0, 1):
        e[k].set(X.panels[k], groups)
        states.append(dict(d[k].parts, **{g: e[k].parts[g] for g in groups}))
    conn = dict(X.conn[0])
    if change == 'connection':
        for q in ('xcte1', 'xcte2', 'ycte1', 'ycte2'):
            if q in conn:
                conn[q] = X.conn[0][q] = be.real('at_' + q, .05, .45)
    elif change == 'list':
        new, _ = connect(be, 'SSycte', doms, X.panels, 0, 1, '_z')
        X.A.conn = [new]
        conn = dict(new)
    fresh = []
    for k, st in enumerate(states):
        t = be.mod('panels.shell').Shell(out_num_cores=2)
        for g in st.values():
            for nm, x in g.items():
                setattr(t, nm, own(x))
        t.group = 'g'
        fresh.append(t)
    c2 = dict(conn, p1=fresh[0], p2=fresh[1])
    Y = be.mod('panels.multidomain').MultiDomain(fresh, [c2])
    Y.out_num_cores = 2
    w = Args(be, '_b', size)
    given = [(k, x, flat(be, x)) for k, x in w.arrays()]
    want = values(be, multi_calc(be, what, Y, w))
    res = multi_calc(be, what, X.A, w)
    same(be, 'assembly %s after a history' % what, values(be, res), want)
    same(be, 'assembly %s a second time' % what, values(be, multi_calc(be, what, X.A, w)), want)
    same(be, 'result kept', values(be, res), want)
    kept(be, 'result kept', old)
    for k, x, vals in given:
        same(be, 'argument unchanged', [(k, flat(be, x))], [(k, vals)])
    for k, st in enumerate(states):
        for g in st.values():
            unchanged(be, 'definition unchanged', X.panels[k], g)
    cn = X.A.conn[0]
    be.true('connection unchanged', sorted(cn) == sorted(conn) and cn['p1'] is X.panels[0] and cn['p2'] is X.panels[1])
    for q in conn:
        if q not in ('p1', 'p2'):
            deep(be, 'connection unchanged', cn[q], conn[q])


BAY = ['kC', 'kG', 'kG-state', 'kM', 'kA', 'cA', 'fext', 'uvw', 'flange']


def bay_calc(be, what, b, v):
    call = lambda fn, *a, **k: be.call('bay ' + what, fn, *a, **k)
    if what == 'uvw':
        return [('%s' % k, x) for k, x in zip('uvwxy', call(b.uvw_skin, v.c, xs=v.xs, ys=v.ys))]
    if what == 'flange':
        q = [k for k, st in enumerate(b.stiffeners) if st in b.bladestiff2ds][0]
        return [('%s' % k, x) for k, x in zip('uvwxy', call(b.uvw_stiffener, v.c, q, xs=v.xs, ys=v.ys))]
    kw = {'kG-state': dict(c=v.c)}.get(what, {})
    return [(what, call(getattr(b, 'calc_' + what.split('-')[0]), **kw))]


def bay_def(be, layout, curved, tag=''):
    B = make_bay(be, layout, 1, 2, 1, 2, curved=curved, stacks=((0, 45), (30,), (0,)))
    return B


def air(be, b, tag):
    b.Mach, b.V, b.rho_air, b.speed_sound = (be.real(q + tag, lo, hi) for q, lo, hi in (('Mach', 1.5, 4.), ('V', .5, 2.), ('rho_air', .5, 2.), ('ainf', .5, 2.)))


def forces(be, b, tag):
    b.forces_skin = [[be.real(q + tag, .05, .25) for q in 'xy'] + [be.real('f' + q + tag, .5, 2.) for q in 'xyz']]
    for k, st in enumerate(b.bladestiff2ds):
        if st.flange is not None:
            st.forces_flange = [[be.real('%s%d%s' % (q, k, tag), .05, .25) for q in 'xy'] + [be.real('f%s%d%s' % (q, k, tag), .5, 2.) for q in 'xyz']]


def stress(be, b, tag):
    for k, p in enumerate(b.panels):
        p.Nxx, p.Nyy, p.Nxy = (be.real('N%s%d%s' % (q, k, tag), .5, 2.) for q in ('xx', 'yy', 'xy'))


def edges(be, b, dom, tag):
    for nm in dom.kw:
        setattr(b, nm, be.real(nm + tag, .2, 1.))


def relaminate(be, B, tag):
    """Other plies, densities and sizes for every part of a bay."""
    def lam(nm, stack):
        return S.Lam(be, tag=nm + tag, stack=stack, tmax=.4)
    for k, p in enumerate(B.bay.panels):
        lam('_p%d' % k, ((20, 70), (50,), (0, 10))[k % 3]).set(p)
        p.rho = be.real('rho_p%d%s' % (k, tag), .5, 2.)
        p.rhos = [p.rho for _ in p.stack]
    for k, st in enumerate(B.bay.stiffeners):
        st.rho = be.real('rho_s%d%s' % (k, tag), .5, 2.)
        one = st in B.bay.bladestiff1ds
        if one and st.Fx is not None:
            st.Fx = be.real('Fx%d%s' % (k, tag), .5, 2.)
        for q, has, n in (('b', st.bstack is not None, 1), ('f', (st.fstack if one else st.flange) is not None, 2)):
            if not has:
                continue
            L = lam('_%s%d' % (q, k), (35, 15)[:n])
            if one or q == 'b':
                setattr(st, q + 'stack', list(L.stack))
                setattr(st, q + 'plyts', list(L.plyts))
                setattr(st, q + 'laminaprops', [L.prop for _ in L.stack])
            if not one:
                L.set(st.base if q == 'b' else st.flange)
                (st.base if q == 'b' else st.flange).rhos = [st.rho for _ in L.stack]
            if one:
                w = 'bb' if q == 'b' else 'bf'
                setattr(st, w, be.real('%s%d%s' % (w, k, tag), .1, .2))


SHELL = ['stack', 'plyts', 'laminaprops', 'plyt', 'laminaprop', 'rho', 'rhos', 'Nxx', 'Nyy', 'Nxy', 'nx', 'ny']


def anew(be, B):
    """A new bay with the present definition of another one."""
    s = B.bay
    flags = list(B.dom.kw)
    t = be.mod('panels.stiffpanelbay').StiffPanelBay()
    for k in ('a', 'b', 'r', 'm', 'n', 'model', 'rho', 'out_num_cores', 'flow', 'Mach', 'V', 'rho_air', 'speed_sound', 'beta', 'gamma', 'aeromu', 'forces_skin') + tuple(flags):
        setattr(t, k, own(getattr(s, k)))

    def copy(p, q, but=()):
        for k in SHELL + flags:
            if k not in but:
                setattr(q, k, own(getattr(p, k)))
    for p in s.panels:
        copy(p, t.add_panel(p.y1, p.y2))
    for st in s.stiffeners:
        one = st in s.bladestiff1ds
        L = {q: own(getattr(st, q)) for q in ('rho', 'bb', 'bstack', 'bplyts', 'blaminaprops')}
        if one:
            L.update({q: own(getattr(st, q)) for q in ('bf', 'fstack', 'fplyts', 'flaminaprops')})
            u = t.add_bladestiff1d(st.ys, **L)
            u.Fx = st.Fx
            continue
        f = st.flange
        if f is not None:
            L.update(bf=f.b, fstack=own(f.stack), fplyts=own(f.plyts), flaminaprops=own(f.laminaprops), mf=f.m, nf=f.n)
        u = t.add_bladestiff2d(st.ys, **L)
        u.forces_flange = own(st.forces_flange)
        for p, q in ((f, u.flange), (st.base, u.base)):
            if p is not None:
                copy(p, q)
    return t


def bay(be, what, first, change, layout, curved=False):
    Bs = bay_def(be, layout, curved)
    s = Bs.bay
    v = Args(be, '_a', Bs.size)
    air(be, s, '_0')
    forces(be, s, '_0')
    old = []
    for op in first:
        old += [(k, x, flat(be, x)) for k, x in bay_calc(be, op, s, v)]
    if change in ('air', 'all'):
        air(be, s, '_1')
    if change in ('forces', 'all'):
        forces(be, s, '_1')
    if change in ('stress', 'all'):
        stress(be, s, '_1')
    if change in ('edges', 'all'):
        edges(be, s, Bs.dom, '_1')
    if change == 'laminates':
        relaminate(be, Bs, '_1')
    if change == 'stiffener':
        Bs.stiffener('2d', Bs.dom.b, (len(Bs.panels) - 1,) * 2, base=False, mf=(2, 1), Mf=(2, 1))
    t = anew(be, Bs)
    w = Args(be, '_b', Bs.size)
    given = [(k, x, flat(be, x)) for k, x in w.arrays()]
    keep = {k: getattr(s, k) for k in ('a', 'b', 'r', 'm', 'n', 'Mach', 'V', 'rho_air', 'speed_sound', 'flow', 'beta', 'gamma', 'aeromu') + tuple(Bs.dom.kw)}
    want = values(be, bay_calc(be, what, t, w))
    res = bay_calc(be, what, s, w)
    same(be, 'bay %s after a history' % what, values(be, res), want)
    same(be, 'bay %s a second time' % what, values(be, bay_calc(be, what, s, w)), want)
    same(be, 'result kept', values(be, res), want)
    kept(be, 'result kept', old)
    for k, x, vals in given:
        same(be, 'argument unchanged', [(k, flat(be, x))], [(k, vals)])
    unchanged(be, 'definition unchanged', s, keep)


def harnesses(tier):
    hs = []
    quick = tier == 'quick'

    def h(name, fn, cost=3, **k):
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 200, 'max_paths': 64})
    def d(m, n, curved, **k):
        return dict(m=(m, m + 2), n=(n, n + 1), curved=curved, **k)
    for q, what in enumerate(CALCS):
        cur = q % 2 == 0
        before = [x for x in CALCS if x != what]
        before = before[q:] + before[:q]
        # everything calculated before, nothing changed
        h(what + '-nothing-changed', history, what=what, first=before, changes=[], A=d(2 - q % 2, 1 + q % 2, cur), B=d(1 + q % 2, 2 - q % 2, not cur), other=True)
        # another definition altogether, with other terms
        h(what + '-all-changed', history, what=what, first=before if not quick else before[:6] + [what], changes=['all'], A=d(2 - q % 2, 1 + q % 2, cur), B=d(1 + q % 2, 2 - q % 2, not cur, lists=True, flow='xy'[q % 2], mach=q % 3 > 0))
        # one thing at a time
        h(what + '-laminate-changed', history, what=what, first=[what, before[q % 5]], changes=[['laminate']], A=d(2 - q % 2, 1 + q % 2, cur, lists=False), B=d(2 - q % 2, 1 + q % 2, cur, lists=False), other=q % 2 == 0)
        h(what + '-radius-changed', history, what=what, first=[before[q % 7], what], changes=[['radius']], A=d(2 - q % 2, 1 + q % 2, cur), B=d(2 - q % 2, 1 + q % 2, not cur))
        h(what + '-rest-changed', history, what=what, first=[what], changes=[['geometry', 'edges', 'stress', 'loads', 'air', 'constant stress'], ['part', 'orthotropic']],
          A=d(2 - q % 2, 1 + q % 2, cur, mach=q % 3 == 0), B=d(2 - q % 2, 1 + q % 2, cur, partial=True, flow='yx'[q % 2], mach=q % 3 > 0, ortho=True))
        if not quick:
            h(what + '-all-changed-2x2', history, 8, what=what, first=[what] + before[:4], changes=['all'], A=d(2, 2, cur), B=d(2, 2, not cur))
            h(what + '-laminate-lists', history, what=what, first=[what] + before[:3], changes=[['laminate', 'terms'], ['orthotropic']], A=d(1, 2, cur), B=d(2, 1, cur, ortho=True), other=True)
    for q, what in enumerate(MULTI):
        before = [x for x in MULTI if x != what]
        for z, change in enumerate(('none', 'laminate', 'geometry', 'loads', 'connection', 'list')):
            if quick and change != 'none' and (q + z) % 3:
                continue
            h('assembly-%s-%s' % (what, change), assembly, 4, what=what, first=before[q:] + before[:q] if change == 'none' else [what, before[q % 4]], change=change,
              func=('SSxcte', 'SSycte', 'BFycte')[z % 3], curved=((False, False), (True, False))[q % 2])
    for q, what in enumerate(BAY):
        before = [x for x in BAY if x != what]
        layout = 'b2d-flange' if what in ('flange', 'kG-state') or q % 2 else 'b1d-both'
        if layout == 'b1d-both':
            before = [x for x in before if x not in ('flange', 'kG-state')]
        for z, change in enumerate(('none', 'all', 'stiffener', 'laminates')):
            h('bay-%s-%s' % (what, change), bay, 4, what=what, first=before if z == 0 else [what] + before[:2], change=change, layout=layout, curved=(q + z) % 2 == 0)
    return hs
