"""C16: penalty constants of connections and of prescribed displacements."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.multidomain']
FUNCTIONS = ['connections.calc_kt_kr, calc_kw_tsl, calc_ku_kv_kw_point_pd, calc_ku_kv_kw_line_pd_xcte, calc_ku_kv_kw_line_pd_ycte']
BOUNDS = ('laminates of 1 to 3 plies with every thickness, every material and offset (arbitrary ABD), all panel dimensions, both orders of the panels, every '
          'kind of connection; one or two calculations in a row, laminate changed in between')
OUTSIDE = 'rounding of IEEE doubles'
EXPLANATION = ('The functions are executed symbolically on shells whose laminate stiffnesses are arbitrary; z3 decides kt and kr against the strain '
               'compatibility formulas 4 k1 k2 / ((k1 + k2) (h1 + h2)) with k the membrane or bending stiffness across the line on each side (along x for a '
               'line of constant x, along y for constant y, one of each for a right-angle connection), the face constants divided by the shortest side or '
               'the area, and the prescribed-displacement constants as the membrane stiffness per length of line. Exchanging the panels exchanges the '
               'roles and nothing else; with equal laminates the constants are stiffness over thickness.')
ASSUMPTIONS = ['doubles are reals', 'the laminate package (ABD, h)']
KINDS = {'xcte': (0, 0), 'ycte': (1, 1), 'xcte-ycte': (0, 1), 'ycte-xcte': (1, 0)}


def pair(be, k1, k2):
    return 4 * k1 * k2


def shells(be, stacks, offs, same=False, equal_ab=False):
    doms, lams, out = [], [], []
    for k, st in enumerate(stacks):
        d = S.Dom(be, 2, 2, tag='_%d' % k, a=doms[0].a if k and equal_ab else None, b=doms[0].b if k and equal_ab else None)
        lam = lams[0] if k and same else S.Lam(be, tag='_%d' % k, stack=st, offset=offs[k])
        doms.append(d)
        lams.append(lam)
        out.append(S.make_shell(be, d, lam))
    return doms, lams, out


def expected(kind, F1, h1, F2, h2):
    p, q = KINDS[kind]
    A1, A2, D1, D2 = F1[p][p], F2[q][q], F1[3 + p][3 + p], F2[3 + q][3 + q]
    return 4 * A1 * A2 / ((A1 + A2) * (h1 + h2)), 4 * D1 * D2 / ((D1 + D2) * (h1 + h2))


def ktkr(be, kind, stacks, offs, upper=False, rebuilt=False):
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, stacks, offs)
    if rebuilt:
        for s in ss:
            s._rebuild()
    nm = kind.upper() if upper else kind
    F = [l.ABD() for l in lams]
    for a, b in ((0, 1), (1, 0), (0, 0)):
        kt, kr = be.call('calc_kt_kr', C.calc_kt_kr, ss[a], ss[b], nm)
        et, er = expected(kind, F[a], lams[a].h, F[b], lams[b].h)
        be.eq('kt[%d%d]' % (a, b), kt, et)
        be.eq('kr[%d%d]' % (a, b), kr, er)
    if kind in ('xcte', 'ycte'):
        x, y = be.call('calc_kt_kr', C.calc_kt_kr, ss[0], ss[1], kind), be.call('calc_kt_kr', C.calc_kt_kr, ss[1], ss[0], kind)
        p = KINDS[kind][0]
        t, r = be.call('calc_kt_kr', C.calc_kt_kr, ss[1], ss[1], kind)
        be.eq('kt symmetric', x[0], y[0])
        be.eq('kr symmetric', x[1], y[1])
        be.eq('kt, equal laminates', t, F[1][p][p] / lams[1].h)
        be.eq('kr, equal laminates', r, F[1][3 + p][3 + p] / lams[1].h)


def changed(be, kind, what):
    """The laminate given now counts, not the one of an earlier calculation."""
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, [(0, 30), (0, 45)], (False, False))
    be.call('calc_kt_kr', C.calc_kt_kr, ss[0], ss[1], kind)
    new = S.Lam(be, tag='_new', stack=(15, 60, 0) if what == 'stack' else lams[1].stack, offset=what == 'offset')
    if what == 'offset':
        new.plyts, new.prop = list(lams[1].plyts), lams[1].prop
    new.set(ss[1])
    kt, kr = be.call('calc_kt_kr', C.calc_kt_kr, ss[0], ss[1], kind)
    et, er = expected(kind, lams[0].ABD(), lams[0].h, new.ABD(), new.h)
    be.eq('kt, after a change', kt, et)
    be.eq('kr, after a change', kr, er)


def face(be, stacks, offs, longer=None):
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, stacks, offs, equal_ab=True)
    if longer:
        # clearly rectangular
        side = doms[0].a if longer == 'b' else doms[0].b
        more = side * be.real('ratio', 1.2, 2.)
        for d, s in zip(doms, ss):
            setattr(d, longer, more)
            setattr(s, longer, more)
    F = [l.ABD() for l in lams]
    for a, b in ((0, 1), (1, 0)):
        kt, kr = be.call('calc_kt_kr', C.calc_kt_kr, ss[a], ss[b], 'bot-top')
        A1, A2 = F[a][0][0], F[b][0][0]
        base = 4 * A1 * A2 / ((A1 + A2) * (lams[a].h + lams[b].h))
        side = doms[0].a if bool(doms[0].a <= doms[0].b) else doms[0].b
        be.eq('kt of faces[%d%d]' % (a, b), kt, base / side)
        be.true('kr of faces: none', kr is None)


def tsl(be):
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, [(0, 30), (0,)], (False, False), equal_ab=True)
    for a, b in ((0, 1), (1, 0)):
        be.eq('traction separation[%d%d]' % (a, b), be.call('calc_kw_tsl', C.calc_kw_tsl, ss[a], ss[b], 'linear'), be.const(1e4) / (doms[0].a * doms[0].b))
    be.raises('unknown law', C.calc_kw_tsl, ss[0], ss[1], 'bilinear')
    a, b = doms[0].a, doms[0].b
    d = be.real('more', .1, .5)
    for k, (da, db) in enumerate(((d, 0), (0, d), (d, d), (-d, d))):
        ss[1].a, ss[1].b = a + da, b + db
        be.raises('faces of different size', C.calc_kw_tsl, ss[0], ss[1], 'linear')
        be.raises('faces of different size', C.calc_kw_tsl, ss[1], ss[0], 'linear')


def prescribed(be, kind, stack, off):
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, [stack], [off])
    F = lams[0].ABD()
    ss[0]._rebuild()
    L = {'point': 1, 'line_xcte': doms[0].b, 'line_ycte': doms[0].a}[kind]
    fn = {'point': C.calc_ku_kv_kw_point_pd, 'line_xcte': C.calc_ku_kv_kw_line_pd_xcte, 'line_ycte': C.calc_ku_kv_kw_line_pd_ycte}[kind]
    got = be.call('penalties', fn, ss[0])
    be.true('three penalties', len(got) == 3)
    for nm, g, e in zip(('ku', 'kv', 'kw'), got, (F[0][0], F[1][1], F[0][0])):
        be.eq(nm, g, e / L)


def undefined(be):
    """A panel without laminate gets no constants."""
    C = be.mod('panels.multidomain.connections')
    doms, lams, ss = shells(be, [(0, 30), (0,)], (False, False))
    d = S.Dom(be, 2, 2, tag='_x')
    e = S.make_shell(be, d, None)
    for k in ('xcte', 'ycte', 'bot-top'):
        be.raises('panel without laminate', C.calc_kt_kr, ss[0], e, k)
        be.raises('panel without laminate', C.calc_kt_kr, e, ss[0], k)


def harnesses(tier):
    hs = []

    def h(name, fn, **k):
        hs.append({'name': name, 'fn': fn, 'params': k})
    lams = [([(0, 45, 20), (0, 90)], (True, False)), ([(30,), (0, 45)], (False, True)), ([(0, 0), (45, -45, 10)], (False, False))]
    for q, kind in enumerate(KINDS):
        for k, (st, of) in enumerate(lams):
            h('%s-%d' % (kind, k), ktkr, kind=kind, stacks=st, offs=of, upper=k == 1, rebuilt=k == 2)
        for what in ('stack', 'offset'):
            h('%s-changed-%s' % (kind, what), changed, kind=kind, what=what)
    for k, (st, of) in enumerate(lams):
        h('faces-%d' % k, face, stacks=st, offs=of)
        for longer in 'ab':
            h('faces-%d-longer-%s' % (k, longer), face, stacks=st, offs=of, longer=longer)
        for kind in ('point', 'line_xcte', 'line_ycte'):
            h('prescribed-%s-%d' % (kind, k), prescribed, kind=kind, stack=st[0], off=of[0])
    h('traction-separation', tsl)
    h('undefined', undefined)
    return hs
