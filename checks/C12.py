"""C12: connection stiffness between domains and penalties of prescribed displacements: the energy of the gaps they close."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.multidomain']
FUNCTIONS = ['MultiDomain.get_kC_conn, MultiDomain.__init__', 'kCSSxcte, kCSSycte, kCBFxcte, kCBFycte, kCSB (11, 12 and 22 blocks)',
             'kCpd.fkCpd, fkCld_xcte, fkCld_ycte']
BOUNDS = ('two or three domains of (2,2), (2,3), (3,2) terms each, listed in either order; every connection type alone and several together; '
          'a domain joined to itself along two lines; connecting line anywhere on either domain; all geometry, edge flags and laminates; every matrix entry')
OUTSIDE = 'rounding of IEEE doubles; more terms than the bound (replayed at up to 4 by 5); the undocumented type kCLTxycte, whose kernels do not exist'
EXPLANATION = ('get_kC_conn and the penalty kernels are executed symbolically; z3 decides every entry of the returned matrix against the second '
               'derivative of the penalty energy 1/2 int k gap^2 of each connection, the gaps being the differences of displacements and of the '
               'edge rotation across the line (rotated by a right angle for base-flange), or between the faces in contact for skin-base, with kt '
               'and kr as calc_kt_kr returns them (C16).')
ASSUMPTIONS = ['doubles are reals', 'C01, C02 (kernels)', 'C16 (penalty constants)', 'the connected edges have the same length']

# gaps as (penalty, [(domain, field, coefficient, px, py)]) in physical coordinates
SS = lambda rx, ry: [('kt', [(0, 'u', 1, 0, 0), (1, 'u', -1, 0, 0)]), ('kt', [(0, 'v', 1, 0, 0), (1, 'v', -1, 0, 0)]),
                     ('kt', [(0, 'w', 1, 0, 0), (1, 'w', -1, 0, 0)]), ('kr', [(0, 'w', 1, rx, ry), (1, 'w', -1, rx, ry)])]
GAPS = {'SSxcte': SS(1, 0), 'SSycte': SS(0, 1),
        'BFycte': [('kt', [(0, 'u', 1, 0, 0), (1, 'u', -1, 0, 0)]), ('kt', [(0, 'v', 1, 0, 0), (1, 'w', -1, 0, 0)]),
                   ('kt', [(0, 'w', 1, 0, 0), (1, 'v', 1, 0, 0)]), ('kr', [(0, 'w', 1, 0, 1), (1, 'w', -1, 0, 1)])],
        'BFxcte': [('kt', [(0, 'v', 1, 0, 0), (1, 'v', -1, 0, 0)]), ('kt', [(0, 'u', 1, 0, 0), (1, 'w', -1, 0, 0)]),
                   ('kt', [(0, 'w', 1, 0, 0), (1, 'u', 1, 0, 0)]), ('kr', [(0, 'w', 1, 1, 0), (1, 'w', -1, 1, 0)])]}


def line_terms(be, dom, terms, axis, pos):
    """[(dof, coefficient, integrated function)]: a line x = pos (axis 'x') or y = pos, integrand over the other coordinate."""
    out = []
    nat = 2 * pos / (dom.a if axis == 'x' else dom.b) - 1
    for fld, c, px, py in terms:
        for j in range(dom.n):
            for i in range(dom.m):
                v = c
                for _ in range(px):
                    v = v * 2 / dom.a
                for _ in range(py):
                    v = v * 2 / dom.b
                if axis == 'x':
                    out.append((dom.dof(fld, i, j), v * dom.X(px, fld, i, nat), (py, j, dom.fy[fld])))
                else:
                    out.append((dom.dof(fld, i, j), v * dom.Y(py, fld, j, nat), (px, i, dom.fx[fld])))
    return out


def area_terms(be, dom, terms):
    out = []
    for fld, c, px, py in terms:
        for j in range(dom.n):
            for i in range(dom.m):
                v = c
                for _ in range(px):
                    v = v * 2 / dom.a
                for _ in range(py):
                    v = v * 2 / dom.b
                out.append((dom.dof(fld, i, j), v, (px, i, dom.fx[fld]), (py, j, dom.fy[fld])))
    return out


def energy(be, H, k, jac, parts):
    """H += k * int (sum of terms)^2 with the terms [(row offset, terms)]."""
    ts = [(o + t[0],) + t[1:] for o, ts_ in parts for t in ts_]
    for A in ts:
        for B in ts:
            v = k * jac * A[1] * B[1]
            for fa, fb in zip(A[2:], B[2:]):
                v = v * be.I(fa[0], fb[0], fa[1], fb[1], fa[2], fb[2])
            S.add(H, (A[0], B[0]), v)


def gap_line(be, H, doms, offs, func, pos, kt, kr):
    axis = 'x' if func.endswith('xcte') else 'y'
    L = doms[0].b if axis == 'x' else doms[0].a
    for kind, terms in GAPS[func]:
        parts = [(offs[d], line_terms(be, doms[d], [t[1:] for t in terms if t[0] == d], axis, pos[d])) for d in (0, 1)]
        energy(be, H, kt if kind == 'kt' else kr, L / 2, parts)


def gap_area(be, H, doms, offs, d, kt):
    """The face of the first domain at distance d below its mid-surface against the second domain."""
    for terms in ([(0, 'u', 1, 0, 0), (0, 'w', d, 1, 0), (1, 'u', -1, 0, 0)], [(0, 'v', 1, 0, 0), (0, 'w', d, 0, 1), (1, 'v', -1, 0, 0)],
                  [(0, 'w', 1, 0, 0), (1, 'w', -1, 0, 0)]):
        parts = [(offs[k], area_terms(be, doms[k], [t[1:] for t in terms if t[0] == k])) for k in (0, 1)]
        energy(be, H, kt, doms[0].a * doms[0].b / 4, parts)


def setup(be, sizes, Sizes, share):
    """Domains with symbolic geometry; share: which length all of them have in common ('a', 'b', 'ab')."""
    doms, shells = [], []
    for k, ((m, n), (M, N)) in enumerate(zip(sizes, Sizes)):
        a = doms[0].a if k and 'a' in share else None
        b = doms[0].b if k and 'b' in share else None
        d = S.Dom(be, be.pick(m, M), be.pick(n, N), tag='_%d' % k, a=a, b=b)
        s = S.make_shell(be, d, S.Lam(be, tag='_%d' % k, stack=(0, 45)[:2 - k % 2], offset=k == 1))
        s.group = 'g%d' % k
        doms.append(d)
        shells.append(s)
    return doms, shells


def offsets(doms, order):
    o, offs = 0, {}
    for k in order:
        offs[k] = o
        o += doms[k].size
    return offs, o


def penalties(be, func, s1, s2, dom):
    C = be.mod('panels.multidomain.connections')
    if func == 'SB_TSL':
        return be.call('penalty', C.calc_kw_tsl, s1, s2, 'linear'), None
    return be.call('penalty', C.calc_kt_kr, s1, s2, {'SB': 'bot-top'}.get(func, func[2:]))


def connect(be, func, doms, shells, k1, k2, tag=''):
    """A connection dictionary between two of the domains, and what it should mean."""
    c = dict(p1=shells[k1], p2=shells[k2], func=func)
    if func == 'SB_TSL':
        c['tsl_type'] = 'linear'
        return c, None
    if func == 'SB':
        return c, None
    ax = func[2]
    pos = [be.real('%s%d%s' % (ax, q, tag), 0, .5) for q in (1, 2)]
    c[ax + 'cte1'], c[ax + 'cte2'] = pos
    return c, pos


def expect(be, H, func, doms, shells, offs, k1, k2, pos):
    kt, kr = penalties(be, func, shells[k1], shells[k2], doms[k1])
    pair = [doms[k1], doms[k2]]
    po = [offs[k1], offs[k2]]
    if func in ('SB', 'SB_TSL'):
        gap_area(be, H, pair, po, sum(shells[k1].plyts) / 2 + sum(shells[k2].plyts) / 2, kt)
    else:
        gap_line(be, H, pair, po, func, pos, kt, kr)


def conn(be, func, sizes, Sizes, order, finalize=True, via='arg'):
    doms, shells = setup(be, sizes, Sizes, 'ab' if func[:2] == 'SB' else 'b' if func.endswith('xcte') else 'a')
    MD = be.mod('panels.multidomain').MultiDomain
    c, pos = connect(be, func, doms, shells, 0, 1)
    before = dict(c)
    offs, size = offsets(doms, order)
    cs = [c]
    A = MD([shells[k] for k in order], cs) if via == 'init' else MD([shells[k] for k in order])
    K = be.call('get_kC_conn', A.get_kC_conn) if via == 'init' else be.call('get_kC_conn', A.get_kC_conn, conn=cs)
    H = {}
    expect(be, H, func, doms, shells, offs, 0, 1, pos)
    S.compare(be, '%s connection' % func, K, H, size)
    be.true('the connection given is left as it was', len(cs) == 1 and cs[0] is c and sorted(c) == sorted(before) and all(
        c[k] is before[k] for k in before))


def several(be, funcs, order, sizes, Sizes):
    """Three domains; the matrix of several connections is the sum of theirs."""
    doms, shells = setup(be, sizes, Sizes, 'ab')
    MD = be.mod('panels.multidomain').MultiDomain
    offs, size = offsets(doms, order)
    cs, exp = [], []
    for q, (func, k1, k2) in enumerate(funcs):
        c, pos = connect(be, func, doms, shells, k1, k2, '_c%d' % q)
        cs.append(c)
        exp.append((func, k1, k2, pos))
    A = MD([shells[k] for k in order])
    K = be.call('get_kC_conn', A.get_kC_conn, conn=cs)
    H = {}
    for func, k1, k2, pos in exp:
        expect(be, H, func, doms, shells, offs, k1, k2, pos)
    S.compare(be, 'several connections', K, H, size)


def other(be):
    """A second set of connections is not answered with the matrix of the first; unknown or missing ones are refused."""
    doms, shells = setup(be, [(2, 2), (2, 2)], [(2, 2), (2, 2)], 'ab')
    MD = be.mod('panels.multidomain').MultiDomain
    offs, size = offsets(doms, [0, 1])
    A = MD(shells)
    be.raises('no connection defined', A.get_kC_conn)
    be.raises('unknown type', MD(shells).get_kC_conn, conn=[dict(p1=shells[0], p2=shells[1], func='SSzcte')])
    for q, func in enumerate(('SSxcte', 'BFycte')):
        c, pos = connect(be, func, doms, shells, 0, 1, '_%d' % q)
        K = be.call('get_kC_conn', A.get_kC_conn, conn=[c])
        H = {}
        expect(be, H, func, doms, shells, offs, 0, 1, pos)
        S.compare(be, 'connections given now (%s)' % func, K, H, size)


def prescribed(be, kind, m, n, M, N):
    C = be.mod('panels.multidomain.connections')
    dom = S.Dom(be, be.pick(m, M), be.pick(n, N))
    s = S.make_shell(be, dom, S.Lam(be))
    ks = [be.real(k, .5, 2.) for k in ('ku', 'kv', 'kw')]
    row0 = 3 * 2
    size = row0 + dom.size + 3
    x, y = be.real('x', 0, .5), be.real('y', 0, .5)
    H = {}
    if kind == 'point':
        K = be.call('fkCpd', C.fkCpd, *ks, s, x, y, size, row0, row0)
    elif kind == 'xcte':
        K = be.call('fkCld_xcte', C.fkCld_xcte, *ks, s, x, size, row0, row0)
    else:
        K = be.call('fkCld_ycte', C.fkCld_ycte, *ks, s, y, size, row0, row0)
    for k, fld in zip(ks, 'uvw'):
        if kind == 'point':
            r, = dom.rows([[(fld, 1, 0, 0)]], 2 * x / dom.a - 1, 2 * y / dom.b - 1)
            for p in r:
                for q in r:
                    S.add(H, (row0 + p, row0 + q), k * r[p] * r[q])
        else:
            energy(be, H, k, (dom.b if kind == 'xcte' else dom.a) / 2,
                   [(row0, line_terms(be, dom, [(fld, 1, 0, 0)], kind[0], x if kind == 'xcte' else y))])
    # the kernels fill the upper triangle
    S.compare(be, 'prescribed displacement (%s)' % kind, K, H, size, sel=lambda r, c: r <= c)


def harnesses(tier):
    hs = []
    big = [(3, 4), (4, 2)]

    def h(name, fn, **k):
        k.setdefault('Sizes', big)
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': 3, 'timeout': 200})
    for q, func in enumerate(('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB', 'SB_TSL')):
        for order in ([0, 1], [1, 0]):
            nm = '%s-%s' % (func, 'listed' if order == [0, 1] else 'reversed')
            h(nm, conn, func=func, sizes=[(2, 3), (3, 2)] if q % 2 else [(3, 2), (2, 3)], order=order, via='init' if order[0] == q % 2 else 'arg')
            h(nm + '-line', conn, func=func, sizes=[(5, 1), (1, 5)] if q % 2 else [(1, 5), (5, 1)], order=order, Sizes=[(6, 2), (2, 6)] if q % 2 else [(2, 6), (6, 2)])
            if tier != 'quick':
                h(nm + '-3x3', conn, func=func, sizes=[(3, 3), (2, 3)], order=order)
                h(nm + '-long', conn, func=func, sizes=[(7, 1), (1, 7)], order=order)
    h('three-domains', several, funcs=[('SSxcte', 0, 1), ('SSycte', 2, 1), ('BFycte', 2, 0)], order=[1, 2, 0], sizes=[(2, 1), (1, 2), (2, 2)],
      Sizes=[(2, 3), (3, 2), (2, 2)])
    h('three-domains-sb', several, funcs=[('SB', 2, 0), ('BFxcte', 1, 2), ('SSxcte', 2, 1)], order=[0, 1, 2], sizes=[(2, 1), (1, 2), (2, 2)],
      Sizes=[(2, 3), (3, 2), (2, 2)])
    for func in ('SSycte', 'SSxcte', 'BFycte'):
        h('closed-' + func, several, funcs=[(func, 1, 1)], order=[0, 1], sizes=[(1, 2), (3, 2)], Sizes=[(2, 3), (3, 3)])
    hs.append({'name': 'other-connections', 'fn': other, 'params': {}, 'cost': 2})
    for kind in ('point', 'xcte', 'ycte'):
        for m, n in ((2, 3), (3, 2), (6, 1), (1, 6)) + (() if tier == 'quick' else ((4, 4), (15, 1), (1, 15))):
            hs.append({'name': 'prescribed-%s-%dx%d' % (kind, m, n), 'fn': prescribed, 'params': dict(kind=kind, m=m, n=n, M=m + 2, N=n + 3)})
    return hs
