"""C13: aerodynamic matrices of linear piston theory."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kA, Shell.calc_cA', 'plate/cylshell_clpt_donnell_bardell_num.fkAx_num, fkAy_num',
             'plate/cylshell_clpt_donnell_bardell.fkAx, fkAy, fcA']
BOUNDS = ('m, n in {2, 3} terms, series of 1 x 7 and 7 x 1, as many quadrature points as the panel takes (3 or more); all geometry, edge flags, '
          'Mach numbers from 1.05 to 4 and exactly 1, speeds, densities, radii, given coefficients; every matrix entry; one or two calculations in a row')
OUTSIDE = ('rounding of IEEE doubles; more terms than the bound (replayed at m=4, n=5); the term at an edge across the flow where the deflection is '
           'free, which the skew-symmetric completion the code states as its assumption leaves out')
EXPLANATION = ('calc_kA and calc_cA are executed symbolically; z3 decides every entry against the stiffness of the piston pressure '
               '-beta w,x + gamma w (flow along x) or -beta w,y: the quadrature of its work with the derivative on the row term above the diagonal, the slope '
               'part completed skew-symmetrically and the curvature part (a negative stiffness -gamma w) symmetrically below; beta = rho V^2 / sqrt(M^2 - 1) and gamma = beta / (2 r sqrt(M^2 - 1)) '
               'unless given. The damping matrix is -aeromu times the Gram matrix of the deflection, imaginary. After a change of Mach number, '
               'speed or density a new calculation answers for the new values.')
ASSUMPTIONS = ['doubles are reals', 'C01, C02, C03 (kernels)', 'deflection zero at the edges across the flow (skew-symmetry of the slope part)']


def piston(be, s, dom, beta, gamma, flow, nx, ny, finalize=True):
    U, G = {}, {}
    op = [[('w', -1, 1, 0)] if flow == 'x' else [('w', -1, 0, 1)], [('w', 1, 0, 0)]]
    for p, q, xi, eta, wt in dom.points(nx, ny):
        g, w = dom.rows(op, xi, eta)
        for ka, va in g.items():
            for kb, vb in w.items():
                if ka <= kb:
                    S.add(U, (ka, kb), va * vb * wt * beta)
                    if flow == 'x' and not (isinstance(gamma, (int, float)) and gamma == 0):
                        S.add(G, (ka, kb), w[ka] * vb * wt * -gamma)
    wrong = be.dev('gamma-sign')
    H = dict(U)
    for k, v in G.items():
        S.add(H, k, -v if wrong else v)
    if not finalize:
        return H
    for (r, c), v in list(U.items()):
        if r != c:
            S.add(H, (c, r), -v)
    for (r, c), v in G.items():
        if r != c:
            S.add(H, (c, r), v)
    return H


def coefficients(be, s, how, curved, tag=''):
    """Sets the flow on the shell; what beta and gamma then are."""
    if how in ('beta', 'both'):
        s.beta = be.real('beta' + tag, .5, 2.)
        if how == 'both':
            s.gamma = be.real('gamma' + tag, .2, .8)
        return s.beta, s.gamma if how == 'both' else 0
    s.Mach = M = be.real('Mach' + tag, 1.05, 4.) if how == 'mach' else be.const(1.)
    s.V, s.rho_air = V, rho = be.real('V' + tag, .5, 2.), be.real('rho_air' + tag, .5, 2.)
    if how == 'sonic':
        M = be.const(1.0001)
    root = be.sqrt(M * M - 1)
    beta = rho * V * V / root
    return beta, beta / (2 * s.r * root) if curved else 0


def kA(be, m, n, M, N, curved, how, flow, finalize=True):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)), nx=3, ny=3)
    s.flow = flow if finalize else flow.upper()
    beta, gamma = coefficients(be, s, how, curved)
    K = be.call('kA', s.calc_kA, finalize=finalize)
    H = piston(be, s, dom, beta, gamma, flow, s.nx, s.ny, finalize)
    S.compare(be, 'kA', K, H, dom.size)


def again(be, curved, hows):
    """Two calculations in a row, the second with other values."""
    dom = S.Dom(be, 2, 2, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)), nx=3, ny=3)
    for k, how in enumerate(hows):
        s.flow = 'xy'[k % 2]
        s.beta = s.gamma = None
        if how == 'same':
            # only the speed changes
            s.V = be.real('V_new', .5, 2.)
            M = s.Mach
            root = be.sqrt(M * M - 1)
            beta = s.rho_air * s.V * s.V / root
            gamma = beta / (2 * s.r * root) if curved else 0
        else:
            beta, gamma = coefficients(be, s, how, curved, '_%d' % k)
        K = be.call('kA', s.calc_kA)
        S.compare(be, 'kA, calculation %d' % (k + 1), K, piston(be, s, dom, beta, gamma, s.flow, s.nx, s.ny), dom.size)


def again_untouched(be, curved):
    """As a user does it: only V is changed between the two calls."""
    dom = S.Dom(be, 2, 2, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)), nx=3, ny=3)
    s.flow = 'x'
    s.Mach = be.const(2.)
    s.rho_air = be.real('rho_air', .5, 2.)
    for k in (1, 2):
        s.V = be.real('V%d' % k, .5, 2.)
        root = be.sqrt(s.Mach * s.Mach - 1)
        beta = s.rho_air * s.V * s.V / root
        gamma = beta / (2 * s.r * root) if curved else 0
        K = be.call('kA', s.calc_kA)
        S.compare(be, 'kA, speed %d' % k, K, piston(be, s, dom, beta, gamma, 'x', s.nx, s.ny), dom.size)


def refused(be):
    dom = S.Dom(be, 2, 2)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)))
    s.V, s.rho_air = be.real('V', .5, 2.), be.real('rho_air', .5, 2.)
    s.flow = 'x'
    be.raises('no Mach number', s.calc_kA)
    s.Mach = be.real('Mach', .1, .95)
    be.raises('subsonic flow', s.calc_kA)
    s.Mach = be.const(2.)
    s.flow = 'z'
    be.raises('flow along neither x nor y', s.calc_kA)


def closed(be, m, n, M, N, curved, what):
    """The closed forms of the same operators."""
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)))
    be.call('rebuild', s._rebuild)
    mod = be.mod('panels.modelDB').db[s.model]['matrices']
    row0 = 3
    size = row0 + dom.size + 1
    beta = be.real('beta', .5, 2.)
    H = {}
    if what == 'fkAx':
        gamma = be.real('gamma', .2, .8) if curved else be.const(0.)
        K = be.call(what, mod.fkAx, beta, gamma, s, size, row0, row0)
        W = [[None, -beta], [None, -gamma if curved else None]]
    elif what == 'fkAy':
        K = be.call(what, mod.fkAy, beta, s, size, row0, row0)
        W = [[None, -beta], [None, None]]
    else:
        K = be.call(what, mod.fcA, beta, s, size, row0, row0)
        W = [[None, None], [None, -beta]]
    ops = [[('w', 1, 0, 1)] if what == 'fkAy' else [('w', 1, 1, 0)], [('w', 1, 0, 0)]]
    H = {(r + row0, c + row0): v for (r, c), v in dom.quadratic_exact(ops, W).items()}
    # the kernels fill the upper triangle
    S.compare(be, what, K, H, size, sel=lambda r, c: r <= c)


def cA(be, m, n, M, N, curved, finalize=True):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be, stack=(0, 30)))
    mu = be.real('aeromu', .5, 2.)
    K = be.call('cA', s.calc_cA, mu)
    H = dom.quadratic_exact([[('w', 1, 0, 0)]], [[-mu * be.const(1j)]])
    S.compare(be, 'cA', K, H, dom.size)


def harnesses(tier):
    hs = []

    def h(name, fn, cost=1, **k):
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost})
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'
        for flow in 'xy':
            for how in ('beta', 'both', 'mach', 'sonic'):
                h('%s-%s-%s' % (nm, flow, how), kA, m=2, n=3 - (how == 'mach'), M=4, N=5, curved=curved, how=how, flow=flow)
            h('%s-%s-upper' % (nm, flow), kA, m=3, n=2, M=4, N=5, curved=curved, how='both', flow=flow, finalize=False)
            for m, n in ((7, 1), (1, 7)) + (() if tier == 'quick' else ((16, 1), (1, 16))):
                h('%s-%s-line-%dx%d' % (nm, flow, m, n), kA, cost=2, m=m, n=n, M=m + 1, N=n + 1, curved=curved, how='both', flow=flow)
            if tier != 'quick':
                h('%s-%s-3x3' % (nm, flow), kA, cost=3, m=3, n=3, M=5, N=5, curved=curved, how='both', flow=flow)
        h(nm + '-two-flows', again, curved=curved, hows=('mach', 'mach'))
        h(nm + '-two-kinds', again, curved=curved, hows=('both', 'mach', 'beta'))
        h(nm + '-speed', again_untouched, curved=curved)
        for what in ('fkAx', 'fkAy', 'fcA'):
            for m, n in ((2, 3), (3, 2), (8, 1), (1, 8)) + (() if tier == 'quick' else ((3, 3), (20, 1), (1, 20))):
                h('%s-%s-%dx%d' % (nm, what, m, n), closed, m=m, n=n, M=m + 2, N=n + 2, curved=curved, what=what)
        h(nm + '-damping', cA, m=2, n=3, M=4, N=3, curved=curved)
    h('refused', refused)
    return hs
