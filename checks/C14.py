"""C14: the mass matrix is the Hessian of the kinetic energy of the laminate."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kM', 'plate_clpt_donnell_bardell.fkM', 'cylshell_clpt_donnell_bardell.fkM', 'plate/cylshell_clpt_donnell_bardell_num.fkM_num']
BOUNDS = ('m, n in {2, 3} terms, series of 1 x 9 and 9 x 1; numerically 2 or 3 quadrature points per direction and thickness and density given '
          'per point; all geometry, edge flags, laminates (densities and thicknesses per ply, offset); every matrix entry')
OUTSIDE = ('rounding of IEEE doubles; more terms or points than the bound (replayed at m=4, n=5); densities that vary through the thickness enter, '
           'as the documentation says, through their mean')
EXPLANATION = ('calc_kM is executed symbolically; z3 decides every entry against the second derivative of 1/2 int rho (u,t^2+v,t^2+w,t^2) over the '
               'volume with u = u0 - z w,x, v = v0 - z w,y, z measured from the reference surface the stiffness uses, rho the mean density of the '
               'laminate; numerically with thickness and density of each point.')
ASSUMPTIONS = ['doubles are reals', 'C01, C02, C03 (kernels)', 'composites gives the mass per area']


def ops(d):
    return [[('u', 1, 0, 0), ('w', -d, 1, 0)], [('v', 1, 0, 0), ('w', -d, 0, 1)], [('w', 1, 0, 0)], [('w', 1, 1, 0)], [('w', 1, 0, 1)]]


def weights(m0, h):
    j = m0 * h * h / 12
    return [[(m0 if e < 3 else j) if e == f else 0 for f in range(5)] for e in range(5)]


def mass(be, m, n, M, N, curved, how, stack=(0, 45, 20), offset=True):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be, stack=stack, offset=offset, rho=how != 'rho')
    kw = {}
    if how == 'model':
        # a flat panel analysed with the shell kernels, which do not need a radius here
        kw['model'] = 'cylshell_clpt_donnell_bardell'
    s = S.make_shell(be, dom, lam, **kw)
    if how == 'rho':
        s.rhos = None
        s.rho = be.real('rho', .8, 2.)
        lam.rhos = [s.rho for _ in lam.stack]
    r0 = s.r
    K = be.call('kM', s.calc_kM)
    H = dom.quadratic_exact(ops(lam.offset), weights(be.dot(lam.rhos, lam.plyts), lam.h))
    S.compare(be, 'kM', K, H, dom.size)


def numeric(be, m, n, M, N, nx, ny, curved, how):
    m, n = be.pick(m, M), be.pick(n, N)
    nx, ny = be.pick(nx, M + 1), be.pick(ny, N + 2)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be, stack=(0, 30), offset=True, rho=True)
    s = S.make_shell(be, dom, lam)
    s._rebuild()
    kw = {}
    h = [[lam.h for _ in range(ny)] for _ in range(nx)]
    rho = [[be.dot(lam.rhos, lam.plyts) / lam.h for _ in range(ny)] for _ in range(nx)]
    if 'h' in how:
        h = [[be.real('h_%d_%d' % (p, q), .5, 2.) for q in range(ny)] for p in range(nx)]
        kw['h_nxny'] = be.arr(h)
    if 'r' in how:
        rho = [[be.real('r_%d_%d' % (p, q), .5, 2.) for q in range(ny)] for p in range(nx)]
        kw['rho_nxny'] = be.arr(rho)
    K = be.call('kM', s.calc_kM, nx=nx, ny=ny, **kw)
    H = {}
    for p, q, xi, eta, wt in dom.points(nx, ny):
        S.quad_form(H, dom.rows(ops(lam.offset), xi, eta), weights(h[p][q] * rho[p][q], h[p][q]), wt)
    S.compare(be, 'kM', K, H, dom.size)


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'
        for m, n in ((2, 3), (3, 2)) + (() if tier == 'quick' else ((3, 3), (4, 2), (3, 4))):
            hs.append({'name': '%s-%dx%d' % (nm, m, n), 'fn': mass, 'params': dict(m=m, n=n, M=m + 2, N=n + 2, curved=curved, how='lam')})
        for m, n in ((9, 1), (1, 9)) + (() if tier == 'quick' else ((24, 1), (1, 24))):
            hs.append({'name': '%s-line-%dx%d' % (nm, m, n), 'fn': mass, 'cost': 2, 'params': dict(m=m, n=n, M=m + 3, N=n + 3, curved=curved, how='lam')})
        hs.append({'name': nm + '-one-density', 'fn': mass, 'params': dict(m=2, n=2, M=4, N=3, curved=curved, how='rho', stack=(0, 20), offset=False)})
        for k, how in enumerate(('h', 'r', 'hr')):
            hs.append({'name': '%s-per-point-%s' % (nm, how), 'fn': numeric, 'cost': 3,
                       'params': dict(m=2, n=2 + (how == 'hr'), M=4, N=5, nx=2 + k % 2, ny=3 - k % 2, curved=curved, how=how)})
        if tier != 'quick':
            hs.append({'name': nm + '-per-point-3x3', 'fn': numeric, 'cost': 6,
                       'params': dict(m=3, n=3, M=4, N=5, nx=4, ny=3, curved=curved, how='hr')})
            for m, n in ((12, 1), (1, 12)):
                hs.append({'name': '%s-per-point-%dx%d' % (nm, m, n), 'fn': numeric, 'cost': 6,
                           'params': dict(m=m, n=n, M=m + 1, N=n + 1, nx=2, ny=2, curved=curved, how='hr')})
    return hs
