"""C08: a panel restricted to a sub-rectangle integrates over exactly that sub-rectangle."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kC, calc_kG, calc_kM, calc_kA, calc_kT, calc_fint with x1, x2, y1, y2',
             'plate/cylshell_clpt_donnell_bardell_num.fkC_num, fkG_num, fkM_num, fkAx_num, fkAy_num, calc_fint']
BOUNDS = ('m, n in {2, 3} terms, 2 or 3 quadrature points per direction; any sub-rectangle, restricted along x, along y or both; '
          'all Ritz vectors, laminates, geometry and flags; every entry')
OUTSIDE = 'rounding of IEEE doubles; more terms or points than the bound (replayed at m=4, n=5); only one end of an interval given'
EXPLANATION = ('Every numerically integrated quantity is executed symbolically with the corners of the sub-rectangle as symbols; z3 decides '
               'each entry against the quadrature of the same integrand mapped to that sub-rectangle (points mapped affinely, weights scaled by '
               'its area). With C03 that is the exact integral over it, so the parts of a partition add up to the whole.')
ASSUMPTIONS = ['doubles are reals', 'C01, C03 (kernels)']
ALTERNATIVES = ['gxy-doubled']     # which strain the integrand is made of is C07's matter
GRAD = [[('w', 1, 1, 0)], [('w', 1, 0, 1)]]


def part(be, dom, ax):
    x1, x2, y1, y2 = 0, dom.a, 0, dom.b
    kw = {}
    if 'x' in ax:
        x1, x2 = be.real('px1', 0, .2), be.real('px2', .25, .5)
        kw.update(x1=x1, x2=x2)
    if 'y' in ax:
        y1, y2 = be.real('py1', 0, .2), be.real('py2', .25, .5)
        kw.update(y1=y1, y2=y2)
    return (x1, x2, y1, y2), kw


def run(be, m, n, M, N, nx, ny, curved, ax, what, nl=False):
    m, n = be.pick(m, M), be.pick(n, N)
    nx, ny = be.pick(nx, M + 1), be.pick(ny, N + 1)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be, rho=True)
    rect, kw = part(be, dom, ax)
    s = S.make_shell(be, dom, lam, nx=nx, ny=ny, **kw)
    s._rebuild()
    s.nx, s.ny = nx, ny
    F = lam.ABD()
    pts = list(dom.points(nx, ny, rect))
    H = {}
    if what == 'kC':
        K = be.call('kC', s.calc_kC)
        for p, q, xi, eta, wt in pts:
            S.quad_form(H, dom.rows(dom.strain_op(), xi, eta), F, wt)
    elif what == 'kG':
        s.Nxx, s.Nyy, s.Nxy = N_ = [be.real(k, -1.5, 2.) for k in ('Nxx', 'Nyy', 'Nxy')]
        K = be.call('kG', s.calc_kG)
        for p, q, xi, eta, wt in pts:
            S.quad_form(H, dom.rows(GRAD, xi, eta), [[N_[0], N_[2]], [N_[2], N_[1]]], wt)
    elif what == 'kC_cte':
        s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = N_ = [be.real(k, -1.5, 2.) for k in ('Nxx', 'Nyy', 'Nxy')]
        K = be.call('kC', s.calc_kC)
        for p, q, xi, eta, wt in pts:
            S.quad_form(H, dom.rows(dom.strain_op(), xi, eta), F, wt)
            S.quad_form(H, dom.rows(GRAD, xi, eta), [[N_[0], N_[2]], [N_[2], N_[1]]], wt)
    elif what == 'kT':
        c = S.bshape(be, 'c', dom.size)
        K = be.call('kT', s.calc_kT, c=c)
        for p, q, xi, eta, wt in pts:
            eps, B, _, _ = S.strains(dom, c, xi, eta, True)
            Nm = S.matvec(F, eps, 3)
            S.quad_form(H, B, F, wt)
            S.quad_form(H, dom.rows(GRAD, xi, eta), [[Nm[0], Nm[2]], [Nm[2], Nm[1]]], wt)
    elif what == 'fint':
        c = S.bshape(be, 'c', dom.size)
        fint = be.np.array(be.call('fint', s.calc_fint, c))
        v = {}
        for p, q, xi, eta, wt in pts:
            eps, B, _, _ = S.strains(dom, c, xi, eta, True)
            Nm = S.matvec(F, eps)
            for e in range(6):
                t = Nm[e] * wt
                for k, b in B[e].items():
                    S.add(v, k, b * t)
        S.compare_vec(be, 'fint', fint, v, dom.size)
        return
    elif what == 'kM':
        K = be.call('kM', s.calc_kM)
        h = lam.h
        m0 = be.dot(lam.rhos, lam.plyts)
        for p, q, xi, eta, wt in pts:
            S.quad_form(H, dom.rows([[('u', 1, 0, 0)], [('v', 1, 0, 0)], [('w', 1, 0, 0)], [('w', 1, 1, 0)], [('w', 1, 0, 1)]], xi, eta),
                        [[m0 if e == f and e < 3 else m0 * h * h / 12 if e == f else 0 for f in range(5)] for e in range(5)], wt)
    elif what in ('kAx', 'kAy'):
        s.beta, s.gamma = be.real('beta', .5, 2.), be.const(0.)
        s.flow = what[2]
        K = be.call('kA', s.calc_kA, finalize=False)
        for p, q, xi, eta, wt in pts:
            g, w = dom.rows([[('w', -1, 1, 0)] if what == 'kAx' else [('w', -1, 0, 1)], [('w', 1, 0, 0)]], xi, eta)
            for ka, va in g.items():
                for kb, vb in w.items():
                    if ka <= kb:
                        S.add(H, (ka, kb), va * vb * wt * s.beta)
    S.compare(be, 'part ' + what, K, H, dom.size)


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'
        k = 0
        for what in ('kC', 'kG', 'kC_cte', 'kT', 'fint', 'kM', 'kAx', 'kAy'):
            for ax in ('x', 'y', 'xy'):
                k += 1
                if tier == 'quick' and what in ('kT', 'kC_cte') and ax != 'xy':
                    continue
                hs.append({'name': '%s-%s-%s' % (nm, what, ax), 'fn': run, 'cost': 5 if what in ('kT', 'fint') else 1, 'timeout': 300,
                           'params': dict(m=2, n=2, M=4, N=5, nx=2 + k % 2, ny=3 - k % 2, curved=curved, ax=ax, what=what)})
        if tier != 'quick':
            for what in ('kC', 'fint', 'kM'):
                hs.append({'name': '%s-%s-xy-3x3' % (nm, what), 'fn': run, 'cost': 9, 'timeout': 400,
                           'params': dict(m=3, n=3, M=4, N=5, nx=3, ny=3, curved=curved, ax='xy', what=what)})
    return hs
