"""C05: the numerically integrated constitutive stiffness, linear and large-displacement, constant and variable laminates."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kC', 'plate_clpt_donnell_bardell_num.fkC_num', 'cylshell_clpt_donnell_bardell_num.fkC_num']
BOUNDS = ('m, n in {2, 3} terms, 2 to 4 quadrature points per direction; all Ritz vectors c, geometry, flags, laminates, and laminate fields '
          '(one symmetric ABD per point); every matrix entry')
OUTSIDE = 'rounding of IEEE doubles; more terms or points than the bound (replayed at m=4, n=5)'
EXPLANATION = ('calc_kC with c, NLgeom and per-point laminates is executed symbolically down to the numeric kernels, with every shape-function '
               'value and quadrature node an uninterpreted value of its arguments (C01, C03); z3 decides each entry against '
               'sum_q w_q B(c)^T F_q B(c), B the variation of the Donnell strains at c.')
ASSUMPTIONS = ['doubles are reals', 'C01 (shape functions)', 'C03 (quadrature)']


def kC(be, m, n, M, N, nx, ny, curved, nl, field, lin_c=True):
    m, n = be.pick(m, M), be.pick(n, N)
    nx, ny = be.pick(nx, M + 1), be.pick(ny, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    s = S.make_shell(be, dom, lam)
    c = S.bshape(be, 'c', dom.size)
    F0 = lam.ABD()
    kw = {}
    if field:
        Fl, kw['ABDnxny'] = S.laminate_field(be, nx, ny)
    if lin_c:
        kw['c'] = c
    K = be.call('kC', s.calc_kC, nx=nx, ny=ny, NLgeom=nl, **kw)
    H = {}
    for p, q, xi, eta, wt in dom.points(nx, ny):
        _, B, _, _ = S.strains(dom, c if lin_c else [0] * dom.size, xi, eta, nl and lin_c)
        S.quad_form(H, B, Fl[p][q] if field else F0, wt)
    S.compare(be, 'kC numeric', K, H, dom.size)


def shapes(be, curved):
    """A laminate field of the wrong shape is refused."""
    dom = S.Dom(be, 2, 2, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be))
    c = S.bshape(be, 'c', dom.size)
    for shp in ((2, 3), (3, 2), (2, 4)):
        F = be.np.zeros(shp + (6, 6), dtype=be.np.float64)
        be.raises('kC with a laminate field of shape %s for 2 x 2 points' % (shp,), s.calc_kC, c=c, nx=2, ny=2, ABDnxny=F)
    be.raises('kC with a 5 x 5 laminate', s.calc_kC, c=c, nx=2, ny=2, ABDnxny=be.np.zeros((5, 5), dtype=be.np.float64))


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'

        def h(name, **k):
            p = dict(m=2, n=2, M=4, N=5, nx=2, ny=2, curved=curved, nl=False, field=False)
            p.update(k)
            hs.append({'name': nm + '-' + name, 'fn': kC, 'params': p, 'cost': 5 if p['nl'] else 2, 'timeout': 300})
        h('linear-2x3', m=2, n=3, nx=3, ny=2)
        h('linear-3x2', m=3, n=2, nx=2, ny=3)
        h('linear-field', nx=2, ny=3, field=True)
        h('nonlinear', nl=True, nx=2, ny=3)
        h('nonlinear-field', nl=True, nx=3, ny=2, field=True)
        h('linear-7x1', m=7, n=1, nx=2, ny=2)
        h('linear-1x7', m=1, n=7, nx=2, ny=2, field=True)
        h('nonlinear-4x1', m=4, n=1, nl=True, nx=2, ny=1, field=True)
        h('nonlinear-1x4', m=1, n=4, nl=True, nx=1, ny=2)
        h('field-without-c', field=True, lin_c=False)
        h('nonlinear-field-without-c', field=True, lin_c=False, nl=True)
        if tier != 'quick':
            h('linear-14x1', m=14, n=1, nx=2, ny=2, field=True)
            h('linear-1x14', m=1, n=14, nx=2, ny=2)
            h('nonlinear-6x1', m=6, n=1, nl=True, nx=2, ny=1)
            h('nonlinear-1x6', m=1, n=6, nl=True, nx=1, ny=2, field=True)
            h('nonlinear-2x3', m=2, n=3, nl=True, nx=2, ny=2, field=True)
            h('nonlinear-3x2', m=3, n=2, nl=True, nx=2, ny=2, field=True)
            h('linear-3x3', m=3, n=3, nx=4, ny=4, field=True)
        hs.append({'name': nm + '-field-shape', 'fn': shapes, 'params': dict(curved=curved)})
    return hs
