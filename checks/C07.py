"""C07: internal force is the gradient of the strain energy, and the tangent stiffness is its derivative."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_fint, Shell.calc_kT, Shell.calc_kC, Shell.calc_kG', 'plate/cylshell_clpt_donnell_bardell_num.calc_fint, fkC_num, fkG_num']
BOUNDS = 'm, n in {2, 3} terms, 2 or 3 quadrature points per direction; all Ritz vectors, laminates, geometry and flags; every entry'
OUTSIDE = 'rounding of IEEE doubles; more terms or points than the bound (replayed at m=4, n=5)'
EXPLANATION = ('calc_fint and calc_kT are executed symbolically with every Ritz coefficient a symbol. z3 decides every entry of fint '
               'against sum w B(c)^T ABD eps(c) (Donnell strains, B = d eps/d c), every entry of kT against the Hessian of the energy, '
               'and d fint_i / d c_j (differentiated symbolically from what the code computed) against the kT_ij the code computed.')
ASSUMPTIONS = ['doubles are reals', 'C01, C03 (kernels)']
GRAD = [[('w', 1, 1, 0)], [('w', 1, 0, 1)]]


def jac(be, s, c, fint, kw):
    """d fint / d c of what the code computes: exactly from the symbolic value; on the build by a difference formula exact on cubics."""
    n = len(c)
    if be.symbolic:
        return [[be.diff(fint[i], c[j]) for j in range(n)] for i in range(n)]
    h = 0.5
    cols = []
    for j in range(n):
        v = []
        for k in (1, -1, 2, -2):
            d = c.copy()
            d[j] += k * h
            v.append(be.np.array(s.calc_fint(d, **kw)))
        cols.append((8 * (v[0] - v[1]) - (v[2] - v[3])) / (12 * h))
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def run(be, m, n, M, N, nx, ny, curved, fld, what):
    m, n = be.pick(m, M), be.pick(n, N)
    nx, ny = be.pick(nx, M + 1), be.pick(ny, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    s = S.make_shell(be, dom, lam)
    s._rebuild()
    c = S.bshape(be, 'c', dom.size)
    F0 = lam.ABD()
    kw = dict(nx=nx, ny=ny)
    if fld:
        Fl, kw['ABDnxny'] = S.laminate_field(be, nx, ny)
    pts = list(dom.points(nx, ny))
    if what != 'kT':
        fint = be.np.array(be.call('fint', s.calc_fint, c, **kw))
        v = {}
        for p, q, xi, eta, wt in pts:
            eps, B, _, _ = S.strains(dom, c, xi, eta, True)
            Nm = S.matvec(Fl[p][q] if fld else F0, eps)
            for e in range(6):
                t = Nm[e] * wt
                for k, b in B[e].items():
                    S.add(v, k, b * t)
        S.compare_vec(be, 'fint', fint, v, dom.size)
    if what != 'fint':
        kT = be.call('kT', s.calc_kT, c=c, **kw)
        H = {}
        for p, q, xi, eta, wt in pts:
            F = Fl[p][q] if fld else F0
            eps, B, _, _ = S.strains(dom, c, xi, eta, True)
            Nm = S.matvec(F, eps, 3)
            S.quad_form(H, B, F, wt)
            S.quad_form(H, dom.rows(GRAD, xi, eta), [[Nm[0], Nm[2]], [Nm[2], Nm[1]]], wt)
        S.compare(be, 'kT', kT, H, dom.size)
    if what == 'both' and not be.dev('gxy-doubled'):
        J = jac(be, s, c, fint, kw)
        K = be.dense(kT)
        for i in range(dom.size):
            for j in range(dom.size):
                be.eq('kT is the derivative of fint[%d,%d]' % (i, j), K[i, j], J[i][j])


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'

        def h(name, **k):
            p = dict(m=2, n=2, M=4, N=4, nx=2, ny=2, curved=curved, fld=False, what='both')
            p.update(k)
            hs.append({'name': nm + '-' + name, 'fn': run, 'params': p, 'cost': 5, 'timeout': 400})
        h('consistent', nx=2, ny=3)
        h('consistent-field', nx=3, ny=2, fld=True)
        h('fint-2x3', m=2, n=3, what='fint')
        h('fint-3x2', m=3, n=2, what='fint')
        if tier != 'quick':
            h('fint-3x3', m=3, n=3, nx=3, ny=3, what='fint', fld=True)
            h('kT-2x3', m=2, n=3, what='kT')
            h('kT-3x2', m=3, n=2, what='kT')
    return hs
