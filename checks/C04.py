"""C04: the linear constitutive stiffness matrix is the Hessian of the laminate strain energy."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kC, Shell._rebuild, Shell._get_lam_ABD, Shell.get_size', 'plate_clpt_donnell_bardell.fk0',
             'cylshell_clpt_donnell_bardell.fk0']
BOUNDS = ('m, n terms from (2,3), (3,2) (thorough: up to (4,4)); all lengths, radii, edge flags, ply thicknesses and laminates '
          '(symmetric ABD otherwise arbitrary); every entry of the matrix; sizes and offsets of C11')
OUTSIDE = 'rounding of IEEE doubles; more terms than the bound (the loops are uniform in them; replayed at m=5, n=6); FSDT models (none in the package)'
EXPLANATION = ('calc_kC and the analytic kernels are executed symbolically from their current source with geometry, flags and laminate as '
               'symbolic reals and the integral tables as uninterpreted functions of (functions, derivatives, flags) whose values C02 '
               'establishes; z3 decides every matrix entry against the Hessian of the strain energy '
               '1/2 int eps^T ABD eps with Donnell strains.')
ASSUMPTIONS = ['doubles are reals', 'C02 (integral tables)', 'composites.laminated_plate returns the ABD matrix of the laminate']


def kC(be, m, n, M, N, curved, ortho=False, offset=False):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be, offset=offset)
    s = S.make_shell(be, dom, lam)
    s.force_orthotropic_laminate = ortho
    K = be.call('kC', s.calc_kC)
    ABD = be.np.array(lam.ABD())
    if ortho:
        for r, c in ((0, 2), (1, 2), (0, 5), (1, 5), (3, 2), (4, 2), (3, 5), (4, 5)):
            ABD[r, c] = ABD[c, r] = 0.
    H = dom.quadratic_exact(dom.strain_op(), ABD)
    S.compare(be, 'kC', K, H, dom.size)


def prestress(be, m, n, M, N, curved):
    """Constant membrane stresses add the geometric stiffness to kC."""
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    s = S.make_shell(be, dom, lam)
    N_ = [be.real(k, -1.5, 2.) for k in ('Nxx_cte', 'Nyy_cte', 'Nxy_cte')]
    s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = N_
    K = be.call('kC', s.calc_kC)
    H = dom.quadratic_exact(dom.strain_op(), lam.ABD())
    H2 = dom.quadratic_exact([[('w', 1, 1, 0)], [('w', 1, 0, 1)]], [[N_[0], N_[2]], [N_[2], N_[1]]])
    for k, v in H2.items():
        S.add(H, k, v)
    S.compare(be, 'kC with constant stresses', K, H, dom.size)


def harnesses(tier):
    hs = []
    sizes = [(2, 3), (3, 2)] if tier == 'quick' else [(2, 3), (3, 2), (4, 3), (3, 4), (4, 4)]
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'
        for m, n in sizes:
            hs.append({'name': '%s-%dx%d' % (nm, m, n), 'fn': kC, 'params': dict(m=m, n=n, M=m + 3, N=n + 3, curved=curved), 'cost': m * n * 2})
        for m, n in ((8, 1), (1, 8)) + (() if tier == 'quick' else ((20, 1), (1, 20), (7, 2), (2, 7))):
            hs.append({'name': '%s-line-%dx%d' % (nm, m, n), 'fn': kC, 'params': dict(m=m, n=n, M=m + 2, N=n + 2, curved=curved), 'cost': m * n * 2})
        hs.append({'name': nm + '-orthotropic', 'fn': kC, 'params': dict(m=2, n=2, M=5, N=4, curved=curved, ortho=True)})
        hs.append({'name': nm + '-offset', 'fn': kC, 'params': dict(m=2, n=2, M=4, N=5, curved=curved, offset=True)})
        hs.append({'name': nm + '-constant-stress', 'fn': prestress, 'params': dict(m=2, n=3, M=5, N=6, curved=curved), 'max_paths': 16})
    return hs
