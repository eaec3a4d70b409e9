"""C06: geometric stiffness: uniform loads (closed form) and the stress state of a displacement field (numeric)."""
from . import spec as S

LEVEL = 'other'
MODULES = ['panels', 'panels.shell']
FUNCTIONS = ['Shell.calc_kG, Shell.calc_kC (c_cte)', 'plate/cylshell_clpt_donnell_bardell.fkG0', 'plate/cylshell_clpt_donnell_bardell_num.fkG_num']
BOUNDS = 'm, n in {2, 3} terms, 2 or 3 quadrature points per direction; all Ritz vectors, loads, geometry, flags, laminates; every entry'
OUTSIDE = 'rounding of IEEE doubles; more terms or points than the bound (replayed at m=4, n=5)'
EXPLANATION = ('calc_kG is executed symbolically; z3 decides every entry against int (Nxx w,x w,x + Nyy w,y w,y + Nxy (w,x w,y + w,y w,x)) with '
               'N the uniform loads plus, when c is given, ABD eps(c) with linear or full Donnell strains at each quadrature point.')
ASSUMPTIONS = ['doubles are reals', 'C01, C02, C03 (kernels)']
GRAD = [[('w', 1, 1, 0)], [('w', 1, 0, 1)]]


def uniform(be, m, n, M, N, curved):
    m, n = be.pick(m, M), be.pick(n, N)
    dom = S.Dom(be, m, n, curved=curved)
    s = S.make_shell(be, dom, S.Lam(be))
    s.Nxx, s.Nyy, s.Nxy = N_ = [be.real(k, -1.5, 2.) for k in ('Nxx', 'Nyy', 'Nxy')]
    K = be.call('kG', s.calc_kG)
    S.compare(be, 'kG of uniform loads', K, dom.quadratic_exact(GRAD, [[N_[0], N_[2]], [N_[2], N_[1]]]), dom.size)


def field(be, m, n, M, N, nx, ny, curved, nl, fld, where='kG', loads=True, with_c=True):
    m, n = be.pick(m, M), be.pick(n, N)
    nx, ny = be.pick(nx, M + 1), be.pick(ny, N)
    dom = S.Dom(be, m, n, curved=curved)
    lam = S.Lam(be)
    s = S.make_shell(be, dom, lam)
    c = S.bshape(be, 'c', dom.size)
    N0 = [0, 0, 0]
    if loads:
        N0 = [be.real(k, -1.5, 2.) for k in ('Nxx', 'Nyy', 'Nxy')]
        suf = '_cte' if where == 'kC' else ''
        for k, v in zip(('Nxx', 'Nyy', 'Nxy'), N0):
            setattr(s, k + suf, v)
    F0 = lam.ABD()
    kw = {}
    if fld:
        Fl, kw['ABDnxny'] = S.laminate_field(be, nx, ny)
    H = {}
    if where == 'kG':
        if with_c:
            kw['c'] = c
        K = be.call('kG', s.calc_kG, nx=nx, ny=ny, NLgeom=nl, **kw)
    else:
        K = be.call('kC', s.calc_kC, nx=nx, ny=ny, c_cte=c, NLgeom=nl, **kw)
        if fld or nl:
            # without c the constitutive part is that of the undeformed shell
            for p, q, xi, eta, wt in dom.points(nx, ny):
                S.quad_form(H, dom.rows(dom.strain_op(), xi, eta), Fl[p][q] if fld else F0, wt)
        else:
            H = dom.quadratic_exact(dom.strain_op(), F0)
    for p, q, xi, eta, wt in dom.points(nx, ny):
        eps, _, _, _ = S.strains(dom, c if with_c else [0] * dom.size, xi, eta, nl)
        Nm = S.matvec(Fl[p][q] if fld else F0, eps, 3)
        Nm = [x + y for x, y in zip(Nm, N0)]
        S.quad_form(H, dom.rows(GRAD, xi, eta), [[Nm[0], Nm[2]], [Nm[2], Nm[1]]], wt)
    tag = 'nonlinear strains' if nl else 'linear strains'
    S.compare(be, '%s with the stress state of c, %s' % (where, tag), K, H, dom.size)


def harnesses(tier):
    hs = []
    for curved in (False, True):
        nm = 'cylinder' if curved else 'plate'
        for m, n in ((2, 3), (3, 2), (8, 1), (1, 8)) + (((4, 4), (20, 1), (1, 20)) if tier != 'quick' else ()):
            hs.append({'name': '%s-uniform-%dx%d' % (nm, m, n), 'fn': uniform, 'params': dict(m=m, n=n, M=m + 3, N=n + 3, curved=curved),
                       'max_paths': 16})

        def h(name, **k):
            p = dict(m=2, n=2, M=4, N=5, nx=2, ny=2, curved=curved, nl=False, fld=False)
            p.update(k)
            hs.append({'name': nm + '-' + name, 'fn': field, 'params': p, 'cost': 6 if p['nl'] else 3, 'timeout': 300})
        h('linear-2x3', m=2, n=3, nx=3, ny=2)
        h('linear-3x2', m=3, n=2, nx=2, ny=3)
        h('linear-field', nx=2, ny=3, fld=True)
        h('nonlinear', nl=True, nx=2, ny=3)
        h('nonlinear-field', nl=True, nx=3, ny=2, fld=True)
        h('linear-7x1', m=7, n=1)
        h('linear-1x7', m=1, n=7, fld=True)
        h('nonlinear-4x1', m=4, n=1, nl=True, nx=2, ny=1, fld=True)
        h('nonlinear-1x4', m=1, n=4, nl=True, nx=1, ny=2)
        h('loads-by-quadrature', nl=True, with_c=False, nx=3, ny=2)
        h('constant-in-kC', where='kC', nx=2, ny=3)
        h('constant-in-kC-field', where='kC', nx=3, ny=2, fld=True)
        h('constant-in-kC-nonlinear', where='kC', nl=True, nx=2, ny=2)
        if tier != 'quick':
            h('linear-14x1', m=14, n=1)
            h('linear-1x14', m=1, n=14, fld=True)
            h('nonlinear-6x1', m=6, n=1, nl=True, nx=2, ny=1)
            h('nonlinear-1x6', m=1, n=6, nl=True, nx=1, ny=2, fld=True)
            h('nonlinear-2x3', m=2, n=3, nl=True, nx=2, ny=2, fld=True)
            h('nonlinear-3x2', m=3, n=2, nl=True, nx=2, ny=2, fld=True)
            h('linear-3x3', m=3, n=3, nx=4, ny=4, fld=True)
    return hs
