import sys; sys.path.insert(0, '/verif/tools')
from seed import new
M = 'panels/models/'
HEAD = '''
import sys
import numpy as np
from panels import Shell, bardell
from panels.legendre_gauss_quadrature import get_points_weights


def flags(s, ax, f):
    return [getattr(s, '%s%d%s%s' % (ax, e, f, r)) for e in (1, 2) for r in ('', 'r')]


def basis(s, ax, f, p, i, t):
    return [bardell.calc_f, bardell.calc_fp, bardell.calc_fpp][p](i, t, *flags(s, ax, f))


def quad(n):
    x, w = np.zeros(n), np.zeros(n)
    get_points_weights(n, x, w)
    return x, w


def shell(**k):
    s = Shell(a=k.pop('a', 1.3), b=k.pop('b', .7), r=k.pop('r', None), m=k.pop('m', 4), n=k.pop('n', 5), stack=k.pop('stack', [0, 30, 75]),
              plyt=.01, laminaprop=(140., 9., .3, 5., 5., 3.), rho=k.pop('rho', 1.3))
    for ax in 'xy':
        for e in '12':
            for f in 'uvw':
                for r in ('', 'r'):
                    setattr(s, ax + e + f + r, 1.)
    for a, b in k.items():
        setattr(s, a, b)
    return s


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.abs(a - b).max() <= tol*max(np.abs(b).max(), 1e-300)


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)
'''
new('C01-f23-derivative', 'C01', [('panels/core/src/bardell_functions.cpp', 'fpp[23] = xi*(256661.355228424*pow(xi, 20)', 'fpp[23] = xi*(0.2*xi*xi + 256661.355228424*pow(xi, 20)')],
    'series with at least 24 terms', 'the second derivative of shape function 23 in the whole-vector evaluation is off by 0.2 xi^3', HEAD + '''
fl = (1., 1., 1., 1.)
for t in np.linspace(-1, 1, 21):
    v = bardell.calc_vec_fpp(t, *fl)
    for i in range(30):
        check(abs(v[i] - bardell.calc_fpp(i, t, *fl)) <= 1e-7*max(1, abs(v[i])), (i, t))
''')
new('C02-integral-27', 'C02', [('panels/core/src/bardell.cpp', '8.80004539063412e-9', '8.80004593063412e-9', 0)],
    'at least 28 terms', 'a digit of the integral of functions 23 and 27 is transposed (relative 6e-8)', HEAD + '''
x, w = np.polynomial.legendre.leggauss(64)
fl = (1., 1., 1., 1.)
for i in range(20, 30):
    for j in range(20, 30):
        a, b = bardell.calc_integral_ff(i, j, *fl, *fl), bardell.calc_integral_ff(j, i, *fl, *fl)
        check(abs(a - b) <= 1e-11*abs(a), (i, j, a, b))
''')
new('C03-rule-37', 'C03', [('panels/core/src/legendre_gauss_quadrature.cpp', '-0.921781437412463742668143686700713488781595267162329661', '-0.921781437412436742668143686700713488781595267162329661')],
    'exactly 37 integration points', 'two digits of a node of the 37-point rule are swapped (error 3e-14)', HEAD + '''
from math import fsum
x, w = quad(37)
check(abs(x[4] + x[-5]) < 5e-15, 'not symmetric: %r' % (x[4] + x[-5]))
''')
new('C04-r-A26', 'C04', [(M + 'cylshell_clpt_donnell_bardell.pyx', '0.5*A22*a*fAvfBw*gAvetagBw/r + 0.5*A26*b*fAvxifBw*gAvgBw/r', '0.5*A22*a*fAvfBw*gAvetagBw/r + 0.5*A26*a*fAvxifBw*gAvgBw/r')],
    'a curved, unbalanced laminate (A26 not zero) that is not square', 'the shear-hoop coupling of v and w in the stiffness of a cylindrical panel uses a instead of b', HEAD + '''
s = shell(r=2.)
K = s.calc_kC().toarray()
Kn = s.calc_kC(c=np.zeros(s.get_size()), nx=12, ny=12).toarray()
check(close(K, Kn, 1e-9), 'closed form and numerical stiffness differ by %g' % np.abs(K - Kn).max())
''')
new('C05-field-order', 'C05', [(M + 'plate_clpt_donnell_bardell_num.pyx', 'F[i*6 + j] = Fnxny[ptx, pty, i, j]', 'F[i*6 + j] = Fnxny[pty % nx, ptx % ny, i, j]', 0)],
    'a laminate that varies over the panel', 'the laminate of the transposed integration point is used', HEAD + '''
s = shell()
nx = ny = 6
F = np.zeros((nx, ny, 6, 6))
F[:, :, 0, 0] = 1 + np.arange(nx)[:, None]
K = s.calc_kC(c=np.zeros(3*s.m*s.n), nx=nx, ny=ny, ABDnxny=F).toarray()
x, w = quad(nx)
ref = sum(w[p]*w[q]*F[p, q, 0, 0]*basis(s, 'x', 'u', 1, 0, x[p])**2*basis(s, 'y', 'u', 0, 0, x[q])**2 for p in range(nx) for q in range(ny))*s.b/s.a
check(abs(K[0, 0] - ref) < 1e-9*abs(ref), (K[0, 0], ref))
''')
new('C06-bending-stress', 'C06', [(M + 'cylshell_clpt_donnell_bardell_num.pyx', 'Nyy = Nyy0 + A12*exx + A22*eyy + A26*gxy + B12*kxx + B22*kyy + B26*kxy', 'Nyy = Nyy0 + A12*exx + A22*eyy + A26*gxy + B12*kxx + B22*kyy + B16*kxy')],
    'an unsymmetric laminate with twist curvature in the displacement state, on a curved panel', 'the hoop stress of the geometric stiffness uses B16 for B26', HEAD + '''
s = shell(r=3., m=2, n=2)
s.stack = [0, 30, 75]
s._rebuild()
c = np.zeros(12)
F = np.zeros((6, 6))
F[1, 5] = F[5, 1] = 2.5
F[2, 4] = F[4, 2] = 2.5
F[0, 0] = 1.
rs = np.random.RandomState(0)
c[2::3] = rs.rand(4)
K = s.calc_kG(c=c, nx=4, ny=4, ABDnxny=F).toarray()
# only kxy drives Nyy, only kyy drives Nxy
x, w = quad(4)
W = lambda p, q, a, b: (2/s.a)**p*(2/s.b)**q*sum(c[3*(j*2 + i) + 2]*basis(s, 'x', 'w', p, i, a)*basis(s, 'y', 'w', q, j, b) for i in range(2) for j in range(2))
g = lambda p, q, a, b: (2/s.a)**p*(2/s.b)**q*basis(s, 'x', 'w', p, 0, a)*basis(s, 'y', 'w', q, 0, b)
ref = 0
for p in range(4):
    for q in range(4):
        a, b = x[p], x[q]
        exx = 0.
        Nyy, Nxy = 2.5*-2*W(1, 1, a, b), 2.5*-W(0, 2, a, b)
        ref += w[p]*w[q]*s.a*s.b/4*(Nyy*g(0, 1, a, b)**2 + 2*Nxy*g(1, 0, a, b)*g(0, 1, a, b))
check(abs(K[2, 2] - ref) < 1e-8*abs(ref), (K[2, 2], ref))
''')
new('C07-moment-sign', 'C07', [(M + 'plate_clpt_donnell_bardell_num.pyx', 'Mxy = B16*exx + B26*eyy + B66*gxy + D16*kxx + D26*kyy + D66*kxy', 'Mxy = B16*exx + B26*eyy + B66*gxy + D16*kxx + D16*kyy + D66*kxy')],
    'a laminate with bending-twisting coupling whose D16 and D26 differ, bent along y', 'the twisting moment in the internal force of a plate uses D16 for D26', HEAD + '''
s = shell(stack=[30, 10, 75, 30])
K = s.calc_kC().toarray()
c = 1e-7*np.random.RandomState(1).rand(s.get_size())
f = np.array(s.calc_fint(c, nx=12, ny=12))
check(close(f, K @ c, 1e-4), 'internal force is not K c for small c: %g' % (np.abs(f - K @ c).max()/np.abs(f).max()))
''')
new('C08-eta-upper', 'C08', [(M + 'plate_clpt_donnell_bardell_num.pyx', 'eta = (eta - (-1))/2 * (eta2 - eta1) + eta1', 'eta = (eta - (-1))/2 * (xi2 - xi1) + eta1 if xi2 - xi1 < eta2 - eta1 else (eta - (-1))/2 * (eta2 - eta1) + eta1', 1)],
    'a panel restricted along x and y, by a smaller fraction along x than along y', 'the integration points along y cover the fraction of x', HEAD + '''
N = dict(Nxx=-1., Nyy=.3, Nxy=.2)
K = shell(**N).calc_kG().toarray()
S = 0
for x1, x2 in ((0., .3), (.3, 1.3)):
    for y1, y2 in ((0., .5), (.5, .7)):
        S = S + shell(x1=x1, x2=x2, y1=y1, y2=y2, **N).calc_kG(nx=12, ny=12).toarray()
check(close(S, K), 'parts do not add up: %g' % (np.abs(S - K).max()/np.abs(K).max()))
''')
new('C09-pd-increment', 'C09', [('panels/shell_fext.py', '        funcu = funcu if funcu is not None else lambda _: 0 # _ ignores ip var', '        if funcv is None and funcw is None:\n            inc_i = min(inc_i, 1.)\n        funcu = funcu if funcu is not None else lambda _: 0 # _ ignores ip var')],
    'an incremental line displacement in x alone and a load multiplier above 1', 'multipliers above one are clipped for in-plane prescribed edge displacements', HEAD + '''
s = shell()
s.add_distr_pd_fixed_x(s.a, ku=2., funcu=lambda y: 1. + y, cte=False)
f1, f2 = np.array(s.calc_fext(inc=1.)), np.array(s.calc_fext(inc=2.5))
check(close(f2, 2.5*f1), 'the incremental load does not scale with the multiplier')
''')
new('C10-cached-basis', 'C10', [(M + 'clpt_bardell_field.pyx', '''        vec_fp(fwxi, xi, x1w, x1wr, x2w, x2wr)
        vec_f(gw, eta, y1w, y1wr, y2w, y2wr)

        wx = 0
''', '''        if pti == 0 or xs[pti] != xs[pti-1]:
            vec_fp(fwxi, xi, x1w, x1wr, x2w, x2wr)
            vec_f(gw, eta, y1w, y1wr, y2w, y2wr)

        wx = 0
''')],
    'two consecutive points, in the chunk of one thread, with the same x and different y', 'the rotation about y at the second point uses the basis values at the y of the first', HEAD + '''
s = shell()
s.calc_kC()
c = np.random.RandomState(0).rand(s.get_size())
xs = np.array([.1, .1, .1, .1, .3, .3, .7, .7, .7])
ys = np.array([.1, .2, .3, .4, .5, .6, .6, .1, .2])
s.out_num_cores = 2
r = np.array(s.uvw(c, xs=xs, ys=ys)[1]['phix']).ravel()
s.out_num_cores = 1
for k in range(9):
    one = np.array(s.uvw(c, xs=xs[k:k+1], ys=ys[k:k+1])[1]['phix']).ravel()
    check(abs(r[k] - one[0]) < 1e-9, (k, r[k], one))
''')
