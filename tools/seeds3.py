import sys; sys.path.insert(0, '/verif/tools')
import re
from seed import new
M = 'panels/models/'
MD = 'panels/multidomain/'
SB = 'panels/stiffpanelbay/stiffpanelbay.py'
HEAD = re.search(r"HEAD = '''(.*?)'''\n", open('/verif/tools/seeds1.py').read(), re.S).group(1) + '''
import os, tempfile
from panels.multidomain import MultiDomain
from panels.stiffpanelbay import StiffPanelBay
'''
ONLY = sys.argv[1:]


def seed(ident, *a):
    if not ONLY or ident in ONLY:
        new(ident, ident[:3], *a[:-1], HEAD + a[-1])


seed('C01-elastic-edge', [('panels/core/src/bardell_functions.cpp', 'fp[3] = xi2r*(', 'fp[3] = xi2r*xi2r*(', 0)],
     'an edge flag between 0 and 1', 'the slope of the fourth function scales with the square of its flag in the whole-vector evaluation', '''
fl = (1., 1., 1., .5)
for t in (-.7, .1, .9):
    check(abs(bardell.calc_vec_fp(t, *fl)[3] - bardell.calc_fp(3, t, *fl)) < 1e-12, t)
''')
seed('C02-elastic-edge', [('panels/core/src/bardell.cpp', '-0.125*x1r*y2r', '-0.125*x1r*y2r*y2r', 0)],
     'an edge with partial rotational freedom (a flag between 0 and 1)', 'the integral of two slope functions scales with the square of the flag of the second', '''
F = lambda y: bardell.calc_integral_fpfpp(1, 3, 1., 1., 1., 1., 1., 1., 1., y)
check(abs(F(.5) - .5*F(1.)) < 1e-12, (F(.5), F(1.)))
F = lambda y: bardell.calc_integral_ff(1, 3, 1., 1., 1., 1., 1., 1., 1., y)
check(abs(F(.5) - .5*F(1.)) < 1e-12, (F(.5), F(1.)))
F = lambda y: bardell.calc_integral_ffp(1, 3, 1., 1., 1., 1., 1., 1., 1., y)
check(abs(F(.5) - .5*F(1.)) < 1e-12, (F(.5), F(1.)))
''')
seed('C03-weight-64', [('panels/core/src/legendre_gauss_quadrature.cpp', '0.035472213256882383', '0.035472213526882383', 0)],
     'exactly 64 integration points', 'two digits of a weight of the 64-point rule are swapped (error 3e-10)', '''
from math import fsum
for n in (63, 64):
    x, w = quad(n)
    check(abs(fsum(w) - 2) < 1e-13, (n, fsum(w)))
''')
seed('C05-curved-tangent', [(M + 'cylshell_clpt_donnell_bardell_num.pyx', 'A12*intx*inty*wxi*((b*b)*gAw*gBw*(fAw*fBwxi + fAwxi*fBw)', 'A12*intx*inty*wxi*((b*b)*gAw*gBw*(fAw*fBwxi + fAw*fBwxi)', 0)],
     'a curved panel with a large displacement state whose slope along x matters', 'a term of the large displacement stiffness of curved panels counts one of two symmetric products twice', '''
s = shell(r=2., m=3, n=3)
c = .02*np.random.RandomState(0).rand(s.get_size())
K = s.calc_kC(c=c, NLgeom=True, nx=10, ny=10).toarray()
N = s.get_size()


def quadratic(c, d, h=1e-3):
    # energy quadratic in the strain increments: strain rates by differences of the strain field of the package
    x, wx = quad(10)
    X, Y = np.meshgrid((x + 1)*s.a/2, (x + 1)*s.b/2)
    W = np.outer(wx, wx)*s.a*s.b/4
    def e(c):
        u = {}
        fl = lambda ax, f: flags(s, ax, f)
        ex = np.zeros((6,) + X.shape)
        wx_, wy_ = 0., 0.
        for i in range(s.m):
            for j in range(s.n):
                q = 3*(j*s.m + i)
                def B(f, p, ax):
                    t = (2*X/s.a - 1)[0] if ax == 'x' else (2*Y/s.b - 1)[:, 0]
                    return np.array([basis(s, ax, f, p, i if ax == 'x' else j, z) for z in t])*((2/(s.a if ax == 'x' else s.b))**p)
                o = lambda f, p, r: np.outer(B(f, r, 'y'), B(f, p, 'x'))
                ex[0] += c[q]*o('u', 1, 0)
                ex[1] += c[q+1]*o('v', 0, 1) + c[q+2]*o('w', 0, 0)/s.r
                ex[2] += c[q]*o('u', 0, 1) + c[q+1]*o('v', 1, 0)
                ex[3] -= c[q+2]*o('w', 2, 0)
                ex[4] -= c[q+2]*o('w', 0, 2)
                ex[5] -= 2*c[q+2]*o('w', 1, 1)
                wx_ = wx_ + c[q+2]*o('w', 1, 0)
                wy_ = wy_ + c[q+2]*o('w', 0, 1)
        ex[0] += wx_**2/2
        ex[1] += wy_**2/2
        ex[2] += wx_*wy_
        return ex
    de = (e(c + h*d) - e(c - h*d))/(2*h)
    return np.einsum('iyx,ij,jyx,yx', de, s.ABD[:6, :6], de, W)


d = np.random.RandomState(1).rand(N)
check(abs(d @ K @ d - quadratic(c, d)) < 1e-6*abs(d @ K @ d), (d @ K @ d, quadratic(c, d)))
''')
seed('C06-twist-stress', [(M + 'plate_clpt_donnell_bardell_num.pyx', 'Nxy = Nxy0 + A16*exx + A26*eyy + A66*gxy + B16*kxx + B26*kyy + B66*kxy', 'Nxy = Nxy0 + A16*exx + A26*eyy + A66*gxy + B16*kxx + B16*kyy + B66*kxy')],
     'an unsymmetric laminate whose B16 and B26 differ, bent along y', 'the shear stress of the geometric stiffness uses B16 for B26', '''
s = shell(m=3, n=5)
c = np.zeros(s.get_size())
c[3*(4*s.m + 0) + 2] = .3
K = s.calc_kG(c=c, nx=10, ny=10).toarray()
x, w = quad(10)
st = s.ABD
ref = 0.
A, B = (1, 1), (0, 4)
f = lambda ij, p, r, x, y: basis(s, 'x', 'w', p, ij[0], x)*(2/s.a)**p*basis(s, 'y', 'w', r, ij[1], y)*(2/s.b)**r
for p in range(10):
    for q in range(10):
        X, Y = x[p], x[q]
        k = -.3*np.array([f((0, 4), 2, 0, X, Y), f((0, 4), 0, 2, X, Y), 2*f((0, 4), 1, 1, X, Y)])
        N = st[:3, 3:6] @ k
        ax, ay, bx, by = f(A, 1, 0, X, Y), f(A, 0, 1, X, Y), f(B, 1, 0, X, Y), f(B, 0, 1, X, Y)
        ref += w[p]*w[q]*s.a*s.b/4*(N[0]*ax*bx + N[1]*ay*by + N[2]*(ax*by + ay*bx))
i, j = [3*(t[1]*s.m + t[0]) + 2 for t in (A, B)]
check(abs(K[i, j] - ref) < 1e-8*np.abs(K).max(), (K[i, j], ref))
''')
seed('C07-moment-shear', [(M + 'cylshell_clpt_donnell_bardell_num.pyx', 'Myy = B12*exx + B22*eyy + B26*gxy', 'Myy = B12*exx + B22*eyy + B16*gxy')],
     'a curved panel of an unsymmetric laminate whose B16 and B26 differ, in shear', 'the moment about x in the internal force of curved panels uses B16 for B26', '''
s = shell(r=2., m=3, n=3)
K = s.calc_kC().toarray()
c = np.random.RandomState(0).rand(s.get_size())
f = (s.calc_fint(1e-6*c, nx=12, ny=12) - s.calc_fint(-1e-6*c, nx=12, ny=12))/2e-6
check(close(f, K @ c, 1e-6), 'internal force is not kC c for small displacements')
''')
seed('C08-mass-limits', [(M + 'plate_clpt_donnell_bardell_num.pyx', '''        yinf = 0
        ysup = shell.b
''', '''        yinf = 0
        ysup = shell.b if y1 else shell.a
''', 2)],
     'a panel that is not square, restricted to a strip from its edge y = 0', 'the mass of the strip is integrated over a wrong strip', '''
def strip(y1, y2):
    s = shell(y1=y1, y2=y2, x1=0., x2=1.3)
    s.nx = s.ny = 14
    return s.calc_kM().toarray()
check(close(strip(0., .3) + strip(.3, .7), shell().calc_kM().toarray()), 'two strips are not the panel')
''')
seed('C09-line-points', [('panels/shell_fext.py', '''                # Integration over x so m terms
            points = np.zeros(shell.m, dtype=np.float64)
            weights = np.zeros(shell.m, dtype=np.float64)
            get_points_weights(shell.m, points, weights)
''', '''                # Integration over x so m terms
            points = np.zeros(shell.n, dtype=np.float64)
            weights = np.zeros(shell.n, dtype=np.float64)
            get_points_weights(shell.n, points, weights)
''')],
     'a displacement prescribed along an edge y = constant of a panel with fewer terms along y than along x', 'the line is integrated with too few points', '''
s = shell(m=8, n=2)
s.distr_pds.append([None, .3, None, None, lambda x: 1.])
f = s.calc_fext()
x, w = quad(20)
for i in range(8):
    ref = sum(w[k]*basis(s, 'x', 'w', 0, i, x[k]) for k in range(20))*s.a/2*basis(s, 'y', 'w', 0, 1, .6/.7 - 1)
    check(abs(f[3*(s.m + i) + 2] - ref) < 1e-10, (i, f[3*(s.m + i) + 2], ref))
''')
seed('C10-curved-slope', [(M + 'clpt_bardell_field.pyx', '1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta', '1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(a*b)*c[col+2]*fw[i]*gweta[j]*weta')],
     'a curved panel that is not square, nonlinear strains', 'the von Karman part of the hoop strain uses a for b', '''
c = np.random.RandomState(0).rand(60)
P = np.array([.3, .9]), np.array([.2, .6])


def nl(r):
    s = shell(r=r)
    e = [s.strain(c, xs=P[0], ys=P[1], NLgeom=k)[1]['eyy'].copy() for k in (True, False)]
    return e[0] - e[1]
check(close(nl(5.), nl(None)), 'the von Karman part depends on the curvature')
''')
seed('C11-load-increment', [(MD + 'multidomain.py', '''            fext += p.calc_fext(inc=inc, size=size''', '''            fext += p.calc_fext(inc=inc if p.point_loads_inc else 1., size=size''')],
     'a panel with only distributed loads or prescribed displacements that are incremented', 'the increment is applied to point loads only', '''
p1, p2 = shell(), shell()
p2.add_distr_load_fixed_y(.1, lambda x: 1. + 0*x, None, None, cte=False)
A = MultiDomain([p1, p2], [])
check(close(A.calc_fext(inc=.25, silent=True), .25*A.calc_fext(inc=1., silent=True)), 'a quarter of the load')
check(np.abs(A.calc_fext(inc=1., silent=True)).max() > 0, 'there is a load')
''')
seed('C12-other-edge', [(MD + 'connections/kCSSxcte.pyx', '''    y1v2 = p2.y1v ; y1vr2 = p2.y1vr ; y2v2 = p2.y2v ; y2vr2 = p2.y2vr
    y1w2 = p2.y1w ; y1wr2 = p2.y1wr ; y2w2 = p2.y2w ; y2wr2 = p2.y2wr

    xicte1''', '''    y1v2 = p2.y1v ; y1vr2 = p2.y2vr ; y2v2 = p2.y2v ; y2vr2 = p2.y2vr
    y1w2 = p2.y1w ; y1wr2 = p2.y1wr ; y2w2 = p2.y2w ; y2wr2 = p2.y2wr

    xicte1''')],
     'a second panel whose edges y=0 and y=b are held differently', 'the coupling takes the rotation of v at one edge from the other edge', '''
p1, p2 = shell(), shell(y1vr=0.)
c = [dict(p1=p1, p2=p2, func='SSxcte', xcte1=p1.a, xcte2=0.)]
K = MultiDomain([p1, p2], c).get_kC_conn().toarray()
# functions of v held at the edge have no stiffness at all
rows = [p2.row_start + 3*(1*p2.m + i) + 1 for i in range(p2.m)]
check(np.abs(K[rows]).max() == 0, 'held functions take part in the connection')
''')
seed('C13-given-beta', [('panels/shell.py', 'gamma = self.gamma if self.gamma is not None else 0.', 'gamma = self.gamma or beta/(2.*r) if r else 0.')],
     'a curved panel with its aerodynamic parameter given and no curvature term', 'a curvature term that was not given is made up', '''
def kA(g):
    s = shell(r=2., beta=3., gamma=g)
    return s.calc_kA().toarray()
check(close(kA(0.), kA(1e-12)), 'a given gamma of zero is not used')
''')
seed('C14-transposed-field', [(M + 'plate_clpt_donnell_bardell_num.pyx', '                    rho = hrho_nxny[ptx, pty, 1]', '                    rho = hrho_nxny[pty % nx, ptx % ny, 1]')],
     'a density given at each integration point that varies', 'the density of the transposed integration point is used', '''
s = shell()
nx, ny = 10, 10
x, w = quad(10)
h, rho = np.full((nx, ny), .03), 1. + np.arange(100.).reshape(10, 10)
K = s.calc_kM(h_nxny=h, rho_nxny=rho, nx=nx, ny=ny).toarray()
ref = sum(w[p]*w[q]*s.a*s.b/4*.03*rho[p, q]*(basis(s, 'x', 'u', 0, 1, x[p])*basis(s, 'y', 'u', 0, 3, x[q]))**2 for p in range(10) for q in range(10))
i = 3*(3*s.m + 1)
check(abs(K[i, i] - ref) < 1e-9*ref, (K[i, i], ref))
''')
seed('C16-face-to-face', [(MD + 'connections/penalties.py', 'kt = 4*A11_p1*A11_p2/((A11_p1 + A11_p2)*(hp1 + hp2)) / min(p1.a, p1.b)', 'kt = 4*A11_p1*A11_p2/((A11_p1 + A11_p2)*(hp1 + hp2)) / p1.b')],
     'a face-to-face connection of panels longer than wide is fine; wider than long is not', 'the penalty is divided by the width and not by the shorter side', '''
from panels.multidomain.connections import calc_kt_kr
f = lambda a, b: calc_kt_kr(shell(a=a, b=b), shell(a=a, b=b), 'bot-top')[0]
check(abs(f(.5, 2.) - f(2., .5)) < 1e-9, 'the shorter side is the same')
''')
TMP = '''
d = tempfile.mkdtemp()
os.chdir(d)
import atexit, shutil
atexit.register(shutil.rmtree, d)
from panels.shell import load
'''
seed('C19-name-with-dot', [('panels/shell.py', "        return pickle.load(open(name + '.Shell', 'rb'))", "        return pickle.load(open(os.path.splitext(name)[0] + '.Shell', 'rb'))"), ('panels/shell.py', 'import gc\nimport pickle\n', 'import gc\nimport os\nimport pickle\n')],
     'a shell whose name has a dot in it', 'loading by name opens the file of another shell', TMP + '''
for name, a in (('skin', 1.), ('skin.left', 2.)):
    s = shell(a=a)
    s.name = name
    s.save()
check(load('skin.left').a == 2., 'another shell was loaded')
''')
seed('C19-derived-forgotten', [('panels/shell.py', '''        self._clear_matrices()

        with open(name, 'wb') as f:
            pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
''', '''        self._clear_matrices()
        self._derived = {}

        with open(name, 'wb') as f:
            pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
''')],
     'a material or ply thickness changed after saving a shell that was calculated before', 'what was derived before saving counts as given afterwards', TMP + '''
s = shell()
s.calc_kC()
s.name = 'x'
s.save()
t = load('x')
t.plyt = .02
n = shell(plyt=.02)
check(close(t.calc_kC().toarray(), n.calc_kC().toarray()), 'the new thickness is not used')
''')
seed('C19-skin-forces', [(SB, '''        self.Ys = None

        for panel in self.panels:
''', '''        self.Ys = None
        self.forces_skin = []

        for panel in self.panels:
''')],
     'a stiffened bay with forces on its skin', 'saving a bay removes its forces', TMP + '''
from panels.stiffpanelbay.stiffpanelbay import load as bload
b = StiffPanelBay()
b.a, b.b, b.m, b.n, b.name = 1., .5, 4, 4, 'bay'
b.stack, b.plyt, b.laminaprop, b.rho = [0, 90], .01, (140., 9., .3, 5., 5., 3.), 1.
b.model = 'plate_clpt_donnell_bardell'
b.add_panel(0., .5)
b.forces_skin.append([.5, .2, 0., 0., 1.])
b.save()
check(np.abs(bload('bay').calc_fext()).max() > 0, 'no forces')
''')
PLOT = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.axes
from panels.plot_shell import plot_shell
drawn = []
orig = matplotlib.axes.Axes.contourf
def rec(self, *a, **k):
    drawn.append((a, k))
    return orig(self, *a, **k)
matplotlib.axes.Axes.contourf = rec
d = tempfile.mkdtemp()
os.chdir(d)
import atexit, shutil
atexit.register(shutil.rmtree, d)
'''
seed('C20-group-scale', [(MD + 'multidomain.py', '            vecmax = field.max()', '            vecmax = abs(field).max()')],
     'an assembly whose field is largest where it is negative', 'the colour scale of an assembly reaches the largest magnitude', PLOT + '''
p = shell()
p.group, p.x0, p.y0 = 'g', 0., 0.
A = MultiDomain([p], [])
c = -np.random.RandomState(0).rand(A.get_size())
ax, data = A.plot(c, 'g', vec='u', gridx=4, gridy=5, filename='x.png')
check(abs(data['vecmax'] - np.max(A.uvw(c, 'g', gridx=4, gridy=5)['u'][0])) < 1e-12, data)
''')
seed('C20-stale-deformation', [('panels/plot_shell.py', '''        if vec in displs:
            pass
        else:
            shell.uvw(c, xs=xs''', '''        if vec in displs or shell.fields['u'] is not None:
            pass
        else:
            shell.uvw(c, xs=xs''')],
     'a deformed plot of a strain after displacements of another state were calculated', 'the plot is deformed by the displacements calculated before', PLOT + '''
def draw(first):
    s = shell()
    r = np.random.RandomState(0)
    c, c0 = r.rand(s.get_size()), r.rand(s.get_size())
    if first:
        s.uvw(c0, gridx=4, gridy=5)
    plot_shell(s, c, vec='exx', deform_u=True, deform_u_sf=.1, gridx=4, gridy=5, filename='x.png')
    return drawn[-1][0]
a, b = draw(True), draw(False)
check(all(close(x, y) for x, y in zip(a[:3], b[:3])), 'history changes the plot')
''')
seed('C20-flange-restore', [(SB, '            self.phix = phixbkp', '            self.phix = wbkp', 1)],
     'the rotation about y looked at after plotting a flange', 'plotting a flange leaves w in the place of the rotation calculated before', PLOT + '''
b = StiffPanelBay()
b.a, b.b, b.m, b.n = 1., .5, 4, 4
b.stack, b.plyt, b.laminaprop, b.rho = [0, 90], .01, (140., 9., .3, 5., 5., 3.), 1.
b.model = 'plate_clpt_donnell_bardell'
b.add_panel(0., .25)
b.add_panel(.25, .5)
b.add_bladestiff2d(ys=.25, bf=.05, fstack=[0, 90], fplyt=.01, flaminaprop=b.laminaprop, mf=3, nf=3)
c = np.random.RandomState(0).rand(b.get_size())
b.uvw_skin(c, gridx=4, gridy=5)
k = b.phix.copy()
b.plot_stiffener(c, 0, vec='u', gridx=4, gridy=5, filename='x.png', vecmin=-1., vecmax=1.)
check(close(b.phix, k), 'rotation changed by plotting')
''')
PAIR = '''
def pair(m1, n1, m2, n2):
    p = [shell(m=m1, n=n1), shell(m=m2, n=n2)]
    return p, MultiDomain(p)
'''
seed('C21-joint-buffer', [(MD + 'connections/kCSSycte.pyx', 'fdim = 3*m1*n1*m2*n2', 'fdim = 3*m1*n1*m1*n1')],
     'a panel joined along y to one with more terms than its own', 'the buffer of the coupling terms of two panels is sized for the terms of the first only', PAIR + '''
(p, q), A = pair(2, 2, 9, 9)
ab = A.get_kC_conn(conn=[dict(p1=p, p2=q, func='SSycte', ycte1=p.b, ycte2=0.)]).toarray()
ba = A.get_kC_conn(conn=[dict(p1=q, p2=p, func='SSycte', ycte1=0., ycte2=p.b)]).toarray()
check(close(ab, ba), 'depends on which panel is first')
''')
seed('C21-laminate-field', [(M + 'cylshell_clpt_donnell_bardell_num.pyx', 'if Finput.shape == (nx, ny, 6, 6):', 'if Finput.ndim == 4 and Finput.size == nx*ny*36:', 1)],
     'a field of laminates with the two directions exchanged, and different numbers of points', 'the geometric stiffness reads a field of laminates of another shape past its rows', '''
s = shell(r=2.)
s._rebuild()
for shape in ((6, 9), (9, 6)):
    F = np.zeros(shape + (6, 6)) + s.ABD
    try:
        s.calc_kG(c=np.zeros(s.get_size()), ABDnxny=F, nx=6, ny=9)
        ok = True
    except ValueError:
        ok = False
    check(ok == (shape == (6, 9)), shape)
''')
seed('C21-cores-remainder', [(M + 'clpt_bardell_field.pyx', 'kxys = np.zeros((num_cores, size_core), dtype=DOUBLE)', 'kxys = np.zeros((num_cores, max(1, size//num_cores)), dtype=DOUBLE)')],
     'a number of points that is not a multiple of the number of cores', 'the buffer of the twist has no room for the points that remain', '''
s = shell(m=3, n=3)
s.out_num_cores = 4
c = np.random.RandomState(0).rand(s.get_size())
x, y = np.linspace(0, s.a, 8), np.linspace(0, s.b, 8)
full = [np.array(v) for v in s.strain(c, xs=x, ys=y)[1].values() if v is not None]
part = [np.array(v) for v in s.strain(c, xs=x[:6], ys=y[:6])[1].values() if v is not None]
for k, (f, q) in enumerate(zip(full, part)):
    if q.shape == (6,):
        check(close(f[:6], q), k)
s.strain(c, xs=x[:7], ys=y[:7])
''')
seed('C21-long-vector', [('panels/shell.py', '    if c.shape[0] != size:', '    if c.shape[0] < size:')],
     'a displacement vector longer than the matrix', 'a vector of another assembly is accepted when it is long enough', '''
s = shell()
for extra, want in ((0, True), (3, False), (-3, False)):
    try:
        s.calc_kG(c=np.zeros(s.get_size() + extra))
        ok = True
    except ValueError:
        ok = False
    check(ok == want, extra)
''')
