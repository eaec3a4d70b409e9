import sys; sys.path.insert(0, '/verif/tools')
import re
from seed import new
M = 'panels/models/'
MD = 'panels/multidomain/'
ST = 'panels/stiffener/'
HEAD = re.search(r"HEAD = '''(.*?)'''\n", open('/verif/tools/seeds1.py').read(), re.S).group(1) + '''
from panels.multidomain import MultiDomain
from panels.stiffpanelbay import StiffPanelBay
'''

new('C11-cyl-slope-columns', 'C11', [(M + 'cylshell_clpt_donnell_bardell_num.pyx', '''                            col = col0 + DOF*(j*m + i)

                            wxi += cs[col+2]*fAwxi*gAw''', '''                            col = DOF*(j*m + i)

                            wxi += cs[col+2]*fAwxi*gAw''', 1)],
    'a curved panel that is not the first of its assembly, with a large displacement state', 'the slopes of the von Karman terms of the geometric stiffness are read from the first panel of the assembly', HEAD + '''
p1, p2 = shell(r=2., m=3, n=3), shell(r=3., m=3, n=4)
A = MultiDomain([p1, p2], [])
c = .01*np.random.RandomState(0).rand(A.get_size())
K = A.calc_kG(c=c, NLgeom=True).toarray()
i = p2.row_start
alone = shell(r=3., m=3, n=4).calc_kG(c=np.ascontiguousarray(c[i:]), NLgeom=True).toarray()
check(close(K[i:, i:], alone), 'block of the second panel is not the one of the panel alone')
''')
new('C11-strain-grid', 'C11', [(MD + 'multidomain.py', "            res['kxy'].append(reshape(kxy, shape))", "            res['kxy'].append(reshape(kxy, (gridx, gridy)))", 0)],
    'a grid with different numbers of points along x and y', 'the twist of the strain field comes back in another shape than the other components', HEAD + '''
p = shell()
A = MultiDomain([p], [])
p.group = 'g'
c = np.random.RandomState(0).rand(A.get_size())
x, y = np.meshgrid(np.linspace(0, p.a, 4), np.linspace(0, p.b, 5))
r = A.strain(c, 'g', gridx=4, gridy=5, NLterms=False)
k = np.zeros_like(x)
for i in range(p.m):
    for j in range(p.n):
        for a in range(5):
            for b in range(4):
                k[a, b] += -2*c[3*(j*p.m + i) + 2]*(2/p.a)*(2/p.b)*basis(p, 'x', 'w', 1, i, 2*x[a, b]/p.a - 1)*basis(p, 'y', 'w', 1, j, 2*y[a, b]/p.b - 1)
check(close(r['kxy'][0], k), 'twist')
''')
new('C12-flange-rotation', 'C12', [(MD + 'connections/kCBFxcte.pyx', '-2*b1*f1Awxi*f2Bwxi*g1Awf2Bw*kr/(a1*a2)', '-2*b1*f1Awxi*f2Bwxi*g1Awf2Bw*kr/(a1*a1)')],
    'a right-angle connection along x of panels of different lengths', 'the coupling of the rotations divides by the square of the first length', HEAD + '''
from panels.multidomain.connections import calc_kt_kr
p1, p2 = shell(a=1.3, b=.7), shell(a=.4, b=.7)
A = MultiDomain([p1, p2], [dict(p1=p1, p2=p2, func='BFxcte', xcte1=p1.a, xcte2=0.)])
K = A.get_kC_conn().toarray()
kt, kr = calc_kt_kr(p1, p2, 'xcte')
x, w = quad(8)
g = sum(w[k]*basis(p1, 'y', 'w', 0, 0, x[k])*basis(p2, 'y', 'w', 0, 0, x[k]) for k in range(8))
ref = -.5*p1.b*kr*(2/p1.a)*(2/p2.a)*g*basis(p1, 'x', 'w', 1, 3, 1.)*basis(p2, 'x', 'w', 1, 1, -1.)
v = K[3*3 + 2, p2.row_start + 3*1 + 2]
check(abs(ref) > 0 and abs(v - ref) < 1e-8*abs(ref), (v, ref))
''')
new('C13-damping-width', 'C13', [(M + 'cylshell_clpt_donnell_bardell.pyx', '-0.25*a*aeromu*b*fAwfBw*gAwgBw', '-0.25*a*aeromu*a*fAwfBw*gAwgBw')],
    'a curved panel that is not square', 'the aerodynamic damping of curved panels uses a for b', HEAD + '''
def cA(a, b):
    s = shell(a=a, b=b, r=2.)
    return np.abs(s.calc_cA(1.7).toarray()).max()
check(abs(cA(1., 1.)*.5 - cA(1., .5)) < 1e-9, 'damping does not scale with the area')
''')
new('C14-rotary-width', 'C14', [(M + 'cylshell_clpt_donnell_bardell.pyx', '4*fAwfBw*gAwetagBweta*((d*d) + 0.0833333333333333*(h*h))/(b*b)', '4*fAwfBw*gAwetagBweta*((d*d) + 0.0833333333333333*(h*h))/(a*b)')],
    'a curved panel that is not square, thick enough for rotary inertia', 'the rotary inertia about x of curved panels divides by a b', HEAD + '''
k = dict(m=2, n=2)
F, C = shell(**k), shell(r=5., **k)
check(close(C.calc_kM().toarray(), F.calc_kM().toarray(), 1e-12), 'mass of the curved panel is not the one of the flat panel')
''')
new('C14-offset-coupling', 'C14', [(M + 'plate_clpt_donnell_bardell.pyx', '-0.5*a*d*fAvfBw*gAvgBweta*h*rho', '-0.5*b*d*fAvfBw*gAvgBweta*h*rho')],
    'a plate with an offset laminate that is not square', 'the coupling of v and the slope along y in the mass matrix uses b for a', HEAD + '''
s = shell(offset=.05)
M = s.calc_kM().toarray()
x, w = quad(8)
A = sum(w[k]*basis(s, 'x', 'v', 0, 1, x[k])*basis(s, 'x', 'w', 0, 3, x[k]) for k in range(8))
B = sum(w[k]*basis(s, 'y', 'v', 0, 1, x[k])*basis(s, 'y', 'w', 1, 2, x[k]) for k in range(8))
r, c = 3*(1*s.m + 1) + 1, 3*(2*s.m + 3) + 2
ref = -.5*s.a*.05*sum(s.plyts)*1.3*A*B
check(abs(abs(M[r, c]) - abs(ref)) < 1e-9*abs(M).max(), (M[r, c], ref))
''')
new('C15-ply-position', 'C15', [(ST + 'bladestiff1d.py', 'yply += self.flam.plies[i-1].h/2. + self.flam.plies[i].h/2.', 'yply += self.flam.plies[i-1].h')],
    'a 1D flange with plies of different thicknesses and an angle ply that is not the first', 'the distance of the plies from the foot of the flange is wrong, and with it the coupling of stretch and twist', HEAD + '''
L = (140., 9., .3, 5., 5., 3.)
def bay(fstack, fplyts):
    s = StiffPanelBay()
    s.a, s.b, s.m, s.n = 1., .8, 3, 3
    s.stack, s.plyt, s.laminaprop, s.rho, s.model = [0, 90], .01, L, 1., 'plate_clpt_donnell_bardell'
    s.add_panel(0., .4)
    s.add_panel(.4, .8)
    s.add_bladestiff1d(ys=.4, bf=.1, fstack=fstack, fplyts=fplyts, flaminaprop=L)
    return s.calc_kC().toarray()
a = bay([30, 30, 45], [.03, .01, .02])
b = bay([30, 45], [.04, .02])
check(close(a, b, 1e-10), 'a ply split in two changes the stiffness')
''')
new('C15-flange-foot', 'C15', [(ST + 'models/bladestiff2d_clt_donnell_bardell.pyx', '4*kr*rAwrBw*sAweta*sBweta/(bf*bf)', '4*kr*rAwrBw*sAweta*sBweta/(bf*a)')],
    'a 2D flange whose height is not the length of the bay', 'the rotation of the flange at its foot is held by a penalty that scales with the length of the bay', HEAD + '''
L = (140., 9., .3, 5., 5., 3.)
s = StiffPanelBay()
s.a, s.b, s.m, s.n = 1., .8, 3, 3
s.stack, s.plyt, s.laminaprop, s.rho, s.model = [0, 90], .01, L, 1., 'plate_clpt_donnell_bardell'
s.add_panel(0., .4)
s.add_panel(.4, .8)
st = s.add_bladestiff2d(ys=.4, bf=.1, fstack=[0, 90], fplyt=.01, flaminaprop=L, mf=4, nf=4)
K = s.calc_kC().toarray()
st.flange._rebuild()
F = K[27:, 27:] - st.flange.calc_kC().toarray()
from panels.multidomain.connections import calc_kt_kr
kt, kr = calc_kt_kr(st.panel1, st.flange, 'ycte')
f = st.flange
x, w = quad(8)
g = sum(w[k]*basis(f, 'x', 'w', 0, 1, x[k])**2 for k in range(8))
i = 3*(1*4 + 1) + 2
ref = .5*s.a*g*(kt*basis(f, 'y', 'w', 0, 1, -1.)**2 + 4*kr*basis(f, 'y', 'w', 1, 1, -1.)**2/f.b**2)
check(abs(F[i, i] - ref) < 1e-6*abs(ref), (F[i, i], ref))
''')
new('C16-right-angle', 'C16', [(MD + 'connections/penalties.py', 'kr = 4*D22_p1*D11_p2 / ((D22_p1+D11_p2)*(hp1+hp2))', 'kr = 4*D11_p1*D22_p2 / ((D22_p1+D11_p2)*(hp1+hp2))')],
    'a y-x connection of different, orthotropic laminates', 'the rotational penalty uses the bending stiffnesses along the other directions', HEAD + '''
from panels.multidomain.connections import calc_kt_kr
p1, p2 = shell(stack=[0, 0]), shell(stack=[90, 30, 0])
a, b = calc_kt_kr(p1, p2, 'ycte-xcte'), calc_kt_kr(p2, p1, 'xcte-ycte')
check(close(a, b), (a, b))
''')
new('C16-bending-thickness', 'C16', [(MD + 'connections/penalties.py', 'kr = 4*D11_p1*D11_p2/((D11_p1 + D11_p2)*(hp1 + hp2))', 'kr = 4*D11_p1*D11_p2/((D11_p1 + D11_p2)*(hp1 + hp1))')],
    'a connection at constant x of laminates of different thickness', 'the rotational penalty uses twice the thickness of the first panel', HEAD + '''
from panels.multidomain.connections import calc_kt_kr
p1, p2 = shell(stack=[0, 0]), shell(stack=[90, 30, 0])
check(close(calc_kt_kr(p1, p2, 'xcte'), calc_kt_kr(p2, p1, 'xcte')), 'depends on the order')
''')
new('C17-flange-laminate', 'C17', [(ST + 'bladestiff1d.py', '            self.flam = laminated_plate(', '            if self.flam is None:\n                self.flam = laminated_plate(')],
    'the plies of a 1D flange changed after the first calculation', 'the flange keeps the laminate of the first calculation', HEAD + '''
L = (140., 9., .3, 5., 5., 3.)
def bay(fplyts):
    s = StiffPanelBay()
    s.a, s.b, s.m, s.n = 1., .8, 3, 3
    s.stack, s.plyt, s.laminaprop, s.rho, s.model = [0, 90], .01, L, 1., 'plate_clpt_donnell_bardell'
    s.add_panel(0., .4)
    s.add_panel(.4, .8)
    return s, s.add_bladestiff1d(ys=.4, bf=.1, fstack=[0, 45], fplyts=fplyts, flaminaprop=L)
s, st = bay([.01, .02])
s.calc_kC()
st.fplyts = [.03, .02]
check(close(s.calc_kC().toarray(), bay([.03, .02])[0].calc_kC().toarray()), 'the new plies are ignored')
''')
new('C17-load-list', 'C17', [('panels/shell_fext.py', '        point_pds.append(pd + [inc])', '        pd += [inc]\n        point_pds.append(pd[:5] + [pd[-1]] if len(pd) == 6 else pd[:5] + [pd[5]])')],
    'incremental prescribed point displacements at a second load multiplier', 'the multiplier of the first calculation sticks to the load', HEAD + '''
s = shell()
s.add_point_pd(s.a/2, s.b/2, 1., .1, 1., .2, 1., .3, cte=False)
a = np.array(s.calc_fext(inc=1.))
b = np.array(s.calc_fext(inc=2.))
check(close(b, 2*a), 'the second multiplier is ignored')
''')
new('C18-base-connection', 'C18', [(MD + 'tstiff2d_1stiff_compression.py', "dict(p1=p10, p2=p12, func='SSxcte', xcte1=0, xcte2=p12.a)", "dict(p1=p10, p2=p12, func='SSxcte', xcte1=0, xcte2=min(p12.a, 2*a/3))")],
    'a debonding longer than two thirds of the panel', 'the base above the debonding is connected inside the middle base instead of at its edge', HEAD + '''
import panels.multidomain.tstiff2d_1stiff_compression
T = sys.modules['panels.multidomain.tstiff2d_1stiff_compression']
got = []
class Stop(Exception):
    pass
orig = MultiDomain.calc_kC
def spy(self, conn=None, **k):
    got.extend(conn)
    raise Stop
MultiDomain.calc_kC = spy
try:
    T.tstiff2d_1stiff_compression(a=1., b=.8, ys=.4, bb=.1, bf=.1, defect_a=.8, rho=1., plyt=.001, laminaprop=(140., 9., .3, 5., 5., 3.), stack_skin=[0, 90],
        stack_base=[0], stack_flange=[0], m=3, n=3, mb=3, nb=3, mf=3, nf=3, Nxx_skin=-1., Nxx_base=-1., Nxx_flange=-1.)
except Stop:
    pass
for q in got:
    if q['func'] == 'SSxcte':
        check(q['xcte1'] == 0 and abs(q['xcte2'] - q['p2'].a) < 1e-12, 'not edge to edge: %r of %r' % (q['xcte2'], q['p2'].a))
''')
new('C18-perturbation', 'C18', [(MD + 'cylinder.py', 'p_spla.add_point_load(p_spla.a/2, p_spla.b/2', 'p_spla.add_point_load(p_spla.a/2, p_spla.a/2')],
    'a cylinder whose panels are not as high as they are wide', 'the perturbation load is not in the middle of its panel', HEAD + '''
import panels.multidomain.cylinder
C = sys.modules['panels.multidomain.cylinder']
class Analysis:
    def __init__(self, *k):
        pass
    def static(self, **k):
        return [1.], [None]
C.Analysis = Analysis
A = C.cylinder_spla(height=1., r=.5, stack=[0, 90], plyt=.01, laminaprop=(140., 9., .3, 5., 5., 3.), npanels=3, Nxx=-1., SPLA=2., m=3, n=3)[0]
p = A.panels[0]
check(close(p.point_loads[0][:2], [p.a/2, p.b/2]), p.point_loads)
''')
