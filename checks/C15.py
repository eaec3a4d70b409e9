"""C15: stiffened bays: the energies of their panels, stiffener bases, flanges and of the joints between them."""
from . import spec as S
from .C11 import block, part
from .C12 import energy, gap_line, line_terms

LEVEL = 'other'
MODULES = ['panels', 'panels.shell', 'panels.multidomain', 'panels.stiffener', 'panels.stiffpanelbay']
FUNCTIONS = ['StiffPanelBay.add_panel, add_bladestiff1d, add_bladestiff2d, get_size, calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fext, uvw_skin, uvw_stiffener',
             'BladeStiff1D.__init__, _rebuild, calc_kC, calc_kG, calc_kM', 'BladeStiff2D.__init__, _rebuild, calc_kC, calc_kG, calc_kM',
             'bladestiff1d_clt_donnell_bardell.fkCf, fkGf, fkMf', 'bladestiff2d_clt_donnell_bardell.fkCss, fkCsf, fkCff',
             'the methods and kernels of the shells behind panels, bases and flanges']
BOUNDS = ('bays of one to three panels with different laminates, flat and curved, with up to three stiffeners of both kinds at the borders and between panels, with '
          'base, flange or both; (1,2), (2,1), (2,2) terms for the skin and the flanges (replayed with up to (3,4)); 2 by 2 integration points over panels and as many as the code takes '
          'over bases; every geometry, edge flag, laminate, load and displacement vector; every entry of every matrix and vector')
OUTSIDE = ('rounding of IEEE doubles; more terms and points than the bound; geometric stiffness of bases (documented as to do) and of 1D stiffeners at a displaced state (refused); '
           'T-stiffeners, which no method adds; plotting and saving; the value of the coupling and polar constants of the 1D flange idealisation beyond their definition')
EXPLANATION = ('The bay is built through its public methods, symbolically; z3 decides that every entry of its matrices and vectors is the sum of those of its panels '
               'and bases taken alone as shells over their strip of the bay (bases below the skin by half of both thicknesses), of the beam energy of every 1D flange '
               'along its line, and of every 2D flange as a plate in its own rows, joined to the skin at its foot by the right-angle connection (C12) with '
               'the constants of C16. Fields and external forces are decided against the series (C10) and the work of the forces (C09).')
ASSUMPTIONS = ['doubles are reals', 'C08 (shells over a part of the domain), C04 to C07, C13, C14 (shells alone)', 'C12, C16 (connections)', 'C01, C02',
               '1D flange: E1 = sum h (q11 - q12^2/q22), S1 = -sum y h (q16 - q12 q26/q22) from its first face, torsion constant bf hf^3/12 + hf bf^3/12']


class Bay:
    """A bay under test, and what each of its parts is."""
    def __init__(self, be, m, n, M, N, curved=False, model='set', plain=False):
        self.be = be
        self.dom = d = S.Dom(be, be.pick(m, M), be.pick(n, N), curved=curved)
        self.bay = b = be.mod('panels.stiffpanelbay').StiffPanelBay()
        b.a, b.b, b.r, b.m, b.n = d.a, d.b, d.r, d.m, d.n
        for k, v in d.kw.items():
            setattr(b, k, v)
        self.model = ('cylshell' if curved else 'plate') + '_clpt_donnell_bardell'
        if model == 'set':
            b.model = self.model
        b.rho = self.rho = be.real('rho', .5, 2.)
        b.out_num_cores = 2
        self.panels, self.bases, self.flanges, self.beams = [], [], [], []
        self.skin = d.size
        self.size = d.size

    def strip(self, lam, y1, y2, rho, offset=0., nx=None, ny=None):
        be, d = self.be, self.dom
        s = S.make_shell(be, d, None)
        lam.set(s)
        s.rhos = [rho for _ in lam.stack]
        s.offset = offset
        s.y1, s.y2 = y1, y2
        s.nx, s.ny = nx or 2 * d.m, ny or 2 * d.n
        s.model = self.model
        return s

    def panel(self, y1, y2, stack=(0, 45), how='plyts', nq=2, tag=None, rho=None, loads=True):
        be = self.be
        tag = '_p%d' % len(self.panels) if tag is None else tag
        lam = S.Lam(be, tag=tag, stack=stack, tmax=.5)
        kw = dict(stack=list(lam.stack), nx=nq, ny=nq)
        if how == 'plyts':
            kw.update(plyts=list(lam.plyts), laminaprops=[lam.prop for _ in lam.stack])
        elif how == 'plyt':
            lam.plyts = [lam.plyts[0] for _ in lam.stack]
            kw.update(plyt=lam.plyts[0], laminaprop=lam.prop)
        else:
            # from the bay
            lam.plyts = [lam.plyts[0] for _ in lam.stack]
            self.bay.stack, self.bay.plyt, self.bay.laminaprop = list(lam.stack), lam.plyts[0], lam.prop
            kw.pop('stack')
        if rho is not None:
            kw['rho'] = rho
        s = self.strip(lam, y1, y2, self.rho if rho is None else rho, nx=nq, ny=nq)
        if loads:
            for q in ('xx', 'yy', 'xy'):
                kw['N' + q] = be.real('N%s%s' % (q, tag), -1.5 if q == 'xx' else .5, 2.)
                setattr(s, 'N' + q, kw['N' + q])
        p = be.call('add_panel', self.bay.add_panel, y1, y2, **kw)
        be.true('add_panel: in the list of the bay', self.bay.panels[-1] is p and len(self.bay.panels) == len(self.panels) + 1)
        self.panels.append((s, lam))
        return p

    def stiffener(self, kind, ys, sides, base=True, flange=True, how='plyts', rho=None, flags='sym', mf=(1, 2), Mf=(3, 2), nq=2, fx=True):
        """sides: which two panels are next to it."""
        be = self.be
        tag = '_s%d' % len(self.bay.stiffeners)
        kw = {}
        given = self.rho if rho is None else rho
        if rho is not None:
            kw['rho'] = rho
        h1, h2 = (self.panels[k][1].h for k in sides)
        h = h1 / 2 + h2 / 2
        blam = flam = None
        hb = 0
        bb = bf = None
        if base:
            blam = S.Lam(be, tag='_b' + tag, stack=(30,), tmax=.4)
            bb = be.real('bb' + tag, .1, .2)
            kw.update(bb=bb, bstack=list(blam.stack))
            hb = blam.h
        if flange:
            flam = S.Lam(be, tag='_f' + tag, stack=(0, 60) if kind == '1d' else (45,), tmax=.4)
            bf = be.real('bf' + tag, .3, .6)
            kw.update(bf=bf, fstack=list(flam.stack))
        for c, lam in (('b', blam), ('f', flam)):
            if lam is None:
                continue
            if how == 'plyts':
                kw[c + 'plyts'], kw[c + 'laminaprops'] = list(lam.plyts), [lam.prop for _ in lam.stack]
            else:
                lam.plyts = [lam.plyts[0] for _ in lam.stack]
                if lam is blam:
                    hb = lam.h
                kw[c + 'plyt'], kw[c + 'laminaprop'] = lam.plyts[0], lam.prop
        if kind == '1d':
            if flange and fx:
                kw['Fx'] = be.real('Fx' + tag, -1.5, 2.)
            st = be.call('add_bladestiff1d', self.bay.add_bladestiff1d, ys, **kw)
        else:
            if flange:
                kw['mf'], kw['nf'] = be.pick(mf[0], Mf[0]), be.pick(mf[1], Mf[1])
            st = be.call('add_bladestiff2d', self.bay.add_bladestiff2d, ys, **kw)
        be.true('add_bladestiff: in the lists of the bay', self.bay.stiffeners[-1] is st and (self.bay.bladestiff1ds if kind == '1d' else self.bay.bladestiff2ds)[-1] is st)
        be.true('add_bladestiff: the panels next to it', st.panel1 is self.bay.panels[sides[0]] and st.panel2 is self.bay.panels[sides[1]])
        sb = None
        if base:
            sb = self.strip(blam, ys - bb / 2, ys + bb / 2, given, offset=-h / 2 - hb / 2)
            self.bases.append(sb)
        if flange and kind == '1d':
            self.beams.append((ys, bf, flam, h, hb, kw.get('Fx', 0), given))
        if flange and kind == '2d':
            fd = S.Dom(be, kw['mf'], kw['nf'], tag=tag, a=self.dom.a, b=bf, flags=flags if flags == 'sym' else 'one')
            if flags == 'sym':
                for k, v in fd.kw.items():
                    setattr(st.flange, k, v)
            else:
                for ax in 'xy':
                    for f in 'uvw':
                        vals = [be.const(1. if (ax == 'y' and not r) or f == 'w' and r else 0.) for e in '12' for r in (0, 1)]
                        (fd.fx if ax == 'x' else fd.fy)[f] = vals
                        for nm, v in zip(S.flag_names(ax, f), vals):
                            fd.kw[nm] = v
            sf = S.make_shell(be, fd, flam)
            sf.rhos = [given for _ in flam.stack]
            sf.model = 'plate_clpt_donnell_bardell'
            sf.nx = sf.ny = st.flange.nx = st.flange.ny = nq
            for q in ('xx', 'yy', 'xy'):
                setattr(sf, 'N' + q, be.real('N%s%s' % (q, tag), -1.5 if q == 'xx' else .5, 2.))
                setattr(st.flange, 'N' + q, getattr(sf, 'N' + q))
            foot = sb if sb is not None else self.strip(self.panels[sides[0]][1], None, None, 0)
            self.flanges.append((st, sf, fd, ys, foot, self.size))
            self.size += fd.size
        return st

    # ------------------------------------------------------------ energies
    def beam(self, H, what, ys, bf, lam, h, hb, Fx, rho):
        be, d = self.be, self.dom
        hf = lam.h
        df = bf / 2 + hb + h / 2
        jac = d.a / 2

        def T(*terms):
            return [(0, line_terms(be, d, list(terms), 'y', ys))]
        if what == 'kC':
            E1 = S1 = G = 0
            y = 0
            for ang, t in zip(lam.stack, lam.plyts):
                p = be.ply(ang, lam.prop, t)
                E1 = E1 + t * (p.q11L - p.q12L * p.q12L / p.q22L)
                S1 = S1 - (y + t / 2) * t * (p.q16L - p.q12L * p.q26L / p.q22L)
                G = G + t * (p.q66L - p.q26L * p.q26L / p.q22L)
                y = y + t
            eps = T(('u', 1, 1, 0), ('w', df, 2, 0))
            energy(be, H, bf * E1, jac, eps)
            energy(be, H, bf * bf * bf / 12 * E1, jac, T(('w', 1, 2, 0)))
            # torsion: shear modulus times the polar constant
            J = hf * bf * bf * bf / 12 + bf * hf * hf * hf / 12
            if not be.dev('torsion-without-modulus'):
                J = J * G / hf
            energy(be, H, bf * J, jac, T(('w', 1, 1, 1)))
            # -2 S1 eps w,xy as the difference of two squares: (eps - S1 w,xy)^2 - eps^2 - (S1 w,xy)^2
            energy(be, H, bf, jac, T(('u', 1, 1, 0), ('w', df, 2, 0), ('w', -S1, 1, 1)))
            energy(be, H, -bf, jac, eps)
            energy(be, H, -bf, jac, T(('w', S1, 1, 1)))
        elif what == 'kG':
            energy(be, H, Fx, jac, T(('w', 1, 1, 0)))
        else:
            mass = rho * bf * hf
            energy(be, H, mass, jac, T(('u', 1, 0, 0), ('w', df, 1, 0)))
            energy(be, H, mass, jac, T(('v', 1, 0, 0), ('w', df, 0, 1)))
            energy(be, H, mass, jac, T(('w', 1, 0, 0)))
            for p, q in ((1, 0), (0, 1)):
                energy(be, H, mass * bf * bf / 12, jac, T(('w', 1, p, q)))

    def expected(self, what, c=None):
        be = self.be
        H = {}

        def put(s, off, n, st=None):
            cc = None if c is None else part(be, c, off, n)
            M = s.calc_kC(silent=True) if what == 'kC' else s.calc_kM(silent=True) if what == 'kM' else s.calc_kG(c=cc, silent=True)
            block(be, H, M, off, n)
        for s, lam in self.panels:
            put(s, 0, self.skin)
        if what != 'kG':
            for s in self.bases:
                put(s, 0, self.skin)
        for b in self.beams:
            self.beam(H, what, *b)
        for st, sf, fd, ys, foot, off in self.flanges:
            put(sf, off, fd.size)
            if what == 'kC':
                C = be.mod('panels.multidomain.connections')
                for s in (foot, sf):
                    s._rebuild()
                kt, kr = be.call('constants of the joint', C.calc_kt_kr, foot, sf, 'ycte')
                gap_line(be, H, [self.dom, fd], [0, off], 'BFycte', [ys, be.const(0.)], kt, kr)
        return H


LAYOUTS = {
    # name: panels as (border indexes), stiffeners as (kind, border, sides, options)
    'skin': ([0, 1, 2], []),
    'b1d-flange': ([0, 1, 2], [('1d', 1, (0, 1), dict(base=False))]),
    'b1d-base': ([0, 1, 2], [('1d', 1, (0, 1), dict(flange=False))]),
    'b1d-both': ([0, 1, 2], [('1d', 1, (0, 1), {})]),
    'b1d-low': ([0, 2], [('1d', 0, (0, 0), dict(base=False))]),
    'b1d-high': ([0, 1, 2], [('1d', 2, (1, 1), dict(base=False))]),
    'b2d-flange': ([0, 1, 2], [('2d', 1, (0, 1), dict(base=False))]),
    'b2d-base': ([0, 1, 2], [('2d', 1, (0, 1), dict(flange=False))]),
    'b2d-both': ([0, 1, 2], [('2d', 1, (0, 1), {})]),
    'b2d-high': ([0, 2], [('2d', 2, (0, 0), dict(base=False))]),
    'b2d-low': ([0, 1, 2], [('2d', 0, (0, 0), dict(base=False))]),
    'two-1d': ([0, 1, 2, 3], [('1d', 1, (0, 1), {}), ('1d', 2, (1, 2), dict(base=False))]),
    'two-2d': ([0, 1, 2, 3], [('2d', 2, (1, 2), dict(base=False)), ('2d', 1, (0, 1), {'mf': (2, 1), 'Mf': (2, 3)})]),
    'mixed': ([0, 1, 2, 3], [('2d', 1, (0, 1), dict(flange=False)), ('1d', 2, (1, 2), {}), ('2d', 2, (1, 2), dict(base=False, mf=(2, 1)))]),
    'three-2d': ([0, 1, 2], [('2d', 0, (0, 0), dict(base=False)), ('2d', 1, (0, 1), dict(flange=False)), ('2d', 2, (1, 1), dict(base=False, mf=(2, 1), Mf=(2, 3)))]),
}


def borders(be, bay, idx):
    # rising, the first at zero, the last at the width
    last = max(idx)
    ys = {0: be.const(0.), last: bay.dom.b}
    for k in range(1, last):
        ys[k] = be.real('y%d' % k, .08 + .14 * k, .12 + .14 * k)
    return ys


def make(be, layout, m, n, M, N, curved=False, how='plyts', model='set', rho=None, flags='sym', stacks=((0, 45), (30,), (0,)), nq=2):
    B = Bay(be, m, n, M, N, curved, model)
    idx, stiff = LAYOUTS[layout]
    ys = borders(be, B, idx)
    for k, (p, q) in enumerate(zip(idx[:-1], idx[1:])):
        B.panel(ys[p], ys[q], stacks[k], how, nq, rho=rho if rho is None else be.real('rho_p%d' % k, .5, 2.))
    for k, (kind, at, sides, opt) in enumerate(stiff):
        B.stiffener(kind, ys[at], sides, how='plyts' if how == 'plyts' else 'plyt', rho=rho if rho is None else be.real('rho_s%d' % k, .5, 2.), flags=flags, **opt)
    return B


def matrix(be, what, layout, m, n, M, N, state=False, twice=False, **k):
    B = make(be, layout, m, n, M, N, **k)
    c = S.bshape(be, 'c', B.size) if state else None
    fn = getattr(B.bay, 'calc_' + what)
    kw = {'c': c} if state else {}
    if twice:
        be.call(what, fn, **kw)
    K = be.call(what, fn, **kw)
    H = B.expected(what, c)
    be.true('size', be.call('get_size', B.bay.get_size) == B.size)
    S.compare(be, 'bay %s' % what, K, H, B.size)
    be.true('%s: kept' % what, getattr(B.bay, what) is K)


def aero(be, what, layout, m, n, M, N, how, flow='x', **k):
    B = make(be, layout, m, n, M, N, **k)
    bay = B.bay
    bay.flow = flow
    vals = {}
    if how == 'given':
        vals = dict(beta=be.real('beta', .5, 2.), gamma=be.real('gamma', .2, .8), aeromu=be.real('mu', .5, 2.))
    elif how == 'beta':
        vals = dict(beta=be.real('beta', .5, 2.))
    else:
        vals = dict(Mach=be.real('Mach', 1.5, 4.) if how == 'mach' else be.const(1.), V=be.real('V', .5, 2.), rho_air=be.real('rho_air', .5, 2.), speed_sound=be.real('ainf', .5, 2.))
    for q, v in vals.items():
        setattr(bay, q, v)
    if how == 'sonic':
        vals['Mach'] = be.const(1.0001)
    H = {}
    K = be.call(what, getattr(bay, 'calc_' + what))
    if what == 'kA':
        for s, lam in B.panels:
            s.flow = flow
            for q, v in vals.items():
                if q not in ('aeromu', 'speed_sound'):
                    setattr(s, q, v)
            block(be, H, s.calc_kA(silent=True), 0, B.skin)
    else:
        if how in ('given', 'beta'):
            mu = vals.get('aeromu', 0)
        else:
            Mm = vals['Mach']
            beta = vals['rho_air'] * vals['V'] * vals['V'] / be.sqrt(Mm * Mm - 1)
            mu = beta / (Mm * vals['speed_sound']) * (Mm * Mm - 2) / (Mm * Mm - 1)
        W = B.dom.quadratic_exact([[('w', 1, 0, 0)]], [[1]])
        for q, v in W.items():
            S.add(H, q, v * mu * be.const(-1j) if not isinstance(mu, int) else 0)
    S.compare(be, 'bay %s' % what, K, H, B.size)


def forces(be, layout, m, n, M, N, **k):
    from .C09 import point
    B = make(be, layout, m, n, M, N, **k)
    v = {}

    def load(tag, dom):
        x, y = be.real('x' + tag, 0, .5), be.real('y_' + tag, 0, .3)
        f = [be.real('f%s%s' % (q, tag), -1.5, 2.) for q in 'xyz']
        w = {}
        point(dom, x, y, f, w)
        return [x, y] + f, w
    for q in range(2):
        F, w = load('_k%d' % q, B.dom)
        B.bay.forces_skin.append(F)
        for r, z in w.items():
            S.add(v, r, z)
    for j, (st, sf, fd, ys, foot, off) in enumerate(B.flanges):
        for q in range(2 - j % 2):
            F, w = load('_f%d%d' % (j, q), fd)
            st.forces_flange.append(F)
            for r, z in w.items():
                S.add(v, off + r, z)
    f = be.call('fext', B.bay.calc_fext)
    S.compare_vec(be, 'bay fext', f, v, B.size)


def fields(be, layout, m, n, M, N, shape='1d', **k):
    B = make(be, layout, m, n, M, N, **k)
    c = S.bshape(be, 'c', B.size)
    parts = [('skin', None, B.dom, 0)] + [('flange', B.bay.stiffeners.index(st), fd, off) for st, sf, fd, ys, foot, off in B.flanges]
    be.call('rebuild', B.bay._rebuild)
    for nm, si, dom, off in parts:
        kw = {}
        if shape == 'grid':
            kw = dict(gridx=3, gridy=2)
            X, Y = be.np.meshgrid(be.np.linspace(0, dom.a, 3), be.np.linspace(0, dom.b, 2))
        else:
            X = [be.real('px%d' % q, 0, .5) for q in range(4)]
            Y = [be.real('py%d' % q, 0, .3) for q in range(4)]
            X, Y = (be.vec(X), be.vec(Y)) if shape == '1d' else (be.arr([X[:2], X[2:]]), be.arr([Y[:2], Y[2:]]))
            kw = dict(xs=X, ys=Y)
        res = be.call('displacements of the %s' % nm, B.bay.uvw_skin, c, **kw) if si is None else be.call('displacements of the %s' % nm, B.bay.uvw_stiffener, c, si, **kw)
        be.true('displacements: five', len(res) == 5)
        cs = part(be, c, off, dom.size)
        ops = [[('u', 1, 0, 0)], [('v', 1, 0, 0)], [('w', 1, 0, 0)], [('w', -1, 1, 0)], [('w', -1, 0, 1)]]
        for r in res:
            be.true('displacements: shape', tuple(r.shape) == tuple(X.shape))
        xs, ys = X.reshape(-1), Y.reshape(-1)
        for z in range(len(xs)):
            rows = dom.rows(ops, 2 * xs[z] / dom.a - 1, 2 * ys[z] / dom.b - 1)
            for q, nmq in enumerate(('u', 'v', 'w', 'phix', 'phiy')):
                be.eq('%s of the %s[%d]' % (nmq, nm, z), res[q].reshape(-1)[z], dom.lin(rows[q], cs))
                be.true('fields kept', getattr(B.bay, nmq) is res[q])
    short = be.vec([c[k] for k in range(B.size - 1)])
    be.raises('vector of another size', B.bay.uvw_skin, short)
    for st, si in [(s, i) for i, s in enumerate(B.bay.stiffeners)]:
        be.raises('the base has the skin\'s displacements', B.bay.uvw_stiffener, c, si, region='base')
        if st in B.bay.bladestiff1ds:
            be.raises('a 1D stiffener has no field', B.bay.uvw_stiffener, c, si)


def refused(be):
    def new():
        return Bay(be, 1, 2, 1, 2)
    B = new()
    lam = S.Lam(be, tag='_x', stack=(0, 45))
    full = dict(bb=be.real('bb', .1, .2), bf=be.real('bf', .3, .6), bstack=[0, 45], bplyts=list(lam.plyts), blaminaprops=[lam.prop] * 2,
                fstack=[0, 45], fplyts=list(lam.plyts), flaminaprops=[lam.prop] * 2)

    def less(*names):
        return {k: v for k, v in full.items() if k not in names}
    y1 = be.real('y1', .2, .25)
    for kind in ('add_bladestiff1d', 'add_bladestiff2d'):
        be.raises('stiffener before the panels', getattr(B.bay, kind), y1, **full)
    B.panel(be.const(0.), y1)
    B.panel(y1, B.dom.b, (30,))
    for kind in ('add_bladestiff1d', 'add_bladestiff2d'):
        add = getattr(B.bay, kind)
        be.raises('stiffener inside a panel', add, y1 / 2, **full)
        be.raises('stiffener without base and flange', add, y1, **less('bstack', 'fstack'))
        for q in ('bplyts', 'blaminaprops', 'fplyts', 'flaminaprops'):
            be.raises('stiffener without %s' % q, add, y1, **less(q))
        be.true('nothing added', not B.bay.stiffeners)
    B.stiffener('1d', y1, (0, 1))
    be.raises('1D stiffener at a displaced state', B.bay.calc_kG, c=S.bshape(be, 'c', B.size))
    for q in 'ab':
        C = new()
        C.panel(be.const(0.), C.dom.b)
        setattr(C.bay, q, None)
        for fn in ('kC', 'kG', 'kM', 'fext'):
            be.raises('no length or width', getattr(C.bay, 'calc_' + fn))
    B.bay.Mach, B.bay.V, B.bay.rho_air, B.bay.speed_sound = be.real('Mach', .1, .9), be.const(1.), be.const(1.), be.const(1.)
    be.raises('subsonic flow', B.bay.calc_kA)
    be.raises('subsonic flow', B.bay.calc_cA)


def harnesses(tier):
    hs = []
    quick = tier == 'quick'

    def h(name, fn, cost=2, **k):
        k.setdefault('M', 3)
        k.setdefault('N', 2)
        hs.append({'name': name, 'fn': fn, 'params': k, 'cost': cost, 'timeout': 200})
    sizes = [(2, 1), (1, 2)]
    hows = ['plyts', 'plyt', 'bay']
    for q, layout in enumerate(LAYOUTS):
        for w, what in enumerate(('kC', 'kG', 'kM')):
            z = q + w
            m, n = sizes[z % 2]
            how = 'bay' if layout in ('skin', 'b1d-both', 'two-2d') and what == 'kC' else hows[z % 2]
            k = dict(stacks=((0, 45),) * 3) if how == 'bay' else {}
            h('%s-%s' % (what, layout), matrix, 2 + len(LAYOUTS[layout][1]), what=what, layout=layout, m=m, n=n, M=2 + z % 2, N=4 if layout.endswith(('low', 'high')) else 3 - z % 2, curved=z % 3 == 0, how=how,
              rho='own' if z % 4 == 1 else None, model='set' if z % 5 else 'free', flags='sym' if z % 4 else 'default', twice=z % 4 == 2, **k)
    for layout in ('skin', 'b2d-flange', 'two-2d', 'b2d-both'):
        h('kG-state-' + layout, matrix, 4, what='kG', layout=layout, m=1, n=2, state=True, curved=layout == 'skin', stacks=((0, 45), (30,), (0,)))
    h('kC-2x2-b1d', matrix, 8, what='kC', layout='b1d-both', m=2, n=2, M=3, N=4)
    h('kC-2x2-b2d', matrix, 8, what='kC', layout='b2d-both', m=2, n=2, M=3, N=4)
    h('kM-2x2-b1d', matrix, 8, what='kM', layout='b1d-both', m=2, n=2, M=3, N=4)
    for q, (layout, how, flow) in enumerate((('skin', 'given', 'x'), ('b1d-both', 'beta', 'y'), ('b2d-flange', 'mach', 'x'), ('two-2d', 'sonic', 'x'), ('skin', 'mach', 'y'))):
        h('kA-%s-%s-%s' % (layout, how, flow), aero, what='kA', layout=layout, how=how, flow=flow, m=2 - q % 2, n=1 + q % 2, curved=q % 2 == 0)
        h('cA-%s-%s' % (layout, how), aero, what='cA', layout=layout, how=how, m=2 - q % 2, n=1 + q % 2, curved=q % 2 == 0)
    for q, layout in enumerate(('skin', 'b1d-both', 'two-2d', 'three-2d', 'mixed')):
        h('fext-' + layout, forces, layout=layout, m=2, n=2, M=3, N=4, curved=q % 2 == 1, flags='default' if q == 3 else 'sym')
        for shape in ('1d', '2d', 'grid'):
            h('uvw-%s-%s' % (layout, shape), fields, layout=layout, m=2, n=2, M=3, N=4, shape=shape, curved=q % 2 == 0)
    hs.append({'name': 'refused', 'fn': refused, 'params': {}, 'cost': 2})
    if not quick:
        for layout in LAYOUTS:
            for what in ('kC', 'kG', 'kM'):
                for curved in (False, True):
                    h('%s-%s-2x2%s' % (what, layout, '-curved' if curved else ''), matrix, 8, what=what, layout=layout, m=2, n=2, M=3, N=4, curved=curved)
        for what in ('kC', 'kM'):
            for layout in ('b1d-flange', 'b2d-flange'):
                h('%s-%s-long' % (what, layout), matrix, 8, what=what, layout=layout, m=6, n=1, nq=6)
                h('%s-%s-wide' % (what, layout), matrix, 8, what=what, layout=layout, m=1, n=6, nq=6)
    return hs
