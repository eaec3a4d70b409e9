"""The mathematics the properties are stated in, written once from the theory (Ritz method with Bardell functions, classical
laminated plate theory, Donnell kinematics) and usable with exact symbolic reals and with floats. Nothing here is derived
from the package's kernels."""

FIELDS = 'uvw'


def flag_names(axis, fld):
    return ['%s1%s' % (axis, fld), '%s1%sr' % (axis, fld), '%s2%s' % (axis, fld), '%s2%sr' % (axis, fld)]


class Dom:
    """One shell domain as the property sees it: geometry, edge flags, and its basis."""
    def __init__(self, be, m, n, tag='', curved=False, flags='sym', a=None, b=None, r=None):
        self.be, self.m, self.n, self.tag = be, m, n, tag
        self.a = be.real('a' + tag, 0.5, 2.0) if a is None else a
        self.b = be.real('b' + tag, 0.5, 2.0) if b is None else b
        self.r = (be.real('r' + tag, 1.0, 3.0) if curved else None) if r is None else r
        self.fx, self.fy = {}, {}
        self.kw = {}
        for fld in FIELDS:
            for axis, d in (('x', self.fx), ('y', self.fy)):
                vals = []
                for nm in flag_names(axis, fld):
                    v = be.real(nm + tag, 0., 1.0) if flags == 'sym' else be.const(1.)
                    vals.append(v)
                    self.kw[nm] = v
                d[fld] = vals
        self._c = {}

    def dof(self, fld, i, j):
        return 3 * (j * self.m + i) + FIELDS.index(fld)

    def dofs(self):
        for j in range(self.n):
            for i in range(self.m):
                for fld in FIELDS:
                    yield self.dof(fld, i, j), fld, i, j

    size = property(lambda s: 3 * s.m * s.n)

    def X(self, p, fld, i, xi):
        """p-th derivative with respect to xi of the i-th x function of this field."""
        k = ('x', p, fld, i, _key(xi))
        v = self._c.get(k)
        if v is None:
            v = self._c[k] = self.be.f(p, i, xi, self.fx[fld])
        return v

    def Y(self, p, fld, j, eta):
        k = ('y', p, fld, j, _key(eta))
        v = self._c.get(k)
        if v is None:
            v = self._c[k] = self.be.f(p, j, eta, self.fy[fld])
        return v

    def d(self, fld, px, py, i, j, xi, eta):
        """d^(px+py)/dx^px dy^py of the basis function (i, j) of this field, at natural coordinates."""
        v = self.X(px, fld, i, xi) * self.Y(py, fld, j, eta)
        for _ in range(px):
            v = v * 2 / self.a
        for _ in range(py):
            v = v * 2 / self.b
        return v

    def rows(self, op, xi, eta):
        """[{dof: coefficient}] for the linear operators op = [[(field, coefficient, px, py), ...], ...] at a point."""
        out = []
        for terms in op:
            r = {}
            for fld, c, px, py in terms:
                for j in range(self.n):
                    for i in range(self.m):
                        k = self.dof(fld, i, j)
                        v = self.d(fld, px, py, i, j, xi, eta) * c
                        r[k] = r[k] + v if k in r else v
            out.append(r)
        return out

    def strain_op(self):
        invr = 1 / self.r if self.r is not None else None
        eyy = [('v', 1, 0, 1)] + ([('w', invr, 0, 0)] if invr is not None else [])
        return [[('u', 1, 1, 0)], eyy, [('u', 1, 0, 1), ('v', 1, 1, 0)],
                [('w', -1, 2, 0)], [('w', -1, 0, 2)], [('w', -2, 1, 1)]]

    def exact_pair(self, A, B, opA, opB):
        """integral over the domain of opA(basis A) * opB(basis B), opX = (field, coefficient, px, py), A, B = (i, j)."""
        be = self.be
        fa, ca, pa, qa = opA
        fb, cb, pb, qb = opB
        v = be.I(pa, pb, A[0], B[0], self.fx[fa], self.fx[fb]) * be.I(qa, qb, A[1], B[1], self.fy[fa], self.fy[fb])
        for _ in range(pa + pb):
            v = v * 2 / self.a
        for _ in range(qa + qb):
            v = v * 2 / self.b
        return v * ca * cb * self.a * self.b / 4

    def quadratic_exact(self, op, W):
        """Hessian of 1/2 int sum_ef W[e][f] op_e op_f, as {(row, col): value} for all pairs; W[e][f] None or 0 = absent."""
        H = {}
        ds = list(self.dofs())
        byf = {f: [(k, (i, j)) for k, g, i, j in ds if g == f] for f in FIELDS}
        for e, te in enumerate(op):
            for f, tf in enumerate(op):
                w = W[e][f]
                if w is None or (isinstance(w, (int, float)) and w == 0):
                    continue
                for oa in te:
                    for ob in tf:
                        for ka, A in byf[oa[0]]:
                            for kb, B in byf[ob[0]]:
                                v = self.exact_pair(A, B, oa, ob) * w
                                H[ka, kb] = H[ka, kb] + v if (ka, kb) in H else v
        return H

    def points(self, nx, ny, part=None):
        """Quadrature points of the domain (or of a part x1, x2, y1, y2): (ptx, pty, xi, eta, area weight)."""
        be = self.be
        xs, wx = be.quad(nx)
        ys, wy = be.quad(ny)
        if part is None:
            x1, x2, y1, y2 = 0, self.a, 0, self.b
        else:
            x1, x2, y1, y2 = part
        for p in range(nx):
            for q in range(ny):
                if part is None:
                    xi, eta = xs[p], ys[q]
                    area = self.a * self.b / 4
                else:
                    xi = ((x1 + x2) + (x2 - x1) * xs[p]) / self.a - 1
                    eta = ((y1 + y2) + (y2 - y1) * ys[q]) / self.b - 1
                    area = (x2 - x1) * (y2 - y1) / 4
                yield p, q, xi, eta, wx[p] * wy[q] * area

    def lin(self, row, c):
        t = 0
        for k, v in row.items():
            t = t + v * c[k]
        return t


def _key(x):
    return x.canon() if hasattr(x, 'canon') else float(x)


def add(H, k, v):
    H[k] = H[k] + v if k in H else v


def quad_form(H, rows, W, wt):
    """H += wt * sum_ef rows_e^T W[e][f] rows_f."""
    for e, re_ in enumerate(rows):
        for f, rf in enumerate(rows):
            w = W[e][f]
            if w is None or (isinstance(w, (int, float)) and w == 0):
                continue
            for ka, va in re_.items():
                x = va * w * wt
                for kb, vb in rf.items():
                    add(H, (ka, kb), x * vb)


class Lam:
    """Laminate inputs, and its ABD by the laminate theory package itself (trusted)."""
    def __init__(self, be, tag='', stack=(0, 45, 20), offset=False, rho=False, tmax=1.0):
        self.stack = list(stack)
        self.plyts = [be.real('t%d%s' % (k, tag), 0.5 * tmax, tmax) for k in range(len(stack))]
        E1, E2, nu, G = (be.real(x + tag, lo, hi) for x, lo, hi in (('E1', 2., 3.), ('E2', .8, 1.2), ('nu12', .2, .35), ('G12', .4, .6)))
        self.prop = (E1, E2, nu, G, G, G)
        self.offset = be.real('off' + tag, -0.3, 0.3) if offset else 0.
        self.rhos = [be.real('rho%d%s' % (k, tag), 1., 2.) for k in range(len(stack))] if rho else [0. for _ in stack]
        self.kw = dict(stack=list(self.stack), offset=self.offset)
        self.be = be

    def set(self, s):
        s.stack = list(self.stack)
        s.plyts = list(self.plyts)
        s.laminaprops = [self.prop for _ in self.stack]
        s.rhos = list(self.rhos)
        s.offset = self.offset

    def ABD(self):
        return self.be.laminate(stack=list(self.stack), plyts=list(self.plyts), laminaprops=[self.prop for _ in self.stack],
                                rhos=list(self.rhos), offset=self.offset)

    h = property(lambda s: sum(s.plyts[1:], s.plyts[0]))


def make_shell(be, dom, lam, **kw):
    S = be.mod('panels.shell').Shell
    s = S(a=dom.a, b=dom.b, r=dom.r, m=dom.m, n=dom.n, **kw)
    for k, v in dom.kw.items():
        setattr(s, k, v)
    if lam is not None:
        lam.set(s)
    return s


def compare(be, label, M, H, size, sel=None):
    """The whole matrix M against the {(row, col): value} H (absent entries must be zero)."""
    M = be.dense(M)
    be.true(label + ': shape', tuple(M.shape) == (size, size))
    for r in range(size):
        for c in range(size):
            if sel is not None and not sel(r, c):
                continue
            be.eq('%s[%d,%d]' % (label, r, c), M[r, c], H.get((r, c), 0))


def compare_vec(be, label, v, spec, size):
    be.true(label + ': length', len(v) == size)
    for k in range(size):
        be.eq('%s[%d]' % (label, k), v[k], spec.get(k, 0))


def rng(m, n):
    return [(i, j) for j in range(n) for i in range(m)]


def bshape(be, name, n, lo=-1., hi=1.):
    return be.vec([be.real('%s%d' % (name, k), lo, hi) for k in range(n)])


def strains(dom, c, xi, eta, nl):
    """Donnell strains of the displacement field c at a point, and their variation B = d eps / d c as rows."""
    lin = dom.rows(dom.strain_op(), xi, eta)
    eps = [dom.lin(r, c) for r in lin]
    if not nl:
        return eps, lin, None, None
    rx, ry = dom.rows([[('w', 1, 1, 0)], [('w', 1, 0, 1)]], xi, eta)
    wx, wy = dom.lin(rx, c), dom.lin(ry, c)
    eps[0] = eps[0] + wx * wx / 2
    eps[1] = eps[1] + wy * wy / 2
    eps[2] = eps[2] + wx * wy
    if dom.be.dev('gxy-doubled'):
        eps[2] = eps[2] + wx * wy
    B = [dict(r) for r in lin]
    for k in rx:
        add(B[0], k, wx * rx[k])
        add(B[1], k, wy * ry[k])
        add(B[2], k, wx * ry[k] + wy * rx[k])
    return eps, B, rx, ry


def matvec(F, e, rows=6):
    out = []
    for i in range(rows):
        t = 0
        for j in range(6):
            t = t + F[i][j] * e[j]
        out.append(t)
    return out


def sym66(be, name):
    M = [[0] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i, 6):
            ii, jj = (j - 3, i + 3) if i < 3 <= j and j - 3 < i else (i, j)
            v = be.real('%s%d%d' % (name, ii, jj), *((2., 3.) if i == j else (-.4, .4)))
            M[i][j] = M[j][i] = v
    return M


def laminate_field(be, nx, ny, name='F'):
    """One laminate matrix per integration point: (nested lists for the spec, array for the code)."""
    F = [[sym66(be, '%s_%d_%d_' % (name, p, q)) for q in range(ny)] for p in range(nx)]
    return F, be.arr(F)
