"""C03: the Gauss-Legendre tables integrate every polynomial of degree 2n-1 exactly, on the real C++ (LLVM IR)."""
import os
import time
from fractions import Fraction as F

LEVEL = 'other'
CPP = 'panels/core/src/legendre_gauss_quadrature.cpp'
MODULES = ['panels.legendre_gauss_quadrature']
FUNCTIONS = ['legendre_gauss_quadrature.cpp: leggauss_quad (LLVM IR)', 'legendre_gauss_quadrature.pyx: get_points_weights']
BOUNDS = ('every rule 1 <= n <= 64 (n is a symbolic 32-bit integer), every polynomial of degree <= 2n-1 whose coefficients '
          'add up to at most 1 in magnitude; integral exact within 1e-15')
OUTSIDE = 'n < 1 and n > 64 (the kernel has no such rule and leaves its output arrays as they are); rounding of IEEE doubles'
EXPLANATION = ('The LLVM IR of the current table is executed with symbolic n and output arrays of exactly n doubles. On every path (one per '
               'rule) z3 decides that no polynomial of degree 2n-1 (its 2n coefficients symbolic) is integrated with an error above the '
               'tolerance, and that points lie strictly inside the interval in increasing order with positive weights; a write outside the n entries, '
               'or an entry left unwritten, is a violation.')
ASSUMPTIONS = ['clang 18 -O0 IR and gcc agree on this source', 'doubles are reals']
TOL, CTOL = F(1, 10**15), F(9, 10**16)


def sym(h, loader):
    import z3
    from engine import llvm, core, poly
    t0 = time.time()
    mod = llvm.Module(llvm.emit(os.path.join(llvm.REPO, CPP)))
    lo, hi = h['params']['lo'], h['params']['hi']
    viol, nobs, npaths, vac = [], 0, 0, None
    NMAX = 200
    oob = {}

    def mk(st):
        n = z3.BitVec('n', 32)
        st.assume(z3.And(n >= lo, n <= hi))
        # sized by the caller for n entries: concretised when the path fixes n
        x, w = llvm.Obj('points', 8 * NMAX), llvm.Obj('weights', 8 * NMAX)
        return [n, llvm.Ptr(x), llvm.Ptr(w)], (n, x, w)
    # a coefficient is the difference of two non-negative parts
    cs = [poly.atom(('in', 'p%d' % d), 'p%d' % d, 0, 1, 'in', 'p%d' % d) for d in range(2 * 64)]
    cq = [poly.atom(('in', 'q%d' % d), 'q%d' % d, 0, 1, 'in', 'q%d' % d) for d in range(2 * 64)]
    for st, (nb, x, w), res in llvm.paths(mod, 'leggauss_quad', mk):
        npaths += 1
        if isinstance(res, Exception):
            r, iv, rv = llvm.solve_mixed(st, ['n'], [], [])
            viol.append({'labels': ['rule: %s' % res], 'points': [{'n': iv['n'] + .25}], 'detail': [str(res)]})
            continue
        ns = []
        while st.s.check(*[nb != k for k in ns]) == z3.sat:
            ns.append(st.s.model().eval(nb).as_signed_long())
        for n in sorted(ns):
            def bad(what, detail=''):
                viol.append({'labels': ['rule: n=%d %s' % (n, what)], 'points': [{'n': n + .25}], 'detail': ['n=%d %s %s' % (n, what, detail)]})
            if sorted(x.cells) != [8 * k for k in range(n)] or sorted(w.cells) != [8 * k for k in range(n)]:
                bad('does not write exactly its n points and weights')
                continue
            xs = [F(poly.D(x.cells[8 * k]).constval()) for k in range(n)]
            ws = [F(poly.D(w.cells[8 * k]).constval()) for k in range(n)]
            err = poly.D(0)
            pw = [F(1)] * n
            D = 2 * n
            for d in range(D):
                # rounding to 1e-30 keeps the query readable and is far below the tolerance
                e = sum((a * b for a, b in zip(ws, pw)), F(0)) - (F(2, d + 1) if d % 2 == 0 else 0)
                err = err + (cs[d] - cq[d]) * F(round(e * 10**30), 10**30)
                pw = [F(round(a * b * 10**40), 10**40) for a, b in zip(pw, xs)]
            nobs += 2
            core.STATS.obligations += 2
            tol = core._rat(TOL)
            pt = ['(= n (_ bv%d 32))' % n]
            # the coefficients add up to at most 1 in magnitude
            vs = sum(cs[:D] + cq[:D], poly.D(0))
            ball = ['(<= %s 1)' % core._lin(vs)]
            r, iv, rv = llvm.solve_mixed(st, ['n'], pt + ball + ['(or (> {0} {1}) (< {0} (- {1})))'.format(core._lin(err), tol)], [err, vs])
            if r == 'sat':
                d = max(range(D), key=lambda d: abs(rv.get('p%d' % d, 0) - rv.get('q%d' % d, 0)))
                bad('a polynomial of degree <= 2n-1 is not integrated exactly', 'dominant power %d' % d)
            # ordering, interval, sign, symmetry: values of the path, decided by the solver as rationals
            c = []
            ks = list(range(n))
            for k in ks:
                c.append('(and (> %s 0) (< (- 1) %s) (< %s 1))' % (core._rat(ws[k]), core._rat(xs[k]), core._rat(xs[k])))
                if k:
                    c.append('(< %s %s)' % (core._rat(xs[k - 1]), core._rat(xs[k])))
            r2, iv, rv = llvm.solve_mixed(st, ['n'], pt + ['(not (and %s))' % ' '.join(c)], [])
            if r2 == 'sat':
                bad('points not increasing in (-1, 1) or a weight not positive')
            if vac is None and r == 'unsat':
                e2 = err + cs[0] * F(1, 1000)
                vac = llvm.solve_mixed(st, ['n'], pt + ball + ['(or (> {0} {1}) (< {0} (- {1})))'.format(core._lin(e2), tol)], [e2, vs])[0] == 'sat'
    return {'name': h['name'], 'violations': viol[:6], 'reached': [], 'paths': npaths, 'obs': nobs, 'error': None, 'time': time.time() - t0,
            'vacuity': vac}


def concrete(be, lo, hi):
    q = be.mod('panels.legendre_gauss_quadrature')
    n = be.real('n', lo, hi + .999)
    ns = [int(n)] + [lo, hi]
    for n in ns:
        x, w = be.np.full(n + 8, 777.), be.np.full(n + 8, 777.)
        q.get_points_weights(n, x, w)
        be.true('rule: n=%d writes outside its n entries' % n, (x[n:] == 777.).all() and (w[n:] == 777.).all())
        xs, ws = [F(float(v)) for v in x[:n]], [F(float(v)) for v in w[:n]]
        pw = [F(1)] * n
        for d in range(2 * n):
            e = sum((a * b for a, b in zip(ws, pw)), F(0)) - (F(2, d + 1) if d % 2 == 0 else 0)
            be.true('rule: n=%d power %d integrated with error %g' % (n, d, float(e)), abs(e) <= CTOL)
            pw = [F(round(a * b * 10**40), 10**40) for a, b in zip(pw, xs)]
        be.true('rule: n=%d points increasing in (-1,1), weights positive' % n,
                all(a < b for a, b in zip(xs, xs[1:])) and -1 < xs[0] and xs[-1] < 1 and min(ws) > 0)


def wrapper(be, n):
    q = be.mod('panels.legendre_gauss_quadrature')
    x, w = be.np.zeros(n), be.np.zeros(n)
    be.call('wrapper', q.get_points_weights, n, x, w)
    xs, ws = be.quad(n)
    for k in range(n):
        be.eq('get_points_weights points[%d]' % k, x[k], xs[k])
        be.eq('get_points_weights weights[%d]' % k, w[k], ws[k])


def harnesses(tier):
    hs = []
    for lo, hi in ((1, 17), (18, 33), (34, 49), (50, 64)):
        hs.append({'name': 'rules-%d-%d' % (lo, hi), 'fn': concrete, 'params': {'lo': lo, 'hi': hi}, 'runner': sym, 'cost': hi})
    for n in (1, 2, 7):
        hs.append({'name': 'wrapper-%d' % n, 'fn': wrapper, 'params': {'n': n}})
    return hs
