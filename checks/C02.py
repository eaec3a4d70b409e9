"""C02: the closed-form integrals of products of shape functions, on the real C++ (LLVM IR) and the wrappers (pyx)."""
import os
import time
from fractions import Fraction as F
from . import bardellspec as B

LEVEL = 'other'
CPP = 'panels/core/src/bardell.cpp'
MODULES = ['panels.bardell']
TABLES = {'ff': (0, 0), 'ffp': (0, 1), 'ffpp': (0, 2), 'fpfp': (1, 1), 'fpfpp': (1, 2), 'fppfpp': (2, 2)}
FUNCTIONS = ['bardell.cpp: integral_%s (LLVM IR)' % t for t in TABLES] + ['bardell.pyx: calc_integral_%s' % t for t in TABLES]
BOUNDS = ('all 0 <= i, j < 30 (both symbolic 32-bit integers), all eight edge flags in [-2, 2]; values within 1e-13 relative, '
          'exactly zero where the integral is zero')
OUTSIDE = 'rounding of IEEE doubles; indices outside 0..29; partial-interval integrals (the package has none)'
EXPLANATION = ('The LLVM IR of the current bardell.cpp is executed with symbolic i, j and flags: every path of the nested switches becomes a '
               'path condition over (i, j), and z3 decides that no (i, j, flags) on that path makes the returned value differ from the exact '
               'rational integral of the two Bardell functions (or derivatives) over [-1, 1], each scaled by its own edge flag.')
ASSUMPTIONS = ['clang 18 -O0 IR and gcc agree on this source', 'doubles are reals']
TOL, CTOL = F(1, 10**13), F(3, 10**14)
FL = ['x1t', 'x1r', 'x2t', 'x2r', 'y1t', 'y1r', 'y2t', 'y2r']


def sym(h, loader):
    import z3
    from engine import llvm, core, poly
    t0 = time.time()
    mod = llvm.Module(llvm.emit(os.path.join(llvm.REPO, CPP)))
    fl = [poly.atom(('in', n), n, -2, 2, 'in', n) for n in FL]
    t = h['params']['table']
    p, q = TABLES[t]
    viol, nobs, npaths, vac = [], 0, 0, None

    def mk(st):
        i, j = z3.BitVec('i', 32), z3.BitVec('j', 32)
        st.assume(z3.And(i >= 0, i < B.NUM, j >= 0, j < B.NUM))
        return [i, j] + fl, (i, j)
    for st, (i, j), res in llvm.paths(mod, 'integral_' + t, mk):
        npaths += 1
        if isinstance(res, Exception):
            r, iv, rv = llvm.solve_mixed(st, ['i', 'j'], [], [])
            viol.append({'labels': ['%s: %s' % (t, res)], 'points': [{'i': iv['i'] + .25, 'j': iv['j'] + .25}], 'detail': [str(res)]})
            continue
        res = poly.D(res)
        ors, ors2, ps = [], [], [res]
        for a in range(B.NUM):
            # the solver says which rows this path can see at all
            if st.s.check(i == a) == z3.unsat:
                continue
            for b in range(B.NUM):
                v = B.integral(p, q, a, b)
                s = poly.D(v)
                if a < 4:
                    s = s * fl[a]
                if b < 4:
                    s = s * fl[4 + b]
                ps.append(s)
                g = '(and (= i (_ bv%d 32)) (= j (_ bv%d 32)) (let ((d (- %s %s))) (or (> d %%s) (< d (- %%s)))))' % (a, b, core._lin(res), core._lin(s))
                tol = core._rat(core._short(abs(v) * TOL) if v else F(0))
                ors.append(g % (tol, tol))
                ors2.append(ors[-1].replace(core._lin(s) + '))', '(+ 1 %s)))' % core._lin(s), 1))
                nobs += 1
                core.STATS.obligations += 1
        while ors:
            r, iv, rv = llvm.solve_mixed(st, ['i', 'j'], ['(or %s)' % ' '.join(ors)], ps)
            if r == 'unknown':
                raise poly.Unencodable('no answer')
            if r == 'unsat':
                break
            a, b = iv['i'], iv['j']
            viol.append({'labels': ['%s: integral of functions %d and %d' % (t, a, b)], 'points': [
                {'i': a + .25, 'j': b + .25}, dict(rv, i=a + .25, j=b + .25)], 'detail': ['i=%d j=%d: code %s, exact %s' % (a, b, res, float(B.integral(p, q, a, b)))]})
            break
        if vac is None and not viol:
            vac = llvm.solve_mixed(st, ['i', 'j'], ['(or %s)' % ' '.join(ors2)], ps)[0] == 'sat'
    return {'name': h['name'], 'violations': viol[:8], 'reached': [], 'paths': npaths, 'obs': nobs, 'error': None, 'time': time.time() - t0,
            'vacuity': vac}


def wrappers(be, table):
    bd = be.mod('panels.bardell')
    p, q = TABLES[table]
    fl = [be.real(n, 0.3, 2) for n in FL]
    fn = getattr(bd, 'calc_integral_' + table)
    if be.symbolic:
        for i in range(B.NUM):
            for j in range(B.NUM):
                be.eq('calc_integral_%s[%d,%d]' % (table, i, j), be.call('wrapper', fn, i, j, *fl), be.I(p, q, i, j, fl[:4], fl[4:]))
    else:
        i0, j0 = int(be.real('i', 0, 29.999)), int(be.real('j', 0, 29.999))
        for i, j in [(i0, j0)] + [(i, j) for i in range(B.NUM) for j in (0, 3, 5, i, max(0, i - 2))]:
            v = fn(i, j, *fl)
            s = B.integral(p, q, i, j)
            if i < 4:
                s *= F(fl[i])
            if j < 4:
                s *= F(fl[4 + j])
            be.true('%s: functions %d and %d give %r, exact %r' % (table, i, j, v, float(s)), abs(F(v) - s) <= abs(s) * CTOL)


def harnesses(tier):
    hs = []
    for t in TABLES:
        hs.append({'name': 'table-' + t, 'fn': wrappers, 'params': {'table': t}, 'runner': sym, 'cost': 5})
        hs.append({'name': 'wrapper-' + t, 'fn': wrappers, 'params': {'table': t}})
    return hs
