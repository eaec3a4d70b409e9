"""C01: the shape functions, their derivatives and their edge flags, on the real C++ (LLVM IR) and the wrappers (pyx)."""
import os
import time
from fractions import Fraction as F
from . import bardellspec as B

LEVEL = 'other'
CPP = 'panels/core/src/bardell_functions.cpp'
MODULES = ['panels.bardell']
FUNCTIONS = ['bardell_functions.cpp: f, fp, fpp, vec_f, vec_fp, vec_fpp (LLVM IR)', 'bardell.pyx: calc_f, calc_fp, calc_fpp, '
             'calc_vec_f, calc_vec_fp, calc_vec_fpp']
BOUNDS = ('all function indices 0 <= i < 30 (the index is a symbolic 32-bit integer), all xi in [-1, 1], all values of the four edge flags '
          'in [-2, 2]; agreement of every value within 1e-13 of the sum of the magnitudes of its terms')
OUTSIDE = ('rounding of IEEE doubles (the IR is read over the reals); indices outside 0..29; the code gcc generates from the same source '
           '(spot-checked on the real build at the replay points)')
EXPLANATION = ('The LLVM IR of the current bardell_functions.cpp is executed with symbolic i, xi and flags; on every path z3 decides that '
               'no index, xi and flags make the returned value differ from the Bardell function (Rodrigues definition) or its exact '
               'derivatives, that the scalar and the vector forms agree, and that the code\'s own fp and fpp are the derivatives of its own f. '
               'The Cython wrappers are executed symbolically against the same contract. Also decided: the edge values that make flags mean '
               'translation or rotation at one edge.')
ASSUMPTIONS = ['clang 18 -O0 IR and gcc agree on this source', 'doubles are reals']
TOL, CTOL = F(1, 10**13), F(3, 10**14)
NAMES = ['f', 'fp', 'fpp']


def _setup():
    from engine import llvm, core, poly
    mod = llvm.Module(llvm.emit(os.path.join(llvm.REPO, CPP)))
    xi = poly.atom(('in', 'xi'), 'xi', -1, 1, 'in', 'xi')
    fl = [poly.atom(('in', n), n, -2, 2, 'in', n) for n in ('x1t', 'x1r', 'x2t', 'x2r')]
    return llvm, core, poly, mod, xi, fl


def _specpoly(poly, c, xi, flag):
    p = poly.D(0)
    for k, v in enumerate(c):
        if v:
            p = p + (xi ** k) * v
    return p * flag if flag is not None else p


def _viol(core, code, spec, terms):
    tol = core._rat(core._short(sum((abs(c) for c in terms), F(0)) * TOL * 2))
    return '(or (> (- {0} {1}) {2}) (< (- {0} {1}) (- {2})))'.format(core._lin(code), core._lin(spec), tol)


def _result(h, viol, nobs, npaths, t0, vac):
    return {'name': h['name'], 'violations': viol, 'reached': [], 'paths': npaths, 'obs': nobs, 'error': None, 'time': time.time() - t0,
            'vacuity': vac}


def _points(i, extra=()):
    pts = []
    for x in (1., -1., .93, -.61, .35):
        d = {'xi': x, 'i': float(i) + .25 if i is not None else 0.25}
        pts.append(d)
    return pts + list(extra)


def sym_scalar(h, loader):
    """f / fp / fpp with a symbolic index."""
    import z3
    t0 = time.time()
    llvm, core, poly, mod, xi, fl = _setup()
    p = h['params']['p']
    viol, nobs, npaths, vac = [], 0, 0, True
    seen = set()

    def mk(st):
        i = z3.BitVec('i', 32)
        st.assume(i >= 0)
        st.assume(i < B.NUM)
        return [i, xi] + fl, i
    for st, i, res in llvm.paths(mod, NAMES[p], mk):
        npaths += 1
        if isinstance(res, Exception):
            r, iv, rv = llvm.solve_mixed(st, ['i'], [], [])
            viol.append({'labels': ['%s: %s' % (NAMES[p], res)], 'points': _points(iv and iv.get('i')), 'detail': [str(res)]})
            continue
        res = poly.D(res)
        ors, ps, ors2 = [], [res], []
        for k in range(B.NUM):
            c = B.dcoef(p, k)
            s = _specpoly(poly, c, xi, fl[k] if k < 4 else None)
            ps.append(s)
            ors.append('(and (= i (_ bv%d 32)) %s)' % (k, _viol(core, res, s, c)))
            ors2.append('(and (= i (_ bv%d 32)) %s)' % (k, _viol(core, res, s + F(1, 1000), c)))
            nobs += 1
            core.STATS.obligations += 1
        r, iv, rv = llvm.solve_mixed(st, ['i'], ['(or %s)' % ' '.join(ors)], ps)
        if r == 'unknown':
            raise poly.Unencodable('no answer')
        if r == 'sat':
            k = iv.get('i', 0)
            viol.append({'labels': ['%s: value of function %d' % (NAMES[p], k)], 'points': _points(k, [dict(rv, i=k + .25)]),
                         'detail': ['i=%d: code %s' % (k, str(res)[:400])]})
        elif vac and npaths == 1:
            vac = llvm.solve_mixed(st, ['i'], ['(or %s)' % ' '.join(ors2)], ps)[0] == 'sat'
        seen.add(npaths)
    return _result(h, viol, nobs, npaths, t0, vac)


def sym_vec(h, loader):
    """vec_f / vec_fp / vec_fpp: all thirty values, nothing else written."""
    t0 = time.time()
    llvm, core, poly, mod, xi, fl = _setup()
    p = h['params']['p']
    viol, nobs, npaths, vac = [], 0, 0, True
    name = 'vec_' + NAMES[p]

    def mk(st):
        o = llvm.Obj('output of %d doubles' % B.NUM, 8 * B.NUM)
        return [llvm.Ptr(o, 0), xi] + fl, o
    for st, o, res in llvm.paths(mod, name, mk):
        npaths += 1
        if isinstance(res, Exception):
            viol.append({'labels': ['%s: %s' % (name, res)], 'points': _points(0), 'detail': [str(res)]})
            continue
        pend, ps = [], []
        for k in range(B.NUM):
            core.STATS.obligations += 1
            nobs += 1
            if 8 * k not in o.cells:
                viol.append({'labels': ['%s: value %d is never written' % (name, k)], 'points': _points(k), 'detail': ['']})
                continue
            code = poly.D(o.cells[8 * k])
            c = B.dcoef(p, k)
            s = _specpoly(poly, c, xi, fl[k] if k < 4 else None)
            pend.append((k, _viol(core, code, s, c), code, s))
        while pend:
            r, iv, rv = llvm.solve_mixed(st, ['which'], ['(or %s)' % ' '.join('(and (= which (_ bv%d 32)) %s)' % (k, v) for k, v, _, _ in pend)],
                                         [x for it in pend for x in it[2:]])
            if r == 'unknown':
                raise poly.Unencodable('no answer')
            if r == 'unsat':
                break
            k = iv['which']
            it = [x for x in pend if x[0] == k][0]
            viol.append({'labels': ['%s: value of function %d' % (name, k)], 'points': _points(k, [dict(rv, i=k + .25)]),
                         'detail': ['i=%d: code %s' % (k, str(it[2])[:400])]})
            pend = [x for x in pend if x[0] != k]
            if len(viol) > 4:
                break
        if pend and vac:
            k, v, code, s = pend[0]
            vac = llvm.solve_mixed(st, [], [_viol(core, code, s + F(1, 1000), B.dcoef(p, k))], [code, s])[0] == 'sat'
    return _result(h, viol, nobs, npaths, t0, vac)


def sym_self(h, loader):
    """The code's own fp and fpp are the derivatives of the code's own f, and the vector forms are the scalar ones."""
    import z3
    t0 = time.time()
    llvm, core, poly, mod, xi, fl = _setup()
    viol, nobs, npaths, vac = [], 0, 0, True
    val = []
    for p in range(3):
        d = {}

        def mk(st):
            i = z3.BitVec('i', 32)
            st.assume(i >= 0)
            st.assume(i < B.NUM)
            return [i, xi] + fl, i
        for st, i, res in llvm.paths(mod, NAMES[p], mk):
            npaths += 1
            if isinstance(res, Exception):
                viol.append({'labels': ['%s: %s' % (NAMES[p], res)], 'points': _points(0), 'detail': [str(res)]})
                continue
            for k in range(B.NUM):
                st.s.push()
                if st.s.check(i == k) == z3.sat:
                    d[k] = poly.D(res)
                st.s.pop()
        val.append(d)
        v = {}
        o = llvm.Obj('output', 8 * B.NUM)
        for st, o, res in llvm.paths(mod, 'vec_' + NAMES[p], lambda st, o=o: ([llvm.Ptr(o, 0), xi] + fl, o)):
            v = {k: poly.D(o.cells[8 * k]) for k in range(B.NUM) if 8 * k in o.cells}
        val.append(v)
    st = llvm.State([])
    for p in range(3):
        for k in range(B.NUM):
            for what, a, b in (('derivative', val[0].get(k, poly.D(0)).diff(xi) if p == 1 else
                                val[2].get(k, poly.D(0)).diff(xi) if p == 2 else None, val[2 * p].get(k, poly.D(0))),
                               ('vector', val[2 * p].get(k, poly.D(0)), val[2 * p + 1].get(k, poly.D(0)))):
                if a is None:
                    continue
                nobs += 1
                core.STATS.obligations += 1
                r, iv, rv = llvm.solve_mixed(st, [], [_viol(core, b, a, B.dcoef(p, k))], [a, b])
                if r != 'unsat':
                    viol.append({'labels': ['%s%s: %s of function %d' % ('vec_' if what == 'vector' else '', NAMES[p], what, k)],
                                 'points': _points(k, [dict(rv or {}, i=k + .25)]), 'detail': ['%s | %s' % (str(a)[:200], str(b)[:200])]})
    return _result(h, viol[:6], nobs, npaths, t0, vac)


def concrete(be, p):
    """The same on the built module, at the given point."""
    bd = be.mod('panels.bardell')
    i = int(be.real('i', 0, 29.999))
    xi = be.real('xi', -1, 1)
    fl = [be.real(n, 0.3, 2) for n in ('x1t', 'x1r', 'x2t', 'x2r')]

    def cmp(label, v, k):
        c = B.dcoef(p, k)
        x = F(xi)
        s = B.evalp(c, x)
        mag = sum(abs(a) * abs(x) ** n for n, a in enumerate(c))
        if k < 4:
            s, mag = s * F(fl[k]), mag * abs(F(fl[k]))
        be.true('%s: function %d at xi=%r gives %r, exact value %r' % (label, k, xi, float(v), float(s)), abs(F(float(v)) - s) <= mag * CTOL)
    cmp(NAMES[p], getattr(bd, 'calc_' + NAMES[p])(i, xi, *fl), i)
    vec = getattr(bd, 'calc_vec_' + NAMES[p])(xi, *fl)
    be.true('vec_%s: thirty values' % NAMES[p], len(vec) == B.NUM)
    for k in range(B.NUM):
        cmp('vec_' + NAMES[p], vec[k], k)


def concrete_all(be):
    for p in range(3):
        concrete(be, p)


def wrappers(be, p):
    """calc_* hand their arguments to the kernel they are named after."""
    bd = be.mod('panels.bardell')
    xi = be.real('xi', -1, 1)
    fl = [be.real(n, 0.3, 2) for n in ('x1t', 'x1r', 'x2t', 'x2r')]
    vec = be.call('wrapper', getattr(bd, 'calc_vec_' + NAMES[p]), xi, *fl)
    for k in range(B.NUM):
        s = be.f(p, k, xi, fl)
        if not be.symbolic:
            continue
        be.eq('calc_%s[%d]' % (NAMES[p], k), be.call('wrapper', getattr(bd, 'calc_' + NAMES[p]), k, xi, *fl), s)
        be.eq('calc_vec_%s[%d]' % (NAMES[p], k), vec[k], s)
    if not be.symbolic:
        concrete(be, p)


def harnesses(tier):
    hs = []
    for p in range(3):
        hs.append({'name': 'scalar-' + NAMES[p], 'fn': concrete, 'params': {'p': p}, 'runner': sym_scalar, 'cost': 3})
        hs.append({'name': 'vector-' + NAMES[p], 'fn': concrete, 'params': {'p': p}, 'runner': sym_vec, 'cost': 2})
        hs.append({'name': 'wrapper-' + NAMES[p], 'fn': wrappers, 'params': {'p': p}})
    hs.append({'name': 'own-derivatives', 'fn': concrete_all, 'params': {}, 'runner': sym_self, 'cost': 4})
    return hs
