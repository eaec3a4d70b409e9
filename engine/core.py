"""Symbolic side: path exploration, obligations, and the SMT queries that decide them."""
import os
import time
import traceback
from fractions import Fraction
from . import poly, load, crt, mplshim
from .poly import Poly, D, SymBool, PathControl, Unencodable, atom, ATOMS, mono
from .common import default_value

TOL = Fraction(1, 10**9)
LIMIT = 8          # violated obligations looked for per path


# ---------------------------------------------------------------- SMT text
def _rat(c):
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    s = '%d' % abs(n) if d == 1 else '(/ %d %d)' % (abs(n), d)
    return '(- %s)' % s if n < 0 else s


def _lin(p):
    out = []
    for m, c in p.t.items():
        if m == 0:
            out.append(_rat(c))
        elif c == 1:
            out.append('m%d' % m)
        else:
            out.append('(* %s m%d)' % (_rat(c), m))
    if not out:
        return '0'
    return out[0] if len(out) == 1 else '(+ %s)' % ' '.join(out)


def smt_formula(f):
    k = f[0]
    if k == 'cmp':
        op, p = f[1], f[2]
        if op == '!=':
            return '(not (= %s 0))' % _lin(p)
        return '(%s %s 0)' % ({'==': '='}.get(op, op), _lin(p))
    if k == 'not':
        return '(not %s)' % smt_formula(f[1])
    if k in ('and', 'or'):
        return '(%s %s)' % (k, ' '.join(smt_formula(x) for x in f[1:]))
    if k == 'const':
        return 'true' if f[1] else 'false'
    raise Unencodable('formula %s' % k)


def polys_of(f):
    if f[0] == 'cmp':
        yield f[2]
    elif f[0] != 'const':
        for x in f[1:]:
            yield from polys_of(x)


_BCACHE = {}


def mono_bounds(m):
    b = _BCACHE.get(m)
    if b is None and m not in _BCACHE:
        b = _BCACHE[m] = poly._bound_mono(m)
    return b


def decls(polys):
    ids = set()
    for p in polys:
        ids.update(p.t)
    ids.discard(0)
    # a square is tied to its root's sign by its bound only; degree-1 monomials carry the atoms' bounds
    out = []
    for m in sorted(ids):
        out.append('(declare-const m%d Real)' % m)
        b = mono_bounds(m)
        if b is not None:
            out.append('(assert (and (<= %s m%d) (<= m%d %s)))' % (_rat(_rlo(b[0])), m, m, _rat(_rhi(b[1]))))
    return out


def _rlo(x):
    # outward rounding to a short rational
    if x.denominator < 10**6:
        return x
    return Fraction(int(x * 10**9) - 1, 10**9) if abs(x) > Fraction(1, 1000) else min(x, Fraction(-1, 1000) if x < 0 else Fraction(0))


def _rhi(x):
    if x.denominator < 10**6:
        return x
    return Fraction(int(x * 10**9) + 1, 10**9) if abs(x) > Fraction(1, 1000) else max(x, Fraction(1, 1000) if x > 0 else Fraction(0))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.
        self.sat = self.unsat = self.unknown = 0
        self.paths = 0
        self.branch_queries = 0
        self.obligations = 0
        self.monomials = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def solve(lines, timeout=120):
    """'unsat' | 'sat' | 'unknown', model (monomial id -> Fraction) by z3 on SMT-LIB text."""
    import z3
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.from_string('\n'.join(lines))
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    model = None
    if r == z3.sat:
        STATS.sat += 1
        model = {}
        m = s.model()
        for d in m.decls():
            if d.name().startswith('m') and d.name()[1:].isdigit():
                v = m[d]
                if z3.is_rational_value(v):
                    model[int(d.name()[1:])] = Fraction(v.numerator_as_long(), v.denominator_as_long())
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return str(r), model


# ---------------------------------------------------------------- exact integrals
def expand(p):
    """Bardell functions and their integrals replaced by what they are (contracts C01, C02), then Gauss-Legendre sums of polynomials
    a rule integrates exactly replaced by their value (contract C03)."""
    from .concrete import dcoef, exact_integral_frac
    p = D(p)
    amap = {}
    for a in p.atoms():
        A = ATOMS[a]
        if A.kind == 'f':
            d, i, xi, fl = A.data
            v = Poly({})
            for c in reversed(dcoef(d, i)):
                v = v * xi + Poly.const(poly._norm(c))
            amap[a] = v * fl[i] if i < 4 else v
        elif A.kind == 'I':
            (pa, ia, fa), (pb, ib, fb) = A.data
            v = Poly.const(poly._norm(exact_integral_frac(pa, pb, ia, ib)))
            if ia < 4:
                v = v * fa[ia]
            if ib < 4:
                v = v * fb[ib]
            amap[a] = v
    if amap:
        p = p.subs(amap)
    while True:
        ns = sorted({ATOMS[a].data[0] for a in p.atoms() if ATOMS[a].kind in ('xq', 'wq')})
        for n in ns:
            q = _moments(p, n)
            if q is not None:
                p = q
                break
        else:
            return p


def _moments(p, n):
    out, grp, done = {}, {}, False
    for m, c in p.t.items():
        rest, ks, pw, w = [], set(), 0, 0
        for a, e in mono(m):
            A = ATOMS[a]
            if A.kind in ('xq', 'wq') and A.data[0] == n:
                ks.add(A.data[1])
                if A.kind == 'xq':
                    pw += e
                else:
                    w += e
            else:
                rest.append((a, e))
        if len(ks) == 1 and w == 1 and pw <= 2 * n - 1:
            grp.setdefault((tuple(rest), pw), []).append((ks.pop(), m, c))
        else:
            out[m] = c
    tot = Poly({})
    for (rest, pw), items in grp.items():
        if len(items) == n and all(abs(c - items[0][2]) <= abs(items[0][2]) * Fraction(1, 10**12) for _, _, c in items):
            done = True
            if pw % 2 == 0:
                tot = tot + Poly({poly._intern(rest): poly._norm(Fraction(items[0][2]) * 2 / (pw + 1))})
        else:
            for _, m, c in items:
                out[m] = c
    return tot + Poly(out) if done else None


# ---------------------------------------------------------------- paths
class Infeasible(BaseException):
    pass


class Abort(BaseException):
    """Path budget exceeded."""


def zform(f):
    """z3 term of a formula over machine integers, None when it has none of them."""
    k = f[0]
    if k == 'z3':
        return f[1]
    if k == 'not':
        import z3
        t = zform(f[1])
        return None if t is None else z3.Not(t)
    if k in ('and', 'or'):
        import z3
        ts = [zform(x) for x in f[1:]]
        if all(t is None for t in ts):
            return None
        if any(t is None for t in ts):
            raise Unencodable('condition on integers and reals together')
        return (z3.And if k == 'and' else z3.Or)(ts)
    return None


def interval(f):
    """True/False when intervals decide the formula, else None."""
    k = f[0]
    if k == 'cmp':
        b = poly.bounds(f[2])
        if b is None:
            return None
        lo, hi = b
        op = f[1]
        if op == '<':
            return True if hi < 0 else False if lo >= 0 else None
        if op == '<=':
            return True if hi <= 0 else False if lo > 0 else None
        if op == '>':
            return True if lo > 0 else False if hi <= 0 else None
        if op == '>=':
            return True if lo >= 0 else False if hi < 0 else None
        if op == '==':
            return False if lo > 0 or hi < 0 else None
        if op == '!=':
            return True if lo > 0 or hi < 0 else None
    if k == 'not':
        r = interval(f[1])
        return None if r is None else not r
    if k in ('and', 'or'):
        rs = [interval(x) for x in f[1:]]
        stop = k == 'or'
        if any(r is stop for r in rs):
            return stop
        if all(r is (not stop) for r in rs):
            return not stop
        return None
    if k == 'const':
        return f[1]
    return None


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []        # (decision, alternative feasible?)
        self.pc = []
        self.zpc = []          # what is known about machine integers
        self.memo = {}

    def assume(self, f):
        t = zform(f)
        if t is not None:
            self.zpc.append(t)
            if not self.zfeasible(None):
                raise Infeasible()
            return
        r = interval(f)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        self.pc.append(f)

    def feasible(self, extra):
        fs = self.pc + [extra]
        ps = [p for f in fs for p in polys_of(f)]
        STATS.branch_queries += 1
        r, _ = solve(decls(ps) + ['(assert %s)' % smt_formula(f) for f in fs], 20)
        return r != 'unsat'

    def zfeasible(self, t, timeout=5000):
        import z3
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(self.zpc)
        if t is not None:
            s.add(t)
        r = s.check()
        STATS.branch_queries += 1
        STATS.queries += 1
        STATS.time += time.time() - t0
        return r != z3.unsat

    def zdecide(self, t):
        import z3
        key = t.sexpr()
        if key in self.memo:
            return self.memo[key]
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append((d, False))
        else:
            a = self.zfeasible(t)
            b = self.zfeasible(z3.Not(t)) if a else True
            if not a and not self.zfeasible(z3.Not(t)):
                raise Infeasible()
            d = a
            self.trace.append((d, a and b))
        self.zpc.append(t if d else z3.Not(t))
        self.memo[key] = d
        return d

    def decide(self, f):
        t = zform(f)
        if t is not None:
            return self.zdecide(t)
        r = interval(f)
        if r is not None:
            return r
        key = repr_formula(f)
        if key in self.memo:
            return self.memo[key]
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append((d, False))
        else:
            t = self.feasible(f)
            g = self.feasible(('not', f))
            if not t and not g:
                raise Infeasible()
            d = t
            self.trace.append((d, t and g))
        self.pc.append(f if d else ('not', f))
        self.memo[key] = d
        return d


def repr_formula(f):
    if f[0] == 'cmp':
        return (f[1], frozenset(f[2].t.items()))
    if f[0] == 'const':
        return f
    return (f[0],) + tuple(repr_formula(x) for x in f[1:])


def explore(fn, max_paths=64):
    """Run fn(path) over every feasible path; yields (path, result)."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        path = Path(prefix)
        n += 1
        if n > max_paths:
            raise Unencodable('more than %d paths' % max_paths)
        PathControl.decide = path.decide
        try:
            res = fn(path)
        except Infeasible:
            continue
        finally:
            PathControl.decide = None
        STATS.paths += 1
        for k in range(len(prefix), len(path.trace)):
            d, alt = path.trace[k]
            if alt:
                work.append([x for x, _ in path.trace[:k]] + [not d])
        yield path, res


# ---------------------------------------------------------------- obligations
class Ob:
    __slots__ = ('label', 'kind', 'code', 'spec')

    def __init__(self, label, kind, code, spec=None):
        self.label, self.kind, self.code, self.spec = label, kind, code, spec


class Stop(Exception):
    """Ends a path after a failed obligation on which the rest depends."""


def eq_substitution(pc):
    sub = {}
    for f in pc:
        g = f
        neg = False
        while g[0] == 'not':
            g, neg = g[1], not neg
        if g[0] == 'cmp' and (g[1] == '==' and not neg or g[1] == '!=' and neg):
            p = g[2]
            nc = [(m, c) for m, c in p.t.items() if m]
            if len(nc) == 1 and len(mono(nc[0][0])) == 1 and mono(nc[0][0])[0][1] == 1:
                c0 = p.t.get(0, 0)
                sub[mono(nc[0][0])[0][0]] = Poly.const(poly._norm(Fraction(-c0) / nc[0][1]))
    return sub


def scale(p):
    t = Fraction(0)
    for m, c in p.t.items():
        b = mono_bounds(m)
        t += abs(c) * (max(abs(b[0]), abs(b[1])) if b is not None else 1)
    return t


def decide_path(path, obs, timeout=120):
    """Violated obligations of one path: list of (ob, model or None); raises Unencodable on unknown."""
    sub = eq_substitution(path.pc)
    pend = []
    bad = []
    for ob in obs:
        STATS.obligations += 1
        if ob.kind == 'eq':
            c, s = ob.code, ob.spec
            if sub and any(a in sub for a in c.atoms() | s.atoms()):
                c, s = c.subs(sub), s.subs(sub)
            if any(a in poly.DEFS for a in c.atoms() | s.atoms()):
                d, _ = poly.eliminate(c - s)
                c, s = d, Poly({})
                sc = max(scale(d), Fraction(1, 10**6))
                if d.t:
                    # scale against the un-eliminated operands is lost: use a relative bound on what remains
                    sc = max(sc, Fraction(1))
            else:
                sc = max(scale(s), scale(c) if not s.t else 0, Fraction(1, 10**6))
            tol = sc * TOL
            pend.append((ob, '(or (> (- {0} {1}) {2}) (< (- {0} {1}) (- {2})))'.format(_lin(c), _lin(s), _rat(_short(tol))), [c, s]))
        elif ob.kind == 'true':
            v = ob.code
            if isinstance(v, SymBool) and zform(v.f) is not None:
                from . import bounds
                r, model, _ = bounds.prove(path.zpc, zform(v.f))
                if r == 'unknown':
                    raise Unencodable('solver gave no answer on %s' % ob.label)
                if r == 'fails':
                    bad.append((ob, model))
            elif isinstance(v, SymBool):
                pend.append((ob, '(not %s)' % smt_formula(v.f), list(polys_of(v.f))))
            elif not v:
                bad.append((ob, None))
        elif ob.kind == 'fail':
            bad.append((ob, None))
    if not pend:
        return bad
    pcl = ['(assert %s)' % smt_formula(f) for f in path.pc]
    pcp = [p for f in path.pc for p in polys_of(f)]

    def query(items):
        ps = pcp + [p for it in items for p in it[2]]
        dl = decls(ps)
        STATS.monomials += len(dl)
        lines = dl + pcl
        ind = []
        for k, it in enumerate(items):
            lines.append('(define-fun v%d () Bool %s)' % (k, it[1]))
            ind.append('v%d' % k)
        lines.append('(assert (or %s false))' % ' '.join(ind))
        return solve(lines, timeout)

    def split(items):
        if len(bad) > LIMIT:
            return
        r, model = query(items)
        if r == 'unsat':
            return
        if r == 'unknown' and len(items) == 1:
            raise Unencodable('solver gave no answer on %s' % items[0][0].label)
        if len(items) == 1:
            bad.append((items[0][0], model))
            return
        k = len(items) // 2
        split(items[:k])
        split(items[k:])
    # batches keep queries small enough to stay fast
    B = 400
    for k in range(0, len(pend), B):
        split(pend[k:k + B])
    return bad


def _short(x):
    """A tolerance rounded up to three significant digits (keeps the queries readable)."""
    x = Fraction(x)
    if x <= 0 or x.denominator < 10**6:
        return x
    u = Fraction(1, 1000)
    while u * 1000 > x:
        u /= 10
    while u * 10000 <= x:
        u *= 10
    return u * (int(x / u) + 1)


def feasible_point(path, seed):
    """Values of the input atoms that satisfy the path condition, by z3 first and by trial otherwise."""
    ins = [A for A in ATOMS if A.kind == 'in']
    base = {A.id: Fraction(default_value(A.data, float(A.lo), float(A.hi), seed)) for A in ins}
    if not path.pc:
        return {ATOMS[i].data: float(v) for i, v in base.items()}
    ps = [p for f in path.pc for p in polys_of(f)]
    r, model = solve(decls(ps) + ['(assert %s)' % smt_formula(f) for f in path.pc], 20)
    if model:
        for m, v in model.items():
            mm = mono(m)
            if len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == 'in':
                base[mm[0][0]] = v
    for i, p in eq_substitution(path.pc).items():
        if ATOMS[i].kind == 'in':
            base[i] = Fraction(p.constval())
    return {ATOMS[i].data: float(v) for i, v in base.items()}


class SymBackend:
    symbolic = True

    devs = frozenset()
    asked = set()

    def __init__(self, loader, path, params):
        self.loader, self.path, self.params = loader, path, params
        self.obs = []
        if hasattr(loader, 'kernels'):
            from . import bounds
            bounds.Ctx.start(path)
        import numpy
        self.realnp = numpy
        self.np = loader.ext['numpy']
        self.reached = set()

    # inputs
    def real(self, name, lo=0.5, hi=2.0):
        return atom(('in', name), name, Fraction(lo), Fraction(hi), 'in', name)

    def integer(self, name, lo, hi, default=None):
        """A machine integer, any value in lo..hi."""
        from . import bounds, ints
        import z3
        v = z3.Int(name)
        if name not in bounds.Ctx.inputs:
            bounds.Ctx.inputs[name] = (v, lo, hi)
            self.path.zpc.append(z3.And(v >= lo, v <= hi))
        return ints.IntSym(v)

    def sized(self, *shape):
        """An array of which only the shape matters."""
        from . import ints
        return ints.Sized(*shape)

    def some(self, v):
        """A number that does not matter."""
        from . import ints
        return ints.OP

    def all(self, *conds):
        from . import ints
        import z3
        ts = []
        for c in conds:
            ts.append(zform(c.f) if isinstance(c, SymBool) else z3.BoolVal(bool(c)))
        return ints.cond(z3.And(ts))

    def any(self, *conds):
        return self.no(self.all(*[self.no(c) for c in conds]))

    def no(self, c):
        from . import ints
        import z3
        return ints.cond(z3.Not(zform(c.f))) if isinstance(c, SymBool) else not c

    def accepts(self, label, valid, fn, invalid=None):
        """fn() returns where the arguments fit and raises where they do not. Returns (returned, value)."""
        try:
            v = fn()
        except (Unencodable, Stop):
            raise
        except RecursionError:
            raise Unencodable('recursion while encoding ' + label)
        except Exception as e:
            self.true('%s: refused although it fits: %s' % (label, type(e).__name__), self.no(valid))
            return False, None
        self.true('%s: accepted although it does not fit' % label, valid if invalid is None else self.no(invalid))
        return True, v

    def pick(self, sym, conc):
        return sym

    def dev(self, name):
        """Whether the specification is to describe the recorded defect `name` instead (see known_findings.json)."""
        SymBackend.asked.add(name)
        return name in SymBackend.devs

    def mod(self, name):
        return self.loader.load(name)

    def plots(self):
        return mplshim.symbolic(self.loader.ext)

    def axes(self):
        return self.loader.ext['matplotlib.figure'].Figure().add_subplot(111)

    def const(self, x):
        return D(x)

    def frac(self, x):
        return Poly.const(poly._norm(x))

    def sqrt(self, x):
        return poly.sqrt(D(x))

    # mathematics of the contracts
    def f(self, p, i, xi, flags):
        return load.Contracts.f(p, i, xi, flags)

    def I(self, p, q, i, j, fA, fB):
        return load.Contracts.integral(p, q, i, j, fA, fB)

    def quad(self, n):
        return load.Contracts.quad(n)

    def vec(self, items):
        import numpy as np
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = D(x)
        return a

    def arr(self, nested):
        return self.np.array(nested, dtype=self.np.float64)

    def laminate(self, **k):
        return load.laminated_plate(**k).ABD

    def ply(self, angle, prop, h):
        return load.Ply(angle, prop, h)

    # obligations
    def eq(self, label, code, spec):
        try:
            c, s = D(code), D(spec)
        except (TypeError, Unencodable):
            if isinstance(code, (int, float, str, type(None), tuple, list)) or code is None:
                self.obs.append(Ob(label + ': not a number: %r' % (code,), 'fail', None))
                return
            raise
        self.obs.append(Ob(label, 'eq', c, s))

    def eq_exact(self, label, code, spec):
        """Equality after the exact contracts of functions, integrals and quadrature are put in."""
        self.eq(label, expand(code), expand(spec))

    def true(self, label, cond):
        self.obs.append(Ob(label, 'true', cond))

    def fail(self, label):
        self.obs.append(Ob(label, 'fail', None))

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.path.assume(cond.f)
        elif not cond:
            raise Infeasible()

    def reach(self, tag):
        self.reached.add(tag)

    def dense(self, M):
        if hasattr(M, 'toarray'):
            return M.toarray()
        if hasattr(M, 'ro'):
            return M.a
        return M

    def call(self, label, fn, *a, **k):
        """Call into the code under test; an exception is a violation of `label`."""
        try:
            return fn(*a, **k)
        except (Unencodable, Stop):
            raise
        except crt.MemoryError_ as e:
            self.fail('%s: memory: %s' % (label, e))
        except Exception as e:
            self.fail('%s: raises %s' % (label, type(e).__name__))
        raise Stop()

    def raises(self, label, fn, *a, **k):
        try:
            fn(*a, **k)
        except (Unencodable, Stop):
            raise
        except Exception:
            self.true(label, True)
            return
        self.fail(label + ': accepted')

    def dot(self, a, b):
        t = D(0)
        for x, y in zip(a, b):
            t = t + x * y
        return t

    def diff(self, p, x):
        return D(p).diff(x)


def run_harness(name, fn, params, loader, max_paths=64, timeout=120):
    """All paths of one harness. Returns a dict with violations (label, seed inputs), counts, reached tags."""
    t0 = time.time()
    out = {'name': name, 'violations': [], 'reached': set(), 'paths': 0, 'obs': 0, 'error': None}

    def one(path):
        be = SymBackend(loader, path, params)
        try:
            fn(be, **params)
        except Stop:
            pass
        except (Unencodable, Infeasible):
            raise
        except crt.MemoryError_ as e:
            be.fail('%s: memory: %s' % (name, e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = any('/panels/' in f.filename for f in tb)
            if not inside:
                raise
            be.fail('%s: raises %s: %s' % (name, type(e).__name__, str(e)[:200]))
        return be
    ctx = None
    if hasattr(loader, 'kernels'):
        from .bounds import Ctx as ctx
    try:
        for path, be in explore(one, max_paths):
            out['paths'] += 1
            out['obs'] += len(be.obs)
            out['reached'] |= be.reached
            bad = decide_path(path, be.obs, timeout)
            if ctx is not None:
                out['obs'] += ctx.obligations
                STATS.obligations += ctx.obligations
                STATS.queries += ctx.queries
                STATS.unsat += ctx.queries
                STATS.time += ctx.seconds
                for label, text, model in ctx.violations:
                    # what the encoding of kernels over-approximates may not exist: only a replay makes it a violation
                    pts = [dict(feasible_point(path, 0), **model)]
                    out['violations'].append({'labels': [label], 'points': pts, 'detail': [text], 'soft': True})
                soft = [x for x in bad if x[1] and any(isinstance(k, str) for k in x[1])]
                for ob, model in soft:
                    pts = [dict(feasible_point(path, 0), **model)]
                    out['violations'].append({'labels': [ob.label], 'points': pts, 'detail': [ob.label], 'soft': True})
                bad = [x for x in bad if not any(x is y for y in soft)]
            if bad:
                labels = sorted(set(ob.label for ob, _ in bad))
                detail = []
                for ob, model in bad[:3]:
                    detail.append('%s: code %s | spec %s' % (ob.label, ob.code, ob.spec))
                pts = [feasible_point(path, s) for s in range(3)]
                mp = {}
                for ob, model in bad:
                    for m, v in (model or {}).items():
                        if isinstance(m, str):
                            mp[m] = v
                            continue
                        mm = mono(m)
                        if len(mm) == 1 and mm[0][1] == 1 and ATOMS[mm[0][0]].kind == 'in':
                            mp[ATOMS[mm[0][0]].data] = float(v)
                    break
                if mp:
                    q = dict(pts[0])
                    q.update(mp)
                    pts.append(q)
                out['violations'].append({'labels': labels, 'points': pts, 'detail': detail})
    except Unencodable as e:
        out['error'] = 'Unencodable: %s' % e
        out['trace'] = traceback.format_exc(limit=-4)
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
    out['time'] = time.time() - t0
    return out
