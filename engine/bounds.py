"""Where compiled kernels read and write, for every size at once.

The Python form of a translated Cython module (cy2py) is interpreted with integers as z3 terms and floats unknown. A loop body is executed
once, for an arbitrary iteration: the loop variable is any value of its range, counters (variables only ever increased by constants) are
bounded by the iterations done so far, whatever else the body assigns is unknown. Every access to a memoryview, C array or pointer must
then be proved inside it, every index of a series or rule within what exists, every C int free of overflow; z3 decides each of these over
all sizes the caller's path allows. What has no meaning here raises Unencodable.
"""
import ast
import time
import types
import z3
from . import poly, ints
from .ints import IntSym, Sized, OP, Opaque
from .poly import Unencodable, PathControl

NUM, POINTS = 30, 64
I32 = 2**31


class Found(Exception):
    """An obligation that does not hold: label and model."""


class Ctx:
    """Shared by all kernels of one path."""
    path = None
    violations = None
    queries = 0
    seconds = 0.
    obligations = 0
    cache = {}
    inputs = {}
    log = []

    @classmethod
    def start(cls, path):
        cls.path, cls.violations, cls.inputs, cls.log = path, [], {}, []
        cls.queries = cls.obligations = 0
        cls.seconds = 0.
        cls.count = 0
        cls.calls = {}

    @classmethod
    def name(cls, sort, name):
        cls.count += 1
        return sort('%s!%d' % (name, cls.count))


def zero(x):
    return x == 0 if isinstance(x, int) else z3.is_int_value(x) and x.as_long() == 0


def T(x):
    """z3 term of an abstract integer."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def is_int(x):
    return isinstance(x, int) or isinstance(x, z3.ArithRef)


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def norm(x):
    """Abstract value of a Python-level value."""
    if type(x) is IntSym:
        return x.t
    if isinstance(x, ints.SymBool) and x.f[0] == 'z3':
        return x.f[1]
    if isinstance(x, (bool, int, str, type(None), bytes)):
        return x
    if isinstance(x, Sized):
        return Arr([T(norm(d)) for d in x.shape], 'double')
    if isinstance(x, (float, complex, poly.Poly, Opaque)):
        return OP
    if isinstance(x, tuple):
        return tuple(norm(v) for v in x)
    if isinstance(x, list):
        return [norm(v) for v in x]
    if hasattr(x, 'shape') and hasattr(x, 'dtype'):
        return Arr([z3.IntVal(int(d)) for d in x.shape], 'double' if x.dtype.kind in 'fO' else 'int')
    return x


class Arr:
    """A numpy array; raw marks a memoryview, whose accesses the C compiler does not check."""
    def __init__(self, dims, kind, raw=False):
        self.dims, self.kind, self.raw = [T(d) for d in dims], kind, raw

    ndim = property(lambda s: len(s.dims))

    def total(self):
        t = z3.IntVal(1)
        for d in self.dims:
            t = t * d
        return t


class Ptr:
    """A pointer into storage of `size` elements, `off` elements from its start."""
    def __init__(self, size, off, kind):
        self.size, self.off, self.kind = T(size), T(off), kind


class Mat:
    def __init__(self, shape):
        self.shape = shape


class Fn:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node


class Box:
    def __init__(self, v):
        self.v = v


class Extern:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name):
        self.name = name


UNDEF = object()


class State:
    def __init__(self, env, live=True):
        self.env, self.live = env, live

    def copy(self):
        return State(dict(self.env), self.live)


def ite(c, a, b):
    if a is b:
        return a
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.simplify(z3.If(c, T(a), T(b)))
    if is_bool(a) and is_bool(b):
        return z3.simplify(z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        return Arr([ite(c, x, y) for x, y in zip(a.dims, b.dims)], a.kind, a.raw or b.raw)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(ite(c, a.size, b.size), ite(c, a.off, b.off), a.kind)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is OP or b is OP:
        return OP
    if isinstance(a, (str, type(None))) and type(a) is type(b) and a == b:
        return a
    return Choice(c, a, b)


class Choice:
    """One of two values that cannot be merged: usable only where neither matters."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


_CHECKED = {}


class Interp:
    def __init__(self, modules, prefix=''):
        self.loader = Ctx.loader
        self.modules = modules       # name -> (namespace, {function: ast})
        self.prefix = prefix         # the same names on every path, so that what was proved once is known
        self.defs = []               # what fresh integers stand for
        self.pc = []
        self.lemmas = []
        self.quotients = []
        self.sizes = {}
        self.nfresh = 0
        self.raises = []             # (condition terms, exception name)
        self.depth = 0
        self.attrs = {}

    # ------------------------------------------------------------ solver
    def facts(self):
        return list(Ctx.path.zpc if Ctx.path is not None else []) + self.pc

    def fresh(self, name):
        self.nfresh += 1
        return z3.Int('%s%s!%d' % (self.prefix, name, self.nfresh))

    def freshb(self, name):
        self.nfresh += 1
        return z3.Bool('%s%s!%d' % (self.prefix, name, self.nfresh))

    def oblige(self, label, goal, st, line):
        if goal is True or z3.is_true(z3.simplify(goal)):
            Ctx.obligations += 1
            return
        Ctx.obligations += 1
        r, model = self.holds(goal, st)
        if r == 'holds':
            return
        if r == 'unknown':
            raise Unencodable('solver gave no answer on %s' % label)
        Ctx.violations.append((label, '%s (%s)' % (label, line), model))
        # what follows assumes it held, so that one cause is reported once
        self.pc.append(z3.Implies(st.live, goal) if st.live is not True else goal)

    def holds(self, goal, st=None, model=True):
        """Whether the goal follows from what is known here, with what follows already remembered for other paths."""
        local = self.defs + self.pc + ([st.live] if st is not None and st.live is not True else [])
        z = list(Ctx.path.zpc) if Ctx.path is not None else []
        key = (goal.get_id(),) + tuple(f.get_id() for f in local)
        ids = {f.get_id() for f in z}
        for need in Ctx.cache.get(key, ()):
            if need[0] <= ids:
                return 'holds', None
        t0 = time.time()
        try:
            r, m, used = prove(local, goal, model, self.lemmas, z)
        finally:
            Ctx.seconds += time.time() - t0
        if r == 'holds':
            Ctx.cache.setdefault(key, []).append((frozenset(f.get_id() for f in used), used, goal, local))
        return r, m

    def about(self, ts):
        """What defines the fresh integers in these terms."""
        names = set()
        for t in ts:
            names |= symbols(t)
        out, more = [], True
        while more:
            more = False
            for f in self.defs + self.lemmas[:0]:
                if any(f is g for g in out):
                    continue
                own = {n for n in symbols(f) if n.startswith(self.prefix)}
                if own & names:
                    out.append(f)
                    names |= own
                    more = True
        for l in self.lemmas:
            own = {n for n in symbols(l) if n.startswith(self.prefix)}
            if own and own <= names:
                out.append(l)
        return out

    def divided(self, q, d):
        """Quotients by the same number compare like their multiples."""
        for p, e in self.quotients:
            if e.eq(d):
                for k in range(3):
                    self.lemmas.append(z3.Implies(z3.And(d > 0, q >= p + k), q * d >= p * d + k * d))
                    self.lemmas.append(z3.Implies(z3.And(d > 0, p >= q + k), p * d >= q * d + k * d))
        self.lemmas.append(z3.Implies(z3.And(d > 0, q >= 1), q * d >= d))
        self.lemmas.append(z3.Implies(z3.And(d > 0, q <= -1), q * d <= -d))
        self.quotients.append((q, d))

    def lemma(self, v, trip):
        """v + 1 <= trip, so v*s + s <= trip*s for every nonnegative s in use."""
        for s in list(self.sizes.values()):
            self.lemmas.append(z3.Implies(z3.And(v >= 0, v < trip, s >= 0), v * s + s <= trip * s))
            self.lemmas.append(z3.Implies(z3.And(v >= 0, s >= 0), v * s >= 0))

    def add_size(self, t):
        t = z3.simplify(T(t))
        if z3.is_int_value(t):
            return
        self.sizes.setdefault(str(t), t)

    # ------------------------------------------------------------ functions
    def call_function(self, fn, args, kwargs, st, line):
        self.depth += 1
        if self.depth > 12:
            raise Unencodable('calls nested too deep')
        node, mod = fn.node, fn.mod
        env = {}
        params = node.args.args
        if node.args.vararg or node.args.kwarg or node.args.kwonlyargs:
            raise Unencodable('variable arguments in %s' % node.name)
        for p, v in zip(params, args):
            env[p.arg] = v
        if len(args) > len(params):
            raise Unencodable('too many arguments for %s' % node.name)
        for k, v in kwargs.items():
            env[k] = v
        nd = len(node.args.defaults)
        for p, d in zip(params[len(params) - nd:], node.args.defaults):
            if p.arg not in env:
                env[p.arg] = self.expr(d, State({'__mod__': mod}))
        for p in params:
            if p.arg not in env:
                raise Unencodable('missing argument %s of %s' % (p.arg, node.name))
        env['__mod__'] = mod
        sub = State(env, st.live)
        rets = []
        frame = {'rets': rets, 'loops': []}
        keep, self.frame = getattr(self, 'frame', None), frame
        self.block(node.body, sub)
        self.frame = keep
        self.depth -= 1
        value = None
        if rets:
            value = rets[-1][1]
            for c, v in reversed(rets[:-1]):
                value = ite(c if c is not True else z3.BoolVal(True), v, value)
            if sub.live is not False and not self.dead(sub.live) and value is not None:
                value = ite(sub.live if sub.live is not True else z3.BoolVal(True), None, value) if not is_int(value) else value
        # what the caller goes on under: any of the returns or the end
        lives = [c for c, _ in rets] + [sub.live]
        st.live = self.any(lives)
        return value

    def any(self, cs):
        cs = [c for c in cs if c is not False]
        if not cs:
            return False
        if any(c is True for c in cs):
            return True
        r = z3.simplify(z3.Or(cs)) if len(cs) > 1 else cs[0]
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def both(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        r = z3.simplify(z3.And(a, b))
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def dead(self, live):
        return live is False

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if self.dead(st.live):
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unencodable('statement %s' % type(s).__name__)
            m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        self.expr(s.value, st)

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = Builtin(a.name)

    def s_ImportFrom(self, s, st):
        mod = s.module or ''
        if s.level:
            base = st.env['__mod__'].split('.')[:-s.level]
            mod = '.'.join(base + ([s.module] if s.module else []))
        for a in s.names:
            v = Builtin('%s.%s' % (mod, a.name))
            if mod == 'panels' or mod.startswith('panels.'):
                m = self.loader.load(mod)
                v = self.outside(getattr(m, a.name) if hasattr(m, a.name) else self.loader.load(mod + '.' + a.name), a.name)
            st.env[a.asname or a.name] = v

    def s_Global(self, s, st):
        pass

    def s_Delete(self, s, st):
        pass

    def s_Assert(self, s, st):
        c = self.truth(self.expr(s.test, st), st)
        self.branch_raise(self.neg(c), 'AssertionError', st)

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AugAssign(self, s, st):
        if isinstance(s.target, ast.Name):
            a = self.name(s.target.id, st)
            v = self.arith(s.op, a, self.expr(s.value, st), st, s)
            st.env[s.target.id] = v
        elif isinstance(s.target, ast.Subscript):
            v = self.expr(s.value, st)
            self.expr(s.target, st)          # the read
            self.store(s.target, v, st)
        else:
            raise Unencodable('augmented assignment')

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b, st)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, st)
        elif isinstance(t, ast.Attribute):
            raise Unencodable('attribute assigned in a kernel')
        else:
            raise Unencodable('target %s' % type(t).__name__)

    def items(self, v, n):
        if isinstance(v, (tuple, list)) and len(v) == n:
            return v
        if v is OP:
            return [OP] * n
        raise Unencodable('unpacking')

    def s_Return(self, s, st):
        v = None if s.value is None else self.expr(s.value, st)
        self.frame['rets'].append((st.live, v))
        st.live = False

    def s_Raise(self, s, st):
        name = 'Exception'
        e = s.exc
        if e is not None:
            f = e.func if isinstance(e, ast.Call) else e
            name = f.id if isinstance(f, ast.Name) else 'Exception'
        self.raised(st.live, name)
        st.live = False

    def raised(self, live, name):
        self.raises.append((self.both(live, z3.And(self.pc) if self.pc else True), name))

    def branch_raise(self, c, name, st):
        """Raises where c holds."""
        if c is False:
            return
        self.raised(self.both(st.live, c), name)
        st.live = self.both(st.live, self.neg(c))

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        r = z3.simplify(z3.Not(c))
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def s_If(self, s, st):
        c = self.truth(self.expr(s.test, st), st)
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse, st)
            return
        a, b = st.copy(), st.copy()
        a.live, b.live = self.both(st.live, c), self.both(st.live, self.neg(c))
        n = len(self.pc)
        self.pc.append(c)
        if not self.dead(a.live):
            self.block(s.body, a)
        extra_a = self.pc[n + 1:]
        del self.pc[n:]
        self.pc.append(self.neg(c))
        if not self.dead(b.live):
            self.block(s.orelse, b)
        extra_b = self.pc[n + 1:]
        del self.pc[n:]
        self.pc += [z3.Implies(c, f) for f in extra_a] + [z3.Implies(self.neg(c), f) for f in extra_b]
        self.merge(c, a, b, st)

    def merge(self, c, a, b, st):
        if self.dead(a.live):
            st.env, st.live = b.env, b.live
            return
        if self.dead(b.live):
            st.env, st.live = a.env, a.live
            return
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                env[k] = ite(c, a.env[k], b.env[k])
            else:
                env[k] = a.env.get(k, b.env.get(k))
        st.env.clear()
        st.env.update(env)
        st.live = self.any([a.live, b.live])

    # ------------------------------------------------------------ loops
    def assigned(self, body):
        names = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    names.add(n.target.id)
        return names

    def step_of(self, s, var, down=False):
        """k when s is var += k (k a constant >= 0; var -= k with down), else None."""
        v = None
        op = ast.Sub if down else ast.Add
        if isinstance(s, ast.AugAssign) and isinstance(s.op, op) and isinstance(s.target, ast.Name) and s.target.id == var:
            v = s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var:
            e = s.value
            while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '_I' and len(e.args) == 1:
                e = e.args[0]
            if isinstance(e, ast.BinOp) and isinstance(e.op, op):
                if isinstance(e.left, ast.Name) and e.left.id == var:
                    v = e.right
                elif not down and isinstance(e.right, ast.Name) and e.right.id == var:
                    v = e.left
        if isinstance(v, ast.Constant) and isinstance(v.value, int) and v.value >= 0:
            return v.value
        return None

    def gain(self, body, var, st, outer):
        """Upper bound of what the statements add to counter `var` (a term), or None when it is not a counter."""
        t = z3.IntVal(0)
        for s in body:
            k = self.step_of(s, var)
            if k is not None:
                t = t + k
                continue
            if var not in self.assigned([s]):
                continue
            if isinstance(s, ast.If):
                a, b = self.gain(s.body, var, st, outer), self.gain(s.orelse, var, st, outer)
                if a is None or b is None:
                    return None
                a, b = z3.simplify(a), z3.simplify(b)
                if a.eq(b) or z3.is_int_value(b) and b.as_long() == 0:
                    t = t + a
                elif z3.is_int_value(a) and z3.is_int_value(b):
                    t = t + max(a.as_long(), b.as_long())
                else:
                    t = t + a + b
            elif isinstance(s, ast.For):
                r = self.range_of(s.iter)
                if r is None or s.orelse:
                    return None
                names = {n.id for e in r for n in ast.walk(e) if isinstance(n, ast.Name)}
                if names & outer or var in {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}:
                    return None
                g = self.gain(s.body, var, st, outer)
                if g is None:
                    return None
                lo, hi = self.range_terms(r, st)
                t = t + self.trip(lo, hi) * g
            elif isinstance(s, ast.While):
                w = self.while_range(s)
                if w is None:
                    return None
                v, k, hi, incl, sign = w
                names = {n.id for n in ast.walk(hi) if isinstance(n, ast.Name)}
                start = self.start_of(body, s, v)
                if names & outer or var == v or start is None or {n.id for n in ast.walk(start) if isinstance(n, ast.Name)} & outer:
                    return None
                g = self.gain(s.body, var, st, outer)
                if g is None:
                    return None
                lo = sign * T(self.expr(start, st))
                hi = sign * (T(self.expr(hi, st)) - k) + (1 if incl else 0)
                t = t + self.trip(lo, hi) * g
            else:
                return None
        return t

    def start_of(self, body, loop, v):
        """The value a while loop's variable is given before it, in the same block."""
        e = None
        for s in body:
            if s is loop:
                return e
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v:
                e = s.value
            elif v in self.assigned([s]):
                e = None
        return None

    def range_of(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', '_prange', 'xrange') and not it.keywords:
            if len(it.args) in (1, 2):
                return it.args
            if len(it.args) == 3 and isinstance(it.args[2], ast.Constant) and it.args[2].value == 1:
                return it.args[:2]
        return None

    def range_terms(self, r, st):
        v = [self.expr(e, st) for e in r]
        if not all(is_int(x) for x in v):
            raise Unencodable('range of something unknown')
        return (z3.IntVal(0), T(v[0])) if len(v) == 1 else (T(v[0]), T(v[1]))

    def trip(self, lo, hi):
        d = z3.simplify(hi - lo)
        if z3.is_int_value(d):
            return z3.IntVal(max(0, d.as_long()))
        for f in self.pc:
            if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT) and f.arg(0).eq(d) and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() >= 0:
                self.add_size(d)
                return d
        known = self.nonneg(d)
        if known:
            self.add_size(d)
            return d
        key = 'trip:' + str(d)
        if key not in self.attrs:
            t = self.fresh('trip')
            self.attrs[key] = t
            self.defs.append(z3.And(t >= 0, z3.Or(t == d, z3.And(t == 0, d <= 0))))
            self.add_size(t)
        return self.attrs[key]

    def nonneg(self, d):
        return self.holds(d >= 0, None, False)[0] == 'holds'

    def s_For(self, s, st):
        r = self.range_of(s.iter)
        if r is None:
            v = self.expr(s.iter, st)
            if isinstance(v, (tuple, list)) and len(v) <= 64:
                for x in v:
                    self.assign(s.target, x, st)
                    self.block(s.body, st)
                return
            if isinstance(v, Arr):
                self.loop(s.body, st, s.target, z3.IntVal(0), v.dims[0], value=OP if v.ndim == 1 else Arr(v.dims[1:], v.kind, v.raw))
                return
            raise Unencodable('loop over %s' % type(v).__name__)
        lo, hi = self.range_terms(r, st)
        self.loop(s.body, st, s.target, lo, hi)
        if s.orelse:
            self.block(s.orelse, st)

    def while_range(self, s):
        """(variable, k, bound, inclusive, sign) of `while v + k < E: ...; v += 1` and of `while v + k > E: ...; v -= 1`."""
        c = s.test
        if isinstance(c, ast.Name):
            c = ast.Compare(left=c, ops=[ast.Gt()], comparators=[ast.Constant(0)])
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            return None
        left, op, right = c.left, type(c.ops[0]), c.comparators[0]
        mod = self.assigned(s.body)
        names = lambda e: {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        if names(right) & mod:
            left, right = right, left
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op)
        if op not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) or names(right) & mod:
            return None
        k = 0
        while isinstance(left, ast.BinOp) and isinstance(left.op, (ast.Add, ast.Sub)):
            a, b, neg = left.left, left.right, isinstance(left.op, ast.Sub)
            if isinstance(b, ast.Constant) and isinstance(b.value, int):
                k, left = k + (-b.value if neg else b.value), a
            elif isinstance(a, ast.Constant) and isinstance(a.value, int) and not neg:
                k, left = k + a.value, b
            else:
                return None
        if not isinstance(left, ast.Name):
            return None
        v = left.id
        down = op in (ast.Gt, ast.GtE)
        ks = [self.step_of(x, v, down) for x in s.body]
        own = [q for q in ks if q is not None]
        if own != [1] or v in self.assigned([x for x, q in zip(s.body, ks) if q is None]) or self.has_continue(s.body):
            return None
        return v, k, right, op in (ast.LtE, ast.GtE), -1 if down else 1

    def has_continue(self, body):
        """A continue or break of this loop (not of one inside it)."""
        for s in body:
            if isinstance(s, (ast.Continue, ast.Break)):
                return True
            if isinstance(s, (ast.For, ast.While)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if self.has_continue(getattr(s, f, [])):
                    return True
        return False

    def s_While(self, s, st):
        w = self.while_range(s)
        if w is None or s.orelse:
            raise Unencodable('while loop that does not count')
        v, k, hi, incl, sign = w
        lo = st.env.get(v)
        hi = self.expr(hi, st)
        if not (is_int(lo) and is_int(hi)):
            raise Unencodable('while loop over something unknown')
        lo, hi = sign * T(lo), sign * (T(hi) - k) + (1 if incl else 0)
        t = self.loop(s.body, st, None, lo, hi, whilevar=v, sign=sign)
        st.env[v] = z3.simplify(sign * (lo + t))

    def loop(self, body, st, target, lo, hi, value=None, whilevar=None, sign=1):
        trip = self.trip(lo, hi)
        mod = self.assigned(body)
        if target is not None:
            mod |= {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        if z3.is_int_value(trip) and trip.as_long() == 0:
            return trip
        it = self.fresh('it')
        self.add_size(trip)
        own = []
        counters, after = {}, {}
        for name in mod:
            if name == whilevar:
                continue
            old = st.env.get(name, UNDEF)
            if isinstance(old, Choice):
                old = UNDEF
            if is_int(old):
                g = self.gain(body, name, st, mod)
                if g is not None:
                    g = z3.simplify(g)
                    self.add_size(g)
                    h, e = self.fresh(name), self.fresh(name)
                    own.append(z3.And(h >= T(old), h <= T(old) + it * g))
                    after[name] = (e, z3.And(e >= T(old), e <= T(old) + trip * g))
                    counters[name] = h
                else:
                    counters[name] = self.fresh(name)
                    after[name] = (self.fresh(name), None)
            elif is_bool(old):
                counters[name], after[name] = self.freshb(name), (self.freshb(name), None)
            elif old is OP:
                counters[name], after[name] = OP, (OP, None)
            elif old is UNDEF:
                after[name] = (UNDEF, None)
            else:
                counters[name], after[name] = Choice(None, old, None), (Choice(None, old, None), None)
        self.lemma(it, trip)
        n = len(self.pc)
        self.pc += [it >= 0, it < trip] + own
        sub = st.copy()
        sub.live = True
        for k, v in counters.items():
            sub.env[k] = v
        for k in mod:
            if after.get(k, (None,))[0] is UNDEF:
                sub.env.pop(k, None)
        index = z3.simplify(lo + it)
        if whilevar is not None:
            sub.env[whilevar] = z3.simplify(sign * index)
        else:
            self.assign(target, index if value is None else value, sub)
        keep_live = st.live
        if keep_live is not True and keep_live is not False:
            self.pc.append(keep_live)
        frame = {'continues': []}
        self.frame['loops'].append(frame)
        nr = len(self.raises)
        nret = len(self.frame['rets'])
        self.block(body, sub)
        self.frame['loops'].pop()
        if len(self.frame['rets']) > nret:
            raise Unencodable('return inside a loop')
        if len(self.raises) > nr:
            # whether some iteration raises is left open
            names = {e for _, e in self.raises[nr:]}
            del self.raises[nr:]
            del self.pc[n:]
            for e in names:
                b = self.freshb('raised')
                self.branch_raise(b, e, st)
        else:
            del self.pc[n:]
        for k, (v, f) in after.items():
            if v is UNDEF:
                w = sub.env.get(k)
                st.env[k] = self.fresh(k) if is_int(w) else OP if w is OP else Choice(None, w, None)
            else:
                st.env[k] = v
            if f is not None:
                self.pc.append(f)
        if target is not None and isinstance(target, ast.Name) and value is None:
            e = self.fresh(target.id)
            st.env[target.id] = e
            self.pc.append(z3.Implies(trip > 0, z3.And(e >= lo, e < hi)))
        return trip

    def s_Continue(self, s, st):
        st.live = False

    def s_Break(self, s, st):
        st.live = False

    def s_Try(self, s, st):
        if s.handlers:
            raise Unencodable('exceptions caught inside a kernel')
        self.block(s.body, st)
        self.block(s.orelse, st)
        live, st.live = st.live, True
        self.block(s.finalbody, st)
        st.live = self.both(live, st.live)

    # ------------------------------------------------------------ expressions
    def expr(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unencodable('expression %s' % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, (float, complex)):
            return OP
        return e.value

    def name(self, k, st):
        if k in st.env:
            v = st.env[k]
            if isinstance(v, Choice):
                raise Unencodable('value of %s after a branch or loop' % k)
            return v
        mod = st.env['__mod__']
        ns, funcs = self.modules[mod]
        if k in funcs:
            return Fn(mod, funcs[k])
        if k in ('_I', '_D', '_F', '_MV', '_carr', '_carr_init', '_addr', '_castptr', '_div', '_cidiv', '_cimod', '_box', '_unpack', 'range', 'len', 'int',
                 'float', 'abs', 'min', 'max', 'isinstance', 'bool', 'tuple', 'list', 'str', 'getattr', 'hasattr', 'sum', '_prange', 'zip', 'enumerate'):
            return Builtin(k)
        if k in ns:
            v = ns[k]
            if hasattr(v, 'extern_name'):
                return Extern(v.extern_name)
            return self.outside(v, k)
        if k in ('ValueError', 'TypeError', 'RuntimeError', 'IndexError', 'NotImplementedError', 'Exception', 'AssertionError', 'True', 'False', 'None'):
            return Builtin(k)
        raise Unencodable('name %s' % k)

    def outside(self, v, k):
        if isinstance(v, types.ModuleType):
            return Builtin('module:' + v.__name__) if not v.__name__.startswith('panels') else v
        if isinstance(v, Hook):
            return Fn(v.mod, self.modules[v.mod][1][v.name])
        if callable(v) and hasattr(v, '__name__') and not isinstance(v, (IntSym, Sized)):
            m = getattr(v, '__module__', None)
            for name, (ns, funcs) in self.modules.items():
                if v.__name__ in funcs and ns.get(v.__name__) is v:
                    return Fn(name, funcs[v.__name__])
            return Builtin(v.__name__)
        return norm(v)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Attribute(self, e, st):
        o = self.expr(e.value, st)
        k = e.attr
        if isinstance(o, Builtin):
            return Builtin(o.name + '.' + k)
        if isinstance(o, types.ModuleType):
            name = o.__name__
            if name in self.modules and k in self.modules[name][1]:
                return Fn(name, self.modules[name][1][k])
            return self.outside(getattr(o, k), k)
        if isinstance(o, Arr):
            if k == 'shape':
                return tuple(o.dims)
            if k == 'size':
                return z3.simplify(o.total())
            if k == 'ndim':
                return o.ndim
            if k == 'T':
                return Arr(o.dims[::-1], o.kind)
            if k in ('dtype', 'flags'):
                return OP
            return ('method', o, k)
        if isinstance(o, (Ptr, Mat)) or o is OP:
            if o is OP:
                return OP
            return ('method', o, k)
        if isinstance(o, Choice):
            raise Unencodable('attribute of a value known on one side of a branch')
        if is_int(o) or is_bool(o):
            raise Unencodable('attribute of an integer')
        v = getattr(o, k)
        if callable(v) and not isinstance(v, type):
            return ('pycall', o, k)
        return norm(v) if not isinstance(v, type) else v

    def e_Tuple(self, e, st):
        return tuple(self.expr(x, st) for x in e.elts)

    def e_List(self, e, st):
        return [self.expr(x, st) for x in e.elts]

    def e_Dict(self, e, st):
        return {self.expr(k, st): self.expr(v, st) for k, v in zip(e.keys, e.values)}

    def e_Starred(self, e, st):
        raise Unencodable('starred')

    def e_Slice(self, e, st):
        f = lambda x: None if x is None else self.expr(x, st)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def truth(self, v, st):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v if isinstance(v, bool) else self.neg(self.neg(v))
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return self.neg(self.neg(v != 0))
        if v is OP:
            return self.freshb('any')
        if v is None or isinstance(v, (str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, Choice):
            raise Unencodable('truth of a merged value')
        if isinstance(v, (Arr, Ptr, Mat)):
            raise Unencodable('truth of an array')
        return bool(v)

    def e_BoolOp(self, e, st):
        vals = []
        stop = isinstance(e.op, ast.Or)
        for x in e.values:
            c = self.truth(self.expr(x, st), st)
            if isinstance(c, bool):
                if c is stop:
                    vals.append(c)
                    break
                continue
            vals.append(c)
        if not vals:
            return not stop
        if any(v is stop for v in vals if isinstance(v, bool)):
            vs = [v for v in vals if not isinstance(v, bool)]
            if not vs:
                return stop
            return stop
        return z3.simplify((z3.Or if stop else z3.And)(vals)) if len(vals) > 1 else vals[0]

    def e_UnaryOp(self, e, st):
        v = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            return self.neg(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return -v if is_int(v) else self.opaque(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unencodable('unary operator')

    def opaque(self, v):
        if isinstance(v, Arr):
            return Arr(v.dims, v.kind)
        return OP

    def e_BinOp(self, e, st):
        return self.arith(e.op, self.expr(e.left, st), self.expr(e.right, st), st, e)

    def arith(self, op, a, b, st, e):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int) and not isinstance(op, (ast.Div, ast.Pow)):
                if isinstance(op, ast.FloorDiv) and b:
                    return a // b
                if isinstance(op, ast.Mod) and b:
                    return a % b
            x, y = T(a), T(b)
            if isinstance(op, ast.Add):
                return z3.simplify(x + y)
            if isinstance(op, ast.Sub):
                return z3.simplify(x - y)
            if isinstance(op, ast.Mult):
                return z3.simplify(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                # Cython turns // and % of C integers into Python's, which raise on zero
                self.branch_raise(self.neg(self.neg(y == 0)), 'ZeroDivisionError', st)
                if not self.nonneg(y):
                    if self.holds(y > 0, st, False)[0] != 'holds':
                        v = self.fresh('div')
                        return v
                q, m = self.fresh('quo'), self.fresh('rem')
                self.defs.append(z3.Implies(y > 0, z3.And(x == q * y + m, m >= 0, m < y)))
                self.divided(q, y)
                return q if isinstance(op, ast.FloorDiv) else m
            if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
                t = z3.IntVal(1)
                for _ in range(b):
                    t = t * x
                return z3.simplify(t)
            if isinstance(op, ast.Div):
                return OP
            return self.fresh('int')
        if isinstance(a, str):
            return a
        if isinstance(a, Arr) or isinstance(b, Arr):
            w = a if isinstance(a, Arr) else b
            return Arr(w.dims, w.kind)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, list) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        return OP

    def e_Compare(self, e, st):
        out = []
        a = self.expr(e.left, st)
        for op, right in zip(e.ops, e.comparators):
            b = self.expr(right, st)
            out.append(self.compare(op, a, b, st))
            a = b
        r = out[0]
        for x in out[1:]:
            r = self.both(r, x)
        return r

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Choice) or isinstance(b, Choice):
                raise Unencodable('identity of a merged value')
            r = a is b
            if a is OP and b is None or b is OP and a is None:
                r = False
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, str) and isinstance(b, (str, tuple, list, dict)):
                r = a in b
                return r if isinstance(op, ast.In) else not r
            raise Unencodable('membership test')
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a) != len(b):
                r = False
            else:
                r = True
                for x, y in zip(a, b):
                    r = self.both(r, self.compare(ast.Eq(), x, y, st))
            return r if isinstance(op, ast.Eq) else self.neg(r)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_int(a) and is_int(b):
            x, y = T(a), T(b)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y, ast.Eq: x == y, ast.NotEq: x != y}[type(op)]
            return self.neg(self.neg(r))
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None), int)) or isinstance(b, (str, type(None))) and isinstance(a, int):
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
        return self.freshb('any')

    def e_IfExp(self, e, st):
        c = self.truth(self.expr(e.test, st), st)
        if isinstance(c, bool):
            return self.expr(e.body if c else e.orelse, st)
        return ite(c, self.expr(e.body, st), self.expr(e.orelse, st))

    def e_JoinedStr(self, e, st):
        return '<formatted>'

    # ------------------------------------------------------------ memory
    def flat(self, arr, idx):
        """Element offset of an index of a contiguous array."""
        off = z3.IntVal(0)
        for k, d in enumerate(arr.dims):
            off = off * d + (T(idx[k]) if k < len(idx) else 0)
        return z3.simplify(off)

    def index(self, e, st):
        k = self.expr(e, st)
        return list(k) if isinstance(k, tuple) else [k]

    def access(self, base, idx, st, node, what):
        line = 'line %s' % getattr(node, 'lineno', '?')
        txt = ast.unparse(node) if node is not None else what
        if isinstance(base, Ptr):
            if len(idx) != 1 or not is_int(idx[0]):
                raise Unencodable('pointer index')
            at = base.off + T(idx[0])
            self.oblige('overrun: %s' % txt, z3.And(at >= 0, at < base.size), st, line)
            return
        if any(isinstance(i, slice) or i is Ellipsis or i is None for i in idx) or len(idx) < base.ndim:
            out = []
            k = 0
            for i in idx:
                if i is None:
                    out.append(z3.IntVal(1))
                    continue
                if i is Ellipsis:
                    raise Unencodable('ellipsis')
                d = base.dims[k]
                k += 1
                if isinstance(i, slice):
                    if i.start is None and i.stop is None and i.step is None:
                        out.append(d)
                    elif i.step is None and (i.start is None or is_int(i.start)) and (i.stop is None or is_int(i.stop)):
                        out.append(ints.term(ints._slice(ints.wrap(d), None if i.start is None else ints.wrap(T(i.start)),
                                                         None if i.stop is None else ints.wrap(T(i.stop)))))
                    else:
                        raise Unencodable('slice')
                elif is_int(i):
                    self.inside(base, d, i, st, txt, line)
                else:
                    raise Unencodable('index')
            return Arr(out + base.dims[k:], base.kind, base.raw)
        if len(idx) > base.ndim:
            raise Unencodable('too many indices')
        for d, i in zip(base.dims, idx):
            if not is_int(i):
                raise Unencodable('index %s' % txt)
            self.inside(base, d, i, st, txt, line)

    def inside(self, base, d, i, st, txt, line):
        if base.raw:
            self.oblige('overrun: %s' % txt, z3.And(T(i) >= 0, T(i) < d), st, line)

    def e_Subscript(self, e, st):
        base = self.expr(e.value, st)
        idx = self.index(e.slice, st)
        if isinstance(base, (tuple, list)):
            i = idx[0]
            if isinstance(i, slice):
                return base[i]
            if isinstance(i, int):
                return base[i]
            if is_int(i):
                self.oblige('overrun: %s' % ast.unparse(e), z3.And(i >= 0, i < len(base)), st, 'line %s' % e.lineno)
                return OP if all(x is OP for x in base) else self.fresh('item')
        if isinstance(base, dict):
            return base[idx[0]]
        if isinstance(base, Box):
            return base.v
        if base is OP:
            return OP
        if isinstance(base, (Arr, Ptr)):
            r = self.access(base, idx, st, e, 'read')
            if r is not None:
                return r
            return OP if base.kind != 'int' else self.fresh('content')
        raise Unencodable('subscript of %s' % type(base).__name__)

    def store(self, t, v, st):
        base = self.expr(t.value, st)
        idx = self.index(t.slice, st)
        if isinstance(base, Box):
            base.v = v
            return
        if base is OP:
            return
        if isinstance(base, list) and isinstance(idx[0], int):
            base[idx[0]] = v
            return
        if isinstance(base, (Arr, Ptr)):
            self.access(base, idx, st, t, 'write')
            return
        raise Unencodable('store into %s' % type(base).__name__)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.expr(e.func, st)
        if isinstance(f, Builtin) and f.name == '_addr':
            return self.address(e, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.expr(a.value, st))
            else:
                args.append(self.expr(a, st))
        kw = {k.arg: self.expr(k.value, st) for k in e.keywords}
        if isinstance(f, Fn):
            return self.call_function(f, args, kw, st, getattr(e, 'lineno', 0))
        if isinstance(f, Extern):
            return self.extern(f.name, args, st, e)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw, st, e)
        if isinstance(f, tuple) and f and f[0] == 'method':
            return self.method(f[1], f[2], args, kw, st, e)
        if isinstance(f, tuple) and f and f[0] == 'pycall':
            raise Unencodable('call of %s from a kernel' % f[2])
        if f is OP:
            return OP
        raise Unencodable('call of %s' % type(f).__name__)

    def address(self, e, st):
        base = self.expr(e.args[0], st)
        idx = self.expr(e.args[1], st)
        if isinstance(base, Box):
            return base
        if isinstance(base, Ptr):
            return Ptr(base.size, z3.simplify(base.off + T(idx[0])), base.kind)
        if not isinstance(base, Arr):
            raise Unencodable('address of %s' % type(base).__name__)
        # taking the address is harmless by itself; what is reached through it is checked
        for k, (i, d) in enumerate(zip(idx, base.dims)):
            rest = z3.IntVal(1)
            for x in base.dims[k + 1:]:
                rest = rest * x
            rest = z3.simplify(rest)
            if not z3.is_int_value(T(i)) and not z3.is_int_value(rest):
                self.lemmas.append(z3.Implies(z3.And(T(i) >= 0, T(i) < d, rest >= 0), T(i) * rest + rest <= d * rest))
        return Ptr(z3.simplify(base.total()), self.flat(base, idx), base.kind)

    def need(self, p, n, st, e, k):
        """A C function uses n elements from p on."""
        if isinstance(p, Box):
            self.oblige('overrun: %s' % ast.unparse(e), T(n) <= 1, st, 'line %s' % e.lineno)
            return
        if isinstance(p, Arr):
            p = Ptr(p.total(), 0, p.kind)
        if not isinstance(p, Ptr):
            raise Unencodable('argument %d of %s' % (k, ast.unparse(e)))
        self.oblige('overrun: argument %d of %s' % (k + 1, ast.unparse(e)[:60]), z3.And(p.off >= 0, p.off + T(n) <= p.size), st, 'line %s' % e.lineno)

    def extern(self, name, args, st, e):
        if name in ('vec_f', 'vec_fp', 'vec_fpp'):
            self.need(args[0], NUM, st, e, 0)
            return None
        if name == 'leggauss_quad':
            n = T(args[0])
            self.oblige('rule: %s' % ast.unparse(e)[:60], z3.And(n >= 1, n <= POINTS), st, 'line %s' % e.lineno)
            self.need(args[1], n, st, e, 1)
            self.need(args[2], n, st, e, 2)
            return OP
        if name in ('f', 'fp', 'fpp') or name.startswith('integral_'):
            for k in range(1 if name in ('f', 'fp', 'fpp') else 2):
                if is_int(args[k]):
                    self.oblige('series: %s' % ast.unparse(e)[:60], z3.And(T(args[k]) >= 0, T(args[k]) < NUM), st, 'line %s' % e.lineno)
                else:
                    raise Unencodable('index of %s' % name)
            return OP
        raise Unencodable('no contract for the C function %s' % name)

    def method(self, o, name, args, kw, st, e):
        if isinstance(o, Mat):
            return o
        if isinstance(o, Arr):
            if name in ('ravel', 'flatten'):
                return Arr([z3.simplify(o.total())], o.kind)
            if name in ('copy', 'astype', 'squeeze'):
                return Arr(o.dims, o.kind)
            if name == 'reshape':
                return self.reshape(o, args, st)
            if name == 'fill':
                return None
            if name in ('sum', 'min', 'max', 'mean', 'item'):
                return OP
        raise Unencodable('method %s' % name)

    def reshape(self, o, args, st):
        shape = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        shape = list(shape)
        neg = [k for k, d in enumerate(shape) if isinstance(d, int) and d == -1]
        total = o.total()
        if not neg:
            p = z3.IntVal(1)
            for d in shape:
                p = p * T(d)
            self.branch_raise(self.neg(self.neg(p != total)), 'ValueError', st)
            return Arr(shape, o.kind)
        rest = z3.IntVal(1)
        for k, d in enumerate(shape):
            if k != neg[0]:
                rest = rest * T(d)
        rest = z3.simplify(rest)
        q = self.fresh('rows')
        # raises unless it divides
        bad = self.freshb('uneven')
        w = self.fresh('rem')
        self.defs.append(z3.Implies(rest > 0, z3.And(total == q * rest + w, w >= 0, w < rest, bad == (w != 0), z3.Implies(total >= 0, q >= 0))))
        self.divided(q, rest)
        self.branch_raise(bad, 'ValueError', st)
        self.branch_raise(self.neg(self.neg(rest <= 0)), 'ValueError', st)
        shape[neg[0]] = q
        self.add_size(q)
        self.add_size(rest)
        return Arr(shape, o.kind)

    def shape_arg(self, s):
        if isinstance(s, (tuple, list)):
            return [T(d) for d in s]
        if is_int(s):
            return [T(s)]
        raise Unencodable('shape')

    def new(self, shape, kind, st):
        dims = self.shape_arg(shape)
        for d in dims:
            if not z3.is_int_value(d):
                self.branch_raise(self.neg(self.neg(d < 0)), 'ValueError', st)
        return Arr(dims, kind)

    def kind_of(self, kw, args, pos):
        d = kw.get('dtype', args[pos] if len(args) > pos else OP)
        s = getattr(d, 'name', '') if isinstance(d, Builtin) else d if isinstance(d, str) else ''
        if d is int or 'int' in s or 'long' in s:
            return 'int'
        return 'double'

    def builtin(self, name, args, kw, st, e):
        if name == '_I':
            v = args[0]
            if isinstance(v, (bool, int)):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, z3.ArithRef):
                self.oblige('overflow: %s' % ast.unparse(e)[:60], z3.And(v >= -I32, v < I32), st, 'line %s' % e.lineno)
                return v
            if v is OP:
                t = self.fresh('int')
                return t
            raise Unencodable('C integer from %s' % type(v).__name__)
        if name in ('_D', '_F'):
            return OP
        if name == '_MV':
            v = args[0]
            if v is None:
                return None
            if not isinstance(v, Arr):
                if v is OP:
                    raise Unencodable('memoryview of an unknown array')
                raise Unencodable('memoryview of %s' % type(v).__name__)
            if v.ndim != args[1]:
                self.branch_raise(True, 'ValueError', st)
                return Arr([z3.IntVal(0)] * args[1], args[2], True)
            return Arr(v.dims, args[2], True)
        if name in ('_carr', '_carr_init'):
            n = args[0]
            if n is None:
                n = len(args[1])
            return Ptr(n, 0, args[1] if name == '_carr' and isinstance(args[1], str) else 'double')
        if name == '_castptr':
            p = args[0]
            if isinstance(p, Ptr) and p.kind == 'bytes':
                w = 8 if args[1] in ('double', 'ptr') else 4
                n = z3.simplify(p.size)
                if z3.is_int_value(n):
                    return Ptr(n.as_long() // w, 0, args[1])
                q, r = self.fresh('elements'), self.fresh('rem')
                self.defs.append(z3.And(n == q * w + r, r >= 0, r < w))
                return Ptr(q, 0, args[1])
            return p
        if name == '_div':
            return OP
        if name in ('_cidiv', '_cimod'):
            return self.arith(ast.FloorDiv() if name == '_cidiv' else ast.Mod(), args[0], args[1], st, e)
        if name == '_box':
            return Box(args[0] if args else OP)
        if name == '_unpack':
            return self.items(args[0], args[1])
        if name == 'len':
            v = args[0]
            if isinstance(v, Arr):
                return v.dims[0]
            return len(v)
        if name in ('int',):
            return args[0] if is_int(args[0]) else self.fresh('int')
        if name in ('bool',):
            return self.truth(args[0], st)
        if name in ('float', 'abs', 'sum'):
            if name == 'abs' and is_int(args[0]):
                return z3.If(T(args[0]) < 0, -T(args[0]), T(args[0]))
            return OP
        if name in ('min', 'max'):
            if all(is_int(a) for a in args) and len(args) == 2:
                x, y = T(args[0]), T(args[1])
                return z3.simplify(z3.If((x <= y) if name == 'min' else (x >= y), x, y))
            return OP
        if name in ('tuple', 'list'):
            if isinstance(args[0], (tuple, list)):
                return tuple(args[0]) if name == 'tuple' else list(args[0])
        if name in ('isinstance', 'hasattr'):
            return self.freshb('any')
        if name == 'getattr':
            return norm(getattr(args[0], *args[1:]))
        if name in ('enumerate', 'zip', 'range'):
            if name == 'range' and all(isinstance(a, int) for a in args):
                return list(range(*args))
            if all(isinstance(a, (tuple, list)) for a in args):
                return [tuple(x) for x in (enumerate(*args) if name == 'enumerate' else zip(*args))]
        tail = name.split('.')[-1]
        if tail in ('malloc', 'PyMem_Malloc'):
            return Ptr(T(args[0]), 0, 'bytes')
        if tail in ('calloc', 'PyMem_Calloc'):
            return Ptr(z3.simplify(T(args[0]) * T(args[1])), 0, 'bytes')
        if tail in ('free', 'PyMem_Free', 'memset'):
            return None
        if tail in ('zeros', 'empty', 'ones', 'full'):
            shape = args[0] if args else kw['shape']
            return self.new(shape, self.kind_of(kw, args, 2 if tail == 'full' else 1), st)
        if tail in ('zeros_like', 'ones_like', 'empty_like', 'nan_to_num', 'copy'):
            return Arr(args[0].dims, args[0].kind)
        if tail in ('asarray', 'ascontiguousarray', 'array', 'asanyarray', 'atleast_1d', 'require'):
            v = args[0]
            if isinstance(v, Arr):
                return Arr(v.dims, v.kind)
            if isinstance(v, (tuple, list)):
                dims = []
                while isinstance(v, (tuple, list)):
                    dims.append(len(v))
                    v = v[0] if len(v) else OP
                return Arr(dims, 'double')
            raise Unencodable('array of %s' % type(v).__name__)
        if tail in ('hstack', 'concatenate', 'append'):
            vs = args[0] if tail != 'append' else args[:2]
            if all(isinstance(v, Arr) and v.ndim == 1 for v in vs):
                t = z3.IntVal(0)
                for v in vs:
                    t = t + v.dims[0]
                return Arr([z3.simplify(t)], 'double')
            raise Unencodable('concatenation')
        if tail == 'pad':
            w = args[1]
            if args[0].ndim == 1 and isinstance(w, tuple) and len(w) == 2 and all(is_int(x) for x in w):
                return Arr([z3.simplify(args[0].dims[0] + T(w[0]) + T(w[1]))], 'double')
            raise Unencodable('pad')
        if tail == 'reshape':
            return self.reshape(args[0], args[1:], st)
        if tail in ('ravel',):
            return Arr([z3.simplify(args[0].total())], args[0].kind)
        if tail in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'coo_array'):
            return Mat(kw.get('shape'))
        if tail in ('sqrt', 'sin', 'cos', 'fabs', 'pow', 'exp', 'float64', 'double'):
            return OP
        if tail in ('ValueError', 'TypeError', 'RuntimeError'):
            return OP
        if tail in ('int64', 'intp', 'int_'):
            return args[0]
        if tail == 'collect':
            return None
        raise Unencodable('call of %s' % name)


_S = {}


def prove(facts, goal, model=True, lemmas=(), path=()):
    """('holds', None, facts of the path used) or ('fails', model, None) or ('unknown', None, None) for facts => goal."""
    def ask(fs, ms, linear):
        s = z3.Solver()
        s.set('timeout', ms)
        if linear:
            s.set('smt.arith.nl', False)
        s.add(fs)
        s.add(z3.Not(goal))
        names = [z3.Bool('path!%d' % k) for k in range(len(path))]
        for b, f in zip(names, path):
            s.add(z3.Implies(b, f))
        if s.check(names) != z3.unsat:
            return None
        core = {str(c) for c in s.unsat_core()}
        return [f for b, f in zip(names, path) if str(b) in core]
    Ctx.queries += 1
    facts = list(facts)
    for fs, ms, linear in ((facts, 500, True), (facts + list(lemmas), 3000, True)) + (() if model else ((facts + list(lemmas), 5000, False),)):
        used = ask(fs, ms, linear)
        if used is not None:
            return 'holds', None, used
    if not model:
        return 'unknown', None, None
    # a counterexample, small first: it is to be run
    for hi in (3, 6, 40, None):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(facts + list(lemmas) + list(path))
        s.add(z3.Not(goal))
        if hi is not None:
            for n, (v, lo, up) in Ctx.inputs.items():
                if lo <= hi < up:
                    s.add(v <= max(hi, lo))
        r = s.check()
        if r == z3.sat:
            return 'fails', values(s.model()), None
        if r == z3.unsat and hi is None:
            return 'holds', None, list(path)
    return 'unknown', None, None


def values(m):
    out = {}
    for n, (v, lo, up) in Ctx.inputs.items():
        x = m.eval(v, model_completion=False)
        if z3.is_int_value(x):
            out[n] = x.as_long()
    return out


class Hook:
    """Stands for a compiled function in the modules that call it."""
    def __init__(self, modules, mod, name, orig):
        self.modules, self.mod, self.name, self.orig = modules, mod, name, orig
        self.__name__ = name
        self.__module__ = mod
        self.__doc__ = None

    def __call__(self, *args, **kw):
        k = Ctx.calls.get(self.name, 0)
        Ctx.calls[self.name] = k + 1
        I = Interp(self.modules, '%s%s.' % (self.name, k or ''))
        funcs = self.modules[self.mod][1]
        st = State({}, True)
        for v in Ctx.inputs.values():
            I.add_size(v[0])
        val = I.call_function(Fn(self.mod, funcs[self.name]), [norm(a) for a in args], {k: norm(v) for k, v in kw.items()}, st, 0)
        # what was found to be broken is assumed from here on only within the kernel
        Ctx.log.append('%s.%s' % (self.mod, self.name))
        open_ = [(c, e) for c, e in I.raises if c is not False and (c is True or I.holds(z3.Not(c), None, False)[0] != 'holds')]
        Ctx.path.zpc.extend(I.about([c for c, _ in open_ if c is not True] + terms_of(val)))
        for c, e in open_:
            if c is True or PathControl.decide(('z3', c)):
                raise {'ValueError': ValueError, 'TypeError': TypeError, 'ZeroDivisionError': ZeroDivisionError}.get(e, RuntimeError)('from %s' % self.name)
        return lift(val)


def symbols(t, seen=None):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


def terms_of(v):
    if isinstance(v, Arr):
        return v.dims
    if isinstance(v, Mat):
        return [T(norm(d)) for d in v.shape or () if is_int(norm(d))]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_of(x)]
    return [v] if isinstance(v, z3.ExprRef) else []


def lift(v):
    if isinstance(v, Arr):
        return Sized(*v.dims)
    if isinstance(v, Mat):
        return ints.Matrix(*[ints.wrap(T(norm(d))) if is_int(d) else d for d in v.shape]) if v.shape is not None else OP
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, z3.ArithRef):
        return ints.wrap(v)
    if isinstance(v, z3.BoolRef):
        return ints.cond(v)
    return v


def prepare(loader):
    """From here on, the modules this loader translates from Cython have their functions interpreted instead of executed."""
    ints.install(loader)
    modules = loader.kernels = {}

    def after(m, src, tr):
        tree = ast.parse(src)
        funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        modules[m.__name__] = (m.__dict__, funcs)
        for k in funcs:
            m.__dict__[k] = Hook(modules, m.__name__, k, m.__dict__[k])
    loader.after = after
    Ctx.loader = loader
