"""Symbolic execution of the C++ kernels, from clang's LLVM IR of the current source.

Doubles are exact reals (Poly), ints are Python ints or z3 bit-vectors; a branch or switch on a symbolic int forks over the
cases the solver finds feasible. Memory is byte-addressed per object, and an access outside its object is reported."""
import os
import re
import struct
import subprocess
import tempfile
import shutil
from fractions import Fraction
import z3
from . import core, poly, crt
from .poly import Poly, D, Unencodable, SymBool

REPO = os.environ.get('VERIF_REPO', '/repo')


def emit(cpp, opt='-O0'):
    d = tempfile.mkdtemp(prefix='verif-ll-')
    try:
        o = os.path.join(d, 'x.ll')
        r = subprocess.run(['clang++', '-S', '-emit-llvm', opt, '-ffp-contract=off', '-w', '-fno-discard-value-names',
                            '-I', os.path.join(REPO, 'panels/core/include'), cpp, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise Unencodable('clang: ' + r.stderr[-2000:])
        return open(o).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- types
def parse_type(s, named=None):
    """-> (type, rest). Types: 'double','float','ptr','void',('i',n),('arr',n,t),('struct',[t])"""
    s = s.lstrip()
    m = re.match(r'i(\d+)\b', s)
    if m:
        return ('i', int(m[1])), s[m.end():]
    for k in ('double', 'float', 'ptr', 'void', 'metadata', 'label'):
        if re.match(k + r'\b', s):
            return k, s[len(k):]
    m = re.match(r'\[\s*(\d+)\s+x\s+', s)
    if m:
        t, r = parse_type(s[m.end():])
        r = r.lstrip()
        assert r[0] == ']', r
        return ('arr', int(m[1]), t), r[1:]
    if s.startswith('{'):
        ts, r = [], s[1:].lstrip()
        while not r.startswith('}'):
            t, r = parse_type(r)
            ts.append(t)
            r = r.lstrip()
            if r.startswith(','):
                r = r[1:].lstrip()
        return ('struct', tuple(ts)), r[1:]
    raise Unencodable('LLVM type %r' % s[:40])


def size(t):
    if t == 'double' or t == 'ptr':
        return 8
    if t == 'float':
        return 4
    if t[0] == 'i':
        return max(1, (t[1] + 7) // 8)
    if t[0] == 'arr':
        return t[1] * size(t[2])
    if t[0] == 'struct':
        off = 0
        al = 1
        for x in t[1]:
            a = align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a + size(x)
        return (off + al - 1) // al * al
    raise Unencodable('size of %r' % (t,))


def align(t):
    if t[0] == 'arr':
        return align(t[2])
    if t[0] == 'struct':
        return max([align(x) for x in t[1]] or [1])
    return size(t)


def fieldoff(t, k):
    off = 0
    for n, x in enumerate(t[1]):
        a = align(x)
        off = (off + a - 1) // a * a
        if n == k:
            return off
        off += size(x)


def fconst(s):
    if s.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    else:
        v = float(s)
    return D(v)


# ---------------------------------------------------------------- module
class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks, self.first = {}, None


def _split(s):
    """Split on top-level commas."""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


ATTR = re.compile(r'\b(noundef|nonnull|nocapture|readonly|writeonly|readnone|signext|zeroext|noalias|local_unnamed_addr|'
                  r'unnamed_addr|dso_local|internal|linkonce_odr|weak_odr|hidden|private|constant|global|returned|'
                  r'align \d+|dereferenceable\(\d+\)|fastcc|tail|musttail|notail|comdat|immarg)\b')


class Module:
    def __init__(self, text):
        self.funcs, self.globals = {}, {}
        cur = None
        blk = None
        lines = iter(text.split('\n'))
        for ln in lines:
            ln = re.sub(r'\s*;.*$', '', ln) if ';' in ln else ln
            if not ln.strip():
                continue
            if ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define'):
                m = re.search(r'@("?[\w.$]+"?)\s*\((.*?)\)\s*(local_unnamed_addr|unnamed_addr|#\d+|comdat|\{|personality|align|mustprogress|nounwind|$)', ln)
                name = m[1].strip('"')
                ps = []
                for k, p in enumerate(_split(m[2])):
                    p = ATTR.sub('', p).strip()
                    t, r = parse_type(p)
                    r = r.strip()
                    ps.append((t, r if r else '%%%d' % k))
                cur = Func(name, None, ps)
                self.funcs[name] = cur
                blk = '%' + str(len(ps))
                if not any(not p[1][1:].isdigit() for p in ps) is False:
                    pass
                cur.first = blk
                cur.blocks[blk] = []
                fresh = True
            elif ln.startswith('}'):
                cur = None
            elif cur is not None:
                m = re.match(r'^([\w.$-]+|"[^"]+"):', ln)
                if m:
                    blk = '%' + m[1].strip('"')
                    if fresh and not cur.blocks[cur.first]:
                        del cur.blocks[cur.first]
                        cur.first = blk
                    cur.blocks[blk] = []
                    fresh = False
                else:
                    fresh = False
                    s = ln.strip()
                    if re.match(r'switch\b', s) and not s.endswith(']'):
                        for l2 in lines:
                            s += ' ' + l2.strip()
                            if l2.strip().startswith(']'):
                                break
                    cur.blocks[blk].append(re.sub(r',?\s*!\S+ !\d+', '', s))

    def _global(self, ln):
        m = re.match(r'@("?[\w.$]+"?)\s*=\s*(.*)$', ln)
        body = ATTR.sub('', m[2]).strip()
        try:
            t, r = parse_type(body)
        except Unencodable:
            return
        r = re.sub(r',\s*(align|comdat|section).*$', '', r.strip()).strip()
        self.globals['@' + m[1].strip('"')] = (t, r)

    def find(self, name):
        for n, f in self.funcs.items():
            if n == name or re.match(r'_Z\d*%d%s([a-zA-Z].*)?$' % (len(name), name), n) and n.startswith('_Z%d%s' % (len(name), name)):
                return f
        raise Unencodable('no function %s in the IR' % name)


def init_cells(t, s, cells, off):
    s = s.strip()
    if s.startswith('zeroinitializer') or s.startswith('undef'):
        _zero(t, cells, off)
        return
    if t == 'double':
        cells[off] = fconst(s)
    elif t[0] == 'i':
        cells[off] = int(s) if s not in ('true', 'false') else int(s == 'true')
    elif t[0] == 'arr':
        if not s.startswith('['):
            raise Unencodable('initializer %s' % s[:40])
        items = _split(s[1:s.rindex(']')])
        for k, it in enumerate(items):
            et, r = parse_type(it)
            init_cells(et, r, cells, off + k * size(t[2]))
    elif t[0] == 'struct':
        for k, it in enumerate(_split(s.strip()[1:-1])):
            et, r = parse_type(it)
            init_cells(et, r, cells, off + fieldoff(t, k))
    else:
        raise Unencodable('initializer of %r' % (t,))


def _zero(t, cells, off):
    if t == 'double':
        cells[off] = D(0)
    elif t[0] == 'i':
        cells[off] = 0
    elif t[0] == 'arr':
        for k in range(t[1]):
            _zero(t[2], cells, off + k * size(t[2]))
    elif t[0] == 'struct':
        for k, x in enumerate(t[1]):
            _zero(x, cells, off + fieldoff(t, k))


class Obj:
    __slots__ = ('name', 'size', 'cells', 'zero', 'const')

    def __init__(self, name, sz):
        self.name, self.size, self.cells, self.zero, self.const = name, sz, {}, False, False


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off


class State:
    """One path: its bit-vector condition, its real condition, its decisions."""
    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []
        self.s = z3.Solver()
        self.bv, self.re = [], []
        self.steps = 0

    def assume(self, c):
        self.bv.append(c)
        self.s.add(c)

    def choose(self, conds):
        """Index of the alternative this path takes."""
        n = len(self.trace)
        if n < len(self.prefix):
            k = self.prefix[n]
            self.trace.append((k, []))
        else:
            feas = []
            for k, c in enumerate(conds):
                if self._feasible(c):
                    feas.append(k)
            if not feas:
                raise core.Infeasible()
            k = feas[0]
            self.trace.append((k, feas[1:]))
        c = conds[k]
        if isinstance(c, tuple):
            self.re.append(c)
        else:
            self.assume(c)
        return k

    def _feasible(self, c):
        core.STATS.branch_queries += 1
        if isinstance(c, tuple):
            r = core.interval(c)
            if r is not None:
                return r
            fs = self.re + [c]
            r, _ = core.solve(core.decls([p for f in fs for p in core.polys_of(f)]) +
                              ['(assert %s)' % core.smt_formula(f) for f in fs], 20)
            return r != 'unsat'
        return self.s.check(c) != z3.unsat

    def value(self, v):
        """A concrete value of a symbolic int: forks over all feasible ones."""
        if not isinstance(v, z3.BitVecRef):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_signed_long()
        n = len(self.trace)
        if n < len(self.prefix):
            k = self.prefix[n]
            self.trace.append((k, []))
            self.assume(v == k)
            return k
        vals = []
        self.s.push()
        while self.s.check() == z3.sat:
            core.STATS.branch_queries += 1
            k = self.s.model().eval(v, model_completion=True).as_signed_long()
            vals.append(k)
            self.s.add(v != k)
            if len(vals) > 2000:
                raise Unencodable('unbounded symbolic int')
        self.s.pop()
        if not vals:
            raise core.Infeasible()
        vals.sort()
        self.trace.append((vals[0], vals[1:]))
        self.assume(v == vals[0])
        return vals[0]


class Interp:
    def __init__(self, mod, st):
        self.m, self.st = mod, st
        self.gl = {}

    # ---- values
    def val(self, fr, t, s):
        s = s.strip()
        if s.startswith('%'):
            return fr[s.replace('"', '')]
        if t == 'double':
            if s in ('undef', 'poison'):
                raise Unencodable('undefined double')
            return fconst(s)
        if t == 'ptr':
            if s.startswith('@'):
                return self.glob(s)
            m = re.match(r'getelementptr\s+(?:inbounds\s+)?\((.*)\)$', s)
            if m:
                return self.gep(fr, m[1])
            if s == 'null':
                return None
            raise Unencodable('pointer %s' % s)
        if t[0] == 'i':
            if s == 'true':
                return 1
            if s == 'false':
                return 0
            return int(s)
        raise Unencodable('value %s %s' % (t, s))

    def glob(self, s):
        s = s.replace('"', '')
        if s not in self.gl:
            if s not in self.m.globals:
                raise Unencodable('global %s' % s)
            t, init = self.m.globals[s]
            o = Obj(s, size(t))
            init_cells(t, init, o.cells, 0)
            self.gl[s] = o
        return Ptr(self.gl[s], 0)

    def tv(self, fr, s):
        s = ATTR.sub('', s).strip()
        t, r = parse_type(s)
        return t, self.val(fr, t, r)

    def gep(self, fr, s):
        parts = _split(s)
        t, _ = parse_type(parts[0])
        _, p = self.tv(fr, parts[1])
        off = p.off
        cur = t
        for n, ix in enumerate(parts[2:]):
            it, iv = self.tv(fr, ix)
            iv = self.st.value(iv)
            if n == 0:
                off += iv * size(cur)
            elif cur[0] == 'arr':
                cur = cur[2]
                off += iv * size(cur)
            elif cur[0] == 'struct':
                off += fieldoff(cur, iv)
                cur = cur[1][iv]
            else:
                raise Unencodable('gep')
        return Ptr(p.o, off)

    def load(self, t, p):
        if p is None or p.o is None:
            raise crt.MemoryError_('null dereference')
        if p.off < 0 or p.off + size(t) > p.o.size:
            raise crt.MemoryError_('read at byte %d of %s (%d bytes)' % (p.off, p.o.name, p.o.size))
        if p.off not in p.o.cells:
            if p.o.zero:
                return D(0) if t == 'double' else 0
            raise crt.MemoryError_('read of uninitialised memory: %s at byte %d' % (p.o.name, p.off))
        return p.o.cells[p.off]

    def store(self, t, v, p):
        if p is None or p.o is None:
            raise crt.MemoryError_('null dereference')
        if p.off < 0 or p.off + size(t) > p.o.size:
            raise crt.MemoryError_('write at byte %d of %s (%d bytes)' % (p.off, p.o.name, p.o.size))
        p.o.cells[p.off] = v

    # ---- ints
    def bv(self, v, n):
        return v if isinstance(v, z3.BitVecRef) else z3.BitVecVal(v, n)

    def iop(self, op, n, a, b):
        sym = isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef)
        if sym:
            a, b = self.bv(a, n), self.bv(b, n)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
                 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'and': lambda: a & b, 'or': lambda: a | b,
                 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'ashr': lambda: a >> b, 'lshr': lambda: z3.LShR(a, b)}[op]()
            return z3.simplify(r)
        M = (1 << n) - 1
        ua, ub = a & M, b & M

        def sg(x):
            x &= M
            return x - (1 << n) if n > 1 and x >> (n - 1) else x

        def quo(x, y):
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: quo(a, b),
             'srem': lambda: a - b * quo(a, b), 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'and': lambda: ua & ub,
             'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub, 'ashr': lambda: sg(a) >> ub,
             'lshr': lambda: ua >> ub}[op]()
        return sg(r)

    def icmp(self, op, n, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            same = (a is None) == (b is None) and (a is None or (a.o is b.o and a.off == b.off))
            if op == 'eq':
                return int(same)
            if op == 'ne':
                return int(not same)
            if a is not None and b is not None and a.o is b.o:
                return self.icmp(op, 64, a.off, b.off)
            raise Unencodable('pointer comparison')
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            a, b = self.bv(a, n), self.bv(b, n)
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
                 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
                 'uge': lambda: z3.UGE(a, b)}[op]()
            return z3.simplify(z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        M = (1 << n) - 1
        if op[0] == 'u':
            a, b = a & M, b & M
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op if op in ('eq', 'ne') else op[1:]])

    def truth(self, v):
        if isinstance(v, SymBool):
            return self.st.choose([v.f, ('not', v.f)]) == 0
        if isinstance(v, z3.BitVecRef):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                return v.as_long() != 0
            one = z3.BitVecVal(1, 1)
            return self.st.choose([v == one, v != one]) == 0
        return bool(v)

    # ---- calls
    def call(self, name, args):
        f = self.m.funcs.get(name)
        if f is None:
            return self.intrinsic(name, args)
        fr = {}
        for (t, n), v in zip(f.params, args):
            fr[n] = v
        blk, prev = f.first, None
        while True:
            ins = f.blocks[blk]
            nxt = None
            phis = {}
            for s in ins:
                self.st.steps += 1
                if self.st.steps > 2000000:
                    raise Unencodable('too many instructions')
                m = re.match(r'(%[\w.$-]+|%"[^"]+")\s*=\s*(.*)$', s)
                dst, body = (m[1].replace('"', ''), m[2]) if m else (None, s)
                body = re.sub(r'^(tail|musttail|notail)\s+', '', body)
                op, _, rest = body.partition(' ')
                if op == 'phi':
                    t, r = parse_type(re.sub(r'^(fast|nnan|ninf|nsz|arcp|contract|reassoc|afn)\s+', '', rest))
                    for mm in re.finditer(r'\[\s*([^,\]]+),\s*(%[\w.$-]+|%"[^"]+")\s*\]', r):
                        if mm[2].replace('"', '') == prev:
                            phis[dst] = self.val(fr, t, mm[1])
                    continue
                if phis:
                    fr.update(phis)
                    phis = {}
                if op == 'ret':
                    if rest.strip() == 'void':
                        return None
                    return self.tv(fr, rest)[1]
                if op == 'br':
                    m2 = re.match(r'label\s+(%[\w.$-]+|%"[^"]+")', rest)
                    if m2:
                        nxt = m2[1]
                    else:
                        c, a, b = _split(rest)
                        v = self.tv(fr, c)[1]
                        nxt = (a if self.truth(v) else b).replace('label', '').strip()
                    break
                if op == 'switch':
                    m2 = re.match(r'(i\d+)\s+([^,]+),\s*label\s+(\S+)\s*\[(.*)\]', rest)
                    t, _ = parse_type(m2[1])
                    v = self.val(fr, t, m2[2])
                    cases = [(int(x), y) for x, y in re.findall(r'i\d+\s+(-?\d+),\s*label\s+(%[\w.$-]+|%"[^"]+")', m2[4])]
                    if isinstance(v, z3.BitVecRef) and not z3.is_bv_value(z3.simplify(v)):
                        conds = [v == k for k, _ in cases] + [z3.And([v != k for k, _ in cases])]
                        k = self.st.choose(conds)
                        nxt = cases[k][1] if k < len(cases) else m2[3]
                    else:
                        v = self.st.value(v)
                        nxt = dict(cases).get(v, m2[3])
                    break
                if op == 'unreachable':
                    raise crt.MemoryError_('control reaches the end of a non-void function')
                r = self.ins(fr, op, rest)
                if dst is not None:
                    fr[dst] = r
            if nxt is None:
                raise Unencodable('block without terminator')
            prev, blk = blk, nxt.replace('"', '')

    def ins(self, fr, op, rest):
        if op == 'alloca':
            t, r = parse_type(rest)
            n = 1
            m = re.match(r',\s*i\d+\s+(\S+?)(,|$)', r.strip())
            if m:
                n = self.st.value(self.val(fr, ('i', 64), m[1]))
            return Ptr(Obj('local', size(t) * n), 0)
        if op == 'load':
            rest = rest.replace('volatile ', '')
            a = _split(rest)
            t, _ = parse_type(a[0])
            return self.load(t, self.tv(fr, a[1])[1])
        if op == 'store':
            rest = rest.replace('volatile ', '')
            a = _split(rest)
            t, v = self.tv(fr, a[0])
            return self.store(t, v, self.tv(fr, a[1])[1])
        if op == 'getelementptr':
            rest = re.sub(r'^(inbounds|nuw|nusw)\s+', '', rest)
            return self.gep(fr, rest)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|reassoc|afn)\s+)+', '', rest)
            a = _split(rest)
            t, x = self.tv(fr, a[0])
            if op == 'fneg':
                return -D(x)
            y = self.val(fr, t, a[1])
            x, y = D(x), D(y)
            return x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
        if op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr'):
            rest = re.sub(r'^((nuw|nsw|exact|disjoint)\s+)+', '', rest)
            a = _split(rest)
            t, x = self.tv(fr, a[0])
            y = self.val(fr, t, a[1])
            if isinstance(x, SymBool) or isinstance(y, SymBool):
                x, y = int(self.truth(x)), int(self.truth(y))
            return self.iop(op, t[1], x, y)
        if op == 'icmp':
            c, _, r = rest.partition(' ')
            a = _split(r)
            t, x = self.tv(fr, a[0])
            y = self.val(fr, t, a[1])
            return self.icmp(c, t[1] if t[0] == 'i' else 64, x, y)
        if op == 'fcmp':
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|reassoc|afn)\s+)+', '', rest)
            c, _, r = rest.partition(' ')
            a = _split(r)
            t, x = self.tv(fr, a[0])
            y = self.val(fr, t, a[1])
            o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}.get(c[1:])
            if o is None:
                raise Unencodable('fcmp ' + c)
            v = D(x)._cmp(y, o)
            return v if isinstance(v, SymBool) else int(v)
        if op == 'select':
            a = _split(rest)
            c = self.tv(fr, a[0])[1]
            return self.tv(fr, a[1])[1] if self.truth(c) else self.tv(fr, a[2])[1]
        if op in ('zext', 'sext', 'trunc'):
            m = re.match(r'(?:nneg\s+|nuw\s+|nsw\s+)*(.*)\s+to\s+(i\d+)$', rest)
            t, v = self.tv(fr, m[1])
            n2 = int(m[2][1:])
            n1 = t[1]
            if isinstance(v, SymBool):
                v = int(self.truth(v))
            if isinstance(v, z3.BitVecRef):
                return z3.simplify(z3.ZeroExt(n2 - n1, v) if op == 'zext' else z3.SignExt(n2 - n1, v) if op == 'sext'
                                   else z3.Extract(n2 - 1, 0, v))
            if op == 'zext':
                return v & ((1 << n1) - 1)
            if op == 'sext':
                return -v if n1 == 1 else v
            v &= (1 << n2) - 1
            return v - (1 << n2) if n2 > 1 and v >> (n2 - 1) else v
        if op in ('sitofp', 'uitofp'):
            m = re.match(r'(?:nneg\s+)*(.*)\s+to\s+double$', rest)
            t, v = self.tv(fr, m[1])
            if isinstance(v, SymBool):
                v = int(self.truth(v))
            return D(self.st.value(v))
        if op == 'bitcast':
            m = re.match(r'(.*)\s+to\s+(.*)$', rest)
            t, v = self.tv(fr, m[1])
            if t == 'ptr':
                return v
        if op == 'freeze':
            return self.tv(fr, rest)[1]
        if op == 'call':
            m = re.match(r'(.*?)@("?[\w.$]+"?)\((.*)\)[^)]*$', rest)
            if not m:
                raise Unencodable('call ' + rest[:60])
            name = m[2].strip('"')
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')):
                return None
            args = [self.tv(fr, x)[1] for x in _split(m[3])]
            return self.call(name, args)
        raise Unencodable('LLVM instruction %s' % op)

    def intrinsic(self, name, a):
        if name in ('pow', 'llvm.pow.f64', '__pow_finite'):
            return D(a[0]) ** D(a[1])
        if name.startswith('llvm.powi'):
            return D(a[0]) ** self.st.value(a[1])
        if name.startswith(('llvm.fmuladd', 'llvm.fma')) or name == 'fma':
            return D(a[0]) * D(a[1]) + D(a[2])
        if name.startswith('llvm.fabs') or name == 'fabs':
            x = D(a[0])
            c = x._cmp(0, '>=')
            return x if (self.truth(c) if isinstance(c, SymBool) else c) else -x
        if name in ('sqrt',) or name.startswith('llvm.sqrt'):
            return poly.sqrt(D(a[0]))
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            d, s, n = a[0], a[1], self.st.value(a[2])
            if s.off + n > s.o.size or d.off + n > d.o.size or s.off < 0 or d.off < 0:
                raise crt.MemoryError_('memcpy outside its object')
            cells = {k - s.off + d.off: v for k, v in s.o.cells.items() if s.off <= k < s.off + n}
            d.o.cells.update(cells)
            return d
        if name.startswith('llvm.memset') or name == 'memset':
            d, v, n = a[0], self.st.value(a[1]), self.st.value(a[2])
            if v != 0 or d.off + n > d.o.size:
                raise Unencodable('memset')
            for k in [k for k in d.o.cells if d.off <= k < d.off + n]:
                del d.o.cells[k]
            d.o.zero = True
            return d
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.abs')):
            x = self.st.value(a[0])
            if 'abs' in name:
                return abs(x)
            y = self.st.value(a[1])
            return max(x, y) if 'smax' in name else min(x, y)
        raise Unencodable('call of %s' % name)


def paths(mod, name, mkargs, limit=4000):
    """Run function `name` over all its paths; mkargs(state) -> (args, context). Yields (state, context, return value or
    the memory error)."""
    f = mod.find(name)
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        st = State(prefix)
        n += 1
        if n > limit:
            raise Unencodable('more than %d paths in %s' % (limit, name))
        try:
            args, ctx = mkargs(st)
            if len(args) != len(f.params):
                raise Unencodable('%s takes %d arguments' % (name, len(f.params)))
            res = Interp(mod, st).call(f.name, args)
        except core.Infeasible:
            continue
        except crt.MemoryError_ as e:
            res = e
        core.STATS.paths += 1
        for k in range(len(prefix), len(st.trace)):
            d, alts = st.trace[k]
            for alt in alts:
                work.append([x for x, _ in st.trace[:k]] + [alt])
        yield st, ctx, res


def solve_mixed(st, ints, extra, polys):
    """SMT query over the path condition, plus assertion texts over monomials `m..` and the named ints."""
    ps = list(polys) + [p for f in st.re for p in core.polys_of(f)]
    lines = ['(declare-const %s (_ BitVec 32))' % n for n in ints]
    lines += core.decls(ps)
    lines += ['(assert %s)' % c.sexpr() for c in st.bv]
    lines += ['(assert %s)' % core.smt_formula(f) for f in st.re]
    lines += ['(assert %s)' % e for e in extra]
    core.STATS.monomials += len(lines)
    import time
    t = time.time()
    s = z3.Solver()
    s.set('timeout', 120000)
    s.from_string('\n'.join(lines))
    r = s.check()
    core.STATS.queries += 1
    core.STATS.time += time.time() - t
    if r == z3.unsat:
        core.STATS.unsat += 1
        return 'unsat', None, None
    if r == z3.unknown:
        core.STATS.unknown += 1
        return 'unknown', None, None
    core.STATS.sat += 1
    iv, rv = {}, {}
    m = s.model()
    for d in m.decls():
        v = m[d]
        if z3.is_bv_value(v):
            iv[d.name()] = v.as_signed_long()
        elif d.name()[0] == 'm' and d.name()[1:].isdigit() and z3.is_rational_value(v):
            mm = poly.mono(int(d.name()[1:]))
            if len(mm) == 1 and mm[0][1] == 1:
                rv[poly.ATOMS[mm[0][0]].data] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return 'sat', iv, rv
