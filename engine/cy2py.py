"""Translate a Cython module, parsed by Cython's own parser, into Python source that keeps the C typing.

Assignments to a C double/int variable are coerced as C would, C arrays and pointers become bounds-checked objects,
memoryviews share the storage of the array they view, prange is a loop, nogil/gil blocks are their bodies. Anything the
translator has no rule for raises Unencodable: it is never guessed.
"""
from .poly import Unencodable

INTS = {'int', 'long', 'short', 'size_t', 'Py_ssize_t', 'unsigned', 'bint', 'char', 'ssize_t', 'int64_t', 'int32_t'}
DOUBLES = {'double', 'float'}


class CType:
    """kind: double, int, obj, ptr, mv, carr, void"""
    def __init__(self, kind, base=None, ndim=None, size=None, contig=False):
        self.kind, self.base, self.ndim, self.size, self.contig = kind, base, ndim, size, contig


OBJ = CType('obj')


def parse(text, name):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    return parse_from_strings(name, text)


class Translator:
    def __init__(self, text, name):
        self.tree = parse(text, name)
        self.name = name
        self.lines = []
        self.ind = 0
        self.module_types = {}
        self.types = self.module_types
        self.in_func = False
        self.boxed = set()
        self.externs = []
        self.functions = []
        self.globals_assigned = set()
        self.typedefs = {}

    def out(self, s):
        self.lines.append('    ' * self.ind + s)

    def bad(self, node, what=''):
        pos = getattr(node, 'pos', None)
        raise Unencodable('%s: cannot translate %s %s at line %s' % (self.name, type(node).__name__, what, pos[1] if pos else '?'))

    def run(self):
        body = self.tree
        while hasattr(body, 'body') and type(body).__name__ in ('ModuleNode', 'CompilerDirectivesNode'):
            body = body.body
        self.stat(body)
        return '\n'.join(self.lines) + '\n'

    # ------------------------------------------------------------ types
    def base_type(self, node):
        n = type(node).__name__
        if n == 'CSimpleBaseTypeNode':
            if node.name is None:
                return OBJ
            if node.name in DOUBLES:
                return CType('double')
            if node.name in INTS:
                return CType('int')
            if node.name == 'void':
                return CType('void')
            return self.typedefs.get(node.name, OBJ)
        if n == 'MemoryViewSliceTypeNode':
            b = self.base_type(node.base_type_node)
            contig = any(type(a.step).__name__ == 'IntNode' for a in node.axes)
            return CType('mv', b, len(node.axes), contig=contig)
        if n == 'CConstOrVolatileTypeNode' or n == 'CConstTypeNode':
            return self.base_type(node.base_type)
        if n == 'TemplatedTypeNode':
            return OBJ
        if n == 'CComplexBaseTypeNode':
            return self.declared(self.base_type(node.base_type), node.declarator)[1]
        self.bad(node, 'type')

    def declared(self, base, d):
        """(name, type, default node, func declarator or None)"""
        n = type(d).__name__
        if n == 'CNameDeclaratorNode':
            return d.name, base, d.default, None
        if n == 'CPtrDeclaratorNode':
            name, t, df, fn = self.declared(base, d.base)
            return name, CType('ptr', t), df, fn
        if n == 'CArrayDeclaratorNode':
            name, t, df, fn = self.declared(base, d.base)
            return name, CType('carr', t, size=d.dimension), df, fn
        if n == 'CFuncDeclaratorNode':
            name, t, df, _ = self.declared(base, d.base)
            return name, t, df, d
        if n == 'CReferenceDeclaratorNode':
            return self.declared(base, d.base)
        self.bad(d, 'declarator')

    def coerce(self, t, s):
        if t.kind == 'double':
            return '_D(%s)' % s
        if t.kind == 'int':
            return '_I(%s)' % s
        if t.kind == 'mv':
            return '_MV(%s, %d, %r, %r)' % (s, t.ndim, t.base.kind, t.contig)
        return s

    # ------------------------------------------------------------ statements
    def stat(self, node):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            self.bad(node)
        return m(node)

    def block(self, node):
        self.ind += 1
        k = len(self.lines)
        self.stat(node)
        if len(self.lines) == k:
            self.out('pass')
        self.ind -= 1

    def s_StatListNode(self, node):
        for s in node.stats:
            self.stat(s)

    def s_CompilerDirectivesNode(self, node):
        self.stat(node.body)

    def s_PassStatNode(self, node):
        self.out('pass')

    def s_ExprStatNode(self, node):
        if type(node.expr).__name__ in ('UnicodeNode', 'StringNode', 'BytesNode'):
            return
        self.out(self.expr(node.expr))

    def s_CDefExternNode(self, node):
        stats = node.body.stats if hasattr(node.body, 'stats') else [node.body]
        for s in stats:
            if type(s).__name__ in ('PassStatNode', 'CTypeDefNode'):
                continue
            if type(s).__name__ != 'CVarDefNode':
                self.bad(s, 'in extern block')
            base = self.base_type(s.base_type)
            for d in s.declarators:
                name, t, df, fn = self.declared(base, d)
                cname = getattr(d, 'cname', None)
                if fn is not None:
                    x = fn.base
                    while hasattr(x, 'base'):
                        x = x.base
                    cname = getattr(x, 'cname', None)
                self.externs.append(name)
                self.out('%s = _extern(%r)' % (name, cname or name))

    def s_CVarDefNode(self, node):
        base = self.base_type(node.base_type)
        for d in node.declarators:
            name, t, df, fn = self.declared(base, d)
            if fn is not None:
                continue     # forward declaration of a cdef function
            self.types[name] = t
            if t.kind == 'carr':
                if df is not None:
                    self.out('%s = _carr_init(%s, %s)' % (name, self.expr(t.size) if t.size is not None else 'None', self.expr(df)))
                else:
                    self.out('%s = _carr(%s, %r)' % (name, self.expr(t.size), t.base.kind))
                continue
            if name in self.boxed:
                self.out('%s = _box()' % name)
            if df is not None:
                self.assign(name, t, self.expr(df))

    def s_CTypeDefNode(self, node):
        name, t, df, fn = self.declared(self.base_type(node.base_type), node.declarator)
        if fn is not None:
            self.bad(node, 'of a function')
        self.typedefs[name] = t

    def s_CEnumDefNode(self, node):
        last = None
        for item in node.items:
            if item.value is not None:
                self.out('%s = %s' % (item.name, self.expr(item.value)))
            else:
                self.out('%s = %s' % (item.name, '0' if last is None else last + ' + 1'))
            self.module_types[item.name] = CType('int')
            last = item.name
        if node.name:
            self.typedefs[node.name] = CType('int')

    def assign(self, name, t, val):
        if name in self.boxed:
            self.out('%s[0] = %s' % (name, self.coerce(t, val)))
        else:
            self.out('%s = %s' % (name, self.coerce(t, val)))

    def s_SingleAssignmentNode(self, node):
        if type(node.rhs).__name__ == 'ImportNode':
            self.s_import(node)
            return
        self.assign_to(node.lhs, self.expr(node.rhs))

    def assign_to(self, lhs, val):
        n = type(lhs).__name__
        if n == 'NameNode':
            t = self.lookup(lhs.name)
            if t is None:
                self.out('%s = %s' % (lhs.name, val))
            else:
                self.assign(lhs.name, t, val)
        elif n in ('TupleNode', 'ListNode'):
            if all(type(a).__name__ == 'NameNode' and (self.lookup(a.name) is None or self.lookup(a.name).kind == 'obj')
                   for a in lhs.args):
                self.out('%s = %s' % (', '.join(a.name for a in lhs.args) + ',', val))
            else:
                self.out('_tmp = _unpack(%s, %d)' % (val, len(lhs.args)))
                for k, a in enumerate(lhs.args):
                    self.assign_to(a, '_tmp[%d]' % k)
        else:
            self.out('%s = %s' % (self.expr(lhs), val))

    def s_import(self, node):
        imp = node.rhs
        mod = imp.module_name.value
        lvl = getattr(imp, 'level', 0)
        if lvl and lvl > 0:
            self.bad(node, 'relative import')
        if '.' in mod and node.lhs.name == mod.split('.')[0]:
            self.out('import %s' % mod)
        else:
            self.out('import %s as %s' % (mod, node.lhs.name))

    def s_FromImportStatNode(self, node):
        mod = node.module.module_name.value
        lvl = node.module.level or 0
        if lvl < 0:
            lvl = 0
        if mod == '__future__':
            return
        items = node.items
        names = []
        for name, target in items:
            tn = target.name
            names.append(str(name) if str(name) == tn else '%s as %s' % (name, tn))
        if getattr(node, 'import_star', False):
            names.append('*')
        self.out('from %s%s import %s' % ('.' * lvl, mod, ', '.join(names)))

    def s_CImportStatNode(self, node):
        return

    def s_FromCImportStatNode(self, node):
        for item in node.imported_names:
            pos, name, as_name = item[:3]
            self.out('%s = _cimport(%r, %r)' % (as_name or name, str(node.module_name), str(name)))

    def s_CascadedAssignmentNode(self, node):
        self.out('_tmp_c = %s' % self.expr(node.rhs))
        for l in node.lhs_list:
            self.assign_to(l, '_tmp_c')

    def s_ParallelAssignmentNode(self, node):
        vals = []
        for k, s in enumerate(node.stats):
            if type(s).__name__ != 'SingleAssignmentNode':
                self.bad(node)
            self.out('_tmp_p%d = %s' % (k, self.expr(s.rhs)))
        for k, s in enumerate(node.stats):
            self.assign_to(s.lhs, '_tmp_p%d' % k)

    def s_InPlaceAssignmentNode(self, node):
        op = node.operator
        rhs = self.expr(node.rhs)
        lhs = node.lhs
        if type(lhs).__name__ == 'NameNode':
            t = self.lookup(lhs.name)
            if t is None or t.kind == 'obj':
                self.out('%s %s= %s' % (lhs.name, op, rhs))
            else:
                self.assign(lhs.name, t, self.binop(op, self.expr(lhs), rhs, lhs, node.rhs))
        elif type(lhs).__name__ == 'IndexNode':
            self.out('%s %s= %s' % (self.expr(lhs), op, rhs))
        else:
            self.out('%s %s= %s' % (self.expr(lhs), op, rhs))

    def s_ReturnStatNode(self, node):
        v = 'None' if node.value is None else self.expr(node.value)
        rt = getattr(self, 'ret', None)
        if rt is not None and rt.kind in ('double', 'int') and node.value is not None:
            v = self.coerce(rt, v)
        self.out('return %s' % v)

    def s_RaiseStatNode(self, node):
        if node.exc_type is None:
            self.out('raise')
        elif getattr(node, 'exc_value', None) is not None:
            self.out('raise %s(%s)' % (self.expr(node.exc_type), self.expr(node.exc_value)))
        else:
            self.out('raise %s' % self.expr(node.exc_type))

    def s_BreakStatNode(self, node):
        self.out('break')

    def s_ContinueStatNode(self, node):
        self.out('continue')

    def s_AssertStatNode(self, node):
        cond = node.condition if hasattr(node, 'condition') else node.cond
        v = getattr(node, 'value', None)
        self.out('assert %s%s' % (self.expr(cond), (', ' + self.expr(v)) if v is not None and not type(v).__name__.startswith('Raise') else ''))

    def s_GlobalNode(self, node):
        self.out('global ' + ', '.join(node.names))

    def s_DelStatNode(self, node):
        self.out('del ' + ', '.join(self.expr(a) for a in node.args))

    def s_GILStatNode(self, node):
        self.stat(node.body)
    s_GILExitNode = s_GILStatNode

    def s_IfStatNode(self, node):
        kw = 'if'
        for c in node.if_clauses:
            self.out('%s %s:' % (kw, self.expr(c.condition)))
            self.block(c.body)
            kw = 'elif'
        if node.else_clause is not None:
            self.out('else:')
            self.block(node.else_clause)

    def s_WhileStatNode(self, node):
        self.out('while %s:' % self.expr(node.condition))
        self.block(node.body)
        if node.else_clause is not None:
            self.out('else:')
            self.block(node.else_clause)

    def s_ForInStatNode(self, node):
        seq = node.iterator.sequence if hasattr(node.iterator, 'sequence') else node.iterator
        tgt = node.target
        if type(tgt).__name__ == 'NameNode' and tgt.name not in self.boxed:
            t = self.lookup(tgt.name)
            self.out('for %s in %s:' % (tgt.name, self.expr(seq)))
            self.ind += 1
            k = len(self.lines)
            if t is not None and t.kind in ('double', 'int'):
                self.out('%s = %s' % (tgt.name, self.coerce(t, tgt.name)))
            self.stat(node.body)
            if len(self.lines) == k:
                self.out('pass')
            self.ind -= 1
        else:
            self.out('for _it in %s:' % self.expr(seq))
            self.ind += 1
            self.assign_to(tgt, '_it')
            self.stat(node.body)
            self.ind -= 1
        if node.else_clause is not None:
            self.out('else:')
            self.block(node.else_clause)

    def s_ForFromStatNode(self, node):
        t = type(node.target).__name__ == 'NameNode' and self.lookup(node.target.name)
        if not t or t.kind != 'int' or node.relation1 not in ('<', '<=') or node.relation2 not in ('<', '<=') or node.else_clause is not None:
            self.bad(node)
        args = [self.expr(node.bound1) + (' + 1' if node.relation1 == '<' else ''), self.expr(node.bound2) + (' + 1' if node.relation2 == '<=' else '')]
        if node.step is not None:
            args.append(self.expr(node.step))
        self.out('for _it in range(%s):' % ', '.join(args))
        self.ind += 1
        self.assign_to(node.target, '_it')
        self.stat(node.body)
        self.ind -= 1

    def s_WithStatNode(self, node):
        m = node.manager
        if type(m).__name__ in ('SimpleCallNode', 'GeneralCallNode') and self.expr(m.function).split('.')[0] == 'cython':
            self.stat(node.body)      # a compiler directive
            return
        self.out('with %s%s:' % (self.expr(m), '' if node.target is None else ' as ' + self.expr(node.target)))
        self.block(node.body)

    def s_TryFinallyStatNode(self, node):
        self.out('try:')
        self.block(node.body)
        self.out('finally:')
        self.block(node.finally_clause)

    def s_TryExceptStatNode(self, node):
        self.out('try:')
        self.block(node.body)
        for c in node.except_clauses:
            if c.pattern:
                s = 'except (%s,)' % ', '.join(self.expr(p) for p in c.pattern)
            else:
                s = 'except Exception'
            if c.target is not None:
                s += ' as ' + c.target.name
            self.out(s + ':')
            self.block(c.body)
        if node.else_clause is not None:
            self.out('else:')
            self.block(node.else_clause)

    # ------------------------------------------------------------ functions
    def lookup(self, name):
        if name in self.types:
            return self.types[name]
        return None

    def s_DefNode(self, node):
        self.function(node.name, node.args, node.body, None, getattr(node, 'star_arg', None), getattr(node, 'starstar_arg', None))

    def s_CFuncDefNode(self, node):
        base = self.base_type(node.base_type)
        name, t, df, fn = self.declared(base, node.declarator)
        self.function(name, fn.args, node.body, t)

    def function(self, name, args, body, ret, star=None, starstar=None):
        saved = self.types
        state = self.in_func, getattr(self, 'ret', None), self.boxed
        self.types = {}
        self.in_func = True
        self.ret = ret
        outer = self.boxed
        self.boxed = set()
        names, sig = [], []
        for a in args:
            base = self.base_type(a.base_type)
            nm, t, df, fn = self.declared(base, a.declarator)
            if not nm:
                # an untyped argument parses as a type with no declarator name
                nm = a.base_type.name
                t = OBJ
            df = a.default if a.default is not None else df
            names.append((nm, t))
            if df is not None:
                self.types, keep = saved, self.types
                s = '%s=%s' % (nm, self.expr(df))
                self.types = keep
            else:
                s = nm
            sig.append(s)
            self.types[nm] = t
        if star is not None:
            sig.append('*' + star.name)
        if starstar is not None:
            sig.append('**' + starstar.name)
        self.find_boxed(body)
        self.out('def %s(%s):' % (name, ', '.join(sig)))
        self.functions.append(name)
        self.ind += 1
        for nm, t in names:
            if t.kind in ('double', 'int', 'mv'):
                self.out('%s = %s' % (nm, self.coerce(t, nm)))
            if nm in self.boxed:
                self.out('%s = _box(%s)' % (nm, nm))
        if outer:
            self.bad(body, 'nested function beside addresses of variables')
        k = len(self.lines)
        self.stat(body)
        if len(self.lines) == k:
            self.out('pass')
        if ret is not None and ret.kind in ('double', 'int'):
            self.out('return _I(0)' if ret.kind == 'int' else 'return _D(0)')
        self.ind -= 1
        self.types = saved
        self.in_func, self.ret, self.boxed = state

    def find_boxed(self, body):
        """Scalars whose address is taken live in a one-element box."""
        from Cython.Compiler.Visitor import TreeVisitor
        me = self

        class V(TreeVisitor):
            def visit_AmpersandNode(self, n):
                if type(n.operand).__name__ == 'NameNode':
                    me.amp_names.add(n.operand.name)
                self.visitchildren(n)

            def visit_Node(self, n):
                self.visitchildren(n)

            def visit_CVarDefNode(self, n):
                base = me.base_type(n.base_type)
                for d in n.declarators:
                    nm, t, df, fn = me.declared(base, d)
                    me.decl_kinds[nm] = t.kind
                self.visitchildren(n)
        self.amp_names, self.decl_kinds = set(), {}
        V().visit(body)
        for nm in self.amp_names:
            kind = self.decl_kinds.get(nm) or (self.types[nm].kind if nm in self.types else None)
            if kind in ('double', 'int'):
                self.boxed.add(nm)

    # ------------------------------------------------------------ expressions
    def expr(self, node):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.bad(node)
        return m(node)

    def e_NameNode(self, n):
        if n.name in self.boxed:
            return '%s[0]' % n.name
        return n.name

    def e_IntNode(self, n):
        v = str(n.value).rstrip('lLuU')
        return str(int(v, 0)) if not v.startswith('0') or v == '0' or v[:2].lower() in ('0x', '0o', '0b') else v

    def e_FloatNode(self, n):
        return '_F(%r)' % str(n.value)

    def e_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def e_NoneNode(self, n):
        return 'None'

    def e_NullNode(self, n):
        return 'None'

    def e_EllipsisNode(self, n):
        return '...'

    def e_UnicodeNode(self, n):
        return repr(str(n.value))
    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.expr(n.obj), n.attribute)

    def index(self, idx):
        t = type(idx).__name__
        if t == 'TupleNode':
            return ', '.join(self.index(a) for a in idx.args) + (',' if len(idx.args) == 1 else '')
        if t == 'SliceNode':
            f = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
            s = f(idx.start) + ':' + f(idx.stop)
            st = f(idx.step)
            return s + (':' + st if st else '')
        return self.expr(idx)

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.expr(n.base), self.index(n.index))

    def e_SliceIndexNode(self, n):
        f = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return '%s[%s:%s]' % (self.expr(n.base), f(n.start), f(n.stop))

    def e_SliceNode(self, n):
        f = lambda x: 'None' if x is None else self.expr(x)
        return 'slice(%s, %s, %s)' % (f(n.start), f(n.stop), f(n.step))

    def e_SimpleCallNode(self, n):
        fn = self.expr(n.function)
        if fn == 'prange':
            return '_prange(%s)' % ', '.join(self.expr(a) for a in n.args)
        return '%s(%s)' % (fn, ', '.join(self.expr(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        fn = self.expr(n.function)
        parts = []
        pos = n.positional_args
        if type(pos).__name__ == 'TupleNode':
            parts += [self.expr(a) for a in pos.args]
        else:
            parts.append('*' + self.expr(pos))
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for item in kw.key_value_pairs:
                    parts.append('%s=%s' % (item.key.value, self.expr(item.value)))
            else:
                parts.append('**' + self.expr(kw))
        if fn in ('prange', 'cython.parallel.prange', 'parallel.prange'):
            parts = [p for p in parts if not p.split('=')[0] in ('nogil', 'chunksize', 'num_threads', 'schedule', 'use_threads_if')]
            return '_prange(%s)' % ', '.join(parts)
        return '%s(%s)' % (fn, ', '.join(parts))

    def kind_of(self, node):
        """Static C kind of an expression when evident, else None."""
        n = type(node).__name__
        if n == 'NameNode':
            t = self.types.get(node.name) or self.module_types.get(node.name)
            return t.kind if t is not None else None
        if n == 'IntNode':
            return 'int'
        if n == 'FloatNode':
            return 'double'
        if n in ('AddNode', 'SubNode', 'MulNode'):
            a, b = self.kind_of(node.operand1), self.kind_of(node.operand2)
            if a == b == 'int':
                return 'int'
            if {a, b} <= {'int', 'double'}:
                return 'double'
            return None
        if n == 'UnaryMinusNode':
            return self.kind_of(node.operand)
        return None

    def binop(self, op, a, b, na, nb):
        if op == '/':
            return '_div(%s, %s)' % (a, b)
        if op in ('//', '%') and self.kind_of(na) == 'int' and self.kind_of(nb) == 'int':
            return '%s(%s, %s)' % ('_cidiv' if op == '//' else '_cimod', a, b)
        return '(%s %s %s)' % (a, op, b)

    def e_binop(self, n):
        return self.binop(n.operator, self.expr(n.operand1), self.expr(n.operand2), n.operand1, n.operand2)
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = e_binop
    e_BitwiseOrNode = e_binop

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.expr(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.expr(n.operand)

    def e_NotNode(self, n):
        return '(not %s)' % self.expr(n.operand)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.expr(n.operand1), n.operator, self.expr(n.operand2))

    def e_PrimaryCmpNode(self, n):
        s = '%s %s %s' % (self.expr(n.operand1), self.cmpop(n.operator), self.expr(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (self.cmpop(c.operator), self.expr(c.operand2))
            c = c.cascade
        return '(%s)' % s

    def cmpop(self, o):
        return {'is_not': 'is not', 'not_in': 'not in', '<>': '!='}.get(o, o)

    def e_CondExprNode(self, n):
        cond = n.test if hasattr(n, 'test') else n.condition
        return '(%s if %s else %s)' % (self.expr(n.true_val), self.expr(cond), self.expr(n.false_val))

    def e_TupleNode(self, n):
        return '(%s)' % (', '.join(self.expr(a) for a in n.args) + (',' if len(n.args) == 1 else ''))

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.expr(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.expr(i.key), self.expr(i.value)) for i in n.key_value_pairs)

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == 'IndexNode':
            return '_addr(%s, (%s,))' % (self.expr(o.base), self.index(o.index).rstrip(','))
        if type(o).__name__ == 'NameNode':
            if o.name in self.boxed:
                return '_addr(%s, (0,))' % o.name
            t = self.lookup(o.name)
            if t is not None and t.kind == 'carr':
                return o.name
        self.bad(n)

    def e_TypecastNode(self, n):
        base = self.base_type(n.base_type)
        _, t, _, _ = self.declared(base, n.declarator)
        s = self.expr(n.operand)
        if t.kind == 'ptr':
            return '_castptr(%s, %r)' % (s, t.base.kind)
        return self.coerce(t, s)

    def e_SizeofTypeNode(self, n):
        base = self.base_type(n.base_type)
        _, t, _, _ = self.declared(base, n.declarator)
        return {'double': '8', 'ptr': '8', 'int': '4'}.get(t.kind) or self.bad(n)

    def e_SizeofVarNode(self, n):
        o = n.operand
        if type(o).__name__ == 'NameNode' and o.name in ('double', 'long'):
            return '8'
        if type(o).__name__ == 'NameNode' and o.name == 'int':
            return '4'
        self.bad(n)

    def e_ComprehensionNode(self, n):
        op, cl = {'list': '[]', 'set': '{}', 'dict': '{}'}.get(str(getattr(n.type, 'name', '')) or 'list', '[]')
        return op + self.comprehension(n.loop) + cl

    def e_GeneratorExpressionNode(self, n):
        return '(%s)' % self.comprehension(n.loop)

    def comprehension(self, loop):
        parts = []
        # names bound here are objects of their own
        bound = set()

        def targets(x):
            if type(x).__name__ == 'NameNode':
                bound.add(x.name)
            else:
                for a in x.args:
                    targets(a)

        def plain(x):
            if type(x).__name__ == 'NameNode':
                return x.name
            return '(%s,)' % ', '.join(plain(a) for a in x.args)
        saved_types, saved_boxed = self.types, self.boxed
        try:
            while True:
                t = type(loop).__name__
                if t == 'StatListNode' and len(loop.stats) == 1:
                    loop = loop.stats[0]
                elif t == 'ForInStatNode' and loop.else_clause is None:
                    seq = loop.iterator.sequence if hasattr(loop.iterator, 'sequence') else loop.iterator
                    seq = self.expr(seq)
                    targets(loop.target)
                    self.types = {k: v for k, v in self.types.items() if k not in bound}
                    self.boxed = self.boxed - bound
                    parts.append('for %s in %s' % (plain(loop.target), seq))
                    loop = loop.body
                elif t == 'IfStatNode' and len(loop.if_clauses) == 1 and loop.else_clause is None:
                    parts.append('if %s' % self.expr(loop.if_clauses[0].condition))
                    loop = loop.if_clauses[0].body
                elif t == 'ComprehensionAppendNode':
                    head = self.expr(loop.expr)
                    break
                elif t == 'DictComprehensionAppendNode':
                    head = '%s: %s' % (self.expr(loop.dict_item.key), self.expr(loop.dict_item.value))
                    break
                elif t == 'ExprStatNode' and type(loop.expr).__name__ == 'YieldExprNode':
                    head = self.expr(loop.expr.arg)
                    break
                else:
                    self.bad(loop, 'in a comprehension')
        finally:
            self.types, self.boxed = saved_types, saved_boxed
        return '%s %s' % (head, ' '.join(parts))

    def e_LambdaNode(self, n):
        if n.star_arg is not None or n.starstar_arg is not None:
            self.bad(n)
        sig, names = [], set()
        for a in n.args:
            nm = a.declarator.name or a.base_type.name
            names.add(nm)
            sig.append(nm if a.default is None else '%s=%s' % (nm, self.expr(a.default)))
        saved_types, saved_boxed = self.types, self.boxed
        self.types = {k: v for k, v in self.types.items() if k not in names}
        self.boxed = self.boxed - names
        body = self.expr(n.result_expr)
        self.types, self.boxed = saved_types, saved_boxed
        return '(lambda %s: %s)' % (', '.join(sig), body)

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.expr(a) for a in n.args)

    def e_JoinedStrNode(self, n):
        return repr('<formatted>')

    def e_FormattedValueNode(self, n):
        return repr('<formatted>')

    def e_CoerceToPyTypeNode(self, n):
        return self.expr(n.arg)

    def e_ImportNode(self, n):
        self.bad(n)


def translate(text, name):
    t = Translator(text, name)
    src = t.run()
    return src, t
