"""
Mechanical lowering of the repository's Cython sources (.pyx + matching .pxd) to Python AST.

The input is parsed by Cython's own parser (the one that compiles the extensions), the output is a Python
module that executes the same statements.  What is dropped or changed is exactly:
  * C declarations become run-time coercions (`__rt__.f8` double, `__rt__.ci` C integer, `__rt__.ext` extension
    type check, memoryviews pass through as numpy arrays / symbolic arrays);
  * C integers are mathematical integers (no wrap-around), `nogil`, `inline`, visibility, exception clauses and
    compiler directives are dropped, bounds are NOT checked by the C code but become obligations / IndexErrors here;
  * `/` between two C integers becomes C division (`__rt__.cdiv`), casts become `__rt__.cast_*`;
  * pointers `&a[i]` become `__rt__.Ptr(a, i)`, `&x` of a local or attribute becomes a reference cell;
  * annotations are dropped.
Anything the translator does not know raises `LoweringError` (the unit is then "undecided", never "verified").
"""
import ast
import os
import warnings

INT_TYPES = {'int', 'long', 'short', 'char', 'bint', 'Py_ssize_t', 'size_t', 'SIZE_t', 'INT32_t', 'UINT32_t',
             'np.int32_t', 'np.int64_t', 'np.npy_int32', 'np.npy_uint32', 'np.npy_int64', 'int32_t', 'int64_t',
             'np.intp_t'}
FLT_TYPES = {'double', 'float', 'DTYPE_t', 'DOUBLE_t', 'np.float64_t', 'np.float32_t', 'np.npy_float64'}
BUILTIN_EXT = {'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'str': 'str', 'set': 'set', 'type': 'type'}


class LoweringError(Exception):
    pass


def cython_parse(path, modname, pxd):
    from Cython.Compiler import Options, Main
    from Cython.Compiler.Main import Context, CompilationOptions
    from Cython.Compiler.Scanning import FileSourceDescriptor
    from Cython.Compiler.Symtab import ModuleScope
    ctx = Context([], Options.get_directive_defaults(), cpp=True, language_level=3,
                  options=CompilationOptions(Main.default_options))
    sd = FileSourceDescriptor(path, path)
    scope = ModuleScope(modname.split('.')[-1], None, ctx)
    return ctx.parse(sd, scope, pxd=pxd, full_module_name=modname)


class T:
    """A resolved C type: kind in {'obj','f8','int','ext','mv','ptr','void'}"""
    __slots__ = ('kind', 'name', 'elem')

    def __init__(self, kind, name=None, elem=None):
        self.kind, self.name, self.elem = kind, name, elem

    def __repr__(self):
        return 'T(%s,%s)' % (self.kind, self.name)


OBJ = T('obj')


def base_type(n):
    k = type(n).__name__
    if k == 'CSimpleBaseTypeNode':
        if n.name is None:
            return OBJ
        name = '.'.join(list(n.module_path or []) + [n.name])
        if n.is_basic_c_type:
            if n.name in ('double', 'float'):
                return T('f8', name)
            if n.name == 'void':
                return T('void')
            return T('int', name)
        if name in INT_TYPES:
            return T('int', name)
        if name in FLT_TYPES:
            return T('f8', name)
        if name in ('object', 'np.ndarray', 'np.dtype'):
            return OBJ
        return T('ext', name)
    if k == 'MemoryViewSliceTypeNode':
        return T('mv', None, base_type(n.base_type_node))
    if k == 'TemplatedTypeNode':
        return T('obj', getattr(n.base_type_node, 'name', None))
    if k == 'CTupleBaseTypeNode':
        return T('obj', 'ctuple')
    if k == 'CComplexBaseTypeNode':
        b = base_type(n.base_type)
        _, t = declarator(n.declarator, b)
        return t
    raise LoweringError('base type %s' % k)


def declarator(d, t):
    """-> (CNameDeclaratorNode or CFuncDeclaratorNode, type)"""
    k = type(d).__name__
    if k == 'CNameDeclaratorNode':
        return d, t
    if k == 'CPtrDeclaratorNode':
        return declarator(d.base, T('ptr', None, t))
    if k == 'CFuncDeclaratorNode':
        return d, t
    raise LoweringError('declarator %s' % k)


def N(name):
    return ast.Name(name, ast.Load())


def RT(fn, *args):
    return ast.Call(ast.Attribute(N('__rt__'), fn, ast.Load()), list(args), [])


def C(v):
    return ast.Constant(v)


class FnScope:
    def __init__(self, parent=None):
        self.types = {}     # local name -> T
        self.boxed = set()
        self.ret = None


class Lower:
    def __init__(self, modname, package_has):
        self.modname = modname
        self.fn = None
        self.in_pxd = False
        self.package_has = package_has
        self.class_attrs = {}   # class -> {attr: T}
        self.pxd_class_bases = {}
        self.ext_classes = set()
        self.cls = None
        self.global_types = {}

    # ------------------------------------------------------------------ helpers
    def err(self, n, msg=''):
        raise LoweringError('%s %s at %s' % (type(n).__name__, msg, n.pos[1:] if getattr(n, 'pos', None) else '?'))

    def at(self, node, n):
        if getattr(n, 'pos', None):
            line = n.pos[1]
            for x in ast.walk(node):
                if not hasattr(x, 'lineno') or getattr(x, 'lineno', None) is None:
                    if isinstance(x, (ast.stmt, ast.expr, ast.excepthandler, ast.arg, ast.keyword, ast.alias)):
                        x.lineno = line
                        x.col_offset = 0
                        x.end_lineno = line
                        x.end_col_offset = 0
        return node

    def coerce(self, t, e):
        if t is None or t.kind in ('obj', 'void', 'ptr'):
            return e
        if t.kind == 'f8':
            if isinstance(e, ast.Constant) and type(e.value) in (int, float):
                return C(float(e.value))
            return RT('f8', e)
        if t.kind == 'int':
            if isinstance(e, ast.Constant) and type(e.value) is int:
                return e
            return RT('ci', e)
        if t.kind == 'mv':
            return RT('mv', e, C(t.elem.kind))
        if t.kind == 'ext':
            if t.name in BUILTIN_EXT:
                return RT('ext', e, N(t.name))
            return RT('ext', e, C(t.name), RT_globals())
        raise LoweringError('coerce %s' % t)

    # ------------------------------------------------------------------ light type inference (C int-ness only)
    def is_cint(self, n):
        k = type(n).__name__
        if k == 'IntNode':
            return True
        if k == 'NameNode':
            t = (self.fn.types.get(n.name) if self.fn else None) or self.global_types.get(n.name)
            return bool(t and t.kind == 'int')
        if k in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode'):
            return self.is_cint(n.operand1) and self.is_cint(n.operand2)
        if k == 'TypecastNode':
            return self.cast_type(n).kind == 'int'
        if k == 'IndexNode':
            b = n.base
            if type(b).__name__ == 'AttributeNode' and b.attribute == 'shape':
                return True
            if type(b).__name__ == 'NameNode' and self.fn:
                t = self.fn.types.get(b.name)
                return bool(t and t.kind in ('mv', 'ptr') and t.elem and t.elem.kind == 'int')
            if type(b).__name__ == 'AttributeNode' and type(b.obj).__name__ == 'NameNode' and b.obj.name == 'self':
                t = self.class_attrs.get(self.cls, {}).get(b.attribute)
                return bool(t and t.kind == 'mv' and t.elem.kind == 'int')
        if k == 'AttributeNode' and type(n.obj).__name__ == 'NameNode' and n.obj.name == 'self':
            t = self.class_attrs.get(self.cls, {}).get(n.attribute)
            return bool(t and t.kind == 'int')
        if k == 'UnaryMinusNode':
            return self.is_cint(n.operand)
        if k == 'SimpleCallNode' and type(n.function).__name__ == 'NameNode' and n.function.name == 'len':
            return True
        return False

    def is_cflt(self, n):
        k = type(n).__name__
        if k == 'FloatNode':
            return True
        if k == 'NameNode':
            t = (self.fn.types.get(n.name) if self.fn else None) or self.global_types.get(n.name)
            return bool(t and t.kind == 'f8')
        if k in ('AddNode', 'SubNode', 'MulNode', 'DivNode'):
            a, b = n.operand1, n.operand2
            return (self.is_cflt(a) and (self.is_cflt(b) or self.is_cint(b))) or (self.is_cint(a) and self.is_cflt(b))
        if k == 'TypecastNode':
            return self.cast_type(n).kind == 'f8'
        if k == 'IndexNode':
            b = n.base
            if type(b).__name__ == 'NameNode' and self.fn:
                t = self.fn.types.get(b.name)
                return bool(t and t.kind in ('mv', 'ptr') and t.elem and t.elem.kind == 'f8')
            if type(b).__name__ == 'AttributeNode' and type(b.obj).__name__ == 'NameNode' and b.obj.name == 'self':
                t = self.class_attrs.get(self.cls, {}).get(b.attribute)
                return bool(t and t.kind == 'mv' and t.elem.kind == 'f8')
        if k == 'AttributeNode' and type(n.obj).__name__ == 'NameNode':
            cls = self.cls if n.obj.name == 'self' else None
            if n.obj.name != 'self' and self.fn and self.fn.types.get(n.obj.name) is not None:
                cls = self.fn.types[n.obj.name].name
            t = self.class_attrs.get(cls, {}).get(n.attribute)
            return bool(t and t.kind == 'f8')
        if k == 'UnaryMinusNode':
            return self.is_cflt(n.operand)
        return False

    def cast_type(self, n):
        b = base_type(n.base_type)
        _, t = declarator(n.declarator, b)
        return t

    # ------------------------------------------------------------------ expressions
    def e(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.err(n, 'expression')
        return self.at(m(n), n)

    def e_NameNode(self, n):
        if self.fn and n.name in self.fn.boxed:
            return ast.Attribute(N(n.name), 'v', ast.Load())
        return N(n.name)

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), n.attribute, ast.Load())

    def e_IntNode(self, n):
        v = n.value
        s = str(v).rstrip('UuLl')
        return C(int(s, 0))

    def e_FloatNode(self, n):
        return C(float(n.value))

    def e_BoolNode(self, n):
        return C(bool(n.value))

    def e_NoneNode(self, n):
        return C(None)

    def e_EllipsisNode(self, n):
        return C(Ellipsis)

    def e_UnicodeNode(self, n):
        return C(str(n.value))

    def e_StringNode(self, n):
        v = n.unicode_value if getattr(n, 'unicode_value', None) is not None else n.value
        return C(str(v))

    def e_IdentifierStringNode(self, n):
        return C(str(n.value))

    def e_BytesNode(self, n):
        return C(bytes(n.value, 'latin1') if isinstance(n.value, str) else bytes(n.value))

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(a) for a in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(a) for a in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_AsTupleNode(self, n):
        return ast.Call(N('tuple'), [self.e(n.arg)], [])

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        k = type(pa).__name__
        if k == 'TupleNode':
            args = [self.e(a) for a in pa.args]
        elif k == 'AsTupleNode':
            args = [ast.Starred(self.e(pa.arg), ast.Load())]
        elif k == 'AddNode':
            def flat(x):
                if type(x).__name__ == 'AddNode':
                    return flat(x.operand1) + flat(x.operand2)
                if type(x).__name__ == 'TupleNode':
                    return [self.e(a) for a in x.args]
                if type(x).__name__ == 'AsTupleNode':
                    return [ast.Starred(self.e(x.arg), ast.Load())]
                self.err(x, 'star args')
            args = flat(pa)
        else:
            args = [ast.Starred(self.e(pa), ast.Load())]
        kws = []
        ka = n.keyword_args
        if ka is not None:
            if type(ka).__name__ == 'DictNode':
                for i in ka.key_value_pairs:
                    kws.append(ast.keyword(i.key.value if isinstance(i.key.value, str) else str(i.key.value),
                                           self.e(i.value)))
            elif type(ka).__name__ == 'MergedDictNode':
                for x in ka.keyword_args:
                    if type(x).__name__ == 'DictNode':
                        for i in x.key_value_pairs:
                            kws.append(ast.keyword(str(i.key.value), self.e(i.value)))
                    else:
                        kws.append(ast.keyword(None, self.e(x)))
            else:
                kws.append(ast.keyword(None, self.e(ka)))
        return ast.Call(self.e(n.function), args, kws)

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SliceIndexNode(self, n):
        return ast.Subscript(self.e(n.base), ast.Slice(self.e(n.start) if n.start else None,
                                                       self.e(n.stop) if n.stop else None, None), ast.Load())

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n.test), self.e(n.true_val), self.e(n.false_val))

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'in': ast.In,
           'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot, '<>': ast.NotEq}

    def e_PrimaryCmpNode(self, n):
        ops, cmps = [self.CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(self.CMP[c.operator]())
            cmps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cmps)

    BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
           '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}

    def bin(self, n, op=None):
        op = op or n.operator
        a, b = self.e(n.operand1), self.e(n.operand2)
        if op == '/':
            ia, ib = self.is_cint(n.operand1), self.is_cint(n.operand2)
            if ia and ib:
                return RT('cdiv', a, b)
            fa, fb = self.is_cflt(n.operand1), self.is_cflt(n.operand2)
            if (fa and (fb or ib)) or (ia and fb):
                return RT('fdiv', a, b)      # C double division: IEEE, no ZeroDivisionError
            return ast.BinOp(a, ast.Div(), b)
        if op == '**' and (self.is_cint(n.operand1) or self.is_cflt(n.operand1)) \
                and (self.is_cint(n.operand2) or self.is_cflt(n.operand2)):
            return RT('pow', a, b)
        if op == '%' and self.is_cint(n.operand1) and self.is_cint(n.operand2):
            return RT('cmod', a, b)
        return ast.BinOp(a, self.BIN[op](), b)

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = bin

    def e_TypecastNode(self, n):
        t = self.cast_type(n)
        v = self.e(n.operand)
        if t.kind == 'f8':
            return RT('cast_f8', v)
        if t.kind == 'int':
            return RT('cast_int', v)
        return v

    def e_AmpersandNode(self, n):
        o = n.operand
        k = type(o).__name__
        if k == 'IndexNode':
            return RT('Ptr', self.e(o.base), self.e(o.index))
        if k == 'NameNode':
            if self.fn is None or o.name not in self.fn.boxed:
                self.err(n, 'address of unboxed name')
            return N(o.name)
        if k == 'AttributeNode':
            return RT('AttrRef', self.e(o.obj), C(o.attribute))
        self.err(n)

    def e_LambdaNode(self, n):
        saved = self.fn
        self.fn = FnScope()
        args, pre = self.args(n.args, n.star_arg, n.starstar_arg)
        r = self.e(n.result_expr)
        self.fn = saved
        if pre:
            self.err(n, 'typed lambda')
        return ast.Lambda(args, r)

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                conv = -1 if not v.conversion_char else ord(v.conversion_char)
                spec = None
                if v.format_spec is not None:
                    fs = self.e(v.format_spec)
                    spec = fs if isinstance(fs, ast.JoinedStr) else ast.JoinedStr([fs])
                vals.append(ast.FormattedValue(self.e(v.value), conv, spec))
            else:
                vals.append(C(str(v.value)))
        return ast.JoinedStr(vals)

    def e_YieldExprNode(self, n):
        return ast.Yield(self.e(n.arg) if n.arg is not None else None)

    def e_YieldFromExprNode(self, n):
        return ast.YieldFrom(self.e(n.arg))

    def comp_gens(self, loop):
        """loop: nested ForInStat/IfStat ending in an append node"""
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(self.target(cur.target), self.iter(cur.iterator), [], 0))
                cur = cur.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == 'StatListNode' and len(cur.stats) == 1:
                cur = cur.stats[0]
            else:
                return gens, cur

    def e_ComprehensionNode(self, n):
        gens, app = self.comp_gens(n.loop)
        k = type(app).__name__
        if k == 'DictComprehensionAppendNode':
            return ast.DictComp(self.e(app.key_expr), self.e(app.value_expr), gens)
        if k == 'ComprehensionAppendNode':
            t = getattr(n, 'type', None)
            tn = str(t)
            if 'set' in tn:
                return ast.SetComp(self.e(app.expr), gens)
            return ast.ListComp(self.e(app.expr), gens)
        self.err(app, 'comprehension')

    def e_GeneratorExpressionNode(self, n):
        gens, app = self.comp_gens(n.loop)
        if type(app).__name__ == 'ExprStatNode':
            app = app.expr
        return ast.GeneratorExp(self.e(app.arg), gens)

    def e_IteratorNode(self, n):
        return self.e(n.sequence)

    def e_ImportNode(self, n):
        self.err(n)

    def iter(self, n):
        return self.e(n.sequence) if type(n).__name__ == 'IteratorNode' else self.e(n)

    # ------------------------------------------------------------------ targets
    def target(self, n):
        k = type(n).__name__
        if k == 'NameNode':
            if self.fn and n.name in self.fn.boxed:
                return ast.Attribute(N(n.name), 'v', ast.Store())
            return ast.Name(n.name, ast.Store())
        if k == 'AttributeNode':
            return ast.Attribute(self.e(n.obj), n.attribute, ast.Store())
        if k == 'IndexNode':
            return ast.Subscript(self.e(n.base), self.e(n.index), ast.Store())
        if k == 'SliceIndexNode':
            x = self.e(n)
            x.ctx = ast.Store()
            return x
        if k in ('TupleNode', 'ListNode'):
            return ast.Tuple([self.target(a) for a in n.args], ast.Store())
        if k == 'StarredUnpackingNode' or k == 'StarredTargetNode':
            return ast.Starred(self.target(n.target), ast.Store())
        self.err(n, 'target')

    def ltype(self, n):
        if type(n).__name__ == 'NameNode' and self.fn:
            return self.fn.types.get(n.name)
        if type(n).__name__ == 'NameNode' and self.fn is None:
            return self.global_types.get(n.name)
        return None

    # ------------------------------------------------------------------ statements
    def body(self, n):
        r = self.s(n)
        return r or [ast.Pass()]

    def s(self, n):
        if n is None:
            return []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.err(n, 'statement')
        r = m(n)
        if not isinstance(r, list):
            r = [r]
        for x in r:
            self.at(x, n)
        return r

    def s_StatListNode(self, n):
        out = []
        for x in n.stats:
            out.extend(self.s(x))
        return out

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ == 'GeneralCallNode' or True:
            return ast.Expr(self.e(n.expr))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def post_coerce(self, lhs):
        """statements re-coercing names inside a tuple target"""
        out = []
        k = type(lhs).__name__
        if k in ('TupleNode', 'ListNode'):
            for a in lhs.args:
                out += self.post_coerce(a)
        elif k == 'NameNode':
            t = self.ltype(lhs)
            if t is not None and t.kind in ('f8', 'int', 'ext'):
                out.append(ast.Assign([self.target(lhs)], self.coerce(t, self.e(lhs))))
        return out

    def s_SingleAssignmentNode(self, n):
        lhs, rhs = n.lhs, n.rhs
        if type(rhs).__name__ == 'ImportNode':
            name = str(rhs.module_name.value)
            return ast.Import([ast.alias(name, lhs.name if lhs.name != name.split('.')[0] or '.' in name else None)])
        t = self.ltype(lhs)
        v = self.e(rhs)
        if t is not None:
            return ast.Assign([self.target(lhs)], self.coerce(t, v))
        out = [ast.Assign([self.target(lhs)], v)]
        if type(lhs).__name__ in ('TupleNode', 'ListNode'):
            out += self.post_coerce(lhs)
        return out

    def s_CascadedAssignmentNode(self, n):
        tmp = '__casc'
        out = [ast.Assign([ast.Name(tmp, ast.Store())], self.e(n.rhs))]
        for l in n.lhs_list:
            out.append(ast.Assign([self.target(l)], self.coerce(self.ltype(l), N(tmp))))
        return out

    def s_InPlaceAssignmentNode(self, n):
        class B:
            pass
        b = B()
        b.operand1, b.operand2, b.operator = n.lhs, n.rhs, n.operator
        t = self.ltype(n.lhs)
        op = n.operator
        if op == '/' or op == '**' or (t is not None and t.kind in ('f8', 'int')):
            if type(n.lhs).__name__ not in ('NameNode', 'AttributeNode', 'IndexNode'):
                self.err(n)
            return ast.Assign([self.target(n.lhs)], self.coerce(t, self.bin(b, op)))
        return ast.AugAssign(self.target(n.lhs), self.BIN[op](), self.e(n.rhs))

    def s_CVarDefNode(self, n):
        b = base_type(n.base_type)
        out = []
        for d in n.declarators:
            dn, t = declarator(d, b)
            if type(dn).__name__ == 'CFuncDeclaratorNode':
                continue
            tbl = self.fn.types if self.fn else self.global_types
            tbl[dn.name] = t
            if dn.default is not None:
                class F:
                    pass
                x = F()
                v = self.coerce(t, self.e(dn.default))
                if self.fn and dn.name in self.fn.boxed:
                    out.append(ast.Assign([ast.Attribute(N(dn.name), 'v', ast.Store())], v))
                else:
                    out.append(ast.Assign([ast.Name(dn.name, ast.Store())], v))
        return out

    def s_ReturnStatNode(self, n):
        if n.value is None:
            return ast.Return(None)
        return ast.Return(self.coerce(self.fn.ret if self.fn else None, self.e(n.value)))

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [self.at(ast.If(self.e(c.condition), self.body(c.body), orelse), c)]
        return orelse[0]

    def s_ForInStatNode(self, n):
        tgt = self.target(n.target)
        pre = self.post_coerce_target_loop(n.target)
        return ast.For(tgt, self.iter(n.iterator), pre + self.body(n.body),
                       self.body(n.else_clause) if n.else_clause is not None else [])

    def post_coerce_target_loop(self, t):
        # only extension-type / double loop variables need a coercion; integer range variables do not
        if type(t).__name__ == 'NameNode':
            ty = self.ltype(t)
            if ty is not None and ty.kind in ('f8', 'ext'):
                return [ast.Assign([self.target(t)], self.coerce(ty, self.e(t)))]
            return []
        return [s for s in self.post_coerce(t)]

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body),
                         self.body(n.else_clause) if n.else_clause is not None else [])

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            return ast.Raise(None, None)
        return ast.Raise(self.e(n.exc_type), self.e(n.cause) if n.cause is not None else None)

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'condition', None) or n.cond
        return ast.Assert(self.e(cond), self.e(n.value) if n.value is not None else None)

    def s_DelStatNode(self, n):
        r = []
        for a in n.args:
            t = self.target(a)
            t.ctx = ast.Del()
            r.append(t)
        return ast.Delete(r)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            ty = None
            if c.pattern:
                ps = [self.e(p) for p in c.pattern]
                ty = ps[0] if len(ps) == 1 else ast.Tuple(ps, ast.Load())
            hs.append(self.at(ast.ExceptHandler(ty, c.target.name if c.target is not None else None,
                                                self.body(c.body)), c))
        return ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause is not None else [], [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.body(n.body), [], [], self.body(n.finally_clause))

    def s_WithStatNode(self, n):
        return ast.With([ast.withitem(self.e(n.manager), self.target(n.target) if n.target else None)],
                        self.body(n.body))

    def s_GILStatNode(self, n):
        return self.s(n.body)

    def s_GlobalNode(self, n):
        return ast.Global(list(n.names))

    def s_CImportStatNode(self, n):
        return []

    CIMPORT_SKIP = {'DTYPE_t', 'SIZE_t', 'DOUBLE_t', 'INT32_t', 'UINT32_t'}

    def s_FromCImportStatNode(self, n):
        if n.module_name in ('libc.math', 'libc.stdio'):
            out = []
            for (_, name, as_name, kind) in n.imported_names:
                out.append(ast.Assign([ast.Name(as_name or name, ast.Store())],
                                      ast.Attribute(ast.Attribute(N('__rt__'), 'libc', ast.Load()), name, ast.Load())))
            return out
        if n.module_name.startswith(('libc', 'cython', 'numpy', 'cpython')):
            return []
        names = [(x[1], x[2]) for x in n.imported_names if x[1] not in self.CIMPORT_SKIP]
        if not names:
            return []
        for nm, _ in names:
            if nm[:1].isupper():
                pass
        return ast.ImportFrom(n.module_name or None, [ast.alias(a, b) for a, b in names],
                              n.relative_level if n.relative_level and n.relative_level > 0 else 0)

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lvl = n.module.level
        lvl = lvl if lvl and lvl > 0 else 0
        names = []
        for nm, node in n.items:
            nm = str(nm)
            names.append(ast.alias(nm, node.name if node.name != nm else None))
        return ast.ImportFrom(mod or None, names, lvl)

    def s_CTypeDefNode(self, n):
        return []

    def s_CClassDefNode(self, n):
        name = n.class_name
        self.ext_classes.add(name)
        bases = [self.e(b) for b in n.bases.args] if n.bases is not None else []
        if not bases and name in self.pxd_class_bases and self.pxd_class_bases[name]:
            bases = [N(b) for b in self.pxd_class_bases[name]]
        if not bases:
            bases = [ast.Attribute(N('__rt__'), 'CObject', ast.Load())]
        saved, self.cls = self.cls, name
        body = self.class_body(n.body)
        attrs = self.class_attrs.get(name, {})
        pre = [ast.Assign([ast.Name('__ctypes__', ast.Store())],
                          ast.Dict([C(a) for a in attrs], [C((t.kind, t.name, t.elem.kind if t.elem else None))
                                                           for t in attrs.values()]))]
        self.cls = saved
        if n.doc is not None:
            pre.insert(0, ast.Expr(C(str(n.doc))))
        cd = ast.ClassDef(name, bases, [], pre + body, [])
        return cd

    def class_body(self, b):
        saved, self.fn = self.fn, None
        gt, self.global_types = self.global_types, {}
        out = []
        for x in (b.stats if type(b).__name__ == 'StatListNode' else [b] if b is not None else []):
            if type(x).__name__ == 'CVarDefNode':
                continue
            if type(x).__name__ == 'PropertyNode':
                self.err(x)
            # Cython turns a class level `parse = Cls.fromstring` into a post-creation assignment
            r = self.s(x)
            for st in r:
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Attribute) \
                        and isinstance(st.value.value, ast.Name) and st.value.value.id == self.cls:
                    st.value = N(st.value.attr)
            out.extend(r)
        self.fn = saved
        self.global_types = gt
        return out

    def s_PyClassDefNode(self, n):
        bases = []
        if n.bases is not None and hasattr(n.bases, 'args'):
            bases = [self.e(b) for b in n.bases.args]
        body = self.class_body(n.body)
        pre = [ast.Expr(C(str(n.doc)))] if n.doc is not None and isinstance(n.doc, str) else []
        body = [s for s in body if not (isinstance(s, ast.Expr) and type(s.value).__name__ == 'Pass')]
        return ast.ClassDef(n.name, bases, [], (pre + body) or [ast.Pass()], [])

    def s_PyClassNamespaceNode(self, n):
        return []

    # ------------------------------------------------------------------ functions
    def args(self, args, star, starstar):
        a = ast.arguments([], [], None, [], [], None, [])
        pre = []
        for x in args:
            b = base_type(x.base_type)
            d, t = declarator(x.declarator, b)
            name = d.name
            if not name and t.kind == 'ext':      # untyped argument parsed as a bare type name
                name, t = t.name, OBJ
            elif not name:
                bt = x.base_type
                name, t = bt.name, OBJ
            if getattr(x, 'annotation', None) is not None and t.kind == 'obj':
                t = OBJ
            self.fn.types[name] = t
            dflt = x.default
            if dflt is None and getattr(d, 'default', None) is not None:
                dflt = d.default
            if x.kw_only:
                a.kwonlyargs.append(ast.arg(name, None))
                a.kw_defaults.append(self.e(dflt) if dflt is not None else None)
            else:
                a.args.append(ast.arg(name, None))
                if dflt is not None:
                    a.defaults.append(self.e(dflt))
            is_self = x is args[0] and (x.is_self_arg or (self.cls is not None and t.kind == 'ext' and t.name == self.cls
                                                          and name == 'self'))
            if t.kind in ('f8', 'int', 'ext', 'mv') and not is_self and name != 'self':
                pre.append(ast.Assign([ast.Name(name, ast.Store())], self.coerce(t, N(name))))
        if star is not None:
            a.vararg = ast.arg(star.name, None)
        if starstar is not None:
            a.kwarg = ast.arg(starstar.name, None)
        return a, pre

    def collect_boxed(self, body):
        out = set()
        par = set()

        def walk(n):
            if type(n).__name__ == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
                out.add(n.operand.name)
            for at in getattr(n, 'child_attrs', None) or ():
                c = getattr(n, at)
                if c is None:
                    continue
                for x in (c if isinstance(c, list) else [c]):
                    if hasattr(x, 'child_attrs'):
                        walk(x)
        walk(body)
        return out

    def func(self, n, name, args, star, starstar, body, decorators, ret, doc):
        saved = self.fn
        self.fn = FnScope()
        self.fn.ret = ret
        self.fn.boxed = self.collect_boxed(body)
        # collect local cdef types first (Cython locals are function scoped)
        self.collect_types(body)
        a, pre = self.args(args, star, starstar)
        b = []
        for x in sorted(self.fn.boxed):
            argnames = [q.arg for q in a.args]
            b.append(ast.Assign([ast.Name(x, ast.Store())], RT('Cell', N(x)) if x in argnames else RT('Cell')))
        b += pre
        b += self.body(body)
        if doc:
            b.insert(0, ast.Expr(C(str(doc))))
        decs = [self.e(d.decorator) for d in (decorators or [])]
        decs = [d for d in decs if not (isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name)
                                        and d.value.id == 'cython')]
        self.fn = saved
        f = ast.FunctionDef(name, a, b, decs, None)
        if hasattr(f, 'type_params') or True:
            f.type_params = []
        return f

    def collect_types(self, body):
        def walk(n):
            if type(n).__name__ == 'CVarDefNode':
                b = base_type(n.base_type)
                for d in n.declarators:
                    dn, t = declarator(d, b)
                    if type(dn).__name__ == 'CNameDeclaratorNode':
                        self.fn.types[dn.name] = t
            for at in getattr(n, 'child_attrs', None) or ():
                c = getattr(n, at)
                if c is None:
                    continue
                for x in (c if isinstance(c, list) else [c]):
                    if hasattr(x, 'child_attrs') and type(x).__name__ not in ('DefNode', 'CFuncDefNode', 'LambdaNode'):
                        walk(x)
        walk(body)

    def s_DefNode(self, n):
        return self.func(n, n.name, n.args, n.star_arg, n.starstar_arg, n.body, n.decorators, None, n.doc)

    def s_CFuncDefNode(self, n):
        b = base_type(n.base_type)
        d, t = declarator(n.declarator, b)
        args = list(d.args)
        decs = n.decorators
        return self.func(n, d.base.name, args, None, None, n.body, decs, t, getattr(n, 'doc', None))

    # ------------------------------------------------------------------ module
    def scan_pxd_class(self, n):
        name = n.class_name
        self.ext_classes.add(name)
        bs = [b.name for b in n.bases.args] if n.bases is not None else []
        if bs or name not in self.pxd_class_bases:
            self.pxd_class_bases[name] = bs
        tbl = self.class_attrs.setdefault(name, {})
        b = n.body
        if b is None:
            return

        def walk(x):
            k = type(x).__name__
            if k == 'StatListNode':
                for y in x.stats:
                    walk(y)
            elif k == 'CVarDefNode':
                bt = base_type(x.base_type)
                for d in x.declarators:
                    dn, t = declarator(d, bt)
                    if type(dn).__name__ == 'CNameDeclaratorNode':
                        tbl[dn.name] = t
        walk(b)

    def module(self, pyx, pxd):
        stats = []
        for tree, is_pxd in ((pxd, True), (pyx, False)):
            if tree is None:
                continue
            body = tree.body
            for x in (body.stats if type(body).__name__ == 'StatListNode' else [body]):
                if type(x).__name__ == 'CClassDefNode':
                    self.scan_pxd_class(x)
        if pxd is not None:
            self.in_pxd = True
            b = pxd.body
            for x in (b.stats if type(b).__name__ == 'StatListNode' else [b]):
                k = type(x).__name__
                if k == 'CClassDefNode':
                    continue
                if k == 'CVarDefNode':
                    bt = base_type(x.base_type)
                    for d in x.declarators:
                        dn, t = declarator(d, bt)
                        if type(dn).__name__ == 'CNameDeclaratorNode':
                            self.global_types[dn.name] = t
                            # pxd-level variables start as C zero; the .pyx assigns them
                            stats.append(self.at(ast.Assign([ast.Name(dn.name, ast.Store())],
                                                            C(0.0 if t.kind == 'f8' else 0 if t.kind == 'int' else None)), x))
                    continue
                stats.extend(self.s(x))
            self.in_pxd = False
        b = pyx.body
        late = []
        for x in (b.stats if type(b).__name__ == 'StatListNode' else [b]):
            stats.extend(self.s(x))
        # extension types exist before any module code runs: hoist class definitions that are used before they
        # are defined (EMPTY = ContinuousSet(...) at the top of intervals.pyx)
        stats = self.hoist(stats)
        m = ast.Module(stats, [])
        for x in ast.walk(m):
            for f, v in ast.iter_fields(x):
                if isinstance(v, str) and type(v) is not str:
                    setattr(x, f, str.__str__(v))
                elif isinstance(v, list):
                    for i, y in enumerate(v):
                        if isinstance(y, str) and type(y) is not str:
                            v[i] = str.__str__(y)
                elif isinstance(v, tuple):
                    x.value = plain(v)
        ast.fix_missing_locations(m)
        return m

    def hoist(self, stats):
        """C types are created at module init, before module code: move module-level statements that *use* an
        extension class at module level after that class' definition."""
        defined_at = {s.name: i for i, s in enumerate(stats) if isinstance(s, ast.ClassDef) and s.name in self.ext_classes}
        out, deferred = [], []
        for i, s in enumerate(stats):
            if not isinstance(s, (ast.ClassDef, ast.FunctionDef, ast.Import, ast.ImportFrom)):
                used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                need = [defined_at[u] for u in used if u in defined_at and defined_at[u] > i]
                # names depending on deferred assignments must be deferred too
                dnames = {t.id for d in deferred for t in ast.walk(d[1]) if isinstance(t, ast.Name)
                          and isinstance(t.ctx, ast.Store)}
                if need or (used & dnames):
                    deferred.append((max(need) if need else max(d[0] for d in deferred), s))
                    continue
            out.append(s)
            if isinstance(s, ast.ClassDef):
                for d in [d for d in deferred if d[0] <= i]:
                    out.append(d[1])
                    deferred.remove(d)
        out += [d[1] for d in deferred]
        return out


def plain(v):
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return str.__str__(v) if isinstance(v, str) else v


def RT_globals():
    return ast.Call(N('globals'), [], [])


def lower_module(pyx_path, modname):
    pxd_path = pyx_path[:-4] + '.pxd'
    pyx = cython_parse(pyx_path, modname, False)
    pxd = cython_parse(pxd_path, modname, True) if os.path.exists(pxd_path) and os.path.getsize(pxd_path) else None
    lo = Lower(modname, None)
    m = lo.module(pyx, pxd)
    return m, lo


if __name__ == '__main__':
    import sys
    m, lo = lower_module(sys.argv[1], sys.argv[2])
    print(ast.unparse(m))
