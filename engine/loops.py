"""AST pass over the lowered / original code: every loop and comprehension of a function goes through the engine hook,
so that a loop over a symbolic collection (or a `while` with a contract) is cut by its invariant.  With no engine
active the hooks are transparent."""
import ast
import copy


def stored_names(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp
    v = V()
    for s in stmts:
        v.visit(s)
    return [n for n in out if not n.startswith('__lp')]


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'add', 'update', 'sort', 'clear', 'popleft', 'appendleft',
            'setdefault', 'discard', 'push', 'reverse', 'push_back', 'push_front', 'pop_front', 'fill'}


def mutated_roots(stmts):
    """root names of subscript stores and mutating method calls inside the loop body"""
    roots = []

    def root(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    for s in stmts:
        for n in ast.walk(s):
            r = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = ast.unparse(n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = ast.unparse(n.func.value)
            if r and r not in roots and r.replace('.', '').replace('_', '').isalnum():
                roots.append(r)
    return roots


class Pass(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.counter = []

    def qual(self):
        return '.'.join(self.stack)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.counter.append(None)
        n.body = [self.visit(s) for s in n.body]
        self.counter.pop()
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.counter.append([0, 0, 0])
        nb = []
        for s in n.body:
            r = self.visit(s)
            nb.extend(r if isinstance(r, list) else [r])
        n.body = nb
        self.counter.pop()
        self.stack.pop()
        return n

    def in_func(self):
        return bool(self.counter) and self.counter[-1] is not None

    def key(self, kind):
        c = self.counter[-1]
        c[kind] += 1
        return '%s#%s%d' % (self.qual(), 'LCD'[kind], c[kind])

    def generic_visit_list(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        key = self.key(0)
        names = stored_names(n.body)
        tnames = stored_names([ast.Expr(n.target)]) if True else []
        roots = mutated_roots(n.body)
        it = self.visit(n.iter)
        body = self.generic_visit_list(n.body)
        orelse = self.generic_visit_list(n.orelse)
        return self.emit(n, key, ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'loop', ast.Load()),
                                          [ast.Constant(key), it, ast.Constant(tuple(roots))], []),
                         names, tnames, n.target, body, orelse)

    def visit_While(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        key = self.key(0)
        names = stored_names(n.body)
        roots = mutated_roots(n.body)
        test = self.visit(n.test)
        body = self.generic_visit_list(n.body)
        orelse = self.generic_visit_list(n.orelse)
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), test)
        return self.emit(n, key, ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'wloop', ast.Load()),
                                          [ast.Constant(key), lam, ast.Constant(tuple(roots))], []),
                         names, [], ast.Name('__lpw', ast.Store()), body, orelse)

    def emit(self, n, key, call, names, tnames, target, body, orelse):
        lp = '__lp%d' % n.lineno + '_' + str(abs(hash(key)) % 9973)
        lp = '__lp_' + key.split('#')[-1]
        hv = [ast.Assign([ast.Name(x, ast.Store())],
                         ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), 'hv', ast.Load()), [ast.Constant(x)], []))
              for x in names if x not in tnames]
        out = [ast.Assign([ast.Name(lp, ast.Store())], call)]
        if hv:
            out.append(ast.If(ast.Attribute(ast.Name(lp, ast.Load()), 'cut', ast.Load()), hv, []))
        out.append(ast.For(target, ast.Name(lp, ast.Load()), body, orelse))
        for s in out:
            for x in ast.walk(s):
                if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = n.lineno
                    x.col_offset = x.end_col_offset = 0
        return out

    def comp(self, n, kind):
        if not self.in_func() or len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return self.generic_visit(n)
        key = self.key(1) if kind != 'dict' else '%s#D%d' % (self.qual(), n.lineno)      # comprehensions are counted without them
        it = self.visit(g.iter)
        # [elt for t in it if c]  ->  [elt for t in __eng__.citer(key, it, elt-fn, cond-fn)] when concrete:
        # the hook returns a symbolic result only when `it` is symbolic
        elt = self.visit(n.elt)
        conds = [self.visit(c) for c in g.ifs]

        def fn(body):
            t = copy.deepcopy(g.target)
            # a lambda with tuple unpacking: use a one element comprehension as the binder
            arg = ast.arguments([], [ast.arg('__e', None)], None, [], [], None, [])
            inner = ast.Subscript(ast.ListComp(body, [ast.comprehension(t, ast.List([ast.Name('__e', ast.Load())],
                                                                                  ast.Load()), [], 0)]),
                                  ast.Constant(0), ast.Load())
            return ast.Lambda(arg, inner)
        cond = ast.BoolOp(ast.And(), conds) if len(conds) > 1 else conds[0] if conds else None
        call = ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'comp', ast.Load()),
                        [ast.Constant(key), ast.Constant(kind), it, fn(elt), fn(cond) if cond is not None else
                         ast.Constant(None)], [])
        return ast.copy_location(call, n)

    def visit_ListComp(self, n):
        return self.comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def visit_SetComp(self, n):
        return self.comp(n, 'set')

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'fmt', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_DictComp(self, n):
        """{k: v for ...}: made of its pairs"""
        if not self.in_func() or len(n.generators) != 1 or n.generators[0].is_async or n.key is None:
            return self.generic_visit(n)
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        call = self.comp(ast.copy_location(ast.GeneratorExp(pair, n.generators), n), 'dict')
        if isinstance(call, ast.GeneratorExp):
            return ast.copy_location(ast.DictComp(call.elt.elts[0], call.elt.elts[1], call.generators), n)
        return call

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        n.value = ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'many', ast.Load()), [n.value], [])
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        if self.in_func() and not any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'mkset', ast.Load()),
                                              [ast.List(n.elts, ast.Load())], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.in_func() and not n.keys:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'mkdict', ast.Load()),
                                              [n], []), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if self.in_func() and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__eng__', ast.Load()), 'mklist', ast.Load()),
                                              [n], []), n)
        return n


def transform(tree, modname):
    t = Pass(modname).visit(tree)
    ast.fix_missing_locations(t)
    return t
