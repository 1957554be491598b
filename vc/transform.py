"""Mechanical transformation of a module of /repo before it is executed symbolically.

What it changes (everything else is the source as it is on disk):
  for-loops        go through engine.Loop (unrolled when concrete, loop rule when symbolic)
  comprehensions   go through engine.comprehension
  [..] displays    make engine.VList (a list subclass that can have symbolic content)
  {} / {..}        make engine-tracked dictionaries / sets
  f(*items)        through the engine (the items may be symbolic)
  'text' % values  through the engine
  generators a contract names as eager (they are free of side effects) return the list of what they yield
  obj.attr = ..    reported to the engine (so that updates inside a symbolic loop are never lost)
Dropped: `if __name__ == '__main__'` blocks and docstrings.
"""
import ast


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)

        def visit_FunctionDef(self, n): out.add(n.name)

        def visit_Lambda(self, n): pass

        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ClassDef(self, n): out.add(n.name)
    for s in body: V().visit(s)
    return sorted(out)


class T(ast.NodeTransformer):
    def __init__(self, eager=()):
        self.n = 0
        self.eager = eager

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('_vc', ast.Load()), name, ast.Load()), list(args), [])

    def site(self, node):
        return ast.Constant((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))

    def visit_FunctionDef(self, node):
        if node.name not in self.eager: return self.generic_visit(node)
        # generator without side effects: the list of what it yields
        out = '_vcG'
        class Y(ast.NodeTransformer):
            def visit_Expr(self, n):
                if isinstance(n.value, ast.Yield):
                    return ast.copy_location(ast.parse('%s.append(None)' % out).body[0], n), n.value.value
                if isinstance(n.value, ast.YieldFrom):
                    return ast.copy_location(ast.parse('%s.extend(None)' % out).body[0], n), n.value.value
                return n
            def fix(self, stmts):
                r = []
                for st in stmts:
                    st = self.visit(st)
                    if isinstance(st, tuple):
                        st, v = st
                        st.value.args = [v]
                    r.append(st)
                return r
            def generic_visit(self, n):
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(n, f, None), list): setattr(n, f, self.fix(getattr(n, f)))
                return n
            def visit_Return(self, n): return ast.parse('return %s' % out).body[0] if n.value is None else n
        Y().generic_visit(node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)): raise SyntaxError('generator of an unknown form')
        node.body = ast.parse('%s = []' % out).body + node.body + ast.parse('return %s' % out).body
        ast.fix_missing_locations(node)
        return self.generic_visit(node)

    def visit_If(self, node):
        if (isinstance(node.test, ast.Compare) and isinstance(node.test.left, ast.Name)
                and node.test.left.id == '__name__'):
            return ast.Pass()
        return self.generic_visit(node)

    def visit_For(self, node):
        site = self.site(node)
        names = assigned_names(node.body)
        tgt = assigned_names([ast.Assign([node.target], ast.Constant(0))])
        names = [n for n in names if n not in tgt]
        node = self.generic_visit(node)
        self.n += 1
        L = '_vcL%d' % self.n
        ld = lambda: ast.Name(L, ast.Load())
        mk = ast.Assign([ast.Name(L, ast.Store())],
                        self.call('Loop', node.iter, site, ast.Tuple([ast.Constant(n) for n in names], ast.Load())))

        def hook(meth):
            return [ast.If(ast.Attribute(ld(), 'sym', ast.Load()),
                           [ast.Try([ast.Assign([ast.Name(n, ast.Store())],
                                                ast.Call(ast.Attribute(ld(), meth, ast.Load()),
                                                         [ast.Constant(n), ast.Name(n, ast.Load())], []))],
                                    [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])],
                                    [], []) for n in names] or [ast.Pass()], [])]
        post = ast.If(ast.Attribute(ld(), 'sym', ast.Load()),
                      [ast.Expr(ast.Call(ast.Attribute(ld(), 'post', ast.Load()),
                                         [ast.Call(ast.Name('locals', ast.Load()), [], [])], []))], [])
        body = hook('enter') + [ast.Try(node.body, [], [], [post])]
        loop = ast.For(node.target, ld(), body, node.orelse)
        after = [ast.Expr(ast.Call(ast.Attribute(ld(), 'after', ast.Load()), [], []))] + hook('out')
        return [mk, loop] + after

    # comprehensions -------------------------------------------------------
    def comp(self, node, elt):
        site = self.site(node)
        gens = node.generators
        # innermost first
        expr = None
        for g in reversed(gens):
            target = g.target
            ifs = [self.visit(i) for i in g.ifs]
            it = self.visit(g.iter)
            if expr is None:
                inner = ast.List([elt], ast.Load())
            else:
                inner = expr
            arg = '_vcx'
            # [inner for target in (x,) if ifs]  flattened
            one = ast.ListComp(inner, [ast.comprehension(target, ast.Tuple([ast.Name(arg, ast.Load())], ast.Load()),
                                                         ifs, 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), self.call('first_or_empty', one))
            expr = self.call('comprehension', lam, it, ast.Constant('list'), site)
        return expr

    def visit_ListComp(self, node):
        return self.comp(node, self.visit(node.elt))

    def visit_GeneratorExp(self, node):
        return self.call('genexp', self.comp(node, self.visit(node.elt)))

    def visit_SetComp(self, node):
        return self.call('VSet', self.comp(node, self.visit(node.elt)))

    def visit_DictComp(self, node):
        return self.call('VDict', self.comp(node, ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())))

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load): return self.call('VList', ast.Tuple(node.elts, ast.Load()))
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys): return node
        return self.call('VDict', ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)],
                                            ast.Load()))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self.call('VSet', ast.Tuple(node.elts, ast.Load()))

    def visit_Assign(self, node):
        self.generic_visit(node)
        out = [node] + self.attrs(node.targets)
        # a, b = seq: unpack symbolic sequences of unknown length through the engine
        if isinstance(node.targets[0], (ast.Tuple, ast.List)) and len(node.targets) == 1:
            tgt = node.targets[0]
            stars = [k for k, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            n = len(tgt.elts)
            node.value = self.call('unpack', node.value, ast.Constant(n), ast.Constant(stars[0] if stars else -1))
        return out

    def attrs(self, targets):
        out = []
        todo = list(targets)
        while todo:
            t = todo.pop(0)
            if isinstance(t, (ast.Tuple, ast.List)): todo.extend(t.elts)
            elif isinstance(t, ast.Starred): todo.append(t.value)
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(self.call('note_attr', ast.fix_missing_locations(ast.copy_location(_load(t.value), t)),
                                              ast.Constant(t.attr))))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return [node] + self.attrs([node.target])

    def visit_BoolOp(self, node):
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        # 'text %d' % values: the text may stay symbolic
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc', ast.Load()), 'fmt', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        # f(*items): the items may be symbolic
        self.generic_visit(node)
        if len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc', ast.Load()), 'star', ast.Load()), [node.func, node.args[0].value], []), node)
        return node


def _load(n):
    return ast.parse(ast.unparse(n), mode='eval').body


def transform(source, filename, eager=()):
    tree = ast.parse(source, filename)
    tree = T(eager).visit(tree)
    return ast.fix_missing_locations(tree)
