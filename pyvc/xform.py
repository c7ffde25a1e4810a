"""Mechanical rewriting of the source of the repository.

What is changed: loops become cut points (helper calls around the same body),
comprehensions become calls with lambdas, list displays become tracked lists,
bare excepts do not catch the signals of the verifier.  Everything else is the
code of the repository, with its line numbers.
"""
import ast


def assigned(nodes):
    """names bound by a list of statements (not in nested scopes)"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)
            for d in n.decorator_list:
                self.visit(d)

        def visit_ClassDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ExceptHandler(self, n):
            for s in n.body:
                self.visit(s)

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def call(name, *args):
    return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), name, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


def load(n):
    return ast.Name(n, ast.Load())


def target_lambda(target, body):
    """lambda for the target of a comprehension; takes one value"""
    def args(names):
        return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
    if isinstance(target, ast.Name):
        return ast.Lambda(args([target.id]), body)
    if isinstance(target, (ast.Tuple, ast.List)):
        names, subs = [], []
        for k, e in enumerate(target.elts):
            if isinstance(e, ast.Name):
                names.append(e.id)
            else:
                names.append('_vcu%d' % k)
                subs.append((e, '_vcu%d' % k))
        for e, n in subs:
            body = ast.Call(target_lambda(e, body), [load(n)], [])
        inner = ast.Lambda(args(names), body)
        return ast.Lambda(args(['_vct']), ast.Call(inner, [ast.Starred(
            call('unpack', load('_vct'), const(len(target.elts))), ast.Load())], []))
    return None


class Rewriter(ast.NodeTransformer):
    def __init__(self, points=()):
        self.points = set(points)
        self.names = [[]]
        self.scope = []
        self.count = [0]
        self.globals = [set()]
        self.uid = 0

    def qual(self):
        return '.'.join(self.scope)

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        self.count.append(0)
        g = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g.update(s.names)
        self.globals.append(g)
        self.names.append([x for x in assigned(n.body) if x not in g])
        n.body = self.block(n.body)
        self.names.pop()
        self.scope.pop()
        self.count.pop()
        self.globals.pop()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        n.body = self.block(n.body)
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _loop(self, n, is_while):
        if len(self.count) == 1:
            return self.generic_visit(n)     # module level
        ordinal = self.count[-1]
        self.count[-1] += 1
        self.uid += 1
        L = '_vcL%d' % self.uid
        names = assigned(([n.target] if not is_while else []) + n.body)
        if is_while:
            names = names + [x for x in assigned([n.test]) if x not in names]
        names = [x for x in names if x not in self.globals[-1]]
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        if is_while:
            begin = call('while_begin', const(self.qual()), const(ordinal))
            test = ast.UnaryOp(ast.Not(), self.visit(n.test))
            nxt = []
        else:
            begin = call('for_begin', const(self.qual()), const(ordinal), self.visit(n.iter))
            test = ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(load(L), 'has_next', ast.Load()), [], []))
            nxt = [ast.Assign([n.target], ast.Call(ast.Attribute(load(L), 'next', ast.Load()), [], []))]
        top = ast.Call(ast.Attribute(load(L), 'top', ast.Load()),
                       [ast.Call(load('locals'), [], []), ast.Tuple([const(x) for x in names], ast.Load())], [])
        head = []
        if names:
            head.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], top))
            for x in names:
                head.append(ast.If(ast.Compare(load(x), [ast.Is()], [ast.Attribute(load('__vc__'), 'UNDEF', ast.Load())]),
                                   [ast.Delete([ast.Name(x, ast.Del())])], []))
        else:
            head.append(ast.Expr(top))
        head.append(ast.If(test, orelse + [ast.Break()], []))
        loop = ast.While(const(True), head + nxt + body, [])
        res = [ast.Assign([ast.Name(L, ast.Store())], begin), loop]
        for r in res:
            ast.copy_location(r, n)
        for r in head + nxt:
            ast.copy_location(r, n)
        return res

    def visit_Assign(self, n):
        """cut points: after the assignment of a variable named by the contract"""
        n = self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Name) and (self.qual(), t.id) in self.points:
            names = self.names[-1]
            top = call('cut', const(self.qual()), const(t.id), ast.Call(load('locals'), [], []), ast.Tuple([const(x) for x in names], ast.Load()))
            out = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], top)]
            for x in names:
                out.append(ast.If(ast.Compare(load(x), [ast.Is()], [ast.Attribute(load('__vc__'), 'UNDEF', ast.Load())]),
                                  [ast.Delete([ast.Name(x, ast.Del())])], []))
            for r in out:
                ast.copy_location(r, n)
            return [n] + out
        return n

    def visit_For(self, n):
        return self._loop(n, False)

    def visit_While(self, n):
        return self._loop(n, True)

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        for h in n.handlers:
            h.body = self.block(h.body)
            if h.type is None:
                h.type = load('Exception')
            elif isinstance(h.type, ast.Name) and h.type.id == 'BaseException':
                h.type = load('Exception')
            else:
                h.type = self.visit(h.type)
        return n

    def _comp(self, n, kind, elt):
        gens = n.generators
        if any(g.is_async for g in gens):
            return n

        def build(k):
            g = gens[k]
            body = elt if k == len(gens) - 1 else build(k + 1)
            lam = target_lambda(g.target, body)
            if lam is None:
                return call('unsupported', const('comprehension'))
            cond = const(None)
            if g.ifs:
                t = self.visit(g.ifs[0]) if len(g.ifs) == 1 else ast.BoolOp(ast.And(), [self.visit(x) for x in g.ifs])
                cond = target_lambda(g.target, t)
            it = self.visit(g.iter)
            return call('comp', const(kind if k == 0 else 'inner'), const(len(gens) - k), lam, it, cond)
        r = build(0)
        ast.copy_location(r, n)
        return r

    def visit_ListComp(self, n):
        return self._comp(n, 'list', self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen', self.visit(n.elt))

    def visit_SetComp(self, n):
        return self._comp(n, 'set', self.visit(n.elt))

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()))

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.generic_visit(n)
        n = self.generic_visit(n)
        if not self.scope or len(self.count) == 1:
            return n
        return ast.copy_location(call('mklist', n), n)

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if not self.scope or len(self.count) == 1:
            return n
        return ast.copy_location(call('mkdict', n), n)

    def visit_Set(self, n):
        n = self.generic_visit(n)
        if len(self.count) == 1:
            return n
        return ast.copy_location(call('mkset', n), n)

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and len(self.count) > 1:
            return ast.copy_location(call('fmt', n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) \
                and len(n.args) == 1 and not n.keywords and len(self.count) > 1:
            return ast.copy_location(call('join', f.value, n.args[0]), n)
        return n

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        # 'in' goes through a helper (the result of __contains__ is a truth value)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and len(self.count) > 1:
            return ast.copy_location(call('contains', n.left, n.comparators[0], const(isinstance(n.ops[0], ast.NotIn))), n)
        return n


def rewrite(src, filename, points=()):
    tree = ast.parse(src, filename)
    tree = Rewriter(points).visit(tree)
    ast.fix_missing_locations(tree)
    return tree
