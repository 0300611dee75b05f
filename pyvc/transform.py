"""Mechanical extraction of the real source: python AST -> python AST with hooks.

Everything the program does is kept.  What changes:
  * every operation that may meet a symbolic value goes through a hook of rtl.py
    (calls, attribute loads, subscripts, `is`, `in`, `%`, displays);
  * `for` loops and comprehensions become calls of rtl.for_ with the body as a
    nested function, so that a loop over a symbolic collection can be executed once
    on a generic element;
  * `list`, `dict`, `set`, `object` as base classes become the heap classes of the
    verifier;
  * a generator function is run eagerly and returns the list of yielded values
    (dropped: interleaving of generator and consumer);
  * bare `except:` becomes `except Exception:`.
"""
import ast
import itertools

VC = '_vcR'


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def hook(fn, *args):
    return ast.Call(ast.Attribute(name(VC), fn, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


class Assigned(ast.NodeVisitor):
    """names bound by statements, in this scope only"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)
        for d in node.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, node):
        pass


def assigned(stmts):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef


def reads_before_write(stmts, names):
    """names possibly read before they are written in one execution of stmts
    (conservative: anything not definitely assigned)"""
    carried = set()
    ns = set(names)

    def expr(e, d):
        """names read in expression"""
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ns and n.id not in d:
                if not _comp_local(e, n):
                    carried.add(n.id)

    def target(t, d):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store):
                    pass
                elif isinstance(n.ctx, ast.Load) and n.id in ns and n.id not in d:
                    carried.add(n.id)
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def run(ss, d):
        """returns definitely assigned after, or None when control never falls through"""
        for s in ss:
            if isinstance(s, ast.Assign):
                expr(s.value, d)
                for t in s.targets:
                    d = d | target(t, d)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    expr(s.value, d)
                    d = d | target(s.target, d)
            elif isinstance(s, ast.AugAssign):
                expr(s.value, d)
                if isinstance(s.target, ast.Name):
                    if s.target.id in ns and s.target.id not in d:
                        carried.add(s.target.id)
                    d = d | {s.target.id}
                else:
                    target(s.target, d)
            elif isinstance(s, ast.If):
                expr(s.test, d)
                a = run(s.body, d)
                b = run(s.orelse, d)
                if a is None and b is None:
                    return None
                d = b if a is None else a if b is None else a & b
            elif isinstance(s, ast.For):
                expr(s.iter, d)
                d2 = d | target(s.target, d)
                run(s.body, d2)
                run(s.orelse, d)
            elif isinstance(s, ast.While):
                expr(s.test, d)
                run(s.body, d)
                run(s.orelse, d)
            elif isinstance(s, ast.Try):
                a = run(s.body, d)
                outs = []
                if a is not None:
                    a2 = run(s.orelse, a)
                    if a2 is not None:
                        outs.append(a2)
                for h in s.handlers:
                    if h.type is not None:
                        expr(h.type, d)
                    r = run(h.body, d | ({h.name} if h.name else set()))
                    if r is not None:
                        outs.append(r)
                if s.finalbody:
                    f = run(s.finalbody, d)
                    if f is None:
                        return None
                if not outs:
                    return None
                d = set.intersection(*[set(o) for o in outs])
            elif isinstance(s, ast.With):
                for it in s.items:
                    expr(it.context_expr, d)
                    if it.optional_vars is not None:
                        d = d | target(it.optional_vars, d)
                r = run(s.body, d)
                if r is None:
                    return None
                d = r
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                # free names of the nested scope, read when it is called (assume at once)
                inner = set(assigned(s.body))
                if isinstance(s, ast.FunctionDef):
                    inner |= {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)}
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ns and n.id not in d \
                            and n.id not in inner and n.id != s.name:
                        carried.add(n.id)
                d = d | {s.name}
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        expr(c, d)
                return None
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    target(t, d)
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        expr(c, d)
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    d = d | {(a.asname or a.name).split('.')[0] for a in s.names}
        return d
    run(stmts, frozenset())
    return carried


def _comp_local(e, nm):
    """is name load nm bound by a comprehension or lambda inside e?"""
    for c in ast.walk(e):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            tg = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            if nm.id in tg and any(x is nm for x in ast.walk(c)):
                return True
        if isinstance(c, ast.Lambda):
            ar = {a.arg for a in ast.walk(c.args) if isinstance(a, ast.arg)}
            if nm.id in ar and any(x is nm for x in ast.walk(c)):
                return True
    return False


class Scope(object):
    def __init__(self, kind, gen=None):
        self.kind = kind        # module / function / class
        self.gen = gen          # name of the list collecting yields
        self.globals = set()
        self.nonlocals = set()
        self.predef = []        # locals that must exist for nested bodies
        self.loop = []          # control flow context


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = itertools.count()
        self.scopes = []
        self.ctl = []           # 'native' / 'body' for the enclosing loop of the statement
        self.cname = []

    def fresh(self, p='t'):
        return '_vc_%s%d' % (p, next(self.n))

    # -- scopes ----------------------------------------------------------------
    def module(self, tree):
        sc = Scope('module')
        self.scopes.append(sc)
        body = self.stmts(tree.body)
        self.scopes.pop()
        pre = []
        tree.body = pre + body
        ast.fix_missing_locations(tree)
        return tree

    def stmts(self, ss):
        out = []
        for s in ss:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_FunctionDef(self, node):
        hy = HasYield()
        for s in node.body:
            hy.visit(s)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.args(node.args)
        sc = Scope('function')
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                sc.globals |= set(s.names)
            if isinstance(s, ast.Nonlocal):
                sc.nonlocals |= set(s.names)
        if hy.found:
            sc.gen = self.fresh('gen')
        self.scopes.append(sc)
        octl, self.ctl = self.ctl, []
        doc = []
        body = list(node.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc = [body.pop(0)]
        new = self.stmts(body) if body else [ast.Pass()]
        self.ctl = octl
        self.scopes.pop()
        pre = []
        if node.args.kwarg:
            pre.append(ast.Assign([name(node.args.kwarg.arg, ast.Store())], hook('KWARGS', name(node.args.kwarg.arg))))
        if sc.predef:
            params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
            names = [n for n in sc.predef if n not in params and n not in sc.globals and n not in sc.nonlocals]
            if names:
                pre.append(ast.If(const(False), [ast.Assign([name(n, ast.Store())], const(None)) for n in names], []))
        if sc.gen:
            pre.append(ast.Assign([name(sc.gen, ast.Store())], hook('GEN')))
            new = new + [ast.Return(hook('GENEND', name(sc.gen)))]
        node.body = doc + pre + new
        node.returns = None
        return node

    def args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in ast.walk(a):
            if isinstance(x, ast.arg):
                x.annotation = None

    def visit_Lambda(self, node):
        self.args(node.args)
        self.scopes.append(Scope('function'))
        node.body = self.visit(node.body)
        self.scopes.pop()
        if node.args.kwarg:
            raise SyntaxError('lambda with ** parameter')
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        bases = [self.visit(b) for b in node.bases]
        # the bases are mapped to the heap classes of the verifier
        node.bases = [ast.Starred(hook('BASES', *bases), ast.Load())]
        node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        self.scopes.append(Scope('class'))
        octl, self.ctl = self.ctl, []
        self.cname.append(node.name)
        node.body = self.stmts(node.body)
        self.cname.pop()
        self.ctl = octl
        self.scopes.pop()
        return node

    # -- statements ------------------------------------------------------------
    def visit_Return(self, node):
        sc = self.scopes[-1]
        v = self.visit(node.value) if node.value is not None else const(None)
        if sc.gen:
            v = hook('GENEND', name(sc.gen))
        if self.ctl and 'body' in self.ctl:
            return ast.Return(hook('RET', v))
        return ast.Return(v)

    def visit_Break(self, node):
        if self.ctl[-1] == 'body':
            return ast.Return(hook('BRK'))
        if self.ctl[-1] == 'native_else':
            return node
        return node

    def visit_Continue(self, node):
        if self.ctl[-1] == 'body':
            return ast.Return(const(None))
        return node

    def visit_While(self, node):
        m = None
        if self.scopes[-1].kind != 'class':
            probe = [ast.Expr(node.test)] + node.body
            names = assigned(probe)
            if not reads_before_write(probe, names) and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for b in node.body for x in ast.walk(b)):
                m = self.fresh('m')
        test = self.visit(node.test)
        self.ctl.append('native')
        body = self.stmts(node.body)
        self.ctl.pop()
        body.insert(0, ast.Expr(hook('TICK')))
        orelse = self.stmts(node.orelse) if node.orelse else []
        out = ast.While(test, body, orelse)
        if m is None:
            return out
        # every iteration assigns the variables it reads: see RETRY
        body.insert(0, ast.Expr(hook('RETRY', name(m))))
        return [ast.Assign([name(m, ast.Store())], hook('LOOPHEAD')), out]

    def visit_For(self, node):
        sc = self.scopes[-1]
        it = self.visit(node.iter)
        if sc.kind == 'class':
            node.iter = hook('NATIVE_ITER', it)
            self.ctl.append('native')
            node.body = self.stmts(node.body)
            self.ctl.pop()
            node.orelse = self.stmts(node.orelse) if node.orelse else []
            return node
        tstmt = ast.Assign([node.target], name('_vc_x'))
        names = assigned([tstmt] + node.body)
        names = [n for n in names if n not in sc.globals]
        carried = reads_before_write([tstmt] + node.body, names)
        for n in names:
            if n not in sc.predef:
                sc.predef.append(n)
        x = self.fresh('x')
        fn = self.fresh('body')
        rd = self.fresh('rd')
        wr = self.fresh('wr')
        r = self.fresh('r')
        self.ctl.append('body')
        tgt = self.visit(node.target)
        body = [ast.Assign([tgt], name(x))] + self.stmts(node.body)
        self.ctl.pop()
        decl = []
        if names:
            decl = [ast.Global(list(names)) if sc.kind == 'module' else ast.Nonlocal(list(names))]
        if sc.kind == 'module' and self.in_loop_body():
            decl = [ast.Global(list(names))] if names else []
        gl = [ast.Global(sorted(sc.globals))] if sc.globals and sc.kind != 'module' else []
        arg = lambda *ns: ast.arguments([], [ast.arg(n) for n in ns], None, [], [], None, [])
        out = [ast.FunctionDef(fn, arg(x), decl + gl + body + [ast.Return(const(None))], [], None, None, type_params=[])]
        if names:
            # reading an unbound local gives MISSING
            rbody = []
            vs = []
            for n in names:
                v = self.fresh('v')
                vs.append(v)
                rbody.append(ast.Try([ast.Assign([name(v, ast.Store())], name(n))],
                                     [ast.ExceptHandler(name('NameError'), None,
                                                        [ast.Assign([name(v, ast.Store())], ast.Attribute(name(VC), 'MISSING', ast.Load()))])], [], []))
            rbody.append(ast.Return(ast.List([name(v) for v in vs], ast.Load())))
            out.append(ast.FunctionDef(rd, arg(), rbody, [], None, None, type_params=[]))
            wb = list(decl)
            for i, n in enumerate(names):
                wb.append(ast.Assign([name(n, ast.Store())], ast.Subscript(name('_vc_vals'), const(i), ast.Load())))
            out.append(ast.FunctionDef(wr, arg('_vc_vals'), wb, [], None, None, type_params=[]))
        call = hook('FOR', it, name(fn),
                    ast.Tuple([const(n) for n in names], ast.Load()),
                    name(rd) if names else const(None), name(wr) if names else const(None),
                    ast.Tuple([const(names.index(n)) for n in sorted(carried)], ast.Load()))
        out.append(ast.Assign([name(r, ast.Store())], call))
        # what happens after the loop
        ret = ast.If(hook('ISRET', name(r)), [self.ret_of(r)], [])
        out.append(ret)
        if node.orelse:
            out.append(ast.If(hook('NOTBRK', name(r)), self.stmts(node.orelse), []))
        return out

    def in_loop_body(self):
        return 'body' in self.ctl

    def ret_of(self, r):
        if self.ctl and 'body' in self.ctl:
            return ast.Return(name(r))
        return ast.Return(ast.Attribute(name(r), 'val', ast.Load()))

    def visit_AugAssign(self, node):
        op = OPN[type(node.op)]
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign([name(t.id, ast.Store())], hook('IOP', const(op), name(t.id), v))
        if isinstance(t, ast.Attribute):
            o = self.fresh('o')
            return [ast.Assign([name(o, ast.Store())], self.visit(t.value)),
                    ast.Assign([ast.Attribute(name(o), t.attr, ast.Store())],
                               hook('IOP', const(op), hook('G', name(o), const(self.mangle(t.attr))), v))]
        o, i = self.fresh('o'), self.fresh('i')
        return [ast.Assign([name(o, ast.Store())], self.visit(t.value)),
                ast.Assign([name(i, ast.Store())], self.visit(t.slice)),
                ast.Assign([ast.Subscript(name(o), name(i), ast.Store())],
                           hook('IOP', const(op), hook('I', name(o), name(i)), v))]

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None
        return self.visit(ast.Assign([node.target], node.value))

    def visit_Try(self, node):
        node.body = self.stmts(node.body)
        node.orelse = self.stmts(node.orelse) if node.orelse else []
        node.finalbody = self.stmts(node.finalbody) if node.finalbody else []
        hs = []
        for h in node.handlers:
            nm = h.name or self.fresh('e')
            ty = self.visit(h.type) if h.type is not None else name('Exception')
            hs.append(ast.ExceptHandler(hook('EXC', ty) if h.type is not None else ty, nm,
                                        [ast.Expr(hook('CHK', name(nm)))] + self.stmts(h.body)))
        node.handlers = hs
        return node

    def visit_Raise(self, node):
        if node.exc is not None:
            node.exc = hook('RAISE', self.visit(node.exc))
        node.cause = None
        return node

    def visit_ImportFrom(self, node):
        if node.module == '__future__':
            return None
        return node

    def visit_Assert(self, node):
        return ast.If(ast.UnaryOp(ast.Not(), self.visit(node.test)),
                      [ast.Raise(hook('RAISE', hook('K', name('AssertionError'))), None)], [])

    # -- expressions -----------------------------------------------------------
    def visit_Yield(self, node):
        v = self.visit(node.value) if node.value is not None else const(None)
        return hook('YIELD', name(self.gen()), v)

    def visit_YieldFrom(self, node):
        return hook('YIELDFROM', name(self.gen()), self.visit(node.value))

    def gen(self):
        return self.scopes[-1].gen

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super':
            if node.args:
                node.args = [self.visit(a) for a in node.args]
                return node
            return node
        if isinstance(node.func, ast.Name) and node.func.id == 'locals':
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if any(k.arg is None for k in kws):
            pos = ast.Tuple(args, ast.Load())
            kk = [k for k in kws if k.arg is not None]
            ex = [k.value for k in kws if k.arg is None]
            return ast.Call(ast.Attribute(name(VC), 'KW', ast.Load()),
                            [f, pos, ast.Tuple(ex, ast.Load())], kk)
        return ast.Call(ast.Attribute(name(VC), 'K', ast.Load()), [f] + args, kws)

    def visit_Starred(self, node):
        return ast.Starred(hook('STAR', self.visit(node.value)), node.ctx)

    def visit_Attribute(self, node):
        v = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            return hook('G', v, const(self.mangle(node.attr)))
        node.value = v
        return node

    def mangle(self, a):
        """the compiler's private name mangling"""
        if a.startswith('__') and not a.endswith('__') and self.cname:
            c = self.cname[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, a)
        return a

    def visit_Subscript(self, node):
        v = self.visit(node.value)
        s = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            return hook('I', v, s)
        node.value = v
        node.slice = s
        return node

    def visit_Slice(self, node):
        f = lambda x: self.visit(x) if x is not None else const(None)
        return ast.Call(name('slice'), [f(node.lower), f(node.upper), f(node.step)], [])

    def visit_BinOp(self, node):
        return hook('BIN', const(OPN[type(node.op)]), self.visit(node.left), self.visit(node.right))

    def visit_UnaryOp(self, node):
        v = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return hook('NOT', v)
        return ast.UnaryOp(node.op, v)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        if len(node.ops) == 1:
            return self.cmp(node.ops[0], left, self.visit(node.comparators[0]))
        # chained comparison
        parts = []
        prev = left
        for op, c in zip(node.ops, node.comparators):
            t = self.fresh('c')
            parts.append(self.cmp(op, prev, ast.NamedExpr(name(t, ast.Store()), self.visit(c))))
            prev = name(t)
        return ast.BoolOp(ast.And(), parts)

    def cmp(self, op, a, b):
        n = {ast.Is: 'IS', ast.IsNot: 'ISNOT', ast.In: 'IN', ast.NotIn: 'NOTIN', ast.Eq: 'EQ', ast.NotEq: 'NE',
             ast.Lt: 'LT', ast.LtE: 'LE', ast.Gt: 'GT', ast.GtE: 'GE'}[type(op)]
        return hook(n, a, b)

    def visit_List(self, node):
        if isinstance(node.ctx, ast.Store):
            return self.generic_visit(node)
        return hook('L', *[self.visit(e) for e in node.elts])

    def visit_Set(self, node):
        return hook('S', *[self.visit(e) for e in node.elts])

    def visit_Dict(self, node):
        args = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                args += [ast.Attribute(name(VC), 'MISSING', ast.Load()), self.visit(v)]
            else:
                args += [self.visit(k), self.visit(v)]
        return hook('D', *args)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else const('')
                parts.append(hook('FMT', self.visit(v.value), const(v.conversion), spec))
        return hook('FSTR', *parts)

    def comp(self, node, kind):
        """comprehension -> COMP*(lambda acc: FOR(iter, lambda x: body))"""
        acc = self.fresh('acc')
        one = lambda *ns: ast.arguments([], [ast.arg(n) for n in ns], None, [], [], None, [])
        self.scopes.append(Scope('function'))

        def bind(target, x, body):
            """lambda x: body, with target bound to x"""
            if isinstance(target, ast.Name):
                return ast.Lambda(one(target.id), body)
            if isinstance(target, (ast.Tuple, ast.List)):
                vs = [self.fresh('u') for _ in target.elts]
                for t, v in reversed(list(zip(target.elts, vs))):
                    if isinstance(t, ast.Starred):
                        raise SyntaxError('starred comprehension target')
                    body = ast.Call(bind(t, v, body), [name(v)], [])
                inner = ast.Lambda(one(*vs), body)
                return ast.Lambda(one(x), ast.Call(inner, [ast.Starred(hook('UNPACK', name(x), const(len(vs))), ast.Load())], []))
            raise SyntaxError('comprehension target')

        def build(gens):
            if not gens:
                if kind == 'dict':
                    return hook('CADDKV', name(acc), self.visit(node.key), self.visit(node.value))
                return hook('CADD', name(acc), self.visit(node.elt))
            g = gens[0]
            it = self.visit(g.iter)
            conds = [self.visit(c) for c in g.ifs]
            body = build(gens[1:])
            for c in reversed(conds):
                body = ast.IfExp(c, body, const(None))
            e = ast.Tuple([], ast.Load())
            return hook('FOR', it, bind(g.target, self.fresh('x'), body), e, const(None), const(None), e)
        body = build(node.generators)
        self.scopes.pop()
        return hook({'list': 'COMP', 'gen': 'COMPG', 'set': 'COMPS', 'dict': 'COMPD'}[kind],
                    ast.Lambda(one(acc), body))

    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_SetComp(self, node):
        return self.comp(node, 'set')

    def visit_DictComp(self, node):
        return self.comp(node, 'dict')


OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
