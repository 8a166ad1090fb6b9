"""
Mechanical extraction: the source text of a /repo module is parsed on every run and
rewritten, node by node, into the same program over engine values.  What is changed:

  for            -> rt.loop(iterable, body closure, get/set of assigned names)
  while          -> while with a step bound (Unsupported beyond it)
  comprehension  -> rt.comp
  is / in / ==   -> rt functions (operands may be symbolic)
  displays       -> rt.mklist / rt.mkdict
  % on strings, f-strings, subscription with symbolic index -> rt functions
  annotations and docstrings are dropped

Everything else is executed as written by CPython.
"""
import ast


def names_stored(nodes):
    """names assigned in the statements (own scope only)"""
    out = []
    exc = set()

    def add(n):
        if n not in out:
            out.append(n)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_ClassDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            self.visit(n.generators[0].iter)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                exc.add(n.name)
            for s in n.body:
                self.visit(s)

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return [n for n in out if n not in exc], exc


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.r = False

    def visit_Yield(self, n):
        self.r = True
    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, n):
        pass
    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef


def has_yield(body):
    v = HasYield()
    for s in body:
        v.visit(s)
    return v.r


class ForNames(ast.NodeVisitor):
    """names assigned by for loops of this function (own scope)"""
    def __init__(self):
        self.names = []

    def visit_For(self, n):
        st, _ = names_stored([n])
        for x in st:
            if x not in self.names:
                self.names.append(x)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        pass
    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef


def rtcall(fn, *args, **kw):
    return ast.Call(
        func=ast.Attribute(value=ast.Name('_rt_', ast.Load()), attr=fn,
                           ctx=ast.Load()),
        args=list(args),
        keywords=[ast.keyword(k, v) for k, v in kw.items()])


def N(x):
    return ast.Name(x, ast.Load())


class Fn:
    def __init__(self, node, gen):
        self.node = node
        self.gen = gen
        self.loopnames = set()
        self.stack = []      # 'sym' / 'native' loops enclosing the statement
        self.first = None
        self.globals = set()


class Xform(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.fns = []
        self.cnt = 0
        self.shadow = []
        self.classes = []

    @property
    def fn(self):
        return self.fns[-1] if self.fns else None

    def where(self, n):
        f = self.fn.node.name if self.fn and hasattr(self.fn.node, 'name') else '?'
        return ast.Constant('%s:%s' % (self.fname, f))

    # -- functions
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        if n.args.vararg:
            n.args.vararg.annotation = None
        if n.args.kwarg:
            n.args.kwarg.annotation = None
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        f = Fn(n, has_yield(body))
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            args.append(n.args.vararg.arg)
        if n.args.kwarg:
            args.append(n.args.kwarg.arg)
        f.first = args[0] if args else None
        fv = ForNames()
        for s in body:
            fv.visit(s)
            for g in ast.walk(s):
                if isinstance(g, (ast.Global, ast.Nonlocal)):
                    f.globals.update(g.names)
        names = [x for x in fv.names if x not in args and x not in f.globals]
        if not f.gen:
            f.loopnames = set(names)
        self.fns.append(f)
        sh, self.shadow = self.shadow, []
        stk = f.stack
        new = self.block(body)
        self.shadow = sh
        self.fns.pop()
        assert f.stack is stk
        init = []
        if not f.gen:
            for x in names:
                init.append(ast.Assign([ast.Name(x, ast.Store())], rt_attr('UNB')))
        n.body = init + new
        if not self.fns:
            n.body.insert(0, ast.Expr(rtcall('entered', ast.Constant(
                '.'.join([self.fname] + self.classes + [n.name])))))
        return n

    def visit_AsyncFunctionDef(self, n):
        raise SyntaxError('async')

    def visit_Lambda(self, n):
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            args.append(n.args.vararg.arg)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        self.shadow.append(set(args))
        n.body = self.visit(n.body)
        self.shadow.pop()
        return n

    def visit_ClassDef(self, n):
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        fns, self.fns = self.fns, []
        self.classes.append(n.name)
        out = []
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        n.body = out or [ast.Pass()]
        self.classes.pop()
        self.fns = fns
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # -- loops
    def visit_For(self, n):
        f = self.fn
        if f is None or f.gen:
            n.iter = rtcall('native_iter', self.visit(n.iter))
            n.target = self.visit(n.target)
            if f:
                f.stack.append('native')
            n.body = self.block(n.body)
            if f:
                f.stack.pop()
            n.orelse = self.block(n.orelse) if n.orelse else []
            return n
        self.cnt += 1
        c = self.cnt
        bn, sn, rn, itn = ('_body_%d_' % c, '_set_%d_' % c, '_r_%d_' % c,
                           '_item_%d_' % c)
        names, exc = names_stored([n])
        names = [x for x in names if x not in f.globals]
        it = self.visit(n.iter)
        f.stack.append('sym')
        body = self.block(n.body)
        f.stack.pop()
        tgt = self.visit(n.target)
        nl = [ast.Nonlocal(list(names))] if names else []
        if f.globals & set(names_stored([n])[0]):
            nl.append(ast.Global(sorted(f.globals & set(names_stored([n])[0]))))

        def args(*a):
            return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in a],
                                 kwonlyargs=[], kw_defaults=[], defaults=[])
        bf = ast.FunctionDef(
            name=bn, args=args(itn), decorator_list=[], returns=None,
            body=nl + [ast.Assign([tgt], N(itn))] + body + [
                ast.Return(ast.Constant(None))], type_params=[])
        sf = ast.FunctionDef(
            name=sn, args=args('_st_'), decorator_list=[], returns=None,
            body=nl + [ast.Assign([ast.Name(x, ast.Store())],
                                  ast.Subscript(N('_st_'), ast.Constant(x),
                                                ast.Load())) for x in names] +
            [ast.Pass()], type_params=[])
        get = ast.Lambda(args(), ast.Dict([ast.Constant(x) for x in names],
                                          [N(x) for x in names]))
        call = ast.Assign([ast.Name(rn, ast.Store())],
                          rtcall('loop', it, N(bn), get, N(sn), self.where(n)))
        outer = f.stack[-1:] if f.stack else []
        if 'sym' in f.stack:
            retv = N(rn)
        else:
            retv = ast.Attribute(N(rn), 'value', ast.Load())
        tail = [ast.If(rtcall('is_ret', N(rn)), [ast.Return(retv)], [])]
        if n.orelse:
            orelse = self.block(n.orelse)
            tail.append(ast.If(ast.Compare(N(rn), [ast.Is()], [ast.Constant(None)]),
                               orelse, []))
        return [ast.copy_location(x, n) for x in [bf, sf, call] + tail]

    def visit_While(self, n):
        self.cnt += 1
        c = '_w_%d_' % self.cnt
        f = self.fn
        n.test = self.visit(n.test)
        if f:
            f.stack.append('native')
        n.body = self.block(n.body)
        if f:
            f.stack.pop()
        n.orelse = self.block(n.orelse) if n.orelse else []
        n.body = [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(),
                                ast.Constant(1)),
                  ast.Expr(rtcall('while_guard', self.where(n), N(c)))] + n.body
        return [ast.copy_location(ast.Assign([ast.Name(c, ast.Store())],
                                             ast.Constant(0)), n), n]

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else ast.Constant(None)
        f = self.fn
        if f and 'sym' in f.stack:
            v = rtcall('Ret', v)
        return ast.copy_location(ast.Return(v), n)

    def visit_Break(self, n):
        if self.fn and self.fn.stack and self.fn.stack[-1] == 'sym':
            return ast.copy_location(ast.Return(rt_attr('BRK')), n)
        return n

    def visit_Continue(self, n):
        if self.fn and self.fn.stack and self.fn.stack[-1] == 'sym':
            return ast.copy_location(ast.Return(rt_attr('CNT')), n)
        return n

    # -- expressions
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.fns and n.id in self.fn.loopnames \
                and not any(n.id in s for s in self.shadow):
            return ast.copy_location(rtcall('ld', n, ast.Constant(n.id)), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args \
                and self.fn is not None:
            n.args = [N('__class__'), N(self.fn.first)]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Is: 'is_', ast.IsNot: 'isnot_', ast.In: 'in_', ast.NotIn: 'notin_',
             ast.Eq: 'eq_', ast.NotEq: 'ne_'}
        if len(n.ops) == 1:
            t = m.get(type(n.ops[0]))
            if t is None:
                return n
            return ast.copy_location(rtcall(t, n.left, n.comparators[0]), n)
        if all(type(o) not in m for o in n.ops):
            return n
        parts = []
        left = n.left
        for o, r in zip(n.ops, n.comparators):
            t = m.get(type(o))
            parts.append(rtcall(t, left, r) if t else ast.Compare(left, [o], [r]))
            left = r
        return ast.copy_location(ast.BoolOp(ast.And(), parts), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(rtcall('not_', n.operand), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(rtcall('strmod', n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('')
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(rtcall('fv', self.visit(v.value),
                                    ast.Constant(v.conversion), spec))
        return ast.copy_location(
            rtcall('fstr', ast.List(parts, ast.Load())), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fns:
            return ast.copy_location(rtcall('mklist', n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.fns:
            return ast.copy_location(rtcall('mkdict', n), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fns and not isinstance(
                n.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(rtcall('getitem_', n.value, n.slice), n)
        return n

    # -- comprehensions
    def _comp(self, n, kind, mk):
        gens = n.generators
        if self.fn is not None and self.fn.gen and False:
            return n

        def build(i):
            g = gens[i]
            it = self.visit(g.iter)
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            self.shadow.append(set(names))
            conds = [self.lam(g.target, self.visit(c)) for c in g.ifs]
            if i + 1 < len(gens):
                elt = build(i + 1)
            else:
                elt = mk()
            self.shadow.pop()
            last = i + 1 == len(gens)
            k = kind if last else 'list'
            r = rtcall('comp', ast.Constant(k), it, self.lam(g.target, elt),
                       ast.List(conds, ast.Load()), self.where(n))
            if not last:
                r = rtcall('flat', ast.Constant(kind), r)
            return r
        return ast.copy_location(build(0), n)

    def lam(self, target, body):
        self.cnt += 1
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments(
                posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[],
                kw_defaults=[], defaults=[]), body)

        def unpack(t, src, body):
            # lambda over the names of a tuple target
            names = []
            inner = body
            for e in reversed(t.elts):
                if not isinstance(e, ast.Name):
                    self.cnt += 1
                    tmp = '_t_%d_' % self.cnt
                    inner = unpack(e, N(tmp), inner)
                    names.insert(0, tmp)
                else:
                    names.insert(0, e.id)
            return ast.Call(ast.Lambda(ast.arguments(
                posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[],
                kw_defaults=[], defaults=[]), inner),
                [ast.Starred(src, ast.Load())], [])
        p = '_i_%d_' % self.cnt
        return ast.Lambda(ast.arguments(
            posonlyargs=[], args=[ast.arg(p)], kwonlyargs=[], kw_defaults=[],
            defaults=[]), unpack(target, N(p), body))

    def visit_ListComp(self, n):
        return self._comp(n, 'list', lambda: self.visit(n.elt))

    def visit_SetComp(self, n):
        return self._comp(n, 'set', lambda: self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen', lambda: self.visit(n.elt))

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', lambda: ast.Tuple(
            [self.visit(n.key), self.visit(n.value)], ast.Load()))


def rt_attr(a):
    return ast.Attribute(N('_rt_'), a, ast.Load())


def transform(src, fname):
    tree = ast.parse(src, fname)
    tree = Xform(fname.split('/repo/')[-1]).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec')
