"""Loads the real modules with every loop, store and builtin routed to the
symbolic runtime.  Nothing is dropped from the source: the syntax tree is
rewritten mechanically and compiled on every run."""
import ast
import importlib.abc
import importlib.util
import sys
import os

LOOPVARS_FN = 0


def assigned_names(nodes):
    """Names bound by statements (not descending into new scopes)."""
    out, bad = [], [False]

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store,)):
                if n.id not in out:
                    out.append(n.id)
            elif isinstance(n.ctx, ast.Del):
                bad[0] = True

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_ClassDef(self, n):
            bad[0] = True

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import

        def visit_Yield(self, n):
            bad[0] = True
        visit_YieldFrom = visit_Await = visit_Yield

        def visit_Global(self, n):
            bad[0] = True
    for s in nodes:
        V().visit(s)
    return out, bad[0]


def has_yield(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found


def N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def rt(name):
    return ast.Attribute(value=N('__pydv_rt__'), attr=name, ctx=ast.Load())


def call(f, *args, **kw):
    return ast.Call(func=f, args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.func = []          # stack of dict(kind, predecl, firstarg, native)
        self.loop = []          # stack of 'for' / 'while' / 'native' within a function

    def fresh(self, base):
        self.n += 1
        return f'__pydv_{base}{self.n}'

    # -- scopes ---------------------------------------------------------------
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        args = node.args.posonlyargs + node.args.args
        info = {'pre': [], 'first': args[0].arg if args else None, 'native': has_yield(node),
                'args': {a.arg for a in args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]}}
        self.func.append(info)
        saved, self.loop = self.loop, []
        node.body = self.block(node.body)
        self.loop = saved
        self.func.pop()
        pre = [p for p in dict.fromkeys(info['pre'])]
        if pre:
            decl = ast.If(test=ast.Constant(0), body=[ast.Assign(targets=[N(p, ast.Store())], value=ast.Constant(None)) for p in pre], orelse=[])
            i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], 'value', None), ast.Constant)) else 0
            # after global/nonlocal statements
            while i < len(node.body) and isinstance(node.body[i], (ast.Global, ast.Nonlocal)):
                i += 1
            nl = {x for s in node.body[:i] if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
            decl.body = [b for b in decl.body if b.targets[0].id not in nl] or [ast.Pass()]
            node.body.insert(i, decl)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        saved, self.func = self.func, self.func + [None]
        sl, self.loop = self.loop, []
        node.body = self.block(node.body)
        self.func, self.loop = saved, sl
        node.body.append(ast.Assign(targets=[N('_pydv_inst', ast.Store())], value=ast.Constant(True)))
        return node

    def visit_Lambda(self, node):
        info = {'pre': [], 'first': node.args.args[0].arg if node.args.args else None, 'native': False, 'args': set()}
        self.func.append(info)
        node.args = self.visit(node.args)
        node.body = self.visit(node.body)
        self.func.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def infunc(self):
        return bool(self.func) and self.func[-1] is not None

    # -- statements -----------------------------------------------------------
    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        hs = []
        for h in node.handlers:
            if h.type is None:
                h.type = N('Exception')
            else:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
            hs.append(h)
        node.handlers = hs
        node.orelse = self.block(node.orelse) if node.orelse else []
        node.finalbody = self.block(node.finalbody) if node.finalbody else []
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self.loop.append('native')
        node.body = self.block(node.body)
        self.loop.pop()
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node

    def visit_Break(self, node):
        if self.loop and self.loop[-1] == 'for':
            return ast.copy_location(ast.Return(value=rt('BRK')), node)
        return node

    def visit_Continue(self, node):
        if self.loop and self.loop[-1] == 'for':
            return ast.copy_location(ast.Return(value=ast.Constant(None)), node)
        return node

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if 'for' in self.loop:
            return ast.copy_location(ast.Return(value=call(rt('Ret'), node.value or ast.Constant(None))), node)
        return node

    def visit_For(self, node):
        names, bad = assigned_names(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(None))])
        native = not self.infunc() or bad or self.func[-1]['native']
        if native:
            node.iter = self.visit(node.iter)
            self.loop.append('native')
            node.body = self.block(node.body)
            self.loop.pop()
            node.orelse = self.block(node.orelse) if node.orelse else []
            return node
        it = self.visit(node.iter)
        fname, itv = self.fresh('body'), self.fresh('it')
        outer_for = 'for' in self.loop
        self.loop.append('for')
        body = self.block(node.body)
        self.loop.pop()
        # names bound in the rewritten body (includes temporaries)
        head = [ast.Assign(targets=[node.target], value=self._unpack_value(node.target, N(itv)))]
        names, _ = assigned_names(head + body)
        names = [n for n in names if not (n.startswith('__pydv_body') or n.startswith('__pydv_get') or n.startswith('__pydv_set') or n.startswith('__pydv_res'))]
        inner_defs = [n for n in names]
        info = self.func[-1]
        nonlocals = [n for n in inner_defs]
        info['pre'] += [n for n in nonlocals if n not in info['args']]
        gname, sname, rname = self.fresh('get'), self.fresh('set'), self.fresh('res')
        bdef = ast.FunctionDef(name=fname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=itv)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=([ast.Nonlocal(names=nonlocals)] if nonlocals else []) + head + body, decorator_list=[], type_params=[])
        gbody = [ast.Assign(targets=[N('__d', ast.Store())], value=ast.Dict(keys=[], values=[]))]
        for nm in nonlocals:
            gbody.append(ast.Try(body=[ast.Assign(targets=[ast.Subscript(value=N('__d'), slice=ast.Constant(nm), ctx=ast.Store())], value=N(nm))],
                                 handlers=[ast.ExceptHandler(type=N('NameError'), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
        gbody.append(ast.Return(value=N('__d')))
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        gdef = ast.FunctionDef(name=gname, args=noargs, body=gbody, decorator_list=[], type_params=[])
        sbody = [ast.Nonlocal(names=nonlocals)] if nonlocals else []
        for nm in nonlocals:
            sbody.append(ast.If(test=ast.Compare(left=ast.Constant(nm), ops=[ast.In()], comparators=[N('__d')]),
                                body=[ast.Assign(targets=[N(nm, ast.Store())], value=ast.Subscript(value=N('__d'), slice=ast.Constant(nm), ctx=ast.Load()))], orelse=[]))
        sbody.append(ast.Return(value=ast.Constant(None)))
        sdef = ast.FunctionDef(name=sname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__d')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=sbody, decorator_list=[], type_params=[])
        run = ast.Assign(targets=[N(rname, ast.Store())],
                         value=call(rt('loop'), it, N(fname), N(gname), N(sname), ast.Constant(getattr(node, 'lineno', 0))))
        out = [bdef, gdef, sdef, run]
        isret = call(N('__pydv_isret__'), N(rname))
        ret = ast.Return(value=N(rname)) if outer_for else ast.Return(value=ast.Attribute(value=N(rname), attr='value', ctx=ast.Load()))
        out.append(ast.If(test=isret, body=[ret], orelse=[]))
        if node.orelse:
            orelse = self.block(node.orelse)
            out.append(ast.If(test=ast.Compare(left=N(rname), ops=[ast.IsNot()], comparators=[rt('BRK')]), body=orelse, orelse=[]))
        for s in out:
            ast.copy_location(s, node)
        return out

    def _unpack_value(self, target, value):
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            return call(rt('unpack'), value, ast.Constant(len(target.elts)))
        return value

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self._assign(node.targets[0], value, node)
        t = self.fresh('v')
        out = [ast.copy_location(ast.Assign(targets=[N(t, ast.Store())], value=value), node)]
        for tg in node.targets:
            r = self._assign(tg, N(t), node)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _assign(self, tg, value, node):
        if isinstance(tg, ast.Attribute):
            return ast.copy_location(ast.Expr(call(rt('store_attr'), self.visit(tg.value), ast.Constant(self._mangle(tg.attr)), value)), node)
        if isinstance(tg, ast.Subscript):
            return ast.copy_location(ast.Expr(call(rt('store_item'), self.visit(tg.value), self.visit(self._slice(tg.slice)), value)), node)
        if isinstance(tg, (ast.Tuple, ast.List)):
            simple = all(isinstance(e, ast.Name) or (isinstance(e, ast.Starred) and isinstance(e.value, ast.Name)) for e in tg.elts)
            if simple:
                return ast.copy_location(ast.Assign(targets=[tg], value=self._unpack_value(tg, value)), node)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                return ast.copy_location(ast.Assign(targets=[self.visit(tg)], value=value), node)
            temps = [self.fresh('u') for _ in tg.elts]
            out = [ast.copy_location(ast.Assign(targets=[ast.Tuple(elts=[N(t, ast.Store()) for t in temps], ctx=ast.Store())],
                                                value=self._unpack_value(tg, value)), node)]
            for e, t in zip(tg.elts, temps):
                r = self._assign(e, N(t), node)
                out.extend(r if isinstance(r, list) else [r])
            return out
        return ast.copy_location(ast.Assign(targets=[tg], value=value), node)

    def _mangle(self, name):
        return name

    def _slice(self, s):
        """slice syntax as an expression"""
        if isinstance(s, ast.Slice):
            return call(N('__pydv_slice__'), s.lower or ast.Constant(None), s.upper or ast.Constant(None), s.step or ast.Constant(None))
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_AnnAssign(self, node):
        if node.value is None or not self.infunc():
            return node
        return self._assign(node.target, self.visit(node.value), node)

    def visit_AugAssign(self, node):
        op = ast.Constant(type(node.op).__name__)
        v = self.visit(node.value)
        tg = node.target
        if isinstance(tg, ast.Name):
            return ast.copy_location(ast.Assign(targets=[tg], value=call(rt('iop'), op, N(tg.id), v)), node)
        o = self.fresh('o')
        out = [ast.Assign(targets=[N(o, ast.Store())], value=self.visit(tg.value))]
        if isinstance(tg, ast.Attribute):
            cur = ast.Attribute(value=N(o), attr=tg.attr, ctx=ast.Load())
            out.append(ast.Expr(call(rt('store_attr'), N(o), ast.Constant(tg.attr), call(rt('iop'), op, cur, v))))
        else:
            k = self.fresh('k')
            out.append(ast.Assign(targets=[N(k, ast.Store())], value=self.visit(self._slice(tg.slice))))
            out.append(ast.Expr(call(rt('store_item'), N(o), N(k), call(rt('iop'), op, call(rt('getitem'), N(o), N(k)), v))))
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(call(rt('del_item'), self.visit(t.value), self.visit(self._slice(t.slice)))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Raise(self, node):
        if node.exc is not None:
            node.exc = call(rt('mark'), self.visit(node.exc))
        if node.cause is not None:
            node.cause = self.visit(node.cause)
        return node

    # -- expressions ------------------------------------------------------------
    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and self.infunc():
            return ast.copy_location(call(rt('getitem'), self.visit(node.value), self.visit(self._slice(node.slice))), node)
        return self.generic_visit(node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc():
            return ast.copy_location(call(rt('SL'), node), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and self.infunc():
            r = call(rt('contains'), node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            fs = [f for f in self.func if f is not None and f['first']]
            if fs:
                # the method is the outermost function of the innermost class
                i = max([j for j, f in enumerate(self.func) if f is None], default=-1)
                first = self.func[i + 1]['first']
                node.args = [N('__class__'), N(first)]
        return node

    def _lam(self, target, value):
        """lambda taking one item, destructuring `target`"""
        if isinstance(target, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=value)
        x = self.fresh('x')
        names, cur = [], value
        for e in reversed(target.elts):
            if isinstance(e, ast.Name):
                names.insert(0, e.id)
            elif isinstance(e, ast.Starred):
                raise SyntaxError('starred')
            else:
                t = self.fresh('t')
                names.insert(0, t)
                cur = ast.Call(func=self._lam(e, cur), args=[N(t)], keywords=[])
        inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=cur)
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                          body=ast.Call(func=inner, args=[ast.Starred(value=call(rt('unpack'), N(x), ast.Constant(len(names))), ctx=ast.Load())], keywords=[]))

    def _comp(self, node, kind):
        if not self.infunc() or any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        has_walrus = any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))
        if has_walrus or len(node.generators) != 1:
            # first iterable may be symbolic only in the supported single form
            return self.generic_visit(node)
        g = node.generators[0]
        it = self.visit(g.iter)
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            cond = self._lam(g.target, self.visit(c))
        if kind == 'dict':
            k, v = self._lam(g.target, self.visit(node.key)), self._lam(g.target, self.visit(node.value))
            return ast.copy_location(call(rt('dictcomp'), it, k, v, cond or ast.Constant(None)), node)
        e = self._lam(g.target, self.visit(node.elt))
        if kind == 'set':
            return ast.copy_location(call(rt('setcomp'), it, e, cond or ast.Constant(None)), node)
        return ast.copy_location(call(rt('listcomp'), it, e, cond or ast.Constant(None), ast.Constant(kind == 'gen')), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # -- imports -----------------------------------------------------------------
    def visit_Import(self, node):
        out = []
        for a in node.names:
            root = a.name.split('.')[0]
            if root in ('numpy', 'scipy', 'math') and (a.asname or '.' not in a.name):
                out.append(ast.copy_location(ast.Assign(targets=[N(a.asname or a.name, ast.Store())],
                                                        value=call(N('__pydv_import__'), ast.Constant(a.name), ast.Constant(None))), node))
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def visit_ImportFrom(self, node):
        root = (node.module or '').split('.')[0]
        if node.level == 0 and root in ('numpy', 'scipy', 'math'):
            out = []
            for a in node.names:
                out.append(ast.copy_location(ast.Assign(targets=[N(a.asname or a.name, ast.Store())],
                                                        value=call(N('__pydv_import__'), ast.Constant(node.module), ast.Constant(a.name))), node))
            return out
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    t = Tr()
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return tree


def pydv_import(module, name):
    import importlib
    from . import npproxy
    if module.split('.')[0] == 'numpy':
        if name is None:
            m = importlib.import_module(module)
            return npproxy.NP if module == 'numpy' else npproxy.NumpyProxy(m, npproxy.SUB.get(module, {}), module)
        return getattr(pydv_import(module, None), name)
    m = importlib.import_module(module)
    if module.split('.')[0] == 'math':
        tab = {k: npproxy.F[k] for k in ('sqrt', 'exp', 'log', 'log10', 'cos', 'sin', 'floor', 'ceil')}
        prox = npproxy.NumpyProxy(m, tab, 'math')
        return prox if name is None else _math_attr(prox, name)
    prox = npproxy.NumpyProxy(m, npproxy.SCIPY, module)
    if name is None:
        return prox
    sub = getattr(m, name, None)
    if type(sub).__name__ == 'module':
        return npproxy.NumpyProxy(sub, npproxy.SCIPY, f'{module}.{name}')
    return LazyAttr(prox, name)


def _math_attr(prox, name):
    return LazyAttr(prox, name) if callable(getattr(prox._native, name)) else getattr(prox._native, name)


class LazyAttr:
    """from module import f: resolved at call time (engine active or not)"""

    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        self.__name__ = name

    def __call__(self, *a, **k):
        return getattr(self.mod, self.name)(*a, **k)


def namespace(ns):
    from . import builtins_proxy, rt as rtm
    ns['__pydv_rt__'] = rtm
    ns['__pydv_import__'] = pydv_import
    ns['__pydv_slice__'] = slice
    ns['__pydv_isret__'] = lambda r: r.__class__ is rtm.Ret
    for k, v in builtins_proxy.TABLE.items():
        ns[k] = v


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        module.__dict__['__file__'] = self.path
        namespace(module.__dict__)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(transform(src, self.path), self.path, 'exec')
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots       # package name -> directory
        self.loaded = {}

    def find_spec(self, fullname, path, target=None):
        root = fullname.split('.')[0]
        if root not in self.roots:
            return None
        parts = fullname.split('.')[1:]
        base = os.path.join(self.roots[root], *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            self.loaded[fullname] = f
            return importlib.util.spec_from_loader(fullname, Loader(f), is_package=True, origin=f)
        if os.path.isfile(base + '.py'):
            self.loaded[fullname] = base + '.py'
            return importlib.util.spec_from_loader(fullname, Loader(base + '.py'), origin=base + '.py')
        return None


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
