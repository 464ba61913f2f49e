"""Source front end: parses every non-test module of the package under
analysis and resolves scopes.  Nothing of the package is ever imported or run.
"""
import ast
import os


class FuncInfo:
    __slots__ = ('fid', 'name', 'qualname', 'module', 'node', 'args', 'body',
                 'cls', 'parent', 'locals', 'globals', 'nonlocals', 'captured',
                 'is_gen', 'decorators', 'is_lambda', 'is_comp', 'free', 'line')

    def __repr__(self):
        return '<fn %s>' % self.qualname


class ClassInfo:
    __slots__ = ('cid', 'name', 'qualname', 'module', 'node', 'parent', 'line')

    def __repr__(self):
        return '<class %s>' % self.qualname


class ModuleInfo:
    __slots__ = ('name', 'path', 'rel', 'tree', 'is_pkg', 'source')


def _mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.lstrip('_') + name
    return name


class _Mangler(ast.NodeTransformer):
    """Applies Python's private-name mangling so that names are plain."""

    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.cls.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.cls.pop()
        return node

    def _m(self, n):
        return _mangle(n, self.cls[-1] if self.cls else None)

    def visit_Name(self, node):
        node.id = self._m(node.id)
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        node.attr = self._m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.name = self._m(node.name)
        self.generic_visit(node)
        return node


def bound_names(body_nodes):
    """Names bound in a scope (not descending into nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef):
            out.add(n.name)
            for d in n.decorator_list + n.bases:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # own scope; only walrus leaks, and the first iterable is outer
            for g in n.generators:
                walk(g.iter)
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    target(sub.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for b in body_nodes:
        walk(b)
    return out - glob - nonl, glob, nonl


def has_yield(body_nodes):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(b) for b in body_nodes)


def arg_names(a):
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


class Program:
    def __init__(self, root='/repo', package='plycutter', extra=()):
        self.root = root
        self.package = package
        self.modules = {}
        self.funcs = {}      # id(node) -> FuncInfo
        self.classes = {}    # id(node) -> ClassInfo
        self.func_by_fid = {}
        self.class_by_cid = {}
        pk = os.path.join(root, package)
        paths = []
        for d, ds, fs in os.walk(pk):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py') and not f.startswith('test_') and f != 'conftest.py':
                    paths.append(os.path.join(d, f))
        for p in paths:
            rel = os.path.relpath(p, root)
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == '__init__'
            if is_pkg:
                parts = parts[:-1]
            self._add('.'.join(parts), p, rel, is_pkg)
        for name, p in extra:
            self._add(name, p, os.path.basename(p), False)

    def _add(self, name, path, rel, is_pkg):
        m = ModuleInfo()
        m.name, m.path, m.rel, m.is_pkg = name, path, rel, is_pkg
        with open(path) as f:
            m.source = f.read()
        m.tree = _Mangler().visit(ast.parse(m.source, path))
        self.modules[name] = m
        self._scan(m)

    def _scan(self, m):
        def fn(node, quals, cls, parent):
            fi = FuncInfo()
            fi.is_lambda = isinstance(node, ast.Lambda)
            fi.is_comp = isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp))
            if fi.is_comp:
                fi.name = '<comp>'
            else:
                fi.name = '<lambda>' if fi.is_lambda else node.name
            fi.line = node.lineno
            fi.qualname = '.'.join(quals + [fi.name])
            if fi.is_lambda or fi.is_comp:
                fi.qualname += '@%d:%d' % (node.lineno, node.col_offset)
            fi.fid = m.name + ':' + fi.qualname
            n = 2
            while fi.fid in self.func_by_fid:
                fi.fid = m.name + ':' + fi.qualname + '#%d' % n
                n += 1
            fi.module, fi.node, fi.cls, fi.parent = m, node, cls, parent
            fi.args = None if fi.is_comp else node.args
            if fi.is_comp:
                fi.body = []
                lo = set()
                for g in node.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            lo.add(x.id)
                fi.locals, fi.globals, fi.nonlocals = lo, set(), set()
            else:
                fi.body = [ast.Return(value=node.body, lineno=node.lineno, col_offset=node.col_offset)] if fi.is_lambda else node.body
                b, g, nl = bound_names(fi.body)
                fi.locals = b | set(arg_names(node.args))
                fi.globals, fi.nonlocals = g, nl
            fi.is_gen = (not fi.is_comp) and has_yield(fi.body)
            fi.decorators = getattr(node, 'decorator_list', [])
            fi.captured = set()
            fi.free = set()
            self.funcs[id(node)] = fi
            self.func_by_fid[fi.fid] = fi
            return fi

        def use(name, fi):
            """A read of name inside fi: mark captured in the owner scope."""
            f = fi
            first = True
            while f is not None:
                if name in f.globals and not first:
                    return
                if name in f.locals:
                    if not first:
                        f.captured.add(name)
                    return
                if name in f.globals:
                    return
                f.free.add(name)
                f = f.parent
                first = False

        names = []   # (name, fi)

        def walk(n, quals, cls, fi):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                outer = fi
                for d in (getattr(n, 'decorator_list', []) + n.args.defaults +
                          [x for x in n.args.kw_defaults if x]):
                    walk(d, quals, None, outer)
                f = fn(n, quals, cls, fi)
                q = quals + [f.name]
                body = [n.body] if isinstance(n, ast.Lambda) else n.body
                for b in body:
                    walk(b, q, None, f)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators[:1]:
                    walk(g.iter, quals, None, fi)
                f = fn(n, quals, None, fi)
                q = quals + [f.name]
                for i, g in enumerate(n.generators):
                    walk(g.target, q, None, f)
                    if i:
                        walk(g.iter, q, None, f)
                    for c in g.ifs:
                        walk(c, q, None, f)
                if isinstance(n, ast.DictComp):
                    walk(n.key, q, None, f)
                    walk(n.value, q, None, f)
                else:
                    walk(n.elt, q, None, f)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    walk(d, quals, None, fi)
                ci = ClassInfo()
                ci.name = n.name
                ci.qualname = '.'.join(quals + [n.name])
                ci.cid = m.name + ':' + ci.qualname
                ci.module, ci.node, ci.line = m, n, n.lineno
                ci.parent = cls
                self.classes[id(n)] = ci
                self.class_by_cid[ci.cid] = ci
                for b in n.body:
                    walk(b, quals + [n.name], ci, fi)
                return
            if isinstance(n, ast.Name) and fi is not None:
                names.append((n.id, fi))
            for c in ast.iter_child_nodes(n):
                walk(c, quals, cls if isinstance(n, (ast.If, ast.Try)) else None, fi)

        for s in m.tree.body:
            walk(s, [], None, None)
        for name, fi in names:
            use(name, fi)

    def lookup_rel(self, m, level, module):
        """Absolute module name of a (relative) import."""
        if level == 0:
            return module or ''
        base = m.name.split('.')
        if not m.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[:len(base) - (level - 1)]
        return '.'.join(base + ([module] if module else []))
