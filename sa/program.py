"""Parse the package and index its modules, classes and functions."""

import ast
import os

from . import loops

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'jsonpickle'


class FuncInfo:
    def __init__(self, module, node, qual, cls=None):
        self.module = module
        self.node = node
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.is_lambda = isinstance(node, ast.Lambda)
        self.is_generator = False
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(p.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = [node.body] if self.is_lambda else node.body
        for s in body:
            self._scan(s)
        self.locals -= self.globals | self.nonlocals
        self.decorators = [] if self.is_lambda else node.decorator_list
        self.cells = self._cells(body)

    def _cells(self, body):
        """Locals an inner function must see by reference: those it rebinds, and
        those bound after (or by) its definition."""
        inner, stores = [], []
        todo = [(n, False) for n in body]
        while todo:
            n, loop = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                inner.append((n, loop))
                if not isinstance(n, ast.Lambda):
                    stores.append((n.name, n.lineno, n.col_offset, loop))
                    todo += [(d, loop) for d in n.decorator_list]
                todo += [(d, loop) for d in n.args.defaults + n.args.kw_defaults if d is not None]
                continue
            if isinstance(n, ast.ClassDef):
                stores.append((n.name, n.lineno, n.col_offset, loop))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.append((n.id, n.lineno, n.col_offset, loop))
            if isinstance(n, (ast.For, ast.While)):
                loop = True
            todo += [(c, loop) for c in ast.iter_child_nodes(n)]
        out = set()
        for f, loop in inner:
            used = set()
            for c in ast.walk(f):
                if isinstance(c, ast.Name):
                    used.add(c.id)
                elif isinstance(c, ast.Nonlocal):
                    out |= set(c.names) & self.locals
            for name, line, col, sl in stores:
                if name in used and name in self.locals and ((line, col) >= (f.lineno, f.col_offset) or loop and sl):
                    out.add(name)
        return tuple(sorted(out))

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walruses leak
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    self.locals.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_generator = True
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    @property
    def lineno(self):
        return self.node.lineno

    def __repr__(self):
        return self.qual


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.bases = None  # filled by the interpreter: list of values
        self.attrs = {}    # name -> value
        self.fields = None # names of the fields of a data class or named tuple
        self.row = False   # iterates over its fields

    def __repr__(self):
        return self.qual


class ModuleInfo:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        self.tree = loops.rewrite(ast.parse(src, path))


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(path, encoding='utf-8') as fh:
                    self.modules[rel] = ModuleInfo(rel, path, fh.read())
        if PKG not in self.modules:
            raise SystemExit(f'error: package {PKG} not found in {self.repo}')

    def functions(self, module):
        """Yield (qualname, node, class node) of every def in a module."""
        m = self.modules[module]

        def rec(body, prefix, cls):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield prefix + n.name, n, cls
                    yield from rec(n.body, prefix + n.name + '.', None)
                elif isinstance(n, ast.ClassDef):
                    yield from rec(n.body, prefix + n.name + '.', n)
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        yield from rec(getattr(n, fld, []), prefix, cls)
                    for h in getattr(n, 'handlers', []):
                        yield from rec(h.body, prefix, cls)
        yield from rec(m.tree.body, '', None)
