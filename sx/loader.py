"""Loads the package under test from /repo/src with its syntax tree instrumented. The source is
read on every run; a fresh set of modules can be created for each explored path, so that module
state never leaks from one path to another."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get('SX_SRC', '/repo/src')
PKG = 'mathml_to_latex'
_CODE = {}
_FILES = {}
FUNCS = {}


def own_nodes(n):
    """The nodes of a statement, without those of functions defined in it."""
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            yield from own_nodes(c)


SIMPLE = (ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Delete, ast.Assert)


def counted(n):
    """Statements before which a thread may be left: simple ones and the tests of if."""
    return isinstance(n, SIMPLE + (ast.If,)) or isinstance(n, ast.AnnAssign) and n.value is not None \
        or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)


def is_gen(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in node.body for x in own_nodes(b))


def bodies(n):
    for f in ('body', 'orelse', 'finalbody'):
        if isinstance(getattr(n, f, None), list):
            yield n, f
    for f in ('handlers', 'cases'):
        for c in getattr(n, f, None) or []:
            yield c, 'body'


def statements(body, lines):
    """The counted statements of a function body, at most one for each source line."""
    for b in body:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if counted(b) and b.lineno not in lines:
            lines.add(b.lineno)
            yield b
        for o, f in bodies(b):
            yield from statements(getattr(o, f), lines)


def spans(src):
    """{line: first line of the counted statement it belongs to}"""
    out = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef) and not is_gen(n):
            for b in statements(n.body, set()):
                for l in range(b.lineno, (b.test if isinstance(b, ast.If) else b).end_lineno + 1):
                    out.setdefault(l, b.lineno)
    return out


class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def ticks(self, body, marked):
        out = []
        for b in body:
            if id(b) in marked:
                out.append(ast.copy_location(ast.Expr(self.hook('stmt', [])), b))
            if not isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for o, f in bodies(b):
                    if getattr(o, f):
                        setattr(o, f, self.ticks(getattr(o, f), marked))
            out.append(b)
        return out


    def hook(self, name, args, keywords=()):
        return ast.Call(func=ast.Attribute(value=ast.Name('__sx__', ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=list(keywords))

    def over_chars(self, node):
        """any / all / join over a comprehension of one plain variable"""
        f = node.func
        if len(node.args) != 1 or node.keywords or not isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)):
            return None
        if not (isinstance(f, ast.Name) and f.id in ('any', 'all') or isinstance(f, ast.Attribute) and f.attr == 'join'):
            return None
        g = node.args[0]
        if len(g.generators) != 1 or g.generators[0].is_async or not isinstance(g.generators[0].target, ast.Name):
            return None
        it, x, tests = g.generators[0].iter, g.generators[0].target.id, g.generators[0].ifs
        if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(g)):
            return None

        def lam(e):
            return ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), self.visit(e))
        cond = None
        if tests:
            cond = lam(tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests))
        return self.hook('over', [self.visit(f), lam(g.elt), self.visit(it), cond or ast.Constant(None),
                                  ast.Constant(isinstance(g, ast.ListComp))])

    def visit_Call(self, node):
        r = self.over_chars(node)
        if r is not None:
            return ast.copy_location(r, node)
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'dataclass', 'exec', 'eval'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(self.hook('call', [node.func] + node.args, node.keywords), node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(self.hook('keys', [node.iter]), node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(self.hook('keys', [node.iter]), node.iter)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.hook('call', [ast.Name('type', ast.Load()), node.value]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = 'contains' if isinstance(node.ops[0], ast.In) else 'notin'
            return ast.copy_location(self.hook(n, [node.left, node.comparators[0]]), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                el = [val]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                el.append(spec)
                el.append(ast.Constant(None if v.conversion == -1 else chr(v.conversion)))
                args.append(ast.Tuple(el, ast.Load()))
        return ast.copy_location(self.hook('fstr', args), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = node.slice
            if isinstance(k, ast.Slice):
                k = ast.Call(func=ast.Name('slice', ast.Load()),
                             args=[x if x is not None else ast.Constant(None) for x in (k.lower, k.upper, k.step)],
                             keywords=[])
                k = self.hook('mkslice', k.args)
            return ast.copy_location(self.hook('getitem', [node.value, k]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.hook('setitem', [t.value, t.slice, node.value])), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.hook('percent', [node.left, node.right]), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self.hook('mkdict', [gen]), node)

    def visit_Dict(self, node):
        # constant tables are left alone
        if all(isinstance(k, ast.Constant) for k in node.keys):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        el = []
        for k, v in zip(node.keys, node.values):
            kk = ast.Attribute(ast.Name('__sx__', ast.Load()), '_EXPAND', ast.Load()) if k is None else k
            el.append(ast.Tuple([kk, v], ast.Load()))
        return ast.copy_location(self.hook('mkdict', [ast.List(el, ast.Load())]), node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        q = '.'.join(self.stack + [node.name])
        name = self.mod + ':' + q
        FUNCS[name] = node.end_lineno - node.lineno + 1
        self.stack.append(node.name)
        gen = is_gen(node)
        node.body = [self.visit(b) for b in node.body]
        if not gen:
            node.body = self.ticks(node.body, {id(b) for b in statements(node.body, set())})
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.stack.pop()
        ent = ast.Expr(self.hook('enter', [ast.Constant(name), ast.Constant(not gen)]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ast.copy_location(ent, node.body[0]))
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_Import(self, node):
        return node
    visit_ImportFrom = visit_Import


class Imports(ast.NodeTransformer):
    """Absolute imports of the package go to the instance being loaded."""
    def __init__(self, pkg):
        self.pkg = pkg

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            for p in ('src.' + PKG, PKG):
                if node.module == p or node.module.startswith(p + '.'):
                    node.module = self.pkg + node.module[len(p):]
                    break
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, pkg, instrument):
        self.pkg = pkg
        self.instrument = instrument

    def find_spec(self, name, path, target=None):
        if name != self.pkg and not name.startswith(self.pkg + '.'):
            return None
        rel = name[len(self.pkg):].replace('.', '/')
        base = os.path.join(SRC, PKG) + rel
        for f, is_pkg in ((base + '/__init__.py', True), (base + '.py', False)):
            if os.path.isfile(f):
                s = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=is_pkg)
                s.has_location = False
                return s
        if os.path.isdir(base):
            s = importlib.machinery.ModuleSpec(name, self, origin=None, is_package=True)
            s.submodule_search_locations = [base]
            s.loader = None
            return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        key = (f, self.instrument)
        if key not in _CODE:
            src = open(f, encoding='utf-8').read()
            _FILES[f] = src
            tree = Imports(self.pkg).visit(ast.parse(src, f))
            if self.instrument:
                rel = os.path.relpath(f, os.path.join(SRC, PKG))
                tree = Tr(rel).visit(tree)
                ast.fix_missing_locations(tree)
            _CODE[key] = compile(tree, f, 'exec')
        if self.instrument:
            from . import hooks
            mod.__dict__['__sx__'] = hooks
        exec(_CODE[key], mod.__dict__)


def mkslice(a, b, c):
    return slice(a, b, c)


SYM = 'sxsym_' + PKG
REAL = 'sxreal_' + PKG
_inst = False


def install():
    global _inst
    if not _inst:
        _inst = True
        from . import hooks
        hooks.mkslice = mkslice
        sys.meta_path.insert(0, Finder(SYM, True))
        sys.meta_path.insert(0, Finder(REAL, False))


def fresh(pkg):
    """A new instance of the package: returns its converter module."""
    install()
    for n in [n for n in sys.modules if n == pkg or n.startswith(pkg + '.')]:
        del sys.modules[n]
    return importlib.import_module(pkg + '.converter')
