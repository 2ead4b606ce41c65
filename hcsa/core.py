"""Project model: parsed modules, symbol/import resolution, classes, functions, call binding.

Everything here is derived from the *current* source of the repository; nothing is imported or executed.
"""
from __future__ import annotations
import ast
import os
from dataclasses import dataclass, field

from .normal import normalize, inventory
REPO = os.environ.get('HCSA_REPO', '/repo')
PKG = 'hera_cal'


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, source does not parse, ...)."""


@dataclass(eq=False)
class Func:
    qual: str                      # module:Class.name / module:name / module:outer.<locals>.inner
    module: 'Module'
    node: ast.AST                  # FunctionDef / AsyncFunctionDef / Lambda
    cls: 'Cls | None' = None
    parent: 'Func | None' = None
    nested: dict = field(default_factory=dict)

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    @property
    def pos_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    @property
    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    @property
    def defaults(self):
        """param -> default expression node"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def decorators(self):
        return [dotted(d.func if isinstance(d, ast.Call) else d) or '' for d in getattr(self.node, 'decorator_list', [])]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return any(d.split('.')[-1] in ('property', 'cached_property') for d in self.decorators)

    @property
    def is_method(self):
        return self.cls is not None and not self.is_static and self.parent is None

    @property
    def where(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    @property
    def short(self):
        return self.qual.replace(PKG + '.', '', 1)

    @property
    def public(self):
        if self.parent is not None:
            return False
        n = self.name
        ok = not n.startswith('_') or (n.startswith('__') and n.endswith('__'))
        if self.cls is not None and self.cls.name.startswith('_'):
            ok = False
        return ok

    def doc(self):
        try:
            return ast.get_docstring(self.node) or ''
        except TypeError:
            return ''

    def __repr__(self):
        return f'<Func {self.qual}>'


@dataclass(eq=False)
class Cls:
    name: str
    qual: str
    module: 'Module'
    node: ast.ClassDef
    methods: dict = field(default_factory=dict)
    bases: list = field(default_factory=list)      # resolved Cls objects
    base_names: list = field(default_factory=list)

    def mro(self):
        out, seen = [], set()

        def rec(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(self)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, project):
        return [c for c in project.classes.values() if c is not self and self in c.mro()]


@dataclass(eq=False)
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    src: str
    is_script: bool = False
    imports: dict = field(default_factory=dict)    # local name -> dotted target
    funcs: dict = field(default_factory=dict)      # top-level functions
    classes: dict = field(default_factory=dict)
    globals: dict = field(default_factory=dict)    # module-level name -> value expr (last)


def dotted(node):
    """a.b.c -> 'a.b.c' for Name/Attribute chains, else None"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def walk_scope(node):
    """walk without entering nested function/class scopes (comprehensions/lambdas are entered)."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


class Project:
    default_overlay = {}           # relpath -> source; used by the checker's own self-tests only

    def __init__(self, repo=None, include_scripts=True, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.overlay = overlay or Project.default_overlay
        self._load(include_scripts)
        self._methods_by_name = {}
        for c in self.classes.values():
            for m, f in c.methods.items():
                self._methods_by_name.setdefault(m, []).append(f)

    # ---- loading -----------------------------------------------------------------
    def _load(self, include_scripts):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f'{root} not found')
        files = []
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__', 'data'))
            for f in sorted(fn):
                if f.endswith('.py'):
                    files.append((os.path.join(dp, f), False))
        if include_scripts:
            sd = os.path.join(self.repo, 'scripts')
            for f in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
                if f.endswith('.py'):
                    files.append((os.path.join(sd, f), True))
        inv = inventory()
        for path, is_script in files:
            rel = os.path.relpath(path, self.repo)
            src = self.overlay.get(rel)
            if src is None:
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
            try:
                tree = ast.parse(src, filename=rel)
            except SyntaxError as e:
                raise AnalysisBroken(f'{rel} does not parse: {e}')
            tree = normalize(tree, rel, inv)
            if is_script:
                name = 'scripts.' + os.path.basename(path)[:-3]
            else:
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
            m = Module(name, path, rel, tree, src, is_script)
            self.modules[name] = m
            self._index_module(m)
        # bases
        for c in self.classes.values():
            for b in c.node.bases:
                d = dotted(b)
                if d:
                    c.base_names.append(d)
                    r = self.resolve(c.module, d)
                    if isinstance(r, Cls):
                        c.bases.append(r)

    def _index_module(self, m):
        is_pkg = m.path.endswith('__init__.py')
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    keep = len(parts) - n.level + (1 if is_pkg else 0)
                    base = '.'.join(parts[:keep] + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = base + '.' + a.name
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, n, None, None)
                m.funcs[n.name] = f
            elif isinstance(n, ast.ClassDef):
                c = Cls(n.name, f'{m.name}:{n.name}', m, n)
                m.classes[n.name] = c
                self.classes[c.qual] = c
                for b in n.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self._add_func(m, b, c, None)
                        c.methods[b.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            m.globals[nm.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.globals[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._index_body(m, getattr(n, fld, []) or [])
                for h in getattr(n, 'handlers', []):
                    self._index_body(m, h.body)

    def _add_func(self, m, node, cls, parent):
        if parent is not None:
            q = f'{parent.qual}.<locals>.{node.name}'
        elif cls is not None:
            q = f'{cls.qual}.{node.name}'
            if q in self.funcs:           # property setter/getter pairs, attrs validators
                decs = [dotted(d) or '' for d in node.decorator_list]
                tag = next((d.split('.')[-1] for d in decs if d.endswith(('.setter', '.deleter'))), None)
                if tag:
                    q = f'{q}@{tag}'
        else:
            q = f'{m.name}:{node.name}'
        f = Func(q, m, node, cls, parent)
        self.funcs[q] = f
        for n in walk_scope(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.nested[n.name] = self._add_func(m, n, cls, f)
        return f

    # ---- resolution ----------------------------------------------------------------
    def lookup(self, target):
        """absolute dotted name -> Func | Cls | Module | None (following re-exports)"""
        seen = set()
        while True:
            if target in seen:
                return None
            seen.add(target)
            if target in self.modules:
                return self.modules[target]
            if '.' not in target:
                return None
            parts = target.split('.')
            for i in range(len(parts) - 1, 0, -1):
                mod = self.modules.get('.'.join(parts[:i]))
                if mod is None:
                    continue
                rest = parts[i:]
                if rest[0] in mod.funcs and len(rest) == 1:
                    return mod.funcs[rest[0]]
                if rest[0] in mod.classes:
                    c = mod.classes[rest[0]]
                    if len(rest) == 1:
                        return c
                    if len(rest) == 2:
                        return c.find(rest[1])
                    return None
                if rest[0] in mod.imports:
                    nt = '.'.join([mod.imports[rest[0]]] + rest[1:])
                    if nt == target:
                        return None
                    target = nt
                    break
                if rest[0] in mod.globals and len(rest) == 1:
                    d = dotted(mod.globals[rest[0]]) if mod.globals[rest[0]] is not None else None
                    if d and d != rest[0]:
                        return self.resolve(mod, d)
                    return None
                return None
            else:
                return None

    def absname(self, m, d):
        """local dotted name in module m -> absolute dotted name (may be external)"""
        head, _, rest = d.partition('.')
        if head in m.imports:
            return m.imports[head] + ('.' + rest if rest else '')
        if head in m.funcs or head in m.classes or head in m.globals:
            return f'{m.name}.{d}'
        return d

    def resolve(self, m, d):
        if d is None:
            return None
        return self.lookup(self.absname(m, d))

    def methods_named(self, name):
        return self._methods_by_name.get(name, [])

    def func(self, short):
        """'utils:foo' -> Func (prefix hera_cal. implied; scripts.* allowed)"""
        q = short if short.startswith(('scripts.', PKG)) else f'{PKG}.{short}'
        return self.funcs.get(q)

    def need(self, short):
        f = self.func(short)
        if f is None:
            raise AnalysisBroken(f'anchor function {short} not found in the current tree')
        return f


# ---- call binding ---------------------------------------------------------------------
class Binding:
    """maps callee params to argument expressions at one call site"""
    def __init__(self):
        self.args = {}          # param -> expr
        self.star = False       # *args present
        self.starstar = []      # ** expressions
        self.extra_kw = {}      # keyword args landing in **kwargs
        self.extra_pos = []
        self.bad_kw = []        # keywords that the callee cannot accept


def bind(callee: Func, call: ast.Call, bound_self=False):
    b = Binding()
    pos = list(callee.pos_params)
    if bound_self and pos:
        pos = pos[1:]
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            b.star = True
            continue
        if b.star:
            b.extra_pos.append(a)
            continue
        if i < len(pos):
            b.args[pos[i]] = a
            i += 1
        else:
            b.extra_pos.append(a)
    names = set(callee.params)
    for k in call.keywords:
        if k.arg is None:
            b.starstar.append(k.value)
        elif k.arg in names:
            b.args[k.arg] = k.value
        elif callee.kwarg:
            b.extra_kw[k.arg] = k.value
        else:
            b.bad_kw.append(k.arg)
    return b


def const_of(node):
    """python constant of a literal node -> (True, value) else (False, None)"""
    if isinstance(node, ast.Constant):
        return True, node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
        try:
            return True, -node.operand.value
        except TypeError:
            return False, None
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not) and isinstance(node.operand, ast.Constant):
        return True, not node.operand.value
    return False, None


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def src_of(node, n=90):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n - 3] + '...'
