"""Normal form of the parsed source, applied before any analysis (semantics-preserving, so that a verdict does not depend on how the code is laid out):
  1. helpers that did not exist when the contracts were recorded are expanded at their call sites (a helper extracted from a routine is analysed as part of it);
  2. enumerate() whose counter is never used is dropped;
  3. `if a: if b: S` becomes `if a and b: S`;
  4. the else branch after a branch that leaves (return, raise, continue, break) is un-nested;
  5. counting while loops become for loops over range.
"""
import ast
import copy
import os
import json

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)
JUMPS = (ast.Return, ast.Raise, ast.Continue, ast.Break)
BLOCKS = ('body', 'orelse', 'finalbody')


def inventory():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'inventory.json')
    if not os.path.exists(p):
        return None
    return json.load(open(p))


def functions(tree, pre=''):
    """(qualified name, node, class node or None, enclosing function or None)"""
    def rec(body, pre, cls, fn):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + s.name, s, cls, fn
                yield from rec(s.body, pre + s.name + '.', None, s)
            elif isinstance(s, ast.ClassDef):
                yield from rec(s.body, pre + s.name + '.', s, fn)
            elif isinstance(s, ast.stmt):
                for f in BLOCKS:
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        yield from rec(b, pre, cls, fn)
                for h in getattr(s, 'handlers', []):
                    yield from rec(h.body, pre, cls, fn)
    yield from rec(tree.body, pre, None, None)


def own(node, comps=True):
    """nodes of a function body without nested functions/classes"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, SCOPES):
            st += list(ast.iter_child_nodes(n))


def stored(fn):
    out = set()
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def comp_bound(fn):
    return {x.id for n in ast.walk(fn) if isinstance(n, COMPS) for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}


def all_params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def tail_returns(body):
    """every return is the last thing done on its path (structured): can be turned into assignments"""
    def ok(b, tail):
        for i, s in enumerate(b):
            last = tail and i == len(b) - 1
            if isinstance(s, ast.Return):
                if not (tail and i == len(b) - 1):
                    return False
            elif isinstance(s, ast.If):
                if not ok(s.body, last) or not ok(s.orelse, last):
                    return False
            elif isinstance(s, ast.With):
                if not ok(s.body, last):
                    return False
            elif isinstance(s, ast.Try):
                if not ok(s.body, last and not s.orelse and not s.finalbody) or not all(ok(h.body, last) for h in s.handlers) or not ok(s.orelse, last) or not ok(s.finalbody, False):
                    return False
            elif isinstance(s, SCOPES):
                continue
            elif any(isinstance(x, ast.Return) for x in own(ast.Module([s], []))):
                return False
        return True
    return ok(body, True)


def structured(body):
    """if c: ... return x; rest  ->  if c: ... return x  else: rest"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and i + 1 < len(body) and any(isinstance(x, ast.Return) for x in own(ast.Module([s], []))):
            rest = body[i + 1:]
            s = copy.copy(s)
            b1, b2 = ends(s.body), bool(s.orelse) and ends(s.orelse)
            if b1 and b2:
                out.append(ast.copy_location(ast.If(s.test, structured(s.body), structured(s.orelse)), s))
                return out
            if b1:
                out.append(ast.copy_location(ast.If(s.test, structured(s.body), structured(s.orelse + rest)), s))
                return out
            if b2:
                out.append(ast.copy_location(ast.If(s.test, structured(s.body + rest), structured(s.orelse)), s))
                return out
        out.append(s)
    return out


def ends(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and ends(s.body) and ends(s.orelse)


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(r, n.ctx), n)
        return ast.copy_location(copy.deepcopy(r), n) if isinstance(n.ctx, ast.Load) else n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        r = self.m.get(n.name)
        if isinstance(r, str):
            n.name = r
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name and isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return n


def plain(e):
    """argument that can stand in for the parameter: names, attributes of names, constants"""
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and plain(e.value) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


class Inliner:
    def __init__(self, tree, modname, known):
        self.tree, self.known = tree, known
        self.n = 0
        fs = list(functions(tree))
        self.new = {}           # ('f', name) / ('m', class, name) / ('n', id(enclosing), name) -> node
        self.defs = {}
        for q, node, cls, fn in fs:
            if q in known or isinstance(node, ast.AsyncFunctionDef):
                continue
            deco = {ast.unparse(d) for d in node.decorator_list}
            if deco - {'staticmethod'} or node.args.vararg and False:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)) for x in own(node)):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals', 'vars') for x in ast.walk(node)):
                continue
            if node.name.startswith('__') and node.name.endswith('__'):
                continue
            if any(isinstance(x, ast.Name) and x.id == node.name or isinstance(x, ast.Attribute) and x.attr == node.name for b in node.body for x in ast.walk(b)):
                continue                                             # recursive
            if cls is not None and fn is None:
                self.new[('m', cls.name, node.name)] = (node, 'staticmethod' in deco)
            elif fn is not None and cls is None:
                self.new[('n', id(fn), node.name)] = (node, True)
            elif cls is None:
                self.new[('f', node.name)] = (node, True)
        # methods reachable through subclasses of the module
        self.bases = {c.name: [ast.unparse(b).split('.')[-1] for b in c.bases] for c in ast.walk(tree) if isinstance(c, ast.ClassDef)}
        # a method defined again in a related class: dynamic dispatch, leave alone
        cls_of = {}
        for q, node, cls, fn in fs:
            if cls is not None and fn is None:
                cls_of.setdefault(node.name, set()).add(cls.name)
        for k in list(self.new):
            if k[0] == 'm' and any(c != k[1] and (self.derives(c, k[1]) or self.derives(k[1], c)) for c in cls_of[k[2]]):
                del self.new[k]

    def run(self):
        if not self.new:
            return
        for rnd in range(6):
            self.hits = 0
            for q, node, cls, fn in list(functions(self.tree)):
                self.cur, self.cls, self.encl = node, cls, fn
                self.ctx = [(node, cls)]
                node.body = self.block(node.body)
            # module level (scripts)
            self.cur, self.cls, self.encl = None, None, None
            self.tree.body = self.block(self.tree.body)
            if not self.hits:
                break
        self.drop()
        ast.fix_missing_locations(self.tree)

    def drop(self):
        """remove helpers that nothing refers to any more"""
        used = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Name):
                used[n.id] = used.get(n.id, 0) + 1
            elif isinstance(n, ast.Attribute):
                used[n.attr] = used.get(n.attr, 0) + 1
        dead = {id(v[0]) for k, v in self.new.items() if v[0].name not in used and k in self.inlined}

        class D(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                if id(n) in dead:
                    return None
                self.generic_visit(n)
                if not n.body:
                    n.body = [ast.Pass()]
                return n
        self.tree = D().visit(self.tree)

    inlined = frozenset()

    # ------------------------------------------------------------------ call sites
    def target(self, c):
        """helper called by a call node: (key, node, receiver or None)"""
        f = c.func
        if isinstance(f, ast.Name):
            if self.cur is not None:
                for e in (self.cur, self.encl):
                    k = ('n', id(e), f.id)
                    if e is not None and k in self.new:
                        return k, self.new[k][0], None
            k = ('f', f.id)
            if k in self.new and not (self.cur is not None and (f.id in stored(self.cur) or f.id in all_params(self.cur))):
                return k, self.new[k][0], None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            for k, (node, static) in self.new.items():
                if k[0] == 'm' and k[2] == f.attr:
                    cn = self.cls.name if self.cls is not None else None
                    first = self.cur.args.args[0].arg if self.cur is not None and self.cur.args.args else None
                    if f.value.id == first and cn is not None and (cn == k[1] or self.derives(cn, k[1])):
                        return k, node, None if static else f.value
                    if f.value.id == k[1] and static:
                        return k, node, None
                    if not static and len(self.new) and self.unique(f.attr) and f.value.id != k[1]:
                        return k, node, f.value
        return None

    def unique(self, name):
        """only one class of the module has this method, and the name is unusual enough to be its"""
        return sum(1 for q, n, c, f in functions(self.tree) if n.name == name) == 1 and len(name) > 6

    def derives(self, a, b, d=0):
        return d < 5 and any(x == b or self.derives(x, b, d + 1) for x in self.bases.get(a, ()))

    def bind(self, node, recv, c):
        """parameter -> argument expression; None if the call cannot be matched"""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = ([recv] if recv is not None else []) + list(c.args)
        out = {}
        if any(isinstance(x, ast.Starred) for x in args):
            # f(a, *args) forwarded to def h(a, *args)
            if not (isinstance(args[-1], ast.Starred) and a.vararg and len(args) - 1 == len(pos)) or any(isinstance(x, ast.Starred) for x in args[:-1]):
                return None
            out[a.vararg.arg] = args.pop().value
        if len(args) > len(pos):
            if not a.vararg:
                return None
            out[a.vararg.arg] = ast.Tuple(args[len(pos):], ast.Load())
            args = args[:len(pos)]
        elif a.vararg and a.vararg.arg not in out:
            out[a.vararg.arg] = ast.Tuple([], ast.Load())
        for p, x in zip(pos, args):
            out[p] = x
        star = None
        extra = []
        for k in c.keywords:
            if k.arg is None:
                star = k.value
            elif k.arg in pos or k.arg in [x.arg for x in a.kwonlyargs]:
                out[k.arg] = k.value
            else:
                extra.append(k)
        if star is not None and not (a.kwarg and not extra):
            return None
        if extra and not a.kwarg:
            return None
        if a.kwarg:
            out[a.kwarg.arg] = star if star is not None else ast.Dict([ast.Constant(k.arg) for k in extra], [k.value for k in extra])
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in all_params(node):
            if p not in out:
                if p not in dfl:
                    return None
                out[p] = dfl[p]
        return out

    def expand(self, c, targets, mode):
        """statements equivalent to `targets = call` (mode 'assign'), `call` ('expr') or `return call` ('return'); None if not possible"""
        t = self.target(c)
        if t is None:
            return None
        key, node, recv = t
        if self.cur is node:
            return None
        b = self.bind(node, recv, c)
        if b is None:
            return None
        h = copy.deepcopy(node)
        body = h.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        body = body or [ast.Pass()]
        if mode != 'return':
            body = structured(body)
            if not tail_returns(body):
                return None
        self.n += 1
        outs = set()
        for x in targets:
            outs |= names(x)
        st = stored(h)
        ps = set(all_params(h))
        inner = comp_bound(h) | {a.arg for n in ast.walk(h) if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not h for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        here = names(self.cur) | set(all_params(self.cur)) if self.cur is not None else names(self.tree)
        sub, pre = {}, []
        # names returned, position by position, when all returns agree
        rets = [r.value for r in own(ast.FunctionDef('x', h.args, body, [])) if isinstance(r, ast.Return)]
        for p, e in b.items():
            if p not in st and plain(e) and not (isinstance(e, ast.Name) and e.id in inner):
                if not (isinstance(e, ast.Name) and (e.id in st - ps) and e.id not in outs):
                    sub[p] = e if not isinstance(e, ast.Name) else e.id
                    continue
            if isinstance(e, ast.Name) and (e.id in outs or mode == 'return') and e.id not in (st - {p}):
                sub[p] = e.id                                        # variable handed in and returned
                continue
            new = p if p not in here and p not in (set(sub.values()) - {p} if all(isinstance(v, str) for v in sub.values()) else ()) else f'{p}__{self.n}'
            if mode == 'return' and p not in {v for v in sub.values() if isinstance(v, str)} and not (isinstance(e, ast.AST) and p in names(ast.Expression(e)) and False) and p not in all_names(b, p):
                new = p
            sub[p] = new
            pre.append(ast.Assign([ast.Name(new, ast.Store())], e))
        taken = {v for v in sub.values() if isinstance(v, str)} | {x for v in b.values() for x in names(v)}
        for v in st - ps:
            if v in inner:
                continue
            if v in taken or (v in here and v not in outs and mode != 'return'):
                sub[v] = f'{v}__{self.n}'
        body = [Subst(sub).visit(s) for s in body]
        for s in body + pre:
            for x in ast.walk(s):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt)):
                    ast.copy_location(x, c)
        self.hits += 1
        self.inlined = self.inlined | {key}
        if mode == 'return':
            return pre + body + ([] if ends(body) else [ast.Return(ast.Constant(None))])
        body = self.returns(body, targets, mode)
        if mode == 'assign' and not ends_assigned(rets, node):
            body = [ast.Assign([copy.deepcopy(x) for x in targets], ast.Constant(None))] + body
        return pre + body

    def returns(self, body, targets, mode):
        out = []
        for s in body:
            if isinstance(s, ast.Return):
                if mode == 'assign':
                    out += self.assign(targets, s.value if s.value is not None else ast.Constant(None), s)
                elif s.value is not None and not plain(s.value):
                    out.append(ast.copy_location(ast.Expr(s.value), s))
                continue
            if isinstance(s, SCOPES):
                out.append(s)
                continue
            for f in BLOCKS:
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    r = self.returns(b, targets, mode)
                    setattr(s, f, r or ([ast.Pass()] if f == 'body' else []))
            for h in getattr(s, 'handlers', []):
                h.body = self.returns(h.body, targets, mode) or [ast.Pass()]
            out.append(s)
        return out

    def assign(self, targets, v, at):
        if len(targets) == 1:
            t = targets[0]
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + v.elts):
                pairs = [(x, y) for x, y in zip(t.elts, v.elts) if not (isinstance(x, ast.Name) and isinstance(y, ast.Name) and x.id == y.id)]
                clash = any(names(x) & names(y2) for i, (x, _) in enumerate(pairs) for _, y2 in pairs[i + 1:])
                if not clash:
                    return [ast.copy_location(ast.Assign([copy.deepcopy(x)], y), at) for x, y in pairs]
            if isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id:
                return []
        return [ast.copy_location(ast.Assign([copy.deepcopy(x) for x in targets], v), at)]

    # ------------------------------------------------------------------ statements
    def block(self, body):
        out = []
        for s in body:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        if isinstance(s, SCOPES):
            return [s]
        for f in BLOCKS:
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, f, self.block(b) or [ast.Pass()])
        for h in getattr(s, 'handlers', []):
            h.body = self.block(h.body)
        v = getattr(s, 'value', None)
        if isinstance(v, ast.Call):
            r = None
            if isinstance(s, ast.Assign):
                r = self.expand(v, s.targets, 'assign')
            elif isinstance(s, ast.AnnAssign):
                r = self.expand(v, [s.target], 'assign')
            elif isinstance(s, ast.Expr):
                r = self.expand(v, [], 'expr')
            elif isinstance(s, ast.Return):
                r = self.expand(v, [], 'return')
            if r is not None:
                return self.block(r) if self.n < 4000 else r
        # calls inside expressions: single-expression helpers are substituted; others are computed before the statement
        pre = []
        fields = ['value', 'iter', 'test', 'exc', 'msg'] if not isinstance(s, ast.While) else []
        for f in fields:
            e = getattr(s, f, None)
            if isinstance(e, ast.expr):
                setattr(s, f, Nested(self, pre).visit(e))
        if isinstance(s, ast.With):
            for it in s.items:
                it.context_expr = Nested(self, pre).visit(it.context_expr)
        if isinstance(s, ast.Assign):
            s.targets = [Nested(self, pre).visit(t) for t in s.targets]
        if isinstance(s, ast.AugAssign):
            s.target = Nested(self, pre).visit(s.target)
        return pre + [s]


def all_names(b, p):
    """names used in the other arguments"""
    return {x for q, e in b.items() if q != p for x in names(e)}


def ends_assigned(rets, node):
    return ends(structured(copy.deepcopy(node.body)))


class Nested(ast.NodeTransformer):
    """expands helper calls inside an expression"""
    def __init__(self, inl, pre):
        self.i, self.pre, self.lazy = inl, pre, 0

    def visit_Lambda(self, n):
        self.lazy += 1
        self.generic_visit(n)
        self.lazy -= 1
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

    def visit_IfExp(self, n):
        n.test = self.visit(n.test)
        self.lazy += 1
        n.body, n.orelse = self.visit(n.body), self.visit(n.orelse)
        self.lazy -= 1
        return n

    def visit_BoolOp(self, n):
        n.values[0] = self.visit(n.values[0])
        self.lazy += 1
        n.values[1:] = [self.visit(v) for v in n.values[1:]]
        self.lazy -= 1
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        t = self.i.target(n)
        if t is None or self.i.cur is t[1]:
            return n
        key, node, recv = t
        body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
            b = self.i.bind(node, recv, n)
            e = body[0].value
            if b is not None:
                inner = comp_bound(node) | {a.arg for x in ast.walk(e) if isinstance(x, ast.Lambda) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
                used = {}
                for x in ast.walk(e):
                    if isinstance(x, ast.Name):
                        used[x.id] = used.get(x.id, 0) + 1
                if not any(names(v) & inner for v in b.values()) and not (set(b) & inner) and all(plain(v) or used.get(p, 0) <= 1 or not any(isinstance(z, ast.Call) for z in ast.walk(v)) for p, v in b.items()):
                    self.i.hits += 1
                    self.i.inlined = self.i.inlined | {key}
                    return ast.copy_location(Subst({p: v for p, v in b.items()}).visit(copy.deepcopy(e)), n)
        if self.lazy:
            return n
        self.i.n += 1
        tmp = f'{node.name.strip("_")}__{self.i.n}'
        r = self.i.expand(n, [ast.copy_location(ast.Name(tmp, ast.Store()), n)], 'assign')
        if r is None:
            return n
        self.pre += r
        return ast.copy_location(ast.Name(tmp, ast.Load()), n)


# ---------------------------------------------------------------------- layout
class Layout(ast.NodeTransformer):
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in BLOCKS:
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b, n))
        return n

    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.If):
                # if a: (only) if b: S
                while len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.orelse and not s.body[0].orelse:
                    i = s.body[0]
                    vs = (s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]) + (i.test.values if isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.And) else [i.test])
                    s = ast.copy_location(ast.If(ast.copy_location(ast.BoolOp(ast.And(), vs), s.test), i.body, []), s)
                if s.orelse and isinstance(s.body[-1], JUMPS):
                    out.append(ast.copy_location(ast.If(s.test, s.body, []), s))
                    out += self.block(s.orelse, parent)
                    continue
            if isinstance(s, ast.For) and out:
                r = self.collecting(s, out[-1])
                if r is not None:
                    out[-1] = r
                    continue
            if isinstance(s, ast.While) and out:
                r = self.counting(s, out[-1])
                if r is not None:
                    out[-1] = r
                    continue
            out.append(s)
        return out

    def collecting(self, f, prev):
        """acc = []; for t in it: (if c:) acc.append(e)  ->  acc = [e for t in it if c]"""
        if not (isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name)):
            return None
        v, kind = prev.targets[0].id, None
        if isinstance(prev.value, ast.List) and not prev.value.elts or isinstance(prev.value, ast.Call) and isinstance(prev.value.func, ast.Name) and prev.value.func.id == 'list' and not prev.value.args:
            kind = 'list'
        elif isinstance(prev.value, ast.Dict) and not prev.value.keys or isinstance(prev.value, ast.Call) and isinstance(prev.value.func, ast.Name) and prev.value.func.id == 'dict' and not prev.value.args and not prev.value.keywords:
            kind = 'dict'
        if kind is None:
            return None
        gens, n, bound = [], f, set()
        while True:
            if isinstance(n, ast.For) and not n.orelse and len(n.body) == 1:
                if not all(isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Store)) for x in ast.walk(n.target)):
                    return None
                bound |= names(n.target)
                gens.append(ast.comprehension(n.target, n.iter, [], 0))
            elif isinstance(n, ast.If) and not n.orelse and len(n.body) == 1:
                gens[-1].ifs.extend(n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test])
            else:
                break
            n = n.body[0]
        if kind == 'list' and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append' and isinstance(n.value.func.value, ast.Name) \
                and n.value.func.value.id == v and len(n.value.args) == 1 and not n.value.keywords:
            elts = [n.value.args[0]]
        elif kind == 'dict' and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == v:
            elts = [n.targets[0].slice, n.value]
        else:
            return None
        used = [x for g in gens for x in [g.iter] + g.ifs] + elts
        if any(v in names(x) for x in used) or v in bound or any(isinstance(y, (ast.NamedExpr, ast.Yield, ast.Await)) for x in used for y in ast.walk(x)):
            return None
        inside = {id(x) for x in ast.walk(f)}
        if self.fn is not None and any(isinstance(x, ast.Name) and x.id in bound and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in own(self.fn)):
            return None
        c = ast.ListComp(elts[0], gens) if kind == 'list' else ast.DictComp(elts[0], elts[1], gens)
        return ast.copy_location(ast.Assign(prev.targets, ast.copy_location(c, f)), f)

    fn = None

    def counting(self, w, prev):
        """v = 0; while v < E: body; v += 1"""
        t = w.test
        if w.orelse or not (isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name) and isinstance(prev.value, ast.Constant) and isinstance(prev.value.value, int) and not isinstance(prev.value.value, bool)):
            return None
        v = prev.targets[0].id
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and t.left.id == v) or not w.body:
            return None
        inc = w.body[-1]
        if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == v and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
            return None
        rest = ast.Module(w.body[:-1], [])
        if any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in ast.walk(rest)) or any(isinstance(x, ast.Continue) for x in ast.walk(rest)) or not w.body[:-1]:
            return None
        lim = t.comparators[0]
        if names(lim) & {x.id for x in ast.walk(rest) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
            return None
        args = [lim] if prev.value.value == 0 else [prev.value, lim]
        return ast.copy_location(ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name('range', ast.Load()), args, []), w.body[:-1], []), w)

    def visit_For(self, n):
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and not it.keywords and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 \
                and isinstance(n.target.elts[0], ast.Name) and n.target.elts[0].id not in self.reads:
            n.iter, n.target = it.args[0], n.target.elts[1]
        return self.generic_visit(n)

    reads = frozenset()

    def visit_FunctionDef(self, n):
        old, oldfn = self.reads, self.fn
        self.fn = n
        if not old:
            self.reads = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        self.generic_visit(n)
        self.reads, self.fn = old, oldfn
        return n


def normalize(tree, modname, inv):
    if inv is not None:
        known = set(inv.get(modname, ()))
        i = Inliner(tree, modname, known)
        i.run()
        tree = i.tree
    tree = Layout().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
